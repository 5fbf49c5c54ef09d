//! Malformed replies.

use super::Prop;
use crate::{catalog, cases::*, explore::*, rtypes::*, server::*, util::*};

pub const PROP: Prop = Prop {
    id: "C22",
    bounds: "every sequence of up to 2 (quick) or 4 (thorough) packets out of 17 (known, unknown, of other types and shapes) in the states handshake, ping, query, insert header and insert confirmation, with the connection then closed or left open; every single alteration of 17 complete exchanges and of the reply holding each type of the catalogue: each byte replaced (13 values quick, all 255 thorough), removed, preceded by another byte, replaced by over-long and huge variable-length numbers, each 8-byte word replaced by 16 limits; read by fetch_all and by rows; a second query follows on the same handle",
    assumptions: &[
        "a parser written from the protocol decides what the altered bytes mean; where real servers are more lenient than the protocol text (bool above 1, null flags above 1, rows in the first block) both the value and an error are allowed",
        "a reply that is complete but followed by stray bytes leaves the next query unchecked",
        "streams have no time limit: an open connection with an incomplete reply is not asked of them",
    ],
    run,
};

// ---------------------------------------------------------------- what the bytes mean

#[derive(Clone, Debug, PartialEq)]
enum Pk {
    Hello { rev: u64 },
    Data(u64, RBlock),
    Exc(E),
    Progress,
    Pong,
    Eos,
    Profile,
    Columns,
}

fn packet(r: &mut R) -> RRes<Pk> {
    Ok(match r.uvarint()? {
        0 => {
            r.str()?;
            r.uvarint()?;
            r.uvarint()?;
            let rev = r.uvarint()?;
            if rev >= 54058 {
                let z = r.str()?;
                if z.parse::<chrono_tz::Tz>().is_err() {
                    return Err(RErr::Bad(format!("time zone {z:?}")));
                }
            }
            if rev >= 54372 {
                r.str()?;
            }
            if rev >= 54401 {
                r.uvarint()?;
            }
            Pk::Hello { rev }
        }
        k @ (1 | 7 | 8) => {
            r.bytes()?;
            Pk::Data(k, RBlock::decode(r)?)
        }
        2 => {
            let code = u32::from_le_bytes(r.take(4)?.try_into().unwrap());
            Pk::Exc(E::Server(code, r.str()?, r.str()?, r.str()?))
        }
        3 => {
            for _ in 0..5 {
                r.uvarint()?;
            }
            Pk::Progress
        }
        4 => Pk::Pong,
        5 => Pk::Eos,
        6 => {
            for i in 0..6 {
                if i == 3 || i == 5 {
                    let b = r.u8()?;
                    if b > 1 && !r.lenient {
                        return Err(RErr::Bad(format!("bool {b}")));
                    }
                } else {
                    r.uvarint()?;
                }
            }
            Pk::Profile
        }
        11 => {
            r.str()?;
            r.str()?;
            Pk::Columns
        }
        k => return Err(RErr::Bad(format!("packet {k}"))),
    })
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    /// The reply is complete; so many bytes follow it.
    Done(usize),
    Exc(E),
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Hello,
    Ping,
    /// A query read with one of the four operations.
    Query,
    /// The header of an insert.
    Header,
    /// The confirmation of an insert.
    Confirm,
}

/// The blocks of the reply and how it ends; `soft`: something in it is unusual, and a client may as well refuse it.
#[derive(Clone, Debug)]
struct Meaning {
    blocks: Vec<RBlock>,
    end: End,
    soft: bool,
}

fn meaning_of(st: St, b: &[u8], lenient: bool) -> Meaning {
    let mut r = R::new(b);
    r.lenient = lenient;
    let mut m = Meaning { blocks: vec![], end: End::Done(0), soft: lenient };
    loop {
        let p = match packet(&mut r) {
            Ok(p) => p,
            Err(RErr::More) => {
                m.end = End::Bad("incomplete".into());
                return m;
            }
            Err(RErr::Bad(e)) => {
                m.end = End::Bad(e);
                return m;
            }
        };
        let left = b.len() - r.i;
        match (st, p) {
            (_, Pk::Exc(e)) => {
                m.end = End::Exc(e);
                return m;
            }
            (St::Hello, Pk::Hello { .. }) | (St::Ping, Pk::Pong) | (St::Query | St::Confirm, Pk::Eos) => {
                m.end = End::Done(left);
                return m;
            }
            (St::Header, Pk::Data(k, b)) => {
                m.soft |= k != 1;
                m.blocks.push(b);
                m.end = End::Done(left);
                return m;
            }
            (St::Query, Pk::Data(k, b)) => {
                m.soft |= k != 1;
                m.blocks.push(b);
            }
            (St::Query | St::Header | St::Confirm, Pk::Progress | Pk::Profile) => {}
            (St::Query | St::Header | St::Confirm, Pk::Columns) => m.soft = true,
            (_, p) => {
                m.end = End::Bad(format!("packet out of place: {p:?}"));
                return m;
            }
        }
    }
}

fn meaning(st: St, b: &[u8]) -> Meaning {
    let m = meaning_of(st, b, false);
    if !matches!(m.end, End::Bad(_)) {
        return m;
    }
    let l = meaning_of(st, b, true);
    if matches!(l.end, End::Bad(_)) && l.blocks.len() == m.blocks.len() {
        m
    } else {
        l
    }
}

/// Names of the types in a block, for messages.
fn kind(b: &[RBlock]) -> String {
    b.first().and_then(|b| b.cols.first()).map(|c| c.ty.name().split('(').next().unwrap().to_string()).unwrap_or_default()
}

/// A map with a key twice: a hash map keeps one of the values.
fn double(v: &V) -> bool {
    match v {
        V::A(x) => x.iter().any(double),
        V::M(x) => {
            let mut k: Vec<&V> = x.iter().map(|e| &e.0).collect();
            k.sort();
            k.windows(2).any(|w| w[0] == w[1]) || x.iter().any(|e| double(&e.0) || double(&e.1))
        }
        _ => false,
    }
}

/// Whether the outcome is one the bytes allow.
fn allowed(op: &Op, m: &Meaning, out: &Out) -> Result<(), (String, String)> {
    let bad = |k: &str, x: String| Err((k.to_string(), x));
    if *out == Out::Hang {
        return bad("hang", "the operation hangs".into());
    }
    if let Some(E::Other(x)) = out.error() {
        if x.starts_with("harness") {
            return bad("unreadable", format!("the result cannot be read: {x}"));
        }
    }
    // what a stream delivers: not the first block, and no block without columns
    let shown: Vec<RBlock> = m.blocks.iter().skip(1).filter(|b| !b.cols.is_empty()).map(norm_b).collect();
    let rows = |x: &[RBlock]| -> Vec<Vec<(String, T, V)>> {
        x.iter().flat_map(|b| (0..b.rows()).map(|i| b.cols.iter().map(|c| (c.name.clone(), c.ty.clone(), c.vals[i].clone())).collect()).collect::<Vec<_>>()).collect()
    };
    let first_rows = m.blocks.first().map(|b| b.rows() > 0).unwrap_or(false);
    let soft = m.soft || first_rows;
    match (&m.end, out.error()) {
        (End::Done(_), Some(_)) if soft => return Ok(()),
        (End::Exc(_), Some(_)) if soft => return Ok(()),
        (End::Exc(e), Some(x)) if e != x => return bad("other exception", format!("the server sent {e:?}, the operation failed with {x:?}")),
        (End::Bad(b), None) => return bad("success", format!("the reply is not well formed ({b}), the operation returned {out:?}")),
        (End::Exc(e), None) => return bad("success", format!("the server sent {e:?}, the operation returned {out:?}")),
        (End::Bad(b), Some(E::Server(..))) => return bad("made up", format!("the reply is not well formed ({b}), the operation failed with {out:?}")),
        _ => {}
    }
    if m.blocks.iter().any(|b| b.cols.iter().any(|c| c.vals.iter().any(double))) {
        return Ok(());
    }
    match (op, out) {
        (Op::Blocks(..), Out::Blocks(x, e)) => {
            let whole = matches!(m.end, End::Done(_)) || matches!(m.end, End::Exc(_));
            if x.len() > shown.len() || *x != shown[..x.len()] || (whole && x.len() != shown.len() && !soft) {
                return bad("data", format!("the reply is {shown:?} {:?}, the stream gave {x:?} {e:?}", m.end));
            }
        }
        (Op::Rows(..), Out::Rows(x, e)) => {
            let want = rows(&shown);
            let whole = matches!(m.end, End::Done(_)) || matches!(m.end, End::Exc(_));
            if x.len() > want.len() || *x != want[..x.len()] || (whole && x.len() != want.len() && !soft) {
                return bad("data", format!("the reply is {want:?} {:?}, the stream gave {x:?} {e:?}", m.end));
            }
        }
        (Op::Fetch(_), _) if matches!(m.end, End::Done(_)) => {
            let all: Vec<RBlock> = m.blocks.iter().filter(|b| !b.cols.is_empty()).map(norm_b).collect();
            let sig = |b: &RBlock| b.cols.iter().map(|c| c.ty.clone()).collect::<Vec<_>>();
            let names = |b: &RBlock| b.cols.iter().map(|c| c.name.clone()).collect::<Vec<_>>();
            let empty = RBlock::default();
            let f = all.first().unwrap_or(&empty);
            let mixed = all.iter().any(|b| sig(b) != sig(f));
            // blocks without rows add nothing, a client may ignore them
            let rest: Vec<RBlock> = all.iter().filter(|b| b.rows() > 0).cloned().collect();
            let g = rest.first().unwrap_or(f);
            let mixed_rows = rest.iter().any(|b| sig(b) != sig(g));
            let renamed = all.iter().any(|b| names(b) != names(f));
            match out {
                Out::Block(_) if mixed_rows => return bad("mixed", format!("the reply has blocks of different types, {all:?}, the operation returned {out:?}")),
                Out::Block(x) => {
                    let mut want = concat(&rest);
                    let mut got = x.clone();
                    if renamed || (mixed && rest.is_empty()) {
                        for b in [&mut want, &mut got] {
                            for c in &mut b.cols {
                                c.name.clear();
                            }
                        }
                    }
                    if rest.is_empty() {
                        if x.rows() > 0 {
                            return bad("data", format!("the reply has no rows, the operation returned {x:?}"));
                        }
                    } else if want != got {
                        return bad("data", format!("the reply is {want:?}, the operation returned {got:?}"));
                    }
                }
                _ if mixed || renamed => {}
                _ => return bad("refused", format!("a correct reply {all:?} fails: {out:?}")),
            }
        }
        _ => {
            if let (End::Done(_), Some(e)) = (&m.end, out.error()) {
                return bad("refused", format!("a correct reply fails: {e:?}"));
            }
        }
    }
    if let (End::Done(_), Some(e)) = (&m.end, out.error()) {
        if !matches!(op, Op::Fetch(_)) {
            return bad("refused", format!("a correct reply {:?} fails: {e:?}", m.blocks));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- playing a reply

#[derive(Clone)]
enum Part {
    Hello,
    Ping,
    /// The whole reply to the query.
    Reply,
    /// The header of an insert, which a good confirmation follows.
    Header,
    Confirm,
}

fn second() -> RBlock {
    RBlock::new(vec![col("z", T::U(16), vec![V::U(770), V::U(7)]), col("y", T::Str, vec![s("q"), s("")])])
}

/// Plays `bytes` in the given part of the exchange, then, if `open`, keeps the connection open, otherwise closes it.
fn play(op: &Op, part: &Part, bytes: &[u8], open: bool, header: &RBlock, plan: Plan) -> Result<(Meaning, Out), Fail> {
    let (st, what) = match part {
        Part::Hello => (St::Hello, "hello"),
        Part::Ping => (St::Ping, "ping"),
        Part::Reply => (St::Query, "query"),
        Part::Header => (St::Header, "insert header"),
        Part::Confirm => (St::Confirm, "insert confirmation"),
    };
    let m = meaning(st, bytes);
    let mut steps = vec![Step::Send(bytes.to_vec())];
    if let Part::Confirm = part {
        steps.insert(0, Step::Send(p_data(&header.header(), false)));
        steps.insert(1, Step::Recv);
    }
    if let Part::Header = part {
        steps.push(Step::Recv);
        steps.push(Step::Send(p_eos()));
    }
    if !open {
        steps.push(Step::Close);
    }
    let good = second();
    let w = {
        let (steps, good, part, header) = (steps.clone(), good.clone(), part.clone(), header.clone());
        World::new(Box::new(move |c, q| {
            if q.sql == "S2" {
                answer(&[good.clone()], false)
            } else if c == 0 && !matches!(part, Part::Hello | Part::Ping) {
                steps.clone()
            } else if q.sql.starts_with("INSERT") {
                answer_insert(&header, false)
            } else {
                answer(&[header.clone()], false)
            }
        }))
    };
    w.with(|i| {
        i.on_connect = Box::new(move |n, _| Conn::Accept(if n == 0 { plan.clone() } else { Plan::default() }));
        match part {
            Part::Hello => {
                let s = steps.clone();
                i.on_hello = Some(Box::new(move |c, _| if c == 0 { s.clone() } else { vec![Step::Send(p_hello(CLIENT_REVISION, "UTC"))] }));
            }
            Part::Ping => {
                let s = steps.clone();
                let mut first = true;
                i.on_ping = Some(Box::new(move |c| {
                    if c == 0 && std::mem::take(&mut first) {
                        s.clone()
                    } else {
                        vec![Step::Send(p_pong())]
                    }
                }));
            }
            _ => {}
        }
    });
    w.install();
    let opc = op.clone();
    let pinged = matches!(part, Part::Ping);
    let r = block_on(async {
        let p = pool(&format!("ping_before_query={}&query_timeout=5s&execute_timeout=5s&insert_timeout=5s&ping_timeout=5s&connection_timeout=5s&compression=none", !pinged && !matches!(part, Part::Hello)));
        let first = match get(&p).await {
            Ok(mut h) => {
                let out = if matches!(part, Part::Hello) { Out::Done } else { bounded(run_op(&mut h, &opc)).await };
                (out, Some(h))
            }
            Err(e) => (Out::Err(e), None),
        };
        let (out, h) = first;
        // the handle and the pool work afterwards
        let mut again = vec![];
        let leftover = matches!(m.end, End::Done(n) if n > 0);
        if out != Out::Hang && !(leftover && !out.is_err()) && !(matches!(part, Part::Hello) && !out.is_err()) {
            if let Some(mut h) = h {
                if pinged {
                    let _ = h.check_connection().await;
                }
                again.push(bounded(run_op(&mut h, &Op::Fetch("S2".into()))).await);
            }
            if out.is_err() {
                match get(&p).await {
                    Ok(mut h) => {
                        if pinged {
                            let _ = h.check_connection().await;
                        }
                        again.push(bounded(run_op(&mut h, &Op::Fetch("S2".into()))).await)
                    }
                    Err(e) => again.push(Out::Err(e)),
                }
            }
        }
        (out, again)
    });
    let Some((out, again)) = r else { return fail(format!("hang {what}"), format!("the {what} hangs; the reply means {m:?}")) };
    if let Err((k, x)) = allowed(op, &m, &out) {
        return fail(format!("{k}: {what} {}", kind(&m.blocks)), x);
    }
    for x in again {
        if x != Out::Block(norm_b(&good)) {
            return fail(format!("afterwards: {what}"), format!("after {out:?} (the reply means {:?}) the next query gives {x:?}", m.end));
        }
    }
    Ok((m, out))
}

// ---------------------------------------------------------------- scenarios

const NUMBERS: &[&[u8]] = &[
    &[0xff, 0xff, 0xff, 0xff, 0x0f],
    &[0x80, 0x80, 0x80, 0x80, 0x10],
    &[0xff, 0xff, 0xff, 0xff, 0x07],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2],
    &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
    &[0x80, 0x80, 0x80, 1],
    &[0x81, 0],
];
const WORDS: &[u64] = &[0, 1, 2, 255, 65536, 1 << 24, 1 << 32, 1 << 40, 1 << 60, 1 << 61, 1 << 63, u64::MAX, u64::MAX - 1, 0x0601, 0x0600, 0x0603];

/// One alteration of the bytes.
fn alter(ch: &Ch, b: &[u8], all: bool) -> Vec<u8> {
    let p = ch.choose(b.len());
    let mut o = b.to_vec();
    let x = b[p];
    let subs: Vec<u8> = if all {
        (0..=255).filter(|y| *y != x).collect()
    } else {
        let mut v = vec![0, 1, 2, 0x7f, 0x80, 0xff, x ^ 1, x ^ 0x80, x.wrapping_add(1), x.wrapping_sub(1), x ^ 0x10, b'0', b'(', b')', b'\''];
        v.sort();
        v.dedup();
        v.retain(|y| *y != x);
        v
    };
    let words = if p + 8 <= b.len() { WORDS.len() } else { 0 };
    let mut k = ch.choose(subs.len() + 1 + 3 + NUMBERS.len() + words);
    let note;
    if k < subs.len() {
        o[p] = subs[k];
        note = format!("byte {p}: {x:#x} -> {:#x}", subs[k]);
    } else {
        k -= subs.len();
        if k == 0 {
            o.remove(p);
            note = format!("byte {p} ({x:#x}) removed");
        } else if k <= 3 {
            o.insert(p, [0, 1, 0xff][k - 1]);
            note = format!("before byte {p}: {:#x} added", [0, 1, 0xff][k - 1]);
        } else if k <= 3 + NUMBERS.len() {
            let n = NUMBERS[k - 4];
            o.splice(p..p + 1, n.iter().copied());
            note = format!("byte {p} ({x:#x}) -> {n:02x?}");
        } else {
            let n = WORDS[k - 4 - NUMBERS.len()];
            o[p..p + 8].copy_from_slice(&n.to_le_bytes());
            note = format!("bytes {p}..{}: {n:#x}", p + 8);
        }
    }
    ch.note(note);
    o
}

/// Few and short values of a type.
fn small(t: &T) -> Vec<V> {
    let mut v: Vec<V> = catalog::values(t)
        .into_iter()
        .filter(|v| {
            let mut o = vec![];
            encode_column(t, std::slice::from_ref(v), &mut o);
            o.len() <= 60
        })
        .collect();
    v.truncate(3);
    v
}

fn reply_of(b: &RBlock) -> Vec<u8> {
    let mut o = p_data(&b.header(), false);
    o.extend(p_data(b, false));
    o.extend(p_eos());
    o
}

/// Every alteration of a reply with a column of the type.
fn columns(ch: &Ch, types: &[T], all: bool) -> Result<Obs, Fail> {
    let t = ch.pick(types);
    let v = small(t);
    let b = RBlock::new(vec![col("c", t.clone(), v)]);
    // the header is the same for all, so its bytes are altered elsewhere
    let pre = p_data(&b.header(), false);
    let mut body = p_data(&b, false);
    body.extend(p_eos());
    ch.note(format!("{} of {}", t.name(), b.rows()));
    let mut bytes = pre;
    bytes.extend(alter(ch, &body, all));
    let op = if ch.flag() { Op::Rows("S".into(), ALL) } else { Op::Fetch("S".into()) };
    let (m, out) = play(&op, &Part::Reply, &bytes, false, &b, Plan::default())?;
    obs(&(format!("{:?}", m.end), out))
}

/// Every alteration of replies of all kinds, with the connection closed or kept open.
fn exchanges(ch: &Ch, all: bool) -> Result<Obs, Fail> {
    let two = |bs: &[RBlock]| {
        let mut o = p_data(&bs[0].header(), false);
        o.extend(p_progress(CLIENT_REVISION, 300));
        for b in bs {
            o.extend(p_data(b, false));
        }
        o.extend(p_profile());
        o.extend(p_eos());
        o
    };
    let q = || "S".to_string();
    let exec: Vec<u8> = [p_progress(CLIENT_REVISION, 130), p_eos()].concat();
    let exc_after: Vec<u8> = [p_data(&b1().header(), false), p_data(&b1(), false), exc()].concat();
    let header: Vec<u8> = [p_table_columns(), p_data(&b1().header(), false)].concat();
    let list: Vec<(&str, Op, Part, Vec<u8>)> = vec![
        ("hello", Op::Ping, Part::Hello, p_hello(CLIENT_REVISION, "UTC")),
        ("hello, exception", Op::Ping, Part::Hello, exc()),
        ("ping", Op::Ping, Part::Ping, p_pong()),
        ("ping, exception", Op::Ping, Part::Ping, exc()),
        ("execute", Op::Exec(q()), Part::Reply, exec),
        ("execute, exception", Op::Exec(q()), Part::Reply, exc()),
        ("execute, rows", Op::Exec(q()), Part::Reply, two(&[b1(), b2()])),
        ("fetch", Op::Fetch(q()), Part::Reply, two(&[b1(), b2()])),
        ("fetch, exception", Op::Fetch(q()), Part::Reply, exc_after.clone()),
        ("stream_blocks", Op::Blocks(q(), ALL), Part::Reply, two(&[b1(), b2()])),
        ("stream_blocks, exception", Op::Blocks(q(), ALL), Part::Reply, exc_after.clone()),
        ("stream", Op::Rows(q(), ALL), Part::Reply, two(&[b1(), b2()])),
        ("stream, exception", Op::Rows(q(), ALL), Part::Reply, exc_after),
        ("insert, header", Op::Insert("t".into(), b1()), Part::Header, header),
        ("insert, exception", Op::Insert("t".into(), b1()), Part::Header, exc()),
        ("insert, confirmation", Op::Insert("t".into(), b1()), Part::Confirm, [p_progress(CLIENT_REVISION, 130), p_profile(), p_eos()].concat()),
        ("insert, late exception", Op::Insert("t".into(), b1()), Part::Confirm, exc()),
    ];
    let (name, op, part, bytes) = ch.pick(&list);
    ch.note(*name);
    let bytes = alter(ch, bytes, all);
    let open = ch.flag();
    judge(op, part, &bytes, open)
}

fn judge(op: &Op, part: &Part, bytes: &[u8], open: bool) -> Result<Obs, Fail> {
    if open && matches!(op, Op::Blocks(..) | Op::Rows(..)) && matches!(meaning(St::Query, bytes).end, End::Bad(_)) {
        return obs(&"a stream has no time limit");
    }
    if let Part::Header = part {
        return insert(op, bytes, open);
    }
    let (m, out) = play(op, part, bytes, open, &b1(), Plan::default())?;
    obs(&(format!("{:?}", m.end), out))
}

/// An insert whose header is altered fails, or sends what the header asks for.
fn insert(op: &Op, bytes: &[u8], open: bool) -> Result<Obs, Fail> {
    let m = meaning(St::Header, bytes);
    let w = {
        let bytes = bytes.to_vec();
        World::new(Box::new(move |c, q| {
            if q.sql == "S2" {
                answer(&[second()], false)
            } else if c == 0 {
                let mut v = vec![Step::Send(bytes.clone()), Step::Recv, Step::Send(p_eos())];
                if !open {
                    v.insert(1, Step::Close);
                }
                v
            } else {
                answer_insert(&b1(), false)
            }
        }))
    };
    w.install();
    let op = op.clone();
    let r = block_on(async {
        let p = pool("insert_timeout=5s&query_timeout=5s&ping_timeout=5s&compression=none&ping_before_query=true");
        let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
        let out = bounded(run_op(&mut h, &op)).await;
        let again = bounded(run_op(&mut h, &Op::Fetch("S2".into()))).await;
        Ok::<_, String>((out, again))
    });
    let (out, again) = match r {
        None => return fail("hang insert header", "the insert hangs"),
        Some(Err(e)) => return fail("no handle", e),
        Some(Ok(x)) => x,
    };
    if out == Out::Hang {
        return fail("hang insert header", "the insert hangs");
    }
    let left = matches!(m.end, End::Done(n) if n > 0);
    match (&m.end, &out) {
        (End::Exc(e), Out::Err(x)) if e != x && !m.soft => return fail("insert: other exception", format!("the server sent {e:?}, the insert failed with {x:?}")),
        (End::Bad(_) | End::Exc(_), Out::Done) => return fail("insert: success", format!("the header is {:?}, the insert succeeded", m.end)),
        (End::Bad(b), Out::Err(E::Server(..))) => return fail("insert: made up", format!("{b}: {out:?}")),
        (End::Done(0), Out::Done) => {
            let h = norm_b(&m.blocks[0]);
            let sent: Vec<RBlock> = w.exchanges().into_iter().filter(|x| x.1.starts_with("INSERT")).flat_map(|x| x.2).filter(|b| !b.cols.is_empty()).collect();
            let ty = |b: &RBlock| b.cols.iter().map(|c| c.ty.clone()).collect::<Vec<_>>();
            if sent.len() != 1 || ty(&norm_b(&sent[0])) != ty(&h) || sent[0].rows() != b1().rows() {
                return fail("insert: sent", format!("the header asks for {h:?}, sent {sent:?}"));
            }
        }
        (End::Done(_), Out::Err(e)) if open && !m.soft && !left && m.blocks[0].rows() == 0 => {
            let ty: Vec<T> = m.blocks[0].cols.iter().map(|c| norm_t(&c.ty)).collect();
            if ty == b1().cols.iter().map(|c| norm_t(&c.ty)).collect::<Vec<_>>() {
                return fail("insert: refused", format!("the header {:?} is right, the insert failed with {e:?}", m.blocks));
            }
        }
        _ => {}
    }
    let fine = !(left && out == Out::Done);
    if fine && again != Out::Block(norm_b(&second())) {
        return fail("afterwards: insert header", format!("after {out:?} (the header means {:?}) the next query gives {again:?}", m.end));
    }
    obs(&(format!("{:?}", m.end), out))
}

/// Every sequence of packets in every state.
fn packets(ch: &Ch, len: usize) -> Result<Obs, Fail> {
    let other = RBlock::new(vec![col("a", T::Str, vec![s("x"), s("y")]), col("s", nullable(T::Str), vec![V::Null, V::Null])]);
    let narrow = RBlock::new(vec![col("a", T::U(32), vec![V::U(9)])]);
    let unknown = |n: u64| {
        let mut o = vec![];
        uvarint(&mut o, n);
        o
    };
    let list: Vec<(&str, Vec<u8>)> = vec![
        ("end", p_eos()),
        ("header", p_data(&b1().header(), false)),
        ("rows", p_data(&b1(), false)),
        ("other types", p_data(&other, false)),
        ("other columns", p_data(&narrow, false)),
        ("no columns", p_data(&RBlock::default(), false)),
        ("exception", exc()),
        ("progress", p_progress(CLIENT_REVISION, 3)),
        ("pong", p_pong()),
        ("hello", p_hello(CLIENT_REVISION, "Asia/Tokyo")),
        ("profile", p_profile()),
        ("totals", p_block(7, &b2(), false)),
        ("extremes", p_block(8, &b1(), false)),
        ("columns", p_table_columns()),
        ("unknown 9", unknown(9)),
        ("unknown 10", unknown(10)),
        ("unknown 12", unknown(12)),
        ("unknown huge", unknown(u64::MAX)),
    ];
    let q = || "S".to_string();
    let ops: Vec<(Op, Part)> = vec![
        (Op::Ping, Part::Hello),
        (Op::Ping, Part::Ping),
        (Op::Exec(q()), Part::Reply),
        (Op::Fetch(q()), Part::Reply),
        (Op::Blocks(q(), ALL), Part::Reply),
        (Op::Rows(q(), ALL), Part::Reply),
        (Op::Insert("t".into(), b1()), Part::Header),
        (Op::Insert("t".into(), b1()), Part::Confirm),
    ];
    let (op, part) = ch.pick(&ops);
    let mut bytes = vec![];
    for _ in 0..len {
        let k = ch.choose(list.len() + 1);
        if k == list.len() {
            break;
        }
        ch.note(list[k].0);
        bytes.extend(&list[k].1);
    }
    let open = ch.flag();
    ch.note(format!("{op:?} open={open}"));
    judge(op, part, &bytes, open)
}

fn run(cx: &mut Ctx) {
    let n = cx.pick(2, 4);
    cx.explore("sequences of packets", |ch| packets(ch, n));
    let all = cx.thorough;
    cx.explore("exchanges altered", |ch| exchanges(ch, all));
    let scalars = catalog::scalars();
    cx.explore("columns altered: plain types", |ch| columns(ch, &scalars, all));
    let wrapped = catalog::wrapped();
    cx.explore("columns altered: wrapped types", |ch| columns(ch, &wrapped, all));
    let nested = catalog::nested();
    cx.explore("columns altered: nested types", |ch| columns(ch, &nested, all));
}
