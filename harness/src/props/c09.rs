//! Compression.

use super::Prop;
use crate::{cases::*, catalog, explore::*, rtypes::*, server::*, util::*};

pub const PROP: Prop = Prop {
    id: "C09",
    bounds: "transparency: 12 exchanges and every catalogue type, with and without compression; contents: strings of every length to 700 (thorough: 3000) in 6 patterns (constant, random, short periods, runs) sent and received, so that frames of every size pass; frames: a reply split into frames at every position, every pair of positions (thorough: triple), and in frames of 1..=40 bytes; large blocks of 1 to 5 MB (thorough: 2.3 GB) both ways; corruption: in every compressed byte of the reply every other value (quick: every single bit and 4 values), in one reply kind; every pair of single-bit changes in the headers, every swap of neighbouring bytes; forgery: frames with a correct checksum but every combination of wrong sizes, methods and payload bytes",
    assumptions: &["frames use LZ4, the only method the client asks for", "a corruption that the 128-bit checksum cannot see is outside the property"],
    run,
};

/// The same exchange with and without compression.
fn transparent(ch: &Ch, cases: &[Case]) -> Result<Obs, Fail> {
    let c = ch.pick(cases);
    let ping = ch.flag();
    ch.note(format!("{} ping={ping}", c.name));
    let go = |compress: bool| {
        let w = world(c, compress, vec![]);
        w.install();
        let op = c.op.clone();
        let out = block_on(async {
            let p = pool(&params(ping, compress));
            let mut h = get(&p).await.unwrap();
            bounded(run_op(&mut h, &op)).await
        })
        .unwrap_or(Out::Hang);
        let mut pk = w.packets();
        let flags: Vec<bool> = pk.iter().filter_map(|(_, p)| if let Pkt::Query(q) = p { Some(q.compression != 0) } else { None }).collect();
        for (_, p) in &mut pk {
            if let Pkt::Query(q) = p {
                q.compression = 0;
            }
        }
        (out, format!("{pk:?}"), flags, w.bad())
    };
    let (a, b) = (go(false), go(true));
    if a.3.is_some() || b.3.is_some() {
        return fail(format!("request {}", c.name), format!("{:?} {:?}", a.3, b.3));
    }
    if a.0 != b.0 || !c.want.met(&a.0) {
        return fail(format!("outcome {}", c.name), format!("without compression {:?}, with {:?}", a.0, b.0));
    }
    if a.1 != b.1 {
        return fail(format!("sent {}", c.name), format!("without compression {}, with {}", a.1, b.1));
    }
    if a.2.iter().any(|f| *f) || b.2.iter().any(|f| !*f) {
        return fail("flag", format!("compression flags {:?} {:?}", a.2, b.2));
    }
    obs(&(c.name, ping))
}

/// A block goes through the server and back to it.
fn round(b: &RBlock, reply: Vec<u8>, plan: Plan) -> Result<(), Fail> {
    let b2 = b.clone();
    let w = World::new(Box::new(move |_, q| if q.sql == "S" { vec![Step::Send(reply.clone()), Step::Send(p_eos())] } else { answer_insert(&b2, true) }));
    w.with(|i| i.on_connect = Box::new(move |_, _| Conn::Accept(plan.clone())));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool("compression=lz4");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let x = h.query("S").fetch_all().await.map_err(|e| e.to_string())?;
            let got = read_block(&x)?;
            let y: Vec<_> = (0..b.cols.len()).map(|i| (b.cols[i].name.clone(), x.columns()[i].clone())).collect();
            let mut out = clickhouse_rs::Block::new();
            for (n, c) in y {
                out = out.column(&n, c);
            }
            h.insert("t", out).await.map_err(|e| e.to_string())?;
            Ok::<_, String>(got)
        })
    });
    let got = match r {
        Err(p) => return fail("panic", format!("panic: {p}")),
        Ok(None) => return fail("hang", "the exchange hangs"),
        Ok(Some(Err(e))) => return fail("error", format!("a correct exchange fails: {e}; {:?}", w.bad())),
        Ok(Some(Ok(g))) => g,
    };
    if let Some(m) = w.bad() {
        return fail("malformed", format!("the server cannot read what was sent: {m}"));
    }
    let cut = |b: &RBlock| format!("{:?}", norm_b(b)).chars().take(300).collect::<String>();
    if norm_b(&got) != norm_b(b) {
        return fail("received", format!("sent {}, read {}", cut(b), cut(&got)));
    }
    let back: Vec<RBlock> = w.exchanges().into_iter().filter(|x| x.1.starts_with("INSERT")).flat_map(|x| x.2).filter(|b| !b.cols.is_empty()).collect();
    if norm_b(&concat(&back)) != norm_b(b) {
        return fail("sent", format!("inserted {}, the server has {}", cut(b), cut(&concat(&back))));
    }
    Ok(())
}

fn pattern(k: usize, n: usize) -> Vec<u8> {
    let mut x = 0x2545_f491_4f6c_dd1du64;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 32) as u8
    };
    match k {
        0 => vec![0; n],
        1 => (0..n).map(|_| rnd()).collect(),
        2 => (0..n).map(|i| (i % 3) as u8).collect(),
        3 => (0..n).map(|i| if i % 40 < 20 { 7 } else { rnd() }).collect(),
        4 => (0..n).map(|i| (i / 5) as u8).collect(),
        _ => {
            // a random stretch that repeats at a long distance
            let a: Vec<u8> = (0..n / 2 + 1).map(|_| rnd()).collect();
            a.iter().chain(&a).take(n).copied().collect()
        }
    }
}

fn data(v: Vec<Vec<u8>>) -> RBlock {
    RBlock::new(vec![col("s", T::Str, v.into_iter().map(V::B).collect())])
}

fn packet(raw: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![1, 0];
    for r in raw {
        o.extend(frame(r));
    }
    o
}

fn contents(ch: &Ch, max: usize) -> Result<Obs, Fail> {
    let k = ch.choose(6);
    let n = ch.choose(max);
    let store = ch.flag();
    ch.note(format!("pattern {k}, {n} bytes, stored={store}"));
    let b = data(vec![pattern(k, n)]);
    let raw = b.encode_raw();
    let reply = if store {
        // an encoder that never finds a match
        let mut o = vec![1, 0];
        o.extend(frame_with(&raw, &literal(&raw)));
        o
    } else {
        packet(&[&raw])
    };
    round(&b, reply, Plan::default())?;
    obs(&(k, n, store))
}

/// An LZ4 block of literals only.
fn literal(x: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if x.len() < 15 {
        o.push((x.len() as u8) << 4);
    } else {
        o.push(0xf0);
        let mut r = x.len() - 15;
        while r >= 255 {
            o.push(255);
            r -= 255;
        }
        o.push(r as u8);
    }
    o.extend(x);
    o
}

fn types(ch: &Ch, types: &[T]) -> Result<Obs, Fail> {
    let t = ch.pick(types).clone();
    let size = *ch.pick(&[1usize, 3, 7, 1000]);
    ch.note(format!("{} in frames of {size}", t.name()));
    let v = catalog::values(&t);
    let b = RBlock::new(vec![col("k", T::U(8), (0..v.len()).map(|i| V::U(i as u128)).collect()), col("c", t.clone(), v)]);
    let raw = b.encode_raw();
    let parts: Vec<&[u8]> = raw.chunks(size).collect();
    round(&b, packet(&parts), Plan::default()).map_err(|f| Fail { key: format!("{} {}", f.key, t.name()), ..f })?;
    obs(&(t, size))
}

/// One block in several frames.
fn split(ch: &Ch, cuts: usize) -> Result<Obs, Fail> {
    let b = RBlock::new(vec![
        col("a", T::U(64), vec![V::U(1), V::U(u64::MAX as u128)]),
        col("s", nullable(T::Str), vec![s("héllo"), V::Null]),
        col("x", array(T::U(16)), vec![V::A(vec![V::U(1), V::U(2)]), V::A(vec![])]),
        col("l", low(T::Str), vec![s("p"), s("q")]),
    ]);
    let raw = b.encode_raw();
    let mut at = vec![0];
    let mut lo = 1;
    for _ in 0..cuts {
        let x = lo + ch.choose(raw.len() - lo);
        at.push(x);
        lo = (x + 1).min(raw.len() - 1);
    }
    at.dedup();
    at.push(raw.len());
    let parts: Vec<&[u8]> = at.windows(2).map(|w| &raw[w[0]..w[1]]).filter(|p| !p.is_empty()).collect();
    let segment = ch.flag();
    let plan = if segment { Plan { chunk: 7, ..Default::default() } } else { Plan::default() };
    ch.note(format!("frames at {at:?} of {}, read in pieces: {segment}", raw.len()));
    round(&b, packet(&parts), plan)?;
    obs(&(at, segment))
}

fn large(ch: &Ch) -> Result<Obs, Fail> {
    let k = ch.choose(6);
    let n = *ch.pick(&[1_048_000usize, 1_048_555, 1_048_576, 1_100_000, 2_097_152, 5_000_000]);
    let rows = *ch.pick(&[1usize, 100]);
    ch.note(format!("{n} bytes of pattern {k} in {rows} rows"));
    let all = pattern(k, n);
    let b = data(all.chunks(n.div_ceil(rows)).map(|c| c.to_vec()).collect());
    let raw = b.encode_raw();
    let parts: Vec<&[u8]> = raw.chunks(if k % 2 == 0 { 1 << 20 } else { usize::MAX }).collect();
    round(&b, packet(&parts), Plan::default())?;
    obs(&(k, n, rows))
}

/// More than LZ4 or the server take in one frame.
fn huge(ch: &Ch) -> Result<Obs, Fail> {
    let mb = *ch.pick(&[1100usize, 2300]);
    ch.note(format!("an insert of {mb} MB"));
    let ins = answer_insert(&data(vec![]), true);
    let w = World::new(Box::new(move |_, _| ins.clone()));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool("compression=lz4&insert_timeout=100000s");
            let mut h = get(&p).await.map_err(|e| format!("{e:?}"))?;
            let b = clickhouse_rs::Block::new().column("s", (0..mb).map(|i| vec![(i % 7) as u8; 1 << 20]).collect::<Vec<_>>());
            h.insert("t", b).await.map_err(|e| e.to_string())
        })
    });
    match r {
        Ok(Some(Ok(()))) if w.bad().is_none() => {}
        r => return fail("huge", format!("an insert of {mb} MB: {r:?} {:?}", w.bad())),
    }
    let got: Vec<RBlock> = w.exchanges().into_iter().flat_map(|x| x.2).filter(|b| !b.cols.is_empty()).collect();
    let ok = got.len() == 1 && got[0].rows() == mb && got[0].cols[0].vals.iter().enumerate().all(|(i, v)| matches!(v, V::B(b) if b.len() == 1 << 20 && b.iter().all(|x| *x == (i % 7) as u8)));
    if !ok {
        return fail("huge", format!("an insert of {mb} MB arrives altered"));
    }
    obs(&mb)
}

// ---------------------------------------------------------------- corruption

struct Victim {
    name: &'static str,
    op: Op,
    reply: Vec<Step>,
    /// Positions in the reply that belong to compressed frames.
    at: Vec<usize>,
    /// Positions within the frames' headers.
    head: Vec<usize>,
}

fn victims() -> Vec<Victim> {
    let b = RBlock::new(vec![
        col("a", T::U(32), (0..6).map(|i| V::U(i * 1000)).collect()),
        col("s", nullable(T::Str), (0..6).map(|i| if i % 2 == 0 { s("abcabcabcabcabcabcabcabc") } else { V::Null }).collect()),
    ]);
    let mut v = vec![];
    for (name, op) in [("fetch_all", Op::Fetch("S".into())), ("stream_blocks", Op::Blocks("S".into(), ALL)), ("stream", Op::Rows("S".into(), ALL)), ("insert", Op::Insert("t".into(), b.clone()))] {
        let (mut at, mut head) = (vec![], vec![]);
        let mut reply = vec![];
        let mut pos = 0;
        let mut add = |reply: &mut Vec<Step>, x: &RBlock| {
            let p = p_data(x, true);
            at.extend(pos + 2..pos + p.len());
            head.extend(pos + 2..pos + 27);
            pos += p.len();
            reply.push(Step::Send(p));
        };
        add(&mut reply, &b.header());
        if matches!(op, Op::Insert(..)) {
            reply.push(Step::Recv);
        } else {
            add(&mut reply, &b);
        }
        reply.push(Step::Send(p_eos()));
        reply.push(Step::Close);
        v.push(Victim { name, op, reply, at, head });
    }
    v
}

fn damaged(ch: &Ch, v: &Victim, change: Vec<(usize, u8)>, close: bool) -> Result<Obs, Fail> {
    let mut bytes = v.reply.clone();
    let mut what = vec![];
    for (pos, x) in &change {
        let mut at = 0;
        for st in &mut bytes {
            if let Step::Send(b) = st {
                if *pos >= at && *pos < at + b.len() {
                    what.push(format!("byte {pos}: {} -> {x}", b[pos - at]));
                    b[pos - at] = *x;
                }
                at += b.len();
            }
        }
    }
    if !close {
        bytes.pop();
    }
    ch.note(format!("{}: {what:?}, closed at the end: {close}", v.name));
    let good: Vec<Step> = v.reply[..v.reply.len() - 1].to_vec();
    let mut n = 0;
    let w = World::new(Box::new(move |_, _| {
        n += 1;
        if n == 1 {
            bytes.clone()
        } else {
            good.clone()
        }
    }));
    w.install();
    let op = v.op.clone();
    let r = guard(|| {
        block_on(async {
            let p = pool("compression=lz4&query_timeout=5s&insert_timeout=5s");
            let mut h = get(&p).await.unwrap();
            let a = bounded(run_op(&mut h, &op)).await;
            drop(h);
            let mut h = get(&p).await.unwrap();
            let b = bounded(run_op(&mut h, &op)).await;
            (a, b)
        })
    });
    let (a, b) = match r {
        Err(p) => return fail(format!("panic {}", v.name), format!("{}: {what:?}: panic: {p}", v.name)),
        Ok(None) => return fail(format!("hang {}", v.name), format!("{}: {what:?}: hangs", v.name)),
        Ok(Some(x)) => x,
    };
    if a == Out::Hang && close {
        return fail(format!("hang {}", v.name), format!("{}: {what:?}: hangs", v.name));
    }
    if !a.is_err() && a != Out::Hang {
        return fail(format!("accepted {}", v.name), format!("{}: with {what:?} it succeeds: {a:?}", v.name));
    }
    if b.is_err() || b == Out::Hang {
        return fail(format!("after {}", v.name), format!("{}: after {what:?} ({a:?}) the next operation gives {b:?}", v.name));
    }
    obs(&(v.name, a))
}

fn byte_of(v: &Victim, pos: usize) -> u8 {
    let mut at = 0;
    for st in &v.reply {
        if let Step::Send(b) = st {
            if pos < at + b.len() {
                return b[pos - at];
            }
            at += b.len();
        }
    }
    unreachable!()
}

/// Size fields whose corruption makes the client allocate a lot need not be repeated in every way.
fn single(ch: &Ch, vs: &[Victim], all: bool) -> Result<Obs, Fail> {
    let v = ch.pick(vs);
    let pos = *ch.pick(&v.at);
    let old = byte_of(v, pos);
    let new = if all {
        let x = ch.choose(255) as u8;
        if x >= old { x + 1 } else { x }
    } else {
        let x = ch.choose(12);
        if x < 8 {
            old ^ (1 << x)
        } else {
            let y = [0u8, 255, 128, 13][x - 8];
            if y == old { old ^ 0x55 } else { y }
        }
    };
    let close = ch.flag();
    damaged(ch, v, vec![(pos, new)], close)
}

fn pairs(ch: &Ch, vs: &[Victim], all: bool) -> Result<Obs, Fail> {
    let v = ch.pick(vs);
    let n = v.head.len();
    let i = ch.choose(n - 1);
    let j = i + 1 + ch.choose(n - 1 - i);
    let (a, b) = (v.head[i], v.head[j]);
    // large sizes cost time; one change covers them
    let bits = |p: usize| if !all && v.head.iter().any(|h| (h + 18 == p || h + 19 == p || h + 20 == p) && !v.head.contains(&(h - 1))) { 1 } else { 8 };
    let x = byte_of(v, a) ^ (1 << ch.choose(bits(a)));
    let y = byte_of(v, b) ^ (1 << ch.choose(bits(b)));
    damaged(ch, v, vec![(a, x), (b, y)], true)
}

fn swaps(ch: &Ch, vs: &[Victim]) -> Result<Obs, Fail> {
    let v = ch.pick(vs);
    let i = ch.choose(v.at.len() - 1);
    let (a, b) = (v.at[i], v.at[i + 1]);
    let (x, y) = (byte_of(v, a), byte_of(v, b));
    if x == y || b != a + 1 {
        return obs(&0);
    }
    damaged(ch, v, vec![(a, y), (b, x)], true)
}

// ---------------------------------------------------------------- forgery

fn seal(f: &[u8]) -> Vec<u8> {
    let (lo, hi) = crate::city::city128(f);
    let mut o = vec![1, 0];
    o.extend(lo.to_le_bytes());
    o.extend(hi.to_le_bytes());
    o.extend(f);
    o
}

/// A frame with a valid checksum and, if `valid`, a readable payload, which the reference reads as `want` (None: not at all).
fn forged(ch: &Ch, f: Vec<u8>, valid: bool, want: Option<RBlock>, what: String) -> Result<Obs, Fail> {
    ch.note(what.clone());
    let pkt = seal(&f);
    let good = answer(&[b1()], true);
    let mut n = 0;
    let w = World::new(Box::new(move |_, _| {
        n += 1;
        if n == 1 {
            vec![Step::Send(pkt.clone()), Step::Send(p_eos()), Step::Close]
        } else {
            good.clone()
        }
    }));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool("compression=lz4");
            let mut h = get(&p).await.unwrap();
            let a = bounded(run_op(&mut h, &Op::Fetch("S".into()))).await;
            drop(h);
            let mut h = get(&p).await.unwrap();
            let b = bounded(run_op(&mut h, &Op::Fetch("S".into()))).await;
            (a, b)
        })
    });
    let (a, b) = match r {
        Err(p) => return fail("forged panic", format!("{what}: panic: {p}")),
        Ok(None) => return fail("forged hang", format!("{what}: hangs")),
        Ok(Some(x)) => x,
    };
    if a == Out::Hang {
        return fail("forged hang", format!("{what}: hangs"));
    }
    if !a.is_err() && (!valid || (want.is_some() && a.data() != want.as_ref().map(norm_b))) {
        return fail("forged accepted", format!("{what}: read as {a:?}, should be {want:?}"));
    }
    if b.data() != Some(norm_b(&b1())) {
        return fail("forged after", format!("{what}: then {b:?}"));
    }
    obs(&(what, a.is_err()))
}

fn sizes(ch: &Ch) -> Result<Obs, Fail> {
    let b = data(vec![b"hello world".to_vec(), b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa".to_vec()]);
    let raw = b.encode_raw();
    let payload = crate::lz4::compress(&raw);
    let (c, o) = (payload.len() as u32 + 9, raw.len() as u32);
    let mut sizes: Vec<u32> = (0..=24).chain(c - 6..=c + 6).chain(o - 6..=o + 20).chain([1 << 16, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_fff6, 0xffff_ffff]).collect();
    sizes.sort();
    sizes.dedup();
    let fc = *ch.pick(&sizes);
    let fo = *ch.pick(&sizes);
    let method = *ch.pick(&[0x82u8, 0x02, 0x90, 0x91, 0]);
    if fc > 1 << 20 && fo != o {
        return obs(&0);
    }
    let mut f = vec![method];
    f.extend(fc.to_le_bytes());
    f.extend(fo.to_le_bytes());
    f.extend(&payload);
    let exact = method == 0x82 && fc == c && fo == o;
    // the checksum covers what the announced size covers
    let end = (fc as usize).clamp(9, f.len());
    let mut g = seal(&f[..end])[2..].to_vec();
    g.extend(&f[end..]);
    ch.note(format!("sizes {fc} {fo} of {c} {o}, method {method:x}"));
    let mut pkt = vec![1, 0];
    pkt.extend(g);
    let good = answer(&[b1()], true);
    let mut n = 0;
    let w = World::new(Box::new(move |_, _| {
        n += 1;
        if n == 1 {
            vec![Step::Send(pkt.clone()), Step::Send(p_eos()), Step::Close]
        } else {
            good.clone()
        }
    }));
    w.install();
    let r = guard(|| {
        block_on(async {
            let p = pool("compression=lz4");
            let mut h = get(&p).await.unwrap();
            let a = bounded(run_op(&mut h, &Op::Fetch("S".into()))).await;
            drop(h);
            let mut h = get(&p).await.unwrap();
            (a, bounded(run_op(&mut h, &Op::Fetch("S".into()))).await)
        })
    });
    let what = format!("a frame announcing {fc} compressed and {fo} original bytes instead of {c} and {o}, method {method:x}");
    let (a, b2) = match r {
        Err(p) => return fail("sizes panic", format!("{what}: panic: {p}")),
        Ok(None) | Ok(Some((Out::Hang, _))) => return fail("sizes hang", format!("{what}: hangs")),
        Ok(Some(x)) => x,
    };
    if exact != !a.is_err() || (exact && a.data() != Some(norm_b(&b))) {
        return fail("sizes", format!("{what}: {a:?}"));
    }
    if b2.data() != Some(norm_b(&b1())) {
        return fail("sizes after", format!("{what}: then {b2:?}"));
    }
    obs(&(fc, fo, method))
}

fn payloads(ch: &Ch, all: bool) -> Result<Obs, Fail> {
    let b = data(vec![b"hello world".to_vec(), vec![b'a'; 30]]);
    let raw = b.encode_raw();
    let mut p = crate::lz4::compress(&raw);
    let i = ch.choose(p.len());
    let x = if all { ch.choose(256) as u8 } else { *ch.pick(&[0u8, 1, 0x0f, 0x10, 0x7f, 0x80, 0xf0, 0xff]) };
    let old = p[i];
    p[i] = x;
    let mut f = vec![0x82];
    f.extend((p.len() as u32 + 9).to_le_bytes());
    f.extend((raw.len() as u32).to_le_bytes());
    f.extend(&p);
    let plain = crate::lz4::decode(&p, raw.len(), true);
    let valid = plain.is_some();
    let want = plain.and_then(|r| {
        let mut rd = R::new(&r);
        RBlock::decode(&mut rd).ok()
    });
    forged(ch, f, valid, want, format!("payload byte {i}: {old} -> {x}"))
}

fn run(cx: &mut Ctx) {
    let cs = cases();
    cx.explore("transparent", |ch| transparent(ch, &cs));
    let ts = catalog::all_types();
    cx.explore("types", |ch| types(ch, &ts));
    let max = cx.pick(700, 3000);
    cx.explore("contents", |ch| contents(ch, max));
    let cuts = cx.pick(2, 3);
    cx.explore("frames", |ch| split(ch, cuts));
    cx.explore("large", large);
    let vs = victims();
    let all = cx.thorough;
    cx.explore("one byte", |ch| single(ch, &vs, all));
    cx.explore("two header bits", |ch| pairs(ch, if all { &vs[..] } else { &vs[..1] }, all));
    cx.explore("swapped bytes", |ch| swaps(ch, &vs));
    cx.explore("sizes", sizes);
    cx.explore("payloads", |ch| payloads(ch, all));
    if all {
        cx.explore("huge", huge);
    }
}
