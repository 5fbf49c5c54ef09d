//! An operation only ever sees the answer to its own request.

use super::Prop;
use crate::{explore::*, rtypes::*, server::*, util::*};
use futures_util::StreamExt;

pub const PROP: Prop = Prop {
    id: "C04",
    bounds: "histories of 2 actions (thorough: also 3 over 4 kinds of operation and 4 replies) followed by a query, an execute and an insert; an action is fetch/execute/insert/ping/stream of blocks (0..2 read, or all)/stream of rows (0, 1, all) x reply (rows, rows with a pause longer than the timeouts, query running until cancelled, exception at once, after rows, after a pause) x abandoned after 1..6 polls or not x followed by a wait or not, or giving the handle back and taking another; the first action also abandoned at every one of its suspension points with 1/7/16-byte reads and writes; two handles with their streams read alternately in every order; x ping_before_query x compression",
    assumptions: &["a Cancel that reaches the server when no query is running is ignored, as ClickHouse does", "without ping_before_query a handle whose connection was lost reports a connection error until check_connection is called"],
    run,
};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind {
    Fetch,
    Exec,
    Insert,
    Ping,
    Blocks(usize),
    Rows(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Shape {
    Rows,
    /// a pause longer than the timeouts in the middle
    Slow,
    /// runs until it is cancelled
    Hold,
    Exc,
    LateExc,
    SlowExc,
}
use Shape::*;

const TIMEOUTS: &str = "query_timeout=20ms&execute_timeout=20ms&insert_timeout=20ms";

fn data(n: usize) -> Vec<RBlock> {
    let b = |r: &[usize]| RBlock::new(vec![col("x", T::U(32), r.iter().map(|r| V::U((n * 100 + r) as u128)).collect()), col("n", nullable(T::Str), r.iter().map(|_| s(&format!("q{n}"))).collect())]);
    vec![b(&[1]), b(&[2, 3]), b(&[4])]
}
fn exc_of(n: usize) -> (u32, String, String, String) {
    (1000 + n as u32, "DB::Exception".into(), format!("failure of request {n}"), format!("stack {n}"))
}
fn shape_of(c: char) -> Shape {
    match c {
        'r' => Rows,
        's' => Slow,
        'h' => Hold,
        'x' => Exc,
        'y' => LateExc,
        _ => SlowExc,
    }
}
fn letter(s: Shape) -> char {
    match s {
        Rows => 'r',
        Slow => 's',
        Hold => 'h',
        Exc => 'x',
        LateExc => 'y',
        SlowExc => 'z',
    }
}
fn sql(n: usize, sh: Shape) -> String {
    format!("q_{n}_{}_", letter(sh))
}

/// The server: the statement says how to answer.
fn reply(text: &str, c: bool) -> Vec<Step> {
    let insert = text.starts_with("INSERT");
    let t = &text[text.find("q_").unwrap()..];
    let mut f = t.split('_');
    f.next();
    let n: usize = f.next().unwrap().parse().unwrap();
    let sh = shape_of(f.next().unwrap().chars().next().unwrap());
    let d = data(n);
    let head = Step::Send(p_data(&d[0].header(), c));
    let pause = Step::Delay(ms(50));
    let e = exc_of(n);
    let exc = Step::Send(p_exception(e.0, &e.1, &e.2, &e.3));
    let eos = Step::Send(p_eos());
    if insert {
        return match sh {
            Rows => vec![head, Step::Recv, eos],
            Slow => vec![head, Step::Recv, pause, eos],
            Hold => vec![Step::Hold],
            Exc => vec![exc],
            LateExc => vec![head, Step::Recv, exc],
            SlowExc => vec![pause, exc],
        };
    }
    let blk = |i: usize| Step::Send(p_data(&d[i], c));
    let prog = Step::Send(p_progress(CLIENT_REVISION, 3));
    match sh {
        Rows => vec![head, blk(0), prog, blk(1), blk(2), eos],
        Slow => vec![head, blk(0), pause, blk(1), prog, blk(2), eos],
        Hold => vec![head, blk(0), blk(1), Step::Hold],
        Exc => vec![exc],
        LateExc => vec![head, blk(0), blk(1), exc],
        SlowExc => vec![head, blk(0), pause, blk(1), exc],
    }
}

fn op_of(n: usize, k: Kind, sh: Shape) -> Op {
    let q = sql(n, sh);
    match k {
        Kind::Fetch => Op::Fetch(q),
        Kind::Exec => Op::Exec(q),
        Kind::Insert => Op::Insert(q, concat(&data(n))),
        Kind::Ping => Op::Ping,
        Kind::Blocks(i) => Op::Blocks(q, i),
        Kind::Rows(i) => Op::Rows(q, i),
    }
}

/// Is `out` what the request on its own gives?
fn own(n: usize, k: Kind, sh: Shape, out: &Out) -> bool {
    let e = exc_of(n);
    let e = E::Server(e.0, e.1, e.2, e.3);
    let d: Vec<RBlock> = data(n).iter().map(norm_b).collect();
    let (avail, end): (Vec<RBlock>, Option<Result<(), E>>) = match sh {
        Rows | Slow => (d.clone(), Some(Ok(()))),
        Hold => (d[..2].to_vec(), None),
        Exc => (vec![], Some(Err(e.clone()))),
        LateExc | SlowExc => (d[..2].to_vec(), Some(Err(e.clone()))),
    };
    match k {
        Kind::Ping => *out == Out::Done,
        Kind::Fetch => match sh {
            Rows => *out == Out::Block(concat(&d)),
            Slow | Hold | SlowExc => *out == Out::Err(E::Timeout),
            Exc | LateExc => *out == Out::Err(e),
        },
        Kind::Exec | Kind::Insert => match sh {
            Rows => *out == Out::Done,
            Slow | Hold | SlowExc => *out == Out::Err(E::Timeout),
            Exc | LateExc => *out == Out::Err(e),
        },
        Kind::Blocks(i) => {
            let want: Vec<RBlock> = avail.iter().take(i).cloned().collect();
            let want_end = if i <= avail.len() { None } else { end };
            *out == Out::Blocks(want, want_end)
        }
        Kind::Rows(i) => {
            let all = concat(&avail);
            let take = i.min(all.rows());
            let want_end = if i <= all.rows() { None } else { end };
            match out {
                Out::Rows(r, oe) => *oe == want_end && r.len() == take && (take == 0 || out.data() == Some(all.slice(0, take))),
                _ => false,
            }
        }
    }
}

fn world(compress: bool, plan: Plan) -> World {
    let w = World::new(Box::new(move |_, q| reply(&q.sql, compress)));
    w.with(|i| i.on_connect = Box::new(move |n, _| Conn::Accept(if n == 0 { plan.clone() } else { Plan::default() })));
    w
}

const KINDS: [Kind; 11] = [
    Kind::Fetch,
    Kind::Blocks(0),
    Kind::Blocks(1),
    Kind::Blocks(2),
    Kind::Blocks(ALL),
    Kind::Rows(0),
    Kind::Rows(1),
    Kind::Rows(ALL),
    Kind::Exec,
    Kind::Insert,
    Kind::Ping,
];
const SHAPES: [Shape; 6] = [Rows, Slow, Hold, Exc, LateExc, SlowExc];

fn choose_op(ch: &Ch, few: bool) -> (Kind, Shape) {
    if few {
        let k = *ch.pick(&[Kind::Fetch, Kind::Blocks(1), Kind::Exec, Kind::Insert]);
        return (k, *ch.pick(&[Rows, Slow, Hold, LateExc]));
    }
    let k = *ch.pick(&KINDS);
    let sh = if k == Kind::Ping {
        Rows
    } else if matches!(k, Kind::Blocks(ALL) | Kind::Rows(ALL)) {
        *ch.pick(&[Rows, Slow, Exc, LateExc, SlowExc])
    } else {
        *ch.pick(&SHAPES)
    };
    (k, sh)
}

struct Run<'a> {
    ch: &'a Ch,
    ping: bool,
    n: usize,
    /// the handle's connection may be gone
    unsure: bool,
    log: Vec<String>,
    done: Vec<(usize, Kind, Shape)>,
}

impl Run<'_> {
    fn judge(&mut self, n: usize, k: Kind, sh: Shape, out: &Out) -> Result<(), Fail> {
        self.ch.note(format!("request {n} {k:?} {sh:?} -> {out:?}"));
        if own(n, k, sh, out) {
            self.done.push((n, k, sh));
            return Ok(());
        }
        fail(format!("{k:?} {sh:?}"), format!("after {:?}: request {n} ({k:?}, reply {sh:?}) gave {out:?}", self.log))
    }

    /// One complete operation; without ping a lost connection may first be reported.
    async fn full(&mut self, h: &mut clickhouse_rs::ClientHandle, k: Kind, sh: Shape) -> Result<(), Fail> {
        self.n += 1;
        let n = self.n;
        let mut out = bounded(run_op(h, &op_of(n, k, sh))).await;
        let lost = matches!(out.error(), Some(E::Conn(_)));
        // an explicit ping never reconnects
        if lost && self.unsure && (!self.ping || k == Kind::Ping) {
            let c = bounded(run_op(h, &Op::Check)).await;
            if c != Out::Done {
                return fail("check_connection", format!("after {:?}: check_connection gave {c:?}", self.log));
            }
            out = bounded(run_op(h, &op_of(n, k, sh))).await;
        }
        self.judge(n, k, sh, &out)?;
        let partial = matches!(out, Out::Blocks(_, None) | Out::Rows(_, None));
        self.unsure = out.is_err() || partial;
        self.log.push(format!("{k:?}/{sh:?}"));
        Ok(())
    }

    /// An operation dropped after `j` polls. None: it had finished before.
    async fn part(&mut self, h: &mut clickhouse_rs::ClientHandle, k: Kind, sh: Shape, j: usize) -> Result<Option<()>, Fail> {
        self.n += 1;
        let op = op_of(self.n, k, sh);
        if poll_n(run_op(h, &op), j).await.is_some() {
            return Ok(None);
        }
        self.unsure = true;
        self.ch.note(format!("request {} {k:?} {sh:?} dropped after {j} polls", self.n));
        self.log.push(format!("{k:?}/{sh:?} dropped after {j} polls"));
        Ok(Some(()))
    }
}

fn finish(w: &World, done: &[(usize, Kind, Shape)]) -> Result<(), Fail> {
    if let Some(m) = w.bad() {
        return fail("request", format!("the server rejected a request: {m}"));
    }
    let ex = w.exchanges();
    for (n, k, sh) in done {
        if *k == Kind::Ping {
            continue;
        }
        let me: Vec<_> = ex.iter().filter(|x| x.1.contains(&format!("q_{n}_"))).collect();
        let zero = matches!(k, Kind::Blocks(0) | Kind::Rows(0));
        if me.len() != 1 && !(zero && me.is_empty()) {
            return fail("request count", format!("request {n} ({k:?}) reached the server {} times", me.len()));
        }
        if *k == Kind::Insert && matches!(sh, Rows | LateExc | Slow) {
            let got: Vec<RBlock> = me[0].2.iter().filter(|b| b.rows() > 0).map(norm_b).collect();
            if got != [norm_b(&concat(&data(*n)))] {
                return fail("insert data", format!("insert {n} arrived as {got:?}"));
            }
        }
    }
    Ok(())
}

const PROBES: [Kind; 3] = [Kind::Fetch, Kind::Exec, Kind::Insert];

fn params(ping: bool, compress: bool, max: usize) -> String {
    format!("{TIMEOUTS}&compression={}&ping_before_query={ping}&pool_min={max}&pool_max={max}", if compress { "lz4" } else { "none" })
}

fn history(ch: &Ch, depth: usize, polls: &[usize], few: bool) -> Result<Obs, Fail> {
    let ping = ch.flag();
    let compress = ch.flag();
    let w = world(compress, Plan::default());
    w.install();
    let mut r = Run { ch, ping, n: 0, unsure: false, log: vec![], done: vec![] };
    let res = block_on(async {
        let p = pool(&params(ping, compress, 1));
        let mut h = Some(get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?);
        for _ in 0..depth {
            match ch.choose(3) {
                0 => {
                    // give the handle back, take another
                    drop(h.take());
                    match get(&p).await {
                        Ok(x) => h = Some(x),
                        Err(e) => return fail("get", format!("after {:?}: get_handle {e:?}", r.log)),
                    }
                    ch.note("handle returned and taken again");
                    r.log.push("return".into());
                }
                1 => {
                    let (k, sh) = choose_op(ch, few);
                    r.full(h.as_mut().unwrap(), k, sh).await?;
                    if ch.flag() {
                        tokio::time::sleep(ms(100)).await;
                        r.log.push("wait".into());
                    }
                }
                _ => {
                    let (k, sh) = choose_op(ch, few);
                    let j = *ch.pick(polls);
                    if r.part(h.as_mut().unwrap(), k, sh, j).await?.is_none() {
                        return Ok(false);
                    }
                    if ch.flag() {
                        tokio::time::sleep(ms(100)).await;
                        r.log.push("wait".into());
                    }
                }
            }
        }
        for k in PROBES {
            r.full(h.as_mut().unwrap(), k, Rows).await?;
        }
        Ok(true)
    });
    match res {
        None => fail("hang", format!("hang after {:?}", r.log)),
        Some(Err(e)) => Err(e),
        Some(Ok(false)) => obs(&0),
        Some(Ok(true)) => {
            finish(&w, &r.done)?;
            obs_n(&(r.log, w.with(|i| i.attempts)), r.done.len() as u64)
        }
    }
}

const MAX_POLLS: usize = 400;

/// The first operation is dropped at every one of its suspension points.
fn everywhere_bounded(ch: &Ch, chunks: &[usize], max: &dyn Fn(usize, usize, Kind, Shape, bool, bool) -> usize) -> Result<Obs, Fail> {
    let ping = ch.flag();
    let compress = ch.flag();
    let ci = ch.choose(chunks.len());
    let wi = ch.choose(chunks.len());
    let (k, sh) = choose_op(ch, false);
    let m = max(chunks[ci], chunks[wi], k, sh, ping, compress);
    if m == 0 {
        return obs(&1);
    }
    let j = 1 + ch.choose(m);
    let wait = ch.flag();
    let ret = ch.flag();
    let probe = *ch.pick(&[Kind::Fetch, Kind::Rows(ALL), Kind::Exec, Kind::Insert]);
    one_point(ch, ping, compress, chunks[ci], chunks[wi], k, sh, j, wait, ret, probe)
}

#[allow(clippy::too_many_arguments)]
fn one_point(ch: &Ch, ping: bool, compress: bool, chunk: usize, wchunk: usize, k: Kind, sh: Shape, j: usize, wait: bool, ret: bool, probe: Kind) -> Result<Obs, Fail> {
    let w = world(compress, Plan { chunk, wchunk, ..Plan::default() });
    w.install();
    ch.note(format!("reads of {chunk}, writes of {wchunk}"));
    let mut r = Run { ch, ping, n: 0, unsure: false, log: vec![], done: vec![] };
    let res = block_on(async {
        let p = pool(&params(ping, compress, 1));
        let mut h = Some(get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?);
        if r.part(h.as_mut().unwrap(), k, sh, j).await?.is_none() {
            return Ok(false);
        }
        if wait {
            tokio::time::sleep(ms(100)).await;
            r.log.push("wait".into());
        }
        if ret {
            drop(h.take());
            match get(&p).await {
                Ok(x) => h = Some(x),
                Err(e) => return fail("get", format!("after {:?}: get_handle {e:?}", r.log)),
            }
            r.log.push("return".into());
        }
        r.full(h.as_mut().unwrap(), probe, Rows).await?;
        r.full(h.as_mut().unwrap(), Kind::Fetch, Rows).await?;
        Ok(true)
    });
    match res {
        None => fail("hang", format!("hang after {:?}", r.log)),
        Some(Err(e)) => Err(e),
        Some(Ok(false)) => obs(&0),
        Some(Ok(true)) => {
            finish(&w, &r.done)?;
            obs_n(&(r.log, w.with(|i| i.attempts)), r.done.len() as u64)
        }
    }
}

/// Number of polls the operation takes when it is left alone.
fn polls_of(chunk: usize, wchunk: usize, k: Kind, sh: Shape, ping: bool, compress: bool) -> usize {
    let w = world(compress, Plan { chunk, wchunk, ..Plan::default() });
    w.install();
    block_on(async {
        let p = pool(&params(ping, compress, 1));
        let mut h = get(&p).await.unwrap();
        let op = op_of(1, k, sh);
        let mut n = 0;
        let mut f = Box::pin(run_op(&mut h, &op));
        std::future::poll_fn(|cx| {
            n += 1;
            if n > MAX_POLLS {
                return std::task::Poll::Ready(());
            }
            std::future::Future::poll(f.as_mut(), cx).map(|_| ())
        })
        .await;
        n - 1
    })
    .unwrap_or(MAX_POLLS)
}

/// Two handles of one pool with a result half read on each, in every order.
fn two(ch: &Ch, len: usize) -> Result<Obs, Fail> {
    let ping = ch.flag();
    let compress = ch.flag();
    let w = world(compress, Plan::default());
    w.install();
    let sh = [*ch.pick(&[Rows, Slow, LateExc]), *ch.pick(&[Rows, Hold])];
    let res = block_on(async {
        let p = pool(&params(ping, compress, 2));
        let mut h0 = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?;
        let mut h1 = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?;
        let mut got: [Vec<RBlock>; 2] = Default::default();
        let mut ends: [Option<Result<(), E>>; 2] = [None, None];
        {
            let mut st = [h0.query(sql(1, sh[0]).as_str()).stream_blocks(), h1.query(sql(2, sh[1]).as_str()).stream_blocks()];
            for _ in 0..len {
                let i = match ch.choose(3) {
                    0 => break,
                    x => x - 1,
                };
                if ends[i].is_some() || (sh[i] == Hold && got[i].len() == 2) {
                    return Ok(None);
                }
                match st[i].next().await {
                    None => ends[i] = Some(Ok(())),
                    Some(Err(e)) => ends[i] = Some(Err(err(&e))),
                    Some(Ok(b)) => got[i].push(read_block(&b).map_err(|m| Fail { key: "read".into(), msg: m })?),
                }
            }
        }
        for i in 0..2 {
            let n = got[i].len() + ends[i].is_some() as usize;
            if !own(i + 1, Kind::Blocks(n), sh[i], &Out::Blocks(got[i].clone(), ends[i].clone())) {
                return fail("two streams", format!("stream {} of {:?}: {:?} {:?}", i + 1, sh, got[i], ends[i]));
            }
        }
        let mut r = Run { ch, ping, n: 2, unsure: true, log: vec![format!("{sh:?} read {:?}", [got[0].len(), got[1].len()])], done: vec![] };
        r.full(&mut h1, Kind::Fetch, Rows).await?;
        r.unsure = true;
        r.full(&mut h0, Kind::Fetch, Rows).await?;
        drop(h0);
        let mut h2 = get(&p).await.map_err(|e| Fail { key: "get".into(), msg: format!("{e:?}") })?;
        r.unsure = true;
        r.full(&mut h2, Kind::Insert, Rows).await?;
        r.full(&mut h1, Kind::Exec, Rows).await?;
        Ok(Some((r.done, r.log)))
    });
    match res {
        None => fail("hang", "hang"),
        Some(Err(e)) => Err(e),
        Some(Ok(None)) => obs(&0),
        Some(Ok(Some((done, log)))) => {
            finish(&w, &done)?;
            obs_n(&(log, sh, w.with(|i| i.attempts)), done.len() as u64)
        }
    }
}

fn run(cx: &mut Ctx) {
    let polls: Vec<usize> = cx.pick(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 6]);
    cx.explore("histories of two actions", |ch| history(ch, 2, &polls, false));
    let n = cx.pick(7, 9);
    cx.explore("two handles", |ch| two(ch, n));
    let chunks: Vec<usize> = cx.pick(vec![0, 16], vec![0, 1, 7, 16]);
    let memo: std::sync::Mutex<std::collections::HashMap<String, usize>> = Default::default();
    let max = |a: usize, b: usize, k: Kind, sh: Shape, p: bool, c: bool| -> usize {
        let key = format!("{a} {b} {k:?} {sh:?} {p} {c}");
        if let Some(n) = memo.lock().unwrap().get(&key) {
            return *n;
        }
        let n = polls_of(a, b, k, sh, p, c);
        memo.lock().unwrap().insert(key, n);
        n
    };
    cx.explore("dropped at every suspension point", |ch| everywhere_bounded(ch, &chunks, &max));
    if cx.thorough {
        cx.explore("histories of three actions", |ch| history(ch, 3, &[1, 3], true));
    }
}
