//! A lost connection is reported as an error.

use super::Prop;
use crate::{cases::*, explore::*, server::*, util::*};

pub const PROP: Prop = Prop {
    id: "C03",
    bounds: "12 exchanges x compression x ping; the connection ends (closed or reset) at every byte of the server's stream and writing fails at every byte of the client's stream; optionally everything arrives in one read, in 7-byte reads or byte by byte; afterwards the same handle, and then a new handle of the pool, repeat the operation on a healthy connection; two successive connections lost at every pair of positions (thorough)",
    assumptions: &["with ping_before_query off, replacing the connection of a handle takes an explicit check_connection()"],
    run,
};

#[derive(Debug)]
enum Expect {
    /// No handle is obtained.
    NoHandle,
    /// The operation works (possibly on a new connection).
    Ok,
    /// The operation fails.
    Fails,
}

fn judge(c: &Case, out: &Out, e: &Expect) -> Result<(), Fail> {
    let ok = match e {
        Expect::Ok => c.want.met(out),
        Expect::NoHandle => matches!(out, Out::Err(_)),
        Expect::Fails => {
            out.is_err() && !matches!(out, Out::Err(E::Other(m)) if m.starts_with("harness"))
                // rows delivered before the failure are rows of the reply
                && match (&c.want, out) {
                    (Want::Data(d), Out::Blocks(..) | Out::Rows(..)) | (Want::Exception(d), Out::Blocks(..) | Out::Rows(..)) => {
                        let got = out.data().unwrap();
                        got.rows() == 0 || (got.rows() <= d.rows() && got == d.slice(0, got.rows()))
                    }
                    _ => true,
                }
        }
    };
    if ok {
        Ok(())
    } else {
        fail(format!("{} {e:?}", c.name), format!("{}: expected {e:?}, got {out:?}", c.name))
    }
}

fn scenario(c: &Case, ping: bool, compress: bool, plan: Plan, e: Expect) -> Result<Obs, Fail> {
    let w = world(c, compress, vec![plan]);
    w.install();
    let op = c.op.clone();
    let check_first = !ping || matches!(op, Op::Ping);
    let res = block_on(async {
        let p = pool(&params(ping, compress));
        let mut outs = vec![];
        match get(&p).await {
            Err(x) => outs.push((true, Out::Err(x))),
            Ok(mut h) => {
                let no = matches!(e, Expect::NoHandle);
                let o = bounded(run_op(&mut h, &op)).await;
                outs.push((no, o.clone()));
                if o != Out::Hang {
                    if check_first {
                        outs.push((false, bounded(run_op(&mut h, &Op::Check)).await));
                    }
                    outs.push((false, bounded(run_op(&mut h, &op)).await));
                }
            }
        }
        if outs.iter().all(|o| o.1 != Out::Hang) {
            match get(&p).await {
                Err(x) => outs.push((true, Out::Err(x))),
                Ok(mut h) => outs.push((false, bounded(run_op(&mut h, &op)).await)),
            }
        }
        outs
    });
    let Some(outs) = res else { return fail("hang", "hang") };
    if let Some(m) = w.bad() {
        return fail(format!("{} request", c.name), format!("the server rejected the request: {m}"));
    }
    if matches!(e, Expect::NoHandle) != outs[0].0 {
        return fail(format!("{} handle", c.name), format!("expected {e:?}, got {outs:?}"));
    }
    judge(c, &outs[0].1, &e)?;
    let last = outs.len() - 1;
    for (i, (_, o)) in outs.iter().enumerate().skip(1) {
        let fine = if check_first && i == 1 && last == 3 { *o == Out::Done } else { c.want.met(o) };
        if !fine {
            return fail(format!("{} afterwards", c.name), format!("{}: after {:?}, step {i} on a healthy server gives {o:?}", c.name, outs[0].1));
        }
    }
    obs(&(c.name, ping, compress, outs))
}

fn setup(ch: &Ch, cs: &[Case]) -> (Case, bool, bool) {
    let c = ch.pick(cs).clone();
    let compress = ch.flag();
    let ping = ch.flag();
    ch.note(format!("{}, ping={ping}, compress={compress}", c.name));
    (c, compress, ping)
}

fn read_end(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let (c, compress, ping) = setup(ch, cs);
    let m = marks(&c, ping, compress);
    let kind = if ch.flag() { End::Err } else { End::Eof };
    let off = ch.choose(m.end + 1);
    let chunk = *ch.pick(&[0usize, 1, 7]);
    let no_pending = chunk > 0 && ch.flag();
    let write_err_after_close = ch.flag();
    ch.note(format!("{kind:?} at {off} of {} (handshake {}, ping {}), reads of {chunk} no_pending={no_pending}", m.end, m.hello, m.ping));
    let e = if off < m.hello {
        Expect::NoHandle
    } else if off < m.ping {
        Expect::Ok
    } else if off < m.end {
        Expect::Fails
    } else {
        Expect::Ok
    };
    let plan = Plan { end: Some((off, kind)), chunk, no_pending, write_err_after_close, ..Default::default() };
    scenario(&c, ping, compress, plan, e)
}

/// Lengths of the client's stream after the handshake, the ping and the operation.
pub fn client_marks(c: &Case, ping: bool, compress: bool) -> Marks {
    let len = |ops: Vec<Op>, ping: bool| {
        let w = world(c, compress, vec![]);
        w.install();
        block_on(async {
            let p = pool(&params(ping, compress));
            let mut h = get(&p).await.unwrap();
            for o in ops {
                run_op(&mut h, &o).await;
            }
        });
        w.with(|i| i.conns[0].raw_in.len())
    };
    let hello = len(vec![], ping);
    let pings = ping && !matches!(c.op, Op::Ping);
    Marks { hello, ping: if pings { len(vec![Op::Ping], ping) } else { hello }, end: len(vec![c.op.clone()], ping) }
}

fn write_end(ch: &Ch, cs: &[(Case, [Marks; 4])]) -> Result<Obs, Fail> {
    let (c, ms) = ch.pick(cs);
    let compress = ch.flag();
    let ping = ch.flag();
    let m = &ms[compress as usize * 2 + ping as usize];
    let off = ch.choose(m.end + 1);
    let wchunk = *ch.pick(&[0usize, 5]);
    ch.note(format!("{}, ping={ping}, compress={compress}, writing fails at {off} of {} (handshake {}, ping {}), wchunk {wchunk}", c.name, m.end, m.hello, m.ping));
    let e = if off < m.hello {
        Expect::NoHandle
    } else if off < m.ping {
        Expect::Ok
    } else if off < m.end {
        Expect::Fails
    } else {
        Expect::Ok
    };
    // A write that would start exactly at the end is never made.
    let plan = Plan { wfail: Some(off), wchunk, ..Default::default() };
    scenario(c, ping, compress, plan, e)
}

/// The reply is complete and the server closes at once, in the same read.
fn close_after(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let (c, compress, ping) = setup(ch, cs);
    let m = marks(&c, ping, compress);
    let kind = if ch.flag() { End::Err } else { End::Eof };
    let cut = ch.choose(m.end - m.ping + 1);
    ch.note(format!("{kind:?} right after the reply; a read boundary {cut} bytes into it"));
    let mut cuts = vec![];
    if cut > 0 {
        cuts.push(m.ping + cut);
    }
    let plan = Plan { end: Some((m.end, kind)), cuts, ..Default::default() };
    scenario(&c, ping, compress, plan, Expect::Ok)
}

/// The connection ends anywhere and one read ends anywhere before.
fn cut_and_end(ch: &Ch, cs: &[Case]) -> Result<Obs, Fail> {
    let (c, compress, ping) = setup(ch, cs);
    let m = marks(&c, ping, compress);
    let kind = if ch.flag() { End::Err } else { End::Eof };
    let no_pending = ch.flag();
    let off = m.hello + ch.choose(m.end - m.hello + 1);
    let cut = ch.choose(off);
    ch.note(format!("{kind:?} at {off} of {} (handshake {}, ping {}), read boundary at {cut}, no_pending={no_pending}", m.end, m.hello, m.ping));
    let e = if off < m.ping {
        Expect::Ok
    } else if off < m.end {
        Expect::Fails
    } else {
        Expect::Ok
    };
    scenario(&c, ping, compress, Plan { end: Some((off, kind)), cuts: vec![cut], no_pending, ..Default::default() }, e)
}

/// Two connections in a row are lost.
fn twice(ch: &Ch, cs: &[Case], step: usize) -> Result<Obs, Fail> {
    let c = ch.pick(cs).clone();
    let (compress, ping) = (false, true);
    let m = marks(&c, ping, compress);
    let at = |ch: &Ch| ch.choose(m.end / step + 1) * step;
    let (a, b) = (at(ch), at(ch));
    ch.note(format!("{}: first connection closed at {a}, second at {b} of {}", c.name, m.end));
    let end = |x| Plan { end: Some((x, End::Eof)), ..Default::default() };
    let w = world(&c, compress, vec![end(a), end(b)]);
    w.install();
    let op = c.op.clone();
    let res = block_on(async {
        let p = pool(&format!("{}&retry_timeout=10ms", params(ping, compress)));
        let mut outs = vec![];
        let mut h = None;
        for _ in 0..5 {
            if h.is_none() {
                match get(&p).await {
                    Ok(x) => h = Some(x),
                    Err(e) => {
                        outs.push(Out::Err(e));
                        continue;
                    }
                }
            }
            let o = bounded(run_op(h.as_mut().unwrap(), &op)).await;
            outs.push(o.clone());
            if o == Out::Hang {
                break;
            }
        }
        outs
    });
    let Some(outs) = res else { return fail("hang", "hang") };
    let fails = outs.iter().filter(|o| !c.want.met(o)).count();
    for o in &outs {
        if !c.want.met(o) {
            judge(&c, o, &Expect::Fails)?;
        }
    }
    if fails > 2 || !c.want.met(outs.last().unwrap()) {
        return fail(format!("{} twice", c.name), format!("{}: two lost connections, outcomes {outs:?}", c.name));
    }
    if let Some(m) = w.bad() {
        return fail("twice request", m);
    }
    obs(&(c.name, outs))
}

fn run(cx: &mut Ctx) {
    let cs = cases();
    cx.explore("connection ends", |ch| read_end(ch, &cs));
    cx.explore("close after reply", |ch| close_after(ch, &cs));
    let cm: Vec<(Case, [Marks; 4])> = cs
        .iter()
        .map(|c| {
            let f = |c: &Case, p, z| client_marks(c, p, z);
            (c.clone(), [f(c, false, false), f(c, true, false), f(c, false, true), f(c, true, true)])
        })
        .collect();
    cx.explore("writing fails", |ch| write_end(ch, &cm));
    cx.explore("twice", |ch| twice(ch, &cs[1..], 1));
    if cx.thorough {
        cx.explore("connection ends, one read cut", |ch| cut_and_end(ch, &cs));
    }
}
