//! Query results are exactly the rows sent.

use super::Prop;
use crate::{explore::*, rtypes::*, server::*, util::*};

pub const PROP: Prop = Prop {
    id: "C01",
    bounds: "replies of up to 4 (quick) or 6 (thorough) packets after the header, each one of {1 row, 2 rows, 0 rows, 0 columns, progress, profile}, x 3 ways of reading x compression x ping",
    assumptions: &["the server sends a header block first, as ClickHouse does", "totals and extremes packets are not part of the modelled replies"],
    run,
};

fn row(n: u64) -> Vec<V> {
    vec![
        V::U(n as u128),
        s(&format!("row{n}")),
        if n % 2 == 0 { V::Null } else { s("x") },
        V::A((0..n % 3).map(|x| V::U(x as u128)).collect()),
        s(["a", "b", ""][(n % 3) as usize]),
    ]
}

fn cols() -> Vec<RCol> {
    vec![
        col("id", T::U(32), vec![]),
        col("name", T::Str, vec![]),
        col("opt", nullable(T::Str), vec![]),
        col("arr", array(T::U(8)), vec![]),
        col("low", low(T::Str), vec![]),
    ]
}

fn rows(from: u64, n: u64, narrow: bool) -> RBlock {
    let mut b = RBlock { cols: if narrow { cols()[..1].to_vec() } else { cols() } };
    for i in from..from + n {
        let r = row(i);
        for (c, v) in b.cols.iter_mut().zip(r) {
            c.vals.push(v);
        }
    }
    b
}

fn check(ch: &Ch, maxlen: usize) -> Result<Obs, Fail> {
    let compress = ch.flag();
    let ping = ch.flag();
    let mode = ch.choose(3);
    let narrow = ch.flag();
    let mut sent = rows(0, 0, narrow);
    let mut pkts = vec![p_data(&sent, compress)];
    let mut next = 0;
    let mut desc = vec![];
    for _ in 0..maxlen {
        let k = ch.choose(7);
        if k == 0 {
            break;
        }
        desc.push(["", "1 row", "2 rows", "0 rows", "0 columns", "progress", "profile"][k]);
        match k {
            1..=3 => {
                let n = [1, 2, 0][k - 1];
                let b = rows(next, n, narrow);
                next += n;
                pkts.push(p_data(&b, compress));
                sent = concat(&[sent, b]);
            }
            4 => pkts.push(p_data(&RBlock::default(), compress)),
            5 => pkts.push(p_progress(CLIENT_REVISION, 200)),
            _ => pkts.push(p_profile()),
        }
    }
    pkts.push(p_eos());
    ch.note(format!("reply: header, {}", desc.join(", ")));
    ch.note(format!("compress={compress} ping={ping} read as {}", ["fetch_all", "stream_blocks", "stream"][mode]));
    let steps: Vec<Step> = pkts.into_iter().map(Step::Send).collect();
    let w = World::new(Box::new(move |_, _| steps.clone()));
    w.install();
    let op = match mode {
        0 => Op::Fetch("SELECT".into()),
        1 => Op::Blocks("SELECT".into(), ALL),
        _ => Op::Rows("SELECT".into(), ALL),
    };
    let out = block_on(async {
        let p = pool(&format!("compression={}&ping_before_query={ping}", if compress { "lz4" } else { "none" }));
        let mut h = get(&p).await.map_err(Out::Err)?;
        Ok(bounded(run_op(&mut h, &op)).await)
    });
    let out = match out {
        None => Out::Hang,
        Some(Ok(o)) | Some(Err(o)) => o,
    };
    if let Some(b) = w.bad() {
        return fail("request", format!("the server rejected the request: {b}"));
    }
    expect(&out, &sent, mode)?;
    obs(&(out, mode))
}

fn expect(out: &Out, sent: &RBlock, mode: usize) -> Result<(), Fail> {
    let sent = norm_b(sent);
    let ok = match out {
        Out::Block(b) => *b == sent,
        Out::Blocks(bs, Some(Ok(()))) => {
            bs.iter().all(|b| b.header() == sent.header()) && (if sent.rows() == 0 { out.data().unwrap().rows() == 0 } else { out.data().unwrap() == sent })
        }
        Out::Rows(rs, Some(Ok(()))) => {
            if sent.rows() == 0 {
                rs.is_empty()
            } else {
                out.data() == Some(sent.clone())
            }
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        fail(format!("mode {mode}"), format!("sent {sent:?}, got {out:?}"))
    }
}

/// Replies without any column.
fn nothing(ch: &Ch) -> Result<Obs, Fail> {
    let compress = ch.flag();
    let mode = ch.choose(3);
    let mut pkts = vec![];
    for _ in 0..3 {
        match ch.choose(4) {
            0 => break,
            1 => pkts.push(p_progress(CLIENT_REVISION, 1)),
            2 => pkts.push(p_profile()),
            _ => pkts.push(p_data(&RBlock::default(), compress)),
        }
    }
    ch.note(format!("mode {mode}, {} packets before the end, compress={compress}", pkts.len()));
    pkts.push(p_eos());
    let steps: Vec<Step> = pkts.into_iter().map(Step::Send).collect();
    let w = World::new(Box::new(move |_, _| steps.clone()));
    w.install();
    let op = match mode {
        0 => Op::Fetch("CREATE".into()),
        1 => Op::Blocks("CREATE".into(), ALL),
        _ => Op::Rows("CREATE".into(), ALL),
    };
    let out = block_on(async {
        let p = pool(if compress { "compression=lz4" } else { "" });
        let mut h = get(&p).await.unwrap();
        let a = bounded(run_op(&mut h, &op)).await;
        let b = bounded(run_op(&mut h, &Op::Exec("CREATE".into()))).await;
        (a, b)
    });
    let Some((a, b)) = out else { return fail("hang", "hang") };
    expect(&a, &RBlock::default(), mode)?;
    if b != Out::Done {
        return fail("execute", format!("execute: {b:?}"));
    }
    obs(&(a, mode))
}

/// Large results: block sizes around the sizes of the client's buffers.
fn large(ch: &Ch) -> Result<Obs, Fail> {
    let compress = ch.flag();
    let mode = ch.choose(3);
    let sizes = [1usize, 255, 256, 1000, 4096, 16384, 65535, 65536, 70000];
    let a = *ch.pick(&sizes);
    let b = *ch.pick(&[0usize, 1, 300]);
    let t = ch.choose(2);
    let mk = |from: usize, n: usize| -> RBlock {
        if t == 0 {
            RBlock::new(vec![col("x", T::U(8), (from..from + n).map(|i| V::U((i * 7 % 251) as u128)).collect())])
        } else {
            RBlock::new(vec![
                col("x", T::Str, (from..from + n).map(|i| s(&format!("{i}"))).collect()),
                col("y", T::U(64), (from..from + n).map(|i| V::U(i as u128)).collect()),
            ])
        }
    };
    let blocks = vec![mk(0, a), mk(a, b)];
    ch.note(format!("blocks of {a} and {b} rows, layout {t}, compress={compress}, mode {mode}"));
    let st = answer(&blocks, compress);
    let w = World::new(Box::new(move |_, _| st.clone()));
    w.install();
    let op = match mode {
        0 => Op::Fetch("SELECT".into()),
        1 => Op::Blocks("SELECT".into(), ALL),
        _ => Op::Rows("SELECT".into(), ALL),
    };
    let out = block_on(async {
        let p = pool(if compress { "compression=lz4" } else { "" });
        let mut h = get(&p).await.unwrap();
        bounded(run_op(&mut h, &op)).await
    })
    .unwrap_or(Out::Hang);
    let want = norm_b(&concat(&blocks));
    if out.is_err() || out.data() != Some(want) {
        let got = format!("{out:?}");
        return fail(format!("large {mode}"), format!("large result differs: {}", got.chars().take(300).collect::<String>()));
    }
    obs(&(a, b, t, mode, compress))
}

fn run(cx: &mut Ctx) {
    let n = cx.pick(4, 6);
    cx.explore("packets", move |ch| check(ch, n));
    cx.explore("no columns", nothing);
    cx.explore("large", large);
}
