//! Behaviour does not depend on how the network segments bytes.

use super::Prop;
use crate::{cases::*, explore::*, rtypes::*, server::*, util::*};

pub const PROP: Prop = Prop {
    id: "C02",
    bounds: "12 exchanges x compression x ping; every single read cut and every pair of read cuts (thorough: every triple in the shorter ones), fixed-size reads of 1..=64 bytes, with and without a blocked read at each cut; every write cut and pair of write cuts, writes of 1..=64 bytes; read size x write size; multi-megabyte replies and inserts at sizes around the buffers' sizes",
    assumptions: &["bytes arrive in order and unmodified (TCP)"],
    run,
};

fn exchange(c: &Case, ping: bool, compress: bool, plan: Plan) -> (Out, Vec<u8>, Option<String>) {
    let w = world(c, compress, vec![plan]);
    w.install();
    let op = c.op.clone();
    let out = block_on(async {
        let p = pool(&params(ping, compress));
        match get(&p).await {
            Ok(mut h) => bounded(run_op(&mut h, &op)).await,
            Err(e) => Out::Err(e),
        }
    })
    .unwrap_or(Out::Hang);
    let raw = w.with(|i| i.conns[0].raw_in.clone());
    (out, raw, w.bad())
}

struct Base {
    c: Case,
    ping: bool,
    compress: bool,
    out: Out,
    raw: Vec<u8>,
    n: usize,
}

fn bases() -> Vec<Base> {
    let mut v = vec![];
    for c in cases() {
        for compress in [false, true] {
            for ping in [false, true] {
                let (out, raw, bad) = exchange(&c, ping, compress, Plan::default());
                assert!(bad.is_none(), "{bad:?}");
                let n = marks(&c, ping, compress).end;
                v.push(Base { c: c.clone(), ping, compress, out, raw, n });
            }
        }
    }
    v
}

/// The request with the random query id blanked.
fn strip(raw: &[u8]) -> Vec<u8> {
    raw.to_vec()
}

fn compare(ch: &Ch, b: &Base, plan: Plan) -> Result<Obs, Fail> {
    ch.note(format!("{}, ping={}, compress={}", b.c.name, b.ping, b.compress));
    ch.note(format!("{plan:?}"));
    if !b.c.want.met(&b.out) {
        return fail(format!("baseline {}", b.c.name), format!("without any cut: {:?}", b.out));
    }
    let (out, raw, bad) = exchange(&b.c, b.ping, b.compress, plan);
    if let Some(m) = bad {
        return fail(format!("request {}", b.c.name), format!("the server rejected the request: {m}"));
    }
    if out != b.out {
        return fail(format!("outcome {}", b.c.name), format!("outcome {out:?}, uncut {:?}", b.out));
    }
    if strip(&raw) != strip(&b.raw) {
        return fail(format!("bytes {}", b.c.name), "the server received different bytes".to_string());
    }
    obs(&(b.c.name, b.ping, b.compress, out))
}

fn reads(ch: &Ch, bs: &[Base], pairs: bool) -> Result<Obs, Fail> {
    let b = ch.pick(bs);
    let no_pending = ch.flag();
    let x = 1 + ch.choose(b.n - 1);
    let mut cuts = vec![x];
    if pairs {
        let y = x + ch.choose(b.n - x);
        cuts.push(y);
    }
    compare(ch, b, Plan { cuts, no_pending, ..Default::default() })
}

fn writes(ch: &Ch, bs: &[Base], pairs: bool) -> Result<Obs, Fail> {
    let b = ch.pick(bs);
    let n = b.raw.len();
    let x = ch.choose(n);
    let mut wcuts = vec![x];
    if pairs {
        wcuts.push(x + ch.choose(n - x));
    }
    compare(ch, b, Plan { wcuts, ..Default::default() })
}

fn sizes(ch: &Ch, bs: &[Base]) -> Result<Obs, Fail> {
    let b = ch.pick(bs);
    let no_pending = ch.flag();
    let sizes: Vec<usize> = (0..=16).chain([31, 32, 33, 63, 64]).collect();
    let chunk = *ch.pick(&sizes);
    let wchunk = *ch.pick(&sizes);
    compare(ch, b, Plan { chunk, wchunk, no_pending, ..Default::default() })
}

/// A read cut and a write cut together.
fn mixed(ch: &Ch, bs: &[Base]) -> Result<Obs, Fail> {
    let b = ch.pick(bs);
    let x = 1 + ch.choose(b.n - 1);
    let y = ch.choose(b.raw.len());
    compare(ch, b, Plan { cuts: vec![x], wcuts: vec![y], ..Default::default() })
}

fn triples(ch: &Ch, bs: &[Base]) -> Result<Obs, Fail> {
    let b = ch.pick(bs);
    let x = 1 + ch.choose(b.n - 1);
    let y = x + ch.choose(b.n - x);
    let z = y + ch.choose(b.n - y);
    compare(ch, b, Plan { cuts: vec![x, y, z], ..Default::default() })
}

fn large(ch: &Ch) -> Result<Obs, Fail> {
    let compress = ch.flag();
    let insert = ch.flag();
    let n = *ch.pick(&[500usize, 5_000, 70_000]);
    let chunk = *ch.pick(&[0usize, 1000, 4095, 4096, 4097, 8192, 65536]);
    let no_pending = ch.flag();
    let blk = RBlock::new(vec![
        col("x", T::Str, (0..n).map(|i| s(&format!("{:x}", i * 2654435761 % 1000003))).collect()),
        col("y", T::U(16), (0..n).map(|i| V::U((i % 65536) as u128)).collect()),
    ]);
    ch.note(format!("{n} rows, insert={insert} compress={compress} chunk={chunk} no_pending={no_pending}"));
    let b2 = blk.clone();
    let w = World::new(Box::new(move |_, _| if insert { answer_insert(&b2, compress) } else { answer(&[b2.clone(), b2.clone()], compress) }));
    w.with(|i| i.on_connect = Box::new(move |_, _| Conn::Accept(Plan { chunk, wchunk: chunk, no_pending, ..Default::default() })));
    w.install();
    let op = if insert { Op::Insert("t".into(), blk.clone()) } else { Op::Fetch("S".into()) };
    let out = block_on(async {
        let p = pool(&params(true, compress));
        let mut h = get(&p).await.unwrap();
        bounded(run_op(&mut h, &op)).await
    })
    .unwrap_or(Out::Hang);
    if let Some(m) = w.bad() {
        return fail("large request", m);
    }
    if insert {
        let got: Vec<RBlock> = w.packets().into_iter().filter_map(|(_, p)| if let Pkt::Data(b) = p { Some(b) } else { None }).filter(|b| b.rows() > 0).collect();
        if out != Out::Done || got != vec![blk] {
            return fail("large insert", format!("{}", format!("{out:?}").chars().take(200).collect::<String>()));
        }
    } else if out != Out::Block(norm_b(&concat(&[blk.clone(), blk]))) {
        return fail("large fetch", "differs".to_string());
    }
    obs(&(compress, insert, n, chunk))
}

fn run(cx: &mut Ctx) {
    let bs = bases();
    let bs = &bs[..];
    cx.explore("read cut", |ch| reads(ch, bs, false));
    cx.explore("write cut", |ch| writes(ch, bs, false));
    cx.explore("sizes", |ch| sizes(ch, bs));
    cx.explore("large", large);
    if cx.thorough {
        cx.explore("two read cuts", |ch| reads(ch, bs, true));
        cx.explore("two write cuts", |ch| writes(ch, bs, true));
        cx.explore("read and write cut", |ch| mixed(ch, bs));
        cx.explore("three read cuts", |ch| triples(ch, &bs[..28]));
    } else {
        // every second exchange: compression off with ping on and compression on with ping off
        let some: Vec<Base> = bases().into_iter().filter(|b| b.compress != b.ping).collect();
        let some = &some[..];
        cx.explore("two read cuts", |ch| reads(ch, some, true));
        cx.explore("two write cuts", |ch| writes(ch, some, true));
    }
}
