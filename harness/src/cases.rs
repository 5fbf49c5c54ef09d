//! Standard exchanges used by several properties.

use crate::{rtypes::*, server::*, util::*};

#[derive(Clone)]
pub struct Case {
    pub name: &'static str,
    pub op: Op,
    /// The server's part, with compression on or off.
    pub reply: fn(bool) -> Vec<Step>,
    /// What the client ought to observe.
    pub want: Want,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Done,
    Data(RBlock),
    /// Rows before it (streams), then a server exception.
    Exception(RBlock),
}

pub const EXC: (u32, &str, &str, &str) = (241, "DB::Exception", "Memory limit (€) exceeded", "0. stack\n1. trace");
pub fn exc() -> Vec<u8> {
    p_exception(EXC.0, EXC.1, EXC.2, EXC.3)
}
pub fn exc_e() -> E {
    E::Server(EXC.0, EXC.1.into(), EXC.2.into(), EXC.3.into())
}

pub fn b1() -> RBlock {
    RBlock::new(vec![
        col("a", T::U(32), vec![V::U(1), V::U(70000)]),
        col("s", nullable(T::Str), vec![s("héllo"), V::Null]),
    ])
}
pub fn b2() -> RBlock {
    RBlock::new(vec![col("a", T::U(32), vec![V::U(5)]), col("s", nullable(T::Str), vec![s("")])])
}
fn rows_reply(c: bool) -> Vec<Step> {
    vec![
        Step::Send(p_data(&b1().header(), c)),
        Step::Send(p_progress(CLIENT_REVISION, 300)),
        Step::Send(p_data(&b1(), c)),
        Step::Send(p_data(&b2(), c)),
        Step::Send(p_profile()),
        Step::Send(p_eos()),
    ]
}
fn exec_reply(_: bool) -> Vec<Step> {
    vec![Step::Send(p_progress(CLIENT_REVISION, 130)), Step::Send(p_eos())]
}
fn insert_reply(c: bool) -> Vec<Step> {
    vec![Step::Send(p_table_columns()), Step::Send(p_data(&b1().header(), c)), Step::Recv, Step::Send(p_eos())]
}
fn exc_late(c: bool) -> Vec<Step> {
    vec![Step::Send(p_data(&b1().header(), c)), Step::Send(p_data(&b1(), c)), Step::Send(exc())]
}
fn exc_early(_: bool) -> Vec<Step> {
    vec![Step::Send(exc())]
}
fn exc_after_insert(c: bool) -> Vec<Step> {
    vec![Step::Send(p_data(&b1().header(), c)), Step::Recv, Step::Send(exc())]
}

pub fn all_rows() -> RBlock {
    norm_b(&concat(&[b1(), b2()]))
}

pub fn cases() -> Vec<Case> {
    let q = || "SELECT 1".to_string();
    vec![
        Case { name: "ping", op: Op::Ping, reply: exec_reply, want: Want::Done },
        Case { name: "execute", op: Op::Exec(q()), reply: exec_reply, want: Want::Done },
        Case { name: "fetch_all", op: Op::Fetch(q()), reply: rows_reply, want: Want::Data(all_rows()) },
        Case { name: "stream_blocks", op: Op::Blocks(q(), ALL), reply: rows_reply, want: Want::Data(all_rows()) },
        Case { name: "stream", op: Op::Rows(q(), ALL), reply: rows_reply, want: Want::Data(all_rows()) },
        Case { name: "insert", op: Op::Insert("t".into(), b1()), reply: insert_reply, want: Want::Done },
        Case { name: "execute, exception", op: Op::Exec(q()), reply: exc_early, want: Want::Exception(RBlock::default()) },
        Case { name: "fetch_all, exception after rows", op: Op::Fetch(q()), reply: exc_late, want: Want::Exception(RBlock::default()) },
        Case { name: "stream_blocks, exception after rows", op: Op::Blocks(q(), ALL), reply: exc_late, want: Want::Exception(norm_b(&b1())) },
        Case { name: "stream, exception after rows", op: Op::Rows(q(), ALL), reply: exc_late, want: Want::Exception(norm_b(&b1())) },
        Case { name: "insert, exception at once", op: Op::Insert("t".into(), b1()), reply: exc_early, want: Want::Exception(RBlock::default()) },
        Case { name: "insert, exception after data", op: Op::Insert("t".into(), b1()), reply: exc_after_insert, want: Want::Exception(RBlock::default()) },
    ]
}

impl Want {
    pub fn met(&self, out: &Out) -> bool {
        self.met_by(out, &exc_e())
    }
    pub fn met_by(&self, out: &Out, e: &E) -> bool {
        match self {
            Want::Done => *out == Out::Done,
            Want::Data(b) => !out.is_err() && *out != Out::Hang && out.data().as_ref() == Some(b),
            Want::Exception(b) => match out {
                Out::Err(x) => x == e,
                Out::Blocks(_, Some(Err(x))) | Out::Rows(_, Some(Err(x))) => x == e && out.data().as_ref() == Some(b),
                _ => false,
            },
        }
    }
}

/// Byte positions in the two directions of one connection: after the handshake, after the ping, at the end.
pub struct Marks {
    pub hello: usize,
    pub ping: usize,
    pub end: usize,
}
pub fn marks(c: &Case, ping: bool, compress: bool) -> Marks {
    let hello = p_hello(CLIENT_REVISION, "UTC").len();
    let p = hello + if ping && !matches!(c.op, Op::Ping) { p_pong().len() } else { 0 };
    let e = p + if matches!(c.op, Op::Ping) { p_pong().len() } else { total(&(c.reply)(compress)) };
    Marks { hello, ping: p, end: e }
}

pub fn params(ping: bool, compress: bool) -> String {
    format!("compression={}&ping_before_query={ping}", if compress { "lz4" } else { "none" })
}

/// A world in which every connection plays the given case; the n-th connection has the n-th plan.
pub fn world(c: &Case, compress: bool, plans: Vec<Plan>) -> World {
    let reply = c.reply;
    let w = World::new(Box::new(move |_, _| reply(compress)));
    w.with(|i| {
        i.on_connect = Box::new(move |n, _| Conn::Accept(plans.get(n).cloned().unwrap_or_default()));
    });
    w
}
