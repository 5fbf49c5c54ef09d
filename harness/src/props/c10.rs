//! The pool's limit and exclusive use, under every interleaving.

use super::Prop;
use crate::{explore::*, threads::*};

pub const PROP: Prop = Prop {
    id: "C10",
    bounds: "2 threads with every pair of 9 scripts (taking, using, dropping, giving up, losing, repairing) x 4 pairs of limits x idle connections to begin with x connecting ending, or failing, at every moment it is polled or when nothing else can happen: every interleaving without preemptions; with one preemption for 2 (thorough: 4) pairs of limits; thorough: with two preemptions for 5 scripts; 3 threads with 4 scripts without (thorough: with one) preemptions. Threads do not switch within critical sections, unless something accessed there is accessed elsewhere (checked; then, and in the thorough tier, at every operation)",
    assumptions: &["sequential consistency; threads switch at the pool's queue, atomic and mutex operations", "no timeout expires during a schedule"],
    run,
};

fn run(cx: &mut Ctx) {
    explore(cx, Judge::Safety)
}
