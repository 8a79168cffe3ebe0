//! Interleavings of the items of a parallel loop.  An item may be preempted
//! before any operation on shared state (a lock, an atomic, a shard of a
//! concurrent map), whereupon another item that has not started runs to its
//! end; the solver chooses where and which, up to a budget of preemptions.
//! Two items are then interleaved as real threads may interleave them; a
//! choice in which the preempting item would have to wait for the preempted
//! one is not a schedule and is dropped.

pub trait Jobs {
    fn pending(&self) -> usize;
    fn run(&self, k: usize);
}
static mut BUDGET: usize = 0;
static mut DEPTH: usize = 0;
static mut CUR: Option<*const dyn Jobs> = None;

/// Allows this many preemptions from now on; 0 turns the model off.
pub fn preempt(budget: usize) {
    unsafe {
        BUDGET = budget;
        DEPTH = 0;
        CUR = None;
    }
}
pub fn active() -> bool {
    unsafe { BUDGET > 0 }
}
/// Runs every job, the current one being preemptible.
pub fn run_all(jobs: &dyn Jobs) {
    unsafe {
        let old = CUR;
        CUR = Some(std::mem::transmute::<*const dyn Jobs, *const (dyn Jobs + 'static)>(jobs as *const dyn Jobs));
        while jobs.pending() > 0 {
            jobs.run(0);
        }
        CUR = old;
    }
}
#[inline(never)]
pub fn sync_point() {
    unsafe {
        while BUDGET > 0 {
            let c = match CUR {
                Some(c) => &*c,
                None => return,
            };
            let n = c.pending();
            if n == 0 {
                return;
            }
            let k = crate::choose(n + 1);
            if k == 0 {
                return;
            }
            BUDGET -= 1;
            DEPTH += 1;
            c.run(k - 1);
            DEPTH -= 1;
        }
    }
}
/// A lock that is taken: infeasible in a preempting item (it would wait for
/// the preempted one), a deadlock otherwise.
#[inline(never)]
pub fn blocked() {
    if unsafe { DEPTH > 0 } {
        crate::assume(false);
    }
    panic!("deadlock: waiting for a lock nobody will release");
}
