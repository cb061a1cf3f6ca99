//! Depth first enumeration of all schedules of one harness body.
use crate::fw::{tick, Local};
use rayon_core::mc::{preempts_tasks, run, Choice, Config, Kind};

/// Calls `on` with the outcome of every schedule within the bounds of `cfg`; returns how many.
pub fn explore<R: PartialEq + std::fmt::Debug>(
    cfg: Config,
    st: &mut Local,
    f: impl Fn() -> R,
    mut on: impl FnMut(&mut Local, &Result<R, String>, &[Choice]),
) -> u64 {
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    let mut n = 0u64;
    let mut preempts = preempts_tasks();
    while let Some(prefix) = stack.pop() {
        let out = run(cfg, &prefix, &f);
        if preempts_tasks() != preempts {
            // a task waited for a lock of its own; from now on tasks are not preempted where they may
            // hold it, so the enumeration starts again
            preempts = preempts_tasks();
            stack = vec![vec![]];
            st.tag("explorations started again without preemptions inside of tasks");
            continue;
        }
        tick();
        n += 1;
        if out.deadlock {
            st.fail(format!("deadlock under the schedule {:?}", taken(&out.choices)));
            return n;
        }
        if out.capped {
            st.tag("schedules that hit the horizon");
        }
        let r = out.result.map_err(|_| crate::fw::panic_text());
        if out.degraded || out.diverged {
            // a task waited for a lock of its own, or made choices of its own: this execution is judged
            // like any other, but the ones next to it are not reached from here
            st.tag("schedules that were not fully controlled");
            on(st, &r, &out.choices);
            continue;
        }
        if n == 1 {
            // the explorer owns every choice: the same schedule gives the same execution
            let again = run(cfg, &taken(&out.choices), &f);
            if again.diverged || again.degraded || taken(&again.choices) != taken(&out.choices) {
                st.tag("schedules that were not fully controlled");
            }
            let r2 = again.result.map_err(|_| crate::fw::panic_text());
            on(st, &r2, &again.choices);
        }
        on(st, &r, &out.choices);
        st.tag_n("scheduling points passed", out.points as u64);
        if out.threads > 1 {
            st.tag("schedules with concurrent tasks");
        }
        if out.choices.iter().any(|c| c.kind == Kind::Preempt && c.taken > 0) {
            st.tag("schedules with a preemption");
        }
        for i in prefix.len()..out.choices.len() {
            for alt in 1..out.choices[i].n {
                let mut p: Vec<u32> = out.choices[..i].iter().map(|c| c.taken).collect();
                p.push(alt);
                stack.push(p);
            }
        }
    }
    st.tag_n("schedules", n);
    n
}

pub fn taken(c: &[Choice]) -> Vec<u32> {
    c.iter().map(|c| c.taken).collect()
}
