//! The system clock never affects the service.
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;

const S: i128 = 1_000_000_000;
const YEAR: i128 = 31_557_600 * S;
/// The present, 1970 and 300 years later are where the clock starts.
const STARTS: [i128; 4] = [0, -1_700_000_000 * S, -1_700_000_001 * S - 1, 300 * YEAR];
const STEPS: [i128; 9] = [0, -3600 * S, -1, 3600 * S, -S / 1000, -1_800_000_000 * S, 10 * YEAR, 600 * YEAR, -60 * S];

/// At every reading of the clock it may have been stepped. The readings are dealt into classes, and the
/// class of each step is chosen up front, so that the work divides.
fn arm(menu: usize, classes: Vec<usize>) -> Rc<Cell<u64>> {
    let readings = Rc::new(Cell::new(0u64));
    let n = readings.clone();
    let done = Cell::new(0);
    vstd::time::verif_hook(Some(Rc::new(move || {
        n.set(n.get() + 1);
        if classes.get(done.get()).map_or(true, |c| n.get() % CLASSES as u64 != *c as u64) {
            return;
        }
        let k = rt::dev(menu, "clock step");
        if k > 0 {
            done.set(done.get() + 1);
            rt::note(|| format!("the clock is stepped by {} ns at reading {}", STEPS[k], n.get()));
            vstd::time::verif_step_wall(STEPS[k]);
        }
    })));
    readings
}
const CLASSES: usize = 11;

fn life(steps: usize, confs: usize, menu: usize, rounds: usize, starts: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let start = rt::free(starts, "where the clock starts");
    let classes = (0..steps).map(|_| rt::free(CLASSES, "class of readings")).collect();
    let w = W::new(Cfg { conf, threads: 1, ..Cfg::default() });
    vstd::time::verif_step_wall(STARTS[start]);
    w.seed(conf + 2);
    w.write_block_files();
    let a = wallet::addrs();
    let readings = arm(menu, classes);
    rt::shard_point();
    w.start();
    w.check_all(&a, 0, "start-up");
    let _ = std::fs::remove_file(w.blocks_dir().join("blk00000.dat"));
    for r in 0..rounds {
        // blocks, a transaction, a branch switch, nothing
        match r % 4 {
            0 => {
                w.mine(1, 50 + r as u64);
                w.submit(1, 60);
            }
            1 if conf > 1 => w.node().reorg(conf - 1, 1, 2, 70),
            2 => {}
            _ => {
                w.mine(2, 80 + r as u64);
                w.mine(3, 81 + r as u64);
            }
        }
        w.tick();
        w.check_all(&a, r, &format!("update {}", r + 1));
    }
    w.kill();
    w.start();
    w.check_all(&a, 1, "restart from the stored index");
    w.mine(1, 99);
    w.tick();
    w.check_all(&a, 2, "update after the restart");
    let n = readings.get();
    vstd::time::verif_hook(None);
    rt::count("clock readings", n);
    if n == 0 {
        rt::count("histories without a clock reading", 1);
    }
    rt::outcome(rt::hash64(&rt::choices().iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>()));
    rt::sample(3, || format!("CONFIRMATIONS {}, clock start {}, {} readings", conf, start, n));
}

/// The clock steps while nothing reads it: between updates, while the process is down, in the middle of waiting.
fn between() {
    let conf = 1 + rt::free(2, "CONFIRMATIONS - 1");
    let one = 1 + rt::free(STEPS.len() - 1, "first step");
    let two = rt::free(STEPS.len(), "second step");
    let at = rt::free(4, "when");
    rt::shard_point();
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 2);
    w.write_block_files();
    let a = wallet::addrs();
    w.start();
    let step = |k: usize| vstd::time::verif_step_wall(STEPS[k]);
    match at {
        0 => {
            // in the middle of an interval
            w.mine(1, 40);
            rt::advance(w.cfg.interval as u128 * 400_000);
            rt::quiesce();
            step(one);
            rt::advance(w.cfg.interval as u128 * 600_000);
            rt::quiesce();
            step(two);
            w.must_live("update");
            w.check_all(&a, 0, "the clock is stepped while the updater waits");
        }
        1 => {
            step(one);
            w.check_all(&a, 0, "the clock is stepped before queries");
            step(two);
            w.check_all(&a, 1, "the clock is stepped between queries");
        }
        2 => {
            w.mine(1, 40);
            w.tick();
            w.kill();
            step(one);
            w.start();
            step(two);
            w.check_all(&a, 0, "the clock is stepped while the process is down");
        }
        _ => {
            // at every RPC call, to and fro
            let n = Cell::new(0);
            w.on_call(Some(Rc::new(move |_, _| {
                n.set(n.get() + 1);
                vstd::time::verif_step_wall(if n.get() % 2 == 1 { STEPS[one] } else { STEPS[two] - STEPS[one] });
                None
            })));
            w.mine(1, 40);
            w.mine(2, 41);
            w.submit(1, 42);
            w.tick();
            w.check_all(&a, 0, "the clock is stepped at every call");
        }
    }
    for i in 0..3 {
        w.mine(i, 90 + i as u64);
        w.tick();
        w.check_all(&a, i, "a later update");
    }
    rt::outcome(rt::hash64(&[conf as u8, one as u8, two as u8, at as u8]));
}

pub fn check() -> Check {
    Check {
        id: "C25",
        level: "fault_enumeration",
        rule: "one history of start-up, updates, writes, restart and queries, run with a step of every size of a menu at each single reading of the clock, and at each pair of readings, from clocks that start in 1970, before it, now or in 300 years; steps between readings. Counted by readings and steps chosen",
        assumptions: &["the monotonic clock is not affected by steps"],
        spaces: |th| {
            vec![
                Space::new("one step", 1, move || life(1, if th { 4 } else { 3 }, STEPS.len(), if th { 8 } else { 4 }, 4)).split(64, 0),
                Space::new("two steps", 2, move || life(2, if th { 2 } else { 1 }, if th { 5 } else { 3 }, 2, 1)).split(64, 0),
                Space::new("between readings", 0, between).split(16, 0),
            ]
        },
    }
}
