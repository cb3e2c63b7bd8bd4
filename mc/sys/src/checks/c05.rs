//! No interleaving of updates, writes and queries deadlocks or aborts.
use super::c04::{client, event};
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

fn bursts(confs: usize, n: usize, clients: usize, events: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let e1 = rt::free(events, "first event");
    let e2 = rt::free(events, "second event");
    let fits = move |e: usize| if e == 4 && conf == 1 { 0 } else { e };
    event(&w, fits(e1), 40);
    let w2 = w.clone();
    w.burst(n, move |k| {
        event(&w2, fits(if k == 0 { e2 } else { 0 }), 60 + 10 * k as u64);
    });
    let seen = Rc::new(RefCell::new(Vec::new()));
    rt::explore_interleavings(true);
    for c in 0..clients {
        client(&w, c, vec![([Kind::Balance, Kind::UtxosMany][c % 2], if c == 0 { conf } else { 0 })], a.clone(), seen.clone());
    }
    w.tick_raw();
    rt::explore_interleavings(false);
    w.must_live("updates, writes and queries");
    if seen.borrow().len() != clients {
        rt::fail("a query is never answered");
    }
    for s in seen.borrow().iter() {
        if let Err(e) = &s.value {
            rt::fail(format!("{:?} at depth {} is not answered: {}", s.kind, s.depth, e));
        }
    }
    // what happened while the writer was busy must not show up later either
    for k in 0..2 {
        w.mine(1, 90 + k);
        w.tick();
    }
    for depth in [0, conf] {
        let l = w.node().expect(depth);
        w.check_depth(depth, &a, &l, depth, "afterwards");
    }
    rt::sample(3, || format!("CONFIRMATIONS {}, events {} and {}, {} updates in a row, {} clients", conf, e1, e2, n + 1, clients));
}

pub fn check() -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        rule: "all interleavings, within a preemption bound, of two or three consecutive updates with the writes they trigger and with clients' queries; every query must be answered, the process must go on, and later updates must work",
        assumptions: &["healthy node and disk", "sequentially consistent memory; scheduling points are lock, channel, RPC, disk and task operations"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("two updates and the writer", 0, || bursts(3, 1, 0, 5)).delay(d + 1).split(32, 5),
                Space::new("three updates and the writer", 0, move || bursts(2, 2, 0, if th { 5 } else { 2 })).delay(d).split(32, 5),
                Space::new("a suspended thread", 0, move || bursts(2, 2, 2, if th { 5 } else { 2 })).naps(2, if th { 1 } else { 0 }).split(32, 5),
                Space::new("a suspended thread, delays", 0, move || bursts(2, 1, 1, 2)).naps(1, if th { 2 } else { 1 }).split(32, 5),
                Space::new("two updates, the writer and a client", 0, move || bursts(2, 1, 1, if th { 5 } else { 2 })).delay(d).split(32, 5),
                Space::new("one update, the writer and two clients", 0, move || bursts(2, 0, 2, 2)).delay(d).split(32, 5),
            ]
        },
    }
}
