//! A stalled disk never stalls the service.
use super::c04::{client, one_version, snapshot};
use crate::life::*;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vstd::fs::{Action, Event};

pub fn mutating(e: &Event) -> bool {
    !matches!(e, Event::OpenRead(_) | Event::Other("read directory", _))
}

/// Stalls the `at`-th disk operation from now on; tells whether it was reached.
pub fn stall_at(at: usize) -> Rc<RefCell<Option<String>>> {
    let hit = Rc::new(RefCell::new(None));
    let h = hit.clone();
    let n = Cell::new(0);
    vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
        if !mutating(e) {
            return Action::Proceed;
        }
        n.set(n.get() + 1);
        if n.get() - 1 == at {
            *h.borrow_mut() = Some(e.label());
            rt::note(|| format!("disk stalls: {}", e.label()));
            return Action::Stall;
        }
        Action::Proceed
    })));
    hit
}

fn node_event(n: &mut Node, conf: usize, k: usize, salt: u64) -> Option<&'static str> {
    Some(match k {
        0 => {
            n.mine_t(salt as usize % 4, salt);
            "one block"
        }
        1 => {
            n.submit_t(2, salt);
            "mempool"
        }
        2 => {
            for i in 0..conf as u64 + 1 {
                n.mine_t(1 + (salt + i) as usize % 3, salt + i);
            }
            "many blocks"
        }
        3 if conf > 1 => {
            n.reorg(conf - 1, 1, salt as usize % 4, salt);
            "branch switch"
        }
        4 => {
            if n.mempool.is_empty() {
                n.submit_t(1, salt);
            }
            let k = n.mempool.len();
            n.mine_pool(k);
            "mempool mined"
        }
        _ => return None,
    })
}

fn histories(confs: usize, steps: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let at = rt::free(12, "disk operation that stalls");
    let hit = stall_at(at);
    w.mine(1, 50);
    w.mine(2, 51);
    let mut text = format!("CONFIRMATIONS {}", conf);
    w.tick();
    w.check_all(&a, 0, "the update that triggers the write");
    if hit.borrow().is_none() {
        return; // fewer operations
    }
    text += &format!(", stall at: {}", hit.borrow().clone().unwrap());
    for s in 0..steps {
        let k = rt::free(5, "node event");
        match node_event(&mut w.node(), conf, k, 60 + 9 * s as u64) {
            Some(t) => text += &format!(", {}", t),
            None => return,
        }
        w.tick();
        w.check_all(&a, s + 1, &format!("while the disk stalls: {}", text));
    }
    if rt::stalled_tasks() == 0 {
        rt::error("the stalled operation went on");
    }
    vstd::fs::verif_hook(None);
    rt::release_stalls();
    rt::quiesce();
    w.must_live("the end of the stall");
    w.check_all(&a, 3, &format!("after the stall: {}", text));
    // and the write that was delayed must still be followed by others
    w.mine(3, 90);
    w.tick();
    w.check_all(&a, 4, &format!("one block after the stall: {}", text));
    rt::outcome(w.ledger().digest() ^ at as u64);
    rt::sample(4, || text);
}

/// A second stall in the write that follows the first.
fn again() {
    let w = W::new(Cfg { conf: 2, ..Cfg::default() });
    w.seed(5);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    for round in 0..3 {
        let at = rt::free(5, "disk operation that stalls");
        let hit = stall_at(at);
        w.mine(1, 50 + 10 * round);
        w.mine(2, 51 + 10 * round);
        w.tick();
        w.check_all(&a, 0, "the update that triggers the write");
        if hit.borrow().is_none() {
            return;
        }
        w.mine(2, 52 + 10 * round);
        w.tick();
        w.check_all(&a, 1, "while the disk stalls");
        vstd::fs::verif_hook(None);
        rt::release_stalls();
        rt::quiesce();
        w.must_live("the end of the stall");
        w.check_all(&a, 2, "after the stall");
    }
}

/// Queries and an update interleave while the writer is stuck.
fn interleaved() {
    let conf = 2;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(5);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let at = rt::free(4, "disk operation that stalls");
    let hit = stall_at(at);
    w.mine(1, 50);
    w.mine(2, 51);
    w.tick();
    if hit.borrow().is_none() {
        return;
    }
    let depth = [0, 2][rt::free(2, "depth index")];
    let kind = KINDS[rt::free(4, "query form")];
    let seen = Rc::new(RefCell::new(Vec::new()));
    let mut versions = vec![snapshot(&w)];
    w.mine(2, 70);
    versions.push(snapshot(&w));
    rt::explore_interleavings(true);
    client(&w, 0, vec![(kind, depth); 2], a.clone(), seen.clone());
    w.tick_raw();
    rt::explore_interleavings(false);
    w.must_live("update with queries while the disk stalls");
    if seen.borrow().len() != 2 {
        rt::fail(format!("{:?} at depth {} is not answered while the disk stalls ({})", kind, depth, hit.borrow().clone().unwrap()));
    }
    one_version(&seen.borrow(), &versions);
}

/// Updates in a row, of which one or several trigger a write that stalls.
fn into_a_stall(confs: usize, bursts: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let n = 1 + rt::free(bursts, "further updates");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let at = [0, 1, 4, 5][rt::free(4, "disk operation that stalls")];
    let hit = stall_at(at);
    w.mine(1, 50);
    let w2 = w.clone();
    w.burst(n, move |k| {
        w2.mine(2, 60 + 10 * k as u64);
    });
    rt::explore_interleavings(true);
    w.tick_raw();
    rt::explore_interleavings(false);
    rt::on_sleep(None);
    w.must_live("updates in a row");
    let stalled = hit.borrow().clone();
    let text = format!("CONFIRMATIONS {}, {} updates in a row, {}", conf, n + 1, stalled.as_deref().map_or("no stall".into(), |t| format!("stall at: {}", t)));
    w.check_all(&a, 0, &text);
    w.mine(3, 90);
    w.tick();
    w.check_all(&a, 1, &format!("{}, one more", text));
    vstd::fs::verif_hook(None);
    rt::release_stalls();
    rt::quiesce();
    w.must_live("the end of the stall");
    w.check_all(&a, 2, &format!("{}, after it", text));
    rt::sample(3, || text);
}

pub fn check() -> Check {
    Check {
        id: "C06",
        level: "model_checking",
        rule: "a stall at every disk operation of a write, then every history of node events and updates, with all queries checked against a replay after each event while the disk stalls and after it; also all interleavings of an update and queries during a stall",
        assumptions: &["a stalled operation blocks the thread that issued it and nothing else, as on a multi-threaded machine"],
        spaces: |th| {
            vec![
                Space::new("histories during a stall", 0, move || histories(if th { 4 } else { 3 }, if th { 3 } else { 2 })).split(16, 3),
                Space::new("repeated stalls", 0, again).split(8, 2),
                Space::new("long stalls", 0, move || {
                    let all = [Nothing, Blocks(1), Final(0), Blocks(40), Wide, Pool(1), Pool(3), Pool(5), Chain(2), Chain(3), Chain(5), Chain(4), Pool(2), Pool(6), Pool(8), Mesh(3)];
                    let cfgs = confs(if th { &[1, 2, 3, 6, 12] } else { &[1, 3] });
                    let at = [0, 1, 3, 7][rt::free(4, "disk operation that stalls")];
                    Life::run(&cfgs, 4, &[Stall(at), Pool(2), Blocks(2)], if th { &all } else { &all[..11] }, 3, 1)
                })
                .split(32, 4),
                Space::new("many blocks during a stall", 0, move || {
                    let all = [Empty(2_500), Blocks(200), Throng(3_000), Empty(300)];
                    Life::run(&confs(if th { &[1, 2, 6] } else { &[2] }), 4, &[Stall(1), Blocks(2)], &all, 2, 1)
                })
                .split(16, 2),
                Space::new("many updates during a stall", 0, move || {
                    let cfgs = confs(&[1, 2, 6, 12]);
                    Life::run(&cfgs, 4, &[Stall(1), Blocks(2)], &[Nothing, Blocks(1), Chain(2), Release], if th { 8 } else { 5 }, 1)
                })
                .split(32, 4),
                Space::new("updates in a row into a stall", 0, move || into_a_stall(2, if th { 3 } else { 2 })).naps(1, 2).split(32, 5),
                Space::new("interleavings during a stall", 0, interleaved).delay(if th { 3 } else { 2 }).split(16, 4),
            ]
        },
    }
}
