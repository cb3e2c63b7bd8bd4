//! A slow node never stalls the service.
use super::c02::chain_event;
use super::c03::pool_event;
use super::c04::{client, one_version, snapshot};
use super::c06::stall_at;
use super::c07::first_height;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vhyper::Reply;

/// How a call takes its time.
const WAYS: [&str; 3] = ["the answer comes late", "half of the answer comes late", "the call is dealt with late"];

/// From now on the `at`-th call waits until the gate is opened; tells which it was.
fn slow(w: &W, at: usize, way: usize) -> Rc<RefCell<Option<String>>> {
    let hit = Rc::new(RefCell::new(None));
    let h = hit.clone();
    let n = Cell::new(0);
    vhyper::verif_gate(false);
    w.on_call(Some(Rc::new(move |node, call| {
        n.set(n.get() + 1);
        if n.get() - 1 != at {
            return None;
        }
        let method = serde_json::from_slice::<serde_json::Value>(&call.body).map_or_else(|_| "?".into(), |v| v["method"].to_string());
        *h.borrow_mut() = Some(format!("{} at {}", WAYS[way], method));
        rt::note(|| WAYS[way].to_string());
        Some(match way {
            2 => Reply::Later,
            _ => Reply::Late(way == 1, Box::new(node.answer(call))),
        })
    })));
    hit
}

fn event(n: &mut Node, conf: usize, k: usize, salt: u64, tips: &mut Vec<Vec<[u8; 32]>>) -> Option<String> {
    match k {
        0 => Some("nothing".into()),
        1 => chain_event(n, conf, 1, salt, tips),
        2 => pool_event(n, 1, salt),
        3 => chain_event(n, conf, 3 - (conf < 3) as usize, salt, tips),
        4 => {
            for i in 0..conf as u64 + 1 {
                n.mine_t(1 + (salt + i) as usize % 3, salt + i);
            }
            Some("many blocks".into())
        }
        _ => pool_event(n, 3, salt).or_else(|| pool_event(n, 2, salt)),
    }
}

/// Any call of any update is slow; meanwhile more happens, and everything is asked.
fn histories(confs: usize, steps: usize, kinds: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let a = wallet::addrs();
    let mut tips = vec![];
    let mut text = format!("CONFIRMATIONS {}", conf);
    let way = rt::free(WAYS.len(), "way");
    let at = rt::free(40, "call that is slow");
    let hit = slow(&w, at, way);
    let mut finals = w.node().height() + 1 - conf;
    for s in 0..steps {
        let from = w.version();
        let k = rt::free(kinds, "node event");
        match event(&mut w.node(), conf, k, 60 + 9 * s as u64, &mut tips) {
            Some(t) => text += &format!(", {}", t),
            None => return,
        }
        let before = w.node().height();
        w.tick();
        let Some(t) = hit.borrow().clone() else {
            w.check_all(&a, s, &text);
            finals = before + 1 - conf;
            continue;
        };
        text += &format!("; {}", t);
        w.check_range(from, &a, s, &format!("{}, in the meantime", text));
        // more happens while the call goes on
        let k = rt::free(kinds, "node event meanwhile");
        match event(&mut w.node(), conf, k, 160, &mut tips) {
            Some(t) => text += &format!(", {} meanwhile", t),
            None => return,
        }
        for _ in 0..3 {
            w.tick();
        }
        w.check_range(from, &a, s + 1, &format!("{}, and some time later", text));
        if rt::free(2, "stop in the meantime") == 1 {
            // what became final before must have reached the file
            w.kill();
            w.on_call(None);
            vhyper::verif_gate(true);
            let mark = w.node().log.len();
            w.start();
            let h = first_height(&w, mark);
            if h < finals {
                rt::fail(format!("{}: the store file holds {} blocks of {} that have become final", text, h, finals));
            }
            w.check_all(&a, s + 2, &format!("{}, restart", text));
        } else {
            vhyper::verif_gate(true);
            rt::quiesce();
            w.must_live("the end of a slow call");
            w.check_range(from, &a, s + 2, &format!("{}, after it", text));
            w.tick();
            w.check_all(&a, s + 3, &format!("{}, the next update", text));
        }
        w.mine(3, 190);
        w.tick();
        w.check_all(&a, s + 4, &format!("{}, one more block", text));
        rt::outcome(rt::hash64(text.as_bytes()));
        rt::sample(4, || text.clone());
        return;
    }
}

/// The node is slow and the disk stalls at the same time.
fn both(confs: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let stalled = stall_at([0, 1, 2, 3][rt::free(4, "disk operation that stalls")]);
    w.mine(1, 50);
    w.mine(2, 51);
    w.tick();
    w.check_all(&a, 0, "the update that triggers the write");
    let Some(disk) = stalled.borrow().clone() else { return };
    let way = rt::free(WAYS.len(), "way");
    let hit = slow(&w, rt::free(12, "call that is slow"), way);
    let from = w.version();
    w.submit(2, 60);
    w.mine(2, 61);
    w.tick();
    let Some(t) = hit.borrow().clone() else { return };
    let text = format!("CONFIRMATIONS {}, stall at: {}, {}", conf, disk, t);
    w.check_range(from, &a, 1, &text);
    let first = rt::free(2, "what ends first");
    for part in 0..2 {
        if part == first {
            vhyper::verif_gate(true);
        } else {
            vstd::fs::verif_hook(None);
            rt::release_stalls();
        }
        rt::quiesce();
        w.must_live("the end of a stall");
        w.check_range(from, &a, 2 + part, &format!("{}, {} of them over", text, part + 1));
    }
    w.tick();
    w.check_all(&a, 4, &format!("{}, the next update", text));
    w.mine(3, 90);
    w.tick();
    w.check_all(&a, 5, &format!("{}, one more block", text));
    rt::sample(3, || text);
}

/// Queries interleave with an update of which a call is slow, and with its end.
fn interleaved(clients: usize, th: bool) {
    let conf = 2;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(5);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let hit = slow(&w, rt::free(if th { 8 } else { 6 }, "call that is slow"), [0, 2][rt::free(2, "way")]);
    let depth = [0, 2][rt::free(2, "depth index")];
    let kind = KINDS[rt::free(4, "query form")];
    let seen = Rc::new(RefCell::new(Vec::new()));
    let late = Rc::new(RefCell::new(Vec::new()));
    let mut versions = vec![snapshot(&w)];
    w.mine(2, 70);
    versions.push(snapshot(&w));
    rt::explore_interleavings(true);
    for c in 0..clients {
        client(&w, c, vec![(kind, depth); 2], a.clone(), seen.clone());
    }
    w.tick_raw();
    let Some(t) = hit.borrow().clone() else { return };
    if seen.borrow().len() != 2 * clients {
        rt::fail(format!("{:?} at depth {} is not answered: {}", kind, depth, t));
    }
    client(&w, clients, vec![(kind, depth); 2], a.clone(), late.clone());
    vhyper::verif_gate(true);
    rt::quiesce();
    rt::explore_interleavings(false);
    w.must_live("an update with a slow call and queries");
    if late.borrow().len() != 2 {
        rt::fail(format!("{:?} at depth {} is not answered at the end of a slow call: {}", kind, depth, t));
    }
    one_version(&seen.borrow(), &versions);
    one_version(&late.borrow(), &versions);
    w.tick();
    w.check_all(&a, 0, &format!("{}, the next update", t));
}

pub fn check() -> Check {
    Check {
        id: "C26",
        level: "model_checking",
        rule: "each RPC call of every history of a few updates is slow, in three ways; while it is, something more happens to the node, intervals pass and all query forms are asked at all depths; then it ends, or the process is stopped and restarted; the same while the disk stalls; all interleavings, within a bound on delays, of queries with an update of which a call is slow and with its end. Judged by a replay of a chain and mempool the node had since the last completed update, and exactly after the next one",
        assumptions: &["a slow call ends in the end", "the first update, before which nothing is served, is covered by C14"],
        spaces: |th| {
            vec![
                Space::new("a slow call", 0, move || histories(if th { 4 } else { 3 }, if th { 3 } else { 2 }, if th { 6 } else { 5 })).split(32, 3),
                Space::new("a slow call and a stalled disk", 0, move || both(if th { 4 } else { 2 })).split(16, 3),
                Space::new("queries during a slow call", 0, move || interleaved(if th { 2 } else { 1 }, th)).delay(if th { 2 } else { 2 }).split(32, 4),
            ]
        },
    }
}
