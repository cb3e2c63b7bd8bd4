//! Depth-0 answers reflect chain plus mempool.
use crate::btc::*;
use crate::life::*;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn pool_event(n: &mut Node, k: usize, salt: u64) -> Option<String> {
    let len = n.mempool.len();
    Some(match k {
        // a chain of two dependent transactions
        1 => {
            n.submit_t(2, salt);
            "submit a chain".into()
        }
        2 => {
            n.submit_t(1, salt);
            "submit one".into()
        }
        3 if len > 0 => {
            n.mine_pool(len);
            "mine the mempool".into()
        }
        4 if len > 1 => {
            n.mine_pool(1);
            "mine the first".into()
        }
        5 if len > 0 => {
            n.evict(0);
            "evict the first".into()
        }
        6 if len > 0 => {
            n.replace(0, salt);
            "replace the first".into()
        }
        7 if len > 0 => {
            // a block with a transaction that conflicts with the first
            let keep = n.mempool.clone();
            let k = n.first_confirmed()?;
            n.replace(k, salt + 1);
            let t = n.mempool.last().cloned()?;
            n.mempool = keep;
            let h = n.height();
            n.history.pop();
            n.mine(vec![t], wallet::reward(h));
            "mine a conflict".into()
        }
        8 if len > 1 => {
            // the node may list in any order
            n.mempool.reverse();
            n.mark();
            "list in reverse".into()
        }
        9 => {
            n.reorg(1, 1, 0, salt);
            "unconfirm the last block".into()
        }
        10 => {
            n.submit_t(3, salt);
            "submit a sweep".into()
        }
        11 if len > 0 => {
            let id = n.mempool[0].id;
            n.vanished.push(id);
            "make the first unfetchable".into()
        }
        _ => return None,
    })
}

fn histories(steps: usize, events: usize) {
    let w = W::new(Cfg { conf: 2, ..Cfg::default() });
    w.seed(6);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let mut text = String::new();
    for s in 0..steps {
        for e in 0..events {
            let first = s == 0 && e == 0;
            let k = if first { 1 + rt::free(2, "first mempool event") } else { rt::free(12, "mempool event") };
            if k == 0 {
                break;
            }
            let v = pool_event(&mut w.node(), k, (s * 13 + e * 5 + 1) as u64);
            match v {
                Some(t) => text += &format!("{}, ", t),
                None => return,
            }
        }
        text += "poll; ";
        let from = w.version();
        w.tick();
        let lazy = !w.node().vanished.is_empty();
        if lazy {
            w.check_range(from, &a, s, &text);
        } else {
            w.check_all(&a, s, &text);
        }
    }
    rt::outcome(w.node().expect(0).digest());
    rt::sample(3, || text);
}

fn during() {
    let w = W::new(Cfg { conf: 2, ..Cfg::default() });
    w.seed(6);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    w.submit(2, 4);
    let warm = rt::free(2, "mempool known before");
    if warm == 1 {
        w.tick();
        w.check_all(&a, 0, "first mempool");
    }
    w.submit(1, 5);
    let block = rt::free(2, "new block before the update");
    if block == 1 {
        w.mine(0, 9);
    }
    let from = w.version();
    let text = Rc::new(RefCell::new(format!("warm {}, block {}", warm, block)));
    let salt = Rc::new(RefCell::new(30u64));
    let t2 = text.clone();
    w.on_call(Some(Rc::new(move |n: &mut Node, call: &vhyper::Call| {
        let k = rt::dev(11, "mempool event before this call");
        if k > 0 {
            *salt.borrow_mut() += 3;
            let s = *salt.borrow();
            let body: serde_json::Value = serde_json::from_slice(&call.body).unwrap_or_default();
            if let Some(t) = pool_event(n, k, s) {
                rt::note(|| format!("node event: {}", t));
                *t2.borrow_mut() += &format!("; {} before {}", t, body["method"].as_str().unwrap_or(""));
            }
        }
        None
    })));
    w.tick();
    w.on_call(None);
    w.check_range(from, &a, 1, &format!("the update itself: {}", text.borrow()));
    w.tick();
    w.check_all(&a, 2, &format!("the next update: {}", text.borrow()));
    rt::outcome(w.node().expect(0).digest());
    rt::sample(3, || text.borrow().clone());
}

/// A transaction with several inputs, one of which is not available where it is listed.
fn many_inputs(most: usize) {
    let n = 1 + rt::free(most, "inputs - 1");
    let j = rt::free(n, "the one that lacks");
    let why = rt::free(5, "parent listed later, parent unfetchable, conflict mined meanwhile, spent by an unlisted one before, nothing lacks");
    let warm = rt::free(2, "mempool known before") == 1;
    let w = W::new(Cfg { conf: 2, ..Cfg::default() });
    w.seed(6);
    let a = wallet::addrs();
    let l = w.ledger();
    let c = wallet::coins(&l, |o| Addr::of_script(&o.script).is_some() && o.value > 10_000_000).pop().expect("coin");
    let split = tx(wallet::spend(&[c]), (0..most as u64 + 2).map(|i| wallet::pay(a[i as usize % 5], 10_000 + i)).collect());
    w.mine_txs(vec![split.clone()]);
    w.mine(0, 3);
    w.write_block_files();
    w.start();
    let mut ins: Vec<In> = (0..n).map(|k| In::new(split.id, k as u32)).collect();
    let parent = tx(vec![In::new(split.id, most as u32)], vec![wallet::pay(a[0], 500), wallet::pay(a[1], 600)]);
    if why < 2 {
        ins[j] = In::new(parent.id, 1);
    }
    let child = tx(ins.clone(), vec![wallet::pay(a[2], 123), wallet::other(4), wallet::pay(a[3], 456)]);
    let grand = tx(vec![In::new(child.id, 2), In::new(split.id, most as u32 + 1)], vec![wallet::pay(a[4], 99)]);
    let rival = tx(vec![ins[j].clone()], vec![wallet::pay(a[1], 321)]);
    {
        let mut m = w.node();
        m.mempool = match why {
            0 => vec![child.clone(), parent, grand.clone()],
            1 => vec![parent.clone(), child.clone(), grand.clone()],
            3 => vec![rival.clone(), child.clone(), grand.clone()],
            _ => vec![child.clone(), grand.clone()],
        };
        if why == 1 {
            let id = m.mempool[0].id;
            m.vanished.push(id);
        }
        m.mark();
    }
    let text = format!("a mempool transaction with {} inputs, number {} lacks ({}, warm {})", n, j, why, warm);
    if warm {
        let from = w.version();
        w.tick();
        w.check_range(from, &a, 0, &text);
    }
    let from = w.version();
    if why == 2 {
        let once = std::cell::Cell::new(true);
        let (c, g) = (child.id, grand.id);
        w.on_call(Some(Rc::new(move |m: &mut Node, call: &vhyper::Call| {
            let body: serde_json::Value = serde_json::from_slice(&call.body).unwrap_or_default();
            if once.get() && body["method"] == "getblockhash" {
                once.set(false);
                m.mempool.retain(|t| t.id != c && t.id != g);
                let h = m.height();
                m.mine(vec![rival.clone()], wallet::reward(h));
            }
            None
        })));
    }
    w.tick();
    w.on_call(None);
    w.check_range(from, &a, 1, &text);
    w.tick();
    w.check_range(from.max(w.version() - 1), &a, 2, &format!("{}, the next update", text));
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(3, || text);
}

/// A mempool transaction of a size that few have.
fn large(th: bool) {
    let conf = 1 + rt::free(2, "CONFIRMATIONS - 1");
    let n = [300, 1_100, 2_600, 5_200, 10_500, 20_500][rt::free(6, "how many")];
    let kind = rt::free(3, "inputs, outputs, both");
    let before = rt::free(if th { 3 } else { 2 }, "listed alone, after others, split over two updates");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(6);
    let a = wallet::addrs();
    let fund = w.node().mine(vec![], (0..n + 5).map(|i| wallet::pay(a[i % 5], 10_000 + i as u64)).collect()).txs[0].id;
    w.mine(0, 3);
    w.write_block_files();
    w.start();
    let (ins, outs) = [(n, 2), (1, n), (n, n)][kind];
    let big = tx((0..ins).map(|i| In::new(fund, i as u32)).collect(), (0..outs).map(|i| wallet::pay(a[i % 5], 20_000 + i as u64)).collect());
    let child = tx(vec![In::new(big.id, outs as u32 - 1)], vec![wallet::pay(a[4], 99)]);
    let small = tx(vec![In::new(fund, n as u32 + 1)], vec![wallet::pay(a[3], 77)]);
    let text = format!("CONFIRMATIONS {}, a mempool transaction with {} inputs and {} outputs, {}", conf, ins, outs, before);
    let set = |l: Vec<Tx>| {
        w.node().mempool = l;
        w.node().mark();
        w.tick();
        w.check_all(&a, 0, &text);
    };
    match before {
        0 => set(vec![big.clone(), child.clone()]),
        1 => set(vec![small, big.clone(), child.clone()]),
        _ => {
            set(vec![big.clone()]);
            set(vec![big.clone(), small, child.clone()]);
        }
    }
    w.mine(1, 20);
    w.tick();
    w.check_all(&a, 1, &format!("{}, a block later", text));
    set(vec![]);
    w.mine_txs(vec![big, child]);
    w.tick();
    w.check_all(&a, 2, &format!("{}, mined", text));
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(3, || text.clone());
}

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "model_checking",
        rule: "every history of mempool events (also with blocks, branch switches, store writes and restarts in between, and with hundreds of transactions; submission of chains and sweeps, eviction, replacement, mining of all, part or of a conflict, reversed listing, unconfirmation, unfetchable transactions) between updates, and every placement of such an event before any RPC call of an update; depth-0 answers are compared with the chain plus applicable mempool",
        assumptions: &["within one update the accepted answers are those of a chain version at least as new as the mempool version they contain, so a transaction moving into a block never disappears"],
        spaces: |th| {
            vec![
                Space::new("histories", 0, move || histories(if th { 3 } else { 2 }, 2)).split(16, 3),
                Space::new("during an update", 2, during).split(32, 5),
                Space::new("transactions with many inputs", 0, move || many_inputs(if th { 12 } else { 6 })).split(8, 3),
                Space::new("large transactions", 0, move || large(th)).split(8, 3),
                Space::new("with blocks, stalls and restarts", 0, move || {
                    let all = [Pool(1), Pool(2), Pool(3), Pool(5), Pool(7), Blocks(1), Lapse, Chain(2), Stall(5), Restart, Pool(4), Pool(6), Pool(8), Pool(10), Final(1), Chain(3), Release];
                    Life::run(&confs(if th { &[1, 2, 3] } else { &[1, 3] }), 4, &[Pool(1), Pool(2)], if th { &all } else { &all[..10] }, 2, 2)
                })
                .split(32, 3),
                Space::new("very large mempools", 0, move || {
                    let n = if th { 60_000 } else { 25_000 };
                    Life::run(&confs(&[2]), 4, &[Throng(n)], &[Pool(5), Mined, Pool(2), Restart], 1, if th { 2 } else { 1 })
                })
                .split(4, 1),
                Space::new("large mempools", 0, move || {
                    let all = [Crowd(1), Crowd(40), Crowd(if th { 400 } else { 150 }), Mined, Pool(4), Pool(5), Pool(8), Nothing, Blocks(1)];
                    Life::run(&confs(if th { &[1, 2, 3] } else { &[2] }), 4, &[], &all, if th { 3 } else { 2 }, 1)
                })
                .split(8, 2),
            ]
        },
    }
}
