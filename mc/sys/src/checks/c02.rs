//! Chain reorganisations converge to the node's chain.
use crate::life::*;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

/// Something that happens to the node's chain. Every switch is to a longer branch and replaces fewer than
/// `conf` blocks of the chain of that moment.
pub fn chain_event(n: &mut Node, conf: usize, k: usize, salt: u64, tips: &mut Vec<Vec<[u8; 32]>>) -> Option<String> {
    let deep = conf - 1;
    Some(match k {
        1 => {
            n.mine_t(salt as usize % 4, salt);
            "mine 1".into()
        }
        2 if deep >= 1 => {
            tips.push(n.active.clone());
            n.reorg(1, 1, salt as usize % 4, salt);
            "replace 1".into()
        }
        3 if deep >= 2 => {
            tips.push(n.active.clone());
            n.reorg(deep, 1, (salt as usize + 1) % 4, salt);
            format!("replace {}", deep)
        }
        4 if deep >= 1 => {
            tips.push(n.active.clone());
            n.reorg(deep, 3, (salt as usize + 2) % 4, salt);
            format!("replace {} by {}", deep, deep + 3)
        }
        5 if deep >= 1 => {
            n.reorg(deep, 1, salt as usize % 4, salt);
            n.reorg(deep, 1, (salt as usize + 1) % 4, salt + 50);
            format!("replace {} twice", deep)
        }
        6 => {
            // back to the branch left last, if that is no deeper than allowed
            let old = tips.last()?.clone();
            let common = old.iter().zip(&n.active).take_while(|(a, b)| a == b).count();
            if n.active.len() - common > deep || old.len() < common {
                return None;
            }
            let here = n.active.clone();
            n.switch_to(&old, salt as usize % 4, salt);
            tips.push(here);
            "switch back".into()
        }
        7 if deep >= 2 => {
            tips.push(n.active.clone());
            n.reorg(2, 2, (salt as usize + 3) % 4, salt);
            "replace 2 by 4".into()
        }
        8 => {
            for i in 0..conf + 1 {
                n.mine_t((salt as usize + i) % 4, salt + i as u64);
            }
            format!("mine {}", conf + 1)
        }
        _ => return None,
    })
}

fn between(confs: Vec<usize>, steps: usize, events: usize) {
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 4);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    w.check_all(&a, 0, "after start-up");
    let mut tips = Vec::new();
    let mut text = format!("conf {}", conf);
    for s in 0..steps {
        for e in 0..events {
            let k = rt::free(if e == 0 { 8 } else { 9 }, "node event") + if e == 0 { 1 } else { 0 };
            if k == 0 {
                break;
            }
            match chain_event(&mut w.node(), conf, k, (s * 11 + e * 5 + 3) as u64, &mut tips) {
                Some(t) => text += &format!(", {}", t),
                None => return,
            }
        }
        text += "; poll";
        w.tick();
        w.check_all(&a, s, &format!("update {} after {}", s + 1, text));
    }
    rt::outcome(w.ledger().digest());
    rt::sample(3, || text);
}

fn during(confs: Vec<usize>, startup: bool) {
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 4);
    w.write_block_files();
    let a = wallet::addrs();
    let text = Rc::new(RefCell::new(format!("conf {}", conf)));
    let tips = Rc::new(RefCell::new(Vec::new()));
    let salt = Rc::new(RefCell::new(20u64));
    let hook: NodeHook = {
        let (text, tips, salt) = (text.clone(), tips.clone(), salt.clone());
        Rc::new(move |n: &mut Node, call: &vhyper::Call| {
            let menu: Vec<usize> = if conf == 1 { vec![0, 1, 8] } else if conf == 2 { vec![0, 1, 2, 5, 8] } else { vec![0, 1, 2, 3, 4, 5, 8] };
            let k = menu[rt::dev(menu.len(), "node event before this call")];
            if k > 0 {
                *salt.borrow_mut() += 7;
                let s = *salt.borrow();
                let body: serde_json::Value = serde_json::from_slice(&call.body).unwrap_or_default();
                if let Some(t) = chain_event(n, conf, k, s, &mut tips.borrow_mut()) {
                    rt::note(|| format!("node event: {}", t));
                    *text.borrow_mut() += &format!("; {} before {} {}", t, body["method"].as_str().unwrap_or(""), body["params"]);
                }
            }
            None
        })
    };
    w.submit(1, 3);
    w.mine(2, 8);
    if startup {
        w.on_call(Some(hook));
        w.start();
    } else {
        w.start();
        w.mine(1, 9);
        w.mine(3, 10);
        w.submit(2, 4);
        w.on_call(Some(hook));
        w.tick();
    }
    w.on_call(None);
    let v0 = 0;
    w.check_range(v0, &a, 0, &format!("the update itself: {}", text.borrow()));
    w.tick();
    w.check_all(&a, 1, &format!("the next update: {}", text.borrow()));
    w.mine(1, 77);
    w.tick();
    w.check_all(&a, 2, &format!("one block later: {}", text.borrow()));
    rt::outcome(w.ledger().digest());
    rt::sample(4, || text.borrow().clone());
}

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "model_checking",
        rule: "every history of branch switches (with the store being written or not, mempool changes and restarts in between; each replacing fewer than CONFIRMATIONS blocks, including the maximum, repeated ones and switches back) between updates, and every placement of such an event before any RPC call of an update or of the start-up; answers are compared with a replay of the node's chain",
        assumptions: &["every switch is to a strictly longer branch and happens in one step, as in Bitcoin Core"],
        spaces: |th| {
            vec![
                Space::new("between polls", 0, move || between(if th { vec![2, 3, 4, 6] } else { vec![2, 3, 4] }, if th { 3 } else { 2 }, if th { 2 } else { 1 })).split(16, 3),
                Space::new("during an update", if th { 2 } else { 1 }, move || during(if th { vec![1, 2, 3, 4] } else { vec![1, 2, 3] }, false)).split(8, 4),
                Space::new("stalls and restarts", 0, move || {
                    let all = [Chain(1), Chain(2), Chain(3), Chain(4), Chain(6), Stall(0), Stall(5), Release, Restart, Chain(5), Chain(7), Chain(8), Stall(2), Pool(1), Mined];
                    Life::run(&confs(if th { &[2, 3, 4] } else { &[2, 3] }), 4, &[Blocks(1)], if th { &all } else { &all[..9] }, 2, 2)
                })
                .split(32, 3),
                Space::new("long branches", 0, move || {
                    let all = [Chain(2), Chain(3), Chain(4), Chain(5), Chain(6), Chain(7), Chain(8), Blocks(40), Restart, Pool(1)];
                    Life::run(&confs(if th { &[5, 6, 7, 12, 20, 40] } else { &[6, 12, 20] }), 4, &[], &all, if th { 3 } else { 2 }, 1)
                })
                .split(16, 3),
                Space::new("stalled, three updates", 0, move || {
                    let all = [Blocks(1), Chain(2), Chain(3), Chain(5), Release, Chain(6)];
                    Life::run(&confs(&[2, 3, 4]), 4, &[Stall(1), Blocks(1)], &all, 3, 1)
                })
                .split(16, 3),
                Space::new("during start-up", if th { 2 } else { 1 }, move || during(if th { vec![1, 2, 3, 4] } else { vec![2, 3] }, true)).split(8, 4),
            ]
        },
    }
}
