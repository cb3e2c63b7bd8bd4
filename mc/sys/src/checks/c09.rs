//! Stopping and restarting is invisible.
use crate::btc::*;
use crate::life::*;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::Cell;
use std::rc::Rc;

/// A transaction with many outputs, of which later ones are spent later.
pub fn wide(w: &W) {
    let l = w.ledger();
    let c = wallet::coins(&l, |o| Addr::of_script(&o.script).is_some() && o.value > 10_000_000).pop().expect("coin");
    let a = wallet::addrs();
    let outs: Vec<Out> = (0..300u64).map(|i| if i % 50 == 3 { wallet::other(i) } else { wallet::pay(a[i as usize % 5], 1000 + i) }).collect();
    let t = tx(wallet::spend(&[c]), outs);
    let h = w.node().height();
    w.node().mine(vec![t.clone()], wallet::reward(h));
    let t2 = tx(
        [0u32, 1, 255, 256, 257, 299].iter().map(|&n| In::new(t.id, n)).collect(),
        vec![wallet::pay(a[1], 4_294_967_296), wallet::pay(a[3], 4_294_967_295), wallet::pay(a[0], 1)],
    );
    w.node().mine(vec![t2], wallet::reward(h + 1));
}

/// A transaction with very many outputs for one address, of which a few are spent in the next block.
pub fn vast(w: &W, n: usize) {
    let l = w.ledger();
    let c = wallet::coins(&l, |o| Addr::of_script(&o.script).is_some() && o.value > 10_000_000).pop().expect("coin");
    let a = wallet::addrs();
    let outs: Vec<Out> = (0..n as u64).map(|i| wallet::pay(a[if i % 10_000 == 9_999 { 1 } else { 2 }], 1 + i % 50)).collect();
    let t = tx(wallet::spend(&[c]), outs);
    let h = w.node().height();
    w.node().mine(vec![t.clone()], wallet::reward(h));
    let t2 = tx((1..n as u32).filter(|i| i.is_power_of_two()).map(|i| In::new(t.id, i)).collect(), vec![wallet::pay(a[2], 5)]);
    w.node().mine(vec![t2], wallet::reward(h + 1));
}

/// A transaction with more than 65536 outputs.
pub fn huge(w: &W) -> Tx {
    let l = w.ledger();
    let c = wallet::coins(&l, |o| Addr::of_script(&o.script).is_some() && o.value > 10_000_000).pop().expect("coin");
    let a = wallet::addrs();
    let outs: Vec<Out> = (0..65_540u64).map(|i| if i < 3 || i % 32_768 < 2 || i > 65_535 { wallet::pay(a[i as usize % 5], 1000 + i) } else { Out { value: i % 2, script: vec![] } }).collect();
    let t = tx(wallet::spend(&[c]), outs);
    let h = w.node().height();
    w.node().mine(vec![t.clone()], wallet::reward(h));
    t
}

fn many_outputs() {
    let conf = 1 + rt::free(2, "CONFIRMATIONS - 1");
    let early = rt::free(2, "from the node, from the block files") == 1;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    let a = wallet::addrs();
    w.seed(conf + 2);
    let mut t = None;
    if early {
        t = Some(huge(&w));
        w.mine(0, 7);
    }
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let t = t.unwrap_or_else(|| huge(&w));
    w.mine(0, 8);
    w.tick();
    w.check_all(&a, 0, "a transaction with 65540 outputs");
    w.kill();
    w.start();
    w.check_all(&a, 1, "restart with a transaction of 65540 outputs");
    let h = w.node().height();
    let t2 = tx([0u32, 2, 3, 32_768, 65_535, 65_536, 65_539].iter().map(|&n| In::new(t.id, n)).collect(), vec![wallet::pay(a[1], 5)]);
    w.node().mine(vec![t2], wallet::reward(h));
    w.mine(0, 9);
    w.tick();
    w.check_all(&a, 2, "outputs with high numbers are spent");
    w.kill();
    w.start();
    w.check_all(&a, 3, "restart after outputs with high numbers are spent");
    rt::outcome(w.ledger().digest() ^ conf as u64);
}

/// Outputs of great value are kept exactly.
fn great_values() {
    const ALL: u64 = 2_099_999_997_690_000;
    let conf = 1 + rt::free(2, "CONFIRMATIONS - 1");
    let early = rt::free(2, "from the node, from the block files") == 1;
    let k = rt::free(52, "value");
    // every power of two, one less, and more than half of it, up to all there will ever be
    let v = match k {
        0 => ALL,
        1 => ALL - 1,
        k => (1u64 << (k as u32)) - (k as u64 % 2),
    }
    .min(ALL);
    let w = W::new(Cfg { conf, ..Cfg::default() });
    let a = wallet::addrs();
    let mut n = 0;
    let mut fill = |k: usize| {
        for _ in 0..k {
            n += 1;
            w.node().mine(vec![], vec![wallet::pay(a[4], 2)]);
        }
        n
    };
    fill(3);
    let mut t = None;
    let rich = |t: &mut Option<H>| {
        let b = w.node().mine(vec![], vec![wallet::pay(a[0], v), wallet::pay(a[1], ALL - v), wallet::pay(a[0], 0)]);
        *t = Some(b.txs[0].id);
    };
    if early {
        rich(&mut t);
        fill(conf);
    }
    fill(1);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    if !early {
        rich(&mut t);
        fill(conf);
        w.tick();
    }
    let id = t.unwrap();
    w.check_all(&a, 0, &format!("an output of {}", v));
    w.kill();
    w.start();
    w.check_all(&a, 1, &format!("restart with an output of {}", v));
    let t2 = tx(vec![In::new(id, 0), In::new(id, 1), In::new(id, 2)], vec![wallet::pay(a[2], ALL - v / 2), wallet::pay(a[3], v / 2)]);
    w.node().mine(vec![t2], vec![wallet::pay(a[4], 1)]);
    fill(1);
    w.tick();
    w.check_all(&a, 2, &format!("an output of {} is spent", v));
    w.kill();
    w.start();
    w.check_all(&a, 3, &format!("restart after an output of {} is spent", v));
    rt::outcome(w.ledger().digest() ^ conf as u64);
}

/// A chain that passes 65536 blocks.
fn great_heights() {
    let conf = [1, 3][rt::free(2, "CONFIRMATIONS index")];
    let short = [3, 0][rt::free(2, "final blocks lacking")];
    let w = W::new(Cfg { conf, threads: 1, batch: 1000, interval: 1000 });
    let a = wallet::addrs();
    w.seed(5);
    w.node().mine_empty(65_536 - 5 - short + conf - 1);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    for i in 0..2 {
        w.mine(1 + i, 30 + i as u64);
        w.mine(2, 35 + i as u64);
        w.tick();
        w.check_all(&a, i, "around 65536 blocks");
        let want = w.node().height() + 1 - conf;
        w.kill();
        let from = w.node().log.len();
        w.start();
        let h = super::c07::first_height(&w, from);
        if h > want {
            rt::fail(format!("after a restart block {} is asked for, but only {} were final", h, want));
        }
        w.check_all(&a, i, "restart around 65536 blocks");
    }
    rt::outcome(w.ledger().digest() ^ conf as u64);
}

fn event(n: &mut Node, conf: usize, k: usize, salt: u64) -> Option<&'static str> {
    Some(match k {
        0 => "nothing",
        1 => {
            n.mine_t(1 + salt as usize % 3, salt);
            "one block"
        }
        2 => {
            for i in 0..conf as u64 + 2 {
                n.mine_t((salt + i) as usize % 4, salt + i);
            }
            "many blocks"
        }
        3 if conf > 1 => {
            n.reorg(conf - 1, 1, salt as usize % 4, salt);
            "branch switch"
        }
        4 => {
            let k = n.mempool.len();
            n.mine_pool(k);
            n.submit_t(2, salt);
            "the mempool mined, others submitted"
        }
        _ => return None,
    })
}

fn histories(confs: usize, steps: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 2);
    wide(&w);
    for i in 0..conf as u64 {
        w.mine(1 + i as usize % 3, 30 + i);
    }
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let a = wallet::addrs();
    w.check_all(&a, 0, "start-up");
    let mut text = format!("CONFIRMATIONS {}", conf);
    for s in 0..steps {
        let restart = rt::free(3, "update, restart, update killed half-way and restart");
        let k = rt::free(5, "node event");
        if restart == 0 && k == 0 {
            return;
        }
        if restart == 1 {
            w.kill();
        }
        match event(&mut w.node(), conf, k, 40 + 13 * s as u64) {
            Some(t) => text += &format!("; {}", t),
            None => return,
        }
        match restart {
            0 => {
                w.tick();
                text += ", update";
            }
            1 => {
                w.start();
                text += ", restart";
            }
            _ => {
                let at = 1 + rt::free(4, "RPC call at which it is killed");
                let left = Cell::new(at);
                let die = w.die.clone();
                w.on_call(Some(Rc::new(move |_, _| {
                    left.set(left.get() - 1);
                    if left.get() == 0 {
                        die.set(true);
                    }
                    None
                })));
                w.tick_raw();
                w.on_call(None);
                if w.alive() {
                    return;
                }
                w.start();
                text += &format!(", killed at call {} of the update, restart", at);
            }
        }
        w.check_all(&a, s + 1, &text);
    }
    rt::outcome(w.ledger().digest());
    rt::sample(4, || text);
}

/// Restarted after every single update, for long.
fn again() {
    let conf = 1 + rt::free(4, "CONFIRMATIONS - 1");
    let period = 1 + rt::free(3, "updates between restarts");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let a = wallet::addrs();
    for i in 0..9u64 {
        w.mine(i as usize % 4, 50 + i);
        w.tick();
        if i as usize % period == 0 {
            w.kill();
            w.start();
        }
        w.check_all(&a, i as usize, &format!("restart {}", i));
    }
}

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "model_checking",
        rule: "every history, to a depth, of node events each followed by an update, a stop and restart, or a kill at one of the RPC calls of the update and a restart; outputs cover values of every magnitude up to all coins there will be, indices beyond 256 and 65536, both address kinds and scripts without address; all answers are compared with a replay at every depth",
        assumptions: &["a restart keeps CONFIRMATIONS", "branch switches while down replace fewer than CONFIRMATIONS blocks"],
        spaces: |th| {
            vec![
                Space::new("histories", 0, move || histories(3, if th { 3 } else { 2 })).split(24, 4),
                Space::new("long life", 0, again).split(4, 2),
                Space::new("bursts and long branches", 0, move || {
                    let all = [Restart, Blocks(1), Blocks(17), Wide, Chain(3), Chain(5), Pool(1), Blocks(40), Mesh(7), Chain(4), Chain(8), Mined, Chain(6), Stall(3)];
                    Life::run(&confs(if th { &[1, 2, 6, 12, 40] } else { &[1, 6] }), 4, &[Mesh(6)], if th { &all } else { &all[..7] }, 2, 2)
                })
                .split(32, 3),
                Space::new("tens of thousands of outputs", 0, many_outputs).split(4, 2),
                Space::new("tens of thousands of blocks", 0, great_heights).split(4, 2),
                Space::new("outputs of great value", 0, great_values).split(8, 3),
                Space::new("outputs of every kind", 0, move || {
                    Life::run(&confs(if th { &[1, 2, 3, 4, 5, 6, 7] } else { &[1, 2, 3, 6] }), 4, &[Mesh(3)], &[Mesh(1), Restart, Mesh(3), Chain(3)], if th { 5 } else { 4 }, 1)
                })
                .split(32, 3),
            ]
        },
    }
}
