//! Answers at every confirmation depth are exact.
use crate::life::*;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;

fn histories(confs: Vec<usize>, steps: usize) {
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 4);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    w.check_all(&a, 0, "after start-up");
    let mut text = format!("conf {}", conf);
    for s in 0..steps {
        let menu = [1, 2, 0, conf + 1];
        let n = menu[rt::free(4, "blocks to mine")];
        let mut t = 0;
        if n > 0 {
            t = rt::free(4, "template");
            for k in 0..n {
                w.mine((t + k) % 4, (s * 7 + k * 3 + t) as u64);
            }
        } else {
            w.submit(1, s as u64);
        }
        w.tick();
        w.check_all(&a, s + 1, &format!("update {}", s + 1));
        text += &format!("; mine {} from template {}", n, t);
    }
    rt::outcome(w.ledger().digest());
    rt::sample(3, || text);
}

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "model_checking",
        rule: "every history of a start-up and a few update intervals, each with 0, 1, 2 or CONFIRMATIONS+1 new blocks of four kinds, for several CONFIRMATIONS; histories of bursts of up to 130 blocks for CONFIRMATIONS up to 100; blocks and mempools of thousands of transactions, inputs and outputs; histories in which the disk stalls, goes on, the mempool changes or the indexer is restarted between the updates; after every update all four query forms are compared with a replay of the node's chain at every depth 1..CONFIRMATIONS (and 0)",
        assumptions: &["the node is healthy and its chain only grows", "values outside the alphabet of transactions are covered by C15, C16 and C21"],
        spaces: |th| {
            vec![
                Space::new("histories", 0, move || histories(if th { vec![1, 2, 3, 4, 6] } else { vec![1, 2, 3, 4] }, if th { 4 } else { 2 })).split(8, 3),
                Space::new("bursts", 0, move || {
                    let all = [Nothing, Blocks(1), Blocks(2), Final(-1), Final(0), Blocks(17), Blocks(40), Blocks(130), Wide];
                    Life::run(&confs(if th { &[1, 2, 5, 6, 7, 12, 20, 100] } else { &[1, 2, 6, 12, 20] }), 4, &[], &all, if th { 3 } else { 2 }, 1)
                })
                .split(16, 2),
                Space::new("magnitudes", 0, move || {
                    let all = [Empty(2_500), Vast(105_000), Throng(3_000)];
                    Life::run(&confs(if th { &[1, 2, 6] } else { &[2] }), 4, &[], &all, 1, if th { 2 } else { 1 })
                })
                .split(4, 2),
                Space::new("many outputs spent at once", 0, move || {
                    Life::run(&confs(if th { &[1, 2, 3, 6] } else { &[1, 3] }), 4, &[Vast(if th { 45_000 } else { 24_000 })], &[Gather(11_000), GatherPool(10_500), Mined, Final(1), Restart], if th { 4 } else { 3 }, 1)
                })
                .split(8, 2),
                Space::new("many confirmations", 0, move || Life::run(&confs(if th { &[33, 100, 300] } else { &[33, 100] }), 4, &[], &[Blocks(1), Blocks(40), Final(3), Restart], 2, 1)).split(8, 3),
                Space::new("stalls and restarts", 0, move || {
                    let all = [Nothing, Blocks(1), Blocks(2), Final(1), Stall(0), Stall(5), Release, Restart, Stall(2), Pool(1), Mined, Wide];
                    Life::run(&confs(if th { &[1, 2, 3, 4] } else { &[1, 3] }), 4, &[Blocks(1)], if th { &all } else { &all[..8] }, 2, if th { 3 } else { 2 })
                })
                .split(32, 3),
            ]
        },
    }
}
