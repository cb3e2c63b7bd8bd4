//! Parallel construction equals sequential construction.
use super::c07::first_height;
use super::c09::wide;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;

/// The program goes on where the block files ended.
fn all_of_it(w: &W, when: &str) {
    let (h, want) = (first_height(w, 0), w.node().active.len() + 1 - w.cfg.conf);
    if h != want {
        rt::fail(format!("{}: the index has {} blocks, not {}", when, h, want));
    }
}

/// Batches of many blocks.
fn large_batches(lens: &[usize]) {
    let len = lens[rt::free(lens.len(), "chain length index")];
    let batch = [50, 64, 100, 101, 128, 250, 256, 1000][rt::free(8, "BATCH_SIZE index")];
    let threads = [2, 3, 8][rt::free(3, "THREADS index")];
    let w = W::new(Cfg { conf: 1, threads, batch, interval: 1000 });
    w.seed(6);
    // in every part of the chain, outputs of all parts before it are spent
    while w.node().active.len() < len {
        let n = w.node().active.len();
        if n % 37 < 3 {
            w.node().mine_mesh();
        } else {
            w.node().mine_empty((37 - n % 37).min(len - n));
        }
    }
    w.write_block_files();
    w.start();
    let text = format!("{} blocks, THREADS {}, BATCH_SIZE {}", len, threads, batch);
    all_of_it(&w, &text);
    let a = wallet::addrs();
    w.check_all(&a, batch, &text);
    for _ in 0..2 {
        w.node().mine_mesh();
        w.tick();
        w.check_all(&a, batch, &text);
    }
    rt::outcome(w.ledger().digest() ^ (threads * 1000 + batch) as u64);
    rt::sample(3, || text);
}

/// All configurations, one schedule.
fn configurations(lens: &[usize]) {
    let len = lens[rt::free(lens.len(), "chain length index")];
    let threads = 1 + rt::free(4, "THREADS - 1");
    let batch = [1, 2, 3, 4, 5, 7, 10, 100][rt::free(8, "BATCH_SIZE index")];
    let first = rt::free(4, "first template");
    let w = W::new(Cfg { conf: 1, threads, batch, interval: 1000 });
    for i in 0..len {
        w.mine((i + first) % 4, (i * 3 + first) as u64);
        if i == 3 && first == 0 {
            wide(&w);
        }
    }
    w.write_block_files();
    w.start();
    all_of_it(&w, &format!("{} blocks, THREADS {}, BATCH_SIZE {}", w.node().height(), threads, batch));
    let a = wallet::addrs();
    w.check_all(&a, batch, &format!("{} blocks, THREADS {}, BATCH_SIZE {}", w.node().height(), threads, batch));
    w.kill();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    w.start();
    w.check_all(&a, threads, &format!("restart after {} blocks, THREADS {}, BATCH_SIZE {}", w.node().height(), threads, batch));
    rt::outcome(w.ledger().digest() ^ (threads * 1000 + batch) as u64);
    rt::sample(3, || format!("{} blocks, THREADS {}, BATCH_SIZE {}", len, threads, batch));
}

/// Outputs of every kind, spent at various distances; block files in which blocks lie in reverse order.
fn meshed(lens: &[usize]) {
    let len = lens[rt::free(lens.len(), "chain length index")];
    let threads = [1, 2, 3, 4, 8, 16][rt::free(6, "THREADS index")];
    let batch = [1, 2, 3, 4, 5, 7, 10, 16, 100][rt::free(9, "BATCH_SIZE index")];
    let files = rt::free(3, "one file, one in reverse, one per block");
    let w = W::new(Cfg { conf: 1, threads, batch, interval: 1000 });
    w.mine(0, 0);
    for _ in 1..len {
        w.node().mine_mesh();
    }
    let recs: Vec<Vec<u8>> = {
        let n = w.node();
        n.active.iter().map(|h| crate::btc::record(&n.blocks[h])).collect()
    };
    match files {
        0 => w.write_block_files(),
        1 => w.block_file("blk00000.dat", &recs.iter().rev().flatten().copied().collect::<Vec<u8>>()),
        _ => recs.iter().enumerate().for_each(|(i, r)| w.block_file(&format!("blk{:05}.dat", i), r)),
    }
    w.start();
    let a = wallet::addrs();
    let text = format!("{} meshed blocks, THREADS {}, BATCH_SIZE {}", len, threads, batch);
    all_of_it(&w, &text);
    w.check_all(&a, batch, &text);
    // later blocks spend outputs of the initial index
    for _ in 0..2 {
        w.node().mine_mesh();
        w.tick();
        w.check_all(&a, batch, &text);
    }
    rt::outcome(w.ledger().digest() ^ (threads * 1000 + batch) as u64);
    rt::sample(3, || text);
}

fn interleavings(threads: &[usize], batches: &[usize], len: usize, mesh: bool) {
    let threads = threads[rt::free(threads.len(), "THREADS index")];
    let batch = batches[rt::free(batches.len(), "BATCH_SIZE index")];
    let w = W::new(Cfg { conf: 1, threads, batch, interval: 1000 });
    for i in 0..len {
        if mesh && i > 0 {
            w.node().mine_mesh();
        } else {
            w.mine([0, 2, 1, 3][i % 4], (i * 3) as u64);
        }
    }
    // in two files, so that two threads scan
    {
        let n = w.node();
        let recs: Vec<Vec<u8>> = n.active.iter().map(|h| crate::btc::record(&n.blocks[h])).collect();
        drop(n);
        w.block_file("blk00000.dat", &recs[..len / 2].concat());
        w.block_file("blk00001.dat", &recs[len / 2..].concat());
    }
    rt::explore_interleavings(true);
    w.launch();
    rt::quiesce();
    rt::explore_interleavings(false);
    w.must_live("start-up");
    let a = wallet::addrs();
    let l = w.node().expect(1);
    w.check_depth(1, &a, &l, batch, &format!("{} blocks, THREADS {}, BATCH_SIZE {}", len, threads, batch));
    if mesh {
        // what was lost in the index without showing is spent now
        w.node().mine_mesh();
        w.tick();
        w.check_all(&a, threads, "a block later");
    }
    rt::outcome(l.digest() ^ (threads * 1000 + batch) as u64);
    rt::sample(3, || format!("{} blocks, THREADS {}, BATCH_SIZE {}, interleaved", len, threads, batch));
}

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "model_checking",
        rule: "chains with spends inside a batch, across adjacent and across distant batches, for all THREADS and BATCH_SIZE of a range; for the smaller ones all interleavings of the scanning, building and merging threads within a bound on delays; batches of thousands of blocks; the answers are compared with a replay, and the height at which the program continues with that of the files",
        assumptions: &["sequentially consistent memory; scheduling points are lock, channel, thread and disk operations"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("configurations", 0, move || configurations(if th { &[1, 2, 3, 5, 8, 9, 14, 21] } else { &[1, 2, 5, 8, 9] })).split(16, 3),
                Space::new("outputs of every kind", 0, move || meshed(if th { &[1, 2, 3, 6, 10, 17, 40] } else { &[2, 6, 17] })).split(16, 3),
                Space::new("large batches", 0, move || large_batches(if th { &[120, 257, 300, 1001, 2100] } else { &[130, 257, 300] })).split(16, 3),
                Space::new("outputs of every kind, interleaved", 0, || interleavings(&[2, 3], &[1, 2], 6, true)).delay(if th { 2 } else { 1 }).split(24, 5),
                Space::new("interleavings, 2 threads", 0, || interleavings(&[2], &[1, 2, 3], 5, false)).delay(d).split(24, 5),
                Space::new("interleavings, 3 threads", 0, || interleavings(&[3], &[1, 2], 5, false)).delay(d).split(24, 5),
                Space::new("suspended threads", 0, || interleavings(&[2, 3], &[1, 2], 5, false)).naps(if th { 3 } else { 2 }, if th { 1 } else { 0 }).split(24, 5),
                Space::new("interleavings, 4 threads", 0, || interleavings(&[4], &[2], 7, false)).delay(2).split(24, 5),
            ]
        },
    }
}
