//! The longest chain is recovered from any block-file layout.
use super::c07::first_height;
use crate::btc::*;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

/// A block tree in the making: block 0 is the genesis block.
struct Tree {
    blocks: Vec<Block>,
    parent: Vec<Option<usize>>,
}

impl Tree {
    fn new(w: &W) -> Tree {
        let g = w.node().build_t(0, 1);
        w.node().add(&g);
        Tree { blocks: vec![g], parent: vec![None] }
    }
    /// Block numbers from the genesis block to `i`, if it descends from it.
    fn path(&self, i: usize) -> Option<Vec<usize>> {
        let mut v = vec![i];
        let mut k = i;
        while k != 0 {
            k = self.parent[k]?;
            v.push(k);
        }
        v.reverse();
        Some(v)
    }
    fn hashes(&self, path: &[usize]) -> Vec<H> {
        path.iter().map(|&k| self.blocks[k].hash).collect()
    }
    /// Adds a block; without parent it is an orphan.
    fn add(&mut self, w: &W, parent: Option<usize>) {
        let i = self.blocks.len();
        let b = match parent.and_then(|p| self.path(p)) {
            Some(p) => {
                let mut n = w.node();
                n.active = self.hashes(&p);
                n.build_t(i % 4, i as u64 * 3 + 1)
            }
            None => {
                let prev = parent.map_or(sha256d(b"elsewhere"), |p| self.blocks[p].hash);
                block(prev, 900 + i as u32, vec![coinbase(7000 + i as u64, wallet::reward(i))])
            }
        };
        w.node().add(&b);
        self.blocks.push(b);
        self.parent.push(parent);
    }
    fn longest(&self) -> Vec<Vec<H>> {
        let all: Vec<_> = (0..self.blocks.len()).filter_map(|i| self.path(i)).collect();
        let max = all.iter().map(|p| p.len()).max().unwrap();
        all.iter().filter(|p| p.len() == max).map(|p| self.hashes(p)).collect()
    }
    fn record(&self, i: usize) -> Vec<u8> {
        record(&self.blocks[i])
    }
}

/// Starts the program on the files and compares what it built with the longest chains.
fn judge(w: &W, longest: &[Vec<H>], on: usize, when: &str) {
    {
        let mut n = w.node();
        n.active = longest[on % longest.len()].clone();
        n.mark();
    }
    let from = w.node().log.len();
    w.launch();
    rt::quiesce();
    w.must_live(when);
    if vhyper::verif_listening(w.proc()).is_empty() {
        rt::fail(format!("{}: the process is neither serving nor gone", when));
    }
    let h = first_height(w, from);
    let want = longest[0].len() + 1 - w.cfg.conf;
    if h != want {
        rt::fail(format!("{}: the index has {} blocks, not {}", when, h, want));
    }
    let a = wallet::addrs();
    let got: Vec<_> = [Kind::Balances, Kind::UtxosMany].iter().map(|&k| (k, w.ask_ok(&request(k, &a, w.cfg.conf)))).collect();
    let mut last = String::new();
    for c in longest {
        let l = w.node().expect_for(c, &[], w.cfg.conf);
        match got.iter().try_for_each(|(k, v)| agrees(*k, &a, v, &l)) {
            Ok(()) => {
                rt::state(l.digest());
                rt::outcome(l.digest() ^ rt::hash64(when.as_bytes()));
                rt::sample(3, || when.to_string());
                return;
            }
            Err(e) => last = e,
        }
    }
    rt::fail(format!("{}: {}", when, last));
}

fn world(threads: usize, conf: usize) -> W {
    W::new(Cfg { conf, threads, batch: 3, interval: 1000 })
}

fn files(w: &W, t: &Tree, order: &[usize], per_file: usize, reverse_names: bool) {
    let chunks: Vec<&[usize]> = order.chunks(per_file.max(1)).collect();
    for (i, c) in chunks.iter().enumerate() {
        let k = if reverse_names { chunks.len() - 1 - i } else { i };
        w.block_file(&format!("blk{:05}.dat", k), &c.iter().flat_map(|&b| t.record(b)).collect::<Vec<_>>());
    }
}

/// All trees of a size, some orders and some divisions into files.
fn trees(n: usize) {
    let threads = 1 + rt::free(3, "THREADS - 1");
    let w = world(threads, 1);
    let mut t = Tree::new(&w);
    let mut text = String::from("parents");
    for i in 1..=n {
        let p = rt::free(i + 1, "parent, or none");
        t.add(&w, if p < i { Some(p) } else { None });
        text += &if p < i { format!(" {}", p) } else { " -".into() };
    }
    let mut order: Vec<usize> = (0..=n).collect();
    let o = rt::free(4, "order");
    match o {
        1 => order.reverse(),
        2 => order = (0..=n).filter(|k| k % 2 == 1).chain((0..=n).filter(|k| k % 2 == 0)).collect(),
        3 => order.rotate_left(n / 2 + 1),
        _ => {}
    }
    let per = [n + 1, n / 2 + 1, 1][rt::free(3, "blocks per file")];
    files(&w, &t, &order, per, false);
    vstd::fs::verif_dir_order(o % 3);
    let l = t.longest();
    judge(&w, &l, o, &format!("{}, order {}, {} blocks per file, {} threads", text, o, per, threads));
}

/// All orders of a chain with a stale block, and all divisions into files.
fn orders(n: usize) {
    let w = world(1 + rt::free(2, "THREADS - 1"), 1);
    let mut t = Tree::new(&w);
    for i in 1..n {
        t.add(&w, Some(i - 1));
    }
    t.add(&w, Some(n - 2));
    t.add(&w, Some(n - 1));
    let mut left: Vec<usize> = (0..t.blocks.len()).collect();
    let mut file = 0;
    let mut data = Vec::new();
    let mut text = String::new();
    while !left.is_empty() {
        let k = left.remove(rt::free(left.len(), "next block"));
        text += &format!("{} ", k);
        data.extend(t.record(k));
        if left.is_empty() || rt::free(2, "new file") == 1 {
            w.block_file(&format!("blk{:05}.dat", file), &data);
            data.clear();
            file += 1;
            text += "| ";
        }
    }
    judge(&w, &t.longest(), 0, &format!("order {}", text));
}

/// Zero padding after the records, in every file.
fn padding() {
    let w = world(1 + rt::free(2, "THREADS - 1"), 1 + rt::free(2, "CONFIRMATIONS - 1"));
    let mut t = Tree::new(&w);
    for i in 1..5 {
        t.add(&w, Some(i - 1));
    }
    let k = rt::free(96, "padding index");
    let len = match k {
        91 => 95,
        92 => 176,
        93 => 1000,
        94 => 70_000,
        95 => 0,
        k => k,
    };
    let place = rt::free(4, "padded file");
    let pad = |n: usize, v: Vec<u8>| if n == place || place == 3 { [v, vec![0; len]].concat() } else { v };
    w.block_file("blk00000.dat", &pad(0, [t.record(0), t.record(1)].concat()));
    w.block_file("blk00001.dat", &pad(1, vec![]));
    w.block_file("blk00002.dat", &pad(2, [t.record(3), t.record(2), t.record(4)].concat()));
    judge(&w, &t.longest(), 0, &format!("{} zero bytes after the records of file {}", len, place));
}

/// Blocks that are stored more than once.
fn duplicates(n: usize) {
    let w = world(1 + rt::free(2, "THREADS - 1"), 1 + rt::free(2, "CONFIRMATIONS - 1"));
    let mut t = Tree::new(&w);
    for i in 1..n {
        t.add(&w, Some(i - 1));
    }
    t.add(&w, Some(n - 3));
    let mask = rt::free(1 << (n + 1), "duplicated blocks");
    let how = rt::free(4, "at once, later in the file, in an earlier file, in a later file twice");
    let all: Vec<usize> = (0..=n).collect();
    let dup: Vec<usize> = all.iter().copied().filter(|k| mask >> k & 1 == 1).collect();
    let recs = |v: &[usize]| v.iter().flat_map(|&k| t.record(k)).collect::<Vec<u8>>();
    match how {
        0 => w.block_file("blk00000.dat", &all.iter().flat_map(|&k| if dup.contains(&k) { [t.record(k), t.record(k)].concat() } else { t.record(k) }).collect::<Vec<_>>()),
        1 => w.block_file("blk00000.dat", &[recs(&all), recs(&dup)].concat()),
        2 => {
            w.block_file("blk00000.dat", &recs(&dup));
            w.block_file("blk00001.dat", &recs(&all));
        }
        _ => {
            w.block_file("blk00000.dat", &recs(&all));
            w.block_file("blk00007.dat", &[recs(&dup), recs(&dup)].concat());
        }
    }
    judge(&w, &t.longest(), 0, &format!("duplicated blocks {:?}, placed {}", dup, how));
}

/// A long chain of which every block is stored several times or has a stale sibling.
fn many() {
    let w = world(1 + rt::free(3, "THREADS - 1"), 1 + rt::free(3, "CONFIRMATIONS - 1"));
    let kind = rt::free(4, "stored twice, stored three times, siblings, siblings with children");
    let len = [40, 70][rt::free(2, "length")];
    let mut t = Tree::new(&w);
    let mut tip = 0;
    for _ in 1..len {
        t.add(&w, Some(tip));
        let new = t.blocks.len() - 1;
        if kind >= 2 {
            t.add(&w, Some(tip));
        }
        if kind == 3 {
            let s = t.blocks.len() - 1;
            t.add(&w, Some(s));
        }
        tip = new;
    }
    t.add(&w, Some(tip));
    t.add(&w, Some(t.blocks.len() - 1));
    let mut v = Vec::new();
    for k in 0..t.blocks.len() {
        for _ in 0..match kind {
            0 => 2,
            1 => 3,
            _ => 1,
        } {
            v.extend(t.record(k));
        }
    }
    w.block_file("blk00000.dat", &v);
    judge(&w, &t.longest(), 0, &format!("{} blocks, kind {}", len, kind));
}

/// Many branches from one block, of which one gets longer.
fn siblings() {
    let w = world(1 + rt::free(2, "THREADS - 1"), 1 + rt::free(2, "CONFIRMATIONS - 1"));
    let n = [3, 4, 5, 9, 17, 33, 101, 257, 1_030][rt::free(9, "branches")];
    let place = rt::free(3, "the longer one is first, in the middle, last");
    let len = 1 + rt::free(2, "length of the others - 1");
    let base = rt::free(2, "from the genesis block, from the second one");
    let mut t = Tree::new(&w);
    if base == 1 {
        t.add(&w, Some(0));
    }
    let real = [0, n / 2, n - 1][place];
    let mut tips = vec![base; n];
    for _ in 0..len {
        for k in tips.iter_mut() {
            t.add(&w, Some(*k));
            *k = t.blocks.len() - 1;
        }
    }
    let mut tip = tips[real];
    for _ in 0..3 {
        t.add(&w, Some(tip));
        tip = t.blocks.len() - 1;
    }
    let order: Vec<usize> = (0..t.blocks.len()).collect();
    files(&w, &t, &order, [n * 10, n][rt::free(2, "one file, several")], false);
    let path = t.path(tip).unwrap();
    judge(&w, &[t.hashes(&path)], 0, &format!("{} branches of {} blocks after block {}, number {} goes on", n, len, base, real));
}

/// More than 65536 blocks.
fn very_many() {
    let w = world(2, 1 + rt::free(2, "CONFIRMATIONS - 1"));
    w.seed(5);
    w.node().mine_empty(65_600);
    w.seed(3);
    let n = w.node().active.len();
    let v: Vec<Vec<u8>> = {
        let n = w.node();
        n.active.iter().map(|h| record(&n.blocks[h])).collect()
    };
    let cut = [40_000, n - 1][rt::free(2, "blocks in the first file")];
    w.block_file("blk00000.dat", &v[..cut].concat());
    w.block_file("blk00001.dat", &v[cut..].concat());
    let chain = w.node().active.clone();
    judge(&w, &[chain], 0, &format!("{} blocks", n));
}

/// Records, files and directories as large as they get.
fn big(th: bool) {
    let kind = rt::free(if th { 6 } else { 5 }, "what is large");
    let w = world(1 + rt::free(2, "THREADS - 1"), 1 + rt::free(2, "CONFIRMATIONS - 1"));
    rt::shard_point();
    w.seed(4);
    let fat = |n: usize, bytes: usize| {
        for i in 0..n {
            let script = |k: usize| Out { value: 0, script: [&[0x6a][..], &vec![(i * 7 + k) as u8; bytes / 4]].concat() };
            let h = w.node().height();
            let mut outs = wallet::reward(h);
            outs.extend((0..4).map(script));
            w.node().mine(vec![], outs);
        }
    };
    let text = match kind {
        0 => {
            fat(2, 1_300_000);
            "records of 1.3 MB"
        }
        1 => {
            fat(6, 3_900_000);
            "a file of 23 MB"
        }
        2 => {
            fat(35, 3_900_000);
            "a file of 136 MB"
        }
        3 => {
            w.node().mine_empty(1_200);
            "1200 files"
        }
        4 => {
            fat(1, 3_999_000);
            "a record of 4 MB"
        }
        _ => {
            w.node().mine_empty(5_000);
            "5000 files"
        }
    };
    w.seed(3);
    let many = kind == 3 || kind == 5;
    let chain = {
        let n = w.node();
        let mut data = Vec::new();
        for (i, h) in n.active.iter().enumerate() {
            data.extend(record(&n.blocks[h]));
            if many {
                w.block_file(&format!("blk{:05}.dat", i), &data);
                data.clear();
            }
        }
        if !many {
            w.block_file("blk00000.dat", &data);
        }
        n.active.clone()
    };
    judge(&w, &[chain], 0, text);
}

/// Other files in the directory, and other names of block files.
fn others() {
    let w = world(1 + rt::free(2, "THREADS - 1"), 1);
    let mut t = Tree::new(&w);
    for i in 1..5 {
        t.add(&w, Some(i - 1));
    }
    let all: Vec<u8> = (0..5).flat_map(|k| t.record(k)).collect();
    let names: [&[u8]; 22] = [
        b"rev00000.dat", b"blk0000.dat", b"blk000000.dat", b"blk00001.dat.bak", b"xblk00001.dat", b"blk0000a.dat", b"blk00001xdat", b"BLK00001.DAT", b"blk.dat",
        b"blk00001", b".blk00001.dat", b"blk00001.dat\n", b"\nblk00001.dat", b"blk 0001.dat", b"blk-0001.dat", b"blk+0001.dat", "blk０００01.dat".as_bytes(), "é".as_bytes(),
        b"\xff", b"blk0000\xff.dat", b"blk00001.dat\xff", b"xor.dat",
    ];
    let kind = rt::free(5, "unrelated directory, file of garbage, file of records, block files with other names, linked block files");
    let text;
    if kind == 3 {
        let v = [["00003", "00007"], ["00100", "00099"], ["99999", "00000"], ["00010", "00009"], ["12345", "54321"], ["100000", "99999"], ["00000", "1000000"]][rt::free(7, "names")];
        let cut = t.record(0).len() + t.record(1).len() + t.record(2).len();
        w.block_file(&format!("blk{}.dat", v[0]), &all[..cut]);
        w.block_file(&format!("blk{}.dat", v[1]), &all[cut..]);
        text = format!("block files {:?}", v);
    } else if kind == 4 {
        // kept on another disk
        w.block_file("blk00000.dat", &all);
        let to = w.blocks_dir().join("blk00001.dat");
        t.add(&w, Some(4));
        std::fs::write(w.root.join("elsewhere"), t.record(5)).unwrap();
        let link = rt::free(2, "symbolic link, hard link");
        match link {
            0 => std::os::unix::fs::symlink(w.root.join("elsewhere"), &to).unwrap(),
            _ => std::fs::hard_link(w.root.join("elsewhere"), &to).unwrap(),
        }
        text = format!("a block file with a {} link", ["symbolic", "hard"][link]);
    } else {
        let name = names[rt::free(names.len(), "name")];
        w.block_file("blk00000.dat", &all);
        let p = w.blocks_dir().join(OsStr::from_bytes(name));
        match kind {
            0 => std::fs::create_dir(p).unwrap(),
            1 => std::fs::write(p, b"not a block at all, but longer than a record header, of which the first four bytes are a magic number").unwrap(),
            _ => {
                // had it been read, the chain would be longer
                let x = btc_child(&w, &t);
                std::fs::write(p, record(&x)).unwrap()
            }
        }
        text = format!("{} {:?}", ["directory", "garbage", "records"][kind], String::from_utf8_lossy(name));
    }
    judge(&w, &t.longest(), 0, &text);
}

fn btc_child(w: &W, t: &Tree) -> Block {
    let mut n = w.node();
    n.active = t.blocks.iter().map(|b| b.hash).collect();
    n.build_t(1, 99)
}

/// Files scanned at the same time.
fn interleaved() {
    let w = world(2 + rt::free(2, "THREADS - 2"), 1);
    let mut t = Tree::new(&w);
    for p in [0, 1, 1, 2, 3, 4] {
        t.add(&w, Some(p));
    }
    files(&w, &t, &[4, 1, 6, 3, 2, 0, 5], 2 + rt::free(2, "blocks per file - 2"), true);
    {
        let mut n = w.node();
        n.active = t.longest()[0].clone();
        n.mark();
    }
    rt::explore_interleavings(true);
    w.launch();
    rt::quiesce();
    rt::explore_interleavings(false);
    w.must_live("start-up");
    let a = wallet::addrs();
    let l: Vec<_> = t.longest().iter().map(|c| w.node().expect_for(c, &[], 1)).collect();
    let v = w.ask_ok(&request(Kind::UtxosMany, &a, 1));
    let r: Vec<_> = l.iter().map(|l| agrees(Kind::UtxosMany, &a, &v, l)).collect();
    if !r.iter().any(|r| r.is_ok()) {
        rt::fail(format!("scanned in parallel: {}", r[0].as_ref().unwrap_err()));
    }
    rt::outcome(l[0].digest());
}

pub fn check() -> Check {
    Check {
        id: "C13",
        level: "model_checking",
        rule: "every block tree (with orphans) of a size in several orders and divisions into files; every order and division of a forked chain; zero padding of every length up to 90 bytes and some beyond, in any file; every set of duplicated blocks; long chains stored twice or thrice or with stale siblings; records of up to 4 MB, files of up to 136 MB, thousands of files; directories and files with 22 unrelated names and three contents; gaps in the numbering; 1 to 3 scanning threads, also interleaved. Judged by the height at which the program continues and by the answers",
        assumptions: &["block files of the main network as written by a node without XOR obfuscation: whole records, then zeros", "one genesis block"],
        spaces: |th| {
            vec![
                Space::new("trees", 0, move || trees(if th { 6 } else { 4 })).split(16, 4),
                Space::new("orders", 0, move || orders(if th { 5 } else { 4 })).split(16, 3),
                Space::new("padding", 0, padding).split(8, 3),
                Space::new("duplicates", 0, || duplicates(5)).split(8, 3),
                Space::new("long chains", 0, many).split(8, 3),
                Space::new("many branches", 0, siblings).split(8, 3),
                Space::new("very long chains", 0, very_many).split(4, 2),
                Space::new("large records, files and directories", 0, move || big(th)).split(8, 2),
                Space::new("unrelated files and names", 0, others).split(4, 3),
                Space::new("scanned in parallel", 0, interleaved).delay(if th { 3 } else { 2 }).split(24, 4),
            ]
        },
    }
}
