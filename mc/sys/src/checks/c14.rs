//! Start-up joins block files and node without gap or overlap.
use super::c07::first_height;
use crate::btc::record;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vhyper::Reply;

/// Chain in the files, then what the node has meanwhile. Returns a description.
fn situation(w: &W, conf: usize, over: usize, lead: usize, fork: usize, stale: bool, pool: usize) -> String {
    w.seed(conf + over);
    w.write_block_files();
    if stale {
        // the files end with a shorter branch as well
        let n = w.node();
        let at = n.active.len() - fork.max(1);
        let mut prev = if at == 0 { [0; 32] } else { n.active[at - 1] };
        let mut v: Vec<u8> = n.active.iter().flat_map(|h| record(&n.blocks[h])).collect();
        drop(n);
        for k in 0..fork.max(1) - 1 {
            let b = crate::btc::block(prev, 9000 + k as u32, vec![crate::btc::coinbase(9000 + k as u64, wallet::reward(k))]);
            prev = b.hash;
            v.extend_from_slice(&record(&b));
        }
        w.block_file("blk00000.dat", &v);
    }
    if fork > 0 {
        w.node().reorg(fork, lead, 1, 30);
    } else {
        let early = if lead > 1_000 { lead - 4 } else { 0 };
        w.node().mine_empty(early);
        for i in early..lead {
            w.mine((i + 1) % 4, 30 + i as u64);
        }
    }
    for i in 0..pool {
        w.submit(1 + i % 3, 60 + i as u64);
    }
    format!("CONFIRMATIONS {}, {} blocks in the files, node replaced {} and added {}, {} mempool programs", conf, conf + over, fork, lead, pool)
}

fn joins(confs: &[usize], overs: usize, leads: usize, moving: bool) {
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let over = rt::free(overs, "blocks in the files beyond CONFIRMATIONS");
    let lead = rt::free(leads, "blocks of the node beyond the files");
    let fork = rt::free(conf, "blocks of the files replaced at the node");
    let stale = fork > 1 && rt::free(2, "stale branch in the files") == 1;
    let pool = rt::free(2, "mempool") * 2;
    let threads = 1 + rt::free(2, "THREADS - 1");
    let w = W::new(Cfg { conf, threads, batch: [3, 1][over % 2], interval: 1000 });
    let mut text = situation(&w, conf, over, lead, fork, stale, pool);
    let a = wallet::addrs();
    let from = w.version();
    // the node moves on at one of the calls
    let event = if moving { rt::free(3, "what happens") } else { 0 };
    let at = if moving { rt::free(14, "at call") } else { 0 };
    let calls = Rc::new(Cell::new(0));
    let early: Rc<RefCell<Vec<Pending>>> = Rc::new(RefCell::new(Vec::new()));
    {
        let (w2, calls, early) = (w.clone(), calls.clone(), early.clone());
        w.on_call(Some(Rc::new(move |n, _c| {
            let k = calls.get();
            calls.set(k + 1);
            if moving && k == at {
                match event {
                    0 => {
                        n.mine_t(1, 70);
                    }
                    1 => {
                        n.mine_pool(2);
                    }
                    _ if conf - fork > 1 => n.reorg(1, 1, 2, 80),
                    _ => {
                        n.mine_t(3, 70);
                        n.mine_t(2, 71);
                    }
                }
            }
            // nobody may be served yet
            if early.borrow().len() < 40 {
                early.borrow_mut().push(w2.send(&request(Kind::Balance, &wallet::addrs()[..1], 0)));
            }
            None
        })));
    }
    w.start();
    w.on_call(None);
    if moving && calls.get() <= at {
        return;
    }
    if moving {
        text += &format!("; event {} at call {}", event, at);
    }
    for p in early.borrow().iter() {
        if let Some(Ok(r)) = p.take() {
            let ok = r.status == 200 && {
                let mut n = w.node();
                (from..n.history.len()).any(|v| {
                    let (c, m) = n.history[v].clone();
                    let l = n.expect_for(&c, &m, 0);
                    agrees(Kind::Balance, &a[..1], &r.json(), &l).is_ok()
                })
            };
            if !ok {
                rt::fail(format!("{}: a query sent before the first update was complete is answered {} {}", text, r.status, r.text()));
            }
        }
    }
    if moving {
        w.check_range(from, &a, over, &text);
    } else {
        w.check_all(&a, over, &text);
    }
    // the store written at start
    let final_now = w.node().height() + 1 - conf;
    w.kill();
    for e in std::fs::read_dir(w.blocks_dir()).unwrap().flatten() {
        std::fs::remove_file(e.path()).unwrap();
    }
    let mark = w.node().log.len();
    w.start();
    let h = first_height(&w, mark);
    if h > final_now {
        rt::fail(format!("{}: the store file holds {} blocks of which {} are final", text, h, final_now));
    }
    w.check_all(&a, over + 1, &format!("{}; restarted from the store written at start", text));
    w.mine(2, 90);
    w.tick();
    w.check_all(&a, over + 2, &format!("{}; restarted, one block more", text));
    rt::outcome(rt::hash64(format!("{} {}", text, h).as_bytes()));
    rt::sample(3, || text);
}

/// The node is far ahead of the files, the files are long, or the depth is large.
fn far(th: bool) {
    let confs: &[usize] = if th { &[1, 2, 3, 6, 7, 12, 20, 100] } else { &[1, 2, 6, 12, 100] };
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let over = [0, 1, 17, 40][rt::free(4, "blocks in the files beyond CONFIRMATIONS")];
    let lead = [0, 1, 9, 17, 40, 150, 3_000][rt::free(7, "blocks of the node beyond the files")];
    let fork = [0, 1, conf / 2, conf - 1][rt::free(4, "blocks of the files replaced at the node")];
    if fork >= conf || fork == 0 && conf < 3 && lead == 0 && over == 0 || lead == 3_000 && (over != 17 || fork > 1 || conf > if th { 20 } else { 2 }) {
        return;
    }
    let w = W::new(Cfg { conf, threads: 2, batch: 7, interval: 1000 });
    let text = situation(&w, conf, over, lead, fork, false, 2 + lead.min(150) / 2);
    let a = wallet::addrs();
    w.start();
    w.check_all(&a, over, &text);
    let final_now = w.node().height() + 1 - conf;
    w.kill();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let mark = w.node().log.len();
    w.start();
    let h = first_height(&w, mark);
    if h > final_now {
        rt::fail(format!("{}: the store file holds {} blocks of which {} are final", text, h, final_now));
    }
    w.check_all(&a, over + 1, &format!("{}; restarted from the store written at start", text));
    rt::outcome(rt::hash64(format!("{} {}", text, h).as_bytes()));
    rt::sample(3, || text);
}

/// The node is slow or silent at the start: nobody is served meanwhile.
fn silent(th: bool) {
    let conf = 1 + rt::free(3, "CONFIRMATIONS - 1");
    let lead = rt::free(3, "blocks of the node beyond the files");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    let text = situation(&w, conf, 2, lead, 0, false, if th { 3 } else { 2 });
    let at = rt::free(20, "call without an answer");
    let calls = Rc::new(Cell::new(0));
    {
        let calls = calls.clone();
        w.on_call(Some(Rc::new(move |_n, _c| {
            let k = calls.get();
            calls.set(k + 1);
            if k == at {
                return Some(Reply::Hang);
            }
            None
        })));
    }
    w.launch();
    rt::quiesce();
    if calls.get() <= at {
        return;
    }
    for depth in 0..=conf {
        let p = w.send(&request(Kind::Balances, &wallet::addrs(), depth));
        rt::quiesce();
        if let Some(Ok(r)) = p.take() {
            rt::fail(format!("{}: the node has not answered call {} of the first update, yet a query is answered: {} {}", text, at, r.status, r.text()));
        }
    }
    rt::outcome(rt::hash64(format!("{} {}", text, at).as_bytes()));
}

pub fn check() -> Check {
    Check {
        id: "C14",
        level: "model_checking",
        rule: "all combinations of CONFIRMATIONS, length of the chain in the files, lead of the node, blocks replaced at the node, mempool, threads; also with the node's chain or mempool changing at each of the RPC calls of the start; queries are attempted at every call",
        assumptions: &["at least CONFIRMATIONS blocks in the files; a healthy node", "the node's chain is at least as long as that of the files"],
        spaces: |th| {
            vec![
                Space::new("joins", 0, move || if th { joins(&[1, 2, 3, 4, 6, 8], 6, 6, false) } else { joins(&[1, 2, 3, 4, 6], 5, 5, false) }).split(16, 3),
                Space::new("the node moves during the start", 0, move || if th { joins(&[1, 2, 3, 4], 4, 4, true) } else { joins(&[1, 2, 3, 4], 3, 3, true) }).split(16, 3),
                Space::new("far ahead", 0, move || far(th)).split(16, 3),
                Space::new("the node falls silent during the start", 0, move || silent(th)).split(8, 2),
            ]
        },
    }
}
