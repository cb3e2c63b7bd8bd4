//! Histories of one indexer: the node's chain and mempool change, the disk stalls, the process is restarted.
use crate::btc::*;
use crate::checks::c02::chain_event;
use crate::checks::c03::pool_event;
use crate::checks::c06::stall_at;
use crate::checks::c07::first_height;
use crate::checks::c09::{vast, wide};
use crate::wallet;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Nothing,
    /// Node events of C02: blocks and branch switches.
    Chain(usize),
    /// Mempool events of C03.
    Pool(usize),
    Blocks(usize),
    /// CONFIRMATIONS + this many blocks
    Final(i32),
    /// A transaction with 300 outputs and one that spends some of them.
    Wide,
    /// Blocks whose outputs of every kind are spent at various distances.
    Mesh(usize),
    /// This many transactions at once in the mempool.
    Crowd(usize),
    /// Independent transactions that fill the mempool.
    Throng(usize),
    /// Blocks without payments.
    Empty(usize),
    /// A transaction with that many outputs for one address.
    Vast(usize),
    /// That many outputs of one address are spent at once, in a block or in the mempool.
    Gather(usize),
    GatherPool(usize),
    /// From now on the n-th disk operation blocks.
    Stall(usize),
    Release,
    Restart,
    /// The first mempool transaction cannot be fetched during the next update.
    Lapse,
    /// The mempool is mined together with a block.
    Mined,
}
pub use Ev::*;

pub struct Life {
    pub w: W,
    pub addrs: Vec<Addr>,
    pub text: String,
    tips: Vec<Vec<H>>,
    salt: u64,
    turn: usize,
    hit: Option<Rc<RefCell<Option<String>>>>,
    lapsed: Vec<H>,
    /// Ask of a restart that it continues after the last block that has to be in the store.
    pub resume: bool,
    stored: usize,
    polled: usize,
}

impl Life {
    pub fn new(cfg: Cfg, blocks: usize) -> Life {
        let conf = cfg.conf;
        let w = W::new(cfg);
        w.seed(conf + blocks);
        w.write_block_files();
        w.start();
        let _ = std::fs::remove_file(w.blocks_dir().join("blk00000.dat"));
        let l = Life { w, addrs: wallet::addrs(), text: format!("CONFIRMATIONS {}", conf), tips: vec![], salt: 40, turn: 0, hit: None, lapsed: vec![], resume: false, stored: 0, polled: 0 };
        let mut l = l;
        l.polled = l.w.node().height();
        l.w.check_all(&l.addrs, 0, "after start-up");
        l
    }
    /// Makes something happen; false if it cannot happen here.
    pub fn event(&mut self, e: Ev) -> bool {
        self.salt += 11;
        let salt = self.salt;
        let conf = self.w.cfg.conf;
        let t = match e {
            Nothing => String::new(),
            Chain(k) => match chain_event(&mut self.w.node(), conf, k, salt, &mut self.tips) {
                Some(t) => t,
                None => return false,
            },
            Pool(k) => match pool_event(&mut self.w.node(), k, salt) {
                Some(t) => t,
                None => return false,
            },
            Blocks(n) => {
                for i in 0..n {
                    self.w.mine((salt as usize + i) % 4, salt + i as u64);
                }
                format!("{} blocks", n)
            }
            Final(n) => {
                let n = (conf as i32 + n) as usize;
                for i in 0..n {
                    self.w.mine((salt as usize + i) % 4, salt + i as u64);
                }
                format!("{} blocks", n)
            }
            Wide => {
                wide(&self.w);
                "a transaction with 300 outputs".into()
            }
            Mesh(n) => {
                for _ in 0..n {
                    self.w.node().mine_mesh();
                }
                format!("{} meshed blocks", n)
            }
            Crowd(n) => {
                let mut got = 0;
                for i in 0..n {
                    got += self.w.submit(1 + i % 2, salt + i as u64).len();
                }
                format!("{} transactions in the mempool", got)
            }
            Throng(n) => {
                self.w.node().throng(n);
                format!("{} transactions in the mempool", n)
            }
            Empty(n) => {
                self.w.mine(1, salt);
                self.w.node().mine_empty(n / 2);
                self.w.mine(2, salt + 1);
                self.w.node().mine_empty(n - n / 2);
                for i in 0..self.w.cfg.conf + 1 {
                    self.w.mine(1 + i % 3, salt + 2 + i as u64);
                }
                format!("{} blocks, most without payments", n + 3 + self.w.cfg.conf)
            }
            Vast(n) => {
                vast(&self.w, n);
                format!("an address with {} outputs", n)
            }
            Gather(n) | GatherPool(n) => {
                // what waits in the mempool must stay spendable
                if !self.w.node().mempool.is_empty() {
                    return false;
                }
                let a = self.addrs.clone();
                let mut c: Vec<_> = wallet::coins(&self.w.node().expect(0), |o| Addr::of_script(&o.script) == Some(a[2])).into_iter().collect();
                c.truncate(n);
                if c.len() < n {
                    return false;
                }
                let outs = (0..3).map(|i| wallet::pay(a[i], salt + i as u64)).collect();
                let t = tx(wallet::spend(&c), outs);
                if let Gather(_) = e {
                    let h = self.w.node().height();
                    self.w.node().mine(vec![t], wallet::reward(h));
                    format!("{} outputs spent in a block", n)
                } else {
                    self.w.node().mempool.push(t);
                    self.w.node().mark();
                    format!("{} outputs spent in the mempool", n)
                }
            }
            Stall(at) => {
                if self.hit.is_some() {
                    return false;
                }
                self.hit = Some(stall_at(at));
                format!("the disk stalls at operation {}", at)
            }
            Release => {
                if self.hit.take().is_none() {
                    return false;
                }
                vstd::fs::verif_hook(None);
                rt::release_stalls();
                rt::quiesce();
                self.w.must_live("the end of a stall");
                "the disk goes on".into()
            }
            Restart => {
                self.w.kill();
                if self.hit.take().is_some() {
                    vstd::fs::verif_hook(None);
                    rt::release_stalls();
                }
                self.text += ", restart";
                let from = self.w.version();
                let mark = self.w.node().log.len();
                self.w.start();
                if self.resume {
                    let h = first_height(&self.w, mark);
                    if h < self.stored {
                        rt::fail(format!("{}: the store file holds {} blocks of {} that have become final", self.text, h, self.stored));
                    }
                }
                // what arrived while it was down is not yet stored
                self.polled = self.w.node().height();
                self.compare(from);
                return true;
            }
            Lapse => {
                let Some(t) = self.w.node().mempool.first().map(|t| t.id) else { return false };
                if self.lapsed.contains(&t) {
                    return false;
                }
                self.lapsed.push(t);
                self.w.node().vanished.push(t);
                "the first cannot be fetched once".into()
            }
            Mined => {
                let mut n = self.w.node();
                let k = n.mempool.len();
                if k == 0 {
                    return false;
                }
                n.mine_pool(k);
                "the mempool is mined".into()
            }
        };
        if !t.is_empty() {
            self.text += &format!(", {}", t);
        }
        true
    }
    /// One update, then all answers.
    pub fn poll(&mut self) {
        self.turn += 1;
        self.text += "; update";
        let from = self.w.version();
        self.w.tick();
        self.compare(from);
        // a write was possible if none was in progress when the update began
        let height = self.w.node().height();
        let writing = self.hit.as_ref().map_or(false, |h| h.borrow().is_some());
        if height > self.polled && !writing {
            self.stored = height + 1 - self.w.cfg.conf;
        }
        self.polled = height;
        let l = std::mem::take(&mut self.lapsed);
        self.w.node().vanished.retain(|t| !l.contains(t));
    }
    fn compare(&self, from: usize) {
        if self.lapsed.is_empty() && self.w.node().vanished.is_empty() {
            self.w.check_all(&self.addrs, self.turn, &self.text);
        } else {
            self.w.check_range(from, &self.addrs, self.turn, &self.text);
        }
    }
    /// All histories of `steps` updates, each after up to `events` events from a menu.
    pub fn run(cfgs: &[Cfg], blocks: usize, before: &[Ev], menu: &[Ev], steps: usize, events: usize) {
        Life::run_with(cfgs, blocks, before, menu, steps, events, |_| ())
    }
    pub fn run_with(cfgs: &[Cfg], blocks: usize, before: &[Ev], menu: &[Ev], steps: usize, events: usize, setup: fn(&mut Life)) {
        let cfg = cfgs[rt::free(cfgs.len(), "configuration")].clone();
        let mut l = Life::new(cfg, blocks);
        setup(&mut l);
        if !before.is_empty() {
            for e in before {
                if !l.event(*e) {
                    return;
                }
            }
            l.poll();
        }
        for _ in 0..steps {
            for e in 0..events {
                let k = rt::free(menu.len() + (e > 0) as usize, "event");
                if k == menu.len() {
                    break;
                }
                if !l.event(menu[k]) {
                    return;
                }
            }
            l.poll();
        }
        if l.resume && l.hit.is_none() && !l.event(Restart) {
            return;
        }
        rt::outcome(l.w.node().expect(0).digest());
        rt::sample(3, || l.text.clone());
    }
}

pub fn confs(l: &[usize]) -> Vec<Cfg> {
    l.iter().map(|&conf| Cfg { conf, ..Cfg::default() }).collect()
}
