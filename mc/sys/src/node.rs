//! A simulated Bitcoin node: a block tree, the active chain, a mempool, and the four RPC calls.
use crate::btc::*;
use crate::model::Ledger;
use crate::wallet;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use vhyper::{Call, Reply};

#[derive(Default)]
pub struct Node {
    pub blocks: HashMap<H, Block>,
    pub active: Vec<H>,
    pub mempool: Vec<Tx>,
    ledgers: HashMap<H, Rc<Ledger>>,
    /// Every version of (active chain, mempool) the node ever had, newest last.
    pub history: Vec<(Vec<H>, Vec<Tx>)>,
    pub calls: u64,
    pub log: Vec<(String, Value)>,
    pub auth: String,
    pub uri: String,
    pub chunk: usize,
    pub nonce: u32,
    cursor: usize,
    pub bad_calls: Vec<String>,
    /// Transactions that the mempool lists but that can no longer be fetched.
    pub vanished: Vec<H>,
}

impl Node {
    pub fn tip(&self) -> H {
        self.active.last().copied().unwrap_or([0; 32])
    }
    pub fn height(&self) -> usize {
        self.active.len()
    }
    /// Records the present chain and mempool as a version the node really had.
    pub fn mark(&mut self) {
        let now = (self.active.clone(), self.mempool.clone());
        let same = self.history.last().map_or(false, |(a, m)| *a == now.0 && m.len() == now.1.len() && m.iter().zip(&now.1).all(|(x, y)| x.id == y.id));
        if !same {
            self.history.push(now);
        }
    }
    /// Several changes that nobody sees one by one: only the last leaves a version.
    pub fn at_once(&mut self, f: impl FnOnce(&mut Node)) {
        let n = self.history.len();
        f(self);
        self.history.truncate(n);
        self.mark();
    }
    /// Was a transaction part of the chain of a version?
    pub fn mined(&self, version: usize, id: &H) -> bool {
        self.history[version].0.iter().rev().any(|h| self.blocks[h].txs.iter().any(|t| t.id == *id))
    }
    pub fn ledger(&mut self, hash: &H) -> Rc<Ledger> {
        if *hash == [0; 32] {
            return Rc::new(Ledger::default());
        }
        if let Some(l) = self.ledgers.get(hash) {
            return l.clone();
        }
        // walk back to a known ledger
        let mut todo = Vec::new();
        let mut h = *hash;
        let mut base = loop {
            if h == [0; 32] {
                break Rc::new(Ledger::default());
            }
            if let Some(l) = self.ledgers.get(&h) {
                break l.clone();
            }
            let b = self.blocks[&h].clone();
            h = b.prev;
            todo.push(b);
        };
        for b in todo.into_iter().rev() {
            let mut l = (*base).clone();
            l.block(&b);
            base = Rc::new(l);
            self.ledgers.insert(b.hash, base.clone());
        }
        base
    }
    pub fn add(&mut self, b: &Block) {
        self.blocks.insert(b.hash, b.clone());
    }
    /// Appends a block to the active chain.
    pub fn push(&mut self, b: Block) {
        self.append(b);
        self.trim_mempool(Vec::new());
        self.mark();
    }
    fn append(&mut self, b: Block) {
        assert_eq!(b.prev, self.tip(), "harness: block does not link");
        self.add(&b);
        self.active.push(b.hash);
    }
    /// A node drops what was mined or conflicts, after putting back what a branch switch disconnected.
    fn trim_mempool(&mut self, back: Vec<Tx>) {
        if back.is_empty() && self.mempool.is_empty() {
            return;
        }
        let mut all: Vec<Tx> = Vec::new();
        let mut known = HashSet::new();
        for t in back.into_iter().chain(std::mem::take(&mut self.mempool)) {
            if known.insert(t.id) {
                all.push(t);
            }
        }
        let valid: HashSet<H> = self.applicable(&all).iter().map(|t| t.id).collect();
        all.retain(|t| valid.contains(&t.id));
        self.mempool = all;
    }
    /// The transactions that can be applied to the chain, parents first, whatever order they are listed in.
    fn applicable(&mut self, all: &[Tx]) -> Vec<Tx> {
        let tip = self.tip();
        let mut l = (*self.ledger(&tip)).clone();
        let mut done = vec![false; all.len()];
        let mut from = 0;
        let mut out = Vec::new();
        while let Some(k) = (from..all.len()).find(|&k| !done[k] && l.can(&all[k])) {
            l.apply(&all[k]);
            out.push(all[k].clone());
            done[k] = true;
            while from < all.len() && done[from] {
                from += 1;
            }
        }
        out
    }
    /// The first listed mempool transaction that spends only confirmed outputs.
    pub fn first_confirmed(&mut self) -> Option<usize> {
        let tip = self.tip();
        let l = self.ledger(&tip);
        self.mempool.iter().position(|t| l.can(t))
    }
    fn assemble(&mut self, txs: Vec<Tx>, pay: Vec<Out>) -> Block {
        self.nonce += 1;
        let tag = ((self.height() as u64) << 32) | self.nonce as u64;
        let mut all = vec![coinbase(tag, pay)];
        all.extend(txs);
        block(self.tip(), self.nonce, all)
    }
    pub fn mine(&mut self, txs: Vec<Tx>, pay: Vec<Out>) -> Block {
        let b = self.assemble(txs, pay);
        self.push(b.clone());
        b
    }
    /// Puts as many transactions as that into the mempool at once, each spending an output of a block mined just before.
    pub fn throng(&mut self, n: usize) {
        let tip = self.tip();
        let l = self.ledger(&tip);
        let a = wallet::addrs();
        let c = wallet::coins(&l, |o| Addr::of_script(&o.script).is_some() && o.value > n as u64).pop().expect("harness: no coin");
        let split = tx(wallet::spend(&[c]), (0..n).map(|i| wallet::pay(a[i % 5], 1 + i as u64 % 1000)).collect());
        let h = self.height();
        let b = self.assemble(vec![split.clone()], wallet::reward(h));
        self.append(b);
        self.trim_mempool(Vec::new());
        for i in 0..n {
            self.mempool.push(tx(vec![In::new(split.id, i as u32)], vec![wallet::pay(a[(i + 1 + i / 5) % 5], 1 + i as u64 % 777)]));
        }
        self.mark();
    }
    /// Mines blocks that only carry data; they leave one version.
    pub fn mine_empty(&mut self, n: usize) {
        for _ in 0..n {
            let b = self.assemble(vec![], vec![wallet::op_return(0)]);
            self.append(b);
        }
        self.trim_mempool(Vec::new());
        self.mark();
    }
    /// Mines a block from a template.
    pub fn mine_t(&mut self, template: usize, salt: u64) -> Block {
        let b = self.build_t(template, salt);
        self.push(b.clone());
        b
    }
    /// Mines a block whose outputs of every kind are spent in the same block, or 1, 2, 3 or 5 blocks later, or never.
    pub fn mine_mesh(&mut self) -> Block {
        let tip = self.tip();
        let l = self.ledger(&tip);
        let h = self.height();
        let a = wallet::addrs();
        let mut ins = Vec::new();
        for (r, d) in [(1u32, 1usize), (2, 2), (3, 3), (4, 5)] {
            let Some(b) = h.checked_sub(d).map(|i| &self.blocks[&self.active[i]]) else { continue };
            let Some(t) = b.txs.get(1).filter(|t| t.d.outs.len() == 36) else { continue };
            ins.extend((0..5).map(|k| (t.id, k + 6 * r)).filter(|o| l.utxo.contains_key(o)).map(|o| In::new(o.0, o.1)));
        }
        if ins.is_empty() {
            let c = wallet::coins(&l, |o| Addr::of_script(&o.script).is_some() && o.value > 1_000_000);
            ins.extend(c.first().map(|c| In::new(c.0 .0, c.0 .1)));
        }
        let outs = (0..6)
            .flat_map(|r| {
                let v = 100 * (h as u64 + 1) + r as u64;
                vec![wallet::pay(a[r % 5], v), wallet::other(0), wallet::pay(a[(r + 1) % 5], 0), wallet::other(v), wallet::pay(a[(r + h) % 5], v), wallet::op_return(v * (r as u64 % 2))]
            })
            .collect();
        let t = tx(ins, outs);
        let t2 = tx((0..5).map(|k| In::new(t.id, k)).collect(), vec![wallet::pay(a[h % 5], 77)]);
        self.mine(vec![t, t2], wallet::reward(h))
    }
    pub fn build_t(&mut self, template: usize, salt: u64) -> Block {
        let tip = self.tip();
        let l = self.ledger(&tip);
        let h = self.height();
        self.assemble(wallet::program(template, &l, salt), wallet::reward(h))
    }
    /// Mines the first `n` transactions of the mempool.
    pub fn mine_pool(&mut self, n: usize) -> Block {
        let h = self.height();
        let pool = self.mempool.clone();
        let txs = self.applicable(&pool).into_iter().take(n).collect();
        self.mine(txs, wallet::reward(h))
    }
    /// Switches, in one step, to a branch that replaces `depth` blocks by `depth + extra` new ones.
    pub fn reorg(&mut self, depth: usize, extra: usize, template: usize, salt: u64) {
        let at = self.active.len() - depth;
        let gone = self.active.split_off(at);
        for k in 0..depth + extra {
            let b = self.build_t((template + k) % 4, salt + k as u64);
            self.append(b);
        }
        self.disconnected(gone);
    }
    /// Switches back to an abandoned branch, extended so that it is the longest.
    pub fn switch_to(&mut self, branch: &[H], template: usize, salt: u64) {
        let now = self.active.len();
        let common = branch.iter().zip(&self.active).take_while(|(a, b)| a == b).count();
        let gone = self.active.split_off(common);
        self.active.extend_from_slice(&branch[common..]);
        let mut k = 0;
        while self.active.len() <= now {
            let b = self.build_t((template + k) % 4, salt + k as u64);
            self.append(b);
            k += 1;
        }
        self.disconnected(gone);
    }
    fn disconnected(&mut self, gone: Vec<H>) {
        let back = gone.iter().flat_map(|h| self.blocks[h].txs[1..].to_vec()).collect();
        self.trim_mempool(back);
        self.mark();
    }
    /// Puts the transactions of a template into the mempool (those valid after what is in it).
    pub fn submit_t(&mut self, template: usize, salt: u64) -> Vec<Tx> {
        let l = self.expect(0);
        let v = wallet::program(template, &l, salt);
        self.mempool.extend(v.iter().cloned());
        self.mark();
        v
    }
    /// Removes a mempool transaction and what depends on it.
    pub fn evict(&mut self, k: usize) {
        if k < self.mempool.len() {
            self.mempool.remove(k);
            self.trim_mempool(Vec::new());
            self.mark();
        }
    }
    /// Replaces a mempool transaction by one that spends the same first output elsewhere.
    pub fn replace(&mut self, k: usize, salt: u64) {
        if k >= self.mempool.len() {
            return;
        }
        let old = self.mempool.remove(k);
        self.trim_mempool(Vec::new());
        let i = &old.d.ins[0];
        let l = self.expect(0);
        if let Some(o) = l.utxo.get(&(i.txid, i.vout)) {
            let a = wallet::addrs();
            let t = tx(vec![In::new(i.txid, i.vout)], vec![wallet::pay(a[(salt as usize + 1) % 5], o.value.saturating_sub(1)), wallet::op_return(0)]);
            self.mempool.push(t);
        }
        self.mark();
    }
    /// What the index must say at a depth (0: with mempool).
    pub fn expect(&mut self, depth: usize) -> Ledger {
        let chain = self.active.clone();
        let mempool = self.mempool.clone();
        self.expect_for(&chain, &mempool, depth)
    }
    pub fn expect_for(&mut self, chain: &[H], mempool: &[Tx], depth: usize) -> Ledger {
        if depth == 0 {
            let tip = chain.last().copied().unwrap_or([0; 32]);
            let mut l = (*self.ledger(&tip)).clone();
            l.mempool(mempool);
            l
        } else {
            let n = (chain.len() + 1).saturating_sub(depth);
            let h = if n == 0 { [0; 32] } else { chain[n - 1] };
            (*self.ledger(&h)).clone()
        }
    }

    // -------------------------------------------------------- RPC

    pub fn ok(&self, v: Value) -> Reply {
        self.http(200, json!({"result": v, "error": null, "id": "indexer"}))
    }
    pub fn rpc_error(&self, code: i64, message: &str) -> Reply {
        self.http(500, json!({"result": null, "error": {"code": code, "message": message}, "id": "indexer"}))
    }
    pub fn http(&self, status: u16, v: Value) -> Reply {
        self.raw(status, format!("{}\n", v).into_bytes())
    }
    pub fn raw(&self, status: u16, body: Vec<u8>) -> Reply {
        let chunks = if self.chunk == 0 { vec![body] } else { body.chunks(self.chunk).map(|c| c.to_vec()).collect() };
        Reply::Http { status, chunks, broken: false }
    }

    /// The answer of a healthy node.
    pub fn answer(&mut self, call: &Call) -> Reply {
        self.calls += 1;
        let auth = call.headers.iter().find(|(k, _)| k == "authorization").map(|(_, v)| v.clone()).unwrap_or_default();
        if auth != self.auth {
            self.bad_calls.push(format!("authorization {:?}", auth));
            return Reply::Http { status: 401, chunks: vec![], broken: false };
        }
        if call.method != "POST" || call.uri.trim_end_matches('/') != self.uri {
            self.bad_calls.push(format!("{} {}", call.method, call.uri));
            return Reply::Http { status: 405, chunks: vec![b"JSONRPC server handles only POST requests".to_vec()], broken: false };
        }
        let req: Value = match serde_json::from_slice(&call.body) {
            Ok(v) => v,
            Err(_) => {
                self.bad_calls.push("unparsable request".into());
                return self.rpc_error(-32700, "Parse error");
            }
        };
        let method = req["method"].as_str().unwrap_or("").to_string();
        let params = req["params"].clone();
        self.log.push((method.clone(), params.clone()));
        rt::note(|| format!("node: {} {}", method, params));
        match method.as_str() {
            "getrawmempool" => {
                if params[0].as_bool().unwrap_or(false) {
                    let m: serde_json::Map<String, Value> = self.mempool.iter().map(|t| (rhex(&t.id), json!({"vsize": t.raw.len()}))).collect();
                    return self.ok(Value::Object(m));
                }
                self.ok(json!(self.mempool.iter().map(|t| rhex(&t.id)).collect::<Vec<_>>()))
            }
            "getrawtransaction" => {
                let id = params[0].as_str().and_then(unrhex);
                // most callers go through the list
                let k = self.cursor.min(self.mempool.len());
                let (head, tail) = self.mempool.split_at(k);
                let at = tail.iter().position(|t| Some(t.id) == id).map(|p| p + k).or_else(|| head.iter().position(|t| Some(t.id) == id));
                self.cursor = at.unwrap_or(0);
                match at.map(|k| &self.mempool[k]).filter(|t| !self.vanished.contains(&t.id)) {
                    Some(t) if !params[1].as_bool().unwrap_or(false) => self.ok(json!(hex(&t.raw))),
                    _ => self.rpc_error(-5, "No such mempool transaction. Use -txindex or provide a block hash to enable blockchain transaction queries. Use gettransaction for wallet transactions."),
                }
            }
            "getblockhash" => match params[0].as_u64() {
                Some(h) if (h as usize) < self.active.len() => self.ok(json!(rhex(&self.active[h as usize]))),
                Some(_) => self.rpc_error(-8, "Block height out of range"),
                None => self.rpc_error(-1, "JSON value is not an integer as expected"),
            },
            "getblock" => {
                let h = params[0].as_str().and_then(unrhex);
                match h.and_then(|h| self.blocks.get(&h)) {
                    Some(b) if params[1].as_u64() == Some(0) => self.ok(json!(hex(&b.raw))),
                    Some(_) => self.ok(json!({"hash": params[0]})),
                    None => self.rpc_error(-5, "Block not found"),
                }
            }
            "getblockcount" => self.ok(json!(self.active.len() - 1)),
            "getbestblockhash" => self.ok(json!(rhex(&self.tip()))),
            _ => {
                self.bad_calls.push(format!("unknown method {}", method));
                self.http(404, json!({"result": null, "error": {"code": -32601, "message": "Method not found"}, "id": "indexer"}))
            }
        }
    }
}
