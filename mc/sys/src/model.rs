//! The reference: unspent outputs by plain replay.
use crate::btc::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ledger {
    pub utxo: Rc<BTreeMap<(H, u32), Out>>,
}

impl Ledger {
    pub fn can(&self, t: &Tx) -> bool {
        t.d.ins.iter().all(|i| self.utxo.contains_key(&(i.txid, i.vout)))
    }
    pub fn apply(&mut self, t: &Tx) {
        if t.is_coinbase() && t.d.outs.iter().all(|o| o.script.first() == Some(&0x6a)) {
            return;
        }
        let utxo = Rc::make_mut(&mut self.utxo);
        if !t.is_coinbase() {
            for i in &t.d.ins {
                if utxo.remove(&(i.txid, i.vout)).is_none() {
                    rt::error(format!("harness: transaction {} spends a missing output", rhex(&t.id)));
                }
            }
        }
        for (n, o) in t.d.outs.iter().enumerate() {
            if o.script.first() != Some(&0x6a) {
                utxo.insert((t.id, n as u32), o.clone());
            }
        }
    }
    pub fn block(&mut self, b: &Block) {
        for t in &b.txs {
            self.apply(t);
        }
    }
    /// Mempool transactions in order, each if its inputs are unspent.
    pub fn mempool(&mut self, m: &[Tx]) {
        for t in m {
            if self.can(t) {
                self.apply(t);
            }
        }
    }
    pub fn list(&self, a: &Addr) -> Vec<(String, u32, u64)> {
        let s = a.script();
        let mut v: Vec<_> = self.utxo.iter().filter(|(_, o)| o.script == s).map(|((h, n), o)| (rhex(h), *n, o.value)).collect();
        v.sort();
        v
    }
    pub fn balance(&self, a: &Addr) -> u64 {
        let s = a.script();
        self.utxo.values().filter(|o| o.script == s).map(|o| o.value).sum()
    }
    pub fn digest(&self) -> u64 {
        let mut v = Vec::new();
        for ((h, n), o) in self.utxo.iter() {
            v.extend_from_slice(h);
            v.extend_from_slice(&n.to_le_bytes());
            v.extend_from_slice(&o.value.to_le_bytes());
        }
        rt::hash64(&v)
    }
}
