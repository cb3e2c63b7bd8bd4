//! The ledger matches Bitcoin's UTXO rules for every transaction program.
use crate::btc::*;
use crate::model::Ledger;
use crate::runner::{Check, Space};
use crate::wallet::{self, coins, op_return, other, pay, spend};
use crate::world::*;

/// Addresses: one hash as both kinds, one that shares bytes 4..12 with it, one that shares all but the last
/// byte, and an unrelated one.
fn set() -> Vec<Addr> {
    let base = match wallet::addrs()[0] {
        Addr::Pkh(h) => h,
        Addr::Sh(h) => h,
    };
    let mut near = base;
    near[0] ^= 0x80;
    let mut last = base;
    last[19] ^= 1;
    vec![Addr::Pkh(base), Addr::Sh(base), Addr::Pkh(near), Addr::Sh(last), Addr::Pkh([0xfe; 20])]
}

pub const SHAPES: usize = 14;

/// A transaction by shape, on top of a ledger; `prev` is the transaction before it. `n` makes it unique.
fn shape(k: usize, l: &Ledger, prev: Option<&Tx>, n: u64) -> Option<Tx> {
    let a = set();
    let std = coins(l, |o| Addr::of_script(&o.script).is_some());
    let rich = coins(l, |o| Addr::of_script(&o.script).is_some() && o.value > 1000);
    let odd = coins(l, |o| Addr::of_script(&o.script).is_none());
    let of = |x: &Addr| coins(l, |o| o.script == x.script());
    let from_prev = |f: &dyn Fn(usize, &Out) -> bool| -> Vec<In> {
        let Some(p) = prev else { return vec![] };
        p.d.outs.iter().enumerate().filter(|(i, o)| l.utxo.contains_key(&(p.id, *i as u32)) && f(*i, o)).map(|(i, _)| In::new(p.id, i as u32)).collect()
    };
    let (ins, outs) = match k {
        // one to one
        0 => (spend(rich.get(..1)?), vec![pay(a[0], 1000 + n)]),
        // several outputs to the same address, between others
        1 => (spend(rich.get(..1)?), vec![pay(a[1], 2000 + n), pay(a[0], 3000 + n), pay(a[0], 3000 + n), op_return(0), pay(a[0], 4000 + n)]),
        // zero values
        2 => (spend(rich.get(..1)?), vec![pay(a[0], 0), pay(a[2], 0), pay(a[2], n)]),
        // spends output 0 of the transaction before
        3 => (from_prev(&|i, _| i == 0), vec![pay(a[1], 500 + n)]),
        // spends the last output of the transaction before, and an older coin
        4 => {
            let p = prev?;
            let mut v = from_prev(&|i, _| i + 1 == p.d.outs.len());
            if v.is_empty() {
                return None;
            }
            v.extend(rich.iter().rev().filter(|c| c.0 .0 != p.id).take(1).map(|c| In::new(c.0 .0, c.0 .1)));
            (v, vec![pay(a[2], 600 + n), other(n)])
        }
        // sweeps the twin addresses
        5 => {
            let mut v = of(&a[0]);
            v.extend(of(&a[1]));
            (spend(&v), vec![op_return(3), pay(a[3], 700 + n)])
        }
        // everything to a data carrier
        6 => (spend(rich.get(..1)?), vec![op_return(100 + n)]),
        // only outputs without address
        7 => (spend(rich.get(..1)?), vec![other(50 + n), Out { value: 9, script: vec![] }, Out { value: n, script: vec![0x51] }]),
        // spends outputs without address
        8 => (spend(&odd), vec![pay(a[1], 800 + n)]),
        // spends in reverse order everything there is of one address, and pays it back in one output
        9 => {
            let mut v = of(&a[2]);
            v.reverse();
            (spend(&v), vec![pay(a[2], 900 + n)])
        }
        // the middle output of the transaction before
        10 => {
            let v = from_prev(&|i, _| i == 1 || i == 2);
            (v, vec![pay(a[3], 1 + n), pay(a[0], 2 + n)])
        }
        // all of the transaction before, and data carriers around
        11 => (from_prev(&|_, _| true), vec![op_return(1), pay(a[3], 1100 + n), op_return(2)]),
        // zero-value coins
        12 => (spend(&std.iter().filter(|c| c.1.value == 0).cloned().collect::<Vec<_>>()), vec![pay(a[1], 0)]),
        // more outputs than a byte can count
        _ => (spend(rich.get(..1)?), (0..300).map(|i| if i == 256 { op_return(0) } else { pay(a[i % 3], 1 + i as u64 + n) }).collect()),
    };
    if ins.is_empty() {
        return None;
    }
    Some(tx(ins, outs))
}

/// Programs of `len` transactions; each is in the block of the one before or in the next; the first `k` blocks
/// are in the files, the others arrive one by one, or the last group stays in the mempool.
fn programs(len: usize, shapes: &[usize], conf: usize, wide_cut: bool) {
    let w = W::new(Cfg { conf, threads: 1 + conf % 2, batch: 2, interval: 1000 });
    let a = set();
    let cash = |i: u64| vec![pay(a[(i % 5) as usize], 100_000 + i), pay(a[((i + 1) % 5) as usize], 200_000 + i)];
    for i in 0..conf as u64 + 1 {
        w.node().mine(vec![], cash(i));
    }
    let mut l = (*w.ledger()).clone();
    let mut groups: Vec<Vec<Tx>> = vec![vec![]];
    let mut prev: Option<Tx> = None;
    let mut text = String::new();
    for i in 0..len {
        if i > 0 && rt::free(2, "in the next block") == 1 {
            groups.push(vec![]);
            text += " |";
        }
        let k = shapes[rt::free(shapes.len(), "transaction")];
        let Some(t) = shape(k, &l, prev.as_ref(), i as u64) else { return };
        l.apply(&t);
        groups.last_mut().unwrap().push(t.clone());
        prev = Some(t);
        text += &format!(" {}", k);
    }
    let cuts = groups.len() + 1;
    let files = rt::free(cuts, "blocks of the program in the files");
    let pool = files < groups.len() && rt::free(2, "last group stays in the mempool") == 1;
    text = format!("program{}, CONFIRMATIONS {}, {} blocks of it in the files{}", text, conf, files, if pool { ", last group in the mempool" } else { "" });
    let mut it = groups.into_iter();
    for g in it.by_ref().take(files) {
        w.node().mine(g, vec![]);
    }
    w.write_block_files();
    w.start();
    w.check_all(&a, 0, &format!("{}: start-up", text));
    let rest: Vec<_> = it.collect();
    let n = rest.len();
    for (i, g) in rest.into_iter().enumerate() {
        if pool && i + 1 == n {
            w.node().mempool = g;
            w.node().mark();
            w.tick();
            w.check_all(&a, i, &format!("{}: in the mempool", text));
            w.node().mine_pool(100);
        } else {
            w.node().mine(g, vec![]);
            if wide_cut && i + 1 < n {
                continue;
            }
        }
        w.tick();
        w.check_all(&a, i, &format!("{}: block {} of the rest", text, i));
    }
    // all of it becomes final
    for i in 0..conf {
        w.node().mine(vec![], cash(10 + i as u64));
    }
    w.tick();
    w.check_all(&a, 1, &format!("{}: buried", text));
    rt::outcome(w.ledger().digest());
    rt::sample(4, || text);
}

/// The same programs, disconnected again by a switch to another branch that has part of them.
fn undone(shapes: &[usize], len: usize) {
    let conf = 3;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    let a = set();
    for i in 0..6u64 {
        w.node().mine(vec![], vec![pay(a[(i % 5) as usize], 100_000 + i), pay(a[((i + 1) % 5) as usize], 200_000 + i)]);
    }
    w.write_block_files();
    w.start();
    let mut l = (*w.ledger()).clone();
    let mut prev: Option<Tx> = None;
    let mut txs = Vec::new();
    let mut text = String::new();
    for i in 0..len {
        let k = shapes[rt::free(shapes.len(), "transaction")];
        let Some(t) = shape(k, &l, prev.as_ref(), i as u64) else { return };
        l.apply(&t);
        prev = Some(t.clone());
        txs.push(t);
        text += &format!(" {}", k);
    }
    let keep = rt::free(len + 1, "transactions the other branch keeps");
    let split = rt::free(2, "two blocks") == 1;
    let text = format!("program{} in {} block(s), then a branch with its first {}", text, 1 + split as usize, keep);
    let n = txs.len();
    let back;
    if split && n > 1 {
        w.node().mine(txs[..n / 2].to_vec(), vec![]);
        w.node().mine(txs[n / 2..].to_vec(), vec![]);
        back = 2;
    } else {
        w.node().mine(txs.clone(), vec![]);
        back = 1;
    }
    w.tick();
    w.check_all(&a, 0, &format!("{}: mined", text));
    {
        let mut n = w.node();
        let at = n.active.len() - back;
        n.active.truncate(at);
        n.mempool.clear();
        n.mine(txs[..keep].to_vec(), vec![]);
        for _ in 0..back {
            n.mine(vec![], vec![pay(a[4], 77)]);
        }
        n.mempool = txs[keep..].to_vec();
        n.history.clear();
        n.mark();
    }
    w.tick();
    w.check_all(&a, 1, &format!("{}: switched, the others in the mempool", text));
    w.node().mine_pool(100);
    w.tick();
    w.check_all(&a, 2, &format!("{}: mined again", text));
    for _ in 0..3 {
        w.node().mine(vec![], vec![pay(a[3], 78)]);
        w.tick();
    }
    w.check_all(&a, 3, &format!("{}: buried", text));
    rt::outcome(w.ledger().digest() ^ keep as u64);
    rt::sample(4, || text);
}

pub fn check() -> Check {
    Check {
        id: "C15",
        level: "model_checking",
        rule: "all programs of transactions of 14 shapes to a length, with every cut into blocks and every placement in files, tail and mempool, and undone by a branch switch; at every depth the listing is compared with a replay",
        assumptions: &["consensus-valid transactions; transaction ids are unique (BIP 30)"],
        spaces: |th| {
            const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
            const SMALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
            const CORE: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 10, 11];
            let mut v = vec![
                Space::new("two transactions, CONFIRMATIONS 1", 0, || programs(2, ALL, 1, false)).split(16, 3),
                Space::new("three transactions, CONFIRMATIONS 2", 0, || programs(3, ALL, 2, false)).split(32, 4),
                Space::new("three transactions, several blocks per update", 0, || programs(3, CORE, 3, true)).split(32, 4),
                Space::new("undone, three transactions", 0, || undone(SMALL, 3)).split(32, 3),
            ];
            if th {
                v.push(Space::new("four transactions", 0, || programs(4, SMALL, 2, false)).split(64, 5));
                v.push(Space::new("five transactions", 0, || programs(5, CORE, 1, false)).split(64, 5));
                v.push(Space::new("undone, four transactions", 0, || undone(CORE, 4)).split(64, 4));
            } else {
                v.push(Space::new("four transactions", 0, || programs(4, CORE, 2, false)).split(64, 5));
            }
            v
        },
    }
}
