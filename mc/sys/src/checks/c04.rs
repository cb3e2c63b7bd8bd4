//! Every query answers from one served state.
use crate::btc::*;
use crate::model::Ledger;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use serde_json::Value;
use std::cell::RefCell;
use std::rc::Rc;

/// The expected contents per served version and depth.
pub fn snapshot(w: &W) -> Vec<Ledger> {
    (0..=w.cfg.conf).map(|d| w.node().expect(d)).collect()
}

pub struct Seen {
    pub client: usize,
    pub kind: Kind,
    pub depth: usize,
    pub addrs: Vec<Addr>,
    pub value: Result<Value, String>,
}

/// Each answer is right for one version, and a client's versions never go back.
pub fn one_version(seen: &[Seen], versions: &[Vec<Ledger>]) {
    let mut floor = std::collections::BTreeMap::new();
    let mut got = Vec::new();
    for s in seen {
        let v = match &s.value {
            Ok(v) => v,
            Err(e) => rt::fail(format!("{:?} at depth {} is not answered: {}", s.kind, s.depth, e)),
        };
        let from = *floor.get(&s.client).unwrap_or(&0);
        let fits: Vec<Result<(), String>> = versions.iter().map(|l| agrees(s.kind, &s.addrs, v, &l[s.depth])).collect();
        match (from..versions.len()).find(|&i| fits[i].is_ok()) {
            Some(i) => {
                floor.insert(s.client, i);
                got.push(i as u8);
            }
            None => match fits.iter().position(|r| r.is_ok()) {
                Some(i) => rt::fail(format!("client {}: {:?} at depth {} is answered from state {} after an answer from state {}", s.client, s.kind, s.depth, i, from)),
                None => rt::fail(format!(
                    "client {}: {:?} at depth {} is right for none of the {} states served: {}",
                    s.client,
                    s.kind,
                    s.depth,
                    versions.len(),
                    fits[versions.len() - 1].clone().unwrap_err()
                )),
            },
        }
    }
    rt::outcome(rt::hash64(&got));
}

/// Once everything is quiet each question that was asked gets the newest answer.
fn afterwards(w: &W, seen: &[Seen], now: &[Ledger]) {
    let mut asked: Vec<(Kind, usize, &[Addr])> = Vec::new();
    for s in seen {
        let q = (s.kind, s.depth, s.addrs.as_slice());
        if !asked.iter().any(|x| (x.0 as u8, x.1, x.2) == (q.0 as u8, q.1, q.2)) {
            asked.push(q);
        }
    }
    for (kind, depth, addrs) in asked {
        let v = w.ask_ok(&request(kind, addrs, depth));
        if let Err(e) = agrees(kind, addrs, &v, &now[depth]) {
            rt::fail(format!("{:?} at depth {} after the update is not answered from its state: {}", kind, depth, e));
        }
    }
}

/// A client that asks a list of questions one after the other.
pub fn client(w: &W, n: usize, list: Vec<(Kind, usize)>, addrs: Vec<Addr>, seen: Rc<RefCell<Vec<Seen>>>) {
    let w = w.clone();
    rt::spawn_proc(0, format!("client {}", n), move || {
        for (kind, depth) in list {
            let a: Vec<Addr> = if matches!(kind, Kind::Balance | Kind::Utxos) { vec![addrs[n % addrs.len()]] } else { addrs.clone() };
            let r = w.send(&request(kind, &a, depth)).wait();
            let value = match r {
                Ok(r) if r.status == 200 => Ok(r.json()),
                Ok(r) => Err(format!("status {}: {}", r.status, r.text())),
                Err(e) => Err(e),
            };
            seen.borrow_mut().push(Seen { client: n, kind, depth, addrs: a, value });
        }
    });
}

pub fn event(w: &W, k: usize, salt: u64) -> &'static str {
    match k {
        0 => {
            w.mine(2, salt);
            "one block"
        }
        1 => {
            w.mine(1, salt);
            w.mine(3, salt + 1);
            w.mine(2, salt + 2);
            "three blocks"
        }
        2 => {
            w.submit(2, salt);
            "mempool only"
        }
        3 => {
            let n = w.node().mempool.len();
            w.node().mine_pool(n);
            w.submit(1, salt);
            "the mempool mined, others submitted"
        }
        _ => {
            w.node().reorg(1, 1, 3, salt);
            "one block replaced by two"
        }
    }
}

fn updates(conf: usize, events: usize, bursts: usize, asks: usize, clients: usize, addresses: usize) {
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.submit(1, 5);
    w.start();
    let mut a = wallet::addrs();
    let kind = match addresses {
        0 => KINDS[rt::free(4, "query form")],
        n => {
            a = (0..n).map(|k| a[k * 3 % a.len()]).collect();
            [Kind::Balances, Kind::UtxosMany][rt::free(2, "query form")]
        }
    };
    let ev = rt::free(events, "event");
    let depth = [0, conf][rt::free(2, "depth index")];
    let seen = Rc::new(RefCell::new(Vec::new()));
    let versions = Rc::new(RefCell::new(vec![snapshot(&w)]));
    let t = event(&w, ev, 40);
    versions.borrow_mut().push(snapshot(&w));
    if bursts > 0 {
        let (w2, v2) = (w.clone(), versions.clone());
        w.burst(bursts, move |k| {
            event(&w2, (ev + 1 + k) % 5, 60 + 10 * k as u64);
            v2.borrow_mut().push(snapshot(&w2));
        });
    }
    rt::explore_interleavings(true);
    for c in 0..clients {
        client(&w, c, vec![(kind, depth); asks], a.clone(), seen.clone());
    }
    w.tick_raw();
    rt::explore_interleavings(false);
    w.must_live("update with queries");
    if seen.borrow().len() != clients * asks {
        rt::fail("a query is never answered");
    }
    one_version(&seen.borrow(), &versions.borrow());
    afterwards(&w, &seen.borrow(), versions.borrow().last().unwrap());
    rt::sample(4, || format!("CONFIRMATIONS {}, {}, {:?} at depth {}", conf, t, kind, depth));
}

/// Queries of different forms and depths by one client while an update runs.
fn mixed(conf: usize) {
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let ev = rt::free(3, "event");
    let list = [
        vec![(Kind::Balance, 0), (Kind::UtxosMany, conf), (Kind::Balances, 1)],
        vec![(Kind::Balances, conf), (Kind::Utxos, 0), (Kind::UtxosMany, 0)],
    ][rt::free(2, "list of queries")]
    .clone();
    let seen = Rc::new(RefCell::new(Vec::new()));
    let mut versions = vec![snapshot(&w)];
    event(&w, [0, 1, 4][ev], 40);
    versions.push(snapshot(&w));
    rt::explore_interleavings(true);
    client(&w, 0, list, a.clone(), seen.clone());
    w.tick_raw();
    rt::explore_interleavings(false);
    w.must_live("update with queries");
    one_version(&seen.borrow(), &versions);
    afterwards(&w, &seen.borrow(), versions.last().unwrap());
}

pub fn check() -> Check {
    Check {
        id: "C04",
        level: "model_checking",
        rule: "all interleavings, within a preemption bound, of one or two updates (blocks, mempool, branch switch) with clients asking one or several queries of each form and depth; each response must be right for one served state, successive responses to a client must not go back, and a question asked again afterwards is answered from the newest state",
        assumptions: &["sequentially consistent memory; scheduling points are lock, channel, RPC, disk and task operations"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("one update, CONFIRMATIONS=2", 0, || updates(2, 5, 0, 2, 1, 0)).delay(d).split(32, 5),
                Space::new("one update, CONFIRMATIONS=1", 0, || updates(1, 4, 0, 1, 1, 0)).delay(d).split(32, 5),
                Space::new("mixed queries", 0, || mixed(2)).delay(d).split(16, 5),
                Space::new("two updates in a row", 0, move || updates(2, if th { 5 } else { 2 }, 1, 1, 1, 0)).delay(d).split(32, 5),
                Space::new("many addresses", 0, move || updates(2, if th { 5 } else { 2 }, 0, 1, 1, 150)).delay(1).split(32, 5),
                Space::new("thousands of addresses", 0, move || updates(2, if th { 5 } else { 1 }, 0, 1, 1, 2_100)).delay(1).split(32, 5),
                Space::new("a suspended thread", 0, move || updates(2, if th { 5 } else { 2 }, 1, 2, 2, 0)).naps(2, if th { 1 } else { 0 }).split(32, 5),
                Space::new("two clients", 0, move || updates(2, if th { 5 } else { 2 }, 0, 1, 2, 0)).delay(d).split(32, 5),
            ]
        },
    }
}
