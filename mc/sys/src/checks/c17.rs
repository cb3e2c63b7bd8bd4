//! Output scripts are attributed to exactly the right address.
use crate::btc::*;
use crate::runner::{Check, Space};
use crate::wallet::pay;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

const A: [u8; 20] = [0x11, 0x22, 0x33, 0x44, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 1, 2, 3, 4, 5, 6, 7, 8];
/// Hashes whose bytes look like the templates' own.
const HASHES: [[u8; 20]; 5] = [
    A,
    [0; 20],
    [0xff; 20],
    [0xa9, 0x14, 0x76, 0xa9, 0x14, 0x87, 0x88, 0xac, 0x6a, 0xa9, 0x14, 0x76, 0xa9, 0x14, 0x87, 0x88, 0xac, 0x6a, 0x88, 0xac],
    [0x6a, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x87, 0x87],
];

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

fn templates() -> Vec<Vec<u8>> {
    HASHES.iter().flat_map(|h| [Addr::Pkh(*h).script(), Addr::Sh(*h).script()]).collect()
}

/// Every byte at every place of a template replaced by every value.
fn one_byte(t: usize) -> Vec<Vec<u8>> {
    let base = &templates()[t];
    let mut v = vec![base.clone()];
    for i in 0..base.len() {
        for b in 0..=255u8 {
            if b != base[i] {
                let mut s = base.clone();
                s[i] = b;
                v.push(s);
            }
        }
    }
    v
}

/// Bytes that mean something in the templates, put at all pairs of structural places.
fn two_bytes(t: usize) -> Vec<Vec<u8>> {
    let base = &templates()[t];
    let n = base.len();
    let places: Vec<usize> = vec![0, 1, 2, 3, n - 4, n - 3, n - 2, n - 1];
    let bytes = [0x00, 0x13, 0x14, 0x15, 0x17, 0x4c, 0x51, 0x6a, 0x76, 0x87, 0x88, 0xa8, 0xa9, 0xaa, 0xac, 0xff];
    let mut v = Vec::new();
    for (k, i) in places.iter().enumerate() {
        for j in &places[k + 1..] {
            for a in bytes {
                for b in bytes {
                    let mut s = base.clone();
                    s[*i] = a;
                    s[*j] = b;
                    v.push(s);
                }
            }
        }
    }
    v
}

/// Every pair of values at a pair of the places at which a template's bytes are fixed.
fn fixed_pairs() -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    for (kind, places) in [(0, &[0usize, 1, 2, 23, 24][..]), (1, &[0, 1, 22][..])] {
        for (k, &i) in places.iter().enumerate() {
            v.extend(places[k + 1..].iter().map(|&j| (kind, i, j)));
        }
    }
    v
}

fn all_pairs(th: bool) {
    let all = fixed_pairs();
    let k = rt::free(all.len(), "pair of places");
    let route = if th { ROUTES[rt::free(3, "route")] } else { ROUTES[k % 2] };
    let hash = rt::free(if th { HASHES.len() } else { 1 }, "hash");
    let (kind, i, j) = all[k];
    let base = &templates()[hash * 2 + kind];
    let scripts: Vec<Vec<u8>> = (0..=0xffffusize)
        .map(|n| {
            let mut s = base.clone();
            s[i] = (n >> 8) as u8;
            s[j] = n as u8;
            s
        })
        .collect();
    run(route, &format!("template {}, every value of bytes {} and {}", hash * 2 + kind, i, j), scripts, false);
}

/// All truncations at either end, extensions and one-byte insertions and deletions.
fn lengths(t: usize) -> Vec<Vec<u8>> {
    let base = &templates()[t];
    let bytes = [0x00, 0x01, 0x14, 0x51, 0x61, 0x6a, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xff];
    let mut v = Vec::new();
    for i in 0..base.len() {
        v.push(base[..i].to_vec());
        v.push(base[i..].to_vec());
        let mut s = base.clone();
        s.remove(i);
        v.push(s);
        for b in bytes {
            let mut s = base.clone();
            s.insert(i, b);
            v.push(s);
        }
    }
    for b in bytes {
        v.push(cat(&[base, &[b]]));
        v.push(cat(&[&[b], base]));
        for c in bytes {
            v.push(cat(&[base, &[b, c]]));
            v.push(cat(&[&[b, c], base]));
            v.push(cat(&[&[b], base, &[c]]));
        }
    }
    for n in [3usize, 26, 100, 226, 227, 228, 229, 230, 231, 232, 233, 1000, 65510, 65511, 65512, 65513] {
        v.push(cat(&[base, &vec![0; n]]));
        v.push(cat(&[&vec![0x61; n], base]));
    }
    v.push(cat(&[base, base]));
    v
}

/// Standard and odd scripts of other kinds around the same hashes.
fn others() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for h in &HASHES {
        let h32 = cat(&[h, &[7; 12]]);
        let pk33 = cat(&[&[2], &h32]);
        let pk65 = cat(&[&[4], &h32, &h32]);
        // witness programs of all versions, usual and odd lengths
        for version in [0u8, 0x51, 0x52, 0x60] {
            v.push(cat(&[&[version, 0x14], h]));
            v.push(cat(&[&[version, 0x20], &h32]));
            v.push(cat(&[&[version, 0x02, 1, 2]]));
        }
        v.push(cat(&[&[33], &pk33, &[0xac]]));
        v.push(cat(&[&[65], &pk65, &[0xac]]));
        // public key hash and script hash with other pushes, other hash functions, other endings
        for push in [&[0x13u8][..], &[0x15], &[0x4c, 0x14], &[0x4d, 0x14, 0], &[0x4e, 0x14, 0, 0, 0]] {
            v.push(cat(&[&[0x76, 0xa9], push, h, &[0x88, 0xac]]));
            v.push(cat(&[&[0xa9], push, h, &[0x87]]));
        }
        for op in [0xa6u8, 0xa7, 0xa8, 0xaa] {
            v.push(cat(&[&[0x76, op, 0x14], h, &[0x88, 0xac]]));
            v.push(cat(&[&[op, 0x14], h, &[0x87]]));
        }
        v.push(cat(&[&[0x76, 0xa9, 0x14], h, &[0x88, 0xad]]));
        v.push(cat(&[&[0x76, 0xa9, 0x14], h, &[0x87, 0xac]]));
        v.push(cat(&[&[0xa9, 0x14], h, &[0x88]]));
        v.push(cat(&[&[0xa9, 0x14], h, &[0x87, 0x69]]));
        v.push(cat(&[&[0xa9, 0x14], h, &[0x88, 0xac]]));
        v.push(cat(&[&[0x76, 0xa9, 0x14], h, &[0x87]]));
        v.push(cat(&[&[0xa9, 0x14], &h32, &[0x87]]));
        v.push(cat(&[&[0xa8, 0x20], &h32, &[0x87]]));
        v.push(cat(&[&[0xaa, 0x20], &h32, &[0x87]]));
        // multisig, time locks, puzzles
        v.push(cat(&[&[0x51, 33], &pk33, &[33], &pk33, &[0x52, 0xae]]));
        v.push(cat(&[&[3, 1, 2, 3, 0xb1, 0x75, 0x76, 0xa9, 0x14], h, &[0x88, 0xac]]));
        v.push(cat(&[&[0x63, 0x76, 0xa9, 0x14], h, &[0x67, 0xa9, 0x14], h, &[0x68, 0x88, 0xac]]));
        // data carriers, also with a template inside
        v.push(cat(&[&[0x6a, 0x14], h]));
        v.push(cat(&[&[0x6a], &Addr::Pkh(*h).script()]));
        v.push(cat(&[&[0x6a], &Addr::Sh(*h).script()]));
        v.push(cat(&[&[0x00, 0x6a, 0x14], h]));
        v.push(cat(&[&[0x6a, 0xa9, 0x14], &h[..18], &[0x88, 0xac]]));
        v.push(h.to_vec());
        v.push(cat(&[&[0x14], h]));
        v.push(cat(&[&[0x00], h]));
        v.push(cat(&[&[0x05], h]));
    }
    // all scripts of up to one byte, and a filler of every length
    v.push(vec![]);
    for b in 0..=255 {
        v.push(vec![b]);
    }
    for n in 0..=300 {
        for f in [0x00u8, 0x14, 0x51, 0x6a, 0x76, 0xa9] {
            v.push(vec![f; n]);
        }
    }
    v
}

fn two(first: u8) -> Vec<Vec<u8>> {
    (0..=255).map(|b| vec![first, b]).collect()
}

/// Any address a script could be taken for: each window of 20 bytes, as both kinds.
fn suspects(s: &[u8], all: bool) -> Vec<Addr> {
    let n = if all { s.len() } else { s.len().min(40) };
    let mut v = Vec::new();
    if n >= 20 {
        for i in 0..=n - 20 {
            let h: [u8; 20] = s[i..i + 20].try_into().unwrap();
            v.push(Addr::Pkh(h));
            v.push(Addr::Sh(h));
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Route {
    Files,
    Rpc,
    Mempool,
}

fn judge(w: &W, addrs: &[Addr], depth: usize, when: &str) {
    let l = w.node().expect(depth);
    // one pass over the expectation
    let mut want: BTreeMap<Addr, Vec<(String, u32, u64)>> = BTreeMap::new();
    for ((h, n), o) in l.utxo.iter() {
        if let Some(a) = Addr::of_script(&o.script) {
            want.entry(a).or_default().push((rhex(h), *n, o.value));
        }
    }
    for part in addrs.chunks(400) {
        let v = w.ask_ok(&request(Kind::UtxosMany, part, depth));
        let b = w.ask_ok(&request(Kind::Balances, part, depth));
        let (v, b) = (v.as_array().cloned().unwrap_or_default(), b.as_array().cloned().unwrap_or_default());
        if v.len() != part.len() || b.len() != part.len() {
            rt::fail(format!("{}: {} and {} entries for {} addresses", when, v.len(), b.len(), part.len()));
        }
        for ((a, x), y) in part.iter().zip(&v).zip(&b) {
            let mut exp = want.get(a).cloned().unwrap_or_default();
            exp.sort();
            let got = utxos_of(&x["utxos"]).unwrap_or_default();
            let sum: u64 = exp.iter().map(|u| u.2).sum();
            if got != exp || satoshi(&y["balance"]) != Some(sum) {
                let odd = got.iter().chain(&exp).find(|u| !got.contains(u) || !exp.contains(u)).cloned();
                let script = odd.as_ref().and_then(|u| l.utxo.get(&(unrhex(&u.0).unwrap(), u.1))).map(|o| hex(&o.script));
                rt::fail(format!("{}: {} has {} outputs (balance {}), expected {} ({} satoshi); differing output {:?} with script {:?}", when, a.text(), got.len(), y["balance"], exp.len(), sum, odd, script));
            }
        }
    }
}

fn run(route: Route, what: &str, scripts: Vec<Vec<u8>>, one_by_one: bool) {
    let w = W::new(Cfg { conf: 1, threads: 1, batch: 10, interval: 1000 });
    let mut ask: BTreeSet<Addr> = BTreeSet::new();
    for s in &scripts {
        let v = suspects(s, false);
        // where the template would be, and all windows of a few
        let near: Vec<Addr> = v.iter().enumerate().filter(|(i, _)| scripts.len() < 100 || (2..8).contains(i)).map(|(_, a)| *a).collect();
        ask.extend(near);
    }
    for h in HASHES {
        ask.insert(Addr::Pkh(h));
        ask.insert(Addr::Sh(h));
    }
    let ask: Vec<Addr> = ask.into_iter().collect();
    let text = format!("{:?}, {} ({} scripts)", route, what, scripts.len());
    w.node().mine(vec![], vec![pay(Addr::Pkh([0xfe; 20]), 1_000_000)]);
    let spare = { let n = w.node(); n.blocks[&n.tip()].txs[0].id };
    let outs: Vec<Out> = scripts.iter().enumerate().map(|(i, s)| Out { value: 1 + i as u64, script: s.clone() }).collect();
    // all in one transaction, or a transaction for each
    let txs: Vec<Tx> = if one_by_one {
        let mut from = (spare, 0);
        outs.iter()
            .map(|o| {
                let t = tx(vec![In::new(from.0, from.1)], vec![o.clone(), Out { value: 7, script: vec![0x51] }]);
                from = (t.id, 1);
                t
            })
            .collect()
    } else {
        vec![tx(vec![In::new(spare, 0)], outs)]
    };
    let spendable: Vec<In> = txs.iter().flat_map(|t| t.d.outs.iter().enumerate().filter(|(i, o)| o.script.first() != Some(&0x6a) && !(one_by_one && *i == 1)).map(|(i, _)| In::new(t.id, i as u32)).collect::<Vec<_>>()).collect();
    match route {
        Route::Files => {
            w.node().mine(txs, vec![]);
            w.write_block_files();
            w.start();
        }
        Route::Rpc => {
            w.write_block_files();
            w.start();
            w.node().mine(txs, vec![]);
            w.tick();
        }
        Route::Mempool => {
            w.write_block_files();
            w.start();
            w.node().mempool = txs;
            w.node().mark();
            w.tick();
        }
    }
    judge(&w, &ask, 0, &text);
    if route != Route::Mempool {
        judge(&w, &ask, 1, &text);
    }
    // outputs of every kind can be spent
    if route == Route::Mempool {
        if !spendable.is_empty() {
            w.node().mempool.push(tx(spendable, vec![pay(Addr::Sh(A), 5)]));
        }
        w.node().mark();
        w.tick();
        judge(&w, &ask, 0, &format!("{}, spent", text));
        w.node().mine_pool(100_000);
    } else {
        w.node().mine(if spendable.is_empty() { vec![] } else { vec![tx(spendable, vec![pay(Addr::Sh(A), 5)])] }, vec![]);
    }
    w.tick();
    judge(&w, &ask, 0, &format!("{}, spent", text));
    judge(&w, &ask, 1, &format!("{}, spent", text));
    rt::count("scripts", scripts.len() as u64);
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(2, || text);
}

const ROUTES: [Route; 3] = [Route::Files, Route::Rpc, Route::Mempool];

fn variations(th: bool) {
    let route = ROUTES[rt::free(3, "route")];
    let kind = rt::free(4, "variation");
    let n = templates().len();
    let t = if kind < 3 { rt::free(n, "template") } else { rt::free(256, "first byte") };
    let (what, all) = match kind {
        0 => (format!("template {} with one byte changed", t), one_byte(t)),
        1 => (format!("template {} with two bytes changed", t), two_bytes(t)),
        2 => (format!("template {} with another length", t), lengths(t)),
        _ => {
            if t == 0 {
                ("other scripts".to_string(), others())
            } else if th || t % 16 == 6 || [0xa9, 0xac, 0x87, 0x88, 0x14, 1].contains(&t) {
                (format!("scripts of two bytes starting with {:#x}", t), two(t as u8))
            } else {
                return;
            }
        }
    };
    let size = if th { 150 } else { 450 };
    let parts = all.len().div_ceil(size);
    let k = rt::free(parts, "part");
    let part: Vec<Vec<u8>> = all.into_iter().skip(k * size).take(size).collect();
    let one = kind != 1 && rt::free(2, "a transaction for each") == 1;
    rt::shard_point();
    run(route, &format!("{}, part {}{}", what, k, if one { ", a transaction each" } else { "" }), part, one);
}

/// Every window of a few scripts is asked for.
fn windows() {
    let route = ROUTES[rt::free(3, "route")];
    let t = rt::free(templates().len() + 1, "template");
    let all: Vec<Vec<u8>> = if t == templates().len() { others() } else { lengths(t) };
    let all: Vec<_> = all.into_iter().filter(|s| (20..60).contains(&s.len())).collect();
    let size = 40;
    let k = rt::free(all.len().div_ceil(size), "part");
    rt::shard_point();
    run(route, &format!("all windows, set {} part {}", t, k), all.into_iter().skip(k * size).take(size).collect(), false);
}

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        rule: "around the two templates with 5 hashes: every value of every single byte, pairs of meaningful bytes at structural places, all 65,536 values of every pair of fixed bytes, every truncation, insertion, deletion and extension, other standard and odd scripts, short scripts; each read from block files, getblock and mempool, as output of a large and of a small transaction; the listings of all addresses a script could be taken for are compared, then all outputs are spent. Counted as distinct by set of scripts and route",
        assumptions: &["scripts of up to about 65,000 bytes"],
        spaces: |th| {
            vec![
                Space::new("variations", 0, move || variations(th)).split(64, 0),
                Space::new("pairs of fixed bytes", 0, move || all_pairs(th)).split(8, 0),
                Space::new("windows", 0, windows).split(32, 0),
            ]
        },
    }
}
