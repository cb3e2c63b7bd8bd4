//! Amounts are exact to the satoshi.
use crate::btc::*;
use crate::runner::{Check, Space};
use crate::wallet::pay;
use crate::world::*;

const MAX: u64 = 2_100_000_000_000_000;

// ------------------------------------------------------------ JSON with its numbers as text

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    Word(String),
}
impl J {
    pub fn parse(s: &str) -> Option<J> {
        let mut p = P { s: s.as_bytes(), i: 0 };
        let v = p.value()?;
        p.space();
        if p.i == p.s.len() {
            Some(v)
        } else {
            None
        }
    }
    fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            _ => None,
        }
    }
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn space(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.space();
        let r = self.s.get(self.i) == Some(&c);
        self.i += r as usize;
        r
    }
    fn string(&mut self) -> Option<String> {
        let from = self.i;
        self.i += 1;
        while *self.s.get(self.i)? != b'"' {
            self.i += if self.s[self.i] == b'\\' { 2 } else { 1 };
        }
        self.i += 1;
        serde_json::from_slice(&self.s[from..self.i]).ok()
    }
    fn value(&mut self) -> Option<J> {
        self.space();
        Some(match *self.s.get(self.i)? {
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                if !self.eat(b']') {
                    loop {
                        v.push(self.value()?);
                        if self.eat(b']') {
                            break;
                        }
                        if !self.eat(b',') {
                            return None;
                        }
                    }
                }
                J::Arr(v)
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                if !self.eat(b'}') {
                    loop {
                        self.space();
                        let k = self.string()?;
                        if !self.eat(b':') {
                            return None;
                        }
                        v.push((k, self.value()?));
                        if self.eat(b'}') {
                            break;
                        }
                        if !self.eat(b',') {
                            return None;
                        }
                    }
                }
                J::Obj(v)
            }
            b'"' => J::Str(self.string()?),
            _ => {
                let from = self.i;
                while self.i < self.s.len() && !b",]} \t\r\n".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                let t = String::from_utf8(self.s[from..self.i].to_vec()).ok()?;
                if t.as_bytes().first().map_or(false, |b| b.is_ascii_digit() || *b == b'-') {
                    J::Num(t)
                } else {
                    J::Word(t)
                }
            }
        })
    }
}

/// Does the decimal text denote exactly this many satoshi, counted in bitcoin?
fn exact(text: &str, want: u64) -> bool {
    let (m, e) = match text.split_once(['e', 'E']) {
        Some((m, e)) => match e.parse::<i64>() {
            Ok(e) => (m, e),
            Err(_) => return false,
        },
        None => (text, 0),
    };
    let (neg, m) = m.strip_prefix('-').map_or((false, m), |m| (true, m));
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    if int.is_empty() || !int.bytes().chain(frac.bytes()).all(|b| b.is_ascii_digit()) {
        return false;
    }
    let mut digits = format!("{}{}", int, frac).trim_start_matches('0').to_string();
    let mut exp = e - frac.len() as i64 + 8;
    while digits.ends_with('0') {
        digits.pop();
        exp += 1;
    }
    if digits.is_empty() {
        return want == 0;
    }
    if neg {
        return false;
    }
    let mut w = want.to_string();
    let mut we = 0;
    while w.len() > 1 && w.ends_with('0') {
        w.pop();
        we += 1;
    }
    digits == w && exp == we && want > 0
}

fn num(j: Option<&J>) -> &str {
    match j {
        Some(J::Num(t)) => t,
        x => rt::fail(format!("an amount is given as {:?}", x)),
    }
}

fn answer(w: &W, r: &Req) -> J {
    let a = match w.ask(r) {
        Ok(a) if a.status == 200 => a,
        Ok(a) => rt::fail(format!("{} {} is answered {}", r.method, r.target, a.status)),
        Err(e) => rt::fail(format!("{} {} is not answered: {}{}", r.method, r.target, e, w.panic_text())),
    };
    match J::parse(&a.text()) {
        Some(j) => j,
        None => rt::fail(format!("{} {}: not JSON: {}", r.method, r.target, a.text())),
    }
}

fn must(text: &str, want: u64, what: &str) {
    rt::count("amounts judged", 1);
    if !exact(text, want) {
        rt::fail(format!("{} is given as {} for {} satoshi", what, text, want));
    }
}

// ------------------------------------------------------------ worlds

fn owner(i: usize) -> Addr {
    let mut h: [u8; 20] = [7; 20];
    h[..8].copy_from_slice(&(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).to_le_bytes());
    h[8..12].copy_from_slice(&(i as u32).to_be_bytes());
    if i % 2 == 0 {
        Addr::Pkh(h)
    } else {
        Addr::Sh(h)
    }
}
const ALL: Addr = Addr::Sh([0x99; 20]);

/// Where the outputs are: in the stored index, in a later block, in the mempool.
fn place(kind: usize, outs: Vec<Out>) -> W {
    let conf = 1 + kind.min(1) * 2;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.node().mine(vec![], vec![pay(Addr::Pkh([1; 20]), 5)]);
    if kind == 0 {
        w.node().mine(vec![], outs);
    } else if kind == 1 {
        w.node().mine(vec![], vec![]);
        w.node().mine(vec![], vec![]);
        w.node().mine(vec![], outs);
        w.node().mine(vec![], vec![]);
    } else {
        w.node().mine(vec![], vec![]);
        w.node().mine(vec![], vec![]);
        let l = w.ledger();
        let (k, _) = l.utxo.iter().next().unwrap();
        let t = tx(vec![In::new(k.0, k.1)], outs);
        w.node().mempool.push(t);
        w.node().mark();
    }
    w.write_block_files();
    w.start();
    w
}

/// Amounts in dense ranges, at lattices and around special values.
fn amounts(th: bool) -> Vec<(u64, u64, u64)> {
    // (first, step, count)
    let mut v = vec![(0, 1, if th { 5_000_000 } else { 500_000 }), (MAX - if th { 2_000_000 } else { 200_000 }, 1, if th { 2_000_001 } else { 200_001 })];
    let r = if th { 8000 } else { 700 };
    let mut around = |x: u64| {
        let from = x.saturating_sub(r);
        let to = (x + r).min(MAX);
        if from <= to {
            v.push((from, 1, to - from + 1));
        }
    };
    for k in 0..51 {
        around(1 << k);
    }
    for k in 1..16 {
        for m in 1..10 {
            around(m * 10u64.pow(k));
        }
    }
    for k in 0..33 {
        around(5_000_000_000 >> k);
    }
    for k in 1..32 {
        around(5_000_000_000u64 * 210_000 / 16 * k);
    }
    // lattices over the whole range
    let n = if th { 1_000_000 } else { 100_000 };
    for step in [104_999_999_999u64, 99_999_989, 1_000_003, 100_000_000, 12_345_679, 10_000_019, 123_456_789_123] {
        v.push((step % 1000, step, n.min((MAX - 1000) / step)));
    }
    v
}

fn list(ranges: &[(u64, u64, u64)], from: u64, n: u64) -> Vec<u64> {
    let mut out = Vec::new();
    let mut skip = from;
    for (f, s, c) in ranges {
        if skip >= *c {
            skip -= c;
            continue;
        }
        let mut k = skip;
        skip = 0;
        while k < *c {
            out.push(f + k * s);
            if out.len() as u64 == n {
                return out;
            }
            k += 1;
        }
    }
    out
}

/// Every amount as the value of an output and as the balance of an address of its own, in all four forms.
fn single(th: bool) {
    let ranges = amounts(th);
    let total: u64 = ranges.iter().map(|r| r.2).sum();
    let size = 1500;
    let part = rt::free(total.div_ceil(size) as usize, "part");
    rt::shard_point();
    let v = list(&ranges, part as u64 * size, size);
    let kind = part % 3;
    let outs: Vec<Out> = v.iter().enumerate().map(|(i, x)| pay(owner(i), *x)).collect();
    // the same amounts together on one address
    let w = place(kind, [outs, v.iter().map(|x| pay(ALL, *x)).collect()].concat());
    let addrs: Vec<Addr> = (0..v.len()).map(owner).collect();
    let a = answer(&w, &Req::post("/addresses/balance", &list_json(&addrs)));
    let a = a.arr().unwrap_or(&[]);
    if a.len() != v.len() {
        rt::fail("not one balance per address");
    }
    for (j, x) in a.iter().zip(&v) {
        must(num(j.get("balance")), *x, "a balance in a list");
    }
    let a = answer(&w, &Req::post("/addresses/utxos", &list_json(&addrs)));
    for (j, x) in a.arr().unwrap_or(&[]).iter().zip(&v) {
        let u = j.get("utxos").and_then(|u| u.arr()).unwrap_or(&[]);
        if u.len() != 1 {
            rt::fail(format!("{} unspent outputs instead of one", u.len()));
        }
        must(num(u[0].get("value")), *x, "the value of an output in a list");
    }
    for (k, x) in addrs.iter().zip(&v) {
        must(num(Some(&answer(&w, &Req::get(&format!("/addresses/{}/balance", k.text()))))), *x, "a balance");
    }
    let a = answer(&w, &Req::get(&format!("/addresses/{}/utxos", ALL.text())));
    let a = a.arr().unwrap_or(&[]);
    if a.len() != v.len() {
        rt::fail("not one entry per unspent output");
    }
    let first = v.len() as u64;
    let mut seen = vec![false; v.len()];
    for j in a {
        let n: u64 = num(j.get("vout")).parse().unwrap_or(u64::MAX);
        if n < first || n - first >= first || std::mem::replace(&mut seen[(n - first) as usize], true) {
            rt::fail(format!("an unspent output with number {}", n));
        }
        must(num(j.get("value")), v[(n - first) as usize], "the value of an output");
    }
    w.must_live("queries");
    rt::outcome(part as u64);
}

fn special() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 7, 10, 99, 100, 546, 1000, 9_999_999, 10_000_000, 20_000_000, 30_000_000, 70_000_000, 99_999_999, 100_000_000, 100_000_001, 110_000_000, 5_000_000_000, 312_500_000, 4_294_967_295, 4_294_967_296, 4_294_967_297];
    for k in [23u32, 24, 31, 33, 40, 48, 49, 50] {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([123_456_789, 987_654_321_012, 100_000_000_000_001, MAX / 3, MAX / 2, MAX / 2 + 1, MAX - 100_000_001, MAX - 1, MAX, 1_999_999_999_999_999, 1_000_000_000_000_000, 999_999_999_999_999]);
    v
}

/// Sums of two or three outputs, or of many equal ones, wherever each of them is; also of what is left of them.
fn sums(th: bool) {
    let s = special();
    let three = rt::free(3, "two, three, many") as usize;
    let i = rt::free(s.len(), "first amount");
    let shift = rt::free(if th { 3 } else { 1 }, "placement");
    rt::shard_point();
    let mut groups: Vec<Vec<u64>> = Vec::new();
    match three {
        0 => groups.extend(s.iter().map(|y| vec![s[i], *y])),
        1 => {
            let t: Vec<u64> = s.iter().copied().skip(i % 2).step_by(if th { 1 } else { 2 }).collect();
            for y in &t {
                groups.extend(t.iter().map(|z| vec![s[i], *y, *z]));
            }
        }
        _ => {
            for n in [4usize, 5, 7, 9, 10, 11, 21, 50, 100, 255, 256, 257, 1000] {
                groups.push(vec![s[i]; n]);
                groups.push((0..n as u64).map(|k| s[i] / 1000 + k).collect());
                groups.push((0..n).map(|k| s[(i + k) % s.len()] / n as u64).collect());
            }
        }
    }
    groups.retain(|g| g.iter().map(|x| *x as u128).sum::<u128>() <= MAX as u128);
    let conf = 2;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    // layers: stored index, stored index (another block), last block, mempool
    let mut outs: [Vec<Out>; 4] = Default::default();
    let mut spent: Vec<(usize, usize)> = Vec::new();
    for (g, v) in groups.iter().enumerate() {
        for (k, x) in v.iter().enumerate() {
            outs[(k + g + shift) % 4].push(pay(owner(g), *x));
        }
        // something that comes and goes
        let extra = (g + k_of(v)) % 2;
        spent.push((extra, outs[extra].len()));
        outs[extra].push(pay(owner(g), 1 + MAX / 7 + g as u64));
    }
    let [o0, o1, o2, o3] = outs;
    w.node().mine(vec![], vec![pay(Addr::Pkh([1; 20]), 5), pay(Addr::Pkh([2; 20]), 6)]);
    let root = w.ledger().utxo.keys().map(|k| *k).collect::<Vec<_>>();
    let t0 = tx(vec![In::new(root[0].0, root[0].1)], o0);
    let t1 = tx(vec![In::new(root[1].0, root[1].1)], o1);
    w.node().mine(vec![t0.clone()], vec![]);
    w.node().mine(vec![t1.clone()], vec![pay(Addr::Pkh([1; 20]), 9)]);
    let free = w.ledger().utxo.iter().find(|(_, o)| o.value == 9 && o.script == Addr::Pkh([1; 20]).script()).map(|(k, _)| *k).unwrap();
    let ids = [t0.id, t1.id];
    let gone: Vec<In> = spent.iter().map(|(l, n)| In::new(ids[*l], *n as u32)).collect();
    let cut = gone.len() / 2;
    let mut t2 = vec![tx(vec![In::new(free.0, free.1)], [o2, vec![pay(Addr::Pkh([3; 20]), 11)]].concat())];
    if cut > 0 {
        t2.push(tx(gone[..cut].to_vec(), vec![pay(Addr::Pkh([4; 20]), 1)]));
    }
    let last = In::new(t2[0].id, t2[0].d.outs.len() as u32 - 1);
    w.node().mine(t2, vec![]);
    let t3 = tx([vec![last], gone[cut..].to_vec()].concat(), [o3, vec![pay(Addr::Pkh([4; 20]), 1)]].concat());
    w.node().mempool.push(t3);
    w.node().mark();
    w.write_block_files();
    w.start();
    let addrs: Vec<Addr> = (0..groups.len()).map(owner).collect();
    for (from, part) in addrs.chunks(1500).enumerate() {
        let a = answer(&w, &Req::post("/addresses/balance", &list_json(part)));
        let a = a.arr().unwrap_or(&[]);
        if a.len() != part.len() {
            rt::fail("not one balance per address");
        }
        for (j, g) in a.iter().zip(&groups[from * 1500..]) {
            must(num(j.get("balance")), g.iter().sum(), "a balance in a list");
        }
    }
    for (k, g) in addrs.iter().zip(&groups) {
        if three != 1 || th {
            must(num(Some(&answer(&w, &Req::get(&format!("/addresses/{}/balance", k.text()))))), g.iter().sum(), "a balance");
        }
    }
    w.must_live("queries");
    rt::outcome(rt::hash64(&[three as u8, i as u8, shift as u8]));
    rt::sample(2, || format!("{} sums that begin with {}", groups.len(), s[i]));
}
fn k_of(v: &[u64]) -> usize {
    v.len()
}

pub fn check() -> Check {
    Check {
        id: "C21",
        level: "exploration",
        rule: "all amounts in dense ranges at both ends, around every power of two, multiples of powers of ten, subsidies and their totals, and on lattices over the whole range, as outputs and balances in all four forms of answers, from the stored index, from later blocks and from the mempool; all sums of two or three special amounts, sums of many, spread over these places, with other outputs spent in between. The decimal text of the answer is compared digit by digit. Counted by part; amounts are under counters",
        assumptions: &["totals up to 21 million bitcoin"],
        spaces: |th| vec![Space::new("single amounts", 0, move || single(th)).split(64, 0), Space::new("sums", 0, move || sums(th)).split(64, 0)],
    }
}
