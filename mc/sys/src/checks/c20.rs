//! The HTTP interface answers every request as documented by its routes.
use crate::btc::*;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// What the routes say about a request.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// Exactly this answer.
    Answer(Kind, Vec<Addr>, usize),
    /// A client error.
    Refuse,
    /// Either of them: the routes leave it open.
    Either(Kind, Vec<Addr>, usize),
    /// Any answer at all.
    Any,
}
use Want::*;

struct Wd {
    w: W,
    ledgers: Vec<Rc<crate::model::Ledger>>,
    a: Vec<Addr>,
    by_text: HashMap<String, Addr>,
    asked: RefCell<u64>,
}

/// A running indexer whose answers differ by address and by depth.
fn world(conf: usize) -> Wd {
    let w = W::new(Cfg { conf, ..Cfg::default() });
    let mut a = wallet::addrs();
    a.push(Addr::Pkh([0x42; 20])); // never seen
    for i in 0..conf as u64 + 4 {
        let outs = (0..5).filter(|k| (i as usize + k) % 4 != 3).map(|k| wallet::pay(a[k], 1_000 * (i + 1) + k as u64)).collect();
        w.node().mine(vec![], outs);
    }
    w.write_block_files();
    w.submit(1, 3);
    w.start();
    let ledgers: Vec<_> = (0..=conf).map(|d| Rc::new(w.node().expect(d))).collect();
    for d in 0..conf {
        if (0..5).all(|k| ledgers[d].balance(&a[k]) == ledgers[d + 1].balance(&a[k])) {
            rt::error("harness: neighbouring depths look the same");
        }
    }
    let by_text = a.iter().map(|x| (x.text(), *x)).collect();
    Wd { w, ledgers, a, by_text, asked: RefCell::new(0) }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 160 {
        format!("{}... ({} bytes)", s.chars().take(160).collect::<String>(), s.len())
    } else {
        s.into()
    }
}

impl Wd {
    fn addr(&self, s: &str) -> Option<Addr> {
        self.by_text.get(s).copied().or_else(|| parse_address(s))
    }

    /// Parameters of a query string; `None` where the syntax leaves their meaning open.
    fn params(q: &str) -> Option<Vec<(String, String)>> {
        if q.contains(['%', '+', ';']) {
            return None;
        }
        Some(q.split('&').filter(|p| !p.is_empty()).map(|p| p.split_once('=').map_or((p.into(), String::new()), |(k, v)| (k.into(), v.into()))).collect())
    }

    /// What must come of a request, by the documented routes.
    fn want(&self, r: &Req) -> Want {
        let conf = self.w.cfg.conf;
        let (path, query) = r.target.split_once('?').map_or((r.target.as_str(), None), |(p, q)| (p, Some(q)));
        let seg: Vec<&str> = path.split('/').collect();
        let kind = |s: &str, many: bool| match (s, many) {
            ("balance", false) => Kind::Balance,
            ("utxos", false) => Kind::Utxos,
            ("balance", true) => Kind::Balances,
            _ => Kind::UtxosMany,
        };
        let odd = path.contains('%');
        let (kind, single) = match (r.method.as_str(), seg.as_slice()) {
            ("GET", ["", "addresses", s, k @ ("balance" | "utxos")]) => match self.addr(s) {
                Some(a) => (kind(k, false), Some(a)),
                None => return if odd { Any } else { Refuse },
            },
            ("GET" | "POST", ["", "addresses", k @ ("balance" | "utxos")]) => (kind(k, true), None),
            _ => return if odd { Any } else { Refuse },
        };
        let params = match Self::params(query.unwrap_or("")) {
            Some(p) => p,
            None => return Any,
        };
        let mut open = query.map_or(false, |q| q.split('&').any(|p| p.is_empty() && !q.is_empty()));
        let values = |name: &str| params.iter().filter(|(k, _)| k == name).map(|(_, v)| v.clone()).collect::<Vec<_>>();
        // the depth
        let c = values("confirmations");
        if c.len() > 1 {
            return Any;
        }
        let depth = match c.first() {
            None => Ok(0),
            Some(v) => {
                let digits = v.strip_prefix('-').unwrap_or(v);
                if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
                    Err(())
                } else {
                    let t = digits.trim_start_matches('0');
                    let n = if t.is_empty() { Ok(0) } else { t.parse::<usize>().map_err(|_| ()) };
                    if v.starts_with('-') && !t.is_empty() {
                        Err(())
                    } else {
                        if v.starts_with('-') || (digits.len() > 1 && digits.starts_with('0')) {
                            open = true;
                        }
                        n
                    }
                }
            }
        };
        let depth = match depth {
            Ok(d) if d <= conf => d,
            _ => return Refuse,
        };
        // the addresses
        let list = if let Some(a) = single {
            Ok(vec![a])
        } else if r.method == "GET" {
            let v = values("addresses");
            if v.len() > 1 {
                return Any;
            }
            match v.first() {
                None => Err(()),
                Some(v) => v.split(',').map(|s| self.addr(s).ok_or(())).collect(),
            }
        } else {
            let body = r.chunks.concat();
            match serde_json::from_slice::<Value>(&body) {
                Ok(Value::Array(v)) => v.iter().map(|s| s.as_str().and_then(|s| self.addr(s)).ok_or(())).collect(),
                _ => Err(()),
            }
        };
        match list {
            Err(()) => Refuse,
            Ok(l) if open => Either(kind, l, depth),
            Ok(l) => Answer(kind, l, depth),
        }
    }

    fn put(&self, r: &Req) {
        let want = self.want(r);
        self.put_as(r, want)
    }

    fn put_as(&self, r: &Req, want: Want) {
        let a = self.w.ask(r);
        self.judge(r, want, a, "")
    }

    fn judge(&self, r: &Req, want: Want, a: Result<Resp, String>, more: &str) {
        *self.asked.borrow_mut() += 1;
        rt::count("requests", 1);
        let what = || {
            let body = String::from_utf8_lossy(&r.chunks.concat()).into_owned();
            format!("{} {}{}{}{}", r.method, clip(&r.target), if body.is_empty() { String::new() } else { format!(" with body {:?}", clip(&body)) }, if r.chunks.len() > 1 { format!(" in {} parts", r.chunks.len()) } else { String::new() }, more)
        };
        let a = match a {
            Ok(a) => a,
            Err(e) if e == "unsendable request" => {
                rt::count("not a request at all", 1);
                return;
            }
            Err(e) => rt::fail(format!("{} is not answered: {}{}", what(), e, self.w.panic_text())),
        };
        let (kind, list, depth, must) = match &want {
            Any => {
                if a.status >= 500 {
                    rt::fail(format!("{} is answered {}", what(), a.status));
                }
                return;
            }
            Refuse => {
                if !(400..500).contains(&a.status) {
                    rt::fail(format!("{} is answered {} {} instead of a client error", what(), a.status, clip(&a.text())));
                }
                return;
            }
            Answer(k, l, d) => (*k, l, *d, true),
            Either(k, l, d) => (*k, l, *d, false),
        };
        if !must && (400..500).contains(&a.status) {
            return;
        }
        if a.status != 200 {
            rt::fail(format!("{} is answered {} {}", what(), a.status, clip(&a.text())));
        }
        let v: Value = match serde_json::from_slice(&a.body) {
            Ok(v) => v,
            Err(_) => rt::fail(format!("{} is answered with something that is not JSON: {}", what(), clip(&a.text()))),
        };
        if let Err(e) = agrees(kind, list, &v, &self.ledgers[depth]) {
            rt::fail(format!("{}: at depth {}: {}", what(), depth, e));
        }
    }

    /// It still answers, and follows the chain.
    fn after(&self, what: &str) {
        self.w.must_live(what);
        self.w.check_all(&self.a, 0, what);
        self.w.mine(1, 90);
        self.w.tick();
        self.w.check_all(&self.a, 1, what);
    }
}

fn lists(d: &Wd) -> Vec<Vec<Addr>> {
    let a = &d.a;
    let mut rev = a.clone();
    rev.reverse();
    vec![
        vec![a[0]],
        vec![a[1]],
        vec![a[5]],
        vec![a[0], a[1]],
        vec![a[1], a[0]],
        vec![a[0], a[0]],
        vec![a[3], a[5], a[3]],
        a.clone(),
        rev,
        [a.clone(), a.clone()].concat(),
        (0..60).map(|i| a[i * 7 % 6]).collect(),
    ]
}

fn joined(l: &[Addr]) -> String {
    l.iter().map(|a| a.text()).collect::<Vec<_>>().join(",")
}

/// Depth parameters: every string over an alphabet, and numbers around powers of two.
fn depths(conf: usize, len: usize) -> Vec<String> {
    let mut v: Vec<String> = (0..=conf + 3).map(|n| n.to_string()).collect();
    let alphabet: Vec<char> = "0123456789-.exXab_,=/:@!*~'\"".chars().collect();
    let mut front: Vec<String> = vec![String::new()];
    for _ in 0..len {
        front = front.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{}{}", s, c))).collect();
        v.extend(front.iter().cloned());
    }
    v.push(String::new());
    for k in 1..127u32 {
        let p = 1u128 << k;
        for x in [p - 1, p, p + 1, p + conf as u128, p + conf as u128 + 1] {
            v.push(x.to_string());
            v.push(format!("-{}", x));
        }
    }
    for n in [10, 19, 20, 21, 39, 40, 100, 1000] {
        v.push("9".repeat(n));
        v.push("1".repeat(n));
        v.push(format!("{}1", "0".repeat(n)));
        v.push(format!("1{}", "0".repeat(n)));
    }
    for s in ["null", "true", "false", "NaN", "inf", "infinity", "one", "0x1", "1e0", "1.0", "1u", "1usize", "0b1", "0o1", "[1]", "{}", "1.", ".1", "--1", "1-", "1%20", "%31", "+1", "+", "١", "１", "²"] {
        v.push(s.into());
    }
    v
}

fn depth_parameter(confs: usize, len: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let form = rt::free(6, "route");
    let all = depths(conf, len);
    let size = 700;
    let part = rt::free(all.len().div_ceil(size), "part");
    rt::shard_point();
    let d = world(conf);
    for (i, c) in all.iter().enumerate().skip(part * size).take(size) {
        let l = [d.a[i % 6], d.a[(i + 1) % 6]];
        let q = format!("confirmations={}", c);
        let k = ["balance", "utxos"][form % 2];
        let r = match form / 2 {
            0 => Req::get(&format!("/addresses/{}/{}?{}", l[0].text(), k, q)),
            1 if i % 2 == 0 => Req::get(&format!("/addresses/{}?addresses={}&{}", k, joined(&l), q)),
            1 => Req::get(&format!("/addresses/{}?{}&addresses={}", k, q, joined(&l))),
            _ => Req::post(&format!("/addresses/{}?{}", k, q), &list_json(&l)),
        };
        d.put(&r);
    }
    d.after("queries with all sorts of depths");
    rt::outcome(rt::hash64(format!("{} {} {}", conf, form, part).as_bytes()));
}

/// Every form with every list at every depth, bodies split in every way.
fn forms(confs: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let form = rt::free(3, "form");
    let depth = rt::free(conf + 3, "depth");
    rt::shard_point();
    let d = world(conf);
    let q = [None, Some(depth)];
    for kind in ["balance", "utxos"] {
        for l in lists(&d) {
            for q in q {
                if q.is_none() && depth > 0 {
                    continue;
                }
                let qs = q.map_or(String::new(), |n| format!("confirmations={}", n));
                match form {
                    0 => {
                        for a in &l {
                            d.put(&Req::get(&format!("/addresses/{}/{}{}{}", a.text(), kind, if qs.is_empty() { "" } else { "?" }, qs)));
                        }
                    }
                    1 => {
                        d.put(&Req::get(&format!("/addresses/{}?addresses={}{}{}", kind, joined(&l), if qs.is_empty() { "" } else { "&" }, qs)));
                        d.put(&Req::get(&format!("/addresses/{}?{}{}addresses={}", kind, qs, if qs.is_empty() { "" } else { "&" }, joined(&l))));
                    }
                    _ => {
                        let body = list_json(&l).into_bytes();
                        let t = format!("/addresses/{}{}{}", kind, if qs.is_empty() { "" } else { "?" }, qs);
                        let mut splits: Vec<Vec<Vec<u8>>> = vec![vec![body.clone()], body.iter().map(|b| vec![*b]).collect()];
                        if l.len() <= 6 {
                            for i in 0..=body.len() {
                                splits.push(vec![body[..i].to_vec(), body[i..].to_vec()]);
                                splits.push(vec![body[..i].to_vec(), vec![], body[i..].to_vec(), vec![]]);
                                let j = (i * 7 + 3) % (body.len() + 1);
                                let (i, j) = (i.min(j), i.max(j));
                                splits.push(vec![vec![], body[..i].to_vec(), body[i..j].to_vec(), body[j..].to_vec()]);
                            }
                        }
                        for n in [2, 3, 7, 16, 36, 37, 38, 64, 1000] {
                            splits.push(body.chunks(n).map(|c| c.to_vec()).collect());
                        }
                        for chunks in splits {
                            let mut r = Req::post(&t, "");
                            r.headers.push(if chunks.len() == 1 { ("content-length".into(), body.len().to_string()) } else { ("transfer-encoding".into(), "chunked".into()) });
                            r.chunks = chunks;
                            d.put(&r);
                        }
                    }
                }
            }
        }
    }
    d.after("well-formed queries");
    rt::outcome(rt::hash64(format!("{} {} {}", conf, form, depth).as_bytes()));
}

/// All strings of exactly `len` parts after the given ones.
fn strings(parts: &[&str], first: &[usize], len: usize) -> Vec<String> {
    let mut front = vec![first.iter().map(|&i| parts[i]).collect::<String>()];
    for _ in first.len()..len {
        front = front.iter().flat_map(|s| parts.iter().map(move |p| format!("{}{}", s, p))).collect();
    }
    front
}

/// Query strings put together from parts.
fn query_strings(len: usize) {
    let form = rt::free(6, "route");
    let n = 1 + rt::free(len, "parts - 1");
    let first: Vec<usize> = (0..n.saturating_sub(3)).map(|_| rt::free(10, "part")).collect();
    rt::shard_point();
    let d = world(2);
    let (x, y) = (d.a[0].text(), d.a[1].text());
    let parts = ["confirmations", "addresses", "=", "&", "1", x.as_str(), ",", y.as_str(), "address", "confirmations=2"];
    let mut all = strings(&parts, &first, n);
    if n == 1 {
        all.push(String::new());
    }
    // each also before and after a complete list of addresses
    let k = ["balance", "utxos"][form % 2];
    for q in &all {
        let r = match form / 2 {
            0 => Req::get(&format!("/addresses/{}/{}?{}", d.a[2].text(), k, q)),
            1 => Req::get(&format!("/addresses/{}?{}", k, q)),
            _ => Req::post(&format!("/addresses/{}?{}", k, q), &list_json(&[d.a[2], d.a[0]])),
        };
        d.put(&r);
        if form / 2 == 1 {
            d.put(&Req::get(&format!("/addresses/{}?addresses={}&{}", k, joined(&[d.a[2], d.a[0]]), q)));
            d.put(&Req::get(&format!("/addresses/{}?{}&addresses={}", k, q, joined(&[d.a[2], d.a[0]]))));
        }
    }
    d.after("queries with all sorts of parameters");
    rt::outcome(rt::hash64(format!("{} {} {:?}", form, n, first).as_bytes()));
}

/// Paths put together from parts, with every method.
fn paths(len: usize) {
    let methods = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "get", "Post", "PROPFIND", "X"];
    let m = rt::free(methods.len(), "method");
    let n = 1 + rt::free(if m < 2 { len } else { len - 1 }, "parts - 1");
    let first: Vec<usize> = (0..n.saturating_sub(3)).map(|_| rt::free(9, "part")).collect();
    rt::shard_point();
    let d = world(2);
    let (x, y) = (d.a[0].text(), d.a[1].text());
    let parts = ["/", "addresses", "/addresses", x.as_str(), "/balance", "/utxos", "balance", "utxos", "."];
    let mut all = strings(&parts, &first, n);
    if n == 1 {
        all.push("*".into());
    }
    for p in all.iter().filter(|p| p.starts_with('/') || *p == "*") {
        for q in [String::new(), format!("?addresses={},{}", y, x)] {
            let mut r = Req::post(&format!("{}{}", p, q), &list_json(&[d.a[1], d.a[2]]));
            r.method = methods[m].into();
            if q.is_empty() && methods[m] != "POST" {
                r.chunks.clear();
            }
            d.put(&r);
        }
    }
    d.after("requests for all sorts of paths");
    rt::outcome(rt::hash64(format!("{} {} {:?}", m, n, first).as_bytes()));
}

/// Bodies: all of up to two bytes, all of a few JSON tokens, and odd ones.
fn bodies(tokens: usize) {
    let k = rt::free(["balance", "utxos"].len(), "route");
    let n = rt::free(tokens + 1, "parts");
    let first: Vec<usize> = (0..if n == 0 { 1 } else { n.saturating_sub(3) }).map(|_| rt::free(16, "part")).collect();
    rt::shard_point();
    let d = world(2);
    let route = ["/addresses/balance", "/addresses/utxos"][k];
    let (x, y) = (d.a[0].text(), d.a[1].text());
    let put = |b: &[u8]| {
        let mut r = Req::post(route, "");
        r.chunks = vec![b.to_vec()];
        d.put(&r);
    };
    if n == 0 {
        for a in first[0] * 16..first[0] * 16 + 16 {
            put(&[a as u8]);
            for b in 0..=255u8 {
                put(&[a as u8, b]);
            }
        }
    }
    let (jx, jy) = (json!(x).to_string(), json!(y).to_string());
    let parts = ["[", "]", jx.as_str(), ",", " ", jy.as_str(), "null", "1", "{", "}", ":", "\"", "\u{feff}", "\n", "[]", "\\"];
    if n > 0 {
        for s in strings(&parts, &first, n) {
            put(s.as_bytes());
        }
    }
    if n == 0 && first[0] == 0 {
        put(b"");
        let escaped: String = x.chars().map(|c| format!("\\u{:04x}", c as u32)).collect();
        for s in [
            format!("[\"{}\"]", escaped),
            format!("[\"{}\",\"{}\"]", escaped, y),
            format!(" \r\n\t[ \"{}\" ,\n\"{}\"\t] \n", x, y),
            format!("[\"{}\" \"{}\"]", x, y),
            format!("['{}']", x),
            format!("[{}]", x),
            format!("[\"{}\"],", x),
            format!("[\"{}\"][\"{}\"]", x, y),
            format!("{{\"addresses\":[\"{}\"]}}", x),
            format!("[[\"{}\"]]", x),
            format!("[\"{}\",[\"{}\"]]", x, y),
            format!("[\"{}\",{{}}]", x),
            format!("[\"{}\",true]", x),
            format!("[\"{}\",0.5]", x),
            format!("[\"{}\",1e999]", x),
            format!("[\"{}\",\"\"]", x),
            format!("[\"{}\",\"{}x\"]", x, y),
            format!("[\"{},{}\"]", x, y),
            format!("[\"{}\\u0000\"]", x),
            format!("[\"\\ud800\"]"),
            format!("[\"{}\"]//", x),
            format!("/**/[\"{}\"]", x),
            format!("addresses={}", x),
            x.clone(),
            jx.clone(),
            format!("\u{feff}[\"{}\"]", x),
        ] {
            put(s.as_bytes());
        }
        for n in [10, 127, 128, 129, 1000, 100_000] {
            put("[".repeat(n).as_bytes());
            put(format!("{}{}", "[".repeat(n), "]".repeat(n)).as_bytes());
            put(format!("{}{}", "{\"a\":".repeat(n), "}".repeat(n)).as_bytes());
            put(" ".repeat(n).as_bytes());
            put(&vec![0; n]);
            put(&vec![0xff; n]);
            put(format!("[{}]", "1".repeat(n)).as_bytes());
            put(format!("[\"{}\"]", "1".repeat(n.min(2000))).as_bytes());
            let mut s = format!("[\"{}\"]", x).into_bytes();
            s.extend(vec![b' '; n]);
            put(&s);
            s.push(b'x');
            put(&s);
        }
        // not UTF-8, also split inside a character
        let good = list_json(&[d.a[0], d.a[1]]).into_bytes();
        for i in 0..=good.len() {
            for bad in [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xc3\xa9", b"\x00", b"\xf0\x9f\x98\x80"] {
                let mut b = good.clone();
                b.splice(i..i, bad.iter().copied());
                let mut r = Req::post(route, "");
                r.chunks = if i % 2 == 0 { vec![b] } else { vec![b[..i + 1].to_vec(), b[i + 1..].to_vec()] };
                d.put(&r);
            }
            put(&good[..i]);
            put(&good[i..]);
        }
        // many addresses
        for n in [1000, 5000] {
            let l: Vec<Addr> = (0..n).map(|i| d.a[i * 5 % 6]).collect();
            let mut r = Req::post(route, &list_json(&l));
            d.put(&r);
            r.chunks = r.chunks[0].chunks(4096).map(|c| c.to_vec()).collect();
            d.put(&r);
            if n == 1000 {
                d.put(&Req::get(&format!("{}?addresses={}", route, joined(&l))));
            }
        }
    }
    d.after("requests with all sorts of bodies");
    rt::outcome(rt::hash64(format!("{} {} {:?}", k, n, first).as_bytes()));
}

/// Headers, bodies where none belong, absolute targets.
fn surroundings() {
    let form = rt::free(6, "route");
    rt::shard_point();
    let d = world(2);
    let k = ["balance", "utxos"][form % 2];
    let l = [d.a[1], d.a[0]];
    let plain = match form / 2 {
        0 => Req::get(&format!("/addresses/{}/{}?confirmations=1", l[0].text(), k)),
        1 => Req::get(&format!("/addresses/{}?addresses={}&confirmations=1", k, joined(&l))),
        _ => Req::post(&format!("/addresses/{}?confirmations=1", k), &list_json(&l)),
    };
    let h = |n: &str, v: &str| (n.to_string(), v.to_string());
    for e in [
        h("host", "indexer:80"),
        h("accept", "text/html"),
        h("accept", "application/json"),
        h("accept-encoding", "gzip"),
        h("user-agent", ""),
        h("connection", "close"),
        h("connection", "keep-alive"),
        h("cookie", "a=b"),
        h("origin", "http://example.com"),
        h("x-forwarded-for", "10.0.0.1, 10.0.0.2"),
        h("authorization", "Basic Zm9v"),
        h("range", "bytes=0-1"),
        h("if-none-match", "*"),
        h("x-long", &"y".repeat(10_000)),
    ] {
        let mut r = plain.clone();
        r.headers.push(e);
        d.put(&r);
    }
    // content types: the form of the request is fixed by the route
    for t in ["application/json; charset=utf-8", "application/json;charset=UTF-8"] {
        let mut r = plain.clone();
        r.headers = vec![h("content-type", t)];
        d.put(&r);
    }
    for t in ["text/plain", "application/x-www-form-urlencoded", "application/octet-stream", "nonsense", ""] {
        let mut r = plain.clone();
        r.headers = vec![h("content-type", t)];
        let want = match d.want(&r) {
            Answer(k, l, c) if form / 2 == 2 => Either(k, l, c),
            x => x,
        };
        d.put_as(&r, want);
    }
    let mut r = plain.clone();
    r.headers.clear();
    d.put(&r);
    // a body where none belongs
    if form / 2 < 2 {
        for b in [list_json(&[d.a[3]]), "x".into(), format!("confirmations=2&addresses={}", d.a[3].text()), "\u{0}".repeat(5000)] {
            let mut r = plain.clone();
            r.chunks = vec![b.into_bytes()];
            d.put(&r);
        }
    }
    // fragments are cut off by the syntax of targets, an authority in front is none of the path
    let want = d.want(&plain);
    for t in [format!("http://127.0.0.1:8000{}", plain.target), format!("http://elsewhere{}", plain.target)] {
        let mut r = plain.clone();
        r.target = t;
        d.put_as(&r, want.clone());
    }
    d.after("requests with all sorts of surroundings");
    rt::outcome(form as u64);
}

/// Clients that break off or fall silent in the middle of a request, among others.
fn broken() {
    let form = rt::free(6, "route");
    let parts = rt::free(4, "parts that arrive");
    let silent = rt::free(2, "falls silent instead of breaking off") == 1;
    let n = 1 + rt::free(3, "clients of this kind - 1") * 20;
    rt::shard_point();
    let d = world(2);
    let k = ["balance", "utxos"][form % 2];
    let mut r = match form / 2 {
        0 => Req::get(&format!("/addresses/{}/{}", d.a[0].text(), k)),
        1 => Req::get(&format!("/addresses/{}?addresses={}", k, joined(&d.a))),
        _ => Req::post(&format!("/addresses/{}", k), ""),
    };
    let body = list_json(&d.a).into_bytes();
    r.chunks = body.chunks(50).take(parts).map(|c| c.to_vec()).collect();
    r.broken = !silent;
    r.stalled = silent;
    let mut open = Vec::new();
    for i in 0..n {
        let p = d.w.send(&r);
        rt::quiesce();
        if p.done() {
            if let Some(Ok(a)) = p.take() {
                if !silent && a.status == 200 && form / 2 == 2 {
                    rt::fail(format!("a request that broke off is answered {}", clip(&a.text())));
                }
            }
        } else {
            if !silent {
                rt::fail("a request that broke off keeps being served");
            }
            open.push(p);
        }
        if i % 5 == 0 {
            if !d.w.alive() {
                d.w.must_live("a request that breaks off");
            }
            d.w.check_all(&d.a, i, "after a request that breaks off");
        }
    }
    d.w.mine(2, 77);
    d.w.tick_raw();
    if !d.w.alive() {
        d.w.must_live("an update after requests that break off");
    }
    d.w.check_all(&d.a, 1, "after an update after requests that break off");
    drop(open);
    rt::outcome(rt::hash64(format!("{} {} {} {}", form, parts, silent, n).as_bytes()));
}

/// Requests one after the other on one connection.
fn one_connection(n: usize) {
    let conf = 2;
    let picks: Vec<usize> = (0..n).map(|_| rt::free(12, "request")).collect();
    rt::shard_point();
    let d = world(conf);
    let a = &d.a;
    let post = |k: &str, l: &[Addr], n: usize| {
        let mut r = Req::post(&format!("/addresses/{}", k), "");
        r.chunks = list_json(l).as_bytes().chunks(n).map(|c| c.to_vec()).collect();
        r
    };
    let menu = [
        Req::get(&format!("/addresses/{}/balance", a[0].text())),
        Req::get(&format!("/addresses/{}/utxos?confirmations=1", a[1].text())),
        Req::get(&format!("/addresses/balance?addresses={}&confirmations=2", joined(&[a[1], a[0]]))),
        Req::get(&format!("/addresses/utxos?addresses={}", joined(&a[..4]))),
        post("balance", &[a[3], a[2]], 1000),
        post("utxos?confirmations=1", &[a[2]], 7),
        post("balance?confirmations=2", &a[..5], 50),
        Req::post("/addresses/balance", "[\"x\"]"),
        Req::post("/addresses/utxos", "["),
        Req::get("/addresses/balance?confirmations=1"),
        Req::get(&format!("/addresses/{}/balance?confirmations=9", a[0].text())),
        Req::post("/nowhere", &list_json(&a[..2])),
    ];
    let reqs: Vec<Req> = picks.iter().map(|&k| menu[k].clone()).collect();
    let got = d.w.ask_on_one(&reqs);
    for (i, r) in reqs.iter().enumerate() {
        let a = got.get(i).cloned().unwrap_or(Err("nothing comes".into()));
        d.judge(r, d.want(r), a, &format!(", request {} on a connection", i + 1));
    }
    d.w.must_live("requests on one connection");
    rt::outcome(rt::hash64(format!("{:?}", picks).as_bytes()));
}

/// Very long bodies.
fn long_bodies(mega: usize) {
    let k = rt::free(2, "route");
    let kind = rt::free(5, "body");
    let d = world(2);
    let mut r = Req::post(["/addresses/balance", "/addresses/utxos?confirmations=2"][k], "");
    let len = mega << 20;
    let body = match kind {
        0 => format!("{}{}", " ".repeat(len), list_json(&d.a)),
        1 => format!("{}{}", list_json(&d.a), " ".repeat(len)),
        2 => list_json(&(0..(len / 37)).map(|i| d.a[if i % 999 == 0 { i % 6 } else { 5 }]).collect::<Vec<_>>()),
        3 => format!("[\"{}\"]", "1".repeat(len)),
        _ => format!("{}x", list_json(&(0..(len / 37)).map(|_| d.a[5]).collect::<Vec<_>>())),
    };
    r.headers.push(("content-length".into(), body.len().to_string()));
    r.chunks = body.as_bytes().chunks(65_536).map(|c| c.to_vec()).collect();
    d.put(&r);
    d.after("a very long body");
    rt::outcome(rt::hash64(format!("{} {}", k, kind).as_bytes()));
}

/// Requests at the same time.
fn together(n: usize) {
    let mut kinds = Vec::new();
    for _ in 0..n {
        kinds.push(rt::free(5, "request"));
    }
    if kinds.windows(2).any(|w| w[0] > w[1]) {
        return;
    }
    let d = world(1);
    rt::explore_interleavings(true);
    let reqs: Vec<Req> = kinds
        .iter()
        .map(|k| match k {
            0 => Req::get(&format!("/addresses/{}/balance", d.a[0].text())),
            1 => Req::get(&format!("/addresses/utxos?addresses={}&confirmations=1", joined(&[d.a[1], d.a[0]]))),
            2 => {
                let b = list_json(&[d.a[3], d.a[2]]);
                let mut r = Req::post("/addresses/balance", "");
                r.chunks = b.as_bytes().chunks(20).map(|c| c.to_vec()).collect();
                r
            }
            3 => Req::post("/addresses/utxos?confirmations=2", "[]"),
            _ => Req::get("/addresses/balance/"),
        })
        .collect();
    let open: Vec<_> = reqs.iter().map(|r| d.w.send(r)).collect();
    rt::quiesce();
    rt::explore_interleavings(false);
    for (p, r) in open.into_iter().zip(&reqs) {
        match p.take() {
            None => rt::fail(format!("{} {} is not answered when others are asked at the same time", r.method, r.target)),
            Some(Err(e)) => rt::fail(format!("{} {} is not answered when others are asked at the same time: {}", r.method, r.target, e)),
            Some(Ok(a)) => match d.want(r) {
                Answer(kind, l, depth) => {
                    if a.status != 200 {
                        rt::fail(format!("{} {} is answered {}", r.method, r.target, a.status));
                    }
                    if let Err(e) = agrees(kind, &l, &a.json(), &d.ledgers[depth]) {
                        rt::fail(format!("{} {}: {}", r.method, r.target, e));
                    }
                }
                _ => {
                    if !(400..500).contains(&a.status) {
                        rt::fail(format!("{} {} is answered {}", r.method, r.target, a.status));
                    }
                }
            },
        }
    }
    d.w.must_live("requests at the same time");
    rt::outcome(rt::hash64(format!("{:?}", kinds).as_bytes()));
}

pub fn check() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        rule: "every route with every list of a menu at every depth and every split of the body; every depth string over an alphabet up to a length and numbers around every power of two; every query string, path and body put together from up to a number of parts, paths with every method; all bodies of up to two bytes; headers; clients that break off or fall silent; requests at the same time under all interleavings within a bound. The oracle is an independent reading of the routes over a replayed ledger. Counted by group; requests are under counters",
        assumptions: &[
            "percent-encoded or '+' parts, repeated parameters and numbers with signs or leading zeros must be answered, either as meant or with a client error",
            "the syntax of HTTP itself is hyper's business: requests it cannot represent are not sent",
        ],
        spaces: |th| {
            vec![
                Space::new("forms and splits", 0, move || forms(if th { 6 } else { 3 })).split(64, 0),
                Space::new("depth parameter", 0, move || depth_parameter(if th { 3 } else { 2 }, if th { 3 } else { 2 })).split(64, 0),
                Space::new("query strings", 0, move || query_strings(if th { 6 } else { 5 })).split(64, 0),
                Space::new("paths and methods", 0, move || paths(if th { 7 } else { 6 })).split(64, 0),
                Space::new("bodies", 0, move || bodies(if th { 5 } else { 4 })).split(32, 0),
                Space::new("surroundings", 0, surroundings).split(8, 0),
                Space::new("broken and silent clients", 0, broken).split(32, 0),
                Space::new("one connection", 0, move || one_connection(if th { 4 } else { 3 })).split(32, 0),
                Space::new("very long bodies", 0, move || long_bodies(if th { 16 } else { 6 })).split(4, 2),
                Space::new("at the same time", 0, move || together(if th { 3 } else { 2 })).preempt(if th { 3 } else { 2 }).split(16, 3),
            ]
        },
    }
}
