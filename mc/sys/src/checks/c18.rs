//! Address strings are accepted only when valid, and mean one address.
use crate::btc::*;
use crate::runner::{Check, Space};
use crate::wallet::pay;
use crate::world::*;
use serde_json::{json, Value};
use std::rc::Rc;

const B: [u8; 20] = [0x11, 0x22, 0x33, 0x44, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 1, 2, 3, 4, 5, 6, 7, 8];
const ALPHABET: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn hashes() -> Vec<[u8; 20]> {
    let mut small = [0u8; 20];
    small[19] = 1;
    let mut v = vec![B, [0; 20], [0xff; 20], small];
    for zeros in [1, 2, 5, 10] {
        let mut h = B;
        h[..zeros].fill(0);
        v.push(h);
    }
    // neighbours in every byte
    for i in 0..20 {
        let mut h = B;
        h[i] ^= 1;
        v.push(h);
    }
    v
}

fn known() -> Vec<Addr> {
    hashes().iter().flat_map(|h| [Addr::Pkh(*h), Addr::Sh(*h)]).collect()
}

/// A running indexer in which every known address has a balance of its own.
fn world() -> (W, Rc<crate::model::Ledger>) {
    let w = W::new(Cfg { conf: 1, ..Cfg::default() });
    let outs = known().iter().enumerate().map(|(i, a)| pay(*a, 1000 + i as u64)).collect();
    w.node().mine(vec![], outs);
    w.node().mine(vec![], vec![pay(Addr::Sh(B), 77)]);
    w.write_block_files();
    w.start();
    let l = w.ledger();
    (w, l)
}

fn show(s: &str) -> String {
    if s.chars().count() > 80 {
        format!("{:?}... ({} bytes)", s.chars().take(80).collect::<String>(), s.len())
    } else {
        format!("{:?}", s)
    }
}

fn verdict(w: &W, l: &crate::model::Ledger, s: &str, req: &Req, kind: Kind, echo: bool) {
    let what = format!("{} {} for the string {}", req.method, kind_name(kind), show(s));
    let r = match w.ask(req) {
        Ok(r) => r,
        Err(e) => rt::fail(format!("{} is not answered: {}{}", what, e, w.panic_text())),
    };
    match parse_address(s) {
        None => {
            if !(400..500).contains(&r.status) {
                rt::fail(format!("{}: not a valid address, answered {} {}", what, r.status, show(&r.text())));
            }
        }
        Some(a) => {
            if r.status != 200 {
                rt::fail(format!("{}: a valid address, answered {} {}", what, r.status, show(&r.text())));
            }
            let v: Value = r.json();
            if let Err(e) = agrees(kind, &[a], &v, l) {
                rt::fail(format!("{}: {}", what, e));
            }
            if echo && a.text() != s {
                rt::error("harness: a valid string that is not canonical");
            }
        }
    }
}

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Balance | Kind::Balances => "balance",
        _ => "utxos",
    }
}

/// Can the string stand in a path or a query as it is?
fn plain(s: &str, path: bool) -> bool {
    s.bytes().all(|b| (0x21..0x7f).contains(&b) && !b"\"#<>?\\^`{|}%".contains(&b)) && !(path && s.contains('/')) && !(!path && (s.contains('&') || s.contains('=') || s.contains(',')))
}

fn judge(w: &W, l: &crate::model::Ledger, s: &str, turn: usize) {
    let two = |k: usize| if k % 2 == 0 { (Kind::Balances, Kind::Balance) } else { (Kind::UtxosMany, Kind::Utxos) };
    let (many, single) = two(turn);
    verdict(w, l, s, &Req::post(&format!("/addresses/{}", kind_name(many)), &json!([s]).to_string()), many, true);
    if s.len() < 3000 && plain(s, true) && !s.is_empty() && s != "." && s != ".." {
        verdict(w, l, s, &Req::get(&format!("/addresses/{}/{}", s, kind_name(single))), single, true);
    }
    let (many, _) = two(turn / 2);
    if s.len() < 3000 && plain(s, false) {
        verdict(w, l, s, &Req::get(&format!("/addresses/{}?addresses={}", kind_name(many), s)), many, true);
    }
    rt::count("strings", 1);
}

/// A bad string among good ones refuses the request.
fn among(w: &W, s: &str) {
    if parse_address(s).is_some() {
        return;
    }
    let good = Addr::Pkh(B).text();
    for list in [json!([good, s]), json!([s, good]), json!([good, s, good])] {
        let r = w.ask(&Req::post("/addresses/balance", &list.to_string()));
        match r {
            Ok(r) if (400..500).contains(&r.status) => {}
            Ok(r) => rt::fail(format!("a list with the invalid string {} is answered {} {}", show(s), r.status, show(&r.text()))),
            Err(e) => rt::fail(format!("a list with the invalid string {} is not answered: {}{}", show(s), e, w.panic_text())),
        }
    }
}

fn check_of(payload: &[u8]) -> [u8; 4] {
    sha256d(payload)[..4].try_into().unwrap()
}

/// The strings of a family around one address.
fn family(kind: usize, t: usize) -> (String, Vec<String>) {
    let a = known()[t % known().len()];
    let good = a.text();
    let g: Vec<char> = good.chars().collect();
    let payload = dec58(&good).unwrap();
    let body = payload[..21].to_vec();
    let mut v = vec![good.clone()];
    let name = match kind {
        0 => {
            for i in 0..g.len() {
                for c in ALPHABET.chars() {
                    let mut s = g.clone();
                    s[i] = c;
                    v.push(s.iter().collect());
                }
            }
            "one character replaced"
        }
        1 => {
            for i in 0..g.len() {
                for c in "0OIl +/=.,;:-_~!*'()@$[]\u{0}\t\n\r \"\\%é€😀\u{7f}\u{80}ﾟ１Ａ".chars() {
                    let mut s = g.clone();
                    s[i] = c;
                    v.push(s.iter().collect());
                }
            }
            "one character replaced by one outside the alphabet"
        }
        2 => {
            for i in 0..=g.len() {
                for c in "1zA2x 0é".chars() {
                    let mut s = g.clone();
                    s.insert(i, c);
                    v.push(s.iter().collect());
                }
                if i < g.len() {
                    let mut s = g.clone();
                    s.remove(i);
                    v.push(s.iter().collect());
                    v.push(g[..i].iter().collect());
                    v.push(g[i..].iter().collect());
                    let mut s = g.clone();
                    s[i] = if s[i].is_ascii_lowercase() { s[i].to_ascii_uppercase() } else { s[i].to_ascii_lowercase() };
                    v.push(s.iter().collect());
                }
                if i + 1 < g.len() {
                    let mut s = g.clone();
                    s.swap(i, i + 1);
                    v.push(s.iter().collect());
                }
            }
            for n in 1..6 {
                v.push(format!("{}{}", "1".repeat(n), good));
                v.push(format!("{}{}", good, "1".repeat(n)));
            }
            v.push(good.trim_start_matches('1').to_string());
            v.push(format!("{}{}", good, good));
            v.push(good.to_uppercase());
            v.push(good.to_lowercase());
            v.push(g.iter().rev().collect());
            v.push(format!(" {}", good));
            v.push(format!("{} ", good));
            v.push(format!("{}\n", good));
            v.push(format!("{}\u{0}", good));
            v.push(format!("bitcoin:{}", good));
            "inserted, removed, swapped, repeated"
        }
        3 => {
            // every version byte, with a right checksum
            for ver in 0..=255u8 {
                let mut p = body.clone();
                p[0] = ver;
                v.push(check58(&p));
            }
            "every version"
        }
        4 => {
            // every length of payload, with a right checksum; also with further leading zeros
            for n in 0..=64 {
                for ver in [0u8, 5] {
                    let mut p: Vec<u8> = std::iter::once(ver).chain(body[1..].iter().copied().cycle()).take(n).collect();
                    v.push(check58(&p));
                    if n > 0 {
                        p.insert(0, 0);
                        v.push(check58(&p));
                        p[0] = 5;
                        v.push(check58(&p));
                    }
                    let z = vec![0u8; n];
                    v.push(check58(&z));
                    v.push(enc58(&z));
                }
            }
            // 21 bytes without a checksum, raw payloads
            v.push(enc58(&body));
            v.push(enc58(&body[1..]));
            v.push(hex(&body));
            v.push(hex(&payload));
            "every length"
        }
        5 => {
            // wrong checksums: every value of every byte, single and double swaps
            let c = check_of(&body);
            for i in 0..4 {
                for b in 0..=255u8 {
                    let mut k = c;
                    k[i] = b;
                    v.push(enc58(&[&body[..], &k].concat()));
                }
            }
            let mut r = c;
            r.reverse();
            v.push(enc58(&[&body[..], &r].concat()));
            for k in [[0; 4], [0xff; 4]] {
                v.push(enc58(&[&body[..], &k].concat()));
            }
            let once = {
                use sha2::{Digest, Sha256};
                let d: [u8; 32] = Sha256::digest(&body).into();
                d
            };
            v.push(enc58(&[&body[..], &once[..4]].concat()));
            v.push(enc58(&[&body[..], &sha256d(&body)[28..]].concat()));
            v.push(enc58(&[&body[..], &check_of(&body[1..])].concat()));
            // 20 and 22 bytes under the checksum of 21
            v.push(enc58(&[&body[..20], &c].concat()));
            v.push(enc58(&[&body[..], &[0], &c].concat()));
            for n in 0..4 {
                v.push(enc58(&[&body[..], &c[..n]].concat()));
                v.push(enc58(&[&body[..], &c, &c[..n]].concat()));
            }
            "wrong checksums"
        }
        6 => {
            // every bit of the payload flipped, with the old and with a right checksum
            for i in 0..payload.len() * 8 {
                let mut p = payload.clone();
                p[i / 8] ^= 1 << (i % 8);
                v.push(enc58(&p));
                if i < 168 {
                    v.push(check58(&p[..21]));
                }
            }
            "every bit flipped"
        }
        _ => {
            // every pair of neighbours
            for i in 0..g.len() - 1 {
                for c in ALPHABET.chars() {
                    for d in ALPHABET.chars() {
                        let mut s = g.clone();
                        s[i] = c;
                        s[i + 1] = d;
                        v.push(s.iter().collect());
                    }
                }
            }
            "two neighbours replaced"
        }
    };
    (format!("{} of {}", name, good), v)
}

/// Strings that have nothing to do with an address.
fn wild(k: usize) -> (String, Vec<String>) {
    let mut v: Vec<String> = Vec::new();
    let name = match k {
        0 => {
            v.push(String::new());
            let chars: Vec<char> = (0..=0x180u32).filter_map(char::from_u32).chain("\u{300}€\u{ffff}😀\u{10ffff}\u{feff}\u{202e}".chars()).collect();
            for c in chars {
                v.push(c.to_string());
            }
            "one character"
        }
        1 => {
            for a in (1..0x80u8).step_by(1) {
                for b in "1z0lO2 é/=,".chars() {
                    v.push(format!("{}{}", a as char, b));
                    v.push(format!("{}{}", b, a as char));
                }
            }
            "two characters"
        }
        2 => {
            for n in 0..=300 {
                for c in "1z2A0é".chars() {
                    v.push(c.to_string().repeat(n));
                }
            }
            "repeated characters"
        }
        3 => {
            for n in [301usize, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2900, 4096, 5000, 10000, 20000] {
                for c in "1zA0é".chars() {
                    v.push(c.to_string().repeat(n));
                    v.push(format!("{}{}", c.to_string().repeat(n), Addr::Pkh(B).text()));
                    v.push(format!("{}{}", Addr::Pkh(B).text(), c.to_string().repeat(n)));
                }
            }
            "long strings"
        }
        4 => {
            // Base58Check of long and short contents
            for n in 0..400 {
                v.push(enc58(&vec![0xff; n]));
                v.push(check58(&vec![0xab; n]));
            }
            "Base58Check of every length"
        }
        _ => {
            let a = Addr::Pkh(B).text();
            let b = Addr::Sh(B).text();
            for s in [
                "balance", "utxos", "addresses", "null", "true", "0", "-1", "1e9", "NaN", "[]", "{}", "{address}", "..", ".", "%", "%00", "%31", "a%", "../../etc/passwd", "' OR 1=1", "<script>", "\\u0031", "\u{0}", "\u{0}\u{0}",
                "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4", "tb1qw508d6qejxtdg4y5r3zarvary0c5xw7kxpjzsx", "mipcBbFg9gMiCh81Kj8tqqdgoZub1ZJRfn", "2MzQwSSnBHWHqSAqtTVQ6v47XtaisrJa1Vc", "5Hwgr3u458GLafKBgxtssHSPqJnYoGrSzgQsPwLFhLNYskDPyyA",
                "0x1122334411223344112233441122334411223344",
            ] {
                v.push(s.to_string());
            }
            for sep in [",", ";", " ", "\n", "&", "/", "%2C", "|"] {
                v.push(format!("{}{}{}", a, sep, b));
                v.push(format!("{}{}", a, sep));
                v.push(format!("{}{}", sep, a));
            }
            "odd strings"
        }
    };
    (name.to_string(), v)
}

fn strings(targets: usize, th: bool) {
    let wilds = rt::free(2, "unrelated strings") == 1;
    let (text, v) = if wilds {
        wild(rt::free(6, "kind of strings"))
    } else {
        let k = rt::free(if th { 8 } else { 7 }, "kind of change");
        family(k, rt::free(if k == 7 { 4 } else { targets }, "address"))
    };
    let size = 300;
    let part = rt::free(v.len().div_ceil(size), "part");
    rt::shard_point();
    let (w, l) = world();
    for (i, s) in v.iter().enumerate().skip(part * size).take(size) {
        judge(&w, &l, s, i);
        if i % 16 == 0 {
            among(&w, s);
        }
    }
    w.must_live("queries");
    rt::outcome(rt::hash64(format!("{} {}", text, part).as_bytes()));
    rt::sample(3, || format!("{}, part {}", text, part));
}

/// All known addresses, in every form, one by one and together.
fn valid() {
    let (w, l) = world();
    let all = known();
    for (i, a) in all.iter().enumerate() {
        judge(&w, &l, &a.text(), i);
        judge(&w, &l, &a.text(), i + 1);
        judge(&w, &l, &a.text(), i + 2);
        judge(&w, &l, &a.text(), i + 3);
    }
    w.check_all(&all, 0, "all addresses");
    // as many again that have nothing
    for i in 0..500u32 {
        let h: [u8; 20] = sha256d(&i.to_le_bytes())[..20].try_into().unwrap();
        judge(&w, &l, &Addr::Pkh(h).text(), i as usize);
        judge(&w, &l, &Addr::Sh(h).text(), i as usize);
    }
    w.must_live("queries");
}

pub fn check() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "around addresses of both kinds: every character replaced by every other, by characters outside the alphabet, inserted, removed, swapped; every version, payload length, wrong checksum byte and flipped bit; unrelated strings of many lengths; each as a path segment, a query parameter and a list element where the syntax allows; the oracle is an independent Base58Check decoder. Counted by family and part; the number of strings is under counters",
        assumptions: &["percent-encoding is not interpreted by the routes, so such strings are not addresses"],
        spaces: |th| vec![Space::new("valid addresses", 0, valid).small(), Space::new("strings", 0, move || strings(if th { 56 } else { 24 }, th)).split(64, 0)],
    }
}
