//! Text codecs are exact inverses and never fail on bad input.
use crate::runner::{Check, Space};
use crate::world::*;

fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

#[cfg(feature = "codecs")]
mod direct {
    use super::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub struct Codec {
        pub name: &'static str,
        enc: fn(&[u8]) -> String,
        enc_into: Option<fn(&[u8], &mut [u8]) -> Result<usize, String>>,
        dec: fn(&[u8]) -> Result<Vec<u8>, String>,
        dec_into: fn(&[u8], &mut [u8]) -> Result<usize, String>,
        oracle_enc: fn(&[u8]) -> String,
        /// What a text means; None: nothing.
        oracle_dec: fn(&[u8]) -> Option<Vec<u8>>,
        /// Room a decoder may need beyond the result.
        slack: usize,
        pub digits: &'static str,
        pub heavy: bool,
    }

    fn e2s(e: impl std::fmt::Display + std::fmt::Debug) -> String {
        format!("{}", e)
    }
    fn dec_hex(s: &[u8]) -> Option<Vec<u8>> {
        if s.len() % 2 != 0 {
            return None;
        }
        s.chunks(2).map(|p| Some((p[0] as char).to_digit(16)? as u8 * 16 + (p[1] as char).to_digit(16)? as u8)).collect()
    }
    fn dec_rhex(s: &[u8]) -> Option<Vec<u8>> {
        let mut v = dec_hex(s)?;
        v.reverse();
        Some(v)
    }
    fn enc_rhex(b: &[u8]) -> String {
        let mut v = b.to_vec();
        v.reverse();
        hex(&v)
    }
    fn d58(s: &[u8]) -> Option<Vec<u8>> {
        dec58(std::str::from_utf8(s).ok()?)
    }
    fn dcheck(s: &[u8]) -> Option<Vec<u8>> {
        let v = d58(s)?;
        if v.len() < 4 || sha256d(&v[..v.len() - 4])[..4] != v[v.len() - 4..] {
            return None;
        }
        Some(v[..v.len() - 4].to_vec())
    }
    fn d64(s: &[u8]) -> Option<Vec<u8>> {
        let end = s.iter().rposition(|c| *c != b'=').map_or(0, |i| i + 1);
        let mut v = Vec::new();
        let (mut acc, mut bits) = (0u32, 0);
        for c in &s[..end] {
            let x = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            acc = acc << 6 | x as u32;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                v.push((acc >> bits) as u8);
                acc &= (1 << bits) - 1;
            }
        }
        if bits >= 6 || acc != 0 {
            return None;
        }
        Some(v)
    }

    macro_rules! dec_fns {
        ($m:ident) => {
            (
                |b: &[u8]| sut::$m::encode(b),
                |s: &[u8]| sut::$m::decode(s).map_err(e2s),
                |s: &[u8], mut o: &mut [u8]| sut::$m::decode_into(s, &mut o).map_err(e2s),
            )
        };
    }

    pub fn codecs() -> Vec<Codec> {
        let (he, hd, hi) = dec_fns!(hex);
        let (re, rd, ri) = dec_fns!(reverse_hex);
        let (fe, fd, fi) = dec_fns!(base58);
        let (ce, cd, ci) = dec_fns!(base58_check);
        let (se, sd, si) = dec_fns!(base64);
        const H: &str = "0123456789abcdefABCDEF";
        const F: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
        const S: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
        vec![
            Codec { name: "hex", enc: he, enc_into: None, dec: hd, dec_into: hi, oracle_enc: hex, oracle_dec: dec_hex, slack: 0, digits: H, heavy: false },
            Codec { name: "reverse hex", enc: re, enc_into: None, dec: rd, dec_into: ri, oracle_enc: enc_rhex, oracle_dec: dec_rhex, slack: 0, digits: H, heavy: false },
            Codec {
                name: "base58",
                enc: fe,
                enc_into: Some(|b, mut o| sut::base58::encode_into(b, &mut o).map_err(|e| format!("{:?}", e))),
                dec: fd,
                dec_into: fi,
                oracle_enc: enc58,
                oracle_dec: d58,
                slack: 0,
                digits: F,
                heavy: false,
            },
            Codec {
                name: "base58check",
                enc: ce,
                enc_into: Some(|b, mut o| sut::base58_check::encode_into(b, &mut o).map_err(|e| format!("{:?}", e))),
                dec: cd,
                dec_into: ci,
                oracle_enc: check58,
                oracle_dec: dcheck,
                slack: 4,
                digits: F,
                heavy: true,
            },
            Codec {
                name: "base64",
                enc: se,
                enc_into: Some(|b, mut o| sut::base64::encode_into(b, &mut o).map_err(|e| format!("{:?}", e))),
                dec: sd,
                dec_into: si,
                oracle_enc: b64,
                oracle_dec: d64,
                slack: 0,
                digits: S,
                heavy: false,
            },
        ]
    }

    fn safe<T>(c: &Codec, what: &str, input: &[u8], f: impl FnOnce() -> T) -> T {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(_) => rt::fail(format!("{}: {} of {:?} panics: {}", c.name, what, String::from_utf8_lossy(input), rt::last_panic())),
        }
    }

    /// Texts: whatever a decoder takes must mean what it returns; canonical texts must be taken.
    pub fn text(c: &Codec, s: &[u8], buffers: bool) {
        let means = (c.oracle_dec)(s);
        let must = means.as_ref().map_or(false, |b| (c.oracle_enc)(b).as_bytes() == s);
        let judge = |what: &str, got: &Result<Vec<u8>, String>, must: bool| match (got, &means) {
            (Ok(v), Some(m)) if v == m => {}
            (Err(_), _) if !must => {}
            _ => rt::fail(format!("{}: {} of {:?} gives {:?}, expected {:?}", c.name, what, String::from_utf8_lossy(s), got, means)),
        };
        judge("decode", &safe(c, "decode", s, || (c.dec)(s)), must);
        if buffers {
            let need = means.as_ref().map_or(s.len(), |m| m.len());
            for size in 0..=need + c.slack + 3 {
                let mut o = vec![0xaa; size];
                let r = safe(c, "decode_into", s, || (c.dec_into)(s, &mut o));
                let r = match r {
                    Ok(n) if n <= size => Ok(o[..n].to_vec()),
                    Ok(n) => rt::fail(format!("{}: decode_into of {:?} into {} bytes returns {}", c.name, String::from_utf8_lossy(s), size, n)),
                    Err(e) => Err(e),
                };
                judge(&format!("decode_into {} bytes", size), &r, must && size >= need + c.slack);
            }
        }
        rt::count(c.name, 1);
    }

    pub fn bytes(c: &Codec, b: &[u8], buffers: bool) {
        let want = (c.oracle_enc)(b);
        let got = safe(c, "encode", b, || (c.enc)(b));
        if got != want {
            rt::fail(format!("{}: encode of {} gives {:?}, expected {:?}", c.name, hex(b), got, want));
        }
        match safe(c, "decode", want.as_bytes(), || (c.dec)(want.as_bytes())) {
            Ok(v) if v == b => {}
            r => rt::fail(format!("{}: decode of {:?} gives {:?}, expected {}", c.name, want, r, hex(b))),
        }
        if buffers {
            text(c, want.as_bytes(), true);
            if let Some(f) = c.enc_into {
                for size in 0..=want.len() + 3 {
                    for fill in [0xaau8, 0, b'1'] {
                        let mut o = vec![fill; size];
                        match safe(c, "encode_into", b, || f(b, &mut o)) {
                            Ok(n) if n <= size && o[..n] == *want.as_bytes() => {}
                            Err(_) if size < want.len() => {}
                            r => rt::fail(format!("{}: encode_into {} bytes of {} gives {:?} {:?}, expected {:?}", c.name, size, hex(b), r, String::from_utf8_lossy(&o), want)),
                        }
                    }
                }
            }
        }
        rt::count(c.name, 1);
    }

    fn patterns(len: usize) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let ramp = |k: usize| (0..k).map(|i| (i * 37 + k) as u8).collect::<Vec<u8>>();
        for k in 0..=len {
            for fill in [0xffu8, 0x01, 0x80] {
                let mut b = vec![0; k];
                b.extend(vec![fill; len - k]);
                v.push(b);
                let mut b = vec![fill; k];
                b.extend(vec![0; len - k]);
                v.push(b);
            }
            let mut b = vec![0; k];
            b.extend(ramp(len - k));
            v.push(b);
        }
        for i in 0..len {
            for x in [1u8, 0x39, 0x3a, 0x7f, 0x80, 0xff] {
                let mut b = vec![0; len];
                b[i] = x;
                v.push(b);
            }
        }
        v
    }

    pub fn short_bytes(th: bool) {
        let all = codecs();
        let c = &all[rt::free(all.len(), "codec")];
        let first = rt::free(257, "first byte");
        rt::shard_point();
        if first == 256 {
            bytes(c, &[], true);
            return;
        }
        let a = first as u8;
        bytes(c, &[a], true);
        let three = if th { true } else { [0, 1, 57, 58, 127, 128, 255].contains(&first) && !c.heavy };
        for b in 0..=255u8 {
            bytes(c, &[a, b], b % 8 == 0 || b == 255);
            if three {
                for d in 0..=255u8 {
                    bytes(c, &[a, b, d], false);
                }
            }
        }
        rt::outcome(rt::hash64(format!("{} {}", c.name, first).as_bytes()));
    }

    pub fn long_bytes(max: usize) {
        let all = codecs();
        let c = &all[rt::free(all.len(), "codec")];
        let len = 3 + rt::free(max - 2, "length - 3");
        rt::shard_point();
        for (i, b) in patterns(len).iter().enumerate() {
            bytes(c, b, len < 12 || i % 41 == 0);
        }
        rt::outcome(rt::hash64(format!("{} {}", c.name, len).as_bytes()));
    }

    pub fn short_texts(th: bool) {
        let all = codecs();
        let c = &all[rt::free(all.len(), "codec")];
        let first = rt::free(256, "first byte");
        rt::shard_point();
        let a = first as u8;
        text(c, &[a], true);
        let good = c.digits.as_bytes();
        let mut set: Vec<u8> = good.to_vec();
        set.extend(b"0OIl+/=-_ \n\x00\x7f\x80\xff");
        set.sort();
        set.dedup();
        let few: Vec<u8> = [&good[..3], &good[good.len() - 3..], b"=01zA/+ \x80"].concat();
        for b in 0..=255u8 {
            text(c, &[a, b], b % 16 == 1);
            if th || set.contains(&a) && set.contains(&b) {
                let third: Vec<u8> = if th { (0..=255).collect() } else { set.clone() };
                for d in third {
                    text(c, &[a, b, d], false);
                }
            }
            if few.contains(&a) && few.contains(&b) {
                for d in &few {
                    for e in if th { &set } else { &few } {
                        text(c, &[a, b, *d, *e], false);
                        for f in &few {
                            text(c, &[a, b, *d, *e, *f], false);
                        }
                    }
                }
            }
        }
        rt::outcome(rt::hash64(format!("{} {}", c.name, first).as_bytes()));
    }

    /// Around valid texts: every character replaced by every byte, removed, doubled; cut at each place.
    pub fn damaged_texts(th: bool) {
        let all = codecs();
        let c = &all[rt::free(all.len(), "codec")];
        let lens = if th { 34 } else { 26 };
        let len = rt::free(lens, "length");
        rt::shard_point();
        for b in patterns(len).iter().step_by(if th { 1 } else { 7 }) {
            let s = (c.oracle_enc)(b).into_bytes();
            for i in 0..s.len() {
                for x in 0..=255u8 {
                    let mut t = s.clone();
                    t[i] = x;
                    text(c, &t, false);
                }
                let mut t = s.clone();
                t.remove(i);
                text(c, &t, i % 5 == 0);
                let mut t = s.clone();
                t.insert(i, s[i]);
                text(c, &t, i % 5 == 0);
                text(c, &s[..i], false);
                text(c, &s[i..], false);
            }
            for tail in [&b"="[..], b"==", b"===", b"====", b"=A", b" ", b"\n", b"1", b"0", b"A", b"AA", b"\0"] {
                text(c, &[&s[..], tail].concat(), false);
                text(c, &[tail, &s[..]].concat(), false);
            }
        }
        rt::outcome(rt::hash64(format!("{} {}", c.name, len).as_bytes()));
    }
}

/// Seen from outside: the credentials in base64, ids in reversed hex, raw data in hex, addresses.
fn outside() {
    let n = rt::free(40, "length of the password");
    let kind = rt::free(6, "characters");
    let w = W::new(Cfg { conf: 1, ..Cfg::default() });
    w.seed(3);
    w.write_block_files();
    let pass: String = match kind {
        0 => "a".repeat(n),
        1 => (0..n).map(|i| (b'!' + (i * 7 % 90) as u8) as char).collect(),
        2 => "é".repeat(n),
        3 => "ÿ\u{7ff}\u{ffff}".chars().cycle().take(n).collect(),
        4 => (0..n).map(|i| if i % 2 == 0 { '~' } else { '?' }).collect(),
        _ => format!("{}:{}", "p".repeat(n / 2), ">".repeat(n - n / 2)),
    };
    let user = ["", "u", "us", "user", "ÿÿ", "?>~"][(n + kind) % 6];
    w.env.borrow_mut().push(("RPC_SERVER_USER".into(), Some(user.into())));
    w.env.borrow_mut().push(("RPC_SERVER_PASSWORD".into(), Some(pass.clone().into())));
    w.node().auth = format!("Basic {}", b64(format!("{}:{}", user, pass).as_bytes()));
    w.launch();
    rt::quiesce();
    let bad = w.node().bad_calls.first().cloned();
    if let Some(b) = bad {
        rt::fail(format!("user {:?}, password {:?}: the node got {}", user, pass, b));
    }
    w.must_live("start-up");
    let a = crate::wallet::addrs();
    w.submit(1, n as u64);
    w.mine(2, kind as u64);
    w.tick();
    w.check_all(&a, n, "credentials");
    rt::outcome(rt::hash64(pass.as_bytes()));
    rt::sample(2, || format!("user {:?}, password {:?}", user, pass));
}

pub fn check() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        rule: "all byte strings of up to 2 bytes (and 3: thorough, or for some first bytes), structured ones to 80 bytes; all texts of up to 2 bytes (3: over the digits and their neighbours; thorough: all), 4 and 5 over a few, and every one-character damage of valid texts; with buffers of every size up to three bytes too large; against independent codecs. Inputs are counted per codec",
        assumptions: &["lenient decoding of upper-case hex and of missing or surplus base64 padding is accepted as long as the value is right"],
        spaces: |th| {
            let v = vec![Space::new("credentials sent to the node", 0, outside).split(16, 2)];
            #[cfg(feature = "codecs")]
            {
                v.push(Space::new("short byte strings", 0, move || direct::short_bytes(th)).split(64, 0));
                v.push(Space::new("structured byte strings", 0, move || direct::long_bytes(if th { 130 } else { 80 })).split(64, 0));
                v.push(Space::new("short texts", 0, move || direct::short_texts(th)).split(64, 0));
                v.push(Space::new("damaged texts", 0, move || direct::damaged_texts(th)).split(64, 0));
            }
            let _ = th;
            v
        },
    }
}
