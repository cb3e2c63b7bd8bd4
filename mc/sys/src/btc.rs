//! Bitcoin's wire format, written independently of the program under test.
use sha2::{Digest, Sha256};
use std::rc::Rc;

pub type H = [u8; 32];

pub fn sha256d(b: &[u8]) -> H {
    let a = Sha256::digest(b);
    let b = Sha256::digest(&a);
    let mut h = [0; 32];
    h.copy_from_slice(&b);
    h
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn rhex(h: &H) -> String {
    let mut v = h.to_vec();
    v.reverse();
    hex(&v)
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.as_bytes();
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2).map(|c| Some(((c[0] as char).to_digit(16)? * 16 + (c[1] as char).to_digit(16)?) as u8)).collect()
}

pub fn unrhex(s: &str) -> Option<H> {
    let mut v = unhex(s)?;
    v.reverse();
    v.try_into().ok()
}

pub fn varint(v: &mut Vec<u8>, n: u64) {
    if n < 0xfd {
        v.push(n as u8);
    } else if n <= 0xffff {
        v.push(0xfd);
        v.extend_from_slice(&(n as u16).to_le_bytes());
    } else if n <= 0xffff_ffff {
        v.push(0xfe);
        v.extend_from_slice(&(n as u32).to_le_bytes());
    } else {
        v.push(0xff);
        v.extend_from_slice(&n.to_le_bytes());
    }
}

#[derive(Clone, Debug)]
pub struct In {
    pub txid: H,
    pub vout: u32,
    pub script: Vec<u8>,
    pub seq: u32,
    pub witness: Vec<Vec<u8>>,
}

impl In {
    pub fn new(txid: H, vout: u32) -> In {
        In { txid, vout, script: vec![0x51], seq: 0xffff_fffe, witness: Vec::new() }
    }
    pub fn coinbase(tag: &[u8]) -> In {
        In { txid: [0; 32], vout: u32::MAX, script: tag.to_vec(), seq: 0xffff_ffff, witness: Vec::new() }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub value: u64,
    pub script: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct TxData {
    pub version: i32,
    pub ins: Vec<In>,
    pub outs: Vec<Out>,
    pub locktime: u32,
    pub segwit: bool,
}

impl TxData {
    pub fn new(ins: Vec<In>, outs: Vec<Out>) -> TxData {
        TxData { version: 1, ins, outs, locktime: 0, segwit: false }
    }
    pub fn ser(&self, witness: bool) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend_from_slice(&self.version.to_le_bytes());
        let w = witness && self.segwit;
        if w {
            v.extend_from_slice(&[0, 1]);
        }
        varint(&mut v, self.ins.len() as u64);
        for i in &self.ins {
            v.extend_from_slice(&i.txid);
            v.extend_from_slice(&i.vout.to_le_bytes());
            varint(&mut v, i.script.len() as u64);
            v.extend_from_slice(&i.script);
            v.extend_from_slice(&i.seq.to_le_bytes());
        }
        varint(&mut v, self.outs.len() as u64);
        for o in &self.outs {
            v.extend_from_slice(&o.value.to_le_bytes());
            varint(&mut v, o.script.len() as u64);
            v.extend_from_slice(&o.script);
        }
        if w {
            for i in &self.ins {
                varint(&mut v, i.witness.len() as u64);
                for x in &i.witness {
                    varint(&mut v, x.len() as u64);
                    v.extend_from_slice(x);
                }
            }
        }
        v.extend_from_slice(&self.locktime.to_le_bytes());
        v
    }
    pub fn seal(self) -> Tx {
        let id = sha256d(&self.ser(false));
        let raw = self.ser(true);
        Rc::new(TxFull { d: self, id, raw })
    }
}

#[derive(Debug)]
pub struct TxFull {
    pub d: TxData,
    pub id: H,
    pub raw: Vec<u8>,
}
pub type Tx = Rc<TxFull>;

impl TxFull {
    pub fn is_coinbase(&self) -> bool {
        self.d.ins.len() == 1 && self.d.ins[0].txid == [0; 32] && self.d.ins[0].vout == u32::MAX
    }
}

pub fn tx(ins: Vec<In>, outs: Vec<Out>) -> Tx {
    TxData::new(ins, outs).seal()
}

pub fn coinbase(tag: u64, outs: Vec<Out>) -> Tx {
    let mut script = vec![8];
    script.extend_from_slice(&tag.to_le_bytes());
    tx(vec![In::coinbase(&script)], outs)
}

#[derive(Debug)]
pub struct BlockData {
    pub prev: H,
    pub hash: H,
    pub txs: Vec<Tx>,
    pub raw: Vec<u8>,
}
pub type Block = Rc<BlockData>;

pub fn block(prev: H, nonce: u32, txs: Vec<Tx>) -> Block {
    block_full(prev, 4, 1_600_000_000 + nonce, nonce, txs)
}

pub fn block_full(prev: H, version: i32, time: u32, nonce: u32, txs: Vec<Tx>) -> Block {
    let mut m: Vec<H> = txs.iter().map(|t| t.id).collect();
    while m.len() > 1 {
        m = m
            .chunks(2)
            .map(|c| {
                let mut v = c[0].to_vec();
                v.extend_from_slice(&c[c.len() - 1]);
                sha256d(&v)
            })
            .collect();
    }
    let mut raw = Vec::new();
    raw.extend_from_slice(&version.to_le_bytes());
    raw.extend_from_slice(&prev);
    raw.extend_from_slice(&m.first().copied().unwrap_or([0; 32]));
    raw.extend_from_slice(&time.to_le_bytes());
    raw.extend_from_slice(&0x207fffffu32.to_le_bytes());
    raw.extend_from_slice(&nonce.to_le_bytes());
    let hash = sha256d(&raw);
    varint(&mut raw, txs.len() as u64);
    for t in &txs {
        raw.extend_from_slice(&t.raw);
    }
    Rc::new(BlockData { prev, hash, txs, raw })
}

/// A record of a block file.
pub fn record(b: &BlockData) -> Vec<u8> {
    let mut v = vec![0xf9, 0xbe, 0xb4, 0xd9];
    v.extend_from_slice(&(b.raw.len() as u32).to_le_bytes());
    v.extend_from_slice(&b.raw);
    v
}

// ------------------------------------------------------------ addresses

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Addr {
    Pkh([u8; 20]),
    Sh([u8; 20]),
}

impl Addr {
    pub fn script(&self) -> Vec<u8> {
        match self {
            Addr::Pkh(h) => [&[0x76, 0xa9, 0x14][..], h, &[0x88, 0xac]].concat(),
            Addr::Sh(h) => [&[0xa9, 0x14][..], h, &[0x87]].concat(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Addr::Pkh(h) => check58(&[&[0][..], h].concat()),
            Addr::Sh(h) => check58(&[&[5][..], h].concat()),
        }
    }
    /// The address a script pays to, by the exact templates.
    pub fn of_script(s: &[u8]) -> Option<Addr> {
        if s.len() == 25 && s[..3] == [0x76, 0xa9, 0x14] && s[23..] == [0x88, 0xac] {
            return Some(Addr::Pkh(s[3..23].try_into().unwrap()));
        }
        if s.len() == 23 && s[..2] == [0xa9, 0x14] && s[22] == 0x87 {
            return Some(Addr::Sh(s[2..22].try_into().unwrap()));
        }
        None
    }
}

pub const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn enc58(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|&&x| x == 0).count();
    let mut digits: Vec<u8> = Vec::new();
    for &x in b {
        let mut c = x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s = "1".repeat(zeros);
    s.extend(digits.iter().rev().map(|&d| B58[d as usize] as char));
    s
}

pub fn dec58(s: &str) -> Option<Vec<u8>> {
    let mut n: Vec<u8> = Vec::new();
    let zeros = s.bytes().take_while(|&c| c == b'1').count();
    for c in s.bytes() {
        let mut c = B58.iter().position(|&x| x == c)? as u32;
        for d in n.iter_mut() {
            c += *d as u32 * 58;
            *d = c as u8;
            c >>= 8;
        }
        while c > 0 {
            n.push(c as u8);
            c >>= 8;
        }
    }
    n.extend(std::iter::repeat(0).take(zeros));
    n.reverse();
    Some(n)
}

pub fn check58(payload: &[u8]) -> String {
    let c = sha256d(payload);
    enc58(&[payload, &c[..4]].concat())
}

/// The address a string names, by definition.
pub fn parse_address(s: &str) -> Option<Addr> {
    let b = dec58(s)?;
    if b.len() != 25 || sha256d(&b[..21])[..4] != b[21..] {
        return None;
    }
    let h: [u8; 20] = b[1..21].try_into().unwrap();
    match b[0] {
        0 => Some(Addr::Pkh(h)),
        5 => Some(Addr::Sh(h)),
        _ => None,
    }
}
