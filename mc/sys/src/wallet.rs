//! Addresses and transaction programs that touch every corner of the stores.
use crate::btc::*;
use crate::model::Ledger;

const BASE: [u8; 20] = [0x11, 0x22, 0x33, 0x44, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 1, 2, 3, 4, 5, 6, 7, 8];

/// Same hash as both kinds; same bytes 4..12 (they collide in the address map); leading zeros; plain; the last
/// two are never paid.
pub fn addrs() -> Vec<Addr> {
    let mut near = BASE;
    near[19] = 0x77;
    near[0] = 0;
    let mut far = BASE;
    far[0] = 0xff;
    far[1] = 0xfe;
    far[12] = 0xfd;
    far[19] = 0;
    let mut zero = [0u8; 20];
    zero[19] = 9;
    vec![Addr::Pkh(BASE), Addr::Sh(BASE), Addr::Pkh(near), Addr::Sh(zero), Addr::Pkh([0xfe; 20]), Addr::Sh(near), Addr::Pkh(far)]
}

pub fn pay(a: Addr, value: u64) -> Out {
    Out { value, script: a.script() }
}
pub fn op_return(value: u64) -> Out {
    Out { value, script: vec![0x6a, 4, 1, 2, 3, 4] }
}
/// A script without an address (segwit v0 key hash).
pub fn other(value: u64) -> Out {
    Out { value, script: [&[0x00, 0x14][..], &BASE].concat() }
}
pub fn spend(l: &[((H, u32), Out)]) -> Vec<In> {
    l.iter().map(|((h, n), _)| In::new(*h, *n)).collect()
}

/// Unspent outputs of a ledger in a stable, creation-independent order.
pub fn coins(l: &Ledger, f: impl Fn(&Out) -> bool) -> Vec<((H, u32), Out)> {
    l.utxo.iter().filter(|(_, o)| f(o)).map(|(k, o)| (*k, o.clone())).collect()
}

pub const RICH: usize = 4;

/// Transactions of a block by template, on top of a ledger.
pub fn program(template: usize, l: &Ledger, salt: u64) -> Vec<Tx> {
    let a = addrs();
    let std = coins(l, |o| Addr::of_script(&o.script).is_some() && o.value >= 1000);
    let odd = coins(l, |o| Addr::of_script(&o.script).is_none());
    let k = salt as usize;
    match template {
        // coinbase only
        0 => vec![],
        // move the first coin: change back, data carrier, output without address
        1 => match std.first() {
            Some(c) => {
                let from = Addr::of_script(&c.1.script).unwrap();
                let v = c.1.value;
                vec![tx(
                    spend(&[c.clone()]),
                    vec![pay(a[(k + 1) % 5], v / 3), op_return(0), pay(from, v / 3), other(v / 10), pay(a[k % 5], 0)],
                )]
            }
            None => vec![],
        },
        // spend inside the block, together with an output without address
        2 => match std.last() {
            Some(c) => {
                let v = c.1.value;
                let t1 = tx(spend(&[c.clone()]), vec![pay(a[(k + 2) % 5], v / 2), pay(a[(k + 3) % 5], v / 4), op_return(5)]);
                let mut ins = vec![In::new(t1.id, 0)];
                if let Some(o) = odd.first() {
                    ins.push(In::new(o.0 .0, o.0 .1));
                }
                let t2 = tx(ins, vec![pay(a[(k + 3) % 5], v / 2 + salt), pay(a[(k + 3) % 5], 7)]);
                vec![t1, t2]
            }
            None => vec![],
        },
        // sweep everything one address has
        _ => {
            let x = a[k % 5];
            let all = coins(l, |o| o.script == x.script());
            if all.is_empty() {
                return vec![];
            }
            let sum: u64 = all.iter().map(|c| c.1.value).sum();
            vec![tx(spend(&all), vec![pay(a[(k + 4) % 5], sum)])]
        }
    }
}

/// Output of a coinbase at a height: large values, both kinds.
pub fn reward(height: usize) -> Vec<Out> {
    let a = addrs();
    vec![pay(a[height % 5], 5_000_000_000 + height as u64), pay(a[(height + 2) % 5], 1 + height as u64)]
}
