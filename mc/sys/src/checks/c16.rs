//! Blocks and transactions are decoded exactly.
use crate::btc::*;
use crate::runner::{Check, Space};
use crate::wallet::{self, op_return, pay};
use crate::world::*;

fn pick<T: Copy>(menu: &[T], what: &str) -> T {
    menu[rt::dev(menu.len(), what)]
}

fn listed(i: usize) -> bool {
    i < 6 || (250..258).contains(&i) || i >= 65534
}

/// An output that no address lists, to keep the answers short.
fn bare(i: usize) -> Out {
    Out { value: i as u64, script: vec![0x51] }
}

/// Where the block or transaction is read from.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Route {
    Files,
    Rpc,
    Mempool,
}

fn shapes(route: Route, big: bool) {
    let a = wallet::addrs();
    let lens: &[usize] = &[1, 0, 2, 75, 76, 107, 127, 128, 252, 253, 254, 255, 256, 65535, 65536, 70000];
    let counts: &[usize] = if big { &[3, 1, 2, 251, 252, 253, 254, 255, 256, 257, 65535, 65536, 65537] } else { &[3, 1, 2, 251, 252, 253, 254, 255, 256, 257, 65535, 65536] };
    let version = pick(&[1, 2, 0, 3, -1, i32::MIN, i32::MAX, 0x100, 0x01000000, 0x00010000], "version");
    let locktime = pick(&[0, 1, 499_999_999, 1_600_000_000, u32::MAX, 0x0100], "lock time");
    let seq = pick(&[u32::MAX - 1, 0, u32::MAX, 1], "sequence");
    let n_in = pick(&[2, 1, 3, 252, 253, 254, 256, 300], "inputs");
    let n_out = pick(counts, "outputs");
    let in_len = pick(lens, "input script length");
    let all_in = pick(&[false, true], "same script in all inputs");
    let out_len = pick(&[22usize, 0, 1, 2, 25, 75, 76, 252, 253, 254, 255, 256, 65535, 65536, 70000], "output script length");
    let segwit = pick(&[0, 1, 2, 3], "witness: none, all inputs, all but the first, only the first");
    let items = pick(&[2usize, 1, 3, 252, 253, 256], "witness items");
    let item_len = pick(&[72usize, 0, 1, 33, 252, 253, 254, 255, 256, 65535, 65536], "witness item length");
    let value = pick(&[1000u64, 0, 1, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, 100_000_000, 2_099_999_999_999_999, 2_100_000_000_000_000], "value");
    let spent = pick(&[0usize, 1, 2, 251, 252, 253, 255, 256, 257, 300, 65535, 65536], "index of the spent output");
    let cb = pick(&[0, 1, 2, 3], "coinbase: legacy, with witness, long script, many outputs");
    let extra = pick(&[1usize, 0, 2, 248, 249, 250, 251, 252, 300], "other transactions in the block");
    let last = pick(&[false, true], "the transaction comes last");
    let head = pick(&[0, 1, 2, 3], "block header");
    rt::shard_point();
    let mut d: Vec<String> = Vec::new();
    for (k, v) in [
        ("version", version.to_string()),
        ("lock time", locktime.to_string()),
        ("sequence", seq.to_string()),
        ("inputs", n_in.to_string()),
        ("outputs", n_out.to_string()),
        ("input script", in_len.to_string()),
        ("output script", out_len.to_string()),
        ("witness", format!("{}/{}/{}", segwit, items, item_len)),
        ("value", value.to_string()),
        ("spent", spent.to_string()),
        ("coinbase", cb.to_string()),
        ("others", extra.to_string()),
        ("header", head.to_string()),
    ] {
        d.push(format!("{} {}", k, v));
    }
    let text = format!("{:?}: {}", route, d.join(", "));

    let w = W::new(Cfg { conf: 1, threads: 1, batch: 10, interval: 1000 });
    // the coins to be spent
    let need = n_in.max(spent + 1);
    let funding = (0..need).map(|i| if listed(i) || i == spent { pay(a[i % 3], 10_000 + i as u64) } else { bare(i) }).collect();
    let b0 = w.node().mine(vec![], funding);
    let b1 = w.node().mine(vec![], vec![pay(a[4], 5_000_000)]);
    let fund = b0.txs[0].id;

    let mut ins: Vec<In> = (0..n_in).map(|i| In::new(fund, i as u32)).collect();
    if spent >= n_in {
        ins[n_in - 1].vout = spent as u32;
    } else {
        ins.swap(0, spent.min(n_in - 1));
    }
    for (i, x) in ins.iter_mut().enumerate() {
        x.seq = seq;
        x.script = if i == 0 || all_in { (0..in_len).map(|k| (k * 7 + 1) as u8).collect() } else { vec![0x00] };
        let has = match segwit {
            0 => false,
            1 => true,
            2 => i != 0,
            _ => i == 0,
        };
        if has {
            x.witness = (0..items).map(|k| if k == 0 { (0..item_len).map(|j| (j * 3) as u8).collect() } else { vec![k as u8; 1 + k % 3] }).collect();
        }
    }
    let outs: Vec<Out> = (0..n_out)
        .map(|i| match i {
            1 => Out { value: value ^ 1, script: (0..out_len).map(|k| if k == 0 { 0x51 } else { (k * 5) as u8 }).collect() },
            0 => pay(a[3], value),
            _ if !listed(i) && i + 1 != n_out => bare(i),
            _ => pay(a[i % 5], if i + 1 == n_out { value } else { i as u64 }),
        })
        .collect();
    let t = TxData { version, ins, outs, locktime, segwit: segwit != 0 && (segwit != 2 || n_in > 1) }.seal();
    // the follow-up spends the first and the last output
    let mut fi = vec![In::new(t.id, 0)];
    if n_out > 2 {
        fi.push(In::new(t.id, n_out as u32 - 1));
    }
    let f = tx(fi, vec![pay(a[4], 1234), op_return(0)]);
    // unrelated ones, each spending the one before
    let mut others = Vec::new();
    let mut from = (b1.txs[0].id, 0);
    for i in 0..extra {
        let mut x = TxData::new(vec![In::new(from.0, from.1)], vec![pay(a[i % 5], 5_000_000 - i as u64)]);
        if i % 3 == 1 {
            x.segwit = true;
            x.ins[0].witness = vec![vec![1; 64], vec![]];
        }
        let x = x.seal();
        from = (x.id, 0);
        others.push(x);
    }
    let mut txs = Vec::new();
    if last {
        txs.extend(others.iter().cloned());
        txs.push(t.clone());
    } else {
        txs.push(t.clone());
        txs.push(f.clone());
        txs.extend(others.iter().cloned());
    }
    let with_head = |prev: H, txs: Vec<Tx>| -> Block {
        let mut cbt = TxData::new(vec![In::coinbase(&[3, 1, 2, 3, head as u8])], vec![pay(a[2], 50), op_return(0)]);
        match cb {
            1 => {
                cbt.segwit = true;
                cbt.ins[0].witness = vec![vec![0; 32]];
                cbt.outs.push(Out { value: 0, script: [&[0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed][..], &[7; 32]].concat() });
            }
            2 => cbt.ins[0].script = vec![0x55; 100],
            3 => cbt.outs.extend((0..300).map(|i| pay(a[i % 5], i as u64))),
            _ => {}
        }
        let mut all = vec![cbt.seal()];
        all.extend(txs);
        match head {
            0 => block_full(prev, 4, 1_600_000_000, 7, all),
            1 => block_full(prev, -1, u32::MAX, u32::MAX, all),
            2 => block_full(prev, 0x2000_0000, 0, 0, all),
            _ => block_full(prev, 1, 1 << 31, 0x0000_0100, all),
        }
    };
    match route {
        Route::Files => {
            let b = with_head(w.node().tip(), txs);
            w.node().push(b);
            w.write_block_files();
            w.start();
            w.check_all(&a, 0, &text);
        }
        Route::Rpc => {
            w.write_block_files();
            w.start();
            let b = with_head(w.node().tip(), txs);
            w.node().push(b);
            w.tick();
            w.check_all(&a, 0, &text);
        }
        Route::Mempool => {
            w.write_block_files();
            w.start();
            w.node().mempool = txs.clone();
            w.node().mark();
            w.tick();
            w.check_depth(0, &a, &w.node().expect(0).clone(), 0, &text);
            let b = with_head(w.node().tip(), txs);
            w.node().push(b);
            w.tick();
            w.check_all(&a, 1, &format!("{}, mined", text));
        }
    }
    // what is left is spent in the next block
    let rest: Vec<In> = (1..n_out.min(260)).filter(|i| last || *i + 1 != n_out || n_out <= 2).map(|i| In::new(t.id, i as u32)).collect();
    let tip = w.node().tip();
    let spare = w.node().blocks[&tip].txs[0].id;
    let mut next = vec![tx(if rest.is_empty() { vec![In::new(spare, 0)] } else { rest }, vec![pay(a[0], 4321)])];
    if last {
        next.push(tx(vec![In::new(t.id, 0)], vec![pay(a[1], 9)]));
    }
    w.node().mine(next, vec![pay(a[1], 5)]);
    w.tick();
    w.check_all(&a, 2, &format!("{}, outputs spent", text));
    if n_out < 1000 && spent < 1000 {
        w.kill();
        w.start();
        w.check_all(&a, 3, &format!("{}, restarted", text));
    }
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(4, || text);
}

/// Blocks and transactions as large as there can be.
fn largest() {
    let route = [Route::Rpc, Route::Mempool, Route::Files][rt::free(3, "route")];
    let kind = rt::free(9, "what is large");
    let chunk = [0, 16_384][rt::free(2, "the node answers in one part, in many")];
    let a = wallet::addrs();
    let w = W::new(Cfg { conf: 1, threads: 1, batch: 10, interval: 1000 });
    w.node().chunk = chunk;
    let b0 = w.node().mine(vec![], (0..25_000).map(|i| if i % 500 == 0 { pay(a[i / 500 % 3], 10_000 + i as u64) } else { bare(i) }).collect());
    w.mine(0, 3);
    let fund = b0.txs[0].id;
    let mut d = TxData::new(vec![In::new(fund, 0)], vec![pay(a[3], 5), pay(a[4], 6)]);
    let mut crowd = 0;
    let text = match kind {
        0 => {
            d.segwit = true;
            d.ins[0].witness = vec![vec![7; 3_980_000]];
            "a witness item of 3980000 bytes"
        }
        1 => {
            d.segwit = true;
            d.ins[0].witness = (0..50_000).map(|i| vec![i as u8; 75]).collect();
            "50000 witness items"
        }
        2 => {
            d.ins[0].script = vec![0x51; 980_000];
            "an input script of 980000 bytes"
        }
        3 => {
            d.outs.insert(1, Out { value: 9, script: vec![0x51; 980_000] });
            "an output script of 980000 bytes"
        }
        4 => {
            d.ins = (0..23_000).map(|i| In::new(fund, i)).collect();
            "23000 inputs"
        }
        5 => {
            d.segwit = true;
            d.ins[0].witness = vec![vec![]; 70_000];
            "70000 empty witness items"
        }
        6 => {
            d.segwit = true;
            d.ins[0].witness = vec![vec![]; 65_536];
            "65536 empty witness items"
        }
        7 => {
            crowd = 12_000;
            "a block of 12000 transactions"
        }
        _ => {
            d.outs.extend((0..28_000).map(|i| pay(a[i % 5], i as u64)));
            "29000 outputs"
        }
    };
    let t = d.seal();
    let f = tx(vec![In::new(t.id, 0)], vec![pay(a[4], 1234)]);
    let mut all = vec![t.clone(), f.clone()];
    let mut last = f.id;
    for i in 0..crowd {
        let t = tx(vec![In::new(last, 0)], if i % 300 == 299 { vec![bare(i), pay(a[i / 300 % 5], 500)] } else { vec![bare(i)] });
        last = t.id;
        all.push(t);
    }
    let text = format!("{:?}: {}, parts of {}", route, text, chunk);
    if route != Route::Files {
        w.write_block_files();
        w.start();
    }
    if route == Route::Mempool {
        w.node().mempool = vec![t.clone(), f.clone()];
        w.node().mark();
        w.tick();
        w.check_all(&a, 0, &text);
    }
    w.node().mine(all, wallet::reward(2));
    if route == Route::Files {
        w.write_block_files();
        w.start();
    } else {
        w.tick();
    }
    w.check_all(&a, 1, &text);
    w.mine(2, 9);
    w.tick();
    w.check_all(&a, 2, &text);
    w.kill();
    w.start();
    w.check_all(&a, 3, &format!("{}, restarted", text));
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(4, || text);
}

pub fn check() -> Check {
    Check {
        id: "C16",
        level: "exploration",
        rule: "from a plain transaction, all combinations of up to 2 (thorough: 3) deviations in 18 parameters of the encoding (counts and lengths around 252/253/255/256/65535/65536, versions, lock times, sequences, witnesses, headers, place in the block), read from block files, from getblock and from the mempool; ids and offsets are judged by the listings, by spending the outputs and by linking the next block",
        assumptions: &["well-formed blocks and transactions with canonical length encodings, amounts up to 21 million"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("block files", d, move || shapes(Route::Files, th)).split(32, 0),
                Space::new("getblock", d, move || shapes(Route::Rpc, th)).split(32, 0),
                Space::new("getrawtransaction", d, move || shapes(Route::Mempool, th)).split(32, 0),
                Space::new("the largest", 0, largest).split(8, 3),
            ]
        },
    }
}
