//! Configuration is read faithfully or refused.
use super::c06::mutating;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::net::{IpAddr, SocketAddr};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::PathBuf;
use std::rc::Rc;
use vstd::fs::{Action, Event};

/// What may come of a value.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Class {
    Valid,
    Unusable,
    /// Either refused or taken for what it obviously means.
    Either,
    /// Only used while there is no stored index.
    UnusableForBuilding,
}
use Class::*;

#[derive(Clone, Debug)]
struct Value {
    text: Option<OsString>,
    class: Class,
}

const VARS: [&str; 12] = ["HOST", "PORT", "THREADS", "BATCH_SIZE", "STORE_FILE_PATH", "BLOCK_FILES_PATH", "CONFIRMATIONS", "UPDATE_INTERVAL", "RPC_SERVER_HOST", "RPC_SERVER_PORT", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"];

fn optional(var: &str) -> bool {
    matches!(var, "HOST" | "PORT" | "CONFIRMATIONS" | "UPDATE_INTERVAL")
}

fn menu(var: &str) -> Vec<Value> {
    let mut v = vec![Value { text: None, class: if optional(var) { Valid } else { Unusable } }];
    let mut add = |class: Class, list: &[&str]| v.extend(list.iter().map(|s| Value { text: Some(OsString::from(s)), class }));
    let no_number = ["", "abc", "-1", "1.5", "0x10", "1e3", "1_000", "1,000", "٣", "10 20", "99999999999999999999999", "18446744073709551616", "NaN", "8s"];
    match var {
        "HOST" => {
            add(Valid, &["127.0.0.1", "0.0.0.0", "192.168.1.5", "::1", "::", "::ffff:10.0.0.1"]);
            add(Unusable, &["", "256.0.0.1", "127.0.0", "127.0.0.1:80", "no host", "1:2:3", "http://127.0.0.1"]);
        }
        "PORT" | "RPC_SERVER_PORT" => {
            add(Valid, &["8000", "8332", "1", "80", "18443", "65535"]);
            add(Either, &["08001", " 8001", "8001\n"]);
            add(Unusable, &["65536", "4294967376"]);
            add(Unusable, &no_number);
        }
        "THREADS" => {
            add(Valid, &["1", "2", "6", "13"]);
            add(Either, &["003", " 3"]);
            add(Unusable, &no_number);
        }
        "BATCH_SIZE" => {
            add(Valid, &["1", "2", "7", "25000", "18446744073709551615"]);
            add(Either, &["003", "3 "]);
            add(Unusable, &["0"]);
            add(Unusable, &no_number);
        }
        "STORE_FILE_PATH" => {
            add(Valid, &["store.dat", "store", "a b.dat", "ünï/ストア.dat", "./x.dat", "sub/../sub/y.dat", ".hidden", "store.dat.tmp", "x,y=z"]);
            add(Unusable, &["", "sub", "sub/", "."]);
        }
        "BLOCK_FILES_PATH" => {
            add(Valid, &["files", "files/", "./files", "sub/a b", "ünï/ブロック", "sub/../files"]);
            add(UnusableForBuilding, &["", "nowhere", "store.dat"]);
        }
        "CONFIRMATIONS" => {
            add(Valid, &["1", "2", "3", "6", "7"]);
            add(Either, &["003", " 3"]);
            add(Unusable, &["0"]);
            add(Unusable, &no_number);
        }
        "UPDATE_INTERVAL" => {
            add(Valid, &["1", "250", "1000", "5000", "86400000", "4294967297"]);
            add(Either, &["0300", " 300", "18446744073709551615"]);
            add(Unusable, &no_number);
        }
        "RPC_SERVER_HOST" => {
            add(Valid, &["127.0.0.1", "localhost", "bitcoind", "node.example.com", "10.1.2.3", "[::1]", "node-1"]);
            add(Unusable, &["", "bad host", "a\nb", "<node>"]);
        }
        "RPC_SERVER_USER" | "RPC_SERVER_PASSWORD" => {
            add(Valid, &["user", "", "x", "xy", "pässwörd", " spaced ", "100%", "a=b&c", "\"quoted\"", "new\nline", "0"]);
            if var == "RPC_SERVER_PASSWORD" {
                add(Valid, &["a:b", ":"]);
            }
            v.push(Value { text: Some("long".repeat(100).into()), class: Valid });
        }
        _ => unreachable!(),
    }
    for b in [&b"\xff"[..], b"80\xc3", b"\xed\xa0\x80"] {
        let class = match var {
            "HOST" | "PORT" | "THREADS" | "BATCH_SIZE" | "CONFIRMATIONS" | "UPDATE_INTERVAL" | "RPC_SERVER_PORT" | "RPC_SERVER_HOST" => Unusable,
            _ => Either,
        };
        v.push(Value { text: Some(OsString::from_vec(b.to_vec())), class });
    }
    v
}

fn base64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    d.chunks(3)
        .map(|c| {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            (0..4).map(|i| if i > c.len() { '=' } else { A[(n >> (18 - 6 * i)) as usize & 63] as char }).collect::<String>()
        })
        .collect()
}

fn files(w: &W) -> BTreeMap<PathBuf, Vec<u8>> {
    fn walk(d: &std::path::Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else {
                out.insert(p.clone(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(&w.root, &mut m);
    m
}

const BLOCKS: usize = 13;

/// Builds the machine for an environment, runs the program and judges it.
fn judge(devs: &[(usize, Value)], stored: bool, text: &str) {
    let w = W::new(Cfg { conf: 2, ..Cfg::default() });
    let base: BTreeMap<String, OsString> = w.default_env().into_iter().collect();
    let mut env: BTreeMap<String, Option<OsString>> = base.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
    env.insert("BLOCK_FILES_PATH".into(), Some("files".into()));
    env.insert("STORE_FILE_PATH".into(), Some("store.dat".into()));
    let mut class = Valid;
    for (k, v) in devs {
        env.insert(VARS[*k].into(), v.text.clone());
        class = match (class, v.class) {
            (Unusable, _) | (_, Unusable) => Unusable,
            (_, UnusableForBuilding) | (UnusableForBuilding, _) => {
                if stored {
                    class
                } else {
                    Unusable
                }
            }
            (Either, _) | (_, Either) => Either,
            _ => class,
        };
    }
    let get = |k: &str| env[k].clone();
    let number = |k: &str, d: u64| match get(k) {
        None => d,
        Some(s) => s.to_str().and_then(|s| s.trim().parse().ok()).unwrap_or(d),
    };
    // the machine
    for d in ["sub", "ünï", "files", "sub/a b", "ünï/ブロック"] {
        std::fs::create_dir_all(w.root.join(d)).unwrap();
    }
    w.seed(BLOCKS);
    w.submit(1, 5);
    let dir = get("BLOCK_FILES_PATH").unwrap_or_default();
    let dir = if dir == "" || dir == "nowhere" || dir == "store.dat" { None } else { Some(w.root.join(&dir)) };
    if let Some(d) = &dir {
        std::fs::create_dir_all(d).unwrap();
        w.write_block_files();
        std::fs::rename(w.blocks_dir().join("blk00000.dat"), d.join("blk00000.dat")).unwrap();
    }
    let store = get("STORE_FILE_PATH").map(|s| w.root.join(s)).unwrap_or_default();
    let store = PathBuf::from(OsString::from_vec(store.as_os_str().as_bytes().to_vec()));
    if stored {
        // an index left by an earlier life, of fewer blocks
        let dev = devs.iter().any(|(k, v)| VARS[*k] == "STORE_FILE_PATH" && v.class != Valid);
        if dev {
            return;
        }
        *w.env.borrow_mut() = vec![("BLOCK_FILES_PATH".into(), Some("first".into())), ("STORE_FILE_PATH".into(), Some("first.dat".into())), ("CONFIRMATIONS".into(), Some("9".into()))];
        std::fs::create_dir_all(w.root.join("first")).unwrap();
        w.write_block_files();
        std::fs::rename(w.blocks_dir().join("blk00000.dat"), w.root.join("first/blk00000.dat")).unwrap();
        w.launch();
        rt::quiesce();
        w.must_live("start-up of the earlier life");
        w.kill();
        std::fs::remove_dir_all(w.root.join("first")).unwrap();
        if std::fs::rename(w.root.join("first.dat"), &store).is_err() {
            rt::error("harness: cannot place the stored index");
        }
        // the block files are not needed any more
        if let Some(d) = &dir {
            std::fs::remove_file(d.join("blk00000.dat")).unwrap();
        }
    }
    let mut e: Vec<(String, Option<OsString>)> = env.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    // neighbours that mean nothing
    for k in ["host", "Port", "CONFIRMATION", "RPC_SERVER", "BITCOIN_PORT", "RPC_PORT", "RPC_USER", "STORE_PATH"] {
        e.push((k.into(), Some("7".into())));
    }
    *w.env.borrow_mut() = e;
    // what it should do
    let host: IpAddr = get("HOST").and_then(|s| s.to_str().and_then(|s| s.parse().ok())).unwrap_or("127.0.0.1".parse().unwrap());
    let listen = SocketAddr::new(host, number("PORT", 8000) as u16);
    let mut run = w.clone();
    run.cfg.conf = number("CONFIRMATIONS", 6) as usize;
    run.cfg.interval = number("UPDATE_INTERVAL", 1000);
    {
        let mut n = w.node();
        n.uri = format!("http://{}:{}", get("RPC_SERVER_HOST").unwrap_or_default().to_string_lossy(), number("RPC_SERVER_PORT", 0));
        let secret = [get("RPC_SERVER_USER").unwrap_or_default().as_bytes(), b":", get("RPC_SERVER_PASSWORD").unwrap_or_default().as_bytes()].concat();
        n.auth = format!("Basic {}", base64(&secret));
    }
    let before = files(&w);
    let written = Rc::new(Cell::new(false));
    let wr = written.clone();
    vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
        if mutating(e) {
            wr.set(true);
        }
        Action::Proceed
    })));
    let calls = Rc::new(Cell::new(0));
    let c = calls.clone();
    w.on_call(Some(Rc::new(move |_, _| {
        c.set(c.get() + 1);
        None
    })));
    w.launch();
    rt::quiesce();
    vstd::fs::verif_hook(None);
    let gone = !w.alive();
    if class == Unusable || (class == Either && gone) {
        if !gone {
            rt::fail(format!("{}: the program starts", text));
        }
        if calls.get() > 0 {
            rt::fail(format!("{}: the program contacts the node before it stops", text));
        }
        if written.get() || files(&w) != before {
            rt::fail(format!("{}: the program writes a file before it stops", text));
        }
        if !vhyper::verif_listening(w.proc()).is_empty() {
            rt::fail(format!("{}: the program serves though it stopped", text));
        }
        if matches!(rt::exit_of(w.proc()), Some(rt::Exit::Returned) | Some(rt::Exit::Code(0))) {
            rt::fail(format!("{}: the program ends as if all was well", text));
        }
        rt::count("refused", 1);
        return;
    }
    w.must_live(&format!("{}: start-up", text));
    if vhyper::verif_listening(w.proc()) != [listen] {
        rt::fail(format!("{}: the program listens on {:?}, not on {}", text, vhyper::verif_listening(w.proc()), listen));
    }
    if let Some(b) = w.node().bad_calls.first() {
        rt::fail(format!("{}: the node is called wrongly: {}", text, b));
    }
    if calls.get() == 0 {
        rt::fail(format!("{}: the node is never called", text));
    }
    // files
    let after = files(&w);
    let real = std::fs::canonicalize(&store).unwrap_or(store.clone());
    match after.get(&real) {
        None => rt::fail(format!("{}: there is no file {}", text, store.display())),
        Some(d) if stored && before.get(&real) != Some(d) && !written.get() => rt::fail(format!("{}: the stored index changed by itself", text)),
        Some(_) => {}
    }
    if let Some((p, _)) = after.iter().find(|(p, d)| **p != real && before.get(*p) != Some(*d)) {
        rt::fail(format!("{}: the file {} is written", text, p.display()));
    }
    // answers and depths
    let a = wallet::addrs();
    run.check_all(&a, 0, text);
    match w.ask(&Req::get(&format!("/addresses/{}/balance?confirmations={}", a[0].text(), run.cfg.conf + 1))) {
        Ok(r) if (400..500).contains(&r.status) => {}
        r => rt::fail(format!("{}: a depth of CONFIRMATIONS + 1 is answered {:?}", text, r.map(|r| r.status))),
    }
    // the poll period
    let ms = run.cfg.interval as u128 * 1_000_000;
    w.mine(1, 70);
    let n = calls.get();
    rt::advance(ms - 1);
    rt::quiesce();
    if calls.get() != n {
        rt::fail(format!("{}: the node is polled before {} ms are over", text, run.cfg.interval));
    }
    if run.cfg.interval < 1 << 40 {
        rt::advance(1);
        rt::quiesce();
        if calls.get() == n {
            rt::fail(format!("{}: the node is not polled when {} ms are over", text, run.cfg.interval));
        }
        w.must_live(&format!("{}: update", text));
        run.check_all(&a, 1, text);
        let after = files(&w);
        if let Some((p, _)) = after.iter().find(|(p, d)| **p != real && before.get(*p) != Some(*d)) {
            rt::fail(format!("{}: the file {} is written by an update", text, p.display()));
        }
        // and the index written is found again
        w.kill();
        if let Some(d) = &dir {
            let _ = std::fs::remove_file(d.join("blk00000.dat"));
        }
        w.launch();
        rt::quiesce();
        w.must_live(&format!("{}: restart", text));
        run.check_all(&a, 2, text);
    }
    if let Some(b) = w.node().bad_calls.first() {
        rt::fail(format!("{}: the node is called wrongly: {}", text, b));
    }
    rt::count("accepted", 1);
}

fn show(devs: &[(usize, Value)]) -> String {
    devs.iter()
        .map(|(k, v)| match &v.text {
            None => format!("{} not set", VARS[*k]),
            Some(t) => {
                let t = format!("{:?}", t);
                format!("{}={}", VARS[*k], if t.len() > 60 { "(long)" } else { &t })
            }
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn pick(var: usize) -> (usize, Value) {
    let m = menu(VARS[var]);
    let k = rt::free(m.len(), "value");
    (var, m[k].clone())
}

fn single() {
    let var = rt::free(VARS.len(), "variable");
    let d = vec![pick(var)];
    let stored = rt::free(2, "stored index") == 1;
    rt::shard_point();
    let text = show(&d);
    judge(&d, stored, &text);
    rt::outcome(rt::hash64(format!("{} {}", text, stored).as_bytes()));
    rt::sample(4, || text.clone());
}

fn pairs(all: bool) {
    let i = rt::free(VARS.len() - 1, "first variable");
    let j = i + 1 + rt::free(VARS.len() - 1 - i, "second variable");
    let d = vec![pick(i), pick(j)];
    let stored = all && rt::free(2, "stored index") == 1;
    let stored = if all { stored } else { (i + j) % 2 == 1 };
    rt::shard_point();
    let text = show(&d);
    judge(&d, stored, &text);
    rt::outcome(rt::hash64(format!("{} {}", text, stored).as_bytes()));
}

/// Every set of variables left out.
fn unset() {
    let mask = rt::free(1 << VARS.len(), "variables not set");
    rt::shard_point();
    let d: Vec<_> = (0..VARS.len()).filter(|k| mask >> k & 1 == 1).map(|k| (k, menu(VARS[k])[0].clone())).collect();
    let text = show(&d);
    judge(&d, mask.count_ones() % 2 == 1, &text);
    rt::outcome(mask as u64);
}

/// More threads asked for, more threads used.
fn threads() {
    let batch = [1, 3, 10, 100][rt::free(4, "BATCH_SIZE index")];
    let w = W::new(Cfg { conf: 2, batch, ..Cfg::default() });
    w.seed(40);
    w.write_block_files();
    let used = |threads: usize| {
        let mut env = w.default_env();
        env.retain(|(k, _)| k != "THREADS");
        env.push(("THREADS".into(), threads.to_string().into()));
        *w.env.borrow_mut() = env.into_iter().map(|(k, v)| (k, Some(v))).collect();
        let _ = std::fs::remove_file(w.store_path());
        let n = rt::task_count();
        w.launch();
        rt::quiesce();
        let n = rt::task_count() - n;
        w.must_live("start-up");
        w.check_all(&wallet::addrs(), 0, "start-up");
        w.kill();
        n
    };
    let counts: Vec<usize> = [1, 4, 16].iter().map(|t| used(*t)).collect();
    if !(counts[0] < counts[1] && counts[1] < counts[2]) {
        rt::fail(format!("with BATCH_SIZE {} and THREADS 1, 4, 16 the program starts {:?} threads and tasks", batch, counts));
    }
    rt::outcome(batch as u64);
}

/// Many confirmations.
fn deep(th: bool) {
    let list: &[usize] = if th { &[10, 33, 101, 144, 256, 300, 1000, 2017] } else { &[10, 101, 256, 1000] };
    let conf = list[rt::free(list.len(), "CONFIRMATIONS index")];
    let w = W::new(Cfg { conf, threads: 2, batch: 1000, interval: 1000 });
    w.seed(5);
    w.node().mine_empty(conf);
    w.seed(4);
    w.write_block_files();
    w.start();
    let a = wallet::addrs();
    let text = format!("CONFIRMATIONS {}", conf);
    for round in 0..2 {
        for depth in [0, 1, 2, conf / 2, conf - 4, conf - 1, conf] {
            let l = w.node().expect(depth);
            w.check_depth(depth, &a, &l, depth + round, &text);
        }
        for depth in [conf + 1, conf * 2] {
            match w.ask(&Req::get(&format!("/addresses/{}/balance?confirmations={}", a[0].text(), depth))) {
                Ok(r) if (400..500).contains(&r.status) => {}
                r => rt::fail(format!("{}: a depth of {} is answered {:?}", text, depth, r.map(|r| r.status))),
            }
        }
        w.mine(2, 90);
        w.tick();
    }
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(3, || text);
}

pub fn check() -> Check {
    Check {
        id: "C24",
        level: "exploration",
        rule: "every variable with every value of a menu (unset, valid, unusable, not Unicode), all pairs of such deviations, and all sets of variables left out, with and without a stored index; the address listened on, the target and credentials of calls, the files read and written, the depth limit and the poll period are observed; after a refusal, that nothing was done. CONFIRMATIONS of up to a thousand, with the depths it allows. Counted by environment",
        assumptions: &["values with spaces or leading zeros may be taken or refused", "HOST=a name, PORT=0, THREADS=0, UPDATE_INTERVAL=0 are left open"],
        spaces: |th| {
            vec![
                Space::new("single deviations", 0, single).split(32, 0),
                Space::new("pairs", 0, move || pairs(th)).split(64, 0),
                Space::new("variables left out", 0, unset).split(32, 0),
                Space::new("many confirmations", 0, move || deep(th)).split(4, 1),
                Space::new("threads", 0, threads).small(),
            ]
        },
    }
}
