//! A misbehaving node never makes the indexer serve wrong answers.
use crate::btc::H;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vhyper::{Call, Reply};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Class {
    /// Nothing is wrong with the reply.
    Benign,
    /// "No such transaction".
    NoTx,
    /// "No such height".
    NoHeight,
    /// The same, but not said in the usual way: may be understood or not.
    Maybe,
    Bad,
}
use Class::*;

struct Fault {
    name: String,
    class: Class,
    reply: Reply,
}

fn whole(status: u16, body: &[u8]) -> Reply {
    Reply::Http { status, chunks: vec![body.to_vec()], broken: false }
}
fn error(status: u16, code: Value, message: bool) -> Reply {
    let mut e = json!({ "code": code });
    if message {
        e["message"] = json!("something is not right");
    }
    whole(status, json!({"result": null, "error": e, "id": "indexer"}).to_string().as_bytes())
}
/// The same JSON with every character of every string escaped.
fn escaped(v: &Value) -> String {
    match v {
        Value::String(s) => format!("\"{}\"", s.chars().map(|c| format!("\\u{:04x}", c as u32)).collect::<String>()),
        Value::Array(a) => format!("[{}]", a.iter().map(escaped).collect::<Vec<_>>().join(" ,\n\t")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{} : {}", escaped(&json!(k)), escaped(v))).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}

/// What can go wrong with a reply; `healthy` is the reply of a healthy node.
fn menu(method: &str, healthy: &Reply, width: usize) -> Vec<Fault> {
    let mut v = faults(method, healthy, width == 2);
    if width == 1 {
        v.retain(|f| f.class != Benign && !["error -28", "empty body", "connection lost in the body"].contains(&f.name.as_str()));
    }
    if width == 0 {
        v.retain(|f| ["error -5", "error -8", "connection refused", "no answer"].contains(&f.name.as_str()));
    }
    v
}

fn faults(method: &str, healthy: &Reply, wide: bool) -> Vec<Fault> {
    let mut v: Vec<Fault> = Vec::new();
    let mut add = |name: &str, class: Class, reply: Reply| v.push(Fault { name: name.into(), class, reply });
    let (status, body) = match healthy {
        Reply::Http { status, chunks, .. } => (*status, chunks.concat()),
        _ => rt::error("harness: no healthy reply"),
    };
    let value: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
    let result = value["result"].clone();
    // not usual, but right
    let chunks = |n: usize| Reply::Http { status, chunks: body.chunks(n).map(|c| c.to_vec()).collect(), broken: false };
    add("in single bytes", Benign, chunks(1));
    add("in two parts", Benign, chunks(body.len() / 2 + 1));
    add("with other spacing and escapes", Benign, whole(status, escaped(&value).as_bytes()));
    add("with keys in another order", Benign, whole(status, format!("{{\"id\":\"indexer\",\"extra\":[{{}}],\"error\":{},\"result\":{}}}", value["error"], value["result"]).as_bytes()));
    let no = |code: i64| match (method, code) {
        ("getrawtransaction", -5) => NoTx,
        ("getblockhash", -8) => NoHeight,
        _ => Bad,
    };
    add("error -5", no(-5), error(500, json!(-5), true));
    add("error -8", no(-8), error(500, json!(-8), true));
    add("connection refused", Bad, Reply::Transport);
    add("connection lost in the body", Bad, Reply::Http { status, chunks: vec![body[..body.len() / 2].to_vec()], broken: true });
    add("half a body", Bad, whole(status, &body[..body.len() / 2]));
    add("error -28", Bad, error(500, json!(-28), true));
    add("status 503", Bad, whole(503, b"Work queue depth exceeded"));
    add("empty body", Bad, whole(status, b""));
    add("result null", Bad, whole(200, b"{\"result\":null,\"error\":null,\"id\":\"indexer\"}"));
    add("no answer", Bad, Reply::Hang);
    let put = |r: Value| {
        let mut x = value.clone();
        x["result"] = r;
        whole(200, x.to_string().as_bytes())
    };
    // the text of the result, or of the elements of the result, spoilt
    let spoil: [(&str, fn(&str) -> Value); 13] = [
        ("cut by a byte", |s| json!(&s[..s.len().saturating_sub(2)])),
        ("cut by a digit", |s| json!(&s[..s.len().saturating_sub(1)])),
        ("cut at the start", |s| json!(&s[s.len().min(2)..])),
        ("halved", |s| json!(&s[..s.len() / 4 * 2])),
        ("with no digits", |_| json!("")),
        ("with one byte", |s| json!(&s[..s.len().min(2)])),
        ("with a letter g", |s| json!(format!("g{}", &s[s.len().min(1)..]))),
        ("with a letter at the end", |s| json!(format!("{}z", &s[..s.len().saturating_sub(1)]))),
        ("with a sign", |s| json!(format!("+{}", &s[s.len().min(1)..]))),
        ("with a space", |s| json!(format!(" {}", s))),
        ("with a digit more", |s| json!(format!("{}0", s))),
        ("with umlauts", |s| json!(format!("ä{}", &s[s.len().min(2)..]))),
        ("of another type", |_| json!(17)),
    ];
    let spoil = &spoil[..if wide { spoil.len() } else { 3 }];
    match &result {
        Value::String(s) => {
            for (n, f) in spoil {
                add(&format!("text {}", n), Bad, put(f(s)));
            }
        }
        Value::Array(a) if !a.is_empty() => {
            for (n, f) in spoil {
                for k in if wide { vec![0, a.len() - 1] } else { vec![a.len() - 1] } {
                    let mut b = a.clone();
                    b[k] = f(a[k].as_str().unwrap_or(""));
                    add(&format!("element {} {}", k, n), Bad, put(Value::Array(b)));
                }
            }
        }
        _ => {}
    }
    if wide {
        for n in [2, 3, 7, 64] {
            add(&format!("in pieces of {}", n), Benign, chunks(n));
        }
        add("connection lost after the body", Bad, Reply::Http { status, chunks: vec![body.clone()], broken: true });
        add("connection lost before the body", Bad, Reply::Http { status, chunks: vec![], broken: true });
        add("all but the end of the body", Bad, whole(status, body.strip_suffix(b"}\n").unwrap_or(&body)));
        for (s, text) in [(401, &b""[..]), (403, b""), (404, b"Not Found"), (400, b"Bad Request"), (302, b""), (204, b""), (502, b"\xff\xfe\x80"), (500, b""), (500, b"oops"), (200, b"oops"), (200, b"\xff\xfe"), (200, b"null"), (200, b"{}"), (200, b"[]"), (200, b"\"\""), (500, b"null"), (500, b"{}"), (504, b"<html>")] {
            add(&format!("status {} with {:?}", s, String::from_utf8_lossy(text)), Bad, whole(s, text));
        }
        for s in [503, 404, 401, 302, 201] {
            add(&format!("status {} with the right body", s), Bad, whole(s, &body));
        }
        for r in [json!(true), json!(0), json!(-1), json!({}), json!([]), json!([[]]), json!([null]), json!([""]), json!({"code": -8}), json!("null")] {
            // an empty mempool is a right answer, so nothing can be said about it here
            if r == json!([]) && method == "getrawmempool" {
                continue;
            }
            add(&format!("result {}", r), Bad, put(r));
        }
        for c in [-1, -3, -32603, -32600, -32601, -32700, 0, 5, 8, -58, -4294967301i64, -4294967304, i64::MIN] {
            add(&format!("error {}", c), Bad, error(500, json!(c), true));
        }
        add("error null with status 500", Bad, whole(500, json!({"result": result, "error": null, "id": "indexer"}).to_string().as_bytes()));
        add("error code missing", Bad, whole(500, b"{\"result\":null,\"error\":{\"message\":\"x\"},\"id\":\"indexer\"}"));
        add("error code null", Bad, error(500, json!(null), true));
        add("error code 1.5", Bad, error(500, json!(-5.5), true));
        add("error code a list", Bad, error(500, json!([-5, -8]), true));
        add("error a text", Bad, whole(500, b"{\"result\":null,\"error\":\"-5 -8\",\"id\":\"indexer\"}"));
        for c in [-5, -8] {
            let class = if no(c) == Bad { Bad } else { Maybe };
            add(&format!("error {} with status 404", c), class, error(404, json!(c), true));
            add(&format!("error {} with status 503", c), class, error(503, json!(c), true));
            add(&format!("error {} with status 200", c), class, error(200, json!(c), true));
            add(&format!("error {} without a message", c), class, error(500, json!(c), false));
            add(&format!("error {} as a text", c), class, error(500, json!(c.to_string()), true));
            add(&format!("error {}, connection lost", c), Bad, match error(500, json!(c), true) {
                Reply::Http { status, chunks, .. } => Reply::Http { status, chunks: vec![chunks[0][..chunks[0].len() - 9].to_vec()], broken: true },
                r => r,
            });
        }
    }
    v
}

#[derive(Default)]
struct Made {
    text: RefCell<Vec<String>>,
    /// Of the present round.
    classes: RefCell<Vec<Class>>,
    missing: RefCell<Vec<H>>,
    hang: Cell<bool>,
    calls: Cell<u64>,
    used: Cell<usize>,
}

/// At every call a fault may be chosen. The calls are dealt into classes, and the class of each fault is chosen
/// up front, so that the work divides.
fn arm(w: &W, made: &Rc<Made>, classes: Vec<usize>, of: usize, width: usize) {
    let m = made.clone();
    w.on_call(Some(Rc::new(move |n: &mut Node, c: &Call| {
        let healthy = n.answer(c);
        m.calls.set(m.calls.get() + 1);
        match classes.get(m.used.get()) {
            Some(k) if m.calls.get() % of as u64 == *k as u64 => {}
            _ => return Some(healthy),
        }
        let req: Value = serde_json::from_slice(&c.body).unwrap_or(Value::Null);
        let method = req["method"].as_str().unwrap_or("").to_string();
        let faults = menu(&method, &healthy, width);
        let k = rt::dev(faults.len() + 1, "reply");
        if k == 0 {
            return Some(healthy);
        }
        m.used.set(m.used.get() + 1);
        let f = &faults[k - 1];
        let text = format!("{} {} is answered: {}", method, req["params"], f.name);
        rt::note(|| text.clone());
        m.text.borrow_mut().push(text);
        m.classes.borrow_mut().push(f.class);
        if method == "getrawtransaction" && matches!(f.class, NoTx | Maybe) {
            if let Some(h) = req["params"][0].as_str().and_then(crate::btc::unrhex) {
                m.missing.borrow_mut().push(h);
            }
        }
        if matches!(f.reply, Reply::Hang) {
            m.hang.set(true);
        }
        Some(f.reply.clone())
    })));
}

fn exact(w: &W, got: &[Answer]) -> Result<(), String> {
    let mut n = w.node();
    got.iter().try_for_each(|a| {
        let l = n.expect(a.depth);
        agrees(a.kind, &a.addrs, &a.value, &l).map_err(|e| format!("at depth {}: {}", a.depth, e))
    })
}

/// Right for a chain and a mempool the node had; when the catch-up was ended early, also for a part of a chain.
fn real(w: &W, got: &[Answer], since: usize, parts: bool, missing: &[H]) -> Result<(), String> {
    let mut n = w.node();
    let mut chains: Vec<Vec<H>> = Vec::new();
    let mut pools: Vec<Vec<crate::btc::Tx>> = Vec::new();
    for (c, p) in n.history[since..].iter().rev() {
        chains.push(c.clone());
        if parts {
            chains.extend((w.cfg.conf..c.len()).rev().map(|k| c[..k].to_vec()));
        }
        pools.push(p.clone());
        // any of the missing may have been fetched later
        for mask in 1..1u32 << missing.len() {
            pools.push(p.iter().filter(|t| !missing.iter().position(|m| *m == t.id).map_or(false, |k| mask >> k & 1 == 1)).cloned().collect());
        }
    }
    let mut first = None;
    let mut seen = Vec::new();
    for c in &chains {
        if seen.contains(&c) {
            continue;
        }
        seen.push(c);
        let deep = got.iter().filter(|a| a.depth > 0).try_for_each(|a| {
            let l = n.expect_for(c, &[], a.depth);
            agrees(a.kind, &a.addrs, &a.value, &l).map_err(|e| format!("at depth {}: {}", a.depth, e))
        });
        if let Err(e) = deep {
            first.get_or_insert(e);
            continue;
        }
        for p in &pools {
            let l = n.expect_for(c, p, 0);
            match got.iter().filter(|a| a.depth == 0).try_for_each(|a| agrees(a.kind, &a.addrs, &a.value, &l)) {
                Ok(()) => return Ok(()),
                Err(e) => {
                    first.get_or_insert(format!("at depth 0: {}", e));
                }
            }
        }
    }
    Err(first.unwrap_or_default())
}

struct Life {
    w: W,
    made: Rc<Made>,
    round: Cell<usize>,
    /// The node's version when the process was started.
    since: Cell<usize>,
}

impl Life {
    fn launch(&self) {
        self.since.set(self.w.version());
        self.w.launch();
        rt::quiesce();
    }
    fn text(&self, when: &str) -> String {
        format!("{}; {}", self.made.text.borrow().join("; "), when)
    }
    /// Judges what is served after an update or a start; brings the indexer back to health.
    fn settle(&self, starting: bool, switched: bool, when: &str) {
        let a = wallet::addrs();
        let (w, m) = (&self.w, &self.made);
        let mut starting = starting;
        let mut late = 0;
        let mut hurt = false;
        let mut parts = false;
        for _ in 0..12 {
            let classes = m.classes.take();
            let when = &self.text(when);
            self.round.set(self.round.get() + 1);
            hurt |= !classes.is_empty();
            parts |= classes.iter().any(|c| matches!(c, NoHeight | Maybe));
            if !w.alive() {
                let stops = classes.iter().any(|c| match c {
                    Benign => false,
                    // not the whole depth can be served without these blocks
                    NoHeight => starting || switched,
                    NoTx => false,
                    Maybe | Bad => true,
                });
                if !stops {
                    rt::fail(format!("{}: the process ended{}", when, w.panic_text()));
                }
                rt::count("stops", 1);
                m.hang.set(false);
                self.launch();
                starting = true;
                continue;
            }
            if m.hang.replace(false) {
                // it waits for the node, for ever; what was served is served on
                if !vhyper::verif_listening(w.proc()).is_empty() {
                    let got = w.collect(&a, self.round.get());
                    if let Err(e) = real(w, &got, self.since.get(), parts, &m.missing.borrow()) {
                        rt::fail(format!("{}: while the node does not answer, the answers are right for no chain and mempool it had: {}", when, e));
                    }
                }
                rt::count("waits", 1);
                w.kill();
                self.launch();
                starting = true;
                continue;
            }
            if classes.iter().all(|c| *c != Bad) {
                w.must_live(when);
            }
            if vhyper::verif_listening(w.proc()).is_empty() {
                rt::fail(format!("{}: the process is neither serving nor gone", when));
            }
            let got = w.collect(&a, self.round.get());
            let r = exact(w, &got);
            if r.is_ok() {
                rt::count(if hurt { "survives" } else { "no fault" }, 1);
                return;
            }
            if !hurt || classes.iter().all(|c| *c == Benign) && late == 0 {
                rt::fail(format!("{}: {}", when, r.unwrap_err()));
            }
            if let Err(e) = real(w, &got, self.since.get(), parts || late > 0, &m.missing.borrow()) {
                rt::fail(format!("{}: the answers are right for no chain and mempool the node had: {}", when, e));
            }
            late += 1;
            // an update without a failure after one with what is no failure is complete
            let patience = if classes.iter().any(|c| matches!(c, Bad | Maybe)) { 5 } else { 2 };
            if late > patience && m.used.get() == m.text.borrow().len() {
                rt::fail(format!("{}: the answers do not become right again: {}", when, r.unwrap_err()));
            }
            starting = false;
            w.tick_raw();
        }
        rt::fail(format!("{}: the indexer does not recover", self.text(when)));
    }
}

fn life(faults: usize, confs: &[usize], of: usize, width: usize, long: bool) {
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let classes: Vec<usize> = (0..faults).map(|_| rt::free(of, "class of calls")).collect();
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 2);
    w.write_block_files();
    w.mine(1, 30);
    w.submit(1, 31);
    let made = Rc::new(Made::default());
    arm(&w, &made, classes, of, width);
    rt::shard_point();
    let l = Life { w: w.clone(), made: made.clone(), round: Cell::new(0), since: Cell::new(0) };
    let first = w.version();
    l.launch();
    l.settle(true, false, "start-up");
    let _ = std::fs::remove_file(w.blocks_dir().join("blk00000.dat"));
    // the mempool is never seen empty
    w.node().at_once(|n| {
        n.mine_t(2, 40);
        n.mine_t(1, 41);
        n.submit_t(2, 42);
        n.submit_t(1, 43);
    });
    w.tick_raw();
    l.settle(false, false, "two blocks and a mempool");
    if conf > 1 {
        w.node().at_once(|n| {
            n.reorg(conf - 1, 1, 3, 50);
            n.submit_t(3, 55);
        });
        w.tick_raw();
        l.settle(false, true, "a branch switch");
    }
    if long {
        w.node().at_once(|n| {
            n.mine_pool(1);
            n.replace(0, 3);
            n.submit_t(2, 61);
        });
        w.tick_raw();
        l.settle(false, false, "a block from the mempool");
        w.node().at_once(|n| {
            n.evict(0);
            if n.mempool.is_empty() {
                n.submit_t(1, 66);
            }
        });
        w.tick_raw();
        l.settle(false, false, "an eviction");
    }
    w.kill();
    w.node().at_once(|n| {
        n.mine_t(2, 60);
        n.submit_t(2, 67);
    });
    if w.node().history.iter().skip(first).any(|v| v.1.is_empty()) {
        rt::error("harness: the mempool is empty");
    }
    l.launch();
    l.settle(true, false, "restart");
    w.node().at_once(|n| {
        n.mine_t(1, 70);
        n.submit_t(2, 71);
    });
    w.tick_raw();
    l.settle(false, false, "a block after the restart");
    if let Some(b) = w.node().bad_calls.first() {
        rt::fail(format!("{}: the node is called wrongly: {}", l.text(""), b));
    }
    rt::count("calls", made.calls.get());
    rt::outcome(rt::hash64(made.text.borrow().join(";").as_bytes()) ^ conf as u64);
    rt::sample(4, || format!("CONFIRMATIONS {}: {}", conf, made.text.borrow().join("; ")));
}

/// Every body of a history is split at the same place, or at the same two places, or into equal pieces.
fn splits(most: usize, two: bool) {
    let mode = rt::free(if two { 3 } else { 2 }, "two parts, equal pieces, three parts");
    let p = 1 + rt::free(if mode == 0 { most } else { 40 }, "position");
    let q = if mode == 2 { 1 + rt::free(40, "second position") } else { 0 };
    rt::shard_point();
    let w = W::new(Cfg { conf: 2, ..Cfg::default() });
    w.seed(4);
    w.write_block_files();
    w.mine(1, 30);
    w.submit(1, 31);
    w.submit(2, 32);
    let split = Rc::new(Cell::new(0));
    let s = split.clone();
    w.on_call(Some(Rc::new(move |n: &mut Node, c: &Call| match n.answer(c) {
        Reply::Http { status, chunks, broken } => {
            let b = chunks.concat();
            let mut at = match mode {
                0 => vec![p],
                1 => (1..=b.len() / p).map(|k| k * p).collect(),
                _ => vec![p, p + q],
            };
            at.retain(|k| *k < b.len());
            s.set(s.get() + at.len());
            let mut out = Vec::new();
            let mut from = 0;
            for k in at.into_iter().chain([b.len()]) {
                out.push(b[from..k].to_vec());
                from = k;
            }
            Some(Reply::Http { status, chunks: out, broken })
        }
        r => Some(r),
    })));
    let a = wallet::addrs();
    w.start();
    w.check_all(&a, 0, &format!("bodies split at {} {}: start-up", p, q));
    w.mine(2, 40);
    w.node().reorg(1, 1, 1, 50);
    w.submit(1, 60);
    w.tick();
    w.check_all(&a, 1, &format!("bodies split at {} {}: update", p, q));
    rt::count("splits", split.get() as u64);
    rt::outcome((mode * 1000000 + p * 1000 + q) as u64);
}

pub fn check() -> Check {
    Check {
        id: "C22",
        level: "fault_enumeration",
        rule: "a history of start-up, blocks, mempool, a branch switch and a restart, run with every fault of a menu (transport, statuses, error objects, bodies cut, spoilt, lost or never sent, unusual but right bodies) at each single RPC call, and with pairs of faults of a smaller menu; every split of every body into two parts. The process must have stopped, and serve exactly after a restart, or its answers must be those of a chain and mempool the node had and become exact again. Counted by fault placements",
        assumptions: &["a reply that is well-formed but untrue is out of scope", "'no such height' may stop the indexer while it has too few blocks to serve every depth"],
        spaces: |th| {
            vec![
                Space::new("one fault", 1, move || life(1, if th { &[1, 2, 3, 4, 6] } else { &[1, 2, 3] }, 13, 2, true)).split(64, 0),
                Space::new("two faults", 2, move || life(2, if th { &[1, 2, 3] } else { &[2] }, if th { 13 } else { 7 }, th as usize, th)).split(64, 0),
                Space::new("splits", 0, move || splits(if th { 2500 } else { 900 }, th)).split(32, 0),
            ]
        },
    }
}
