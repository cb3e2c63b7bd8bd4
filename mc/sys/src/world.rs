//! One simulated machine: scratch directory, node, clock, and the process of the program under test.
use crate::btc::*;
use crate::model::Ledger;
use crate::node::Node;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::ffi::OsString;
use std::path::PathBuf;
use std::rc::Rc;
use vhyper::{Call, Reply};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub conf: usize,
    pub threads: usize,
    pub batch: usize,
    pub interval: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { conf: 2, threads: 1, batch: 10, interval: 1000 }
    }
}

pub type NodeHook = Rc<dyn Fn(&mut Node, &Call) -> Option<Reply>>;

#[derive(Clone)]
pub struct W {
    pub node: Rc<RefCell<Node>>,
    pub cfg: Cfg,
    pub root: PathBuf,
    proc: Rc<Cell<u32>>,
    hook: Rc<RefCell<Option<NodeHook>>>,
    pub env: Rc<RefCell<Vec<(String, Option<OsString>)>>>,
    pub queries: Rc<Cell<u64>>,
    /// Set by a hook: the calling process dies.
    pub die: Rc<Cell<bool>>,
}

thread_local! {
    static ROOT: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

/// The scratch directory of this worker; created once.
pub fn root() -> PathBuf {
    ROOT.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_none() {
            let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
            let p = PathBuf::from(format!("{}/verif-mc-{}", base, std::process::id()));
            let _ = std::fs::create_dir_all(p.join("blocks"));
            let p = std::fs::canonicalize(p).unwrap();
            let _ = std::env::set_current_dir(&p);
            *r = Some(p);
        }
        r.clone().unwrap()
    })
}

pub fn forget_root() {
    ROOT.with(|r| *r.borrow_mut() = None);
}

pub fn remove_root() {
    ROOT.with(|r| {
        if let Some(p) = r.borrow_mut().take() {
            let _ = std::env::set_current_dir("/");
            let _ = std::fs::remove_dir_all(p);
        }
    })
}

fn clean(dir: &std::path::Path) {
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    if p.file_name().map_or(false, |n| n == "blocks") {
                        clean(&p);
                    } else {
                        let _ = std::fs::remove_dir_all(&p);
                    }
                }
                _ => {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or(Value::Null)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    pub fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
}

pub struct Pending {
    proc: u32,
    pub task: usize,
    result: Rc<RefCell<Option<Result<Resp, String>>>>,
    waiters: Rc<rt::Waiters>,
}
impl Pending {
    pub fn done(&self) -> bool {
        self.result.borrow().is_some()
    }
    pub fn take(&self) -> Option<Result<Resp, String>> {
        self.result.borrow_mut().take()
    }
    /// Blocks the calling client until the answer is there or the process is gone.
    pub fn wait(&self) -> Result<Resp, String> {
        loop {
            if let Some(r) = self.take() {
                return r;
            }
            if rt::exit_of(self.proc).is_some() {
                return Err("process is gone".into());
            }
            self.waiters.wait();
        }
    }
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub chunks: Vec<Vec<u8>>,
    pub broken: bool,
    pub stalled: bool,
}
impl Req {
    pub fn get(t: &str) -> Req {
        Req { method: "GET".into(), target: t.into(), headers: vec![], chunks: vec![], broken: false, stalled: false }
    }
    pub fn post(t: &str, body: &str) -> Req {
        Req { method: "POST".into(), target: t.into(), headers: vec![("content-type".into(), "application/json".into())], chunks: vec![body.as_bytes().to_vec()], broken: false, stalled: false }
    }
    fn build(&self) -> Option<vhyper::Request<vhyper::Body>> {
        let mut b = vhyper::Request::builder().method(self.method.as_str()).uri(self.target.as_str());
        for (k, v) in &self.headers {
            b = b.header(k, v);
        }
        let body = if self.stalled {
            vhyper::verif_stalled_body(self.chunks.clone())
        } else if self.chunks.len() <= 1 && !self.broken {
            vhyper::Body::from(self.chunks.first().cloned().unwrap_or_default())
        } else {
            vhyper::verif_body(self.chunks.clone(), self.broken)
        };
        b.body(body).ok()
    }
}

impl W {
    pub fn new(cfg: Cfg) -> W {
        let root = root();
        clean(&root);
        vstd::fs::verif_reset();
        vstd::fs::verif_set_root(root.clone());
        vstd::time::verif_reset();
        vstd::thread::verif_reset();
        vstd::collections::verif_seed(0);
        vhyper::verif_reset();
        vtokio::task::verif_reset();
        vtokio::runtime::verif_fail(None);
        rt::on_sleep(None);
        let node = Rc::new(RefCell::new(Node::default()));
        {
            let mut n = node.borrow_mut();
            n.auth = "Basic dXNlcjpwYXNz".into();
            n.uri = "http://127.0.0.1:8332".into();
        }
        let w = W {
            node,
            cfg,
            root,
            proc: Rc::new(Cell::new(0)),
            hook: Rc::new(RefCell::new(None)),
            env: Rc::new(RefCell::new(Vec::new())),
            queries: Rc::new(Cell::new(0)),
            die: Rc::new(Cell::new(false)),
        };
        let node = w.node.clone();
        let hook = w.hook.clone();
        let die = w.die.clone();
        vhyper::verif_node(Some(Rc::new(move |call: Call| {
            let h = hook.borrow().clone();
            if let Some(h) = h {
                let r = h(&mut node.borrow_mut(), &call);
                if die.replace(false) {
                    rt::proc_exit(137);
                }
                if let Some(r) = r {
                    return r;
                }
            }
            let r = node.borrow_mut().answer(&call);
            r
        })));
        w
    }

    pub fn blocks_dir(&self) -> PathBuf {
        self.root.join("blocks")
    }
    pub fn store_path(&self) -> PathBuf {
        self.root.join("store.dat")
    }
    pub fn proc(&self) -> u32 {
        self.proc.get()
    }
    pub fn on_call(&self, h: Option<NodeHook>) {
        *self.hook.borrow_mut() = h;
    }
    pub fn node(&self) -> std::cell::RefMut<'_, Node> {
        self.node.borrow_mut()
    }

    /// Writes the node's active chain into one block file.
    pub fn write_block_files(&self) {
        let n = self.node();
        let mut v = Vec::new();
        for h in &n.active {
            v.extend_from_slice(&record(&n.blocks[h]));
        }
        std::fs::write(self.blocks_dir().join("blk00000.dat"), v).unwrap();
    }
    pub fn block_file(&self, name: &str, data: &[u8]) {
        std::fs::write(self.blocks_dir().join(name), data).unwrap();
    }

    pub fn default_env(&self) -> Vec<(String, OsString)> {
        let s = |k: &str, v: String| (k.to_string(), OsString::from(v));
        vec![
            s("HOST", "127.0.0.1".into()),
            s("PORT", "8000".into()),
            s("THREADS", self.cfg.threads.to_string()),
            s("BATCH_SIZE", self.cfg.batch.to_string()),
            s("STORE_FILE_PATH", self.store_path().to_str().unwrap().into()),
            s("BLOCK_FILES_PATH", self.blocks_dir().to_str().unwrap().into()),
            s("UPDATE_INTERVAL", self.cfg.interval.to_string()),
            s("CONFIRMATIONS", self.cfg.conf.to_string()),
            s("RPC_SERVER_HOST", "127.0.0.1".into()),
            s("RPC_SERVER_PORT", "8332".into()),
            s("RPC_SERVER_USER", "user".into()),
            s("RPC_SERVER_PASSWORD", "pass".into()),
        ]
    }

    /// Starts the program as a new process; it runs when the caller waits.
    pub fn launch(&self) {
        rt::progress();
        let mut env = self.default_env();
        for (k, v) in self.env.borrow().iter() {
            env.retain(|(n, _)| n != k);
            if let Some(v) = v {
                env.push((k.clone(), v.clone()));
            }
        }
        vstd::env::verif_set(&env);
        let p = self.proc.get() + 1;
        self.proc.set(p);
        rt::note(|| format!("process {} starts", p));
        rt::spawn_proc(p, format!("main{}", p), move || {
            let r = vstd::thread::verif_body(|| sut::__verif_main());
            let x = match r {
                Ok(()) => rt::Exit::Returned,
                Err(_) => rt::Exit::Panicked(rt::last_panic()),
            };
            rt::note(|| format!("process {} ends: {:?}", p, x));
            rt::set_exit(p, x);
            rt::kill_proc(p);
        });
    }

    /// Starts the program and waits until it has nothing more to do.
    pub fn start(&self) {
        self.launch();
        rt::quiesce();
        self.must_live("start-up");
        if vhyper::verif_listening(self.proc()).is_empty() {
            rt::fail("start-up: the process is neither serving nor gone");
        }
    }

    pub fn kill(&self) {
        let p = self.proc.get();
        if rt::exit_of(p).is_none() {
            rt::note(|| format!("process {} is killed", p));
            rt::set_exit(p, rt::Exit::Code(137));
            rt::kill_proc(p);
        }
    }
    pub fn alive(&self) -> bool {
        rt::exit_of(self.proc()).is_none()
    }
    pub fn must_live(&self, when: &str) {
        let p = self.proc();
        let v = rt::panics_of(p);
        if let Some(x) = v.iter().find(|x| x.contains(" at sys/src/") || x.contains(" at rt/src/")) {
            rt::error(format!("harness panic: {}", x));
        }
        if let Some(x) = rt::exit_of(p) {
            rt::fail(format!("{}: the process ended ({:?}){}", when, x, self.panic_text()));
        }
        if !v.is_empty() {
            rt::fail(format!("{}: a part of the process panicked: {}", when, v.join("; ")));
        }
        if vstd::fs::verif_escapes() > 0 {
            rt::error("the program tried to change a file outside the scratch directory");
        }
    }
    pub fn panic_text(&self) -> String {
        let v = rt::panics_of(self.proc());
        if v.is_empty() {
            String::new()
        } else {
            format!("; panics: {}", v.join("; "))
        }
    }

    /// Lets one update interval pass and waits until all is quiet.
    pub fn tick_raw(&self) {
        rt::progress();
        rt::note(|| "tick".into());
        rt::advance(self.cfg.interval as u128 * 1_000_000);
        rt::quiesce();
    }
    pub fn tick(&self) {
        self.tick_raw();
        self.must_live("update");
    }

    /// Each of the next `n` times the updater goes to sleep, `f(k)` happens and the interval is over at once.
    pub fn burst(&self, n: usize, f: impl Fn(usize) + 'static) {
        let left = Cell::new(n);
        let ns = self.cfg.interval as u128 * 1_000_000;
        rt::on_sleep(Some(Rc::new(move |d| {
            if left.get() > 0 && d == ns {
                left.set(left.get() - 1);
                f(n - 1 - left.get());
                rt::note(|| "interval over".into());
                rt::advance(ns);
            }
        })));
    }

    // -------------------------------------------------------- HTTP

    /// Sends a request on a connection of its own.
    pub fn send(&self, r: &Req) -> Pending {
        rt::progress();
        let p = self.proc();
        self.queries.set(self.queries.get() + 1);
        let result = Rc::new(RefCell::new(None));
        let waiters = Rc::new(rt::Waiters::new());
        let (res, wt) = (result.clone(), waiters.clone());
        let req = r.build();
        let label = format!("{} {}", r.method, r.target);
        let set = move |x: Result<Resp, String>| {
            *res.borrow_mut() = Some(x);
            wt.wake_all();
        };
        if !self.alive() {
            set(Err("process is gone".into()));
            return Pending { proc: p, task: 0, result, waiters };
        }
        let req = match req {
            Some(r) => r,
            None => {
                set(Err("unsendable request".into()));
                return Pending { proc: p, task: 0, result, waiters };
            }
        };
        let accept = match vhyper::verif_connect(p) {
            Some(a) => a,
            None => {
                set(Err("connection refused".into()));
                return Pending { proc: p, task: 0, result, waiters };
            }
        };
        let task = rt::spawn_proc(p, format!("conn {}", &label[..label.len().min(40)]), move || {
            let out = vstd::thread::verif_body(|| {
                rt::block_on(async {
                    let mut h = accept.await?;
                    h(req).await
                })
            });
            match out {
                Ok(Ok((status, headers, body))) => set(Ok(Resp { status, headers, body })),
                Ok(Err(e)) => set(Err(e)),
                Err(_) => set(Err("connection closed: the handler panicked".into())),
            }
        });
        Pending { proc: p, task, result, waiters }
    }

    /// Sends requests one after the other on one connection; the answers there were when all is quiet.
    pub fn ask_on_one(&self, reqs: &[Req]) -> Vec<Result<Resp, String>> {
        rt::progress();
        let p = self.proc();
        let out = Rc::new(RefCell::new(Vec::new()));
        let Some(accept) = vhyper::verif_connect(p) else { return vec![Err("connection refused".into())] };
        self.queries.set(self.queries.get() + reqs.len() as u64);
        let built: Vec<_> = reqs.iter().filter_map(|r| r.build()).collect();
        let o = out.clone();
        rt::spawn_proc(p, "conn".to_string(), move || {
            let o2 = o.clone();
            let r = vstd::thread::verif_body(|| {
                rt::block_on(async {
                    let mut h = match accept.await {
                        Ok(h) => h,
                        Err(e) => return o2.borrow_mut().push(Err(e)),
                    };
                    for req in built {
                        let r = h(req).await;
                        let end = r.is_err();
                        o2.borrow_mut().push(r.map(|(status, headers, body)| Resp { status, headers, body }));
                        if end {
                            break;
                        }
                    }
                })
            });
            if r.is_err() {
                o.borrow_mut().push(Err("connection closed: the handler panicked".into()));
            }
        });
        rt::quiesce();
        let v = std::mem::take(&mut *out.borrow_mut());
        v
    }

    /// Sends a request and waits until the machine is quiet; the answer must be there.
    pub fn ask(&self, r: &Req) -> Result<Resp, String> {
        let p = self.send(r);
        rt::quiesce();
        match p.take() {
            Some(r) => r,
            None => rt::fail(format!("{} {} is not answered{}", r.method, r.target, self.panic_text())),
        }
    }
    pub fn ask_ok(&self, r: &Req) -> Value {
        match self.ask(r) {
            Ok(x) if x.status == 200 => match serde_json::from_slice(&x.body) {
                Ok(v) => v,
                Err(_) => rt::fail(format!("{} {}: body is not JSON: {}", r.method, r.target, x.text())),
            },
            Ok(x) => rt::fail(format!("{} {} is answered with status {}: {}", r.method, r.target, x.status, x.text())),
            Err(e) => rt::fail(format!("{} {} is not answered: {}{}", r.method, r.target, e, self.panic_text())),
        }
    }
}

// ------------------------------------------------------------ answers

pub fn query(depth: usize) -> String {
    if depth == 0 {
        String::new()
    } else {
        format!("?confirmations={}", depth)
    }
}

pub fn list_json(addrs: &[Addr]) -> String {
    json!(addrs.iter().map(|a| a.text()).collect::<Vec<_>>()).to_string()
}

/// An amount in satoshi; the exact decimal is judged elsewhere.
pub fn satoshi(v: &Value) -> Option<u64> {
    let x = v.as_f64()? * 1e8;
    if x < -0.25 || (x - x.round()).abs() > 0.25 {
        return None;
    }
    Some(x.round() as u64)
}

pub fn utxos_of(v: &Value) -> Option<Vec<(String, u32, u64)>> {
    let mut out = Vec::new();
    for u in v.as_array()? {
        out.push((u["hash"].as_str()?.to_string(), u["vout"].as_u64()? as u32, satoshi(&u["value"])?));
    }
    out.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    Some(out)
}

fn show(v: &[(String, u32, u64)]) -> String {
    v.iter().map(|(h, n, x)| format!("{}:{}={}", &h[..h.len().min(8)], n, x)).collect::<Vec<_>>().join(" ")
}

/// Does an answer to one of the four query forms agree with a ledger?
pub fn agrees(kind: Kind, addrs: &[Addr], v: &Value, l: &Ledger) -> Result<(), String> {
    match kind {
        Kind::Balance => {
            let want = l.balance(&addrs[0]);
            if satoshi(v) == Some(want) {
                Ok(())
            } else {
                Err(format!("balance of {} is {}, expected {} satoshi", addrs[0].text(), v, want))
            }
        }
        Kind::Utxos => {
            let want = l.list(&addrs[0]);
            let got = utxos_of(v).ok_or_else(|| format!("malformed answer {}", v))?;
            if got == want {
                Ok(())
            } else {
                Err(format!("unspent outputs of {} are [{}], expected [{}]", addrs[0].text(), show(&got), show(&want)))
            }
        }
        Kind::Balances | Kind::UtxosMany => {
            let arr = v.as_array().ok_or_else(|| format!("malformed answer {}", v))?;
            if arr.len() != addrs.len() {
                return Err(format!("{} entries for {} addresses", arr.len(), addrs.len()));
            }
            for (a, x) in addrs.iter().zip(arr) {
                if x["address"].as_str() != Some(&a.text()) {
                    return Err(format!("address {} is echoed as {}", a.text(), x["address"]));
                }
                if kind == Kind::Balances {
                    let want = l.balance(a);
                    if satoshi(&x["balance"]) != Some(want) {
                        return Err(format!("balance of {} is {}, expected {} satoshi", a.text(), x["balance"], want));
                    }
                } else {
                    let want = l.list(a);
                    let got = utxos_of(&x["utxos"]).ok_or_else(|| format!("malformed answer {}", v))?;
                    if got != want {
                        return Err(format!("unspent outputs of {} are [{}], expected [{}]", a.text(), show(&got), show(&want)));
                    }
                }
            }
            Ok(())
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Balance,
    Utxos,
    Balances,
    UtxosMany,
}
pub const KINDS: [Kind; 4] = [Kind::Balance, Kind::Utxos, Kind::Balances, Kind::UtxosMany];

pub fn request(kind: Kind, addrs: &[Addr], depth: usize) -> Req {
    match kind {
        Kind::Balance => Req::get(&format!("/addresses/{}/balance{}", addrs[0].text(), query(depth))),
        Kind::Utxos => Req::get(&format!("/addresses/{}/utxos{}", addrs[0].text(), query(depth))),
        Kind::Balances => Req::post(&format!("/addresses/balance{}", query(depth)), &list_json(addrs)),
        Kind::UtxosMany => Req::post(&format!("/addresses/utxos{}", query(depth)), &list_json(addrs)),
    }
}

impl W {
    /// Compares what is served at a depth with a ledger; `turn` picks the address asked for singly.
    pub fn check_depth(&self, depth: usize, addrs: &[Addr], l: &Ledger, turn: usize, when: &str) {
        let one = [addrs[turn % addrs.len()]];
        for kind in KINDS {
            let list: &[Addr] = if matches!(kind, Kind::Balance | Kind::Utxos) { &one } else { addrs };
            let v = self.ask_ok(&request(kind, list, depth));
            if let Err(e) = agrees(kind, list, &v, l) {
                rt::fail(format!("{}: at depth {} of {}: {}", when, depth, self.cfg.conf, e));
            }
        }
    }
    /// Compares all depths with the node's present chain and mempool.
    pub fn check_all(&self, addrs: &[Addr], turn: usize, when: &str) {
        let mut d = 0;
        for depth in 0..=self.cfg.conf {
            let l = self.node().expect(depth);
            d ^= l.digest().rotate_left(depth as u32);
            self.check_depth(depth, addrs, &l, turn + depth, when);
        }
        rt::state(d);
    }
    pub fn check_from(&self, from: usize, addrs: &[Addr], turn: usize, when: &str) {
        let mut d = 1;
        for depth in from..=self.cfg.conf {
            let l = self.node().expect(depth);
            d ^= l.digest().rotate_left(depth as u32);
            self.check_depth(depth, addrs, &l, turn + depth, when);
        }
        rt::state(d);
    }
}

// ------------------------------------------------------------ histories

impl W {
    pub fn mine(&self, template: usize, salt: u64) -> Block {
        self.node().mine_t(template, salt)
    }
    /// Mines the first `len` blocks, cycling through the templates.
    /// Mines a block of these transactions.
    pub fn mine_txs(&self, txs: Vec<Tx>) -> Block {
        let mut n = self.node();
        let h = n.height();
        n.mine(txs, crate::wallet::reward(h))
    }
    pub fn seed(&self, len: usize) {
        for i in 0..len {
            self.mine(i % 4, i as u64);
        }
    }
    pub fn ledger(&self) -> std::rc::Rc<Ledger> {
        let mut n = self.node();
        let tip = n.tip();
        n.ledger(&tip)
    }
    pub fn submit(&self, template: usize, salt: u64) -> Vec<Tx> {
        self.node().submit_t(template, salt)
    }

    // -------------------------------------------------------- answers against a range of versions

    /// The node's present version.
    pub fn version(&self) -> usize {
        self.node().history.len() - 1
    }
    /// Asks everything once and accepts what is right for a chain the node had (at version `from` or later)
    /// and a mempool it had no later than that (nor before `from`), in which a listed transaction may be
    /// missing if it went away meanwhile.
    pub fn check_range(&self, from: usize, addrs: &[Addr], turn: usize, when: &str) {
        let got = self.collect(addrs, turn);
        self.judge(&got, from, when);
    }
    pub fn collect(&self, addrs: &[Addr], turn: usize) -> Vec<Answer> {
        let mut got = Vec::new();
        for depth in 0..=self.cfg.conf {
            let one = [addrs[(turn + depth) % addrs.len()]];
            for kind in KINDS {
                let list: &[Addr] = if matches!(kind, Kind::Balance | Kind::Utxos) { &one } else { addrs };
                got.push(Answer { kind, depth, addrs: list.to_vec(), value: self.ask_ok(&request(kind, list, depth)) });
            }
        }
        got
    }
    pub fn judge(&self, got: &[Answer], from: usize, when: &str) {
        let mut last = String::new();
        let mut n = self.node();
        let top = n.history.len() - 1;
        let mut tried = Vec::new();
        for j in (from..=top).rev() {
            let chain = n.history[j].0.clone();
            if tried.contains(&chain) {
                continue;
            }
            let deep = got.iter().filter(|a| a.depth > 0).try_for_each(|a| {
                let l = n.expect_for(&chain, &[], a.depth);
                agrees(a.kind, &a.addrs, &a.value, &l).map_err(|e| format!("at depth {}: {}", a.depth, e))
            });
            if let Err(e) = deep {
                if last.is_empty() {
                    last = e;
                }
                tried.push(chain);
                continue;
            }
            // the latest version with this chain bounds the mempool's
            let jj = (from..=top).filter(|&k| n.history[k].0 == chain).max().unwrap();
            for i in (from..=jj).rev() {
                let pool = n.history[i].1.clone();
                // what the node could no longer hand out: neither listed nor mined at some later version, or mined
                // in a branch that was abandoned before the version served; or said to be unknown
                let gone: Vec<usize> = (0..pool.len())
                    .filter(|&k| {
                        let id = pool[k].id;
                        n.vanished.contains(&id)
                            || (i..=top).any(|v| !n.history[v].1.iter().any(|t| t.id == id) && (!n.mined(v, &id) || v <= jj && !n.mined(jj, &id)))
                    })
                    .collect();
                let gone = &gone[..gone.len().min(6)];
                for mask in 0..1u32 << gone.len() {
                    let m: Vec<Tx> = pool.iter().enumerate().filter(|(k, _)| !gone.iter().position(|g| g == k).map_or(false, |b| mask >> b & 1 == 1)).map(|(_, t)| t.clone()).collect();
                    let l = n.expect_for(&chain, &m, 0);
                    let r = got.iter().filter(|a| a.depth == 0).try_for_each(|a| agrees(a.kind, &a.addrs, &a.value, &l).map_err(|e| format!("at depth 0: {}", e)));
                    match r {
                        Ok(()) => {
                            rt::state(l.digest());
                            return;
                        }
                        Err(e) => {
                            if last.is_empty() || last.starts_with("at depth 0") && mask == 0 && i == jj {
                                last = e;
                            }
                        }
                    }
                }
            }
            tried.push(chain);
        }
        drop(n);
        rt::fail(format!("{}: the answers are right for no chain and mempool the node had since: {}", when, last));
    }
}

#[derive(Clone, Debug)]
pub struct Answer {
    pub kind: Kind,
    pub depth: usize,
    pub addrs: Vec<Addr>,
    pub value: Value,
}
