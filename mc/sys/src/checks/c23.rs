//! Failure of any part stops the whole process.
use super::c06::mutating;
use crate::node::Node;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vhyper::{Call, Reply};
use vstd::fs::{Action, Event};

/// A running indexer with a stored index, and no block files to fall back to.
fn running(conf: usize) -> W {
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.submit(1, 5);
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    w
}

/// What failed fails for good: within a few updates, each with a block, the process must have ended.
fn must_end(w: &W, what: &str) {
    for k in 0..w.cfg.conf + 3 {
        if !w.alive() {
            break;
        }
        w.mine(1 + k % 3, 200 + k as u64);
        w.tick_raw();
    }
    if w.alive() {
        rt::fail(format!("{}: the process goes on{}", what, w.panic_text()));
    }
}

/// The machine works again: the index found on disk is intact.
fn restart(w: &W, what: &str) {
    vstd::fs::verif_hook(None);
    vhyper::verif_port_busy(false);
    vhyper::verif_servers_work();
    vtokio::runtime::verif_fail(None);
    rt::on_sleep(None);
    w.on_call(None);
    w.kill();
    let a = wallet::addrs();
    w.launch();
    rt::quiesce();
    w.must_live(&format!("{}; restart", what));
    if vhyper::verif_listening(w.proc()).is_empty() {
        rt::fail(format!("{}: the restarted process does not serve", what));
    }
    w.check_all(&a, 0, &format!("{}; restart", what));
    w.mine(2, 300);
    w.tick();
    w.check_all(&a, 1, &format!("{}; update after the restart", what));
}

/// Goes on exactly, or has ended.
fn sound(w: &W, what: &str) {
    if w.alive() {
        for k in 0..3 {
            w.mine(1 + k % 3, 200 + k as u64);
            w.tick_raw();
        }
        if w.alive() {
            w.must_live(what);
            w.check_all(&wallet::addrs(), 0, &format!("{}; later", what));
            rt::count("goes on", 1);
        }
    }
}

/// Queries in flight: they may be cut off, but not be wrong.
fn queries(w: &W, n: usize) -> Vec<Pending> {
    let a = wallet::addrs();
    (0..n).map(|k| w.send(&request(KINDS[3 - k % 4], &a, [0, w.cfg.conf][k % 2]))).collect()
}

/// The node stops answering well at one of the calls of two updates; the second runs while the first is written.
fn polling(confs: usize, asks: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let at = rt::free(12, "at call");
    let how = rt::free(3, "refused, error object, once refused");
    let w = running(conf);
    w.mine(1, 40);
    w.mine(2, 41);
    let (calls, hit) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(false)));
    let h = hit.clone();
    w.on_call(Some(Rc::new(move |n: &mut Node, _: &Call| {
        calls.set(calls.get() + 1);
        if calls.get() - 1 < at || how == 2 && calls.get() - 1 > at {
            return None;
        }
        h.set(true);
        rt::note(|| "the node fails".into());
        Some(if how == 1 { n.rpc_error(-28, "Loading block index...") } else { Reply::Transport })
    })));
    let w2 = w.clone();
    w.burst(1, move |_| {
        w2.mine(1, 60);
        w2.submit(2, 61);
    });
    rt::explore_interleavings(true);
    let q = queries(&w, asks);
    w.tick_raw();
    rt::explore_interleavings(false);
    rt::on_sleep(None);
    if !hit.get() {
        return;
    }
    let what = format!("CONFIRMATIONS {}, the node fails ({}) at call {}", conf, ["refused", "error", "refused once"][how], at);
    if how == 2 {
        sound(&w, &what);
    } else {
        must_end(&w, &what);
    }
    drop(q);
    restart(&w, &what);
    rt::outcome(rt::hash64(&[conf as u8, at as u8, how as u8]));
    rt::sample(3, || what.clone());
}

const ERRNO: [i32; 4] = [5, 28, 13, 30];

/// The disk fails at one of the operations of a write, while updates go on.
fn persisting(confs: usize, errs: usize, asks: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let at = rt::free(16, "at operation");
    let how = rt::free(errs + 4, "error for good, once, interrupted, short, for good in operations of this kind only");
    let w = running(conf);
    w.mine(1, 40);
    w.mine(2, 41);
    let n = Cell::new(0);
    let hit = Rc::new(RefCell::new(None::<String>));
    let h = hit.clone();
    vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
        if !mutating(e) {
            return Action::Proceed;
        }
        n.set(n.get() + 1);
        let kind = e.label().split(' ').next().unwrap_or_default().to_string();
        let late = match &*h.borrow() {
            Some(first) if how == errs + 3 => first.split(' ').next() != Some(&kind),
            _ => how >= errs && n.get() - 1 > at && how != errs + 3,
        };
        if n.get() - 1 < at || late || how == errs + 3 && !matches!(e, Event::Create(_) | Event::Write(..) | Event::Sync(_) | Event::Rename(..)) {
            return Action::Proceed;
        }
        let act = match how - how.min(errs) {
            _ if how < errs => Action::Fail(ERRNO[how]),
            3 => Action::Fail(5),
            0 => Action::Fail(28),
            1 if matches!(e, Event::Write(..)) => Action::Fail(4),
            2 => match e {
                Event::Write(_, len) if *len > 1 => Action::Short(len / 2),
                _ => return Action::Proceed,
            },
            _ => return Action::Proceed,
        };
        if h.borrow().is_none() {
            *h.borrow_mut() = Some(e.label());
        }
        rt::note(|| format!("disk: {} -> {:?}", e.label(), act));
        act
    })));
    let w2 = w.clone();
    w.burst(1, move |_| {
        w2.mine(1, 60);
        w2.submit(2, 61);
    });
    rt::explore_interleavings(true);
    let q = queries(&w, asks);
    w.tick_raw();
    rt::explore_interleavings(false);
    rt::on_sleep(None);
    let op = match hit.borrow().clone() {
        None => return,
        Some(op) => op,
    };
    let what = format!("CONFIRMATIONS {}, disk operation {} ({}) {}", conf, at, op, if how < errs { format!("and all later ones fail with {}", ERRNO[how]) } else { ["fails once", "is interrupted", "is short", "and all later ones of its kind fail"][how - errs].to_string() });
    if how < errs || how == errs + 3 {
        must_end(&w, &what);
    } else {
        if how > errs {
            w.must_live(&what);
        }
        sound(&w, &what);
    }
    drop(q);
    restart(&w, &what);
    rt::outcome(rt::hash64(&[conf as u8, at as u8, how as u8]));
    rt::sample(3, || what.clone());
}

/// A part cannot start, or the server breaks later.
fn serving(confs: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let how = rt::free(7, "what fails");
    let stored = rt::free(2, "stored index") == 1;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.submit(1, 5);
    if stored {
        w.start();
        w.kill();
        std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
        w.mine(1, 20);
    }
    let what = format!(
        "CONFIRMATIONS {}, {} stored index, {}",
        conf,
        if stored { "a" } else { "no" },
        match how {
            0 => "the port is taken".to_string(),
            1..=5 => format!("runtime {} cannot be created", how - 1),
            _ => "the server breaks off".to_string(),
        }
    );
    match how {
        0 => vhyper::verif_port_busy(true),
        1..=5 => vtokio::runtime::verif_fail(Some(how - 1)),
        _ => {}
    }
    let w2 = w.clone();
    // updates go on meanwhile
    w.burst(2, move |k| {
        w2.mine(1 + k % 3, 30 + k as u64);
    });
    rt::explore_interleavings(true);
    w.launch();
    if how == 6 {
        rt::explore_interleavings(false);
        rt::quiesce();
        rt::explore_interleavings(true);
        let q = queries(&w, 1);
        let w2 = w.clone();
        w.mine(1, 60);
        w.burst(1, move |_| {
            w2.mine(2, 61);
        });
        rt::spawn_proc(0, "fault".to_string(), || {
            rt::point("the server breaks off");
            vhyper::verif_servers_fail();
        });
        w.tick_raw();
        drop(q);
    } else {
        rt::quiesce();
    }
    rt::explore_interleavings(false);
    rt::on_sleep(None);
    let fired = match how {
        1..=5 => vtokio::runtime::verif_failed(),
        _ => true,
    };
    if fired {
        must_end(&w, &what);
    } else {
        w.must_live(&what);
        rt::count("fewer runtimes", 1);
    }
    restart(&w, &what);
    rt::outcome(rt::hash64(&[conf as u8, how as u8, stored as u8]));
    rt::sample(3, || what.clone());
}

/// The start fails: nothing is served, and what is on disk is either nothing or a whole index.
fn starting(confs: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let stored = rt::free(2, "stored index") == 1;
    let disk = rt::free(2, "disk or node") == 0;
    let at = rt::free(14, "at operation or call");
    let err = if disk { rt::free(ERRNO.len(), "error") } else { rt::free(3, "how") };
    rt::shard_point();
    let w = W::new(Cfg { conf, threads: 2, batch: 2, interval: 1000 });
    w.seed(conf + 4);
    w.write_block_files();
    w.submit(1, 5);
    if stored {
        w.start();
        w.kill();
        std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    }
    w.mine(1, 20);
    w.mine(2, 21);
    let before = std::fs::read(w.store_path()).ok();
    let hit = Rc::new(Cell::new(false));
    let (h, n) = (hit.clone(), Rc::new(Cell::new(0)));
    if disk {
        vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
            if !mutating(e) {
                return Action::Proceed;
            }
            n.set(n.get() + 1);
            if n.get() - 1 < at {
                return Action::Proceed;
            }
            h.set(true);
            Action::Fail(ERRNO[err])
        })));
    } else {
        w.on_call(Some(Rc::new(move |nd: &mut Node, _| {
            n.set(n.get() + 1);
            if n.get() - 1 < at {
                return None;
            }
            h.set(true);
            Some(match err {
                0 => Reply::Transport,
                1 => nd.rpc_error(-28, "Loading block index..."),
                _ => Reply::Http { status: 401, chunks: vec![], broken: false },
            })
        })));
    }
    w.launch();
    rt::quiesce();
    if !hit.get() {
        return;
    }
    let what = format!("CONFIRMATIONS {}, {} stored index, the {} fails from {} {} on at start", conf, if stored { "a" } else { "no" }, if disk { "disk" } else { "node" }, if disk { "operation" } else { "call" }, at);
    must_end(&w, &what);
    if stored && !disk && std::fs::read(w.store_path()).ok() != before {
        rt::fail(format!("{}: the stored index changed", what));
    }
    restart(&w, &what);
    rt::outcome(rt::hash64(&[conf as u8, stored as u8, disk as u8, at as u8, err as u8]));
    rt::sample(3, || what.clone());
}

/// The node leaves the chain of the stored index: what it says cannot be followed any more.
fn uprooted(confs: usize, asks: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let start = rt::free(2, "while it runs, while it is stopped") == 1;
    let depth = conf + rt::free(2, "blocks replaced - CONFIRMATIONS");
    let extra = 1 + rt::free(3, "blocks gained - 1");
    let w = running(conf);
    let old = w.node().active.clone();
    if start {
        w.kill();
    }
    w.node().reorg(depth, extra, 1, 500);
    rt::explore_interleavings(true);
    let q = queries(&w, if start { 0 } else { asks });
    if start {
        w.launch();
        rt::quiesce();
    } else {
        w.tick_raw();
    }
    rt::explore_interleavings(false);
    let what = format!("CONFIRMATIONS {}, the node replaces {} blocks by {}{}", conf, depth, depth + extra, if start { " before the start" } else { "" });
    for k in 0..conf + 3 {
        if !w.alive() {
            break;
        }
        w.mine(1 + k % 3, 200 + k as u64);
        w.tick_raw();
    }
    if w.alive() {
        if vhyper::verif_listening(w.proc()).is_empty() {
            rt::fail(format!("{}: the process is neither serving nor gone{}", what, w.panic_text()));
        }
        w.check_all(&wallet::addrs(), 0, &what);
    }
    drop(q);
    // the node returns to the chain that was stored
    w.node().switch_to(&old, 2, 700);
    if !w.alive() {
        restart(&w, &what);
    }
    rt::outcome(rt::hash64(&[conf as u8, start as u8, depth as u8, extra as u8]));
    rt::sample(3, || what.clone());
}

fn bad_request(k: usize) -> Req {
    let a = wallet::addrs()[0].text();
    let mut r = Req::post("/addresses/balance", "");
    match k {
        0 => {
            r.chunks = vec![b"[\"".to_vec()];
            r.broken = true;
        }
        1 => {
            r.chunks = vec![b"[\"".to_vec()];
            r.stalled = true;
        }
        2 => r.chunks = vec![b"[1,{}".to_vec()],
        3 => r.chunks = vec![vec![0xff; 70000]],
        4 => r = Req::get(&format!("/addresses/{}/utxos?confirmations=18446744073709551615", a)),
        5 => r = Req::get("/addresses/1/balance"),
        6 => {
            r = Req::get(&format!("/addresses/{}/balance", a));
            r.broken = true;
        }
        _ => r = Req::get("/nowhere//%"),
    }
    r
}

/// Requests that fail do not stop it, at whatever moment they come.
fn requests(conf: usize) {
    let k = rt::free(8, "request");
    let then = rt::free(8, "another");
    let w = running(conf);
    w.mine(1, 40);
    w.mine(2, 41);
    let w2 = w.clone();
    w.burst(1, move |_| {
        w2.mine(1, 60);
        w2.submit(2, 61);
    });
    rt::explore_interleavings(true);
    let p = w.send(&bad_request(k));
    let q = w.send(&bad_request(then));
    w.tick_raw();
    rt::explore_interleavings(false);
    rt::on_sleep(None);
    let what = format!("failing requests {} and {}", k, then);
    if !w.alive() {
        rt::fail(format!("{}: the process ended{}", what, w.panic_text()));
    }
    let a = wallet::addrs();
    w.check_all(&a, 0, &what);
    for i in 0..2 {
        w.mine(i, 70 + i as u64);
        w.tick_raw();
        w.check_all(&a, i, &format!("{}; a later update", what));
    }
    drop((p, q));
    restart(&w, &what);
    rt::outcome(rt::hash64(&[k as u8, then as u8]));
}

pub fn check() -> Check {
    Check {
        id: "C23",
        level: "fault_enumeration",
        rule: "the node, the disk, the port, the creation of a runtime or the server fails, at every call or operation of start-up or of two consecutive updates and the writes they trigger, for good or once, under all interleavings within a bound on delays; the process must have ended, and a restart from the file it left must serve exactly; a node that leaves the stored chain stops it; interrupted and short writes and failing requests must not stop it. Counted by fault and place",
        assumptions: &["the program may go on until a few updates later", "a single failure may be survived by retrying"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("polling", 0, move || polling(if th { 3 } else { 2 }, 1)).delay(d).split(64, 4),
                Space::new("persisting", 0, move || persisting(if th { 3 } else { 2 }, if th { 4 } else { 2 }, 1)).delay(d).split(64, 4),
                Space::new("polling, a suspended thread", 0, move || polling(2, 1)).naps(if th { 2 } else { 1 }, 0).split(64, 4),
                Space::new("persisting, a suspended thread", 0, move || persisting(2, 2, 1)).naps(if th { 2 } else { 1 }, 0).split(64, 4),
                Space::new("serving", 0, move || serving(if th { 3 } else { 2 })).delay(d).split(32, 4),
                Space::new("starting", 0, move || starting(3)).split(32, 0),
                Space::new("a chain that cannot be followed", 0, move || uprooted(if th { 4 } else { 3 }, 1)).delay(d - 1).split(32, 3),
                Space::new("failing requests", 0, move || requests(2)).delay(d).split(32, 3),
            ]
        },
    }
}
