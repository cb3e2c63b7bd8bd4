//! Worker pools deliver every result once, in order, and hide no failure.
use crate::btc::record;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use vstd::fs::{Action, Event};

/// The index is built by worker threads, and reading one of the inputs fails: the process must not go on.
fn damaged(threads: &[usize], delays: bool) {
    let threads = threads[rt::free(threads.len(), "THREADS index")];
    let batch = [1, 2, 5][rt::free(if delays { 2 } else { 3 }, "BATCH_SIZE index")];
    let w = W::new(Cfg { conf: 1, threads, batch, interval: 1000 });
    w.seed(6);
    let recs: Vec<Vec<u8>> = {
        let n = w.node();
        n.active.iter().map(|h| record(&n.blocks[h])).collect()
    };
    let mut files = [recs[..2].concat(), recs[2..4].concat(), recs[4..].concat()];
    let kind = rt::free(5, "no damage, open fails, bad magic, truncated record, garbled transaction");
    let at = if kind == 0 { 0 } else { rt::free(if kind == 1 { 9 } else { 3 }, "place") };
    match kind {
        // between two records
        2 => {
            let o = if at == 2 { 0 } else { recs[at * 2].len() };
            files[at][o] ^= 0x40;
        }
        3 => {
            let l = files[at].len();
            files[at].truncate(l - 20);
        }
        // the number of transactions
        4 => files[at][88] = 0xfc,
        _ => {}
    }
    for (i, f) in files.iter().enumerate() {
        w.block_file(&format!("blk0000{}.dat", i), f);
    }
    if kind == 1 {
        let n = std::cell::Cell::new(0);
        vstd::fs::verif_hook(Some(std::rc::Rc::new(move |e: &Event| {
            if let Event::OpenRead(p) = e {
                if p.to_string_lossy().contains("blk") {
                    n.set(n.get() + 1);
                    if n.get() == at + 1 {
                        return Action::Fail(5);
                    }
                }
            }
            Action::Proceed
        })));
    }
    let text = format!("{} threads, batches of {}, damage {} at {}", threads, batch, kind, at);
    rt::explore_interleavings(delays);
    w.launch();
    rt::quiesce();
    rt::explore_interleavings(false);
    vstd::fs::verif_hook(None);
    rt::sample(4, || text.clone());
    rt::outcome(rt::hash64(text.as_bytes()));
    if kind == 0 {
        w.must_live("start-up");
        w.check_all(&wallet::addrs(), batch, &text);
        return;
    }
    if w.alive() {
        if vhyper::verif_listening(w.proc()).is_empty() {
            rt::fail(format!("{}: the failure leaves the process hanging", text));
        }
        rt::fail(format!("{}: the failure is hidden, and answers are served", text));
    }
    if w.store_path().exists() {
        rt::fail(format!("{}: the failure is hidden, and a store is written", text));
    }
}

/// Reading block files takes long: seconds, hours.
fn slow() {
    let threads = 1 + rt::free(4, "THREADS - 1");
    let at = rt::free(7, "slow: which of the files being opened");
    let all = rt::free(2, "only that, all from there on") == 1;
    let long = [1u64, 20, 100, 4_000, 1_000_000][rt::free(5, "seconds index")];
    let w = W::new(Cfg { conf: 1, threads, batch: 2, interval: 1000 });
    w.seed(6);
    let recs: Vec<Vec<u8>> = {
        let n = w.node();
        n.active.iter().map(|h| record(&n.blocks[h])).collect()
    };
    for (i, f) in [recs[..2].concat(), recs[2..4].concat(), recs[4..].concat()].iter().enumerate() {
        w.block_file(&format!("blk0000{}.dat", i), f);
    }
    let n = std::cell::Cell::new(0);
    vstd::fs::verif_hook(Some(std::rc::Rc::new(move |e: &Event| {
        if matches!(e, Event::OpenRead(p) if p.to_string_lossy().contains("blk")) {
            n.set(n.get() + 1);
            if n.get() == at + 1 || all && n.get() > at {
                vstd::thread::sleep(std::time::Duration::from_secs(long));
            }
        }
        Action::Proceed
    })));
    let text = format!("{} threads, opening the {}th file{} takes {} s", threads, at, if all { " and all later ones" } else { "" }, long);
    w.launch();
    patiently();
    vstd::fs::verif_hook(None);
    w.must_live(&text);
    if vhyper::verif_listening(w.proc()).is_empty() {
        rt::fail(format!("{}: no answers are served", text));
    }
    w.check_all(&wallet::addrs(), threads, &text);
    w.kill();
    (0..3).for_each(|i| std::fs::remove_file(w.blocks_dir().join(format!("blk0000{}.dat", i))).unwrap());
    w.start();
    w.check_all(&wallet::addrs(), threads, &format!("{}; restart", text));
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(3, || text);
}

/// Waits until all that takes time is over, or there is an interval of updates.
fn patiently() {
    for _ in 0..100 {
        rt::quiesce();
        if (1..9).any(|p| !vhyper::verif_listening(p).is_empty()) {
            return;
        }
        match rt::pending_sleeps().first() {
            Some(&d) => {
                rt::progress();
                rt::advance(d);
            }
            None => return,
        }
    }
}

#[cfg(feature = "pools")]
mod direct {
    use std::cell::RefCell;
    use std::rc::Rc;
    use sut::{sequential_thread_pool::SequentialThreadPool, thread_pool::ThreadPool};

    /// One pool: `n` inputs, of which those in `bad` fail.
    pub fn pool(ordered: bool, max_threads: usize, max_inputs: usize, failing: bool) {
        crate::world::W::new(Default::default());
        let threads = 1 + rt::free(max_threads, "threads - 1");
        let n = rt::free(max_inputs + 1, "inputs");
        let bad = if failing { rt::free(1 << n, "failing inputs") } else { 0 };
        run(ordered, threads, n, bad, failing);
    }

    /// Many threads, long lists.
    pub fn large() {
        crate::world::W::new(Default::default());
        let ordered = rt::free(2, "ordered") == 1;
        let threads = [1, 2, 3, 5, 8, 17, 64, 200][rt::free(8, "threads index")];
        let n = [7, 16, 33, 64, 100, 257, 1000, 4100][rt::free(8, "inputs index")];
        let at = rt::free(4, "failing input: none, first, middle, last");
        run(ordered, threads, n, [usize::MAX, 0, n / 2, n - 1][at], at > 0);
    }

    /// Inputs that take long.
    pub fn slow(max_inputs: usize) {
        crate::world::W::new(Default::default());
        let ordered = rt::free(2, "ordered") == 1;
        let threads = 1 + rt::free(3, "threads - 1");
        let n = 1 + rt::free(max_inputs, "inputs - 1");
        let long = [1u64, 20, 100, 4_000, 1_000_000][rt::free(5, "seconds index")];
        let which = 1 + rt::free((1 << n) - 1, "slow inputs - 1");
        LONG.with(|l| l.set((which, long)));
        run(ordered, threads, n, 0, false);
        LONG.with(|l| l.set((0, 0)));
    }

    thread_local! {
        static LONG: std::cell::Cell<(usize, u64)> = const { std::cell::Cell::new((0, 0)) };
    }

    fn fails(list: bool, bad: usize, i: usize) -> bool {
        if list {
            i == bad
        } else {
            bad >> i & 1 == 1
        }
    }

    fn run(ordered: bool, threads: usize, n: usize, bad: usize, failing: bool) {
        let list = n > 5;
        if failing && bad == 0 && !list {
            return;
        }
        let out: Rc<RefCell<Option<(Vec<(usize, u64)>, bool)>>> = Default::default();
        let o = out.clone();
        rt::explore_interleavings(!list);
        rt::spawn_proc(1, "consumer", move || {
            let got = Rc::new(RefCell::new(Vec::new()));
            let g = got.clone();
            let r = vstd::thread::verif_body(move || {
                let f = move |i: usize| {
                    rt::point("work");
                    let (slow, long) = LONG.with(|l| l.get());
                    if slow >> i.min(63) & 1 == 1 {
                        vstd::thread::sleep(std::time::Duration::from_secs(long));
                    }
                    if fails(list, bad, i) {
                        panic!("input {} fails", i);
                    }
                    (i, (i as u64 + 1) * 1000)
                };
                if ordered {
                    SequentialThreadPool::new(threads, f, 0..n).for_each(|x| g.borrow_mut().push(x));
                } else {
                    ThreadPool::new(threads, f, 0..n).for_each(|x| g.borrow_mut().push(x));
                }
            });
            let v = got.borrow().clone();
            *o.borrow_mut() = Some((v, r.is_ok()));
        });
        super::patiently();
        rt::explore_interleavings(false);
        let name = if ordered { "ordered" } else { "unordered" };
        let text = if list { format!("{} pool, {} threads, {} inputs, failing {}", name, threads, n, bad as isize) } else { format!("{} pool, {} threads, {} inputs, failing {:b}", name, threads, n, bad) };
        let Some((got, ended)) = out.borrow_mut().take() else { rt::fail(format!("{}: the consumer waits for ever", text)) };
        if got.iter().any(|&(i, v)| v != (i as u64 + 1) * 1000) {
            rt::fail(format!("{}: a wrong result in {:?}", text, got));
        }
        let ids: Vec<usize> = got.iter().map(|x| x.0).collect();
        let mut sorted = ids.clone();
        sorted.sort();
        sorted.dedup();
        if sorted.len() != ids.len() {
            rt::fail(format!("{}: a result comes twice: {:?}", text, ids));
        }
        if ordered && !ids.iter().enumerate().all(|(i, &x)| i == x) {
            rt::fail(format!("{}: results out of order: {:?}", text, ids));
        }
        if ids.iter().any(|&i| fails(list, bad, i)) {
            rt::fail(format!("{}: a result of a failed input: {:?}", text, ids));
        }
        if !failing && !ended {
            rt::fail(format!("{}: the consumer fails though no input does: {:?}", text, rt::panics_of(1)));
        }
        if ended && failing {
            rt::fail(format!("{}: the pool ends quietly with {:?}", text, ids));
        }
        if !failing && ids.len() != n {
            rt::fail(format!("{}: only {:?} delivered", text, ids));
        }
        rt::sample(4, || text);
        rt::outcome(rt::hash64(format!("{} {:?}", name, (threads, n, bad, ids, ended)).as_bytes()));
    }
}

fn spaces(th: bool) -> Vec<Space> {
    #[allow(unused_mut)]
    let mut v = vec![
        Space::new("damaged block files", 0, || damaged(&[1, 2, 3, 4], false)).split(8, 3),
        Space::new("slow disks", 0, slow).split(8, 3),
        Space::new("damaged block files, interleaved", 0, || damaged(&[2, 3], true)).delay(if th { 2 } else { 1 }).split(16, 4),
    ];
    #[cfg(feature = "pools")]
    {
        let d = if th { 5 } else { 3 };
        v.insert(0, Space::new("unordered pool", 0, || direct::pool(false, 3, 4, false)).delay(d).split(24, 5));
        v.insert(1, Space::new("ordered pool", 0, || direct::pool(true, 3, 4, false)).delay(d).split(24, 5));
        v.insert(2, Space::new("unordered pool, failing inputs", 0, || direct::pool(false, 3, 3, true)).delay(d - 1).split(24, 5));
        v.insert(3, Space::new("ordered pool, failing inputs", 0, || direct::pool(true, 3, 3, true)).delay(d - 1).split(24, 5));
        v.insert(4, Space::new("unordered pool, suspended threads", 0, || direct::pool(false, 3, 4, true)).naps(2, if th { 1 } else { 0 }).split(24, 5));
        v.insert(4, Space::new("ordered pool, suspended threads", 0, || direct::pool(true, 3, 4, true)).naps(2, if th { 1 } else { 0 }).split(24, 5));
        v.insert(4, Space::new("slow inputs", 0, move || direct::slow(if th { 6 } else { 4 })).split(8, 3));
        v.insert(4, Space::new("many threads, long lists", 0, direct::large).split(8, 3));
        v.insert(4, Space::new("unordered pool, preemptions", 0, || direct::pool(false, 3, 3, false)).preempt(if th { 3 } else { 2 }).split(24, 5));
        v.insert(5, Space::new("ordered pool, preemptions", 0, || direct::pool(true, 3, 3, false)).preempt(if th { 3 } else { 2 }).split(24, 5));
    }
    v
}

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "model_checking",
        rule: "both pools, all numbers of threads and inputs and all sets of failing inputs of a range, under all interleavings within bounds on delays and on preemptions; and the index built by worker threads from block files of which any one is unreadable or damaged, or takes long to read. (Should the pools' constructors change so that they cannot be called directly, only the latter is decided.)",
        assumptions: &["at least one thread", "sequentially consistent memory"],
        spaces,
    }
}
