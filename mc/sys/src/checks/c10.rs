//! Final blocks reach the store file.
use super::c04::event;
use super::c07::first_height;
use crate::life::*;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn resumes(w: &W, when: &str) {
    let want = w.node().height() + 1 - w.cfg.conf;
    w.kill();
    let from = w.node().log.len();
    w.start();
    let h = first_height(w, from);
    if h != want {
        rt::fail(format!("{}: the store file holds {} blocks of {} final ones", when, h, want));
    }
    rt::outcome(rt::hash64(format!("{} {}", h, when).as_bytes()));
}

fn new(conf: usize) -> W {
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    w
}

fn last(confs: usize, n: usize, events: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = new(conf);
    let e1 = rt::free(events, "first event");
    let e2 = rt::free(events, "second event");
    let fits = move |e: usize| if e == 4 && conf == 1 { 0 } else { e };
    event(&w, fits(e1), 40);
    let w2 = w.clone();
    w.burst(n, move |k| {
        event(&w2, fits(if k == 0 { e2 } else { 1 }), 60 + 10 * k as u64);
    });
    rt::explore_interleavings(true);
    w.tick_raw();
    w.must_live("updates and writes");
    rt::on_sleep(None);
    // nothing is being written now: the next update that brings a block decides
    w.mine(2, 85);
    w.tick_raw();
    rt::explore_interleavings(false);
    w.must_live("the last update");
    resumes(&w, &format!("CONFIRMATIONS {}, {} updates in a row, then one more", conf, n + 1));
    let a = wallet::addrs();
    w.check_depth(conf, &a, &w.node().expect(conf).clone(), 0, "restart");
    rt::sample(3, || format!("CONFIRMATIONS {}, events {} {}, {} updates in a row, then one more", conf, e1, e2, n + 1));
}

/// The writer, done with a write, is slow to look for the next one, and meanwhile a whole update happens.
fn coming_back(confs: usize, bursts: usize, events: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let n = 1 + rt::free(bursts, "further updates");
    let w = new(conf);
    let e1 = rt::free(events, "first event");
    let e2 = rt::free(events, "last event");
    let fits = move |e: usize| if e == 4 && conf == 1 { 0 } else { e };
    event(&w, fits(e1), 40);
    let away = Rc::new(Cell::new(false));
    let (w2, away2) = (w.clone(), away.clone());
    w.burst(n, move |k| {
        event(&w2, fits(e2), 60 + 10 * k as u64);
        if k + 1 == n {
            away2.set(rt::suspended());
        }
    });
    rt::suspend_only_at(Some("recv"));
    rt::explore_interleavings(true);
    w.tick_raw();
    rt::explore_interleavings(false);
    rt::on_sleep(None);
    w.must_live("updates and writes");
    if !away.get() || e2 == 2 {
        return;
    }
    resumes(&w, &format!("CONFIRMATIONS {}, {} updates in a row, the last while the writer is between two writes", conf, n + 1));
    rt::sample(3, || format!("CONFIRMATIONS {}, events {} {}, {} updates in a row", conf, e1, e2, n + 1));
}

/// The store file lies on a filesystem of its own, and is named in one of several ways.
fn elsewhere() {
    let conf = 1 + rt::free(2, "CONFIRMATIONS - 1");
    let way = rt::free(6, "path of the store file");
    let n = 1 + rt::free(3, "updates");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    let data = w.root.join("data");
    std::fs::create_dir_all(data.join("b.d")).unwrap();
    let root = w.root.to_str().unwrap().to_string();
    let path = match way {
        0 => format!("{}/data/store.dat", root),
        1 => "data/store.dat".into(),
        2 => "./data/b.d/../store".into(),
        3 => format!("{}//data/b.d/.store", root),
        4 => "data/store.tmp".into(),
        _ => format!("{}/data/store file \u{e9}.1", root),
    };
    w.env.borrow_mut().push(("STORE_FILE_PATH".into(), Some(path.clone().into())));
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    for i in 0..n {
        w.mine(i % 4, 40 + i as u64);
        w.tick();
        w.check_all(&wallet::addrs(), i, &format!("store file at {}", path));
    }
    resumes(&w, &format!("CONFIRMATIONS {}, {} updates, store file at {}", conf, n, path));
    w.mine(2, 60);
    w.tick();
    resumes(&w, &format!("CONFIRMATIONS {}, {} updates and a restart, store file at {}", conf, n, path));
    w.check_all(&wallet::addrs(), 1, &format!("store file at {}", path));
}

/// All intervals between updates, in the clock of the program.
fn intervals(steps: usize) {
    let conf = 1 + rt::free(2, "CONFIRMATIONS - 1");
    let interval = [1, 5, 50, 200, 999, 1001, 15_000, 3_600_000][rt::free(8, "UPDATE_INTERVAL index")];
    let w = W::new(Cfg { conf, interval, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let mut text = format!("CONFIRMATIONS {}, UPDATE_INTERVAL {}", conf, interval);
    for s in 0..steps {
        let e = [1, 0, 4, 2][rt::free(4, "event")];
        if e == 4 && conf == 1 {
            return;
        }
        text += &format!("; {}", event(&w, e, 40 + 11 * s as u64));
        w.tick();
    }
    w.mine(1, 99);
    w.tick();
    resumes(&w, &text);
    w.check_all(&wallet::addrs(), 0, &text);
    rt::sample(3, || text.clone());
}

/// Each update on its own.
fn histories(confs: usize, steps: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = new(conf);
    let text = Rc::new(RefCell::new(String::new()));
    let mut fresh = 0;
    for s in 0..steps {
        let e = rt::free(6, "event");
        if e == 5 {
            if fresh == 0 {
                return;
            }
            resumes(&w, &text.borrow());
            fresh = 0;
            text.borrow_mut().push_str("; restart");
        } else {
            if e == 4 && conf == 1 {
                return;
            }
            let t = event(&w, e, 40 + 11 * s as u64);
            text.borrow_mut().push_str("; ");
            text.borrow_mut().push_str(t);
            w.tick();
            fresh += 1;
        }
    }
    w.mine(1, 99);
    w.tick();
    resumes(&w, &text.borrow());
    rt::state(w.ledger().digest());
    rt::sample(3, || format!("CONFIRMATIONS {}{}", conf, text.borrow()));
}

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "model_checking",
        rule: "all interleavings, within a bound on delays, of bursts of updates with the writer, followed by an update with a new block; all histories of updates and restarts to a depth; all intervals of a menu between updates; the height at which a restart resumes must be that of the final blocks",
        assumptions: &["healthy node and disk", "sequentially consistent memory; scheduling points are lock, channel, RPC, disk and task operations"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("histories", 0, move || histories(3, if th { 4 } else { 3 })).split(16, 3),
                Space::new("intervals between updates", 0, move || intervals(if th { 4 } else { 3 })).split(16, 3),
                Space::new("store files elsewhere", 0, elsewhere).split(8, 3),
                Space::new("bursts, branches and stalls", 0, move || {
                    let all = [Nothing, Blocks(1), Blocks(17), Restart, Stall(1), Release, Chain(3), Chain(8), Pool(1), Blocks(40), Mesh(2), Stall(4), Chain(5), Wide];
                    Life::run_with(&confs(if th { &[1, 2, 3, 6, 12] } else { &[1, 2, 6] }), 4, &[Blocks(1)], if th { &all } else { &all[..9] }, 2, 2, |l| l.resume = true)
                })
                .split(32, 3),
                Space::new("after many updates", 0, move || {
                    Life::run_with(&confs(if th { &[1, 2, 6, 12] } else { &[1, 2, 6] }), 4, &[], &[Blocks(1), Nothing, Chain(2), Restart], if th { 8 } else { 5 }, 1, |l| l.resume = true)
                })
                .split(32, 3),
                Space::new("more final blocks at once than usual", 0, || Life::run_with(&confs(&[1, 2]), 4, &[Empty(2_500)], &[Blocks(300), Restart, Blocks(1)], 2, 2, |l| l.resume = true)).split(16, 3),
                Space::new("the writer coming back", 0, move || coming_back(3, if th { 4 } else { 3 }, if th { 5 } else { 3 })).naps(1, 2).split(32, 5),
                Space::new("a suspended thread", 0, move || last(if th { 3 } else { 2 }, 1 + rt::free(if th { 3 } else { 2 }, "further updates"), if th { 5 } else { 2 }))
                    .naps(2, if th { 1 } else { 0 })
                    .split(32, 5),
                Space::new("one update, then one more", 0, move || last(3, 0, 2)).delay(d).split(32, 5),
                Space::new("two updates, then one more", 0, move || last(2, 1, if th { 5 } else { 2 })).delay(d).split(32, 5),
                Space::new("three updates, then one more", 0, move || last(2, 2, 2)).delay(d).split(32, 5),
            ]
        },
    }
}
