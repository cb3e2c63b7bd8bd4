//! A persisted store is one whole-block snapshot.
use super::c04::event;
use super::c07::first_height;
use crate::life::*;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;
use vstd::fs::{Action, Event};

/// Completed store files, in order: what the store path holds whenever a new write begins.
pub fn watch(w: &W) -> Rc<RefCell<Vec<Vec<u8>>>> {
    let seen: Rc<RefCell<Vec<Vec<u8>>>> = Rc::new(RefCell::new(Vec::new()));
    let (s, path) = (seen.clone(), w.store_path());
    vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
        if matches!(e, Event::Create(_) | Event::SetLen(_, 0)) {
            capture(&s, &path);
        }
        Action::Proceed
    })));
    seen
}
fn capture(seen: &Rc<RefCell<Vec<Vec<u8>>>>, path: &std::path::Path) {
    if let Ok(d) = std::fs::read(path) {
        let mut v = seen.borrow_mut();
        if v.last() != Some(&d) {
            v.push(d);
        }
    }
}

fn snapshots(confs: usize, n: usize, events: usize) {
    let conf = 1 + rt::free(confs, "CONFIRMATIONS - 1");
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(conf + 3);
    w.write_block_files();
    w.start();
    std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    let a = wallet::addrs();
    let e1 = rt::free(events, "first event");
    let e2 = rt::free(events, "second event");
    let fits = move |e: usize| if e == 4 && conf == 1 { 0 } else { e };
    let files = watch(&w);
    event(&w, fits(e1), 40);
    let w2 = w.clone();
    let finals = Rc::new(RefCell::new(vec![w.node().height() + 1 - conf]));
    let f2 = finals.clone();
    w.burst(n, move |k| {
        event(&w2, fits(if k == 0 { e2 } else { 1 }), 60 + 10 * k as u64);
        f2.borrow_mut().push(w2.node().height() + 1 - conf);
    });
    rt::explore_interleavings(true);
    w.tick_raw();
    rt::explore_interleavings(false);
    w.must_live("updates and writes");
    vstd::fs::verif_hook(None);
    rt::on_sleep(None);
    capture(&files, &w.store_path());
    w.kill();
    // what happens while it is down
    let down = rt::free(3, "while down");
    match down {
        1 => {
            w.mine(3, 80);
        }
        2 if conf > 1 => w.node().reorg(conf - 1, 2, 1, 80),
        2 => return,
        _ => {}
    }
    let files = files.borrow().clone();
    // the last file first
    let pick = files.len() - 1 - rt::free(files.len(), "age of the store file");
    std::fs::write(w.store_path(), &files[pick]).unwrap();
    let from = w.node().log.len();
    w.start();
    let h = first_height(&w, from);
    let most = *finals.borrow().iter().max().unwrap();
    if h > most {
        rt::fail(format!("store file {} of {} holds {} blocks, but only {} were final", pick + 1, files.len(), h, most));
    }
    w.check_all(&a, h, &format!("restart from store file {} of {}", pick + 1, files.len()));
    rt::outcome(rt::hash64(&[conf as u8, e1 as u8, e2 as u8, pick as u8, h as u8, down as u8]));
    rt::sample(4, || format!("CONFIRMATIONS {}, events {} {}, {} updates in a row, store file {} of {} with {} blocks, while down {}", conf, e1, e2, n + 1, pick + 1, files.len(), h, down));
}

/// Any history, then a restart from each store file of it.
fn any_file(confs: &[usize], menu: &[Ev], steps: usize) {
    let conf = confs[rt::free(confs.len(), "CONFIRMATIONS index")];
    let mut l = Life::new(Cfg { conf, ..Cfg::default() }, 4);
    let files = watch(&l.w);
    let mut heights = vec![l.w.node().height()];
    for _ in 0..steps {
        if !l.event(menu[rt::free(menu.len(), "event")]) {
            return;
        }
        l.poll();
        heights.push(l.w.node().height());
    }
    vstd::fs::verif_hook(None);
    capture(&files, &l.w.store_path());
    let files = files.borrow().clone();
    let pick = files.len() - 1 - rt::free(files.len(), "age of the store file");
    l.w.kill();
    match rt::free(3, "while down") {
        1 => {
            l.event(Blocks(17));
        }
        2 if conf > 1 => {
            l.event(Chain(4));
        }
        2 => return,
        _ => {}
    }
    std::fs::write(l.w.store_path(), &files[pick]).unwrap();
    let from = l.w.node().log.len();
    l.w.start();
    let h = first_height(&l.w, from);
    let most = heights.iter().max().unwrap() + 1 - conf;
    let text = format!("{}; restart from store file {} of {}", l.text, pick + 1, files.len());
    if h > most {
        rt::fail(format!("{}: it holds {} blocks, but only {} were final", text, h, most));
    }
    l.w.check_all(&l.addrs, h, &text);
    l.poll();
    rt::outcome(rt::hash64(text.as_bytes()));
    rt::sample(3, || text);
}

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "model_checking",
        rule: "all interleavings, within a bound on delays, of two or three consecutive updates with the writes they trigger; then a restart from each completed store file, with nothing, a block or a maximal branch switch meanwhile; all answers are compared with a replay",
        assumptions: &["healthy node and disk", "sequentially consistent memory; scheduling points are lock, channel, RPC, disk and task operations"],
        spaces: |th| {
            let d = if th { 3 } else { 2 };
            vec![
                Space::new("two updates", 0, move || snapshots(3, 1, if th { 5 } else { 2 })).delay(d).split(32, 5),
                Space::new("any history, any store file", 0, move || {
                    let all = [Blocks(1), Mesh(2), Blocks(17), Chain(3), Chain(5), Pool(3), Wide, Chain(4), Restart, Chain(7)];
                    any_file(if th { &[1, 2, 3, 6, 12] } else { &[1, 3, 6] }, if th { &all } else { &all[..5] }, 3)
                })
                .split(32, 3),
                Space::new("a suspended thread", 0, move || snapshots(2, 2, 2)).naps(if th { 2 } else { 1 }, 1).split(32, 5),
                Space::new("three updates", 0, move || snapshots(2, 2, 2)).delay(d).split(32, 5),
            ]
        },
    }
}
