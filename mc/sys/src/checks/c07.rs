//! A crash while persisting never loses the stored index.
use super::c06::mutating;
use crate::runner::{Check, Space};
use crate::wallet;
use crate::world::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;
use vstd::fs::{Action, Event, Op};

/// Contents and names of all files of the scratch directory, with inode numbers.
struct Disk {
    names: BTreeMap<PathBuf, u64>,
    data: BTreeMap<u64, Vec<u8>>,
    log: usize,
}

fn disk(w: &W) -> Disk {
    use std::os::unix::fs::MetadataExt;
    let mut d = Disk { names: BTreeMap::new(), data: BTreeMap::new(), log: vstd::fs::verif_log_len() };
    for e in std::fs::read_dir(&w.root).unwrap().flatten() {
        let p = e.path();
        if p.is_file() {
            let ino = std::fs::metadata(&p).unwrap().ino();
            d.names.insert(p.clone(), ino);
            d.data.insert(ino, std::fs::read(&p).unwrap());
        }
    }
    d
}

/// What may be left after a power failure: some prefix of the metadata operations, reaching at least to the
/// last sync; of each file, what was written before its last sync, and of the rest all, nothing, half or zeros.
fn power_loss(w: &W, base: &Disk) -> String {
    let log = vstd::fs::verif_log();
    let log = &log[base.log.min(log.len())..];
    let synced = log.iter().rposition(|o| matches!(o, Op::Sync { .. } | Op::SyncDir)).map_or(0, |i| i + 1);
    // cuts right after each metadata operation
    let mut cuts = vec![log.len()];
    for (i, o) in log.iter().enumerate().rev() {
        if i >= synced && !matches!(o, Op::Write { .. } | Op::Sync { .. } | Op::SyncDir) {
            cuts.push(i);
        }
    }
    let cut = cuts[rt::free(cuts.len(), "metadata operations lost")];
    let last_sync = |ino: u64| log.iter().rposition(|o| matches!(o, Op::Sync { ino: i } if *i == ino)).map_or(0, |i| i);
    let unsynced = log.iter().enumerate().any(|(i, o)| matches!(o, Op::Write { ino, .. } if i >= last_sync(*ino)));
    let mode = if unsynced { rt::free(4, "unsynced data: kept, lost, half, zeros") } else { 0 };
    let mut names = base.names.clone();
    let mut data = base.data.clone();
    fn put(f: &mut Vec<u8>, off: usize, d: &[u8]) {
        if f.len() < off + d.len() {
            f.resize(off + d.len(), 0);
        }
        f[off..off + d.len()].copy_from_slice(d);
    }
    for (i, o) in log.iter().enumerate() {
        match o {
            Op::Write { ino, off, data: d } => {
                let f = data.entry(*ino).or_default();
                let off = *off as usize;
                if i < last_sync(*ino) {
                    put(f, off, d);
                } else {
                    match mode {
                        0 => put(f, off, d),
                        1 => {}
                        2 => put(f, off, &d[..d.len() / 2]),
                        _ => put(f, off, &vec![0; d.len()]),
                    }
                }
            }
            Op::Sync { .. } | Op::SyncDir => {}
            _ if i >= cut => {}
            Op::Create { path, ino } => {
                names.insert(path.clone(), *ino);
                data.insert(*ino, Vec::new());
            }
            Op::SetLen { ino, len } => data.entry(*ino).or_default().resize(*len as usize, 0),
            Op::Rename { from, to, ino } => {
                names.remove(from);
                names.insert(to.clone(), *ino);
            }
            Op::Link { to, ino, .. } => {
                names.insert(to.clone(), *ino);
            }
            Op::Remove { path } => {
                names.remove(path);
            }
        }
    }
    for e in std::fs::read_dir(&w.root).unwrap().flatten() {
        if e.path().is_file() {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
    for (p, ino) in &names {
        std::fs::write(p, data.get(ino).cloned().unwrap_or_default()).unwrap();
    }
    format!("power fails, {} metadata operations lost, unsynced data mode {}", log.len() - cut, mode)
}

/// The process dies at one of the coming disk operations, or not.
fn arm(fine: bool) -> Rc<Cell<bool>> {
    let armed = Rc::new(Cell::new(true));
    let on = armed.clone();
    vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
        if !on.get() || !mutating(e) {
            return Action::Proceed;
        }
        let mut menu = vec![Action::Proceed, Action::Crash];
        if let Event::Write(_, n) = e {
            if fine {
                menu.extend((1..=*n).map(Action::Torn));
            } else {
                let mut cuts = vec![1, 3, 4, 5, 36, 68, n / 3, n / 2, n - n / 4, n.saturating_sub(5), n.saturating_sub(1), *n];
                cuts.retain(|c| c >= &1 && c <= n);
                cuts.dedup();
                menu.extend(cuts.into_iter().map(Action::Torn));
            }
        }
        let k = rt::choose(menu.len(), rt::Class::Dev, |c| format!("{}: {:?}", e.label(), menu[c as usize]));
        if k > 0 {
            on.set(false);
            rt::note(|| format!("crash at {}: {:?}", e.label(), menu[k]));
        }
        menu[k].clone()
    })));
    armed
}

/// The file system takes only a part of some writes, or is interrupted, or gets full.
fn in_part(startup: bool, fine: bool) {
    let conf = 2;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    w.seed(6);
    w.write_block_files();
    let a = wallet::addrs();
    let mut heights = vec![w.node().height() + 1 - conf];
    if !startup {
        w.start();
        std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
        w.mine(2, 40);
        w.mine(3, 41);
        heights.push(w.node().height() + 1 - conf);
    }
    let full = Rc::new(Cell::new(false));
    let parts = Rc::new(Cell::new(0usize));
    let (f2, p2) = (full.clone(), parts.clone());
    vstd::fs::verif_hook(Some(Rc::new(move |e: &Event| {
        let Event::Write(_, n) = e else { return Action::Proceed };
        let n = *n;
        if f2.get() {
            return Action::Fail(28);
        }
        let mut cuts = if fine { (1..n).collect() } else { vec![1, n / 3, n / 2, n.saturating_sub(1)] };
        cuts.retain(|&c| c >= 1 && c < n);
        cuts.dedup();
        let k = rt::choose(2 + 2 * cuts.len(), rt::Class::Dev, |c| match c as usize {
            0 => "the write takes all".into(),
            1 => "the write is interrupted".into(),
            c if c - 2 < cuts.len() => format!("the write takes {} of {} bytes", cuts[c - 2], n),
            c => format!("the disk is full after {} of {} bytes", cuts[c - 2 - cuts.len()], n),
        });
        match k {
            0 => return Action::Proceed,
            1 => {
                p2.set(p2.get() + 1);
                return Action::Fail(4);
            }
            _ => p2.set(p2.get() + 1),
        }
        let c = k - 2;
        f2.set(c >= cuts.len());
        Action::Short(cuts[c % cuts.len()])
    })));
    if startup {
        w.launch();
        rt::quiesce();
    } else {
        w.tick_raw();
    }
    vstd::fs::verif_hook(None);
    let text = format!("{} writes in part{}", parts.get(), if full.get() { ", then the disk is full" } else { "" });
    if !full.get() {
        w.must_live(&text);
        w.check_all(&a, 0, &text);
        heights = vec![w.node().height() + 1 - conf];
    }
    w.kill();
    let from = w.node().log.len();
    w.start();
    let h = first_height(&w, from);
    if !heights.contains(&h) {
        rt::fail(format!("restart after {}: the store found has {} blocks, not one of {:?}", text, h, heights));
    }
    w.check_all(&a, 1, &format!("restart after {}", text));
    w.mine(1, 90);
    w.tick();
    w.check_all(&a, 2, &format!("one block after {}", text));
    rt::outcome(rt::hash64(&rt::choices().iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>()));
    rt::sample(4, || text);
}

pub fn first_height(w: &W, from: usize) -> usize {
    let n = w.node();
    match n.log[from..].iter().find(|(m, _)| m == "getblockhash") {
        Some((_, p)) => p[0].as_u64().unwrap_or(0) as usize,
        None => rt::fail("the restarted process asks the node for no block"),
    }
}

fn crash(startup: bool, power: bool, fine: bool, rounds: usize) {
    crash_at(None, startup, power, fine, rounds)
}

/// The store file has another name.
fn named(startup: bool) {
    const NAMES: [&str; 8] = ["store", "store.tmp", "a.b.tmp", ".tmp", "blocks.dat.bak", "store.dat~", "store.tmp.tmp", "s p"];
    let name = NAMES[rt::free(NAMES.len(), "name of the store file")];
    let power = rt::free(2, "killed, power failure") == 1;
    crash_at(Some(name), startup, power, false, 1)
}

fn crash_at(name: Option<&str>, startup: bool, power: bool, fine: bool, rounds: usize) {
    let conf = 2;
    let w = W::new(Cfg { conf, ..Cfg::default() });
    if let Some(n) = name {
        w.env.borrow_mut().push(("STORE_FILE_PATH".into(), Some(w.root.join(n).into())));
    }
    w.seed(6);
    w.write_block_files();
    let a = wallet::addrs();
    let mut text = String::new();
    let mut heights = vec![w.node().height() + 1 - conf];
    if !startup {
        w.start();
        w.check_all(&a, 0, "start-up");
        std::fs::remove_file(w.blocks_dir().join("blk00000.dat")).unwrap();
    }
    for round in 0..rounds {
        let base = disk(&w);
        let before = rt::dev_left();
        if w.proc() > 0 && w.alive() {
            let k = [2, 1, 3][round % 3];
            for i in 0..k {
                w.mine((round + i) % 4, (40 + round * 7 + i) as u64);
            }
            arm(fine);
            w.tick_raw();
            if w.alive() {
                w.must_live("update");
            }
        } else {
            let from = w.node().log.len();
            arm(fine);
            w.launch();
            rt::quiesce();
            if w.alive() {
                w.must_live("start-up");
                w.check_all(&a, 0, "start-up");
                let _ = from;
            }
        }
        vstd::fs::verif_hook(None);
        let crashed = rt::dev_left() < before;
        heights.push(w.node().height() + 1 - conf);
        w.kill();
        text += &format!("round {}: {}; ", round, if crashed { "crash during the write" } else { "killed after it" });
        if power {
            text += &power_loss(&w, &base);
        }
        let from = w.node().log.len();
        w.launch();
        rt::quiesce();
        w.must_live(&format!("restart after {}", text));
        if vhyper::verif_listening(w.proc()).is_empty() {
            rt::fail(format!("restart after {}: the process is neither serving nor gone", text));
        }
        let h = first_height(&w, from);
        if !heights.contains(&h) {
            rt::fail(format!("restart after {}: the store found has {} blocks, not one of {:?}", text, h, heights));
        }
        w.check_all(&a, round, &format!("restart after {}", text));
        heights = vec![h, w.node().height() + 1 - conf];
        rt::outcome(rt::hash64(format!("{} {} {}", text, h, round).as_bytes()));
    }
    // later life
    w.mine(1, 90);
    w.tick();
    w.check_all(&a, 1, &format!("one block after {}", text));
    w.kill();
    let _ = std::fs::remove_file(w.blocks_dir().join("blk00000.dat"));
    w.start();
    w.check_all(&a, 2, &format!("another restart after {}", text));
    rt::outcome(rt::hash64(&rt::choices().iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>()));
    rt::sample(4, || text);
}

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "fault_enumeration",
        rule: "the process dies before any disk operation of a write, or after any number of bytes of one (thorough: every number), or power fails there with every allowed loss of unsynced data and metadata; or the file system takes a write only in part, interrupts it or gets full; then the restart is judged by its answers and by the height it resumes at. Counted as distinct by crash point, loss and resumed height",
        assumptions: &[
            "a file system that keeps metadata operations in order, and at least those before the last completed sync; data written before a file's last completed sync is kept",
            "a completed earlier write of the store has reached the disk when a later one begins",
        ],
        spaces: |th| {
            vec![
                Space::new("killed while writing an update", 1, move || crash(false, false, th, 1)).split(8, 3),
                Space::new("killed while writing the first store", 1, move || crash(true, false, th, 1)).split(8, 3),
                Space::new("power failure while writing an update", 1, move || crash(false, true, false, 1)).split(8, 3),
                Space::new("power failure while writing the first store", 1, move || crash(true, true, false, 1)).split(8, 3),
                Space::new("other names of the store file", 1, || named(false)).split(8, 3),
                Space::new("other names of the first store file", 1, || named(true)).split(8, 3),
                Space::new("writes in part", if th { 1 } else { 2 }, move || in_part(false, th)).split(8, 3),
                Space::new("writes in part of the first store", if th { 3 } else { 2 }, move || in_part(true, false)).split(8, 3),
                Space::new("two crashes", 2, || crash(false, false, false, 2)).split(8, 3),
                Space::new("two crashes from the first store", 2, || crash(true, false, false, 2)).split(8, 3),
                Space::new("crashes and power failures", 2, move || crash(false, true, false, if th { 3 } else { 2 })).split(8, 3),
            ]
        },
    }
}
