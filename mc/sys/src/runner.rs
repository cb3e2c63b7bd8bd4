//! Runs the spaces of a check in worker processes, confirms what they find, writes the evidence.
use crate::checks;
use crate::world;
use rt::{Bounds, Verdict};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// A finite set of executions.
pub struct Space {
    pub name: &'static str,
    /// Bounds, tried in this order.
    pub levels: Vec<Bounds>,
    pub shards: u32,
    pub shard_depth: usize,
    pub body: Box<dyn Fn()>,
}

impl Space {
    /// Every combination of the free choices, with up to `dev` environment deviations.
    pub fn new(name: &'static str, dev: u32, body: impl Fn() + 'static) -> Space {
        Space { name, levels: vec![Bounds { preempt: 0, delay: false, dev, nap: 0, steps: STEPS }], shards: 8, shard_depth: 2, body: Box::new(body) }
    }
    pub fn small(mut self) -> Space {
        self.shards = 1;
        self
    }
    pub fn split(mut self, shards: u32, depth: usize) -> Space {
        self.shards = shards;
        self.shard_depth = depth;
        self
    }
    /// Interleavings with up to `p` preemptions, in order of their number.
    pub fn preempt(mut self, p: u32) -> Space {
        let dev = self.levels[0].dev;
        self.levels = (0..=p).map(|p| Bounds { preempt: p, delay: false, dev, nap: 0, steps: STEPS }).collect();
        self
    }
    /// Interleavings with up to `d` departures from first-come first-served, in order of their number.
    pub fn delay(mut self, d: u32) -> Space {
        let dev = self.levels[0].dev;
        self.levels = (1..=d).map(|p| Bounds { preempt: p, delay: true, dev, nap: 0, steps: STEPS }).collect();
        self
    }
    /// Interleavings with up to `n` suspensions of a thread until everything else is quiet, and up to `d` delays.
    pub fn naps(mut self, n: u32, d: u32) -> Space {
        let dev = self.levels[0].dev;
        self.levels = (1..=n).map(|n| Bounds { preempt: d, delay: true, dev, nap: n, steps: STEPS }).collect();
        self
    }
}
pub const STEPS: u64 = 400_000;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(bool) -> Vec<Space>,
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn main(args: Vec<String>) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["run", id, tier] => run(id, tier),
        ["job", rest @ ..] => job(rest),
        ["replay", file] => replay(Path::new(file)),
        ["list"] => {
            for c in checks::all() {
                println!("{} {}", c.id, c.level);
            }
            0
        }
        _ => {
            eprintln!("usage: check run <id> quick|thorough | check replay <file> | check list");
            2
        }
    }
}

// ------------------------------------------------------------ worker

const HANG: u64 = 45;

fn job(a: &[&str]) -> i32 {
    let [id, tier, space, level, shard, shards, out, secs, mode, only] = a else { return 2 };
    rt::install_panic_hook();
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let check = checks::all().into_iter().find(|c| c.id == *id).unwrap();
    let spaces = (check.spaces)(*tier == "thorough");
    let s = &spaces[space.parse::<usize>().unwrap()];
    let isolate = *mode == "isolate";
    let only: Option<Vec<u32>> = if *only == "-" { None } else { Some(only.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()) };
    let out = PathBuf::from(out);
    let cur = out.with_extension("cur");
    let bytes = 4 * (rt::CURRENT_MAX + 1);
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&cur).unwrap();
    f.set_len(bytes as u64).unwrap();
    let map = unsafe {
        use std::os::fd::AsRawFd;
        libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) as *mut u32
    };
    world::root();
    if !isolate {
        std::thread::spawn(|| {
            let mut last = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = rt::PROGRESS.load(std::sync::atomic::Ordering::SeqCst);
                if p != last.0 {
                    last = (p, Instant::now());
                } else if last.1.elapsed().as_secs() > HANG {
                    unsafe { libc::_exit(42) }
                }
            }
        });
    }
    let cfg = rt::SearchConfig {
        bounds: s.levels[level.parse::<usize>().unwrap()].clone(),
        shard: (shard.parse().unwrap(), shards.parse().unwrap()),
        shard_depth: s.shard_depth,
        deadline: Some(Instant::now() + Duration::from_secs(secs.parse().unwrap())),
        isolate: if isolate { Some(2 * HANG) } else { None },
        only,
        current: Some(map),
    };
    let (st, found) = rt::search(&cfg, &*s.body);
    let c = rt::collected();
    let (kind, text, choices) = match found {
        None => ("ok", String::new(), vec![]),
        Some((Verdict::Violation(t), c)) => ("violation", t, c),
        Some((Verdict::Error(t), c)) => ("error", t, c),
        Some(_) => ("ok", String::new(), vec![]),
    };
    let mut h = Vec::with_capacity(8 * (c.state_hashes.len() + c.outcome_hashes.len()));
    c.state_hashes.iter().chain(&c.outcome_hashes).for_each(|x| h.extend_from_slice(&x.to_le_bytes()));
    std::fs::write(out.with_extension("hash"), h).unwrap();
    let v = json!({
        "kind": kind, "text": text, "choices": choices, "complete": st.complete, "executions": st.executions, "pruned": st.pruned,
        "steps": st.steps, "switches": st.switches, "max_choices": st.max_choices, "states": c.state_hashes.len(),
        "samples": c.samples, "counters": c.counters, "transitions": c.transitions,
    });
    std::fs::write(&out, v.to_string()).unwrap();
    world::remove_root();
    // the coroutines' stacks need no tidying
    unsafe { libc::_exit(0) }
}

// ------------------------------------------------------------ parent

struct Running {
    child: Child,
    space: usize,
    level: usize,
    shard: u32,
    out: PathBuf,
    isolate: bool,
}

fn start(id: &str, tier: &str, space: usize, level: usize, shard: u32, shards: u32, dir: &Path, n: usize, secs: u64, isolate: bool, only: Option<&[u32]>) -> Running {
    let out = dir.join(format!("job{}.json", n));
    let only = match only {
        None => "-".to_string(),
        Some(l) => format!(",{}", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
    };
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["job", id, tier, &space.to_string(), &level.to_string(), &shard.to_string(), &shards.to_string(), out.to_str().unwrap(), &secs.to_string()])
        .args([if isolate { "isolate" } else { "shared" }, &only])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .spawn()
        .expect("worker");
    Running { child, space, level, shard, out, isolate }
}

fn current_of(out: &Path) -> Vec<u32> {
    let b = std::fs::read(out.with_extension("cur")).unwrap_or_default();
    let v: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    match v.first() {
        Some(&n) if n > 0 => v[1..].iter().take(n as usize - 1).copied().collect(),
        _ => vec![],
    }
}

/// Runs one choice list in a fresh process.
fn confirm(id: &str, tier: &str, space: usize, level: usize, dir: &Path, n: usize, choices: &[u32]) -> Result<Option<String>, String> {
    let mut r = start(id, tier, space, level, 0, 1, dir, n, 600, true, Some(choices));
    let _ = r.child.wait();
    let v: Value = std::fs::read(&r.out).ok().and_then(|b| serde_json::from_slice(&b).ok()).ok_or("no result from the confirming run")?;
    match v["kind"].as_str() {
        Some("violation") => Ok(Some(v["text"].as_str().unwrap_or("").to_string())),
        Some("ok") => Ok(None),
        _ => Err(v["text"].as_str().unwrap_or("?").to_string()),
    }
}

struct Finding {
    space: usize,
    level: usize,
    choices: Vec<u32>,
    text: String,
}

#[derive(Default)]
struct Tally {
    executions: u64,
    pruned: u64,
    steps: u64,
    switches: u64,
    max_choices: u64,
    shards_done: u32,
    complete: u32,
}

fn run(id: &str, tier: &str) -> i32 {
    let began = Instant::now();
    let thorough = tier == "thorough";
    let Some(check) = checks::all().into_iter().find(|c| c.id == id) else {
        eprintln!("no check for {}", id);
        return 2;
    };
    let spaces = (check.spaces)(thorough);
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = PathBuf::from(format!("{}/verif-mc-run-{}", base, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let code = run_in(&check, tier, &spaces, &dir, began);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn run_in(check: &Check, tier: &str, spaces: &[Space], dir: &Path, began: Instant) -> i32 {
    let budget: u64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 2400 } else { 420 });
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    // simplest first: all spaces at their lowest bound, then the next bound
    let mut queue: std::collections::VecDeque<(usize, usize, u32, bool)> = Default::default();
    let deepest = spaces.iter().map(|s| s.levels.len()).max().unwrap_or(0);
    for level in 0..deepest {
        for (i, s) in spaces.iter().enumerate() {
            if level < s.levels.len() {
                for sh in 0..s.shards {
                    queue.push_back((i, level, sh, crate::runner::isolated()));
                }
            }
        }
    }
    let mut tallies: BTreeMap<(usize, usize), Tally> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut running: Vec<Running> = Vec::new();
    let mut finding: Option<Finding> = None;
    let mut errors: Vec<String> = Vec::new();
    let mut n = 0;
    let mut extra_transitions = 0;
    loop {
        while running.len() < cores && finding.is_none() {
            let Some((i, level, shard, iso)) = queue.pop_front() else { break };
            let left = budget.saturating_sub(began.elapsed().as_secs());
            if left == 0 {
                tallies.entry((i, level)).or_default().shards_done += 1;
                continue;
            }
            running.push(start(check.id, tier, i, level, shard, spaces[i].shards, dir, n, left, iso, None));
            n += 1;
        }
        if running.is_empty() {
            break;
        }
        let mut k = 0;
        let mut moved = false;
        while k < running.len() {
            let status = match running[k].child.try_wait() {
                Ok(Some(s)) => s,
                _ => {
                    k += 1;
                    continue;
                }
            };
            moved = true;
            let r = running.remove(k);
            let res: Option<Value> = if status.success() { std::fs::read(&r.out).ok().and_then(|b| serde_json::from_slice(&b).ok()) } else { None };
            let rerun = |queue: &mut std::collections::VecDeque<(usize, usize, u32, bool)>| queue.push_front((r.space, r.level, r.shard, true));
            let Some(v) = res else {
                // the worker died or hung: look at the execution that was under way
                let choices = current_of(&r.out);
                clear_worker(&r);
                if finding.is_none() {
                    match confirm(check.id, tier, r.space, r.level, dir, n, &choices) {
                        Ok(Some(text)) => finding = Some(Finding { space: r.space, level: r.level, choices, text }),
                        Ok(None) if !r.isolate => rerun(&mut queue),
                        Ok(None) => errors.push(format!("worker of {} ended with {:?}", spaces[r.space].name, status)),
                        Err(_) if !r.isolate => rerun(&mut queue),
                        Err(e) => errors.push(e),
                    }
                    n += 1;
                }
                continue;
            };
            match v["kind"].as_str() {
                Some("violation") if finding.is_none() => {
                    let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect();
                    let text = v["text"].as_str().unwrap_or("").to_string();
                    match confirm(check.id, tier, r.space, r.level, dir, n, &choices) {
                        Ok(Some(t)) => finding = Some(Finding { space: r.space, level: r.level, choices, text: t }),
                        Ok(None) | Err(_) if !r.isolate => rerun(&mut queue),
                        Ok(None) => errors.push(format!("not reproduced: {}", text)),
                        Err(e) => errors.push(format!("not reproduced ({}): {}", e, text)),
                    }
                    n += 1;
                }
                Some("error") if !r.isolate => {
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        eprintln!("{}: {} {}", spaces[r.space].name, v["text"], v["choices"]);
                    }
                    rerun(&mut queue)
                }
                Some("error") => errors.push(format!("{}: {} {}", spaces[r.space].name, v["text"].as_str().unwrap_or("?"), v["choices"])),
                _ => {}
            }
            if v["kind"] == "ok" || v["kind"] == "violation" {
                let t = tallies.entry((r.space, r.level)).or_default();
                let g = |k: &str| v[k].as_u64().unwrap_or(0);
                t.executions += g("executions");
                t.pruned += g("pruned");
                t.steps += g("steps");
                t.switches += g("switches");
                t.max_choices = t.max_choices.max(g("max_choices"));
                t.shards_done += 1;
                t.complete += v["complete"].as_bool().unwrap_or(false) as u32;
                extra_transitions += g("transitions");
                let hashes = std::fs::read(r.out.with_extension("hash")).unwrap_or_default();
                let ns = g("states") as usize;
                for (i, c) in hashes.chunks_exact(8).enumerate() {
                    let x = u64::from_le_bytes(c.try_into().unwrap());
                    if i < ns {
                        states.insert(x);
                    } else {
                        outcomes.insert(x);
                    }
                }
                if let Some(o) = v["counters"].as_object() {
                    for (k, n) in o {
                        *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                    }
                }
                let s = samples.entry(r.space).or_default();
                for x in v["samples"].as_array().into_iter().flatten().filter_map(|x| x.as_str()) {
                    if s.len() < 3 && !s.iter().any(|y| y == x) {
                        s.push(x.to_string());
                    }
                }
            }
            for e in ["json", "cur", "hash"] {
                let _ = std::fs::remove_file(r.out.with_extension(e));
            }
        }
        if finding.is_some() || errors.len() > 3 {
            for mut r in running.drain(..) {
                let _ = r.child.kill();
                let _ = r.child.wait();
                clear_worker(&r);
            }
            break;
        }
        if !moved {
            std::thread::sleep(Duration::from_millis(5));
        }
    }

    // ---- report
    let mut total = Tally::default();
    let mut exhaustive = finding.is_none() && errors.is_empty();
    let mut parts = Vec::new();
    for (i, s) in spaces.iter().enumerate() {
        for (l, b) in s.levels.iter().enumerate() {
            let d = Tally::default();
            let t = tallies.get(&(i, l)).unwrap_or(&d);
            let whole = t.complete == s.shards;
            exhaustive &= whole;
            // a higher bound repeats the lower ones: count the highest only
            if l + 1 == s.levels.len() || tallies.get(&(i, l + 1)).map_or(true, |t| t.executions == 0) {
                if tallies.get(&(i, l)).is_some() {
                    total.executions += t.executions;
                    total.steps += t.steps;
                    total.switches += t.switches;
                }
            }
            total.max_choices = total.max_choices.max(t.max_choices);
            parts.push(json!({
                "space": s.name, "bound": b.preempt, "bound_on": if b.delay { "delays" } else { "preemptions" }, "deviations": b.dev, "suspensions": b.nap, "executions": t.executions,
                "longest_choice_list": t.max_choices, "steps": t.steps, "context_switches": t.switches, "complete": whole,
            }));
        }
    }
    let flat: Vec<Value> = samples.iter().flat_map(|(i, v)| v.iter().map(move |x| json!(format!("{}: {}", spaces[*i].name, x)))).collect();
    let mut cov = serde_json::Map::new();
    cov.insert("rule".into(), json!(check.rule));
    cov.insert("samples".into(), json!(flat));
    cov.insert("exhaustive".into(), json!(exhaustive));
    cov.insert("spaces".into(), json!(parts));
    cov.insert("counters".into(), json!(counters));
    match check.level {
        "model_checking" => {
            cov.insert("states".into(), json!(states.len()));
            cov.insert("transitions".into(), json!(total.steps + extra_transitions));
            cov.insert("traces_validated_against_impl".into(), json!(total.executions));
            cov.insert("distinct_outcomes".into(), json!(outcomes.len()));
        }
        _ => {
            cov.insert("evaluations".into(), json!(total.executions));
            cov.insert("distinct_nontrivial".into(), json!(outcomes.len()));
            cov.insert("distinct_states".into(), json!(states.len()));
        }
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = json!({
        "property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
        "assumptions": check.assumptions, "wall_s": began.elapsed().as_secs_f64(), "violations": finding.is_some() as u32,
    });
    let ed = verif().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();
    let mut out = std::io::stdout();
    let _ = writeln!(
        out,
        "{} {}: {} executions, {} steps, {} states, {} outcomes, {:.1} s{}",
        check.id,
        tier,
        total.executions,
        total.steps,
        states.len(),
        outcomes.len(),
        began.elapsed().as_secs_f64(),
        if exhaustive { ", all spaces complete" } else { "" }
    );
    if let Some(f) = finding {
        let rd = verif().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let mut choices = f.choices.clone();
        while choices.last() == Some(&0) {
            choices.pop();
        }
        let file = rd.join(format!("{}-{:016x}.json", check.id, rt::hash64(format!("{}{}{:?}", f.space, f.level, choices).as_bytes())));
        let b = &spaces[f.space].levels[f.level];
        let v = json!({
            "property": check.id, "tier": tier, "space": spaces[f.space].name, "space_index": f.space, "level_index": f.level,
            "bounds": {"preempt": b.preempt, "delay": b.delay, "dev": b.dev, "nap": b.nap}, "choices": choices, "violation": f.text,
        });
        std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        let _ = writeln!(out, "{}: {}", spaces[f.space].name, f.text);
        let _ = writeln!(out, "VIOLATION property={} replay={}", check.id, file.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {}", e.chars().take(600).collect::<String>());
        }
        return 2;
    }
    0
}

fn clear_worker(r: &Running) {
    for base in ["/dev/shm", "/tmp"] {
        let _ = std::fs::remove_dir_all(format!("{}/verif-mc-{}", base, r.child.id()));
    }
}

/// Code under test that keeps global state is run in a process per execution.
pub fn isolated() -> bool {
    std::env::var("VERIF_ISOLATE").map_or(false, |v| v == "1")
}

// ------------------------------------------------------------ replay

fn replay(file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let id = v["property"].as_str().unwrap();
    let tier = v["tier"].as_str().unwrap();
    rt::install_panic_hook();
    let check = checks::all().into_iter().find(|c| c.id == id).expect("check");
    let spaces = (check.spaces)(tier == "thorough");
    let s = &spaces[v["space_index"].as_u64().unwrap() as usize];
    let b = s.levels[v["level_index"].as_u64().unwrap() as usize].clone();
    let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect();
    world::root();
    let (verdict, trace) = rt::replay(&b, &choices, &*s.body);
    world::remove_root();
    for l in trace {
        println!("{}", l);
    }
    match verdict {
        Verdict::Violation(t) => {
            println!("{}", t);
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        Verdict::Ok => {
            println!("the property held in this execution");
            0
        }
        v => {
            println!("{:?}", v);
            2
        }
    }
}
