//! Exploration engine: partitions a family over worker threads, catches panics of the real code,
//! watches for hangs, keeps the lowest-numbered violation, and accumulates coverage counts.

use crate::fam::Fam;
use crate::gram::G;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Debug)]
pub struct Stats {
    pub grammars: u64,
    /// grammars on which the property was actually decided (not skipped as out of scope)
    pub decided: u64,
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    seen: HashSet<u64>,
}

impl Stats {
    pub fn out(&mut self, k: &str) {
        self.out_n(k, 1);
    }
    pub fn out_n(&mut self, k: &str, n: u64) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += n;
        } else {
            self.outcomes.insert(k.to_string(), n);
        }
    }
    /// A configuration of the real machine was visited in the current grammar.
    pub fn state(&mut self, h: u64) {
        if self.seen.insert(h) {
            self.states += 1;
        }
    }
    pub fn new_grammar(&mut self) {
        self.seen.clear();
        self.grammars += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let n = self.decided;
        if self.samples.len() < 3 && (n == 1 || n == 100 || n == 1000) {
            let s = f();
            if !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.grammars += o.grammars;
        self.decided += o.decided;
        self.states += o.states;
        self.transitions += o.transitions;
        self.runs += o.runs;
        for (k, v) in o.outcomes {
            self.out_n(&k, v);
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SUT: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<crate::sut::StepLimit>() {
            return;
        }
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_SUT.with(|c| *c.borrow()) == 0 {
            eprintln!("harness panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({loc})", msg.lines().next().unwrap_or("")));
    }));
}

/// Runs real code; a panic there becomes an `Err` describing it.
pub fn sut<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    IN_SUT.with(|c| *c.borrow_mut() += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

pub type Check = fn(&G, &crate::props::Cfg, u8, &mut Stats) -> Result<(), String>;

#[derive(Clone, Debug)]
pub struct Found {
    pub cfg: crate::props::Cfg,
    pub idx: usize,
    pub g: G,
    pub style: u8,
    pub msg: String,
}

pub struct Plan {
    pub fam: Fam,
    pub styles: Vec<u8>,
    pub cfg: crate::props::Cfg,
}

pub struct Outcome {
    pub stats: Stats,
    pub found: Option<Found>,
    pub notes: Vec<String>,
    /// every family of the plan was enumerated to its end
    pub complete: bool,
    /// some family was enumerated without the property being decided on any of its members
    pub vacuous: bool,
}

/// The item an identifier of a crumb or of a `HANG` line stands for.
pub fn item(plans: &[Plan], id: u64) -> Option<(G, u8, crate::props::Cfg)> {
    let pl = plans.get((id >> 48) as usize)?;
    let want = (id >> 8) & 0xff_ffff_ffff;
    let mut out = None;
    pl.fam.for_each(&mut |i, g| {
        if i as u64 == want {
            out = Some((g.clone(), (id & 255) as u8, pl.cfg.clone()));
        }
    });
    out
}

pub const EXIT_HANG: i32 = 70;

/// Processor time used so far, in milliseconds: of a thread or process given by its /proc folder.
/// What hangs is judged by it, so that a busy machine cannot make honest work look stuck.
pub fn cpu_ms(stat: &str) -> u64 {
    let t = std::fs::read_to_string(stat).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) * 10
}

/// Explores every family of the plan. Returns the first violation in plan order.
pub fn explore(plans: &[Plan], check: Check, crumb: Option<&std::fs::File>, item_ms: u64, deadline: Option<Instant>) -> Outcome {
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let mut total = Stats::default();
    let mut notes = Vec::new();
    let mut complete = true;
    let mut vacuous = false;
    for (pi, plan) in plans.iter().enumerate() {
        let t0 = Instant::now();
        let best = AtomicUsize::new(usize::MAX);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let started: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
        let current: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
        let tids: Vec<Mutex<String>> = (0..nw).map(|_| Mutex::new(String::new())).collect();
        let next = AtomicUsize::new(0);
        let done = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let merged: Mutex<Stats> = Mutex::new(Stats::default());
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for w in 0..nw {
                let (best, found, started, current, merged, capped, next) = (&best, &found, &started, &current, &merged, &capped, &next);
                let tid = &tids[w];
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                                *tid.lock().unwrap() = format!("/proc/{}/stat", l.display());
                            }
                            let mut st = Stats::default();
                            const CHUNK: usize = 16;
                            let mut mine = next.fetch_add(CHUNK, Ordering::Relaxed);
                            plan.fam.for_each(&mut |idx, g| {
                                if idx >= mine + CHUNK {
                                    mine = next.fetch_add(CHUNK, Ordering::Relaxed);
                                }
                                if idx < mine || idx > best.load(Ordering::Relaxed) || capped.load(Ordering::Relaxed) {
                                    return;
                                }
                                if idx % 64 == 0 && deadline.is_some_and(|d| Instant::now() > d) {
                                    capped.store(true, Ordering::Relaxed);
                                    return;
                                }
                                for &style in &plan.styles {
                                    let id = ((pi as u64) << 48) | ((idx as u64) << 8) | u64::from(style);
                                    current[w].store(id, Ordering::Relaxed);
                                    started[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                    if let Some(f) = crumb {
                                        let _ = f.write_at(&(id + 1).to_le_bytes(), 8 * w as u64);
                                    }
                                    st.new_grammar();
                                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(g, &plan.cfg, style, &mut st)));
                                    started[w].store(0, Ordering::Relaxed);
                                    // a panic outside the calls into the code under test means that what
                                    // they returned makes no sense (an index out of range, say)
                                    let r = r.unwrap_or_else(|p| {
                                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                        Err(format!("what was observed makes no sense: {m}"))
                                    });
                                    match r {
                                        Ok(()) => {}
                                        Err(msg) => {
                                            let mut fo = found.lock().unwrap();
                                            if idx < best.load(Ordering::Relaxed) {
                                                best.store(idx, Ordering::Relaxed);
                                                *fo = Some(Found {
                                                    cfg: plan.cfg.clone(),
                                                    idx,
                                                    g: g.clone(),
                                                    style,
                                                    msg,
                                                });
                                            }
                                            return;
                                        }
                                    }
                                }
                            });
                            merged.lock().unwrap().merge(st);
                        })
                        .unwrap(),
                );
            }
            let (started, current, done, tids) = (&started, &current, &done, &tids);
            sc.spawn(move || {
                // per worker: the item seen last, and the processor time when it was first seen
                let mut seen: Vec<(u64, u64)> = vec![(0, 0); nw];
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    for w in 0..nw {
                        let s = started[w].load(Ordering::Relaxed);
                        if s == 0 || now <= s + item_ms / 4 {
                            continue;
                        }
                        let cpu = cpu_ms(&tids[w].lock().unwrap());
                        if seen[w].0 != s {
                            seen[w] = (s, cpu);
                        }
                        if cpu > seen[w].1 + item_ms || now > s + 20 * item_ms {
                            let id = current[w].load(Ordering::Relaxed);
                            println!("HANG {id}");
                            std::process::exit(EXIT_HANG);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
        });
        let st = merged.into_inner().unwrap();
        vacuous |= st.decided == 0 && found.lock().unwrap().is_none();
        complete &= !capped.load(Ordering::Relaxed);
        notes.push(format!(
            "{}: {} grammar runs, {} decided, {} states, {} transitions, {} executions{} [{:.1}s]",
            plan.fam.describe(),
            st.grammars,
            st.decided,
            st.states,
            st.transitions,
            st.runs,
            if capped.load(Ordering::Relaxed) { " (stopped at the time cap: NOT complete)" } else { "" },
            t0.elapsed().as_secs_f64()
        ));
        total.merge(st);
        if let Some(f) = found.into_inner().unwrap() {
            return Outcome { stats: total, found: Some(f), notes, complete: false, vacuous };
        }
    }
    Outcome { stats: total, found: None, notes, complete, vacuous }
}
