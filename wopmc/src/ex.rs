//! Parallel exhaustive exploration: panics of the real code are caught, hangs are watched for, the
//! lowest-numbered violation is kept.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs::{File, OpenOptions};
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Default, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub decided: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub capped: bool,
}

impl Stats {
    pub fn out(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += n;
        } else {
            self.outcomes.insert(k.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: Self) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.runs += o.runs;
        self.decided += o.decided;
        self.capped |= o.capped;
        for (k, v) in o.outcomes {
            self.add(&k, v);
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.notes.extend(o.notes);
    }
}

/// A violation: the case (a source text, or what the check says) and what went wrong.
#[derive(Clone, Debug)]
pub struct Bad {
    pub case: String,
    pub msg: String,
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static IN: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN.with(|c| *c.borrow()) == 0 {
            eprintln!("harness panic: {msg} at {loc}");
        }
        LAST.with(|p| *p.borrow_mut() = format!("{} ({loc})", msg.lines().next().unwrap_or("")));
    }));
}

/// Runs real code; a panic there becomes an `Err` describing it.
pub fn sut<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    IN.with(|c| *c.borrow_mut() += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| format!("{what} panicked: {}", LAST.with(|p| p.borrow().clone())))
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub dir: String,
    pub t0: Instant,
    pub deadline: Instant,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

static CRUMBS: OnceLock<File> = OnceLock::new();
static SLOTS: AtomicUsize = AtomicUsize::new(0);
const SLOT: u64 = 1 << 20;
/// Between the cases of one note; no case contains it.
const SEP: &str = "\0\u{1}\0";
pub const EXIT_HANG: i32 = 70;

thread_local! {
    static MINE: Cell<Option<usize>> = const { Cell::new(None) };
}

/// Where to note what is being decided, for when the real code takes the process down with it.
pub fn keep_crumbs(p: &Path) {
    if let Ok(f) = OpenOptions::new().create(true).write(true).truncate(true).open(p) {
        let _ = CRUMBS.set(f);
    }
}

fn slot(n: usize) {
    MINE.with(|m| m.set(Some(n)));
}

/// Notes the case this thread is about to decide.
pub fn crumb(case: &str) {
    let Some(f) = CRUMBS.get() else { return };
    let n = MINE.with(|m| {
        if m.get().is_none() {
            m.set(Some(SLOTS.fetch_add(1, Ordering::Relaxed) + 16));
        }
        m.get().unwrap()
    });
    let mut b = (case.len() as u64 + 1).to_le_bytes().to_vec();
    b.extend(case.as_bytes());
    b.truncate(SLOT as usize);
    let _ = f.write_at(&b, SLOT * n as u64);
}

/// The cases that were being decided.
pub fn crumbs(p: &Path) -> Vec<String> {
    let mut v = Vec::new();
    let Ok(f) = File::open(p) else { return v };
    for n in 0..48 {
        let mut h = [0u8; 8];
        if f.read_exact_at(&mut h, SLOT * n).is_err() {
            continue;
        }
        let len = u64::from_le_bytes(h);
        if len <= 1 || len > SLOT - 8 {
            continue;
        }
        let mut b = vec![0u8; len as usize - 1];
        if f.read_exact_at(&mut b, SLOT * n + 8).is_ok() {
            if let Ok(s) = String::from_utf8(b) {
                v.extend(s.split(SEP).map(str::to_string));
            }
        }
    }
    v
}

/// Processor time used so far, in milliseconds: of a thread or process given by its /proc folder.
/// What hangs is judged by it, so that a busy machine cannot make honest work look stuck.
pub fn cpu_ms(stat: &str) -> u64 {
    let t = std::fs::read_to_string(stat).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) * 10
}

/// Calls `check` on every number below `n`, on all cores. `name` renders an item for a report.
pub fn each(
    ctx: &Ctx,
    label: &str,
    n: usize,
    name: &(dyn Fn(usize) -> String + Sync),
    check: &(dyn Fn(usize, &mut Stats) -> Result<(), String> + Sync),
    total: &mut Stats,
) -> Option<Bad> {
    let t0 = Instant::now();
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let chunk = if n > 100_000 { 64 } else { 1 };
    let next = AtomicUsize::new(0);
    let best = AtomicUsize::new(usize::MAX);
    let bad: Mutex<Option<Bad>> = Mutex::new(None);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());
    let done = AtomicBool::new(false);
    let started: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
    let tids: Vec<Mutex<String>> = (0..nw).map(|_| Mutex::new(String::new())).collect();
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for w in 0..nw {
            let (next, best, bad, merged, started, tid) = (&next, &best, &bad, &merged, &started, &tids[w]);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                            *tid.lock().unwrap() = format!("/proc/{}/stat", l.display());
                        }
                        slot(w);
                        let mut st = Stats::default();
                        let (mut i, mut end) = (0, 0);
                        loop {
                            if i == end {
                                i = next.fetch_add(chunk, Ordering::Relaxed);
                                end = i + chunk;
                                if i < n {
                                    crumb(&(i..end.min(n)).map(name).collect::<Vec<_>>().join(SEP));
                                }
                            }
                            if i >= n || i > best.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > ctx.deadline {
                                st.capped = true;
                                break;
                            }
                            started[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(i, &mut st)));
                            started[w].store(0, Ordering::Relaxed);
                            // a panic outside the calls into the code under test means that what
                            // they returned makes no sense (a span out of range, say)
                            let r = r.unwrap_or_else(|p| {
                                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                Err(format!("what was observed makes no sense: {m}"))
                            });
                            match r {
                                Ok(()) => {}
                                Err(msg) => {
                                    let mut b = bad.lock().unwrap();
                                    if i < best.load(Ordering::Relaxed) {
                                        best.store(i, Ordering::Relaxed);
                                        *b = Some(Bad { case: name(i), msg });
                                    }
                                }
                            }
                            i += 1;
                        }
                        crumb("");
                        merged.lock().unwrap().merge(st);
                    })
                    .unwrap(),
            );
        }
        let (done, started, tids) = (&done, &started, &tids);
        sc.spawn(move || {
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); nw];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for w in 0..nw {
                    let s = started[w].load(Ordering::Relaxed);
                    if s == 0 || now <= s + 2_000 {
                        continue;
                    }
                    let cpu = cpu_ms(&tids[w].lock().unwrap());
                    if seen[w].0 != s {
                        seen[w] = (s, cpu);
                    }
                    if cpu > seen[w].1 + 30_000 || now > s + 400_000 {
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let st = merged.into_inner().unwrap();
    let bad = bad.into_inner().unwrap();
    if bad.is_none() && !st.capped && st.decided == 0 {
        eprintln!("{label}: nothing was decided");
        std::process::exit(2);
    }
    total.notes.push(format!(
        "{label}: {n} cases, {} decided, {} states, {} transitions, {} executions{} [{:.1}s]",
        st.decided,
        st.states,
        st.transitions,
        st.runs,
        if st.capped { " (stopped at the time cap: NOT complete)" } else { "" },
        t0.elapsed().as_secs_f64()
    ));
    total.merge(st);
    bad
}
