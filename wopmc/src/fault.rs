//! C27: the command line tool under every single fault: each call through which it reads or writes
//! files fails, falls short or is the last thing the process does.

use crate::build::model;
use crate::ex::{each, Bad, Ctx, Stats};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

const OLD: &str = "// what was there before\n";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Before {
    Nothing,
    Old,
    /// longer than anything the tool writes
    Long,
    /// `out.rs` is a directory
    Dir,
}

impl Before {
    const ALL: [Self; 4] = [Self::Nothing, Self::Old, Self::Long, Self::Dir];

    fn text(self) -> Option<String> {
        match self {
            Self::Nothing => None,
            Self::Old => Some(OLD.into()),
            Self::Long => Some(OLD.repeat(5000)),
            Self::Dir => Some("a directory".into()),
        }
    }

    fn lay(self, d: &Path) {
        let p = d.join("out.rs");
        match self {
            Self::Dir => {
                std::fs::create_dir(&p).unwrap();
                std::fs::write(p.join("file"), OLD).unwrap();
            }
            _ => {
                if let Some(t) = self.text() {
                    std::fs::write(p, t).unwrap();
                }
            }
        }
    }
}

fn now(d: &Path) -> Option<String> {
    let p = d.join("out.rs");
    if p.is_dir() {
        let whole = std::fs::read(p.join("file")).is_ok_and(|b| b == OLD.as_bytes());
        return Some(if whole { "a directory".into() } else { "a damaged directory".into() });
    }
    std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).to_string())
}

struct Tool {
    bin: PathBuf,
    shim: PathBuf,
}

impl Tool {
    fn new(c: &Ctx) -> Self {
        let bin = std::env::current_exe().unwrap().with_file_name("wopcli");
        let shim = Path::new(&c.dir).join(format!("work/fault{}.so", std::process::id()));
        let src = Path::new(&c.dir).join("wopmc/shim/fault.c");
        let st = Command::new("cc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(&shim).arg(&src).arg("-ldl").status();
        if !st.is_ok_and(|s| s.success()) {
            eprintln!("cannot build the fault injector");
            exit(2);
        }
        Self { bin, shim }
    }

    /// Exit code of a run in `d` (none: it was killed).
    fn run(&self, d: &Path, fault: &str, log: bool) -> Option<i32> {
        let mut c = Command::new("timeout");
        c.arg("60").arg(&self.bin).arg("in.grammar").current_dir(d);
        c.env("LD_PRELOAD", &self.shim).env("FAULT", fault).env_remove("FAULT_LOG");
        if log {
            c.env("FAULT_LOG", d.join("calls"));
        }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        let st = c.status().unwrap_or_else(|e| {
            eprintln!("cannot start the tool: {e}");
            exit(2)
        });
        st.code().filter(|c| *c != 137)
    }
}

struct Scratch(PathBuf, PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
        let _ = std::fs::remove_file(&self.1);
    }
}

fn fresh(d: &Path, src: &str, before: Before) {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).unwrap();
    std::fs::write(d.join("in.grammar"), src).unwrap();
    before.lay(d);
}

fn sorted(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.lines().collect();
    v.sort_unstable();
    v
}

/// A source with what the tool makes of it when nothing fails.
struct Case {
    src: String,
    /// none: it must be refused
    full: Option<String>,
    /// the calls of an undisturbed run, by what was there before
    calls: Vec<Vec<(String, i32)>>,
}

fn kinds(name: &str, fd: i32) -> &'static [&'static str] {
    match name {
        "open-r" => &["kill", "5", "13", "4", "24"],
        "open-w" => &["kill", "after", "28", "13", "4"],
        "read" => &["kill", "5", "4", "short"],
        "write" if fd == 1 || fd == 2 => &["kill", "5", "32", "4", "short"],
        "write" => &["kill", "torn", "after", "28", "5", "4", "27", "short"],
        "rename" | "link" => &["kill", "after", "5", "28", "18"],
        _ => &["kill", "after", "5", "4"],
    }
}

/// The faults at which the state of the files changes.
fn deep_kinds(name: &str, fd: i32) -> &'static [&'static str] {
    match name {
        "write" if fd == 1 || fd == 2 => &[],
        "write" => &["kill", "torn", "after", "28"],
        "open-r" | "read" | "close" => &["5"],
        _ => &["kill", "after", "28"],
    }
}

fn judge(case: &Case, before: &Option<String>, code: Option<i32>, d: &Path, dir: bool) -> Result<&'static str, String> {
    let out = now(d);
    if code == Some(124) {
        return Err("the tool does not end".into());
    }
    if std::fs::read(d.join("in.grammar")).ok().as_deref() != Some(case.src.as_bytes()) {
        return Err("the grammar file was changed".into());
    }
    let whole = match (&case.full, &out) {
        (Some(f), Some(o)) => !dir && sorted(f) == sorted(o),
        _ => false,
    };
    if code == Some(0) && !whole {
        return Err(format!("exit code 0, but out.rs is not complete ({} bytes)", out.map_or(0, |o| o.len())));
    }
    if !whole && out != *before {
        return Err(format!(
            "out.rs is neither what it was nor complete ({} bytes)",
            out.map_or("gone, 0".into(), |o| o.len().to_string())
        ));
    }
    Ok(match (code, whole) {
        (Some(0), _) => "succeeded",
        (_, true) => "failed or killed, out.rs complete",
        _ => "failed or killed, out.rs as before",
    })
}

/// Runs with these faults one after another, then one undisturbed run.
fn history(t: &Tool, d: &Path, case: &Case, before: Before, faults: &[String], st: &mut Stats) -> Result<(), String> {
    fresh(d, &case.src, before);
    let mut was = before.text();
    let dir = before == Before::Dir;
    for (i, f) in faults.iter().map(String::as_str).chain([""]).enumerate() {
        let code = t.run(d, f, false);
        st.runs += 1;
        st.transitions += 1;
        let o = judge(case, &was, code, d, dir).map_err(|m| {
            if f.is_empty() {
                format!("an undisturbed run after {} disturbed ones: {m}", i)
            } else {
                format!("run {} with fault {f}: {m}", i + 1)
            }
        })?;
        st.out(o);
        if f.is_empty() && case.full.is_some() && !dir && code != Some(0) {
            return Err(format!("an undisturbed run after {i} disturbed ones: exit code {code:?}"));
        }
        was = now(d);
    }
    st.states += faults.len() as u64 + 1;
    st.decided += 1;
    Ok(())
}

fn sources() -> Vec<String> {
    let mut v = vec![
        "use a::*;\nR: T = \"a\" ( B | C )?:x -> { 1 }%;\nQ: T = R -> { 2 }%;\n".to_string(),
        "R: T = A -> { 1 }%;".to_string(),
        // refused by the parser, and by the builder
        "R: T = A -> { 1 }%; R".to_string(),
        "R: T = A -> { 1 }%; R: T = A -> { 1 }%;".to_string(),
    ];
    // outputs of more than one buffer, and of which each part is more than one
    for n in [14, 130] {
        let mut s = String::from("use a::b::c;\n");
        for k in 0..n {
            let _ = writeln!(s, "Rule{k}: Type = First{k}:x Second? -> {{ x.of_rule({k}) }}%\n  | Third{k}:&y -> {{ y }}%;");
        }
        v.push(s);
    }
    v
}

fn show(src: &str, before: Before, faults: &[String]) -> String {
    format!("{before:?}\n{}\n{src}", faults.join("; "))
}

fn prepare(t: &Tool, d: &Path, src: &str, st: &mut Stats) -> Result<Case, Bad> {
    let mut case = Case { src: src.to_string(), full: None, calls: Vec::new() };
    for before in Before::ALL {
        fresh(d, src, before);
        let bad = |msg: String| Bad { case: show(src, before, &[]), msg };
        let code = t.run(d, "", true);
        st.runs += 1;
        let calls = std::fs::read_to_string(d.join("calls")).unwrap_or_default();
        case.calls.push(
            calls
                .lines()
                .filter_map(|l| {
                    let mut w = l.split(' ');
                    Some((w.next()?.to_string(), w.next()?.parse().ok()?))
                })
                .collect(),
        );
        if before == Before::Nothing {
            match (model(src), code) {
                (Ok(_), Some(0)) => {
                    case.full = now(d);
                    if case.full.is_none() {
                        return Err(bad("exit code 0, but no out.rs".into()));
                    }
                }
                (Ok(_), c) => return Err(bad(format!("a valid grammar file: exit code {c:?}"))),
                (Err(_), Some(0)) => return Err(bad("exit code 0 although the file must be refused".into())),
                (Err(_), _) => {}
            }
        }
        judge(&case, &before.text(), code, d, before == Before::Dir).map_err(bad)?;
    }
    // the tool is the same whenever it is run: the calls are numbered alike
    let n = case.calls[0].len();
    if n < 4 || !case.calls[0].iter().any(|c| c.0 == "open-r") {
        eprintln!("the fault injector does not see the tool's calls");
        exit(2);
    }
    Ok(case)
}

pub fn run(c: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    let t = Tool::new(c);
    let scratch = Scratch(Path::new(&c.dir).join(format!("work/fault{}", std::process::id())), t.shim.clone());
    let dir = |i: usize| scratch.0.join(i.to_string());
    if let Some(txt) = only {
        let mut it = txt.splitn(3, '\n');
        let (b, f, src) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        let before = Before::ALL.into_iter().find(|x| format!("{x:?}") == b).unwrap_or(Before::Nothing);
        let faults: Vec<String> = f.split("; ").filter(|s| !s.is_empty()).map(str::to_string).collect();
        return match prepare(&t, &dir(0), src, st) {
            Err(b) => Some(b),
            Ok(case) => history(&t, &dir(0), &case, before, &faults, st).err().map(|msg| Bad { case: txt.to_string(), msg }),
        };
    }
    let mut cases = Vec::new();
    for s in sources() {
        match prepare(&t, &dir(0), &s, st) {
            Ok(c) => cases.push(c),
            Err(b) => return Some(b),
        }
    }
    type Item = (usize, Before, Vec<String>);
    let decide = |label: &str, v: &[Item], st: &mut Stats| {
        each(
            c,
            label,
            v.len(),
            &|i| show(&cases[v[i].0].src, v[i].1, &v[i].2),
            &|i, st| history(&t, &dir(i), &cases[v[i].0], v[i].1, &v[i].2, st).inspect(|()| drop(std::fs::remove_dir_all(dir(i)))),
            st,
        )
    };
    // every single fault
    let mut one: Vec<Item> = Vec::new();
    for (k, case) in cases.iter().enumerate() {
        for (b, before) in Before::ALL.into_iter().enumerate() {
            let n = case.calls[b].len();
            for (i, (name, fd)) in case.calls[b].iter().enumerate() {
                // what is printed does not depend on what was there before, and is much
                let far = i + 30 < n && !(before == Before::Old && case.src.len() < 25);
                if (*fd == 1 || *fd == 2) && (before == Before::Dir || before == Before::Long || far) && !c.thorough() {
                    continue;
                }
                one.extend(kinds(name, *fd).iter().map(|f| (k, before, vec![format!("{} {f}", i + 1)])));
            }
        }
    }
    let what = if c.thorough() { "every call of the tool" } else { "every call of the tool (of those that print: of one file all, else the last 30)" };
    let b = decide(&format!("{what}, every fault of it"), &one, st);
    if b.is_some() {
        return b;
    }
    // two in a run, and two runs one after another
    let ahead = if c.thorough() { 40 } else { 8 };
    let (mut two, mut runs): (Vec<Item>, Vec<Item>) = (Vec::new(), Vec::new());
    for (k, case) in cases.iter().enumerate() {
        for (b, before) in Before::ALL.into_iter().enumerate() {
            if before == Before::Dir || (before == Before::Long) != (case.src.len() > 500) && !c.thorough() {
                continue;
            }
            let f: Vec<(usize, &str)> =
                case.calls[b].iter().enumerate().flat_map(|(i, (n, fd))| deep_kinds(n, *fd).iter().map(move |f| (i + 1, *f))).collect();
            for (i, x) in &f {
                for (j, y) in &f {
                    runs.push((k, before, vec![format!("{i} {x}"), format!("{j} {y}")]));
                }
                // a fault changes which calls follow: the second one at any later call
                for j in i + 1..=(case.calls[b].len() + 6).min(i + ahead) {
                    if *x != "kill" && *x != "torn" && *x != "after" {
                        two.extend(["kill", "torn", "5"].map(|y| (k, before, vec![format!("{i} {x} {j} {y}")])));
                    }
                }
            }
        }
    }
    let b = decide("two runs one after another, each with every fault of a call on files", &runs, st);
    if b.is_some() {
        return b;
    }
    let b = decide(&format!("a fault of a call on files, and a second one within the next {ahead} calls"), &two, st);
    if b.is_some() {
        return b;
    }
    st.samples = vec![show(&cases[0].src, one[0].1, &one[0].2), show(&cases[0].src, runs[runs.len() / 2].1, &runs[runs.len() / 2].2)];
    None
}
