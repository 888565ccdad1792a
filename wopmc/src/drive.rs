//! The command line of an explorer: deciding a property, replaying a case, writing evidence.

use crate::ex::{cpu_ms, crumbs, install_hook, keep_crumbs, Bad, Ctx, Stats, EXIT_HANG};
use std::path::Path;
use std::process::{exit, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

/// Decides the property of the context; the second argument names the only case to decide.
pub type Run = fn(&Ctx, Option<&str>, &mut Stats) -> Option<Bad>;

pub fn main(run: Run, assumptions: &[&str]) -> ! {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(String::as_str) {
        Some("check") => supervise(&a[1], &a[2], &a[3]),
        Some("child") => check(run, assumptions, &a[1], &a[2], &a[3]),
        Some("replay") => replay(run, &a[1], &a[2]),
        _ => {
            eprintln!("usage: check <ID> <tier> <verif dir> | replay <file> <verif dir>");
            2
        }
    };
    exit(code)
}

fn ctx(id: &str, tier: &str, dir: &str) -> Ctx {
    let t0 = Instant::now();
    let limit = if tier == "thorough" { 3000 } else { 600 };
    let limit = std::env::var("MC_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(limit);
    Ctx { id: id.to_string(), tier: tier.to_string(), dir: dir.to_string(), t0, deadline: t0 + Duration::from_secs(limit) }
}

/// Runs this program again under an address-space limit, for at most `cpu` seconds of processor
/// time and `wall` seconds; `None` if that was not enough.
fn limited(args: &[&str], cpu: u64, wall: u64, quiet: bool) -> Option<ExitStatus> {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -v 16000000; ulimit -c 0; exec \"$@\"").arg("sh").arg(me).args(args).stdin(Stdio::null());
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = c.spawn().unwrap_or_else(|e| {
        eprintln!("cannot start the exploration: {e}");
        exit(2)
    });
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if cpu_ms(&format!("/proc/{}/stat", ch.id())) > cpu * 1000 || t0.elapsed() > Duration::from_secs(wall) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Explores in a process of its own. When that dies or hangs, decides the cases it was at one by
/// one, each again in a process of its own.
fn supervise(id: &str, tier: &str, dir: &str) -> i32 {
    let work = Path::new(dir).join("work");
    std::fs::create_dir_all(&work).unwrap();
    let notes = work.join(format!("{id}.crumbs"));
    let wall = if tier == "thorough" { 6000 } else { 700 };
    let st = limited(&["child", id, tier, dir], u64::MAX / 1000, wall, false);
    if let Some(c @ (0 | 1 | 2)) = st.and_then(|s| s.code()) {
        let _ = std::fs::remove_file(&notes);
        return c;
    }
    let how = match st {
        None => format!("did not end within {wall} s"),
        Some(s) if s.code() == Some(EXIT_HANG) => "hung".to_string(),
        Some(s) => format!("died ({s})"),
    };
    let cases = crumbs(&notes);
    let _ = std::fs::remove_file(&notes);
    eprintln!("the exploration {how}; {} suspects", cases.len());
    let c = ctx(id, tier, dir);
    let one = work.join(format!("{id}.case"));
    for case in cases {
        std::fs::write(&one, format!("property: {id}\ncase: {}\n", case.escape_default())).unwrap();
        let msg = match limited(&["replay", one.to_str().unwrap(), dir], 40, 200, true) {
            None => "the real code did not return".to_string(),
            Some(s) if s.code() == Some(1) => "violated".to_string(),
            Some(s) if matches!(s.code(), Some(0 | 2)) => continue,
            Some(s) => format!("the process died ({s})"),
        };
        let _ = std::fs::remove_file(&one);
        let mut st = Stats { states: 1, runs: 1, decided: 1, ..Stats::default() };
        st.notes.push(format!("stopped at a case: {msg}"));
        evidence(&c, &st, 1, &[]);
        report(&c, &Bad { case, msg });
        return 1;
    }
    let _ = std::fs::remove_file(&one);
    eprintln!("no single case reproduces it");
    2
}

fn check(run: Run, assumptions: &[&str], id: &str, tier: &str, dir: &str) -> i32 {
    let c = ctx(id, tier, dir);
    keep_crumbs(&Path::new(dir).join("work").join(format!("{id}.crumbs")));
    let mut st = Stats::default();
    let bad = run(&c, None, &mut st);
    for n in &st.notes {
        println!("{n}");
    }
    println!("outcomes: {:?}", st.outcomes);
    if bad.is_none() && (st.runs == 0 || st.states == 0 || st.decided == 0) {
        eprintln!("nothing was explored");
        return 2;
    }
    evidence(&c, &st, i32::from(bad.is_some()), assumptions);
    match bad {
        None => {
            println!("{id}: held on everything explored ({:.1}s)", c.t0.elapsed().as_secs_f64());
            0
        }
        Some(b) => {
            report(&c, &b);
            1
        }
    }
}

pub fn report(c: &Ctx, b: &Bad) {
    let d = Path::new(&c.dir).join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{}.txt", c.id));
    let msg = b.msg.replace('\n', " ");
    std::fs::write(&p, format!("property: {}\ncase: {}\nmessage: {msg}\n", c.id, b.case.escape_default())).unwrap();
    println!("case: {}", b.case);
    println!("{}", b.msg);
    println!("VIOLATION property={} replay={}", c.id, p.display());
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn replay(run: Run, file: &str, dir: &str) -> i32 {
    let txt = std::fs::read_to_string(file).unwrap();
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
    let c = ctx(&get("property"), "quick", dir);
    let mut st = Stats::default();
    match run(&c, Some(&unescape(&get("case"))), &mut st) {
        None => {
            println!("{}: held on this case", c.id);
            0
        }
        Some(b) => {
            println!("{}", b.msg);
            println!("VIOLATION property={} replay={file}", c.id);
            1
        }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(c: &Ctx, st: &Stats, violations: i32, assumptions: &[&str]) {
    let list = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let outs = st.outcomes.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let samples = if st.samples.is_empty() { &st.notes } else { &st.samples };
    let body = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases_decided\": {}, \"outcomes\": {{{outs}}}, \"families\": [{}], \"samples\": [{}], \"exhaustive\": {}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {violations}}}\n",
        json(&c.id),
        json(&c.tier),
        st.states,
        st.transitions,
        st.runs,
        st.decided,
        list(&st.notes),
        list(samples),
        !st.capped,
        list(&assumptions.iter().map(|s| (*s).to_string()).collect::<Vec<_>>()),
        c.t0.elapsed().as_secs_f64()
    );
    let d = Path::new(&c.dir).join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{}.json", c.id)), body).unwrap();
}
