//! Explicit-state exploration of the real `lrp` crate, one property per run.
//!
//!   mc check <ID> <tier> <verif dir>   explore, write evidence, report (supervises a child)
//!   mc replay <file>                   run one recorded counterexample again
//!   mc adhoc <ID> <family...>          development aid
//!
//! Exit codes: 0 held, 1 violation, 2 the machinery failed.

mod earley;
mod engine;
mod fam;
mod far;
mod gram;
mod lrref;
mod plan;
mod props;
mod props2;
mod props3;
mod pump;
mod sut;

use engine::{cpu_ms, explore, install_hook, item, Plan, Stats, EXIT_HANG};
use fam::Fam;
use gram::{Space, G};
use plan::plans;
use props::{by_id, Cfg};
use std::io::Write;
use std::path::Path;
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(String::as_str) {
        Some("check") => check(&a[1], &a[2], &a[3]),
        Some("child") => child(&a[1], &a[2], &a[3], &a[4], a[5].parse().unwrap()),
        Some("item") => one_item(&a[1], &a[2], a[3].parse().unwrap()),
        Some("replay") => replay(&a[1]),
        Some("adhoc") => adhoc(&a[1], &a[2..]),
        _ => {
            eprintln!("usage: mc check <ID> <tier> <verif dir> | mc replay <file>");
            2
        }
    };
    exit(code);
}

const CHILD_KB: u64 = 14_000_000;
const ITEM_KB: u64 = 6_000_000;

/// Runs this program again under an address-space limit.
fn limited(kb: u64, args: &[&str]) -> Command {
    let me = std::env::current_exe().unwrap();
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -v {kb}; ulimit -c 0; exec \"$@\"")).arg("sh").arg(me).args(args);
    c.stdin(Stdio::null());
    c
}

fn check(id: &str, tier: &str, dir: &str) -> i32 {
    if by_id(id).is_none() {
        eprintln!("unknown property {id}");
        return 2;
    }
    let work = Path::new(dir).join("work");
    std::fs::create_dir_all(&work).unwrap();
    let crumb = work.join(format!("{id}.crumb"));
    let crumb_s = crumb.to_str().unwrap();
    match attempt(id, tier, dir, &crumb, crumb_s, 15_000) {
        Some(c) => c,
        None => attempt(id, tier, dir, &crumb, crumb_s, 60_000).unwrap_or_else(|| {
            eprintln!("the exploration did not finish, twice, and no single grammar reproduces it");
            2
        }),
    }
}

/// One exploration; `None` if it did not finish and no single grammar makes the code under test
/// hang or die.
fn attempt(id: &str, tier: &str, dir: &str, crumb: &Path, crumb_s: &str, item_ms: u64) -> Option<i32> {
    std::fs::write(crumb, [0u8; 64]).unwrap();
    let out = limited(CHILD_KB, &["child", id, tier, dir, crumb_s, &item_ms.to_string()]).stdout(Stdio::piped()).output();
    let Ok(out) = out else {
        eprintln!("cannot start the exploration");
        return Some(2);
    };
    let txt = String::from_utf8_lossy(&out.stdout);
    let _ = std::io::stderr().write_all(&out.stderr[..out.stderr.len().min(4000)]);
    let mut suspects: Vec<u64> = Vec::new();
    for l in txt.lines() {
        if let Some(n) = l.strip_prefix("HANG ") {
            suspects.push(n.trim().parse().unwrap());
        } else {
            println!("{l}");
        }
    }
    match out.status.code() {
        Some(c @ (0 | 1 | 2)) => {
            let _ = std::fs::remove_file(crumb);
            return Some(c);
        }
        Some(EXIT_HANG) => {}
        _ => {
            // killed by a signal (abort on a failed allocation, stack overflow): look at what was
            // being explored at that moment
            let b = std::fs::read(crumb).unwrap_or_default();
            suspects = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
            eprintln!("the exploration died ({:?}); {} suspects", out.status, suspects.len());
        }
    }
    let _ = std::fs::remove_file(crumb);
    suspects.sort_unstable();
    for s in suspects {
        let t0 = Instant::now();
        let Ok(mut ch) = limited(ITEM_KB, &["item", id, tier, &s.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else {
            continue;
        };
        let why = loop {
            if let Ok(Some(st)) = ch.try_wait() {
                break match st.code() {
                    Some(0 | 2) => None,
                    Some(1) => Some("violated".to_string()),
                    c => Some(format!("the process died ({})", c.map_or_else(|| st.to_string(), |c| format!("exit {c}")))),
                };
            }
            if cpu_ms(&format!("/proc/{}/stat", ch.id())) > 40_000 || t0.elapsed() > Duration::from_secs(240) {
                let _ = ch.kill();
                let _ = ch.wait();
                break Some("the real code did not return within 40 s of processor time".to_string());
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(why) = why {
            let ps = plans(id, tier);
            let (g, style, cfg) = item(&ps, s).unwrap();
            let mut st = Stats::default();
            st.grammars = 1;
            evidence(dir, id, tier, &st, &[format!("stopped at {}: {why}", g.text())], 1, false, t0.elapsed().as_secs_f64());
            report(dir, id, &g, style, &cfg, &why);
            return Some(1);
        }
    }
    None
}

fn child(id: &str, tier: &str, dir: &str, crumb: &str, item_ms: u64) -> i32 {
    let t0 = Instant::now();
    let crumb = std::fs::OpenOptions::new().write(true).open(crumb).ok();
    let limit = if tier == "thorough" { 3000 } else { 600 };
    let limit = std::env::var("MC_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(limit);
    let o = explore(&plans(id, tier), by_id(id).unwrap(), crumb.as_ref(), item_ms, Some(t0 + Duration::from_secs(limit)));
    for n in &o.notes {
        println!("{n}");
    }
    println!("outcomes: {:?}", o.stats.outcomes);
    if o.found.is_none() && o.complete && o.vacuous {
        eprintln!("a family was enumerated without deciding anything");
        return 2;
    }
    if o.found.is_none() && (o.stats.decided == 0 || o.stats.states == 0 || o.stats.runs == 0) {
        eprintln!("nothing was explored");
        return 2;
    }
    evidence(dir, id, tier, &o.stats, &o.notes, i32::from(o.found.is_some()), o.complete, t0.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    match o.found {
        None => {
            println!("{id}: held on everything explored ({:.1}s)", t0.elapsed().as_secs_f64());
            0
        }
        Some(f) => {
            report(dir, id, &f.g, f.style, &f.cfg, &f.msg);
            1
        }
    }
}

fn report(dir: &str, id: &str, g: &G, style: u8, cfg: &Cfg, msg: &str) {
    let d = Path::new(dir).join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{id}.txt"));
    let body = format!(
        "property: {id}\ngrammar: {}\nstyle: {style}\nbounds: {} {} {} {} {}\nmessage: {}\n",
        g.text(),
        cfg.nodes,
        cfg.len,
        cfg.long,
        cfg.orders,
        cfg.deep,
        msg.replace('\n', " ")
    );
    std::fs::write(&p, body).unwrap();
    println!("grammar: {}", g.text());
    println!("{msg}");
    println!("VIOLATION property={id} replay={}", p.display());
}

fn one_item(id: &str, tier: &str, n: u64) -> i32 {
    let ps = plans(id, tier);
    let Some((g, style, cfg)) = item(&ps, n) else { return 2 };
    on_grammar(id, &g, style, &cfg)
}

fn on_grammar(id: &str, g: &G, style: u8, cfg: &Cfg) -> i32 {
    let check = by_id(id).unwrap();
    let mut st = Stats::default();
    st.new_grammar();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(g, cfg, style, &mut st))) {
        Ok(Ok(())) => {
            println!("{id}: held on {} ({} states, {} executions)", g.text(), st.states, st.runs);
            0
        }
        Ok(Err(m)) => {
            println!("{m}");
            println!("VIOLATION property={id} replay=(this run)");
            1
        }
        Err(_) => 2,
    }
}

fn replay(file: &str) -> i32 {
    let txt = std::fs::read_to_string(file).unwrap();
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
    let g = G::parse(&get("grammar")).0;
    let b: Vec<usize> = get("bounds").split(' ').filter_map(|x| x.parse().ok()).collect();
    let cfg = Cfg { nodes: b[0], len: b[1], long: b[2], orders: b[3], deep: b.get(4).copied().unwrap_or(0) };
    on_grammar(&get("property"), &g, get("style").parse().unwrap_or(0), &cfg)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(dir: &str, id: &str, tier: &str, st: &Stats, notes: &[String], violations: i32, complete: bool, wall: f64) {
    let list = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let outs = st.outcomes.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let mut samples = st.samples.clone();
    if samples.is_empty() {
        samples = notes.to_vec();
    }
    let body = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"grammars_enumerated\": {}, \"grammars_decided\": {}, \"outcomes\": {{{outs}}}, \"families\": [{}], \"samples\": [{}], \"exhaustive\": {complete}}}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {violations}}}\n",
        json(id),
        json(tier),
        st.states,
        st.transitions,
        st.runs,
        st.grammars,
        st.decided,
        list(notes),
        list(&samples),
        list(&[
            "bounds: the grammar families and input bounds listed under families; nothing is claimed beyond them".to_string(),
            "every execution is an execution of the real crate; the reference models (Earley, textbook LR construction) only judge it".to_string(),
        ]),
    );
    let d = Path::new(dir).join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{id}.json")), body).unwrap();
}

fn adhoc(id: &str, a: &[String]) -> i32 {
    let cfg = Cfg { nodes: 120, len: 8, long: 0, orders: 400, deep: 0 };
    let plans: Vec<Plan> = match a[0].as_str() {
        "space" => {
            let v: Vec<usize> = a[1].split(',').map(|x| x.parse().unwrap()).collect();
            vec![Plan { fam: Fam::Space(Space { nts: v[0], ts: v[1], alts: v[2], rhs: v[3], size: v[4], entry: v[5] }), styles: vec![0], cfg }]
        }
        "tb" => vec![Plan { fam: Fam::Textbook, styles: vec![0, 1, 2, 3], cfg: Cfg { long: 24, nodes: 1000, ..cfg } }],
        "ed" => vec![Plan { fam: Fam::Edits(1, a[1].parse().unwrap()), styles: vec![0], cfg }],
        "ed2" => vec![Plan { fam: Fam::Edits(2, a[1].parse().unwrap()), styles: vec![0], cfg }],
        "deep" => vec![Plan { fam: Fam::Textbook, styles: vec![0], cfg: Cfg { long: 0, nodes: 0, len: 0, orders: 4, deep: a[1].parse().unwrap() } }],
        "far" => vec![Plan { fam: Fam::Textbook, styles: vec![0], cfg: Cfg { long: 0, nodes: 0, len: 0, orders: 4, deep: a[1].parse().unwrap() } }],
        "dist" => vec![Plan { fam: Fam::Distant(a[1].parse().unwrap()), styles: vec![0], cfg: Cfg { long: 24, ..cfg } }],
        "slots" => vec![Plan { fam: Fam::Slots(a[1].parse().unwrap()), styles: vec![0], cfg: Cfg { nodes: 60, len: 6, ..cfg } }],
        "wide" => vec![Plan { fam: Fam::Wide(a[1].parse().unwrap()), styles: vec![0], cfg: Cfg { long: 24, ..cfg } }],
        "par" => vec![Plan { fam: Fam::Param(a[1].parse().unwrap()), styles: vec![0], cfg: Cfg { long: 24, ..cfg } }],
        _ => vec![Plan { fam: Fam::File(vec![G::parse(&a[0]).0]), styles: vec![0, 1, 2, 3], cfg }],
    };
    let t = Instant::now();
    let o = explore(&plans, by_id(id).unwrap(), None, 10_000, Some(Instant::now() + Duration::from_secs(600)));
    for n in o.notes {
        println!("{n}");
    }
    println!("{:?}", o.stats.outcomes);
    for s in &o.stats.samples {
        println!("  e.g. {s}");
    }
    println!("{:.2}s", t.elapsed().as_secs_f64());
    if let Some(f) = o.found {
        println!("FOUND idx {} style {}: {}\n   {}", f.idx, f.style, f.g.text(), f.msg);
        return 1;
    }
    0
}
