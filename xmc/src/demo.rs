//! C25: the demo command, run on whole sessions; everything it prints is judged.

use crate::ex::{each, Bad, Ctx, Stats};
use crate::gram::{is_t, Sy, EOF, G, T0};
use crate::lrref::{unmask, Act, Auto, Mask, Ref};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::process::{Command, Stdio};

const TERMS: [&str; 6] = ["(", ")", "[", "]", "{", "}"];
/// Tokens the command knows (two of them occur in no rule).
const KNOWN: &str = "()[]{}dc";

fn brackets() -> G {
    let t = |i: usize| T0 + i as Sy;
    let mut alts = vec![];
    for k in 0..3 {
        alts.push(vec![t(2 * k), t(2 * k + 1)]);
        alts.push(vec![t(2 * k), 1, t(2 * k + 1)]);
    }
    G { rules: vec![vec![vec![1]], alts] }
}

fn name(s: Sy) -> String {
    match s {
        EOF => "\"$\"".into(),
        0 => "\"'S\"".into(),
        1 => "\"S\"".into(),
        s => format!("{:?}", TERMS[(s - T0) as usize]),
    }
}

fn sym(txt: &str) -> Option<Sy> {
    (0..2).chain((0..6).map(|i| T0 + i)).chain([EOF]).find(|s| name(*s) == txt)
}

type Row = Vec<String>;

/// The rows of a printed table and what follows it.
fn table(txt: &str) -> Result<(Vec<Row>, &str), String> {
    let mut rows = vec![];
    let mut rest = txt;
    let mut border = false;
    while rest.starts_with(['+', '|']) {
        let (line, r) = rest.split_once('\n').unwrap_or((rest, ""));
        // two borders: another table begins
        if border && line.starts_with('+') {
            break;
        }
        border = line.starts_with('+');
        if line.starts_with('|') {
            let mut cells: Row = line.trim_end().split('|').map(|c| c.trim().to_string()).collect();
            cells.pop();
            cells.remove(0);
            rows.push(cells);
        }
        rest = r;
    }
    if rows.is_empty() {
        return Err(format!("no table in `{}`", &txt.chars().take(200).collect::<String>()));
    }
    Ok((rows, rest))
}

/// Words of a printed item, item set or symbol set: strings and single marks.
fn words(txt: &str) -> Vec<String> {
    let mut out = vec![];
    let cs: Vec<char> = txt.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '"' {
            let mut j = i + 1;
            while j < cs.len() && cs[j] != '"' {
                j += 1;
            }
            out.push(cs[i..(j + 1).min(cs.len())].iter().collect());
            i = j + 1;
        } else {
            if !cs[i].is_whitespace() && cs[i] != ',' {
                out.push(cs[i].to_string());
            }
            i += 1;
        }
    }
    out
}

fn mask_of(ws: &[String]) -> Result<Mask, String> {
    ws.iter().try_fold(0, |m, w| match sym(w) {
        Some(s) if s == EOF || is_t(s) => Ok(m | crate::lrref::bit(s)),
        _ => Err(format!("{w} is printed as a terminal")),
    })
}

type Items = BTreeMap<(Sy, Vec<Sy>, usize), Mask>;

/// Printed items; several with the same body count as one.
fn items(txt: &str) -> Result<Items, String> {
    let ws = words(txt);
    let mut out = Items::new();
    let mut i = usize::from(ws.first().is_some_and(|w| w == "{"));
    while i < ws.len() && ws[i] != "}" {
        let bad = || format!("`{txt}` is no set of items");
        let l = sym(&ws[i]).ok_or_else(bad)?;
        if ws.get(i + 1).is_none_or(|w| w != "=") {
            return Err(bad());
        }
        i += 2;
        let (mut body, mut at) = (vec![], None);
        while ws.get(i).is_some_and(|w| w != "{") {
            if ws[i] == "." {
                if at.replace(body.len()).is_some() {
                    return Err(bad());
                }
            } else {
                body.push(sym(&ws[i]).ok_or_else(bad)?);
            }
            i += 1;
        }
        let end = (i..ws.len()).find(|j| ws[*j] == "}").ok_or_else(bad)?;
        let m = mask_of(&ws[(i + 1).min(end)..end])?;
        *out.entry((l, body, at.ok_or_else(bad)?)).or_insert(0) |= m;
        i = end + 1;
    }
    Ok(out)
}

pub struct Printed {
    /// symbol -> printed action, by state
    actions: Vec<BTreeMap<Sy, String>>,
}

/// `Shift(3)` -> 3
fn target(txt: &str, what: &str) -> Option<usize> {
    txt.strip_prefix(what)?.strip_prefix('(')?.strip_suffix(')')?.parse().ok()
}

/// Judges the three tables printed first; gives the action table.
fn preamble(txt: &str) -> Result<(Printed, &str), String> {
    let g = brackets();
    let rf = Ref::new(&g);
    let au: Auto = rf.lalr(&rf.clr(1000).unwrap());
    let (first, rest) = table(txt)?;
    let (states, rest) = table(rest)?;
    let (acts, rest) = table(rest)?;
    // FIRST and FOLLOW
    let mut seen = BTreeSet::new();
    for r in &first[1..] {
        let n = sym(&format!("{:?}", r[0])).filter(|s| !is_t(*s)).ok_or_else(|| format!("no nonterminal: {}", r[0]))?;
        seen.insert(n);
        for (cell, want) in [(&r[1], rf.first[n as usize]), (&r[2], rf.follow[n as usize])] {
            let ws: Vec<String> = words(cell).into_iter().filter(|w| w != "{" && w != "}").collect();
            if mask_of(&ws)? != want {
                return Err(format!("{}: {cell} should be {:?}", r[0], unmask(want).into_iter().map(name).collect::<Vec<_>>()));
            }
        }
    }
    if seen.len() != 2 || first.len() != 3 {
        return Err(format!("the table of first and follow tokens has {} rows", first.len() - 1));
    }
    // actions: one column per terminal, the number of the state, one column per nonterminal
    let heads: Vec<Sy> = acts[0].iter().filter(|c| !c.is_empty()).map(|c| sym(c).ok_or_else(|| format!("column {c}"))).collect::<Result<_, _>>()?;
    let nt = heads.iter().filter(|s| **s == EOF || is_t(**s)).count();
    if heads.len() != 9 || heads.iter().collect::<BTreeSet<_>>().len() != 9 || nt != 7 || !heads[..7].iter().all(|s| *s == EOF || is_t(*s)) {
        return Err(format!("columns {:?}", acts[0]));
    }
    let mut actions = vec![];
    for (i, r) in acts[1..].iter().enumerate() {
        if r.len() != 10 || r[7] != i.to_string() {
            return Err(format!("row {i} of the action table is {r:?}"));
        }
        let mut m = BTreeMap::new();
        for (k, s) in heads.iter().enumerate() {
            let c = &r[if k < 7 { k } else { k + 1 }];
            if !c.is_empty() {
                m.insert(*s, c.clone());
            }
        }
        actions.push(m);
    }
    // the product with the textbook automaton
    let mut pair: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
    let mut work = vec![0];
    while let Some(i) = work.pop() {
        let j = pair[&i];
        let (a, w) = (&actions[i], &au.cells[j]);
        if !a.keys().eq(w.keys()) {
            return Err(format!("state {i} acts on {:?}, should act on {:?}", a.keys().map(|s| name(*s)).collect::<Vec<_>>(), w.keys().map(|s| name(*s)).collect::<Vec<_>>()));
        }
        for (s, txt) in a {
            let wrong = || format!("state {i} on {}: {txt}, should be {:?}", name(*s), w[s]);
            match w[s].iter().next().unwrap() {
                Act::Acc if txt == "Acc" => {}
                Act::Reduce(p) => {
                    let (l, r, k) = &rf.prods[*p];
                    let r: Vec<String> = r.iter().map(|s| name(*s)).collect();
                    if *txt != format!("Reduce({}, ([{}], {k}))", name(*l), r.join(", ")) {
                        return Err(wrong());
                    }
                }
                x @ (Act::Shift(n) | Act::Goto(n)) => {
                    let t = target(txt, if matches!(x, Act::Shift(_)) { "Shift" } else { "Goto" }).filter(|t| *t < actions.len()).ok_or_else(wrong)?;
                    match pair.insert(t, *n) {
                        None => work.push(t),
                        Some(o) if o == *n => {}
                        _ => return Err(wrong()),
                    }
                }
                Act::Acc => return Err(wrong()),
            }
        }
    }
    if pair.len() != actions.len() || actions.len() != au.states.len() {
        return Err(format!("{} rows of actions, {} states reached, {} in the textbook automaton", actions.len(), pair.len(), au.states.len()));
    }
    // states
    let want = |i: usize| -> Items { au.states[pair[&i]].iter().map(|((p, d), m)| ((rf.prods[*p as usize].0, rf.prods[*p as usize].1.clone(), *d as usize), *m)).collect() };
    let mut found: BTreeSet<(usize, Sy)> = BTreeSet::new();
    for (k, r) in states[1..].iter().enumerate() {
        let (kernel, all) = (items(&r[1])?, items(&r[3])?);
        let id: usize = r[2].parse().map_err(|_| format!("state {}", r[2]))?;
        if k == 0 {
            if r[0] != format!("last state: {}", actions.len() - 1) || id != 0 {
                return Err(format!("the first row of the states is {} / {id}", r[0]));
            }
        } else {
            let (from, s) = r[0].strip_prefix("goto(").and_then(|x| x.strip_suffix(')')).and_then(|x| x.split_once(", ")).ok_or_else(|| format!("row {}", r[0]))?;
            let from: usize = from.parse().map_err(|_| format!("row {}", r[0]))?;
            let s = sym(&format!("{s:?}")).ok_or_else(|| format!("row {}", r[0]))?;
            let act = actions.get(from).and_then(|a| a.get(&s));
            if act.is_none_or(|a| a != &format!("Shift({id})") && a != &format!("Goto({id})")) {
                return Err(format!("{} leads to {id}, the action is {act:?}", r[0]));
            }
            found.insert((from, s));
        }
        if id >= actions.len() || all != want(id) {
            return Err(format!("{}: state {id} is printed as {}", r[0], r[3]));
        }
        let ker: Items = all.iter().filter(|((l, _, d), _)| *d > 0 || (k == 0 && *l == 0)).map(|(a, b)| (a.clone(), *b)).collect();
        if kernel != ker {
            return Err(format!("{}: the kernel of state {id} is printed as {}", r[0], r[1]));
        }
    }
    let moves: usize = au.trans.iter().map(BTreeMap::len).sum();
    if found.len() != moves || states.len() != moves + 2 {
        return Err(format!("{} transitions are printed in {} rows, there are {moves}", found.len(), states.len() - 1));
    }
    Ok((Printed { actions }, rest))
}

/// The sentence model: one balanced bracket word.
fn balanced(w: &str) -> bool {
    let mut open = vec![];
    for (i, c) in w.chars().enumerate() {
        match c {
            '(' | '[' | '{' => {
                // one word: nothing may begin after its end or beside another inner word
                if i > 0 && open.is_empty() || !matches!(w.chars().nth(i.wrapping_sub(1)), None | Some('(' | '[' | '{')) {
                    return false;
                }
                open.push(c);
            }
            ')' | ']' | '}' => match (open.pop(), c) {
                (Some('('), ')') | (Some('['), ']') | (Some('{'), '}') => {}
                _ => return false,
            },
            _ => return false,
        }
    }
    open.is_empty() && !w.is_empty()
}

/// Judges what was printed for one line.
fn line(p: &Printed, line: &str, out: &str, st: &mut Stats) -> Result<(), String> {
    let w = line.trim();
    if let Some(c) = w.chars().find(|c| !KNOWN.contains(*c)) {
        if out.contains("+-") || out.trim().is_empty() || !(is_raw(c) || out.contains(c) || out.contains(&format!("{c:?}"))) {
            return Err(format!("unknown character {c:?} is answered by `{out}`"));
        }
        st.out("unknown characters");
        return Ok(());
    }
    let (rows, rest) = table(out)?;
    if !rest.trim().is_empty() {
        return Err(format!("`{rest}` is printed after the table"));
    }
    let toks: Vec<String> = w.chars().map(|c| c.to_string()).chain(["$".to_string()]).collect();
    let mut states = vec![0usize];
    let mut syms: Vec<Sy> = vec![];
    let mut at = 0;
    let n = rows.len();
    for (k, r) in rows[1..n - 1].iter().enumerate() {
        let top = *states.last().unwrap();
        let now = format!("{:?}", toks[at]);
        let act = sym(&now).and_then(|s| p.actions[top].get(&s));
        let mut stack = vec!["0".to_string()];
        for (s, q) in syms.iter().zip(&states[1..]) {
            stack.push(name(*s));
            stack.push(q.to_string());
        }
        let want: Row = vec![(k + 1).to_string(), stack.join(" "), format!("{:?}", &toks[at..]), format!("{top}:{now}"), act.cloned().unwrap_or_else(|| "n/a".into())];
        if r[..] != want[..] {
            return Err(format!("step {} is {r:?}, should be {want:?}", k + 1));
        }
        st.transitions += 1;
        st.states += 1;
        let last = k + 3 == n;
        match act {
            None if last => {
                let msg = &rows[n - 1][1];
                if !msg.contains(&now) || !p.actions[top].keys().filter(|s| **s == EOF || is_t(**s)).all(|s| msg.contains(&name(*s))) {
                    return Err(format!("the error at {now} in state {top} is `{msg}`"));
                }
                st.out("rejected");
            }
            Some(a) if a == "Acc" && last => st.out("accepted"),
            Some(a) if !last => {
                if let Some(t) = target(a, "Shift") {
                    syms.push(sym(&now).unwrap());
                    states.push(t);
                    at += 1;
                } else if a.starts_with("Reduce") {
                    let len = words(a).iter().filter(|x| x.starts_with('"')).count() - 1;
                    states.truncate(states.len() - len);
                    syms.truncate(syms.len() - len);
                    syms.push(1);
                    let t = p.actions[*states.last().unwrap()].get(&1).and_then(|a| target(a, "Goto")).ok_or("no goto")?;
                    states.push(t);
                } else {
                    return Err(format!("the run goes on after {a}"));
                }
            }
            x => return Err(format!("the run ends with {x:?}")),
        }
    }
    let end = &rows[n - 1];
    if n < 3 || end[0] != "state" {
        return Err(format!("the last row is {end:?}"));
    }
    if (end[1] == "ok") != balanced(w) {
        return Err(format!("the verdict is `{}`", end[1]));
    }
    Ok(())
}

/// Characters that stand for single bytes, which make a line no text.
const RAW: u32 = 0xf0000;

fn raw(b: u32) -> char {
    char::from_u32(RAW + b).unwrap()
}

fn is_raw(c: char) -> bool {
    (RAW + 0x80..RAW + 0x100).contains(&(c as u32))
}

fn session(text: &str, st: &mut Stats) -> Result<(), String> {
    let exe = std::env::current_exe().unwrap().with_file_name("lrpdemo");
    let mut ch = match Command::new(&exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start {}: {e}", exe.display());
            std::process::exit(2);
        }
    };
    let mut inp = ch.stdin.take().unwrap();
    let mut data = vec![];
    for c in text.chars() {
        if is_raw(c) {
            data.push((c as u32 - RAW) as u8);
        } else {
            data.extend(c.to_string().as_bytes());
        }
    }
    let wr = std::thread::spawn(move || {
        let _ = inp.write_all(&data);
    });
    let out = ch.wait_with_output().unwrap();
    wr.join().unwrap();
    st.runs += 1;
    let txt = String::from_utf8_lossy(&out.stdout);
    let (p, mut rest) = preamble(&txt)?;
    let err = String::from_utf8_lossy(&out.stderr);
    let mut lines = text.split_inclusive('\n').collect::<Vec<_>>();
    if lines.last().is_some_and(|l| l.is_empty()) {
        lines.pop();
    }
    for l in &lines {
        rest = rest.strip_prefix("input: ").ok_or_else(|| format!("no prompt before {l:?} (stderr: {})", err.lines().next().unwrap_or("")))?;
        let end = rest.find("input: ").unwrap_or(rest.len());
        line(&p, l, &rest[..end], st).map_err(|m| format!("on the line {l:?}: {m} (stderr: {})", err.lines().next().unwrap_or("")))?;
        rest = &rest[end..];
    }
    if rest.trim() != "input:" {
        return Err(format!("`{rest}` is printed after the last line"));
    }
    if out.status.code() != Some(0) {
        return Err(format!("ends with {} (stderr: {})", out.status, err.lines().next().unwrap_or("")));
    }
    Ok(())
}

fn all_words(alpha: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..max {
        level = level.iter().flat_map(|w| alpha.iter().map(move |c| format!("{w}{c}"))).collect();
        out.extend(level.clone());
    }
    out
}

pub fn run(ctx: &Ctx, only: Option<&str>, st: &mut Stats) -> Option<Bad> {
    let mut fams: Vec<(String, Vec<String>)> = vec![];
    let join = |ls: &[String]| ls.iter().map(|l| format!("{l}\n")).collect::<String>();
    let len = if ctx.thorough() { 7 } else { 6 };
    let ws = all_words(&["(", ")", "[", "]", "{", "}", "d"], len);
    fams.push((format!("sessions of 150 lines: all words to length {len} over the brackets and d"), ws.chunks(150).map(join).collect()));
    let odd = all_words(&["(", ")", "c", "x", " ", "é", "\"", "S", "$"], if ctx.thorough() { 5 } else { 4 });
    fams.push(("sessions of 50 lines: all words over brackets, unused and unknown characters".into(), odd.chunks(50).map(join).collect()));
    // every character, wherever it can stand
    let top = if ctx.thorough() { '\u{10ffff}' } else { '\u{33ff}' };
    let chars: Vec<String> = ('\0'..=top).filter(|c| *c != '\n' && !is_raw(*c)).chain((0x80..0x100).map(raw)).flat_map(|c| [format!("{c}()"), format!("({c})"), format!("(){c}"), format!("(){c}[]")]).collect();
    fams.push((format!("sessions of 1000 lines: every character up to {top:?} and every byte that is no text before, in, behind and between words"), chars.chunks(1000).map(join).collect()));
    let pads = ["", " ", "\t", "\r", " \u{a0} "];
    let padded: Vec<String> = pads.iter().flat_map(|a| pads.iter().flat_map(move |b| all_words(&["(", ")", "[", "]"], 2).into_iter().map(move |w| format!("{a}{w}{b}")))).collect();
    fams.push(("sessions of 50 lines: white space around the word".into(), padded.chunks(50).map(join).collect()));
    let mut deep = vec![];
    for n in 1..=if ctx.thorough() { 80 } else { 32 } {
        for k in 0..4usize {
            let kind = |i: usize| if k < 3 { k } else { i % 3 };
            let w: Vec<&str> = (0..n).map(|i| TERMS[2 * kind(i)]).chain((0..n).rev().map(|i| TERMS[2 * kind(i) + 1])).collect();
            deep.push(w.concat());
            for i in 0..w.len() {
                let mut v = w.clone();
                v.remove(i);
                deep.push(v.concat());
                let mut v = w.clone();
                v[i] = "d";
                deep.push(v.concat());
            }
        }
    }
    // words of hundreds of tokens
    let mut far = vec![];
    for n in [50, 64, 65, 100, 127, 128, 129, 171, 255, 256, 257].into_iter().chain(if ctx.thorough() { vec![340, 512, 700] } else { vec![] }) {
        for k in 0..4usize {
            let kind = |i: usize| if k < 3 { k } else { i % 3 };
            let w: Vec<&str> = (0..n).map(|i| TERMS[2 * kind(i)]).chain((0..n).rev().map(|i| TERMS[2 * kind(i) + 1])).collect();
            far.push(w.concat());
            for i in [n - 1, n, n + n / 2, 2 * n - 1] {
                far.push([&w[..i], &w[i + 1..]].concat().concat());
                far.push([&w[..i], &["d"], &w[i + 1..]].concat().concat());
            }
        }
    }
    fams.push(("sessions of 9 lines: nesting to hundreds of levels".into(), far.chunks(9).map(join).collect()));
    fams.push(("sessions of 100 lines: nesting to every depth, and every one-character change of it".into(), deep.chunks(100).map(join).collect()));
    // how a session ends
    let byte = raw(0xc3).to_string();
    let mut ends: Vec<String> = all_words(&["(", ")", "x", &byte], 2);
    ends.extend(ends.clone().iter().flat_map(|w| [format!("{w}\n"), format!("()\n{w}"), format!("\n{w}"), format!("x\n{w}\n")]).collect::<Vec<_>>());
    fams.push(("sessions of no, one or two lines, ended by a line end or not".into(), ends));
    for (label, cases) in fams {
        let picked: Vec<&String> = cases.iter().filter(|c| only.is_none_or(|o| o == **c)).collect();
        if picked.is_empty() {
            continue;
        }
        let b = each(ctx, &label, picked.len(), &|k| picked[k].clone(), &|k, s| {
            s.decided += 1;
            if s.samples.is_empty() {
                s.samples.push(format!("{:?}", picked[k].lines().take(6).collect::<Vec<_>>()));
            }
            session(picked[k], s)
        }, st);
        if b.is_some() {
            return b;
        }
    }
    None
}
