//! Model checker for httlib: exhaustive exploration of the real crates against reference models.

mod collide;
mod acts;
mod calls;
mod engine;
mod hbytes;
mod href;
mod hsession;
mod hsweep;
mod htable;
mod huff;
mod memory;
mod pref;
mod props;
mod proto;
mod rfc;
mod sched;

use engine::*;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: engine::Alloc = engine::Alloc;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}
/// Keys of the known findings of a property, with their descriptions.
fn known(prop: &str) -> BTreeMap<String, String> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut w = r.splitn(3, ' ');
            if w.next() == Some(&format!("property={}", prop)) {
                if let Some(k) = w.next().and_then(|k| k.strip_prefix("key=")) {
                    m.insert(k.to_string(), w.next().unwrap_or("").to_string());
                }
            }
        }
    }
    m
}
struct Where {
    ord: u64,
    idx: u64,
    path: Option<Vec<u16>>,
}
fn path_str(p: &Option<Vec<u16>>) -> String {
    match p {
        None => "-".into(),
        Some(p) if p.is_empty() => "empty".into(),
        Some(p) => p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
    }
}
fn parse_path(s: &str) -> Option<Vec<u16>> {
    match s {
        "-" | "" => None,
        "empty" => Some(vec![]),
        s => Some(s.split(',').map(|x| x.parse().unwrap()).collect()),
    }
}
fn write_replay(prop: &str, tier: &str, w: &Where, space: &str, show: &str, msg: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}.txt", prop));
    let t = format!(
        "property={}\ntier={}\nspace={}\nindex={}\npath={}\n\nspace: {}\ncase: {}\n{}\n\nRun again with: ./check.sh replay {}\n",
        prop, tier, w.ord, w.idx, path_str(&w.path), space, show, msg, f.display()
    );
    let _ = std::fs::write(&f, t);
    f
}
fn evidence(prop: &str, tier: &str, sum: &Summary, wall: f64, violations: u32, extra: &[String]) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let spaces: Vec<String> = sum
        .spaces
        .iter()
        .map(|(n, c, t, s)| format!("{{\"space\": {}, \"cases\": {}, \"traces\": {}, \"seconds\": {:.2}}}", js(n), c, t, s))
        .collect();
    let mut notes: Vec<String> = props::assumptions(prop);
    notes.extend(extra.iter().cloned());
    if sum.saturated {
        notes.push("the count of distinct states is a lower bound (per-worker counting cap reached)".into());
    }
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"samples\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"state_matching_searches\": {},\n  \"stopped_by_time_cap\": {},\n  \"known_findings_met\": {},\n  \"workers\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        seed,
        sum.states,
        sum.steps,
        sum.traces,
        sum.capped.is_empty() && violations == 0 && sum.error.is_none(),
        jl(&sum.samples),
        spaces.join(",\n   "),
        jl(&sum.bfs),
        jl(&sum.capped),
        jl(&sum.known),
        workers(),
        jl(&notes),
        wall,
        violations
    );
    let f = dir.join(format!("{}.json", prop));
    let tmp = dir.join(format!(".{}.tmp", prop));
    if std::fs::write(&tmp, t).is_ok() {
        let _ = std::fs::rename(&tmp, &f);
    }
}
fn cap(tier: &str) -> Duration {
    let d = if tier == "quick" { 300 } else { 780 };
    Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

/// The exploration itself (runs in a process of its own so that crashes and hangs can be attributed to a case).
fn child(prop: &'static str, tier: &str) -> u8 {
    let t = Instant::now();
    child_setup();
    let work = props::work(prop, tier);
    let kn = known(prop);
    let keys: Vec<String> = kn.keys().cloned().collect();
    let sum = explore(prop, &work, &keys, cap(tier));
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    if verbose {
        for (n, c, t, s) in &sum.spaces {
            println!("  {:>7.2}s {:>12} cases {:>13} traces  {}", s, c, t, n);
        }
        for b in &sum.bfs {
            println!("  {}", b);
        }
        for s in &sum.samples {
            println!("  sample {}", s);
        }
    }
    if let Some(e) = &sum.error {
        evidence(prop, tier, &sum, t.elapsed().as_secs_f64(), 0, &[format!("the checker failed: {}", e)]);
        println!("ERROR {}: {}", prop, e);
        return 2;
    }
    if let Some(f) = &sum.found {
        let ord = work.iter().position(|w| w.name() == f.space).unwrap_or(0) as u64;
        let w = Where { ord, idx: f.idx, path: f.path.clone() };
        let r = write_replay(prop, tier, &w, &f.space, &f.show, &f.msg);
        evidence(prop, tier, &sum, t.elapsed().as_secs_f64(), 1, &[]);
        println!("{}: {}\n  {}", f.space, f.show, f.msg);
        println!("VIOLATION property={} replay={}", prop, r.display());
        return 1;
    }
    for k in &sum.known {
        println!("KNOWN-FINDING: property={} {} {}", prop, k, kn.get(k).map(|s| s.as_str()).unwrap_or(""));
    }
    evidence(prop, tier, &sum, t.elapsed().as_secs_f64(), 0, &[]);
    println!(
        "OK {} {}: {} distinct states, {} transitions, {} traces, {:.1} s{}",
        prop,
        tier,
        sum.states,
        sum.steps,
        sum.traces,
        t.elapsed().as_secs_f64(),
        if sum.capped.is_empty() { String::new() } else { format!(" (time cap reached in: {})", sum.capped.join("; ")) }
    );
    0
}

/// Runs `child`, and when it dies finds the case that killed it.
fn check(prop: &'static str, tier: &str) -> u8 {
    let t = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", prop, std::process::id()));
    std::fs::write(&slots, vec![0u8; slot_file_len()]).expect("slot file");
    let _ = std::fs::remove_file(root().join("replays").join(format!("{}.txt", prop)));
    let st = Command::new(&exe).args(["child", prop, tier]).env("MC_SLOTS", &slots).stderr(Stdio::inherit()).status();
    let code = match st {
        Ok(s) if s.code().is_some() && s.signal().is_none() && s.code() != Some(101) => s.code().unwrap() as u8,
        Ok(s) => {
            let work = props::work(prop, tier);
            let sus = suspects(slots.to_str().unwrap());
            let mut verdict = None;
            for x in sus {
                let w = &work[x.space as usize];
                let path = if matches!(w, Work::B(_)) { Some(x.path.clone()) } else { None };
                let wh = Where { ord: x.space, idx: x.idx, path };
                if let Some(m) = confirm(prop, tier, &wh) {
                    let show = match (w, &wh.path) {
                        (Work::S(s), _) => s.show(wh.idx),
                        (Work::B(b), Some(p)) => b.show(p),
                        _ => String::new(),
                    };
                    verdict = Some((wh, w.name(), show, m));
                    break;
                }
            }
            match verdict {
                Some((wh, name, show, m)) => {
                    let r = write_replay(prop, tier, &wh, &name, &show, &m);
                    let mut sum = Summary::default();
                    sum.samples.push(format!("{}: {}", name, show));
                    sum.capped.push("stopped by a crash of the code under test".into());
                    evidence(prop, tier, &sum, t.elapsed().as_secs_f64(), 1, &[]);
                    println!("{}: {}\n  {}", name, show, m);
                    println!("VIOLATION property={} replay={}", prop, r.display());
                    1
                }
                None => {
                    println!("ERROR {}: the exploring process ended with {:?} and no case reproduces it", prop, s);
                    2
                }
            }
        }
        Err(e) => {
            println!("ERROR {}: {}", prop, e);
            2
        }
    };
    let _ = std::fs::remove_file(&slots);
    code
}
/// Runs one case in a process of its own; Some(what) if it crashes, hangs or fails.
fn confirm(prop: &str, tier: &str, w: &Where) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["one", prop, tier, &w.ord.to_string(), &w.idx.to_string(), &path_str(&w.path)])
        .env_remove("MC_SLOTS")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return match (s.signal(), s.code()) {
                    (Some(g), _) => Some(format!("the process died with signal {} (crash, stack overflow or memory exhaustion)", g)),
                    (_, Some(0)) => None,
                    (_, Some(1)) => Some("the case fails when run alone".into()),
                    _ => None,
                }
            }
            Ok(None) if t.elapsed() > Duration::from_secs(60) => {
                let _ = c.kill();
                let _ = c.wait();
                return Some("the call does not return (stopped after 60 s)".into());
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(_) => return None,
        }
    }
}
fn one(prop: &'static str, tier: &str, w: &Where, trace: bool) -> u8 {
    let work = props::work(prop, tier);
    single_slot();
    let Some(x) = work.get(w.ord as usize) else {
        println!("no such space");
        return 2;
    };
    let kn = known(prop);
    let (show, end, tr) = replay(prop, x, w.idx, w.path.as_deref(), trace);
    println!("{}: {}", x.name(), show);
    for l in tr.iter().take(400) {
        println!("    {}", l);
    }
    match end {
        CaseEnd::Ok(_) => {
            println!("holds");
            0
        }
        CaseEnd::Fail(f) => {
            let mut bad = 0;
            for (k, m) in f {
                if kn.contains_key(&k) {
                    println!("  known finding {}: {}", k, m);
                } else {
                    bad += 1;
                    println!("  {}", m);
                }
            }
            (bad > 0) as u8
        }
        CaseEnd::Harness(e) => {
            println!("ERROR {}", e);
            2
        }
    }
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let p = |i: usize| props::id(g(i));
    let code = match g(1) {
        "check" | "child" => match p(2) {
            Some(x) => {
                let tier = if g(3) == "thorough" { "thorough" } else { "quick" };
                if g(1) == "check" {
                    check(x, tier)
                } else {
                    child(x, tier)
                }
            }
            None => 2,
        },
        "one" => match p(2) {
            Some(x) => one(x, g(3), &Where { ord: g(4).parse().unwrap(), idx: g(5).parse().unwrap(), path: parse_path(g(6)) }, false),
            None => 2,
        },
        "replay" => {
            let t = std::fs::read_to_string(g(2)).expect("replay file");
            let v = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
            match props::id(&v("property")) {
                Some(x) => one(x, &v("tier"), &Where { ord: v("space").parse().unwrap(), idx: v("index").parse().unwrap(), path: parse_path(&v("path")) }, true),
                None => 2,
            }
        }
        "alone" => {
            htable::alone_main(g(2), g(3).parse().unwrap_or(0));
            0
        }
        "calls" => {
            calls::alone_main(g(2).parse().unwrap_or(0), g(3));
            0
        }
        "list" => {
            for p in props::IDS {
                for tier in ["quick", "thorough"] {
                    for w in props::work(p, tier) {
                        let n = match &w {
                            Work::S(s) => format!("{} cases", s.len()),
                            Work::B(b) => format!("search, {} operations, depth {}, state bound {}", b.ops(), b.depth(), b.max_states()),
                        };
                        println!("{} {} {}: {}", p, tier, w.name(), n);
                    }
                }
            }
            0
        }
        _ => {
            println!("mc check PROPERTY [quick|thorough] | replay FILE | list");
            2
        }
    };
    ExitCode::from(code)
}
