//! Command line, known findings, replay files and evidence.

use crate::{explore::*, props};
use std::{
    collections::BTreeMap,
    fmt::Write as _,
    path::PathBuf,
    time::{Duration, Instant},
};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines "known: property=C01 key=<<...>> text" of known_findings.txt.
fn known(property: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
    let mut r = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={property} key=<<")) else { continue };
        if let Some((k, t)) = rest.split_once(">>") {
            r.push((k.to_string(), t.trim().to_string()));
        }
    }
    r
}

pub fn main(args: &[String]) -> i32 {
    install_panic_hook();
    let usage = || {
        eprintln!("chmc check <property> quick|thorough [scenario] | chmc replay <file> | chmc list");
        3
    };
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("check") if args.len() >= 3 => match std::env::var("CHMC_SLOTS") {
            Ok(path) => {
                crate::slots::limit_memory(26);
                crate::slots::open(&path, true);
                check(&args[1], &args[2], args.get(3).cloned(), None)
            }
            Err(_) => supervise(args),
        },
        Some("replay") if args.len() >= 2 => {
            crate::slots::limit_memory(12);
            let Ok(s) = std::fs::read_to_string(&args[1]) else {
                eprintln!("cannot read {}", args[1]);
                return 3;
            };
            let mut m = BTreeMap::new();
            for l in s.lines() {
                if let Some((k, v)) = l.split_once(": ") {
                    m.entry(k.to_string()).or_insert(v.to_string());
                }
            }
            let choices = m.get("choices").map(|c| c.split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let tier = m.get("tier").cloned().unwrap_or("quick".into());
            check(&m["property"], &tier, None, Some((m["scenario"].clone(), choices)))
        }
        _ => usage(),
    }
}

/// Runs the check in a process of its own, so that a crash of the code under test is a violation and not the end of the check.
fn supervise(args: &[String]) -> i32 {
    let path = std::env::temp_dir().join(format!("chmc-slots-{}", std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(args).env("CHMC_SLOTS", &path);
    let threads = ["C10", "C11"].contains(&args[1].as_str()) && !crate::sched::os_threads();
    if threads && std::env::var_os("CHMC_HANG_MS").is_none() {
        cmd.env("CHMC_HANG_MS", "40000");
    }
    let mut st = cmd.status();
    if threads && matches!(&st, Ok(s) if s.code() == Some(77)) {
        // perhaps a thread waits for another one in a way the scheduler does not see
        eprintln!("once more, with real threads");
        std::env::set_var("CHMC_OS_THREADS", "1");
        st = std::process::Command::new(&exe).args(args).env("CHMC_SLOTS", &path).env("CHMC_LIMIT", "500").status();
    }
    crate::slots::open(path.to_str().unwrap(), false);
    let _ = std::fs::remove_file(&path);
    let st = match st {
        Ok(s) if matches!(s.code(), Some(0 | 1 | 3 | 4)) => return s.code().unwrap(),
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 4;
        }
    };
    let (id, tier) = (&args[1], &args[2]);
    let (scenario, runs) = crate::slots::read();
    eprintln!("the check ended with {st} in scenario {scenario}, {} executions under way", runs.len());
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    for (choices, hung) in runs {
        let msg = if hung { "the execution does not end".to_string() } else { format!("the execution ends the process: {st}") };
        let file = dir.join(format!("{id}-{:016x}.txt", digest(&(&scenario, &choices))));
        let ch: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(&file, format!("property: {id}\ntier: {tier}\nscenario: {scenario}\nchoices: {}\nkey: crash\nmessage: {msg}\n", ch.join(" ")));
        let confirmed = hung || {
            let r = std::process::Command::new("timeout").arg("100").arg(&exe).arg("replay").arg(&file).status();
            !matches!(r.map(|s| s.code()), Ok(Some(0)))
        };
        if confirmed {
            println!("{scenario}: {msg}");
            println!("VIOLATION property={id} replay={}", file.display());
            return 1;
        }
        let _ = std::fs::remove_file(&file);
    }
    5
}

fn check(id: &str, tier: &str, only: Option<String>, replay: Option<(String, Vec<u32>)>) -> i32 {
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 3;
    };
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let limit: u64 = std::env::var("CHMC_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 14_400 } else { 700 });
    let threads = std::env::var("CHMC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let is_replay = replay.is_some();
    let mut cx = Ctx {
        property: id.into(),
        thorough,
        threads,
        deadline: t0 + Duration::from_secs(limit),
        known: known(id),
        stats: vec![],
        violations: vec![],
        known_hits: BTreeMap::new(),
        replay,
        only,
    };
    if let Err(e) = guard(|| (p.run)(&mut cx)) {
        eprintln!("harness panic: {e}");
        return 4;
    }
    if is_replay {
        return if cx.violations.is_empty() { 0 } else { 1 };
    }
    let dir = root().join("replays");
    let mut paths = vec![];
    for v in &cx.violations {
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.txt", id, digest(&(&v.scenario, &v.key))));
        let ch: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
        let mut s = format!(
            "property: {id}\ntier: {tier}\nscenario: {}\nchoices: {}\nkey: {}\nmessage: {}\n",
            v.scenario,
            ch.join(" "),
            v.key,
            v.msg.replace('\n', "\\n")
        );
        for n in &v.notes {
            let _ = writeln!(s, "note: {}", n.replace('\n', "\\n"));
        }
        let _ = std::fs::write(&path, s);
        paths.push(path);
    }
    evidence(&cx, &p, tier, t0.elapsed().as_secs_f64(), &paths);
    for (k, (n, v)) in &cx.known_hits {
        let text = cx.known.iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={id} {text} [{n} executions, e.g. {}]", v.scenario);
    }
    for (v, path) in cx.violations.iter().zip(&paths) {
        println!("{}: {}", v.scenario, v.msg);
        for n in &v.notes {
            println!("   | {n}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
    }
    if cx.violations.is_empty() {
        println!("OK property={id} tier={tier} executions={}", cx.stats.iter().map(|s| s.1.executions).sum::<u64>());
        0
    } else {
        1
    }
}

fn evidence(cx: &Ctx, p: &props::Prop, tier: &str, wall: f64, replays: &[PathBuf]) {
    let ex: u64 = cx.stats.iter().map(|s| s.1.executions).sum();
    let cp: u64 = cx.stats.iter().map(|s| s.1.choice_points).sum();
    let di: u64 = cx.stats.iter().map(|s| s.1.distinct).sum();
    let ck: u64 = cx.stats.iter().map(|s| s.1.checks).sum();
    let complete = cx.stats.iter().all(|s| s.1.complete);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1);
    let scen: Vec<String> = cx
        .stats
        .iter()
        .map(|(n, s)| {
            format!(
                "{{\"scenario\": {}, \"executions\": {}, \"choice_points\": {}, \"max_depth\": {}, \"distinct_observations\": {}, \"checks\": {}, \"exhausted\": {}, \"wall_s\": {:.2}}}",
                jstr(n), s.executions, s.choice_points, s.max_depth, s.distinct, s.checks, s.complete, s.wall
            )
        })
        .collect();
    let samples: Vec<String> = cx.stats.iter().flat_map(|(n, s)| s.samples.iter().take(1).map(move |x| jstr(&format!("{n}: {x}")))).take(12).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| jstr(a)).collect();
    let viol: Vec<String> = cx
        .violations
        .iter()
        .zip(replays)
        .map(|(v, r)| format!("{{\"scenario\": {}, \"message\": {}, \"replay\": {}}}", jstr(&v.scenario), jstr(&v.msg), jstr(&r.display().to_string())))
        .collect();
    let known: Vec<String> = cx.known_hits.iter().map(|(k, (n, _))| format!("{{\"key\": {}, \"executions\": {}}}", jstr(k), n)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {di},\n  \"transitions\": {cp},\n  \"traces_validated_against_impl\": {ex},\n  \"oracle_checks\": {ck},\n  \"rule\": {},\n  \"bounds\": {},\n  \"exhaustive\": {complete},\n  \"known_findings\": [{}],\n  \"violations_found\": [{}],\n  \"scenarios\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        jstr(&cx.property),
        jstr(tier),
        jstr("stateless exploration of the implementation itself: a transition is one choice resolved by the explorer (input, network or scheduling), a trace is one complete execution of the real code checked against the reference model, a state is a distinct digest of everything observed in an execution; exhaustive means every choice sequence within the bounds was run"),
        jstr(p.bounds),
        known.join(", "),
        viol.join(", "),
        scen.join(",\n   "),
        samples.join(",\n   "),
        assumptions.join(", "),
        cx.violations.len()
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", cx.property)), s);
}
