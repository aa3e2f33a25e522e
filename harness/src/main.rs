//! `pcheck <property>`: explore every space of a property, write the evidence file, report.
//! `pcheck replay <file>`: run one recorded execution again.

mod engine;
mod formula;
mod gen;
mod model;
mod obs;
mod props;

use engine::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

const TITLES: &str = include_str!("../../properties.jsonl");

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Ids of the findings listed for `property` in the known-findings file.
fn known(property: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter(|l| l.split_whitespace().any(|w| w == format!("property={property}")))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("id=")).map(str::to_string))
        .collect()
}

fn write_replay(property: &str, tier: Tier, n: usize, f: &Failure, again: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{property}-{n}.txt");
    let mut o = String::new();
    let _ = writeln!(o, "property: {property}");
    let _ = writeln!(o, "space: {}", f.space);
    let _ = writeln!(o, "tier: {}", if tier == Tier::Quick { "quick" } else { "thorough" });
    let _ = writeln!(o, "choices: {}", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(o, "what: {}", f.what.replace('\n', "\\n"));
    let _ = writeln!(o, "again: {again}");
    let _ = writeln!(o, "note: {}", f.note.replace('\n', "\\n"));
    let _ = writeln!(o, "run again with: /verif/check replay {path}");
    let _ = writeln!(o, "input ({} bytes):\n{}", f.input.len(), String::from_utf8_lossy(&f.input));
    let _ = std::fs::write(&path, o);
    path
}

struct Interleavings {
    spaces: Vec<Vec<String>>,
    broken: Option<(String, String)>,
    harness: Vec<String>,
}
fn interleavings(prog: &str, tier: Tier, budget: u64, workers: usize, dir: &str) -> Result<Interleavings, String> {
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let out = std::process::Command::new(prog)
        .args(["explore", t, &budget.to_string(), &workers.to_string(), dir])
        .output()
        .map_err(|e| format!("{prog}: {e}"))?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut x = Interleavings { spaces: vec![], broken: None, harness: vec![] };
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("SPACE ") {
            x.spaces.push(r.split('|').map(str::to_string).collect());
        } else if let Some(r) = l.strip_prefix("BROKEN ") {
            let (path, what) = r.split_once(' ').unwrap_or((r, ""));
            x.broken = Some((path.to_string(), what.to_string()));
        } else if let Some(r) = l.strip_prefix("HARNESS ") {
            x.harness.push(format!("interleavings: {r}"));
        }
    }
    if !out.status.success() || x.spaces.iter().any(|s| s.len() != 8) || x.spaces.is_empty() {
        x.harness.push(format!("interleavings: {} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    Ok(x)
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|l| l.trim().to_string()).unwrap_or_default();
    if get("property:").is_empty() {
        // a bare input (abort or hang): feed it to the library
        let d = std::fs::read(path).unwrap_or_default();
        println!("{:#?}", obs::observe(&d));
        return 0;
    }
    if !get("plan:").is_empty() || !get("scenario:").is_empty() {
        let Ok(prog) = std::env::var("VERIF_INTERLEAVE") else {
            eprintln!("the instrumented build is not there");
            return 3;
        };
        return match std::process::Command::new(prog).args(["replay", path]).status() {
            Ok(s) if s.success() => 0,
            Ok(s) if s.code() == Some(1) => {
                println!("VIOLATION property={} replay={path}", get("property:"));
                1
            }
            _ => 3,
        };
    }
    let tier = if get("tier:") == "quick" { Tier::Quick } else { Tier::Thorough };
    let choices: Vec<u32> = get("choices:").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let property = get("property:");
    let space = get("space:");
    let Some(sp) = props::spaces(&property, tier).into_iter().find(|s| s.name == space) else {
        eprintln!("no space {space:?} in {property}");
        return 2;
    };
    let mut states = HashSet::new();
    let (c, r) = run_one(&sp, &choices, &mut states, tier);
    println!("input:\n{}", String::from_utf8_lossy(&c.input));
    match r {
        Ok(()) => {
            println!("the property holds on this execution");
            0
        }
        Err(Stop::Skip) => {
            println!("not a case");
            0
        }
        Err(Stop::Broken(m)) => {
            println!("{m}\nVIOLATION property={property} replay={path}");
            1
        }
        Err(Stop::Harness(m)) => {
            println!("harness: {m}");
            3
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(p) = args.first().cloned() else {
        eprintln!("usage: pcheck P01..P23 [quick|thorough] | replay FILE");
        std::process::exit(2);
    };
    if p == "replay" {
        let _ = std::fs::create_dir_all(format!("{}/replays", root()));
        install("replay", &format!("{}/replays", root()), 60);
        // the stack of the workers
        let f = args.get(1).cloned().unwrap_or_default();
        std::process::exit(std::thread::spawn(move || replay(&f)).join().unwrap_or(3));
    }
    if p == "words" {
        // (words.txt is this for the pinned source)
        for w in props::vocab::source() {
            println!("{w:?}");
        }
        return;
    }
    if !props::ALL.contains(&p.as_str()) {
        eprintln!("unknown property {p}");
        std::process::exit(2);
    }
    let tier = match args.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240u64,
        Tier::Thorough => 780,
    });
    let only = std::env::var("VERIF_SPACE").ok();
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 12)
    });
    let started = Instant::now();
    let end = started + Duration::from_secs(budget);
    let replays = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&replays);
    install(&p, &replays, 60);

    let known = known(&p);
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let (mut executions, mut transitions, mut compared, mut skipped) = (0, 0, 0, 0);
    let mut exhaustive = true;
    let mut samples: Vec<String> = vec![];
    let mut detail = String::new();
    let mut violations: Vec<(String, String)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut findings: Vec<(&'static str, String)> = vec![];
    let mut finding_count = 0;
    if p == "P16" && only.as_deref().map_or(true, |o| o == "interleavings") {
        // the library's own atomic operations as scheduling points: a separate, instrumented program
        match std::env::var("VERIF_INTERLEAVE") {
            Ok(prog) => match interleavings(&prog, tier, budget / 2, workers, &replays) {
                Ok(x) => {
                    for s in &x.spaces {
                        println!("{p} {:<24} {:>9} executions, {:>9} transitions, {:>8} schedules, depth {:>4}, {} s{}  [{}]", "interleavings", s[2], s[3], s[4], s[5], s[7], if s[6] == "true" { "" } else { ", NOT exhausted" }, s[0]);
                        let bound: usize = s[1].parse().unwrap_or(0);
                        if !detail.is_empty() {
                            detail.push_str(",\n    ");
                        }
                        let _ = write!(
                            detail,
                            "{{\"space\": \"interleavings\", \"rule\": {}, \"executions\": {}, \"transitions\": {}, \"distinct_histories\": {}, \"max_choice_points\": {}, \"preemption_bound\": {}, \"exhausted\": {}, \"wall_s\": {}}}",
                            js(&format!("{}: threads of the instrumented library, a scheduling point at every atomic operation of the library and every read", s[0])),
                            s[2], s[3], s[4], s[5], if bound >= 1000 { "null".to_string() } else { bound.to_string() }, s[6], s[7]
                        );
                        executions += s[2].parse::<u64>().unwrap_or(0);
                        compared += s[2].parse::<u64>().unwrap_or(0);
                        transitions += s[3].parse::<u64>().unwrap_or(0);
                        exhaustive &= s[6] == "true";
                    }
                    if let Some((path, what)) = x.broken {
                        println!("--- {p} / interleavings: {what}");
                        violations.push((path, what));
                    }
                    harness.extend(x.harness);
                }
                Err(e) => harness.push(e),
            },
            Err(_) => {
                println!("{p} interleavings: NOT explored (the instrumented build is not there)");
                exhaustive = false;
            }
        }
    }
    let spaces: Vec<Space> = if violations.is_empty() && harness.is_empty() { props::spaces(&p, tier).into_iter().filter(|s| only.as_ref().map_or(true, |o| o == s.name)).collect() } else { vec![] };
    let n_spaces = spaces.len();
    for (i, sp) in spaces.iter().enumerate() {
        let t0 = Instant::now();
        let left = end.saturating_duration_since(t0);
        // a space may not take everything from those after it
        let share = if i + 1 == n_spaces { left } else { left.mul_f64(0.6) };
        let r = explore(sp, tier, workers, t0 + share);
        let took = t0.elapsed().as_secs_f64();
        println!(
            "{p} {:<24} {:>9} executions, {:>9} transitions, {:>8} states, depth {:>4}, {:>7} skipped, {:.2} s{}",
            sp.name,
            r.executions,
            r.transitions,
            r.states.len(),
            r.max_depth,
            r.skipped,
            took,
            if r.capped { ", NOT exhausted" } else { "" }
        );
        if !detail.is_empty() {
            detail.push_str(",\n    ");
        }
        let _ = write!(
            detail,
            "{{\"space\": {}, \"rule\": {}, \"executions\": {}, \"transitions\": {}, \"states\": {}, \"distinct_histories\": {}, \"max_choice_points\": {}, \"deviation_bound\": {}, \"not_a_case\": {}, \"exhausted\": {}, \"wall_s\": {:.2}}}",
            js(sp.name), js(&sp.rule), r.executions, r.transitions, r.states.len(), r.outcomes.len(), r.max_depth,
            if sp.dev_bound == 0 { "null".to_string() } else { sp.dev_bound.to_string() }, r.skipped, !r.capped, took
        );
        executions += r.executions;
        transitions += r.transitions;
        compared += r.compared;
        skipped += r.skipped;
        states.extend(r.states);
        outcomes.extend(r.outcomes);
        exhaustive &= !r.capped;
        samples.extend(r.samples.into_iter().take(4).map(|s| format!("[{}] {s}", sp.name)));
        harness.extend(r.harness);
        for f in r.findings {
            if findings.iter().filter(|x| x.0 == f.0).count() < 2 {
                findings.push(f);
            }
        }
        finding_count += r.finding_count;
        if executions == 0 && harness.is_empty() && r.failures.is_empty() && r.executions == 0 {
            harness.push(format!("{}: nothing was explored", sp.name));
        }
        // the smallest failure of the space
        if let Some(f) = r.failures.into_iter().min_by_key(|f| (f.input.len(), f.choices.len())) {
            let choices = f.choices.clone();
            let again = std::thread::scope(|s| {
                s.spawn(|| {
                    fresh_parser();
                    let mut st = HashSet::new();
                    match run_one(sp, &choices, &mut st, tier).1 {
                        Err(Stop::Broken(_)) => "fails again with a new parser".to_string(),
                        Err(Stop::Harness(m)) => format!("harness: {m}"),
                        _ => "does not fail with a new parser: it depends on what the parser read before".to_string(),
                    }
                })
                .join()
                .unwrap_or_default()
            });
            let path = write_replay(&p, tier, violations.len() + 1, &f, &again);
            println!("--- {} / {}: {}\n    ({again}; input below)\n{}", p, sp.name, f.what, String::from_utf8_lossy(&f.input).chars().take(1500).collect::<String>());
            violations.push((path, f.what));
        }
        if !violations.is_empty() && std::env::var("VERIF_KEEP_GOING").is_err() {
            exhaustive = false;
            break;
        }
        if !harness.is_empty() {
            break;
        }
    }

    let unlisted: Vec<&(&'static str, String)> = findings.iter().filter(|f| !known.iter().any(|k| k == f.0)).collect();
    for f in unlisted {
        let path = format!("{replays}/{p}-{}.txt", f.0);
        let _ = std::fs::write(&path, format!("property: {p}\nwhat: {}\n", f.1));
        println!("--- {p}: {}", f.1);
        violations.push((path, f.1.clone()));
    }
    let mut shown: Vec<&str> = vec![];
    for f in findings.iter().filter(|f| known.iter().any(|k| k == f.0)) {
        if !shown.contains(&f.0) {
            shown.push(f.0);
            println!("KNOWN-FINDING: property={p} {} ({} executions; {})", f.0, finding_count, f.1);
        }
    }

    let wall = started.elapsed().as_secs_f64();
    let title = TITLES.lines().find(|l| l.contains(&format!("\"{p}\""))).map(|_| p.clone()).unwrap_or_default();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n   \"states\": {},\n   \"transitions\": {transitions},\n   \"traces_validated_against_impl\": {compared},\n   \"evaluations\": {executions},\n   \"distinct_nontrivial\": {},\n   \"rule\": \"an execution is one complete sequence of choices of a space, run on the real code through its public API; distinct ones differ in the sequence of observed states\",\n   \"not_a_case\": {skipped},\n   \"exhaustive\": {exhaustive},\n   \"workers\": {workers},\n   \"spaces\": [\n    {detail}\n   ],\n   \"samples\": [{}]\n  }},\n  \"assumptions\": [\"what lies outside the stated bounds of the spaces is not covered\", \"the reference model (harness/src/model.rs, formula.rs) states what PO means; inputs it leaves open are not cases\"],\n  \"known_findings_seen\": {finding_count},\n  \"wall_s\": {wall:.2},\n  \"violations\": {}\n}}\n",
        js(&title), js(if tier == Tier::Quick { "quick" } else { "thorough" }), states.len(), outcomes.len(),
        samples.iter().take(40).map(|s| js(s)).collect::<Vec<_>>().join(", "), violations.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{p}.json", root()), ev) {
        harness.push(format!("evidence: {e}"));
    }
    println!("{p} {:?}: {executions} executions, {} states, {transitions} transitions, exhaustive: {exhaustive}, {wall:.1} s", tier, states.len());
    if let Some((path, _)) = violations.first() {
        println!("VIOLATION property={p} replay={path}");
        std::process::exit(1);
    }
    if !harness.is_empty() {
        for h in &harness {
            eprintln!("harness error: {h}");
        }
        std::process::exit(3);
    }
}
