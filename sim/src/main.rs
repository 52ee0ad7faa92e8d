//! Deterministic simulation of tiny-spice: see /verif/DESIGN.md.
//!
//! All of the command is in one argument, as the command line is going to be
//! that of the code under test:
//!
//!     tsim "check C05 quick"
//!     tsim "replay /verif/replays/C05-....json"

// these are libc's entry points, interposed
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
#![allow(dead_code)]

mod checks;
mod gen;
mod harness;
mod model;
mod prng;
mod simos;

use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

use harness::*;
use prng::{hash_u64, HASH0};
use simos::*;

const ROOT: &str = "/verif";

extern "C" {
    fn execv(path: *const c_char, argv: *const *const c_char) -> c_int;
}

/// The same addresses every time, if the kernel lets us
fn fixed_addresses(arg: &str) {
    const ADDR_NO_RANDOMIZE: i64 = 0x0004_0000;
    unsafe {
        let was = sys(SYS_PERSONALITY, 0xffff_ffff, 0, 0, 0, 0, 0);
        if was < 0 || was & ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if sys(SYS_PERSONALITY, was | ADDR_NO_RANDOMIZE, 0, 0, 0, 0, 0) < 0 {
            return;
        }
        let exe = CString::new("/proc/self/exe").unwrap();
        let a0 = CString::new("tsim").unwrap();
        let a1 = CString::new(arg).unwrap();
        let argv = [a0.as_ptr(), a1.as_ptr(), std::ptr::null()];
        execv(exe.as_ptr(), argv.as_ptr());
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 2 {
        say("usage: tsim 'check <id> [quick|thorough]' or 'replay <file>' or 'list', in one argument");
        std::process::exit(2);
    }
    fixed_addresses(&args[1]);
    let words: Vec<&str> = args[1].split_whitespace().collect();
    let code = match words.as_slice() {
        ["list"] => {
            for c in checks::checks() {
                say(c.id);
            }
            0
        }
        ["check", id] => check(id, &std::env::var("VERIF_TIER").unwrap_or_default()),
        ["check", id, tier] => check(id, tier),
        ["replay", file] => replay_file(file),
        _ => {
            say("what?");
            2
        }
    };
    std::process::exit(code);
}

fn number_from(name: &str) -> Option<u64> {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok())
}

fn seconds() -> f64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64()
}

/// Violations that are on record in known-findings.txt:
/// `known: property=C01 match=<text of the message>`
fn known_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", ROOT)).unwrap_or_default();
    let lead = format!("known: property={} match=", id);
    text.lines().filter_map(|l| l.strip_prefix(&lead)).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
}

fn check(id: &str, tier: &str) -> i32 {
    let list = checks::checks();
    let check = match list.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            say(&format!("there's no check for {}", id));
            return 2;
        }
    };
    let (tier, tier_name) = if tier == "thorough" { (Tier::Thorough, "thorough") } else { (Tier::Quick, "quick") };
    let seed = number_from("VERIF_SEED").unwrap_or(1);
    let cases = number_from("VERIF_CASES").unwrap_or(if tier == Tier::Quick { check.quick } else { check.thorough });
    let cap = number_from("VERIF_CAP_S").unwrap_or(if tier == Tier::Quick { 240 } else { 3000 }) as f64;
    let workers = number_from("VERIF_WORKERS")
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).clamp(1, 32);
    set_known(known_findings(id));
    let t0 = seconds();
    let out = campaign(check, seed, tier, cases, workers, cap);
    let wall = seconds() - t0;

    for e in &out.errors {
        say(&format!("harness error: {}", e));
    }
    if !out.errors.is_empty() && out.found.is_none() {
        return 2;
    }
    let st = &out.stats;
    for (k, n) in &st.known {
        say(&format!("KNOWN-FINDING: property={} {} ({} times)", id, k, n));
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((index, v, choices)) = &out.found {
        violations = 1;
        code = 1;
        report(check, seed, tier, tier_name, *index, v, choices);
    }
    for m in check.must {
        if !st.probes.contains_key(*m) {
            say(&format!("note: the workload never got to '{}'", m));
        }
    }
    if st.mismatches > 0 {
        say(&format!("note: {} of {} cases were not the same the second time", st.mismatches, st.repeats));
    }
    evidence(check, seed, tier_name, &out, workers, wall, violations);
    say(&format!("{} {}: {} cases, {} runs, {} with faults, {} distinct histories, {:.1} s{}{}", id, tier_name, st.cases, st.runs,
        st.faulty_runs, st.hists.len(), wall, if out.capped { " (out of time)" } else { "" },
        if code == 0 { ": held" } else { "" }));
    code
}

// ---------------------------------------------------------------------------
// violations

fn list_text(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn report(check: &Check, seed: u64, tier: Tier, tier_name: &str, index: u64, v: &Violation, choices: &[u64]) {
    let limit = if tier == Tier::Quick { 60.0 } else { 300.0 };
    let found = v.clone();
    // in a process of its own, with what comes out as text
    let shrunk = isolated(|| {
        let (c, v, tries) = shrink(check, tier, choices, found, limit);
        // the final word: does it do the same again, and what exactly?
        let (a, trace, err) = replay(check, tier, &c);
        let (b, trace2, _) = replay(check, tier, &c);
        let same = a.is_err() && b.is_err() && trace == trace2 && err.is_none();
        (c, v, tries, same, a, trace)
    }, |(c, v, tries, same, a, trace)| {
        let msg = match a {
            Err(w) => w.msg.clone(),
            Ok(()) => v.msg.clone(),
        };
        format!("{}\u{1}{}\u{1}{}\u{1}{}\u{1}{}\u{1}{}", list_text(c), v.class, msg, tries, same, trace.join("\n"))
    });
    let mut min = choices.to_vec();
    let (mut class, mut msg, mut note, mut trace) = (v.class.clone(), v.msg.clone(), String::new(), String::new());
    match shrunk {
        Ok(t) => {
            let p: Vec<&str> = t.splitn(6, '\u{1}').collect();
            if p.len() == 6 {
                min = p[0].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                class = p[1].to_string();
                msg = p[2].to_string();
                note = format!("minimised from {} to {} choices in {} tries; {}", choices.len(), min.len(), p[3],
                    if p[4] == "true" { "replayed twice with identical traces" } else { "NOT the same on every replay" });
                trace = p[5].to_string();
            }
        }
        Err(e) => note = format!("could not be minimised: {}", e),
    }
    let file = format!("{}/replays/{}-{}-{}.json", ROOT, check.id, seed, index);
    let _ = std::fs::create_dir_all(format!("{}/replays", ROOT));
    let j = Json::obj(vec![
        ("property", Json::s(check.id)),
        ("tier", Json::s(tier_name)),
        ("seed", Json::n(seed as f64)),
        ("case", Json::n(index as f64)),
        ("case_seed", Json::s(&case_seed(seed, check.id, index).to_string())),
        ("class", Json::s(&class)),
        ("note", Json::s(&note)),
        ("choices", Json::s(&list_text(&min))),
        ("original_choices", Json::s(&list_text(choices))),
        ("violation", Json::lines(&msg)),
        ("trace", Json::lines(&trace)),
    ]);
    let _ = std::fs::write(&file, j.text(0) + "\n");
    say(&format!("{}: {} (seed {}, case {})", check.id, class, seed, index));
    for l in msg.lines().take(60) {
        say(&format!("  {}", l.chars().take(400).collect::<String>()));
    }
    say(&format!("  {}", note));
    say(&format!("VIOLATION property={} replay={}", check.id, file));
}

fn replay_file(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            say(&format!("can't read {}: {}", file, e));
            return 2;
        }
    };
    let field = |name: &str| -> Option<String> {
        let lead = format!("\"{}\": \"", name);
        text.lines().find_map(|l| l.trim().strip_prefix(&lead).map(|r| r.trim_end_matches(',').trim_end_matches('"').to_string()))
    };
    let (id, choices) = match (field("property"), field("choices")) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            say("that isn't a replay file");
            return 2;
        }
    };
    let tier = if field("tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let choices: Vec<u64> = choices.split(',').filter_map(|x| x.parse().ok()).collect();
    let list = checks::checks();
    let check = match list.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => return 2,
    };
    let r = isolated(|| replay(check, tier, &choices), |(v, trace, err)| {
        let head = match (v, err) {
            (_, Some(e)) => format!("2harness error: {}\n", e),
            (Err(v), _) => format!("1{}: {}\n", v.class, v.msg),
            (Ok(()), _) => "0the property held\n".to_string(),
        };
        format!("{}{}", head, trace.join("\n"))
    });
    match r {
        Ok(t) => {
            let code = t.as_bytes().first().map_or(2, |c| (*c as i32) - 48);
            let body = &t[1..];
            let h = body.bytes().fold(HASH0, |h, b| hash_u64(h, b as u64));
            say(body);
            say(&format!("trace hash {:016x}", h));
            if code == 1 {
                say(&format!("VIOLATION property={} replay={}", id, file));
            }
            code
        }
        Err(e) => {
            say(&e);
            2
        }
    }
}

// ---------------------------------------------------------------------------
// evidence

enum Json {
    S(String),
    N(f64),
    B(bool),
    A(Vec<Json>),
    O(Vec<(String, Json)>),
}

impl Json {
    fn s(t: &str) -> Json {
        Json::S(t.to_string())
    }
    fn n(v: f64) -> Json {
        Json::N(v)
    }
    fn u(v: u64) -> Json {
        Json::N(v as f64)
    }
    fn obj(v: Vec<(&str, Json)>) -> Json {
        Json::O(v.into_iter().map(|(k, j)| (k.to_string(), j)).collect())
    }
    fn counts(m: &BTreeMap<String, u64>) -> Json {
        Json::O(m.iter().map(|(k, v)| (k.clone(), Json::u(*v))).collect())
    }
    fn lines(t: &str) -> Json {
        Json::A(t.lines().map(Json::s).collect())
    }
    fn strs(v: &[&str]) -> Json {
        Json::A(v.iter().map(|t| Json::s(t)).collect())
    }

    fn text(&self, ind: usize) -> String {
        let pad = " ".repeat(ind + 1);
        match self {
            Json::S(t) => {
                let mut o = String::from("\"");
                for c in t.chars() {
                    match c {
                        '"' => o += "\\\"",
                        '\\' => o += "\\\\",
                        '\n' => o += "\\n",
                        '\t' => o += "\\t",
                        c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
                        c => o.push(c),
                    }
                }
                o + "\""
            }
            Json::N(v) if v.fract() == 0.0 && v.abs() < 9e15 => format!("{}", *v as i64),
            Json::N(v) if v.is_finite() => format!("{}", v),
            Json::N(_) => "null".to_string(),
            Json::B(b) => b.to_string(),
            Json::A(v) if v.is_empty() => "[]".to_string(),
            Json::O(v) if v.is_empty() => "{}".to_string(),
            Json::A(v) => {
                let t: Vec<String> = v.iter().map(|j| format!("{}{}", pad, j.text(ind + 1))).collect();
                format!("[\n{}\n{}]", t.join(",\n"), " ".repeat(ind))
            }
            Json::O(v) => {
                let t: Vec<String> = v.iter().map(|(k, j)| format!("{}{}: {}", pad, Json::s(k).text(0), j.text(ind + 1))).collect();
                format!("{{\n{}\n{}}}", t.join(",\n"), " ".repeat(ind))
            }
        }
    }
}

fn evidence(check: &Check, seed: u64, tier: &str, out: &Outcome, workers: u64, wall: f64, violations: u64) {
    let st = &out.stats;
    let per_hour = |n: u64| (n as f64 / wall.max(1e-3) * 3600.0).round();
    let samples: Vec<Json> = out.samples.iter().map(|s| Json::s(s)).collect();
    let missing: Vec<Json> = check.must.iter().filter(|m| !st.probes.contains_key(**m)).map(|m| Json::s(m)).collect();
    let coverage = Json::obj(vec![
        ("evaluations", Json::u(st.cases)),
        ("distinct_nontrivial", Json::u(st.good.len() as u64)),
        ("rule", Json::s(&format!("{} {}", checks::COMMON_RULE, check.rule))),
        ("samples", Json::A(samples)),
        ("simulated_runs", Json::u(st.runs)),
        ("runs_with_faults", Json::u(st.faulty_runs)),
        ("runs_per_hour", Json::n(per_hour(st.runs))),
        ("seeds_per_hour", Json::n(per_hour(st.cases))),
        ("simulated_time_s", Json::n(st.sim_time)),
        ("simulated_time_means", Json::s("time covered by the transient analyses that were simulated, in seconds of circuit time")),
        ("system_calls", Json::u(st.ops)),
        ("allocations", Json::u(st.allocs)),
        ("points_where_threads_could_switch", Json::u(st.yields)),
        ("thread_switches", Json::u(st.switches)),
        ("accesses_to_global_data_with_threads", Json::u(st.globals)),
        ("branches_executed", Json::u(st.steps)),
        ("branches_executed_by_the_longest_run", Json::u(st.most_steps)),
        ("control_flow_edges_reached", Json::u(st.edges.len() as u64)),
        ("control_flow_edges", Json::u(st.all_edges)),
        ("control_flow_edges_means", Json::s("edges of the compiled control flow of the code under test (generic code of std that it instantiates included)")),
        ("faults_injected", Json::counts(&st.faults)),
        ("ends_of_runs", Json::counts(&st.ends)),
        ("distinct_histories", Json::u(st.hists.len() as u64)),
        ("distinct_histories_means", Json::s("distinct sequences of system calls with their arguments, results and data, faults, and thread switches of a run, by 64-bit hash; not counted beyond 400000 per worker")),
        ("probes", Json::counts(&st.probes)),
        ("probes_missed", Json::A(missing)),
        ("cases_repeated", Json::u(st.repeats)),
        ("cases_repeated_with_other_result", Json::u(st.mismatches)),
        ("trivial_cases", Json::u(st.trivial)),
        ("stopped_by_time", Json::B(out.capped)),
        ("workers", Json::u(workers)),
        ("components_real", Json::strs(&[
            "all of /repo/src and /repo/bin/tiny-spice.rs, compiled from the working tree",
            "Rust's standard library (files, buffering, hash maps, panics, formatting, threads) down to libc's entry points",
        ])),
        ("components_stub", Json::strs(&[
            "the operating system below libc: files, directories, descriptors, stdout/stderr, random bytes, clocks, process id, futexes",
            "the scheduler of threads (one runs at a time, switched at branches, system calls, allocations and accesses to global data)",
            "the memory allocator's decisions (failures, addresses)",
            "the verdict of the convergence check, where faults are injected into it (hook, cfg tiny_spice_sim)",
        ])),
    ]);
    let j = Json::obj(vec![
        ("property", Json::s(check.id)),
        ("tier", Json::s(tier)),
        ("seed", Json::u(seed)),
        ("level", Json::s(check.level)),
        ("coverage", coverage),
        ("assumptions", Json::strs(&[
            "a sample of decks, schedules and faults: no proof",
            "kernel and libc behave as the simulated operating system does; crashes of the process, not of the machine (what was written stays written)",
            "linux x86_64, this compiler; debug assertions and overflow checks on",
        ])),
        ("wall_s", Json::n((wall * 100.0).round() / 100.0)),
        ("violations", Json::u(violations)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", ROOT));
    let _ = std::fs::write(format!("{}/evidence/{}.json", ROOT, check.id), j.text(0) + "\n");
}
