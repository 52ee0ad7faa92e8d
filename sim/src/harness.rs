//! Running code under test in child processes, cases in worker processes, and
//! everything that has to do with finding, shrinking and reporting violations.
//!
//! The harness doesn't use std's stdout and hash maps: these belong to the
//! code under test.

use std::collections::{BTreeMap, BTreeSet};
use std::os::raw::{c_char, c_int};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::prng::{hash_bytes, hash_u64, mix, Src, HASH0};
use crate::simos::{self, *};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, flags: c_int) -> c_int;
    fn alarm(s: u32) -> u32;
    fn kill(pid: c_int, sig: c_int) -> c_int;
}

/// Write to the real stdout
pub fn say(text: &str) {
    let t = format!("{}\n", text);
    let mut b = t.as_bytes();
    while !b.is_empty() {
        let n = unsafe { sys(SYS_WRITE, 1, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if n == -(EINTR as i64) {
            continue;
        }
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

// ---------------------------------------------------------------------------
// the command line of this process, as the code under test is going to see it

static mut ARGV: *mut *mut c_char = std::ptr::null_mut();

#[used]
#[link_section = ".init_array"]
static SAVE_ARGV: extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = {
    extern "C" fn save(_argc: c_int, argv: *mut *mut c_char, _env: *mut *mut c_char) {
        unsafe { ARGV = argv }
    }
    save
};

// ---------------------------------------------------------------------------
// runs

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// by itself, with an exit status
    Exit(i32),
    /// killed by a signal it raised itself (SIGABRT and the like)
    Signal(i32),
    /// the injected crash
    Crash,
    /// it didn't come to an end within its budget of calls, allocations, time
    Budget,
    Deadlock,
    /// the harness itself is at fault
    Harness(String),
}

impl End {
    pub fn text(&self) -> String {
        match self {
            End::Exit(n) => format!("exit status {}", n),
            End::Signal(n) => format!("killed by signal {}", n),
            End::Crash => "injected crash".to_string(),
            End::Budget => "did not end within its budget".to_string(),
            End::Deadlock => "deadlock".to_string(),
            End::Harness(s) => format!("harness error: {}", s),
        }
    }
}

pub struct Run {
    pub end: End,
    pub recs: Vec<Rec>,
    /// the file system afterwards
    pub fs: Fs,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: u64,
    pub class: [u64; N_CLASS],
    pub allocs: u64,
    pub yields: u64,
    /// accesses to global data by code under test, while there was more than one thread
    pub globals: u64,
    /// branches taken
    pub steps: u64,
}

impl Run {
    /// The lines of the log, in no particular order, without the thread id in
    /// the message of a panic
    pub fn log_lines(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for part in [&self.out, &self.err] {
            for l in part.split(|c| *c == b'\n') {
                v.push(mask_thread_id(&String::from_utf8_lossy(l)));
            }
        }
        v.sort();
        v
    }

    pub fn fired(&self) -> usize {
        self.recs.iter().filter(|r| r.tag == T_FAULT).count()
    }

    /// Injected convergence failures
    pub fn refused(&self) -> usize {
        self.recs.iter().filter(|r| r.tag == T_FAULT && r.s.starts_with(b"solver:")).count()
    }

    pub fn notes(&self, tag: i64) -> Vec<&Rec> {
        self.recs.iter().filter(|r| r.tag == T_NOTE && r.a == tag).collect()
    }

    /// Did the log say that something went wrong?
    pub fn complaints(&self) -> Vec<String> {
        let mut v = vec![];
        for part in [&self.out, &self.err] {
            for l in part.split(|c| *c == b'\n') {
                let l = mask_thread_id(&String::from_utf8_lossy(l));
                let low = l.to_lowercase();
                if ["error", "fatal", "panicked", "can't", "cannot", "could not", "failed", "unable"]
                    .iter()
                    .any(|w| low.contains(w))
                {
                    v.push(l);
                }
            }
        }
        v
    }
}

/// thread 'main' (4242) panicked at ...
fn mask_thread_id(l: &str) -> String {
    if l.starts_with("thread '") {
        if let (Some(a), Some(b)) = (l.find("' ("), l.find(") panicked")) {
            if a < b {
                return format!("{}' (){}", &l[..a], &l[b + 1..]);
            }
        }
    }
    l.to_string()
}

pub fn put_env(set: &[(&str, &str)]) {
    let names: Vec<_> = std::env::vars_os().map(|v| v.0).collect();
    for n in names {
        std::env::remove_var(n);
    }
    std::env::set_var("PATH", "/usr/bin:/bin");
    std::env::set_var("HOME", "/");
    for (n, v) in set {
        std::env::set_var(n, v);
    }
}

/// The command line tool, on a deck
pub fn cli_body(deck: &str) {
    unsafe {
        let mut d = deck.as_bytes().to_vec();
        d.push(0);
        *ARGV.add(1) = Box::leak(d.into_boxed_slice()).as_mut_ptr() as *mut c_char;
    }
    let r = catch_unwind(|| code(|| report(cli::main())));
    log_exit_code(match r {
        Ok(n) => n,
        Err(_) => 101,
    });
    code(|| {
        let _ = std::io::Write::flush(&mut std::io::stdout());
    });
}

fn report(r: impl std::process::Termination) -> i64 {
    let text = format!("{:?}", r.report());
    text.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
}

#[inline(never)]
fn deeper(n: u64, f: &dyn Fn()) {
    let mut pad = [0u8; 112];
    unsafe { std::ptr::write_volatile(pad.as_mut_ptr(), n as u8) };
    if n == 0 {
        f()
    } else {
        deeper(n - 1, f)
    }
    unsafe { std::ptr::read_volatile(pad.as_ptr()) };
}

// ---------------------------------------------------------------------------
// cases

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Verdict = Result<(), Violation>;

pub fn bad<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    pub faulty_runs: u64,
    pub ops: u64,
    pub allocs: u64,
    pub yields: u64,
    pub globals: u64,
    pub steps: u64,
    pub most_steps: u64,
    pub switches: u64,
    /// edges of the code under test that were taken, out of
    pub edges: BTreeSet<u64>,
    pub all_edges: u64,
    /// of circuits
    pub sim_time: f64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    /// distinct histories of system calls and faults
    pub hists: BTreeSet<u64>,
    /// distinct non-trivial cases
    pub good: BTreeSet<u64>,
    pub trivial: u64,
    pub repeats: u64,
    pub mismatches: u64,
    /// violations that are on record
    pub known: BTreeMap<String, u64>,
}

static mut KNOWN: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
pub fn set_known(k: Vec<String>) {
    unsafe { KNOWN = k }
}

#[allow(static_mut_refs)]
fn on_record(v: &Violation) -> Option<String> {
    let t = format!("{}: {}", v.class, v.msg);
    unsafe { KNOWN.iter().find(|k| t.contains(k.as_str())).cloned() }
}

const MAX_SET: usize = 400_000;

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.faulty_runs += o.faulty_runs;
        self.ops += o.ops;
        self.allocs += o.allocs;
        self.yields += o.yields;
        self.globals += o.globals;
        self.steps += o.steps;
        self.most_steps = self.most_steps.max(o.most_steps);
        self.all_edges = self.all_edges.max(o.all_edges);
        self.switches += o.switches;
        self.sim_time += o.sim_time;
        self.trivial += o.trivial;
        self.repeats += o.repeats;
        self.mismatches += o.mismatches;
        for (a, b) in [(&mut self.faults, &o.faults), (&mut self.probes, &o.probes), (&mut self.ends, &o.ends),
            (&mut self.known, &o.known)]
        {
            for (k, v) in b {
                *a.entry(k.clone()).or_insert(0) += v;
            }
        }
        self.hists.extend(o.hists.iter());
        self.good.extend(o.good.iter());
        self.edges.extend(o.edges.iter());
    }

    fn save(&self) -> String {
        let mut s = String::new();
        for (k, v) in [
            ("cases", self.cases), ("runs", self.runs), ("faulty", self.faulty_runs), ("ops", self.ops),
            ("allocs", self.allocs), ("yields", self.yields), ("switches", self.switches),
            ("globals", self.globals), ("steps", self.steps), ("most_steps", self.most_steps), ("all_edges", self.all_edges),
            ("trivial", self.trivial), ("repeats", self.repeats), ("mismatches", self.mismatches),
            ("simtime", self.sim_time.to_bits()),
        ] {
            s += &format!("n {} {}\n", k, v);
        }
        for (t, m) in [("f", &self.faults), ("p", &self.probes), ("e", &self.ends), ("k", &self.known)] {
            for (k, v) in m {
                s += &format!("{} {} {}\n", t, v, k);
            }
        }
        for (t, m) in [("h", &self.hists), ("g", &self.good), ("b", &self.edges)] {
            for k in m {
                s += &format!("{} {}\n", t, k);
            }
        }
        s
    }

    fn load_line(&mut self, l: &str) {
        let (t, rest) = match l.split_once(' ') {
            Some(x) => x,
            None => return,
        };
        let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
        match t {
            "n" => {
                let v: u64 = b.parse().unwrap_or(0);
                match a {
                    "cases" => self.cases = v,
                    "runs" => self.runs = v,
                    "faulty" => self.faulty_runs = v,
                    "ops" => self.ops = v,
                    "allocs" => self.allocs = v,
                    "yields" => self.yields = v,
                    "switches" => self.switches = v,
                    "globals" => self.globals = v,
                    "steps" => self.steps = v,
                    "most_steps" => self.most_steps = v,
                    "all_edges" => self.all_edges = v,
                    "trivial" => self.trivial = v,
                    "repeats" => self.repeats = v,
                    "mismatches" => self.mismatches = v,
                    "simtime" => self.sim_time = f64::from_bits(v),
                    _ => {}
                }
            }
            "f" => *self.faults.entry(b.to_string()).or_insert(0) = a.parse().unwrap_or(0),
            "p" => *self.probes.entry(b.to_string()).or_insert(0) = a.parse().unwrap_or(0),
            "e" => *self.ends.entry(b.to_string()).or_insert(0) = a.parse().unwrap_or(0),
            "k" => *self.known.entry(b.to_string()).or_insert(0) = a.parse().unwrap_or(0),
            "h" => {
                self.hists.insert(a.parse().unwrap_or(0));
            }
            "b" => {
                self.edges.insert(a.parse().unwrap_or(0));
            }
            "g" => {
                self.good.insert(a.parse().unwrap_or(0));
            }
            _ => {}
        }
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub stats: Stats,
    /// hash over all that happened in the case
    pub hash: u64,
    /// set by the case if it was non-trivial
    pub nontrivial: bool,
    pub harness_error: Option<String>,
    pub verbose: bool,
    pub trace: Vec<String>,
    shm: *mut u8,
}

impl Ctx {
    pub fn new(tier: Tier) -> Ctx {
        let shm = unsafe {
            sys(SYS_MMAP, 0, SHM_SIZE as i64, 3, 0x1 | 0x20 | 0x4000, -1, 0) // shared, anonymous, noreserve
        };
        assert!(shm > 0, "no memory for the log");
        Ctx {
            tier,
            stats: Stats::default(),
            hash: HASH0,
            nontrivial: false,
            harness_error: None,
            verbose: false,
            trace: vec![],
            shm: shm as *mut u8,
        }
    }

    pub fn probe(&mut self, what: &str) {
        *self.stats.probes.entry(what.to_string()).or_insert(0) += 1;
    }

    /// The edges of the code under test that were taken so far
    fn note_edges(&mut self) {
        unsafe {
            let map = std::slice::from_raw_parts(self.shm.add(EDGES_AT), MAX_EDGES);
            self.stats.edges.extend((1..MAX_EDGES).filter(|k| map[*k] != 0).map(|k| k as u64));
            self.stats.all_edges = EDGES as u64;
        }
    }

    /// Something for the report
    pub fn tell(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let t = f();
            self.trace.push(t);
        }
    }

    pub fn cli(&mut self, fs: &Fs, plan: &Plan, deck: &str) -> Run {
        self.run(fs, plan, &format!("tiny-spice {}", deck), &|| cli_body(deck))
    }

    /// Run something in a child process, on a simulated operating system
    pub fn run(&mut self, fs: &Fs, plan: &Plan, what: &str, body: &dyn Fn()) -> Run {
        self.run_env(fs, plan, &[], what, body)
    }

    pub fn run_env(&mut self, fs: &Fs, plan: &Plan, env: &[(&str, &str)], what: &str, body: &dyn Fn()) -> Run {
        let mut r = self.run_once(fs, plan, env, body);
        if let End::Harness(ref s) = r.end {
            if s.starts_with("stalled") {
                // can only be the machine, or a real lock: once more
                r = self.run_once(fs, plan, env, body);
            }
        }
        if let End::Harness(ref s) = r.end {
            let s = s.clone();
            if s.starts_with("stalled") {
                r.end = End::Deadlock;
            } else {
                self.harness_error = Some(format!("{} in: {}", s, what));
            }
        }
        let st = &mut self.stats;
        st.runs += 1;
        st.ops += r.ops;
        st.allocs += r.allocs;
        st.yields += r.yields;
        st.globals += r.globals;
        st.steps += r.steps;
        st.most_steps = st.most_steps.max(r.steps);
        *st.ends.entry(r.end.text()).or_insert(0) += 1;
        let mut faults = 0;
        let mut h = HASH0;
        for rec in &r.recs {
            match rec.tag {
                T_FAULT => {
                    faults += 1;
                    *st.faults.entry(rec.path()).or_insert(0) += 1;
                }
                T_SWITCH => st.switches += 1,
                _ => {}
            }
            if rec.tag != T_CLOCK {
                h = hash_bytes(h, &[rec.tag, rec.thread]);
                h = hash_u64(hash_u64(hash_u64(h, rec.a as u64), rec.b as u64), rec.c as u64);
                h = hash_bytes(hash_bytes(h, &rec.s), &rec.d);
            }
        }
        h = hash_bytes(h, r.end.text().as_bytes());
        if faults > 0 {
            st.faulty_runs += 1;
        }
        if st.hists.len() < MAX_SET {
            st.hists.insert(h);
        }
        self.hash = hash_u64(self.hash, h);
        if self.verbose {
            let mut t = format!("--- run: {}\n    plan: {}\n    end: {}\n", what, plan.describe(), r.end.text());
            if !env.is_empty() {
                t += &format!("    environment: {:?}\n", env);
            }
            for rec in &r.recs {
                t += &format!("      [{}] {}\n", rec.thread, rec.text());
            }
            self.trace.push(t);
        }
        r
    }

    fn run_once(&mut self, fs: &Fs, plan: &Plan, env: &[(&str, &str)], body: &dyn Fn()) -> Run {
        unsafe {
            std::ptr::write_bytes(self.shm, 0, std::mem::size_of::<Shared>());
            let pid = fork();
            assert!(pid >= 0, "can't fork");
            if pid == 0 {
                sys(SYS_PRCTL, 1, 9, 0, 0, 0, 0); // die with the parent
                for (what, lim) in [(0i64, 20u64), (4, 0), (1, 0)] {
                    // CPU seconds, core size, file size
                    let l = [lim, lim];
                    sys(SYS_SETRLIMIT, what, l.as_ptr() as i64, 0, 0, 0, 0);
                }
                alarm(120);
                put_env(env);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    simos::init(fs.clone(), plan, self.shm);
                    deeper(plan.stack_shift, body);
                }));
                if r.is_err() {
                    die(ST_HARNESS);
                }
                done();
                die(ST_DONE);
            }
            let mut status: c_int = 0;
            loop {
                let r = waitpid(pid, &mut status, 0);
                if r == pid {
                    break;
                }
                assert!(r >= 0 || std::io::Error::last_os_error().raw_os_error() == Some(EINTR), "waitpid");
            }
            let sh = &*(self.shm as *const Shared);
            let recs = decode_log(self.shm);
            let sig = status & 127;
            let end = if sig == 14 {
                End::Harness("stalled".to_string())
            } else if sig == 9 {
                // nobody but the box itself does that
                End::Harness("killed".to_string())
            } else if sig == 24 {
                End::Budget
            } else if sig != 0 {
                End::Signal(sig)
            } else {
                match sh.status {
                    ST_DONE => match recs.iter().rev().find(|r| r.tag == T_CODE) {
                        Some(r) => End::Exit(r.a as i32),
                        None => End::Exit(0),
                    },
                    ST_CRASHED => End::Crash,
                    ST_BUDGET => End::Budget,
                    ST_DEADLOCK => End::Deadlock,
                    ST_HARNESS => End::Harness("panic in the simulator".to_string()),
                    n => End::Harness(format!("strange end of the process (status {}, state {})", status, n)),
                }
            };
            let mut after = fs.clone();
            let (mut out, mut err) = (vec![], vec![]);
            for r in &recs {
                after.apply(r);
                if r.tag == T_STD {
                    if r.a == 1 { out.extend_from_slice(&r.d) } else { err.extend_from_slice(&r.d) }
                }
            }
            Run {
                end,
                fs: after,
                out,
                err,
                ops: sh.ops,
                class: sh.class,
                allocs: sh.allocs,
                yields: sh.yields,
                globals: sh.globals,
                steps: sh.steps,
                recs,
            }
        }
    }
}

// ---------------------------------------------------------------------------
// checks

pub struct Check {
    pub id: &'static str,
    pub case: fn(&mut Src, &mut Ctx) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// probes that have to be hit, or the workload isn't what it should be
    pub must: &'static [&'static str],
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(hash_u64(hash_bytes(hash_u64(HASH0, seed), id.as_bytes()), index))
}

fn run_case(check: &Check, src: &mut Src, ctx: &mut Ctx) -> Verdict {
    ctx.hash = HASH0;
    ctx.nontrivial = false;
    ctx.trace.clear();
    ctx.stats.cases += 1;
    (check.case)(src, ctx)
}

/// memory shared by the orchestrator and its workers
#[repr(C)]
struct Board {
    /// the smallest index of a violation
    stop: std::sync::atomic::AtomicU64,
    len: [u64; 64],
}

const RESULT_SIZE: usize = 64 << 20;

unsafe fn map_shared(n: usize) -> *mut u8 {
    let p = sys(SYS_MMAP, 0, n as i64, 3, 0x1 | 0x20 | 0x4000, -1, 0);
    assert!(p > 0, "mmap");
    p as *mut u8
}

fn now() -> f64 {
    let d = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    d.as_secs_f64()
}

/// Leave as little as possible to damage
fn drop_privileges(scratch: &str) {
    unsafe {
        let d = format!("{}\0", scratch);
        sys(SYS_CHDIR, d.as_ptr() as i64, 0, 0, 0, 0, 0);
        sys(SYS_SETRESGID, 65534, 65534, 65534, 0, 0, 0);
        sys(SYS_SETRESUID, 65534, 65534, 65534, 0, 0, 0);
        sys(SYS_PRCTL, 1, 9, 0, 0, 0, 0);
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub found: Option<(u64, Violation, Vec<u64>)>,
    pub capped: bool,
    pub errors: Vec<String>,
    pub samples: Vec<String>,
}

/// Run cases lo..hi, spread over worker processes
pub fn campaign(check: &Check, seed: u64, tier: Tier, cases: u64, workers: u64, cap_s: f64) -> Outcome {
    let t0 = now();
    let scratch = format!("/tmp/tsim.{}", std::process::id());
    std::fs::create_dir(&scratch).expect("can't create the scratch directory");
    let mut out = Outcome { stats: Stats::default(), found: None, capped: false, errors: vec![], samples: vec![] };
    unsafe {
        let board = &mut *(map_shared(4096) as *mut Board);
        board.stop.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        let results: Vec<*mut u8> = (0..workers).map(|_| map_shared(RESULT_SIZE)).collect();
        let mut pids = vec![];
        for w in 0..workers {
            let pid = fork();
            assert!(pid >= 0, "can't fork");
            if pid == 0 {
                drop_privileges(&scratch);
                let r = catch_unwind(AssertUnwindSafe(|| worker(check, seed, tier, cases, workers, w, board, t0 + cap_s)));
                let text = r.unwrap_or_else(|_| "x worker panicked\n".to_string());
                let b = text.as_bytes();
                let n = b.len().min(RESULT_SIZE);
                std::ptr::copy_nonoverlapping(b.as_ptr(), results[w as usize], n);
                board.len[w as usize] = n as u64;
                sys(SYS_EXIT_GROUP, 0, 0, 0, 0, 0, 0);
            }
            pids.push(pid);
        }
        for (w, pid) in pids.iter().enumerate() {
            let mut status: c_int = 0;
            while waitpid(*pid, &mut status, 0) != *pid {}
            if status != 0 {
                out.errors.push(format!("worker {} ended with {}", w, status));
            }
        }
        for w in 0..workers as usize {
            let n = board.len[w] as usize;
            let text = String::from_utf8_lossy(std::slice::from_raw_parts(results[w], n)).to_string();
            let mut st = Stats::default();
            for l in text.lines() {
                match l.split_once(' ') {
                    Some(("x", m)) => out.errors.push(m.to_string()),
                    Some(("c", _)) => out.capped = true,
                    Some(("s", m)) => out.samples.push(unescape(m)),
                    Some(("v", m)) => {
                        let p: Vec<&str> = m.splitn(4, '\t').collect();
                        let index: u64 = p[0].parse().unwrap();
                        let choices = p[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                        let v = Violation { class: unescape(p[2]), msg: unescape(p[3]) };
                        if out.found.as_ref().is_none_or(|f| f.0 > index) {
                            out.found = Some((index, v, choices));
                        }
                    }
                    _ => st.load_line(l),
                }
            }
            out.stats.merge(&st);
            sys(11, results[w] as i64, RESULT_SIZE as i64, 0, 0, 0, 0);
        }
    }
    let _ = std::fs::remove_dir(&scratch);
    out
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

#[allow(clippy::too_many_arguments)]
fn worker(
    check: &Check, seed: u64, tier: Tier, cases: u64, workers: u64, w: u64, board: &Board, until: f64,
) -> String {
    use std::sync::atomic::Ordering::SeqCst;
    let mut ctx = Ctx::new(tier);
    let mut text = String::new();
    let mut i = w;
    while i < cases && i < board.stop.load(SeqCst) {
        if now() > until {
            text += "c capped\n";
            break;
        }
        let mut src = Src::from_seed(case_seed(seed, check.id, i));
        let mut verdict = run_case(check, &mut src, &mut ctx);
        let hash = ctx.hash;
        let nontrivial = ctx.nontrivial;
        if verdict.is_ok() && (i / workers) % (if check.id == "C01" { 4 } else { 16 }) == 0 {
            // the same case once more: has to be the same in every respect
            let saved = std::mem::take(&mut ctx.stats);
            let mut again = Src::from_choices(&src.rec);
            let v = run_case(check, &mut again, &mut ctx);
            let runs = ctx.stats.runs;
            ctx.stats = saved;
            ctx.stats.runs += runs;
            ctx.stats.repeats += 1;
            if ctx.hash != hash || v.is_err() {
                ctx.stats.mismatches += 1;
                if check.id == "C01" {
                    verdict = bad("not-repeatable", "the same execution, repeated in every respect, differed".to_string());
                }
            }
        }
        if let Err(v) = &verdict {
            if let Some(k) = on_record(v) {
                *ctx.stats.known.entry(k).or_insert(0) += 1;
                verdict = Ok(());
            }
        }
        if let Some(e) = ctx.harness_error.take() {
            text += &format!("x case {}: {}\n", i, escape(&e));
            break;
        }
        if nontrivial {
            ctx.stats.good.insert(hash);
        } else {
            ctx.stats.trivial += 1;
        }
        if i == w && w < 2 && verdict.is_ok() {
            let mut again = Src::from_choices(&src.rec);
            let saved = std::mem::take(&mut ctx.stats);
            ctx.verbose = true;
            let _ = run_case(check, &mut again, &mut ctx);
            ctx.verbose = false;
            ctx.stats = saved;
            let mut t = ctx.trace.join("\n");
            if t.len() > 6000 {
                let mut n = 6000;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t += " ...";
            }
            text += &format!("s {}\n", escape(&format!("case {} (seed {}):\n{}", i, case_seed(seed, check.id, i), t)));
        }
        if let Err(v) = verdict {
            board.stop.fetch_min(i, SeqCst);
            let c: Vec<String> = src.rec.iter().map(|x| x.to_string()).collect();
            text += &format!("v {}\t{}\t{}\t{}\n", i, c.join(","), escape(&v.class), escape(&v.msg));
            break;
        }
        i += workers;
    }
    ctx.note_edges();
    text += &ctx.stats.save();
    text
}

// ---------------------------------------------------------------------------
// shrinking

fn attempt(check: &Check, ctx: &mut Ctx, choices: &[u64], class: &str) -> Option<(Vec<u64>, Violation)> {
    let mut src = Src::from_choices(choices);
    let r = run_case(check, &mut src, ctx);
    if ctx.harness_error.take().is_some() {
        return None;
    }
    match r {
        Err(v) if v.class == class => {
            let mut rec = src.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            Some((rec, v))
        }
        _ => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn shrink(check: &Check, tier: Tier, choices: &[u64], v: Violation, limit_s: f64) -> (Vec<u64>, Violation, u64) {
    let until = now() + limit_s;
    let mut ctx = Ctx::new(tier);
    let class = v.class.clone();
    let mut best = choices.to_vec();
    let mut bv = v;
    let mut tries = 0;
    macro_rules! try_it {
        ($c:expr) => {{
            let c: Vec<u64> = $c;
            let mut ok = false;
            if now() < until && c != best {
                tries += 1;
                if let Some((rec, v)) = attempt(check, &mut ctx, &c, &class) {
                    if simpler(&rec, &best) {
                        best = rec;
                        bv = v;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // cut off the end, and delete and zero spans
        let mut n = best.len() / 2;
        while n > 0 && now() < until {
            let mut at = best.len().saturating_sub(n);
            loop {
                if at < best.len() {
                    let end = (at + n).min(best.len());
                    let mut c = best.clone();
                    c.drain(at..end);
                    if !try_it!(c) {
                        let mut c = best.clone();
                        for x in &mut c[at..end] {
                            *x = 0;
                        }
                        try_it!(c);
                    }
                }
                if at == 0 || now() > until {
                    break;
                }
                at = at.saturating_sub(n);
            }
            n /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < best.len() && now() < until {
            let mut step = best[i] / 2;
            while step > 0 && i < best.len() && now() < until {
                if best[i] >= step {
                    let mut c = best.clone();
                    c[i] -= step;
                    if try_it!(c) {
                        continue;
                    }
                }
                step /= 2;
            }
            i += 1;
        }
        if best == before || now() > until {
            break;
        }
    }
    (best, bv, tries)
}

/// Do a recorded case again and tell all about it
pub fn replay(check: &Check, tier: Tier, choices: &[u64]) -> (Verdict, Vec<String>, Option<String>) {
    let mut ctx = Ctx::new(tier);
    ctx.verbose = true;
    let mut src = Src::from_choices(choices);
    let v = run_case(check, &mut src, &mut ctx);
    (v, ctx.trace.clone(), ctx.harness_error.take())
}

/// In a process of its own, unprivileged
pub fn isolated<R>(f: impl FnOnce() -> R, give: impl FnOnce(&R) -> String) -> Result<String, String> {
    let scratch = format!("/tmp/tsim.{}", std::process::id());
    std::fs::create_dir(&scratch).expect("can't create the scratch directory");
    let r = unsafe {
        let shm = map_shared(RESULT_SIZE);
        let pid = fork();
        assert!(pid >= 0, "can't fork");
        if pid == 0 {
            drop_privileges(&scratch);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let r = f();
                give(&r)
            }));
            let code = match r {
                Ok(t) => {
                    let n = t.len().min(RESULT_SIZE - 8);
                    *(shm as *mut u64) = n as u64;
                    std::ptr::copy_nonoverlapping(t.as_ptr(), shm.add(8), n);
                    0
                }
                Err(_) => 1,
            };
            sys(SYS_EXIT_GROUP, code, 0, 0, 0, 0, 0);
        }
        let mut status: c_int = 0;
        while waitpid(pid, &mut status, 0) != pid {}
        let n = *(shm as *const u64) as usize;
        let t = String::from_utf8_lossy(std::slice::from_raw_parts(shm.add(8), n)).to_string();
        sys(11, shm as i64, RESULT_SIZE as i64, 0, 0, 0, 0);
        if status == 0 { Ok(t) } else { Err(format!("process ended with {}", status)) }
    };
    let _ = std::fs::remove_dir(&scratch);
    r
}

#[allow(dead_code)]
pub fn stop(pid: c_int) {
    unsafe {
        kill(pid, 9);
    }
}
