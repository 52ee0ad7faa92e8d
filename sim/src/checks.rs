//! The checks: what a case of each property is, and what is a violation.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

use tiny_spice::analysis::{Configuration, Kind, Statistics};
use tiny_spice::engine::{ConvergenceError, Engine};
use tiny_spice::spice::Reader;

use crate::gen::*;
use crate::harness::*;
use crate::model::*;
use crate::prng::{Rng, Src};
use crate::simos::*;

// ---------------------------------------------------------------------------
// bits and pieces

/// What must not matter: hash keys, clock, process id, addresses
fn anywhere(src: &mut Src) -> Plan {
    let mut p = Plan::quiet();
    if src.chance(3, 4) {
        p.hash_seed = src.seed();
    }
    if src.chance(1, 4) {
        p.clock0 = *src.pick(&[0, 1, -1_000_000_000, 4_102_444_800_000_000_000, 951_782_399_000_000_000, i64::MAX / 2]);
        p.clock_step = *src.pick(&[1, 0, -5_000_000_000, 1_000_000_000, 86_400_000_000_000]);
    }
    if src.chance(1, 4) {
        p.pid = src.range(1, 99999) as i32;
    }
    if src.chance(1, 4) {
        p.heap_shift = src.draw(5000);
        p.stack_shift = src.draw(200);
    }
    if src.chance(1, 2) {
        // if there are any threads
        p.auto_sched = src.seed();
    }
    p
}

fn split_reads(src: &mut Src, p: &mut Plan) {
    p.io_seed = src.seed();
    p.read_chunk = *src.pick(&[1, 2, 7, 40, 300, 3000, 0]);
    p.read_eintr = *src.pick(&[0, 20, 128, 200]);
}

fn split_writes(src: &mut Src, p: &mut Plan) {
    p.io_seed = src.seed();
    let (wc, we) = (*src.pick(&[1, 3, 16, 100, 0]), *src.pick(&[0, 20, 128, 220]));
    let (oc, oe) = (*src.pick(&[0, 1, 5, 64]), *src.pick(&[0, 20, 128, 220]));
    p.write_chunk = wc;
    p.write_eintr = we;
    p.stdout_chunk = oc;
    p.stdout_eintr = oe;
}

/// Places that are out of order whoever comes there: of the inputs, or on the way to the waveforms
fn bad_places(src: &mut Src, p: &mut Plan, d: &Deck) {
    for _ in 0..src.range(1, 2) {
        let mut inputs = vec![d.deck_file()];
        inputs.extend(d.lib_files());
        let input = src.pick(&inputs).clone();
        let b = match src.below(8) {
            0 => Bad { class: Class::Mkdir, path: d.wave[..d.wave.rfind('/').unwrap()].to_string(), from: 0, errno: *src.pick(&CREATE_ERRNOS) },
            1 => Bad { class: Class::OpenW, path: d.wave.clone(), from: 0, errno: *src.pick(&CREATE_ERRNOS) },
            2 => Bad { class: Class::OpenR, path: input, from: 0, errno: *src.pick(&OPEN_ERRNOS) },
            3 | 4 => Bad { class: Class::Read, path: input, from: src.draw(400), errno: *src.pick(&READ_ERRNOS) },
            _ => Bad { class: Class::WriteF, path: d.wave.clone(), from: src.draw(1500), errno: *src.pick(&WRITE_ERRNOS) },
        };
        p.bad.push(b);
    }
}

/// Another digit somewhere in a line with a component, or in the one for the analysis
fn small_edit(src: &mut Src, text: &[u8]) -> Option<Vec<u8>> {
    let mut at = vec![];
    let mut start = 0;
    for line in text.split_inclusive(|c| *c == b'\n') {
        let first = line.iter().find(|c| !c.is_ascii_whitespace());
        if start > 0 && first.is_some_and(|c| b"RCVIEGt".contains(c)) {
            let (mut words, mut exp) = (0, false);
            for k in 1..line.len() {
                let (a, b) = (line[k - 1], line[k]);
                if a.is_ascii_whitespace() {
                    words += (!b.is_ascii_whitespace()) as usize;
                    exp = false;
                }
                exp = exp || (b == b'e' && a.is_ascii_digit());
                if b.is_ascii_digit() && b != b'0' && !exp && words >= 2 {
                    at.push(start + k);
                }
            }
        }
        start += line.len();
    }
    if at.is_empty() {
        return None;
    }
    let k = *src.pick(&at);
    let mut new = text.to_vec();
    new[k] = b'1' + ((new[k] - b'1') as u64 + 1 + src.draw(8)) as u8 % 9;
    Some(new)
}

/// Everything has to come to an end
fn ended(r: &Run, what: &str) -> Verdict {
    match r.end {
        End::Budget | End::Deadlock => bad("no-end", format!("{}: {}", what, r.end.text())),
        _ => Ok(()),
    }
}

fn reported(r: &Run, healthy: Option<&Run>) -> bool {
    if r.end != End::Exit(0) {
        return true;
    }
    let mut usual: Vec<String> = healthy.map_or(vec![], |h| h.complaints());
    for c in r.complaints() {
        match usual.iter().position(|u| *u == c) {
            Some(i) => {
                usual.swap_remove(i);
            }
            None => return true,
        }
    }
    false
}

fn show_log(r: &Run) -> String {
    let t = |b: &[u8]| {
        let t = String::from_utf8_lossy(b).to_string();
        let l: Vec<&str> = t.lines().collect();
        l[l.len().saturating_sub(12)..].join("\n    ")
    };
    format!("  ended with: {}\n  end of stdout:\n    {}\n  end of stderr:\n    {}", r.end.text(), t(&r.out), t(&r.err))
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let line = a[..n].iter().filter(|c| **c == b'\n').count() + 1;
    let cut = |d: &[u8]| {
        let from = d[..n.min(d.len())].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
        let to = d[n.min(d.len())..].iter().position(|c| *c == b'\n').map_or(d.len(), |i| n.min(d.len()) + i);
        String::from_utf8_lossy(&d[from..to]).chars().take(300).collect::<String>()
    };
    format!("lengths {} and {}, they differ from byte {} (line {}) on:\n    {:?}\n    {:?}", a.len(), b.len(), n, line, cut(a), cut(b))
}

fn fs_difference(a: &Fs, b: &Fs) -> Option<String> {
    for (p, n) in &a.nodes {
        match (n, b.nodes.get(p)) {
            (_, None) => return Some(format!("{} is gone", p)),
            (Node::Dir, Some(Node::Dir)) => {}
            (Node::Link(x), Some(Node::Link(y))) if x == y => {}
            (Node::File(x), Some(Node::File(y))) => {
                if x != y {
                    return Some(format!("{} has changed: {}", p, first_difference(x, y)));
                }
            }
            _ => return Some(format!("{} is something else", p)),
        }
    }
    b.nodes.keys().find(|p| !a.nodes.contains_key(*p)).map(|p| format!("{} is new", p))
}

/// Other files around, which have nothing to do with the run
fn clutter(src: &mut Src, fs: &mut Fs) {
    if src.chance(1, 2) {
        for p in ["/w/notes.txt", "/w/waves/other.spi/tran.dat", "/w/waves/deck/tran.dat", "/w/deck.spi.bak",
            "/w/waves/deck.spi/old.dat", "/w/sub/other.spi"] {
            if fs.get(p).is_none() && !fs.nodes.iter().any(|(q, n)| matches!(n, Node::File(_)) && p.starts_with(&format!("{}/", q))) {
                fs.put(p, format!("this is {}\n", p).as_bytes());
            }
        }
    }
}

fn dc_failed(r: &Run) -> bool {
    r.complaints().iter().any(|l| l.contains("Divergent"))
}

/// Did the run claim to have got to its end?
fn finished(r: &Run) -> Option<f64> {
    let out = String::from_utf8_lossy(&r.out).to_string();
    out.lines().rev().find_map(|l| l.strip_prefix("*INFO* Finished at time ").and_then(|t| t.trim().parse().ok()))
}

/// The reader of the decks may be an ulp off
fn same_time(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

/// Later, and not by rounding
fn after(a: f64, b: f64) -> bool {
    a > b && !same_time(a, b)
}

/// Rules for the time column
fn check_axis(d: &Deck, rows: &[Row], complete: bool) -> Result<(), String> {
    let (tstart, tstop) = (d.an.tstart(), d.an.tstop.v);
    if rows.is_empty() {
        return Err("there isn't a row for time 0".to_string());
    }
    if rows[0].t != 0.0 {
        return Err(format!("the first row is for time {}", rows[0].t));
    }
    let dmax = d.an.tstep.v * d.an.rmax();
    for k in 1..rows.len() {
        let (a, b) = (rows[k - 1].t, rows[k].t);
        if !(b > a) {
            return Err(format!("time goes from {} to {}", a, b));
        }
        if after(tstart, b) {
            return Err(format!("there's a row for {}, before the start time {}", b, tstart));
        }
        if (k > 1 || tstart == 0.0) && b - a > dmax * (1.0 + 2e-9) + 1e-12 * b {
            return Err(format!("the step from {} to {} is larger than {}", a, b, dmax));
        }
    }
    if tstart > 0.0 && rows.len() > 1 && rows[1].t - tstart > dmax * (1.0 + 2e-9) + 1e-12 * rows[1].t {
        return Err(format!("the first row after the start time {} is for {}", tstart, rows[1].t));
    }
    let last = rows[rows.len() - 1].t;
    if complete && !same_time(last, tstop) {
        return Err(format!("the analysis is complete, but the last row is for {} and not for {}", last, tstop));
    }
    if !complete && (last > tstop || same_time(last, tstop)) {
        return Err(format!("the analysis was given up on, but the last row is for {}", last));
    }
    Ok(())
}

/// Every row that can be checked against the circuit. `dc`: check the first row, too.
fn check_rows(d: &Deck, rows: &[Row], dc: bool) -> Result<u64, String> {
    let m = &d.model;
    let mut n = 0;
    for (k, row) in rows.iter().enumerate() {
        let prev = if k == 0 { None } else { Some(&rows[k - 1]) };
        if k == 0 && !dc {
            continue;
        }
        if m.has_c() {
            if k == 1 && d.an.tstart() > 0.0 {
                continue; // steps in between are not on record
            }
            if prev.is_some_and(|p| p.v.iter().any(|x| !x.is_finite())) {
                continue;
            }
        }
        if m.absurd(row, d.ill.is_some()) {
            continue;
        }
        m.check_row(prev, row, d.an.reltol(), d.an.abstol())?;
        n += 1;
    }
    Ok(n)
}

fn waves<'a>(d: &Deck, r: &'a Run) -> Option<&'a Vec<u8>> {
    r.fs.file(&d.wave)
}

/// Is what the run left behind what the deck says? For transients on a healthy machine.
fn check_against_model(ctx: &mut Ctx, d: &Deck, r: &Run) -> Verdict {
    let more = || format!("{}\n{}", d.listing(), show_log(r));
    if r.end != End::Exit(0) {
        return bad("run-failed", format!("the simulation of a good deck failed\n{}", more()));
    }
    let data = match waves(d, r) {
        Some(w) => w,
        None => return bad("no-waveforms", format!("there are no waveforms in {}\n{}", d.wave, more())),
    };
    let t = match parse_table(data) {
        Ok(t) => t,
        Err(e) => return bad("bad-table", format!("{}: {}\n{}", d.wave, e, more())),
    };
    let rows = match t.rows_of(&d.model) {
        Ok(r) => r,
        Err(e) => return bad("wrong-columns", format!("{}: {}\n{}", d.wave, e, more())),
    };
    let c = r.complaints();
    if !c.is_empty() {
        if d.model.linear() {
            return bad("run-failed", format!("complaints about a good, linear deck: {:?}\n{}", c, more()));
        }
        ctx.probe("diode circuit given up on");
    }
    let complete = finished(r).is_some_and(|t| same_time(t, d.an.tstop.v));
    if let Err(e) = check_axis(d, &rows, complete || c.is_empty()) {
        return bad("wrong-times", format!("{}: {}\n{}", d.wave, e, more()));
    }
    match check_rows(d, &rows, !dc_failed(r)) {
        Ok(n) => {
            *ctx.stats.probes.entry("rows checked against the model".to_string()).or_insert(0) += n;
        }
        Err(e) => return bad("wrong-values", format!("{}: {}\n{}", d.wave, e, more())),
    }
    ctx.stats.sim_time += rows[rows.len() - 1].t;
    features(ctx, d);
    Ok(())
}

fn features(ctx: &mut Ctx, d: &Deck) {
    if !d.model.linear() {
        ctx.probe("deck with diodes");
    }
    if d.ill.is_some() {
        ctx.probe("deck that's ill-posed");
    }
    if d.alike {
        ctx.probe("deck with names that are much alike");
    }
    if d.model.has_c() {
        ctx.probe("deck with capacitors");
    }
    if d.model.nodes.iter().any(|n| n.contains('.')) {
        ctx.probe("deck with nodes inside subcircuits");
    }
    if d.model.nodes.iter().any(|n| n.matches('.').count() > 1) {
        ctx.probe("deck with nodes two or more levels down");
    }
    if d.model.loose().contains(&true) {
        ctx.probe("deck with nodes that have nothing connected to them");
    }
    if d.model.nodes.len() > 256 {
        ctx.probe("deck with more than 256 nodes");
    }
    if !d.libs.is_empty() {
        ctx.probe("deck with libraries");
    }
    if d.look.padding > 1000 {
        ctx.probe("deck with lines longer than a read buffer");
    }
    if d.model.nodes.iter().any(|n| n.len() > 60) {
        ctx.probe("deck with very long names");
    }
    if d.an.tran && d.an.tstop.v > 250.0 * d.an.tstep.v {
        ctx.probe("analysis with hundreds of steps");
    }
    if d.model.els.iter().any(|e| matches!(e, El::V(_, _, Wave::Pwl { .. }, _))) {
        ctx.probe("deck with PWL sources");
    }
    if d.model.els.iter().any(|e| matches!(e, El::V(_, _, Wave::Pwl { pts, .. }, _) if pts.len() > 8)) {
        ctx.probe("deck with a PWL source of many points");
    }
    if d.model.els.iter().any(|e| matches!(e, El::R(_, _, r) if *r != 0.0 && (*r < 1.0 || *r > 1.1e6))) {
        ctx.probe("deck of unusual impedance");
    }
    if d.model.nodes.iter().any(|n| n.matches('.').count() >= 4) {
        ctx.probe("deck with nodes four or more levels down");
    }
    if d.an.tran && d.an.tstep.v < 1e-9 {
        ctx.probe("deck with steps of less than a nanosecond");
    }
    if d.items.iter().filter(|i| matches!(i, Item::Card(Card::X(..)))).count() > 10 {
        ctx.probe("deck with more than ten instances");
    }
    if d.an.tstart() > 0.0 {
        ctx.probe("deck with a start time");
    }
}

// ---------------------------------------------------------------------------
// injected convergence failures

const REFUSE: u8 = 0;
const NUMERIC: u8 = 1;
const PANIC: u8 = 2;

#[derive(Clone, Debug, Default)]
struct Hook {
    /// (from this check on, for so many checks, what)
    bursts: Vec<(u64, u64, u8)>,
    /// out of 256, each check
    rate: u64,
    seed: u64,
    on: bool,
}

impl Hook {
    fn none() -> Hook {
        Hook::default()
    }

    fn install(&self) {
        if !self.on {
            tiny_spice::simhook::set_convergence_hook(None);
            return;
        }
        let h = self.clone();
        let mut n = 0u64;
        let mut rng = Rng::new(h.seed);
        tiny_spice::simhook::set_convergence_hook(Some(Box::new(move |now: &[f64], before: &[f64]| {
            let me = n;
            n += 1;
            if n > 1_000_000 {
                die(ST_BUDGET);
            }
            let mut what = None;
            for (from, len, kind) in &h.bursts {
                if me >= *from && me - *from < *len {
                    what = Some(*kind);
                }
            }
            if what.is_none() && h.rate > 0 && rng.below(256) < h.rate {
                what = Some(REFUSE);
            }
            // no check would let these pass
            let bad = now.iter().chain(before).any(|x| !x.is_finite());
            match what {
                None => None,
                Some(REFUSE) if bad => None,
                Some(REFUSE) => {
                    log_fault("solver:not-converged");
                    Some(Ok(false))
                }
                Some(NUMERIC) => {
                    log_fault("solver:numerical-error");
                    Some(Err(ConvergenceError::Divergent))
                }
                Some(_) => {
                    log_fault("solver:panic");
                    panic!("injected panic");
                }
            }
        })));
    }
}

/// Failures that stop in time
fn short_bursts(src: &mut Src, longest: usize) -> Hook {
    let mut h = Hook { on: true, ..Hook::none() };
    let mut at = 0;
    for _ in 0..src.range(1, 5) {
        at += *src.pick(&[0, 1, 2, 5, 10, 30, 80]) + 24 * (at.min(1));
        let n = src.range(1, longest) as u64;
        h.bursts.push((at, n, REFUSE));
        at += n;
    }
    h
}

/// Anything
fn any_hook(src: &mut Src) -> Hook {
    let mut h = Hook { on: true, seed: src.seed(), ..Hook::none() };
    match src.below(5) {
        0 => return short_bursts(src, 45),
        1 => return short_bursts(src, 200),
        2 => h.rate = *src.pick(&[16, 64, 128, 200, 240]),
        3 => {
            // from some point on
            let at = src.draw(150);
            h.bursts.push((at, u64::MAX, *src.pick(&[REFUSE, NUMERIC])));
        }
        _ => {
            let at = src.draw(120);
            h.bursts.push((at, 1, NUMERIC));
            h.rate = *src.pick(&[0, 32, 150]);
        }
    }
    h
}

fn hooked(ctx: &mut Ctx, fs: &Fs, p: &Plan, d: &Deck, h: &Hook) -> Run {
    let what = format!("tiny-spice {} with convergence failures {:?}", d.path, h);
    ctx.run(fs, p, &what, &|| {
        h.install();
        cli_body(&d.path);
    })
}

/// A deck, now and then without a solution
fn any_deck(src: &mut Src, want: &Want) -> Deck {
    let mut d = gen_deck(src, want);
    if src.chance(1, 10) {
        make_ill(src, &mut d);
    }
    d
}

/// Now and then, a file or directory on the way is somewhere else, and there's a symbolic link to it
fn some_links(src: &mut Src, ctx: &mut Ctx, d: &mut Deck, alone: bool) {
    if src.chance(1, 15) {
        d.add_links(src, alone);
        if !d.links.is_empty() {
            ctx.probe("files by way of symbolic links");
        }
    }
}

/// Now and then, the text is one nobody would write
fn some_garbling(src: &mut Src, ctx: &mut Ctx, d: &mut Deck) -> bool {
    if !src.chance(1, 10) {
        return false;
    }
    d.garble(src);
    ctx.probe("garbled text");
    true
}

/// Nobody knows how long an analysis of a garbled deck takes. It's left alone if it's too long.
fn too_long(r: &Run) -> bool {
    r.end == End::Budget || r.ops > 20_000 || r.allocs > 200_000 || r.steps > MAX_STEPS / 20
}

// ---------------------------------------------------------------------------
// C01

fn defective(src: &mut Src, d: &mut Deck, fs: &mut Fs) -> String {
    let mut what = vec![];
    for _ in 0..if src.chance(1, 4) { 2 } else { 1 } {
        what.push(put_defect(src, d, fs));
    }
    what.join(" and ")
}

/// Where a run looked for a file and there was none, other than for its waveforms
fn looked_for(r: &Run, d: &Deck) -> Vec<String> {
    let mut all = vec![];
    for rec in &r.recs {
        let (at, res) = (rec.path(), if rec.tag == T_OPEN { rec.b } else { rec.a });
        if !(rec.tag == T_OPEN || rec.tag == T_STAT) || res != -ENOENT as i64 {
            continue;
        }
        let at = clean_path(&at);
        let system = ["/proc", "/sys", "/dev"].iter().any(|s| at.starts_with(s));
        let waves = d.wave.starts_with(&at) || at.starts_with(&d.wave);
        if !system && !waves && !all.contains(&at) {
            all.push(at);
        }
    }
    all
}

/// If there's nothing in the way
fn put_junk(fs: &mut Fs, at: &str, text: &str) -> bool {
    let parents_fine = fs.nodes.iter().all(|(q, n)| !(matches!(n, Node::File(_)) && at.starts_with(&format!("{}/", q))));
    if fs.get(at).is_some() || !parents_fine {
        return false;
    }
    fs.put(at, text.as_bytes());
    true
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = any_deck(src, &Want { op: true, steps: 30, ..Want::all() });
    some_links(src, ctx, &mut d, true);
    let garbled = some_garbling(src, ctx, &mut d);
    let mut fs = d.fs();
    let mut sound = !garbled;
    if !garbled && src.chance(1, 5) {
        let what = defective(src, &mut d, &mut fs);
        ctx.tell(|| format!("defect: {}", what));
        ctx.probe("deck with a defect");
        sound = false;
    } else if !garbled {
        features(ctx, &d);
    }
    clutter(src, &mut fs);
    ctx.tell(|| d.listing());
    let base = ctx.cli(&fs, &Plan::quiet(), &d.path);
    if garbled && too_long(&base) {
        return Ok(());
    }
    ended(&base, "first run")?;
    ctx.stats.sim_time += finished(&base).unwrap_or(0.0);
    let n = src.range(2, 4);
    for k in 0..n {
        let mut p = anywhere(src);
        if src.chance(1, 2) {
            split_reads(src, &mut p);
        }
        let mut before = fs.clone();
        let mut after = base.fs.clone();
        if src.chance(1, 3) {
            ctx.probe("repeated where the first run left its waveforms");
            before = base.fs.clone();
        }
        if src.chance(1, 4) {
            // dates, older or newer than each other
            for q in before.nodes.keys().cloned().collect::<Vec<_>>() {
                let t = src.draw(5000);
                before.times.insert(q, t);
            }
            ctx.probe("files of other dates");
        }
        if sound && src.chance(1, 4) {
            // wherever it looked for something that wasn't there
            for q in looked_for(&base, &d) {
                let text = *src.pick(&[
                    "option RELTOL = 0.5\nRELTOL=0.5\nrmax = 0.001\n", "", "title\nV9 a 0 1\nR9 a 0 2\n.control\ntran 1 5\n.endc\n",
                    "0.5\n", "\u{fffd} 1 2 3",
                ]);
                if put_junk(&mut before, &q, text) {
                    put_junk(&mut after, &q, text);
                    ctx.probe("something put where the run had looked for it");
                }
            }
        }
        let env: &[(&str, &str)] = *src.pick(&[
            &[][..],
            &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("TZ", "Asia/Kathmandu")],
            &[("TMPDIR", "/nowhere"), ("HOME", "/w/sub"), ("SPICE_LIB", "/w"), ("TERM", "dumb"), ("COLUMNS", "10")],
            &[("USER", "root"), ("PWD", "/"), ("SOURCE_DATE_EPOCH", "1"), ("RUST_LOG", "trace"), ("NO_COLOR", "1")],
        ]);
        if src.chance(1, 3) {
            p.env_seed = src.seed();
        }
        if src.chance(1, 4) {
            p.cpus = src.range(1, 64) as u32;
            p.tty = src.chance(1, 2);
        }
        let what = format!("tiny-spice {} (run {})", d.path, k + 2);
        let r = ctx.run_env(&before, &p, env, &what, &|| cli_body(&d.path));
        ended(&r, "repeated run")?;
        let how = || format!("(with {})\n{}", p.describe(), d.listing());
        if r.end != base.end {
            return bad("other-end", format!("first run: {}; repeated run: {} {}", base.end.text(), r.end.text(), how()));
        }
        if let Some(diff) = fs_difference(&after, &r.fs) {
            return bad("other-files", format!("{} {}", diff, how()));
        }
        let (a, b) = (base.log_lines(), r.log_lines());
        if a != b {
            let x = a.iter().find(|l| a.iter().filter(|m| m == l).count() != b.iter().filter(|m| m == l).count());
            let y = b.iter().find(|l| a.iter().filter(|m| m == l).count() != b.iter().filter(|m| m == l).count());
            return bad("other-log", format!("the logs differ: {:?} / {:?} {}", x, y, how()));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------
// C02

fn c02(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let diodes = src.chance(1, 2);
    let d = gen_deck(src, &Want { steps: 8, nodes: 60, long: false, paths: false, diodes, large: true, ..Want::all() });
    let fs = d.fs();
    ctx.tell(|| d.listing());
    for _ in 0..src.range(1, 3) {
        let p = anywhere(src);
        let r = ctx.cli(&fs, &p, &d.path);
        ended(&r, "run")?;
        check_against_model(ctx, &d, &r)?;
        if d.model.linear() {
            // there's only one right operating point
            let t = parse_table(waves(&d, &r).unwrap()).unwrap();
            let row = &t.rows_of(&d.model).unwrap()[0];
            if let Some((v, i)) = d.model.dc_linear() {
                ctx.probe("operating point compared with the reference solution");
                let all: Vec<(String, f64, f64)> = d.model.nodes.iter().enumerate().map(|(k, n)| (format!("v({})", n), row.v[k], v[k]))
                    .chain((0..i.len()).map(|k| (format!("i({})", k), row.i[k], i[k]))).collect();
                for (n, x, y) in all {
                    if !((x - y).abs() <= 1e-5 * y.abs() + 1e-6) {
                        return bad("wrong-values", format!("{} is {} at the operating point, it should be {}\n{}", n, x, y, d.listing()));
                    }
                }
            }
        }
    }
    ctx.nontrivial = d.model.nodes.iter().any(|n| n.contains('.'));
    Ok(())
}

// ---------------------------------------------------------------------------
// C03

const READ_ERRNOS: [i32; 6] = [EIO, EISDIR, ENOMEM, ESTALE, EBADF, EAGAIN];
const OPEN_ERRNOS: [i32; 8] = [ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM, ELOOP, ESTALE];

fn c03(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = gen_deck(src, &Want { steps: 20, large: true, ..Want::all() });
    some_links(src, ctx, &mut d, true);
    let garbled = some_garbling(src, ctx, &mut d);
    let mut fs = d.fs();
    clutter(src, &mut fs);
    ctx.tell(|| d.listing());
    let quiet = ctx.cli(&fs, &Plan::quiet(), &d.path);
    if garbled && too_long(&quiet) {
        return Ok(());
    }
    ended(&quiet, "quiet run")?;
    if !garbled {
        check_against_model(ctx, &d, &quiet)?;
    }
    let good = waves(&d, &quiet).cloned();
    if good.is_none() {
        return Ok(());
    }
    let good = good.unwrap();

    // in pieces
    for _ in 0..src.range(1, 2) {
        let mut p = anywhere(src);
        split_reads(src, &mut p);
        let r = ctx.cli(&fs, &p, &d.path);
        ended(&r, "run with reads in pieces")?;
        if r.end != quiet.end {
            return bad("split-reads", format!("with {}, it {}, and not {}\n{}\n{}", p.describe(), r.end.text(), quiet.end.text(),
                show_log(&r), d.listing()));
        }
        let w = waves(&d, &r).cloned().unwrap_or_default();
        if w != good {
            return bad("split-reads", format!("with {}, the waveforms are not the same: {}\n{}", p.describe(),
                first_difference(&good, &w), d.listing()));
        }
    }

    // failing
    let reads = quiet.class[Class::Read as usize];
    let opens = quiet.class[Class::OpenR as usize];
    let stats = quiet.class[Class::Stat as usize];
    for _ in 0..src.range(1, 4) {
        let mut p = anywhere(src);
        let split = src.chance(1, 3);
        if split {
            p.io_seed = src.seed();
            p.read_chunk = *src.pick(&[20, 100, 1000]);
        }
        let f = match src.below(6) {
            0 => Fault { class: Class::OpenR, nth: src.draw(opens.max(1)), count: 1, act: Act::Errno(*src.pick(&OPEN_ERRNOS)) },
            1 => Fault { class: Class::Stat, nth: src.draw(stats.max(1)), count: 1, act: Act::Errno(*src.pick(&OPEN_ERRNOS)) },
            _ => {
                let n = if split { reads * 10 } else { reads };
                Fault { class: Class::Read, nth: src.draw(n.max(1)), count: 1, act: Act::Errno(*src.pick(&READ_ERRNOS)) }
            }
        };
        let mut f = f;
        if src.chance(1, 3) {
            f.count = u64::MAX;
        }
        p.faults.push(f);
        if src.chance(1, 6) {
            let n = src.draw(reads.max(1));
            p.faults.push(Fault { class: Class::Read, nth: n, count: 1, act: Act::Errno(*src.pick(&READ_ERRNOS)) });
        }
        let r = ctx.cli(&fs, &p, &d.path);
        ended(&r, "run with a failing read")?;
        if r.fired() > 0 {
            ctx.probe("run with a read or open that failed");
        }
        let how = || format!("(with {})\n{}\n{}", p.describe(), show_log(&r), d.listing());
        match waves(&d, &r) {
            Some(w) if *w == good => {}
            Some(w) => return bad("failed-read", format!("another circuit was simulated after a failing read: {} {}",
                first_difference(&good, w), how())),
            None => {
                if !reported(&r, Some(&quiet)) {
                    return bad("failed-read", format!("a failing read is not reported {}", how()));
                }
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------
// C04

fn c04(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = any_deck(src, &Want { op: true, steps: 40, ..Want::all() });
    if d.model.linear() && src.chance(1, 10) {
        d.make_huge(src);
        ctx.probe("deck with rows that are thousands of characters");
    }
    some_links(src, ctx, &mut d, true);
    let garbled = some_garbling(src, ctx, &mut d);
    let fs = d.fs();
    ctx.tell(|| d.listing());
    let p = anywhere(src);
    let base = ctx.cli(&fs, &p, &d.path);
    if garbled && too_long(&base) {
        return Ok(());
    }
    ended(&base, "run")?;
    if !garbled {
        features(ctx, &d);
    }
    for _ in 0..src.range(1, 3) {
        let mut q = p.clone();
        split_writes(src, &mut q);
        if src.chance(1, 3) {
            // a single one
            q.write_chunk = 0;
            q.write_eintr = 0;
            q.stdout_chunk = 0;
            q.stdout_eintr = 0;
            let class = *src.pick(&[Class::WriteF, Class::WriteStd]);
            let nth = src.draw(base.class[class as usize].max(1));
            let act = if src.chance(1, 2) { Act::Errno(EINTR) } else { Act::Short(src.range(1, 60)) };
            q.faults.push(Fault { class, nth, count: 1 + src.draw(6), act });
        }
        let r = ctx.cli(&fs, &q, &d.path);
        ended(&r, "run with partial writes")?;
        if r.fired() > 0 {
            ctx.nontrivial = true;
        }
        let how = || format!("(with {})\n{}\n{}", q.describe(), show_log(&r), d.listing());
        if r.end != base.end {
            return bad("split-writes", format!("{}, and not {} {}", r.end.text(), base.end.text(), how()));
        }
        if let Some(diff) = fs_difference(&base.fs, &r.fs) {
            return bad("split-writes", format!("{} {}", diff, how()));
        }
        if r.out != base.out {
            return bad("split-stdout", format!("stdout is not the same: {} {}", first_difference(&base.out, &r.out), how()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C05

const WRITE_ERRNOS: [i32; 6] = [ENOSPC, EIO, EDQUOT, EFBIG, EBADF, EROFS];
const CREATE_ERRNOS: [i32; 7] = [EACCES, ENOSPC, EROFS, EMFILE, EIO, EDQUOT, ENOENT];

/// Limits of the analyses that decks can't set
#[derive(Clone, Debug, Default)]
struct Limits {
    itl1: Option<usize>,
    itl3: Option<usize>,
    itl4: Option<usize>,
    fs: Option<f64>,
    ft: Option<f64>,
    rmin: Option<f64>,
}

impl Limits {
    fn apply(&self, c: &mut Configuration) {
        c.ITL1 = self.itl1.unwrap_or(c.ITL1);
        c.ITL3 = self.itl3.unwrap_or(c.ITL3);
        c.ITL4 = self.itl4.unwrap_or(c.ITL4);
        c.FS = self.fs.unwrap_or(c.FS);
        c.FT = self.ft.unwrap_or(c.FT);
        c.RMIN = self.rmin.unwrap_or(c.RMIN);
    }

    /// Some of them
    fn any(src: &mut Src) -> Limits {
        fn one<T: Copy>(src: &mut Src, from: &[T]) -> Option<T> {
            if src.chance(1, 3) { Some(*src.pick(from)) } else { None }
        }
        let mut l = Limits {
            itl1: one(src, &[50, 200, 5, 2, 1, 0]),
            itl3: one(src, &[6, 100, 3, 1, 0]),
            itl4: one(src, &[50, 100, 20, 5, 2, 1, 0]),
            fs: one(src, &[0.25, 1.0, 0.01, 2.0, 20.0]),
            ft: one(src, &[0.25, 0.5, 0.9, 0.01]),
            rmin: one(src, &[1e-3, 1e-6, 0.1, 1.0, 10.0]),
        };
        if l.itl3.is_some_and(|n| n < 3) {
            // steps never get larger again: there would be no end of small ones
            l.rmin = Some(l.rmin.unwrap_or(0.1).max(0.1));
        }
        l
    }
}

/// One analysis by way of the library, with everything it says about itself
fn lib_run(path: &str, h: &Hook, limits: &Limits) {
    h.install();
    let r = catch_unwind(|| {
        code(|| {
            let mut eng = Engine::new();
            let mut rd = Reader::new();
            if rd.read(Path::new(path)) {
                harness(|| note(1, "rejected", b""));
                return;
            }
            let ckt = rd.get_expanded_circuit();
            let mut cfg = rd.configuration().clone();
            limits.apply(&mut cfg);
            let st = eng.go(&ckt, &cfg);
            note_stats(1, &st);
            let dc = eng.dc();
            note_dc(2, &dc);
        })
    });
    if r.is_err() {
        note(1, "panicked", b"");
    }
    log_exit_code(if r.is_err() { 101 } else { 0 });
}

fn note_stats(tag: i64, st: &Option<Statistics>) {
    harness(|| {
        let t = match st {
            Some(s) => format!("{} end={:?} iterations={}", s.kind, s.end, s.iterations),
            None => "none".to_string(),
        };
        note(tag, &t, b"");
    })
}

fn note_dc(tag: i64, dc: &Option<Vec<f64>>) {
    harness(|| {
        let t = match dc {
            Some(v) => v.iter().map(|x| format!("{:x}", if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })).collect::<Vec<_>>().join(" "),
            None => "none".to_string(),
        };
        note(tag, &t, b"");
    })
}

fn note_text(r: &Run, tag: i64) -> Vec<String> {
    r.notes(tag).iter().map(|n| n.path()).collect()
}

/// What happened in one of the analyses that `several` ran
fn part(r: &Run, k: usize) -> Run {
    let from: Vec<usize> = r.recs.iter().enumerate().filter(|(_, x)| x.tag == T_NOTE && x.a == 7).map(|(i, _)| i).collect();
    let a = from.get(k).copied().unwrap_or(r.recs.len());
    let b = from.get(k + 1).copied().unwrap_or(r.recs.len());
    let mut p = Run { recs: r.recs[a..b].to_vec(), out: vec![], err: vec![], end: End::Exit(0), ..clone_run(r) };
    for x in &p.recs {
        if x.tag == T_STD && x.c > 0 {
            (if x.a == 1 { &mut p.out } else { &mut p.err }).extend_from_slice(&x.d);
        }
    }
    p
}

/// One analysis after the other in a process; whatever fails has to be told each time
fn c05_several(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = src.range(2, 3);
    let mut decks: Vec<Deck> = vec![];
    let mut fs = Fs::new();
    for k in 0..n {
        if k > 0 && src.chance(1, 4) {
            // the same one again
            let d = decks[k - 1].clone();
            decks.push(d);
            continue;
        }
        let mut d = any_deck(src, &Want { steps: 15, nodes: 15, long: false, paths: false, ..Want::all() });
        d.dir = format!("/w/d{}", k);
        d.path = format!("d{}/{}", k, d.file);
        d.wave = wave_path(&d.path);
        d.put(&mut fs);
        decks.push(d);
    }
    ctx.tell(|| decks.iter().map(|d| d.listing()).collect());
    let body = || {
        for d in &decks {
            note(7, "analysis", b"");
            lib_run(&d.path, &Hook::none(), &Limits::default());
            let w = sim_fs().file(&d.wave).cloned();
            match w {
                Some(w) => note(3, "left", &w),
                None => note(3, "nothing", b""),
            }
        }
    };
    let go = |ctx: &mut Ctx, p: &Plan| ctx.run(&fs, p, "library runs, one after the other", &body);
    let p0 = anywhere(src);
    let healthy = go(ctx, &p0);
    ended(&healthy, "healthy run")?;
    for _ in 0..src.range(1, 3) {
        let mut p = p0.clone();
        let class = *src.pick(&[Class::OpenW, Class::Mkdir, Class::WriteF]);
        let errs: &[i32] = if class as usize == Class::WriteF as usize { &WRITE_ERRNOS } else { &CREATE_ERRNOS };
        match src.below(4) {
            0 => p.disk_limit = Some(src.draw(2000)),
            k => {
                let nth = if k == 1 { 0 } else { src.draw(healthy.class[class as usize].max(1)) };
                let count = if k < 3 { u64::MAX } else { 1 + src.draw(3) };
                p.faults.push(Fault { class, nth, count, act: Act::Errno(*src.pick(errs)) });
            }
        }
        if src.chance(1, 3) {
            p.io_seed = src.seed();
            p.write_chunk = *src.pick(&[10, 60, 1]);
        }
        let r = go(ctx, &p);
        ended(&r, "run with failing output")?;
        let left = |r: &Run| r.notes(3).first().filter(|x| x.path() == "left").map(|x| x.d.clone());
        for k in 0..n {
            let (h, f) = (part(&healthy, k), part(&r, k));
            if left(&h).is_none() || left(&h) == left(&f) {
                continue;
            }
            ctx.nontrivial = true;
            ctx.probe("analysis after another that lost output");
            let told = note_text(&f, 1).iter().any(|t| t == "panicked") || reported(&f, Some(&h));
            if !told {
                return bad("not-reported", format!("waveforms of analysis {} are lost, but nobody is told (with {})\n{}\n{}",
                    k + 1, p.describe(), show_log(&f), decks.iter().map(|d| d.listing()).collect::<String>()));
            }
        }
    }
    Ok(())
}

fn c05(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 8) {
        return c05_several(src, ctx);
    }
    let mut d = any_deck(src, &Want { steps: 30, ..Want::all() });
    some_links(src, ctx, &mut d, true);
    let garbled = some_garbling(src, ctx, &mut d);
    let mut fs = d.fs();
    clutter(src, &mut fs);
    ctx.tell(|| d.listing());
    let by_lib = src.chance(1, 3);
    let go = |ctx: &mut Ctx, fs: &Fs, p: &Plan| {
        if by_lib {
            ctx.run(fs, p, &format!("library run of {}", d.path), &|| lib_run(&d.path, &Hook::none(), &Limits::default()))
        } else {
            ctx.cli(fs, p, &d.path)
        }
    };
    let p0 = anywhere(src);
    let healthy = go(ctx, &fs, &p0);
    if garbled && too_long(&healthy) {
        return Ok(());
    }
    ended(&healthy, "healthy run")?;
    let good = match waves(&d, &healthy) {
        Some(w) => w.clone(),
        None if garbled => return Ok(()),
        None => return if healthy.end == End::Exit(0) { bad("no-waveforms", format!("a healthy run leaves no {}\n{}", d.wave, d.listing())) } else { Ok(()) },
    };
    if src.chance(1, 4) {
        // not for the first time
        fs = healthy.fs.clone();
        if src.chance(1, 2) {
            let mut old = good.clone();
            old.extend_from_slice(b"left over\nfrom an earlier run\n");
            fs.put(&d.wave, &old);
        }
    }
    let old = fs.file(&d.wave).cloned();
    let writes = healthy.class[Class::WriteF as usize];
    let mkdirs = healthy.class[Class::Mkdir as usize];
    for _ in 0..src.range(1, 4) {
        let mut p = p0.clone();
        let mut n = 1;
        if src.chance(1, 5) {
            n = 2;
        }
        for _ in 0..n {
            let (class, of, errs): (Class, u64, &[i32]) = match src.below(6) {
                0 => (Class::OpenW, 1, &CREATE_ERRNOS),
                1 => (Class::Mkdir, mkdirs.max(1), &CREATE_ERRNOS),
                2 => {
                    p.disk_limit = Some(src.draw(good.len() as u64 + 1));
                    continue;
                }
                _ => (Class::WriteF, writes.max(1), &WRITE_ERRNOS),
            };
            let nth = src.draw(of);
            let count = if src.chance(1, 2) { u64::MAX } else { 1 + src.draw(3) };
            let e = *src.pick(errs);
            p.faults.push(Fault { class, nth, count, act: Act::Errno(e) });
        }
        if src.chance(1, 3) {
            p.io_seed = src.seed();
            p.write_chunk = *src.pick(&[10, 60, 1]);
            p.write_eintr = *src.pick(&[0, 40]);
        }
        let r = go(ctx, &fs, &p);
        ended(&r, "run with failing output")?;
        let how = || format!("(with {})\n{}\n{}", p.describe(), show_log(&r), d.listing());
        let left = waves(&d, &r);
        if left == Some(&good) && !(by_lib && r.end != End::Exit(0)) {
            continue;
        }
        ctx.nontrivial = true;
        ctx.probe("run that lost output");
        let opened = r.recs.iter().any(|x| x.tag == T_OPEN && x.b >= 0 && x.a & 3 != 0 && x.path() == d.wave);
        let fine = match left {
            None => true,
            Some(w) => good.starts_with(w) || (!opened && Some(w) == old.as_ref()),
        };
        if !fine {
            return bad("not-a-prefix", format!("what is in the file is not the start of the waveforms: {} {}",
                first_difference(&good, left.unwrap()), how()));
        }
        let mentioned = if by_lib {
            note_text(&r, 1).iter().any(|t| t == "panicked") || reported(&Run { end: End::Exit(0), ..clone_run(&r) }, Some(&healthy))
        } else {
            reported(&r, Some(&healthy))
        };
        if !mentioned {
            return bad("not-reported", format!("waveforms are lost, but nobody is told {}", how()));
        }
        if r.end == End::Exit(0) {
            ctx.probe("run that carried on without output");
            if finished(&r) != finished(&healthy) {
                return bad("other-results", format!("the analysis carried on without output to {:?}, and not to {:?} {}",
                    finished(&r), finished(&healthy), how()));
            }
            if by_lib && (note_text(&r, 1), note_text(&r, 2)) != (note_text(&healthy, 1), note_text(&healthy, 2)) {
                return bad("other-results", format!("the analysis carried on without output, but the results are others: {:?} {:?} {}",
                    note_text(&r, 1), note_text(&healthy, 1), how()));
            }
        }
    }
    Ok(())
}

fn clone_run(r: &Run) -> Run {
    Run { end: r.end.clone(), recs: r.recs.clone(), fs: r.fs.clone(), out: r.out.clone(), err: r.err.clone(),
        ops: r.ops, class: r.class, allocs: r.allocs, yields: r.yields, globals: r.globals, steps: r.steps }
}

// ---------------------------------------------------------------------------
// C06

fn c06(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let want = Want { steps: 20, ..Want::all() };
    let mut d = any_deck(src, &want);
    some_links(src, ctx, &mut d, true);
    let garbled = some_garbling(src, ctx, &mut d);
    ctx.tell(|| d.listing());
    let mut inputs = d.fs();
    let mut fs = d.fs();
    clutter(src, &mut fs);
    // what a first run in a clean directory gives
    let mut clean = ctx.cli(&inputs, &Plan::quiet(), &d.path);
    if garbled && too_long(&clean) {
        return Ok(());
    }
    ended(&clean, "clean run")?;
    let mut good = match waves(&d, &clean) {
        Some(w) => w.clone(),
        None => return Ok(()),
    };
    // at every point between two effects
    {
        let mut f = d.fs();
        for r in &clean.recs {
            if !r.is_effect() {
                continue;
            }
            f.apply(r);
            ctx.probe("crash point between two effects");
            if let Some(w) = f.file(&d.wave) {
                if !good.starts_with(w) {
                    return bad("not-a-prefix", format!("after {:?}, the file is not the start of the waveforms: {}\n{}",
                        r.text(), first_difference(&good, w), d.listing()));
                }
            }
        }
    }
    for step in 0..src.range(2, 6) {
        let before = fs.file(&d.wave).cloned();
        match src.below(9) {
            8 if step > 0 => {
                // another value in it, or in a library
                let mut files = vec![d.deck_file()];
                files.extend(d.lib_files());
                let f = src.pick(&files).clone();
                let text = match fs.file(&f).and_then(|t| small_edit(src, t)) {
                    Some(t) => t,
                    None => continue,
                };
                ctx.tell(|| format!("edited: {}\n{}", f, String::from_utf8_lossy(&text)));
                let times = fs.times.clone();
                fs.put(&f, &text);
                if src.chance(1, 4) {
                    // with the date of the old one
                    fs.times = times;
                }
                inputs.put(&f, &text);
                clean = ctx.cli(&inputs, &Plan::quiet(), &d.path);
                if garbled && too_long(&clean) {
                    return Ok(());
                }
                ended(&clean, "clean run")?;
                good = match waves(&d, &clean) {
                    Some(w) => w.clone(),
                    None => return Ok(()),
                };
                ctx.probe("value edited between runs");
            }
            0 if step > 0 => {
                // an edited deck
                let mut e = any_deck(src, &want);
                e.links = d.links.clone();
                e.dir = d.dir.clone();
                e.file = d.file.clone();
                e.path = d.path.clone();
                e.wave = d.wave.clone();
                for l in d.lib_files() {
                    fs.nodes.remove(&l);
                }
                e.put(&mut fs);
                d = e;
                inputs = d.fs();
                ctx.tell(|| format!("edited:\n{}", d.listing()));
                clean = ctx.cli(&inputs, &Plan::quiet(), &d.path);
                ended(&clean, "clean run")?;
                good = match waves(&d, &clean) {
                    Some(w) => w.clone(),
                    None => return Ok(()),
                };
                ctx.probe("deck edited between runs");
            }
            1 | 2 => {
                // complete
                let p = anywhere(src);
                let r = ctx.cli(&fs, &p, &d.path);
                ended(&r, "rerun")?;
                fs = r.fs.clone();
                if waves(&d, &r) != Some(&good) {
                    return bad("rerun-differs", format!("a rerun leaves something else in {} than a first run: {}\n{}\n{}", d.wave,
                        first_difference(&good, waves(&d, &r).unwrap_or(&vec![])), show_log(&r), d.listing()));
                }
                if before.as_ref().is_some_and(|b| b.len() > good.len()) {
                    ctx.probe("complete run over a longer file");
                }
            }
            _ => {
                let mut p = anywhere(src);
                match src.below(5) {
                    0 => p.alloc_fail = 1 + src.draw(clean.allocs.max(1)),
                    1 => {
                        let n = src.draw(clean.class[Class::WriteF as usize].max(1));
                        p.faults.push(Fault { class: Class::WriteF, nth: n, count: 1, act: Act::CrashAfter(src.below(200)) });
                    }
                    2 => {
                        let n = src.draw(clean.class[Class::WriteF as usize].max(1));
                        p.faults.push(Fault { class: Class::WriteF, nth: n, count: 1, act: Act::CrashBefore });
                    }
                    3 => {
                        let class = *src.pick(&[Class::OpenW, Class::Mkdir, Class::Close, Class::OpenR, Class::Read]);
                        let n = src.draw(clean.class[class as usize].max(1));
                        p.faults.push(Fault { class, nth: n, count: 1, act: Act::CrashBefore });
                    }
                    _ => {
                        let n = src.draw(clean.ops.max(1));
                        p.faults.push(Fault { class: Class::Any, nth: n, count: 1, act: Act::CrashBefore });
                    }
                }
                if src.chance(1, 4) {
                    p.io_seed = src.seed();
                    p.write_chunk = *src.pick(&[1, 10, 60]);
                    p.write_eintr = *src.pick(&[0, 60]);
                }
                let r = ctx.cli(&fs, &p, &d.path);
                ended(&r, "run with a crash")?;
                if r.end == End::Crash || matches!(r.end, End::Signal(_)) {
                    ctx.probe("crashed run");
                    ctx.nontrivial = true;
                }
                let left = waves(&d, &r);
                let fine = match left {
                    None => before.is_none(),
                    Some(w) => good.starts_with(w) || Some(w) == before.as_ref(),
                };
                if !fine {
                    return bad("not-a-prefix", format!(
                        "after a crash ({}), the file is neither what it was nor the start of the waveforms: {}\n{}", p.describe(),
                        left.map_or("gone".to_string(), |w| first_difference(&good, w)), d.listing()));
                }
                fs = r.fs.clone();
            }
        }
    }
    let r = ctx.cli(&fs, &anywhere(src), &d.path);
    ended(&r, "final rerun")?;
    if waves(&d, &r) != Some(&good) {
        return bad("rerun-differs", format!("the last rerun leaves something else in {} than a first run: {}\n{}\n{}", d.wave,
            first_difference(&good, waves(&d, &r).unwrap_or(&vec![])), show_log(&r), d.listing()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C07

fn c07(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = gen_deck(src, &Want { steps: 15, nodes: 20, op: true, ..Want::all() });
    some_links(src, ctx, &mut d, true);
    let mut fs = d.fs();
    clutter(src, &mut fs);
    let p = anywhere(src);
    let mut healthy = ctx.cli(&fs, &p, &d.path);
    ended(&healthy, "good run")?;
    let good = waves(&d, &healthy).cloned();
    let history = src.chance(2, 3);
    if history {
        fs = healthy.fs.clone();
    }
    if src.chance(1, 8) {
        // nobody knows what's wrong, if anything
        return c07_garbled(src, ctx, &mut d, fs);
    }
    if src.chance(2, 3) {
        // something's wrong in the input
        let what = put_defect(src, &mut d, &mut fs);
        let mut name = what.clone();
        if src.chance(1, 6) {
            let more = put_defect(src, &mut d, &mut fs);
            name = format!("{} and {}", what, more);
        }
        ctx.probe(&format!("defect: {}", what));
        ctx.tell(|| format!("{}\n{}", name, d.listing()));
        let mut p = anywhere(src);
        if src.chance(1, 4) {
            split_reads(src, &mut p);
        }
        let r = ctx.cli(&fs, &p, &d.path);
        ended(&r, "run of a bad deck")?;
        let how = || format!("(defect: {}; with {})\n{}\n{}", name, p.describe(), show_log(&r), texts(&d, &fs));
        if let Some(diff) = fs_difference(&fs, &r.fs) {
            return bad("bad-deck-simulated", format!("a bad deck was simulated: {} {}", diff, how()));
        }
        if !reported(&r, None) {
            return bad("bad-deck-unreported", format!("a bad deck was not reported {}", how()));
        }
        if finished(&r).is_some() {
            return bad("bad-deck-simulated", format!("a bad deck was simulated {}", how()));
        }
        ctx.nontrivial = true;
        return Ok(());
    }
    // something's wrong with reading it
    ctx.tell(|| d.listing());
    if history {
        // so that a run can be told from none
        if good.is_some() {
            fs.put(&d.wave, b"the waveforms of an earlier run\n");
        }
        healthy = ctx.cli(&fs, &p, &d.path);
    }
    for _ in 0..src.range(1, 3) {
        let mut p = anywhere(src);
        let class = *src.pick(&[Class::OpenR, Class::Stat, Class::Read, Class::OpenR]);
        let nth = src.draw(healthy.class[class as usize].max(1));
        let e = if class == Class::Read { *src.pick(&READ_ERRNOS) } else { *src.pick(&OPEN_ERRNOS) };
        let count = if src.chance(1, 3) { u64::MAX } else { 1 };
        p.faults.push(Fault { class, nth, count, act: Act::Errno(e) });
        let r = ctx.cli(&fs, &p, &d.path);
        ended(&r, "run with unreadable input")?;
        // ... of the way to the waveforms is something else
        let inputs: Vec<String> = std::iter::once(d.deck_file()).chain(d.lib_files()).collect();
        let output = r.recs.iter().any(|x| x.tag == T_STAT && x.a < 0 && !inputs.contains(&x.path()));
        if r.fired() == 0 || output {
            continue;
        }
        ctx.probe("run with unreadable input");
        ctx.nontrivial = true;
        let how = || format!("(with {})\n{}\n{}", p.describe(), show_log(&r), d.listing());
        match fs_difference(&fs, &r.fs) {
            Some(_) if fs_difference(&healthy.fs, &r.fs).is_none() => {} // it didn't matter
            Some(diff) => return bad("unreadable-simulated", format!("an analysis was started on unreadable input: {} {}", diff, how())),
            None => {
                let same = r.end == healthy.end && r.log_lines() == healthy.log_lines();
                if !same && !reported(&r, Some(&healthy)) {
                    return bad("unreadable-unreported", format!("unreadable input was not reported {}", how()));
                }
            }
        }
    }
    Ok(())
}

/// What is reported as wrong while it's read may not be simulated, and what isn't simulated has to be reported
fn c07_garbled(src: &mut Src, ctx: &mut Ctx, d: &mut Deck, mut fs: Fs) -> Verdict {
    d.garble(src);
    d.put(&mut fs);
    ctx.probe("garbled text");
    ctx.tell(|| d.listing());
    let p = anywhere(src);
    let r = ctx.cli(&fs, &p, &d.path);
    if too_long(&r) {
        return Ok(());
    }
    ended(&r, "run of a garbled deck")?;
    let how = || format!("(with {})\n{}\n{}", p.describe(), show_log(&r), texts(d, &fs));
    let mut log = vec![];
    for x in &r.recs {
        if x.tag == T_STD {
            log.extend_from_slice(&x.d);
        }
    }
    let log = String::from_utf8_lossy(&log).to_string();
    let log: Vec<&str> = log.lines().collect();
    let started = log.iter().position(|l| l.starts_with("*INFO* There are ") && l.contains(" nodes in the design"));
    // more words than it needs, and unknown settings, are passed over
    let passed_over = ["Expected '=' in option setting", "expected numerical literal in expression", "- expected '}'"];
    let first_error = log.iter().position(|l| l.starts_with("*ERROR*") && !passed_over.iter().any(|p| l.contains(p)));
    match started {
        None => {
            ctx.probe("garbled text that was rejected");
            if let Some(diff) = fs_difference(&fs, &r.fs) {
                return bad("bad-deck-simulated", format!("a bad deck was simulated: {} {}", diff, how()));
            }
            if !reported(&r, None) {
                return bad("bad-deck-unreported", format!("a bad deck was not reported {}", how()));
            }
        }
        Some(at) => {
            ctx.probe("garbled text that was accepted");
            if first_error.is_some_and(|e| e < at) {
                return bad("bad-deck-simulated", format!("{:?} was found, and yet it was simulated {}", log[first_error.unwrap()], how()));
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Input files, as they are
fn texts(d: &Deck, fs: &Fs) -> String {
    let mut s = String::new();
    for p in std::iter::once(d.deck_file()).chain(d.lib_files()) {
        s += &match fs.file(&p) {
            Some(t) => format!("=== {}\n{}\n", p, String::from_utf8_lossy(t)),
            None => format!("=== {} isn't there\n", p),
        };
    }
    s
}

// ---------------------------------------------------------------------------
// C08

#[derive(Clone, Debug)]
struct Job {
    deck: usize,
    /// 0: as in the deck, 1: operating point, 2: another transient
    mode: usize,
    hook: Hook,
    wave: Option<String>,
    /// use the circuit read for an earlier job, if there is one
    reuse: bool,
}

/// Before this job, the file gets another text. (deck, job, file, text)
type Edit = (usize, usize, String, Vec<u8>);

fn do_jobs(decks: &[Deck], jobs: &[(usize, Job)], edits: &[Edit]) {
    let mut eng = code(Engine::new);
    let mut have: Vec<Option<(tiny_spice::circuit::Circuit, Configuration)>> = decks.iter().map(|_| None).collect();
    let mut ran = false;
    let mut edited = 0;
    for (k, job) in jobs {
        let d = &decks[job.deck];
        while edited < edits.len() && edits[edited].1 <= *k {
            let e = &edits[edited];
            sim_fs().put(&e.2, &e.3);
            have[e.0] = None;
            edited += 1;
        }
        job.hook.install();
        let before = sim_fs().clone();
        let kept = &mut have[job.deck];
        let eng_ref = &mut eng;
        ran = false;
        let ran_ref = &mut ran;
        let r = catch_unwind(AssertUnwindSafe(|| {
            code(|| {
                if kept.is_none() || !job.reuse {
                    let mut rd = Reader::new();
                    if rd.read(Path::new(&d.path)) {
                        harness(|| note(*k as i64, "rejected", b""));
                        return None;
                    }
                    *kept = Some((rd.get_expanded_circuit(), rd.configuration().clone()));
                }
                let (ckt, cfg) = kept.as_ref().unwrap();
                let mut cfg = cfg.clone();
                match job.mode {
                    0 => {}
                    1 => cfg.set_dc_operating_point(),
                    _ => {
                        let (a, b) = (cfg.TSTOP * 0.37, cfg.TSTEP * 0.5);
                        cfg.set_transient(a, b, 0.0);
                    }
                }
                if let Some(w) = &job.wave {
                    cfg.set_wavefile(w);
                }
                let st = eng_ref.go(ckt, &cfg);
                note_stats(*k as i64, &st);
                *ran_ref = st.is_some();
                let transient = match job.mode {
                    0 if !d.broken.is_empty() => matches!(cfg.kind, Some(Kind::Transient)),
                    0 => d.an.tran,
                    n => n == 2,
                };
                if transient && *ran_ref { Some(cfg.wavefile.clone()) } else { None }
            })
        }));
        tiny_spice::simhook::set_convergence_hook(None);
        match r {
            Ok(Some(w)) => {
                let p = sim_fs().resolve(CWD, &w).unwrap_or_default();
                let data = sim_fs().file(&p).cloned();
                note(*k as i64, "waveforms", &data.unwrap_or_default());
            }
            Ok(None) => {}
            Err(_) => {
                note(*k as i64, "panicked", b"");
                // whatever it left
                for (p, n) in &sim_fs().nodes {
                    if before.nodes.get(p).map_or(true, |m| m != n) {
                        if let Node::File(data) = n {
                            note(*k as i64, p, data);
                        }
                    }
                }
            }
        }
        for f in open_files() {
            note(2000 + *k as i64, &f, b"");
        }
    }
    if ran {
        let last = jobs[jobs.len() - 1].0 as i64;
        let dc = code(|| eng.dc());
        note_dc(1000 + last, &dc);
    }
    log_exit_code(0);
}

fn some_edits(src: &mut Src, decks: &[Deck], fs: &Fs, jobs: usize) -> Vec<Edit> {
    let mut edits: Vec<Edit> = vec![];
    if !src.chance(1, 3) {
        return edits;
    }
    let mut now = fs.clone();
    for k in 2..=jobs {
        if src.chance(1, 2) {
            let n = src.below(decks.len());
            let mut files = vec![decks[n].deck_file()];
            files.extend(decks[n].lib_files());
            let f = src.pick(&files).clone();
            if let Some(t) = now.file(&f).and_then(|t| small_edit(src, t)) {
                now.put(&f, &t);
                edits.push((n, k, f, t));
            }
        }
    }
    edits
}

fn show_edits(edits: &[Edit]) -> String {
    edits.iter().map(|e| format!("\nbefore job {}, {} becomes\n{}", e.1, e.2, String::from_utf8_lossy(&e.3))).collect()
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = src.range(1, 3);
    let want = Want { steps: 15, nodes: 15, long: false, paths: false, op: true, ..Want::all() };
    let mut garbled = false;
    let mut decks = vec![];
    let mut fs = Fs::new();
    for k in 0..n {
        let mut d = any_deck(src, &want);
        d.dir = format!("/w/d{}", k);
        d.path = format!("d{}/{}", k, d.file);
        d.links.clear();
        d.wave = wave_path(&d.path);
        some_links(src, ctx, &mut d, false);
        if some_garbling(src, ctx, &mut d) {
            garbled = true;
        } else {
            features(ctx, &d);
        }
        d.put(&mut fs);
        decks.push(d);
    }
    let mut jobs: Vec<(usize, Job)> = vec![];
    for k in 0..src.range(2, 5) {
        let mut job = Job {
            deck: src.below(n),
            mode: *src.pick(&[0, 1, 2]),
            hook: Hook::none(),
            wave: None,
            reuse: src.chance(1, 2),
        };
        if src.chance(1, 3) {
            job.hook = any_hook(src);
            if src.chance(1, 3) {
                job.hook.bursts.push((src.draw(60), 1, PANIC));
            }
        }
        job.wave = match src.below(6) {
            0 => Some("/w/d0/deck.spi/tran.dat".to_string()), // can't be
            1 => Some("shared/x.dat".to_string()),
            _ => None,
        };
        jobs.push((k + 1, job));
    }
    let edits = some_edits(src, &decks, &fs, jobs.len());
    if !edits.is_empty() {
        ctx.probe("deck edited between analyses");
    }
    let mut bad_ones = Plan::quiet();
    if src.chance(1, 4) {
        let d = src.pick(&decks).clone();
        bad_places(src, &mut bad_ones, &d);
        ctx.probe("analyses with files out of order");
    }
    ctx.tell(|| format!("{}\njobs: {:#?}{}\nout of order: {:?}", decks.iter().map(|d| d.listing()).collect::<String>(), jobs,
        show_edits(&edits), bad_ones.bad));
    let p = Plan { bad: bad_ones.bad.clone(), ..anywhere(src) };
    let all = ctx.run(&fs, &p, "several analyses on one engine", &|| do_jobs(&decks, &jobs, &edits));
    if garbled && too_long(&all) {
        return Ok(());
    }
    ended(&all, "several analyses")?;
    for (k, job) in &jobs {
        let one = vec![(*k, job.clone())];
        let q = Plan { bad: bad_ones.bad.clone(), ..anywhere(src) };
        let alone = ctx.run(&fs, &q, "one analysis by itself", &|| do_jobs(&decks, &one, &edits));
        ended(&alone, "one analysis")?;
        let get = |r: &Run, tag: usize| -> Vec<(String, Vec<u8>)> { r.notes(tag as i64).iter().map(|n| (n.path(), n.d.clone())).collect() };
        let (a, b) = (get(&alone, *k), get(&all, *k));
        let how = || format!("analysis {} of {:#?}\n{}", k, jobs, decks.iter().map(|d| d.listing()).collect::<String>());
        let names = |v: &[(String, Vec<u8>)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
        if a.iter().any(|x| x.0 == "panicked") {
            ctx.probe("analysis that panicked");
            // it's the file that may be told apart by what was there before
            let pa = a.iter().any(|x| x.0 == "panicked");
            let pb = b.iter().any(|x| x.0 == "panicked");
            if pa != pb {
                return bad("history-matters", format!("by itself: {:?}; after others: {:?}\n{}", names(&a), names(&b), how()));
            }
            for x in &b {
                if x.0 != "panicked" && !a.contains(x) {
                    return bad("history-matters", format!("by itself, {:?} was left, after others {:?}\n{}", names(&a), names(&b), how()));
                }
            }
        } else if a != b {
            let d = a.iter().zip(&b).find(|(x, y)| x != y);
            return bad("history-matters", format!("by itself: {:?}; after others: {:?}; {}\n{}", names(&a), names(&b),
                d.map_or(String::new(), |(x, y)| first_difference(&x.1, &y.1)), how()));
        }
        let (a, b) = (note_text(&alone, 1000 + *k as i64), note_text(&all, 1000 + *k as i64));
        if !b.is_empty() && !get(&alone, *k).iter().any(|x| x.0 == "panicked") && a != b {
            return bad("history-matters", format!("solution by itself: {:?}; after others: {:?}\n{}", a, b, how()));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------
// C09

fn thread_body(path: String, h: Hook, k: usize) {
    h.install();
    let r = catch_unwind(|| {
        code(|| {
            let mut eng = Engine::new();
            let mut rd = Reader::new();
            if rd.read(Path::new(&path)) {
                harness(|| note(1 + k as i64, "rejected", b""));
                return;
            }
            let ckt = rd.get_expanded_circuit();
            let st = eng.go(&ckt, rd.configuration());
            note_stats(1 + k as i64, &st);
            let dc = eng.dc();
            note_dc(1 + k as i64, &dc);
        })
    });
    tiny_spice::simhook::set_convergence_hook(None);
    if r.is_err() {
        note(1 + k as i64, "panicked", b"");
    }
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = src.range(2, 4);
    let want = Want { steps: 12, nodes: 12, long: false, paths: false, op: true, ..Want::all() };
    let mut decks: Vec<Deck> = vec![];
    let mut hooks: Vec<Hook> = vec![];
    let mut garbled = false;
    let mut fs = Fs::new();
    let together = src.chance(1, 2);
    for k in 0..n {
        // the same deck under another name, now and then
        let mut d = if k > 0 && src.chance(1, 4) { decks[k - 1].clone() } else { any_deck(src, &want) };
        if together && (k == 0 || d.libs.is_empty() || decks.iter().all(|e| e.libs.is_empty())) {
            d.dir = "/w".to_string();
            d.file = format!("deck{}.spi", k);
            d.path = d.file.clone();
        } else {
            d.dir = format!("/w/d{}", k);
            d.file = "deck.spi".to_string();
            d.path = format!("d{}/{}", k, d.file);
        }
        d.links.clear();
        d.wave = wave_path(&d.path);
        some_links(src, ctx, &mut d, false);
        d.put(&mut fs);
        if src.chance(1, 8) {
            put_defect(src, &mut d, &mut fs);
            ctx.probe("thread with a bad deck");
        } else if some_garbling(src, ctx, &mut d) {
            d.put(&mut fs);
            garbled = true;
        }
        let mut h = Hook::none();
        if src.chance(1, 4) {
            h = any_hook(src);
            if src.chance(1, 3) {
                h.bursts.push((src.draw(60), 1, PANIC));
            }
        }
        decks.push(d);
        hooks.push(h);
    }
    let mut bad_ones = Plan::quiet();
    if src.chance(1, 4) {
        let d = src.pick(&decks).clone();
        bad_places(src, &mut bad_ones, &d);
        ctx.probe("thread with files out of order");
    }
    ctx.tell(|| format!("{}\nhooks: {:?}\nout of order: {:?}", decks.iter().map(|d| d.listing()).collect::<String>(), hooks, bad_ones.bad));
    let mut solo = vec![];
    let (mut total, mut globals) = (0, 0);
    for k in 0..n {
        let p = Plan { bad: bad_ones.bad.clone(), ..anywhere(src) };
        let r = ctx.run(&fs, &p, &format!("simulation {} by itself", k), &|| {
            let (path, h) = (decks[k].path.clone(), hooks[k].clone());
            run_threads(vec![Box::new(move || thread_body(path, h, k))]);
            log_exit_code(0);
        });
        if garbled && too_long(&r) {
            return Ok(());
        }
        ended(&r, "simulation by itself")?;
        total += r.yields;
        globals += r.globals;
        solo.push(r);
    }
    for _ in 0..src.range(1, 3) {
        let mut p = Plan { bad: bad_ones.bad.clone(), ..anywhere(src) };
        let mut at = 0;
        if globals > 0 {
            ctx.probe("simulation that uses global data");
        }
        if globals > 0 && src.chance(3, 4) {
            // where threads may be in each other's way
            let mut g = 0;
            for _ in 0..src.range(1, 40) {
                let far = src.chance(1, 4);
                g += 1 + src.draw(if far { globals } else { 4.min(globals) });
                p.sched_globals.push((g, src.draw(n as u64) as u32));
            }
        }
        let style = src.below(4);
        if style == 3 {
            // close together, somewhere
            at = src.draw(total.max(1));
        }
        let switches = *src.pick(&[3, 10, 40, 200]);
        for _ in 0..switches {
            at += match style {
                0 => 1 + src.draw((2 * total / switches).max(1)),
                1 => 1 + src.draw(20),
                3 => 1 + src.draw(300),
                _ => {
                    let far = src.chance(1, 4);
                    1 + src.draw(if far { total.max(1) / 4 + 1 } else { 10 })
                }
            };
            p.sched.push((at, src.draw(n as u64) as u32));
        }
        let r = ctx.run(&fs, &p, "simulations on several threads", &|| {
            let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..n).map(|k| {
                let (path, h) = (decks[k].path.clone(), hooks[k].clone());
                Box::new(move || thread_body(path, h, k)) as Box<dyn FnOnce() + Send>
            }).collect();
            run_threads(bodies);
            log_exit_code(0);
        });
        ended(&r, "simulations on several threads")?;
        let sw = r.recs.iter().filter(|x| x.tag == T_SWITCH).count();
        if sw > n {
            ctx.nontrivial = true;
        }
        for k in 0..n {
            let how = || format!("(thread {}; schedule {:?}; {})\n{}", k, p.sched, decks[k].path,
                decks.iter().map(|d| d.listing()).collect::<String>());
            let (a, b) = (note_text(&solo[k], 1 + k as i64), note_text(&r, 1 + k as i64));
            if a != b {
                return bad("threads-matter", format!("by itself: {:?}; with other threads: {:?} {}", a, b, how()));
            }
            let (a, b) = (solo[k].fs.file(&decks[k].wave), r.fs.file(&decks[k].wave));
            if a != b {
                return bad("threads-matter", format!("the waveforms of {} differ: {} {}", decks[k].path,
                    first_difference(a.unwrap_or(&vec![]), b.unwrap_or(&vec![])), how()));
            }
        }
        // and nothing else
        let mut want = fs.clone();
        for s in &solo {
            for (path, node) in &s.fs.nodes {
                if fs.nodes.get(path).map_or(true, |m| m != node) {
                    want.nodes.insert(path.clone(), node.clone());
                }
            }
        }
        if let Some(diff) = fs_difference(&want, &r.fs) {
            return bad("threads-matter", format!("{}\n{}", diff, decks.iter().map(|d| d.listing()).collect::<String>()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C10, C11, C12

fn tran_want() -> Want {
    Want { steps: 60, nodes: 14, long: false, paths: false, tstart: false, ..Want::all() }
}

/// Waveforms of a run with convergence failures
fn table_of(d: &Deck, r: &Run) -> Result<Option<(Table, Vec<Row>)>, Violation> {
    let more = || format!("{}\n{}", show_log(r), d.listing());
    let data = match waves(d, r) {
        Some(w) => w,
        None => return bad("no-waveforms", format!("there are no waveforms in {}\n{}", d.wave, more())),
    };
    let t = match parse_table(data) {
        Ok(t) => t,
        Err(e) => return bad("bad-table", format!("{}: {}\n{}", d.wave, e, more())),
    };
    match t.rows_of(&d.model) {
        Ok(rows) => Ok(Some((t, rows))),
        Err(e) => bad("wrong-columns", format!("{}: {}\n{}", d.wave, e, more())),
    }
}

fn c10(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = gen_deck(src, &tran_want());
    let h = if src.chance(3, 4) { any_hook(src) } else { Hook::none() };
    ctx.tell(|| d.listing());
    let p = anywhere(src);
    let full = hooked(ctx, &d.fs(), &p, &d, &h);
    ended(&full, "run")?;
    features(ctx, &d);
    let (t, rows) = match table_of(&d, &full)? {
        Some(x) => x,
        None => return Ok(()),
    };
    ctx.stats.sim_time += rows.last().map_or(0.0, |r| r.t);
    if full.fired() > 0 && rows.len() > 2 {
        ctx.nontrivial = true;
    }
    let complete = |r: &Run| {
        // no mention of anything but the operating point
        let given_up = r.complaints().iter().any(|l| !l.contains("Divergent") && !l.contains("math gone bad"));
        if given_up { finished(r).is_some_and(|t| t >= d.an.tstop.v || same_time(t, d.an.tstop.v)) } else { true }
    };
    if complete(&full) {
        ctx.probe("complete analysis");
    } else {
        ctx.probe("analysis that was given up");
    }
    if let Err(e) = check_axis(&d, &rows, complete(&full)) {
        return bad("wrong-times", format!("{} (convergence failures: {:?})\n{}\n{}", e, h, show_log(&full), d.listing()));
    }
    // with a start time
    let done = complete(&full);
    for _ in 0..src.range(1, 2) {
        let times: Vec<f64> = rows.iter().map(|r| r.t).collect();
        let ts = match src.below(3) {
            0 => {
                let f = *src.pick(&[0.5, 0.1, 0.25, 0.9, 0.99, 1.0]);
                about(src, d.an.tstop.v * f, 3)
            }
            1 => {
                // right on a row
                let t = *src.pick(&times);
                let n = about(src, t, 6);
                if n.v > 0.0 { n } else { d.an.tstep.clone() }
            }
            _ => {
                let f = src.below(1000) as f64 / 1000.0;
                about(src, d.an.tstop.v * f, 4)
            }
        };
        // on the last row, it has to be written in the same way
        let ts = if (ts.v - d.an.tstop.v).abs() <= 1e-9 * ts.v { d.an.tstop.clone() } else { ts };
        if ts.v > d.an.tstop.v || ts.v < 0.0 {
            continue;
        }
        d.an.tstart = Some(ts.clone());
        ctx.probe("run with a start time");
        let r = hooked(ctx, &d.fs(), &p, &d, &h);
        ended(&r, "run with a start time")?;
        let (t2, rows2) = match table_of(&d, &r)? {
            Some(x) => x,
            None => return bad("start-time-matters", format!("with a start time, the run fails\n{}\n{}", show_log(&r), d.listing())),
        };
        if let Err(e) = check_axis(&d, &rows2, done) {
            if rows2.len() > 1 || done {
                return bad("wrong-times", format!("{} (convergence failures: {:?})\n{}\n{}", e, h, show_log(&r), d.listing()));
            }
        }
        let near = |t: f64| same_time(t, ts.v);
        let keep = |t: &Table| -> Vec<String> {
            t.rows.iter().zip(&t.text).filter(|(x, _)| x[0] == 0.0 || (x[0] > ts.v && !near(x[0]))).map(|(_, l)| l.clone()).collect()
        };
        if keep(&t) != keep(&t2) {
            let (a, b) = (keep(&t).join("\n"), keep(&t2).join("\n"));
            return bad("start-time-matters", format!("the start time {} changes rows: {}\n{}", ts.v,
                first_difference(a.as_bytes(), b.as_bytes()), d.listing()));
        }
        for (x, l) in t2.rows.iter().zip(&t2.text) {
            if near(x[0]) && !t.text.contains(l) {
                return bad("start-time-matters", format!("the start time {} changes row {}\n{}", ts.v, l, d.listing()));
            }
        }
        d.an.tstart = None;
    }
    Ok(())
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = gen_deck(src, &tran_want());
    if src.chance(1, 6) {
        let f = *src.pick(&[0.5, 0.1, 0.25]);
        d.an.tstart = Some(about(src, d.an.tstop.v * f, 3));
    }
    let h = if src.chance(5, 6) { any_hook(src) } else { Hook::none() };
    ctx.tell(|| d.listing());
    let r = hooked(ctx, &d.fs(), &anywhere(src), &d, &h);
    ended(&r, "run")?;
    features(ctx, &d);
    let rows = match table_of(&d, &r)? {
        Some(x) => x.1,
        None => return Ok(()),
    };
    ctx.stats.sim_time += rows.last().map_or(0.0, |r| r.t);
    if r.fired() > 0 && rows.len() > 2 {
        ctx.nontrivial = true;
    }
    if r.refused() == 0 && d.model.linear() && !r.complaints().is_empty() {
        return bad("wrong-values", format!("no solution for a circuit that has one {}\n{}", show_log(&r), d.listing()));
    }
    match check_rows(&d, &rows, !dc_failed(&r)) {
        Ok(n) => {
            *ctx.stats.probes.entry("rows checked against the model".to_string()).or_insert(0) += n;
            Ok(())
        }
        Err(e) => bad("wrong-values", format!("{} (convergence failures: {:?})\n{}\n{}", e, h, show_log(&r), d.listing())),
    }
}

/// Steps and times that don't get anywhere
fn odd_times(src: &mut Src, an: &mut Analysis) {
    let none = |src: &mut Src| {
        let x = *src.pick(&[0.0, -1e-3, -1.0]);
        about(src, x, 2)
    };
    match src.below(3) {
        0 => an.tstep = none(src),
        1 => an.rmax = Some(none(src)),
        _ => an.tstop = about(src, 0.0, 1),
    }
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut d = gen_deck(src, &Want { op: true, ..tran_want() });
    if src.chance(1, 4) {
        make_ill(src, &mut d);
    }
    let odd = src.chance(1, 12);
    if odd {
        odd_times(src, &mut d.an);
        ctx.probe("odd steps and times");
    }
    let well = d.model.linear() && d.ill.is_none() && !odd;
    if let Some(w) = d.ill {
        ctx.probe(&format!("ill-posed: {}", w));
    }
    ctx.tell(|| d.listing());
    // 0: failures that stop in time, 1: ... with smaller steps, 2: that don't stop, 3: anything
    let kind = src.below(4);
    let limits = match kind {
        0 | 1 => Limits { itl1: Some(*src.pick(&[50, 100, 30])), itl4: Some(*src.pick(&[50, 100, 30])), ..Limits::default() },
        _ => if src.chance(1, 2) { Limits::any(src) } else { Limits::default() },
    };
    let (itl1, itl4) = (limits.itl1.unwrap_or(50), limits.itl4.unwrap_or(50));
    let h = match kind {
        0 => short_bursts(src, itl1.min(itl4) - 8),
        1 => short_bursts(src, itl4 * 2 - 5),
        2 => {
            let at = src.draw(150);
            let k = *src.pick(&[REFUSE, NUMERIC]);
            Hook { on: true, bursts: vec![(at, u64::MAX, k)], ..Hook::none() }
        }
        _ => any_hook(src),
    };
    let p = anywhere(src);
    let what = format!("library run of {} with {:?} and convergence failures {:?}", d.path, limits, h);
    let r = ctx.run(&d.fs(), &p, &what, &|| lib_run(&d.path, &h, &limits));
    ended(&r, "run")?;
    features(ctx, &d);
    let more = || format!("(convergence failures: {:?}; {:?})\n{}\n{}", h, limits, show_log(&r), d.listing());
    if r.end != End::Exit(0) {
        return bad("panicked", format!("the analysis panicked {}", more()));
    }
    if r.fired() > 0 {
        ctx.nontrivial = true;
    }
    let stats = note_text(&r, 1).first().cloned().unwrap_or_default();
    let end: f64 = match stats.split("end=").nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok()) {
        Some(e) => e,
        None => return bad("no-statistics", format!("the analysis gives no statistics: {} {}", stats, more())),
    };
    let complaints = r.complaints();
    let refused = r.refused() as u64;
    if !d.an.tran {
        // all of its checks failed: it can't have found a solution
        let all = kind == 2 && h.bursts[0].0 == 0;
        if all && complaints.is_empty() {
            return bad("not-reported", format!("the operating point was not found, but nobody is told {}", more()));
        }
        // it would have been allowed a few more attempts
        if kind == 0 && well && h.bursts.iter().map(|b| b.1).sum::<u64>() < itl1 as u64 - 8 && !complaints.is_empty() {
            return bad("gave-up", format!("the operating point was given up on too early {}", more()));
        }
        return Ok(());
    }
    let tstop = d.an.tstop.v;
    let end = if same_time(end, tstop) { tstop } else { end };
    if end == tstop {
        ctx.probe("transient that got to its end");
    } else {
        ctx.probe("transient that gave up");
    }
    if end > tstop {
        return bad("dishonest", format!("the analysis says it got to {}, beyond {} {}", end, tstop, more()));
    }
    if end < tstop && complaints.iter().all(|l| l.contains("Divergent")) {
        return bad("not-reported", format!("the analysis got to {} only, but nobody is told {}", end, more()));
    }
    // the failures don't stop, and they did start
    if kind == 2 && refused > 0 && tstop > 0.0 {
        ctx.probe("failures that don't stop");
        if complaints.is_empty() {
            return bad("not-reported", format!("a solution couldn't be found, but nobody is told {}", more()));
        }
        if end >= tstop {
            return bad("dishonest", format!("the analysis says it got to {}, which it can't have {}", end, more()));
        }
    }
    if well {
        let recovers = match kind {
            0 => end < tstop,
            1 => end < tstop && tstop - end > 0.02 * d.an.tstep.v,
            _ => false,
        };
        if recovers {
            return bad("gave-up", format!("the convergence failures stopped, but the analysis gave up at {} {}", end, more()));
        }
    }
    // nothing on record that wasn't solved
    let rows = match table_of(&d, &r)? {
        Some(x) => x.1,
        None => return Ok(()),
    };
    let last = rows.last().map_or(0.0, |r| r.t);
    ctx.stats.sim_time += last;
    if after(last, end) {
        return bad("dishonest", format!("there is a row for {}, but the analysis got to {} {}", last, end, more()));
    }
    if end < tstop && (last > tstop || same_time(last, tstop)) {
        return bad("dishonest", format!("there is a row for {}, but the analysis gave up {}", last, more()));
    }
    if finished(&r).is_some_and(|t| !same_time(t, end)) {
        return bad("dishonest", format!("the log says {:?}, the statistics {} {}", finished(&r), end, more()));
    }
    if let Err(e) = check_rows(&d, &rows, !dc_failed(&r)) {
        return bad("unsolved-row", format!("{} {}", e, more()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C13

/// Several analyses in one process
fn c13_library(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let want = Want { steps: 12, nodes: 12, long: false, paths: false, op: true, ..Want::all() };
    let mut decks: Vec<Deck> = vec![];
    let mut fs = Fs::new();
    clutter(src, &mut fs);
    for k in 0..src.range(1, 3) {
        let mut d = any_deck(src, &want);
        d.dir = format!("/w/d{}", k);
        d.path = format!("d{}/{}", k, d.file);
        d.links.clear();
        d.wave = wave_path(&d.path);
        some_links(src, ctx, &mut d, false);
        d.put(&mut fs);
        if src.chance(1, 8) {
            put_defect(src, &mut d, &mut fs);
        }
        decks.push(d);
    }
    let mut jobs: Vec<(usize, Job)> = vec![];
    for k in 0..src.range(1, 5) {
        let mut job = Job { deck: src.below(decks.len()), mode: *src.pick(&[0, 1, 2]), hook: Hook::none(), wave: None, reuse: src.chance(1, 2) };
        if src.chance(1, 3) {
            job.hook = any_hook(src);
            if src.chance(1, 2) {
                job.hook.bursts.push((src.draw(60), 1, PANIC));
            }
        }
        jobs.push((k + 1, job));
    }
    let mut p = anywhere(src);
    if src.chance(1, 2) {
        let d = src.pick(&decks).clone();
        bad_places(src, &mut p, &d);
    } else if src.chance(1, 4) {
        p.disk_limit = Some(src.draw(2000));
    }
    ctx.tell(|| format!("{}\njobs: {:#?}", decks.iter().map(|d| texts(d, &fs)).collect::<String>(), jobs));
    let r = ctx.run(&fs, &p, "several analyses on one engine", &|| do_jobs(&decks, &jobs, &[]));
    ended(&r, "several analyses")?;
    ctx.nontrivial = true;
    ctx.probe("several analyses in one process");
    let how = || format!("(with {})\n{}\n{}\njobs: {:#?}", p.describe(), show_log(&r), decks.iter().map(|d| texts(d, &fs)).collect::<String>(), jobs);
    for (k, _) in &jobs {
        if let Some(f) = note_text(&r, 2000 + *k as i64).first() {
            return bad("left-open", format!("{} is still open after analysis {} {}", f, k, how()));
        }
    }
    let own: Vec<String> = jobs.iter().flat_map(|(_, j)| {
        let dir = decks[j.deck].wave[..decks[j.deck].wave.rfind('/').unwrap()].to_string();
        [format!("{}/tran.dat", dir), format!("{}/dc.dat", dir)]
    }).collect();
    check_untouched(&fs, &r, &own, &|q| own.iter().any(|o| o.starts_with(&format!("{}/", q))), &how)
}

/// Nothing but `own`, and directories that lead there, was changed
fn check_untouched(fs: &Fs, r: &Run, own: &[String], leads: &dyn Fn(&str) -> bool, how: &dyn Fn() -> String) -> Verdict {
    // what was there
    for (q, n) in &fs.nodes {
        if own.contains(q) {
            continue;
        }
        match (n, r.fs.nodes.get(q)) {
            (Node::Dir, Some(Node::Dir)) => {}
            (Node::File(a), Some(Node::File(b))) if a == b => {}
            (Node::Link(a), Some(Node::Link(b))) if a == b => {}
            (_, None) => return bad("touched", format!("{} is gone {}", q, how())),
            _ => return bad("touched", format!("{} has changed {}", q, how())),
        }
    }
    // what's new
    for (q, n) in &r.fs.nodes {
        if fs.nodes.contains_key(q) || (own.contains(q) && matches!(n, Node::File(_))) {
            continue;
        }
        if matches!(n, Node::Dir) && leads(q) {
            continue;
        }
        return bad("touched", format!("{} is new {}", q, how()));
    }
    // what happened in between
    for x in &r.recs {
        match x.tag {
            T_OPEN if (x.a & 3 != 0 || x.a & (O_CREAT | O_TRUNC) != 0) && !own.contains(&x.path()) && x.b >= 0 => {
                return bad("touched", format!("{} was opened for writing {}", x.path(), how()));
            }
            T_TRUNC | T_UNLINK | T_RMDIR | T_RENAME | T_CHMOD | T_UTIME | T_LINK | T_SYMLINK if x.is_effect() && !own.contains(&x.path()) => {
                return bad("touched", format!("{} {}", x.text(), how()));
            }
            _ => {}
        }
    }
    Ok(())
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 5) {
        return c13_library(src, ctx);
    }
    let mut d = gen_deck(src, &Want { steps: 12, nodes: 15, op: true, ..Want::all() });
    some_links(src, ctx, &mut d, true);
    let garbled = some_garbling(src, ctx, &mut d);
    let mut fs = d.fs();
    clutter(src, &mut fs);
    // other decks and their waveforms
    if src.chance(1, 2) {
        fs.put("/w/z/deck.spi", &d.deck_text());
        fs.put("/w/waves/z/deck.spi/tran.dat", b"Time\tv(a)\n");
        fs.put("/w/waves/deck.spi2/tran.dat", b"Time\tv(a)\n");
    }
    ctx.tell(|| d.listing());
    let mut path = d.path.clone();
    let odd = src.chance(1, 5);
    if odd {
        path = match src.below(5) {
            0 => d.deck_file(),
            1 => "nothere.spi".to_string(),
            2 => format!("{}/", d.path),
            3 => ".".to_string(),
            4 if d.links.is_empty() => format!("../w/{}", d.path),
            _ => format!("./{}", d.path),
        };
        ctx.probe("odd path");
    } else if src.chance(1, 4) {
        put_defect(src, &mut d, &mut fs);
        ctx.probe("bad deck");
    }
    // where its waveforms may go
    let base = if path.starts_with('/') { path.clone() } else { format!("waves/{}", path) };
    let own: Vec<String> = ["tran.dat", "dc.dat"].iter().map(|f| fs.real(&clean_path(&format!("{}/{}", base, f)))).collect();
    for k in 0..src.range(1, 4) {
        let mut p = anywhere(src);
        if k > 0 {
            match src.below(6) {
                0 => split_reads(src, &mut p),
                1 => split_writes(src, &mut p),
                2 => {
                    let class = *src.pick(&[Class::OpenR, Class::Read, Class::OpenW, Class::WriteF, Class::Mkdir, Class::Stat, Class::Any]);
                    let nth = src.draw(12);
                    let e = *src.pick(&[EIO, ENOSPC, EACCES, ENOENT, EMFILE, EROFS, EEXIST, EINTR]);
                    let count = if src.chance(1, 2) { 1 } else { u64::MAX };
                    p.faults.push(Fault { class, nth, count, act: Act::Errno(e) });
                    if e == EINTR {
                        p.faults[0].count = 1;
                    }
                }
                3 => {
                    let nth = src.draw(40);
                    p.faults.push(Fault { class: Class::Any, nth, count: 1, act: Act::CrashBefore });
                }
                4 => p.disk_limit = Some(src.draw(1000)),
                _ => {}
            }
        }
        let r = ctx.cli(&fs, &p, &path);
        if garbled && too_long(&r) {
            return Ok(());
        }
        ended(&r, "run")?;
        if r.fired() > 0 {
            ctx.probe("run with faults");
        }
        ctx.nontrivial = true;
        let how = || format!("(run of {}, with {})\n{}\n{}", path, p.describe(), show_log(&r), texts(&d, &fs));
        // on the way, or on the way there without resolving `..`
        let leads = |q: &str| own.iter().any(|o| o.starts_with(&format!("{}/", q))) || leads_literally(&fs, &base, q);
        check_untouched(&fs, &r, &own, &leads, &how)?;
        let mut open: Vec<(i64, String)> = vec![];
        for x in &r.recs {
            match x.tag {
                T_OPEN if x.b >= 0 => open.push((x.b, x.path())),
                T_CLOSE => open.retain(|o| o.0 != x.a),
                _ => {}
            }
        }
        if matches!(r.end, End::Exit(_)) && !open.is_empty() {
            return bad("left-open", format!("{} was not closed {}", open[0].1, how()));
        }
        fs = r.fs.clone();
    }
    Ok(())
}

fn clean_path(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", CWD, p) };
    let mut cur: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                cur.pop();
            }
            c => cur.push(c),
        }
    }
    format!("/{}", cur.join("/"))
}

/// a/b/../c: a/b has to be made, too
fn leads_literally(fs: &Fs, base: &str, q: &str) -> bool {
    let comps: Vec<&str> = base.split('/').collect();
    (1..=comps.len()).any(|n| fs.real(&clean_path(&comps[..n].join("/"))) == q)
}

// ---------------------------------------------------------------------------

const DECKS: &str = "Cases are made from one seed each: a random hierarchical deck (subcircuits with parameters, libraries, V/I/R/C/D/E/G, \
DC/SIN/PWL sources, random analysis, random formatting), an environment, and faults.";

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01", case: c01, quick: 50_000, thorough: 900_000, level: "exploration",
            rule: "A deck (a fifth of them with a defect) is run once quietly and 2-4 times with other random bytes (hash keys), clock, pid, heap and stack addresses, environment and read sizes; files, exit status and log lines have to be the same. Every fourth case is executed twice and has to repeat exactly. Non-trivial: all of its runs were compared.",
            must: &["deck with nodes inside subcircuits", "deck with a defect", "deck with diodes"],
        },
        Check {
            id: "C02", case: c02, quick: 100_000, thorough: 1_500_000, level: "exploration",
            rule: "A hierarchical deck is run 1-3 times under different hash keys, and header, columns and values of the waveform file are compared with an independent flat model of the deck (names, Kirchhoff's laws, element laws; a reference solution for linear circuits). Non-trivial: there are nodes inside subcircuits.",
            must: &["deck with nodes inside subcircuits", "deck with nodes two or more levels down", "operating point compared with the reference solution"],
        },
        Check {
            id: "C03", case: c03, quick: 60_000, thorough: 800_000, level: "exploration",
            rule: "A deck is run quietly (waveforms checked against the model), with short and interrupted reads (waveforms have to be the same), and with failing reads, opens and stats at random places (the same waveforms, or a report and none). Non-trivial: all of these took place.",
            must: &["run with a read or open that failed", "rows checked against the model", "deck with libraries"],
        },
        Check {
            id: "C04", case: c04, quick: 40_000, thorough: 900_000, level: "exploration",
            rule: "A deck is run quietly and 1-3 times with partial and interrupted writes to the waveform file and stdout; files and stdout have to be the same byte for byte. Non-trivial: at least one write was partial or interrupted.",
            must: &[],
        },
        Check {
            id: "C05", case: c05, quick: 60_000, thorough: 900_000, level: "exploration",
            rule: "A deck is run healthy and 1-4 times with failing mkdir, open, write (random errno, place and duration) or a full disk, by the command line tool or the library, also over an older file; prefix, report and results are checked. Non-trivial: output was lost.",
            must: &["run that lost output", "run that carried on without output"],
        },
        Check {
            id: "C06", case: c06, quick: 60_000, thorough: 700_000, level: "exploration",
            rule: "Every state between two effects of a run is checked for being a prefix; then a history of 2-6 steps (crashes before any system call or in the middle of a write, failing allocations, complete runs, other decks of the same name, single values edited, also without the time of the file changing) is executed, and a last run has to give what a first one gives. Non-trivial: at least one run crashed.",
            must: &["crashed run", "deck edited between runs", "value edited between runs", "complete run over a longer file"],
        },
        Check {
            id: "C07", case: c07, quick: 120_000, thorough: 1_200_000, level: "exploration",
            rule: "After a good run (or none), a defect of one of many kinds is put into the deck or its libraries at a random place, or opening, stat and reading of input fails; files have to be unchanged and the failure reported. Non-trivial: the deck was bad or the fault took place.",
            must: &["run with unreadable input"],
        },
        Check {
            id: "C08", case: c08, quick: 50_000, thorough: 500_000, level: "exploration",
            rule: "2-5 analyses (operating points, transients; with convergence failures, panics, files that cannot be read or written; with fresh or reused circuits, and with decks edited in between) on one engine, compared one by one with the same analysis alone on a new engine in a new process. Non-trivial: all were compared.",
            must: &["analysis that panicked", "deck edited between analyses", "analyses with files out of order"],
        },
        Check {
            id: "C09", case: c09, quick: 40_000, thorough: 350_000, level: "exploration",
            rule: "2-4 simulations on threads of one process, switched at branches, system calls, allocations and accesses to global data as a seeded schedule says (3 to 200 switches), some with files that cannot be read or written, compared with each one alone. Non-trivial: there were more switches than threads.",
            must: &["thread with a bad deck", "thread with files out of order"],
        },
        Check {
            id: "C10", case: c10, quick: 120_000, thorough: 1_500_000, level: "exploration",
            rule: "A transient with injected convergence failures; rules of the time column are checked, and with a start time the rows have to be the same. Non-trivial: there were failures, and more than two rows.",
            must: &["complete analysis", "analysis that was given up", "run with a start time"],
        },
        Check {
            id: "C11", case: c11, quick: 240_000, thorough: 2_500_000, level: "exploration",
            rule: "A transient with injected convergence failures (solutions refused in bursts, at random, for good; numerical errors); every recorded row has to solve the model of the circuit. Non-trivial: there were failures, and more than two rows.",
            must: &["rows checked against the model", "deck with diodes", "deck with capacitors", "deck with PWL sources"],
        },
        Check {
            id: "C12", case: c12, quick: 240_000, thorough: 2_500_000, level: "exploration",
            rule: "An analysis with injected convergence failures that stop in time, that don't stop, or anything; it has to end within its budget, get to its end if they stop, and say so if not. Non-trivial: there were failures.",
            must: &["transient that got to its end", "transient that gave up", "failures that don't stop"],
        },
        Check {
            id: "C13", case: c13, quick: 90_000, thorough: 1_000_000, level: "exploration",
            rule: "1-4 runs of a deck (good or bad, given by all kinds of paths) among other files, with all kinds of faults and crashes, or several analyses in one process that uses the library; all of the file system is compared, and every open and effect in between. Non-trivial: always.",
            must: &["odd path", "bad deck", "run with faults", "several analyses in one process"],
        },
    ]
}

pub const COMMON_RULE: &str = DECKS;
