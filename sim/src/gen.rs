//! Decks: random hierarchical circuits, how they are written down, and the
//! flat circuit they stand for.

use crate::model::{El, Model, Wave};
use crate::prng::Src;
use crate::simos::{Fs, Node, CWD};

// ---------------------------------------------------------------------------
// numbers

#[derive(Clone, Debug)]
pub struct Num {
    pub text: String,
    pub v: f64,
}

/// m * 10^p as a decimal number
fn plain(m: i64, p: i32) -> String {
    let neg = m < 0;
    let d = m.abs().to_string();
    let t = if p >= 0 {
        if m == 0 { "0".to_string() } else { d + &"0".repeat(p as usize) }
    } else {
        let k = (-p) as usize;
        let d = if d.len() <= k { "0".repeat(k - d.len() + 1) + &d } else { d };
        format!("{}.{}", &d[..d.len() - k], &d[d.len() - k..])
    };
    if neg { format!("-{}", t) } else { t }
}

pub fn number(src: &mut Src, m: i64, p: i32) -> Num {
    let v: f64 = format!("{}e{}", m, p).parse().unwrap();
    let mut ways = vec![];
    for (s, e) in [("", 0), ("k", 3), ("m", -3), ("u", -6), ("n", -9), ("p", -12)] {
        let q = p - e;
        if (-5..=4).contains(&q) {
            ways.push(plain(m, q) + s);
        }
    }
    ways.push(format!("{}e{}", m, p));
    if p < 0 {
        ways.push(format!("{}e{}", plain(m, -1), p + 1));
    }
    if p > 0 {
        ways.push(format!("{}e+{}", m, p));
    }
    let w = src.below(ways.len());
    let mut text = ways[w].clone();
    if text.ends_with(['k', 'm', 'u', 'n', 'p']) && src.chance(1, 20) {
        text += *src.pick(&["A", "V", "Ohm", "F", "s", "Hz"]);
    }
    if m > 0 && src.chance(1, 40) {
        text = format!("+{}", text);
    }
    Num { text, v }
}

/// About this value
pub fn about(src: &mut Src, v: f64, digits: i32) -> Num {
    if v == 0.0 {
        return Num { text: (*src.pick(&["0", "0.0", "0m"])).to_string(), v: 0.0 };
    }
    let mut p = v.abs().log10().floor() as i32 - digits + 1;
    let mut m = (v / 10f64.powi(p)).round() as i64;
    while m % 10 == 0 && m != 0 {
        m /= 10;
        p += 1;
    }
    number(src, m, p)
}

/// Something between lo and hi, evenly spread over the decades
pub fn spread(src: &mut Src, lo: f64, hi: f64) -> Num {
    let x = src.below(1001) as f64 / 1000.0;
    let d = src.range(1, 3) as i32;
    let n = about(src, lo * (hi / lo).powf(x), d);
    if n.v < lo || n.v > hi { about(src, lo, 3) } else { n }
}

fn signed(src: &mut Src, hi: f64) -> Num {
    let x = 1.0 - src.below(2001) as f64 / 1000.0;
    let d = src.range(1, 3) as i32;
    about(src, hi * x, d)
}

// ---------------------------------------------------------------------------
// the deck

#[derive(Clone, Debug)]
pub enum Val {
    Lit(Num),
    Par(String),
}

#[derive(Clone, Debug)]
pub enum W {
    Dc(Num),
    Sin(Num, Num, Num),
    Pwl(Vec<(Num, Num)>, Option<Num>, bool),
}

#[derive(Clone, Debug)]
pub enum Card {
    R(String, String, String, Val),
    C(String, String, String, Val),
    D(String, String, String),
    E(String, [String; 4], Val),
    G(String, [String; 4], Val),
    V(String, String, String, W),
    I(String, String, String, W),
    X(String, Vec<String>, usize, Vec<(String, Val)>),
    /// something bad, as it is
    Raw(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    R,
    C,
    K,
    Gm,
}

/// What a port is to the inside of a subcircuit
#[derive(Clone, Copy, PartialEq, Debug)]
enum Use {
    /// there's nothing connected to it
    Not,
    /// it has a DC voltage without anything else connected to it from outside
    Held,
    Other,
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub name: String,
    pub ports: Vec<String>,
    uses: Vec<Use>,
    params: Vec<(String, Kind, Val)>,
    pub cards: Vec<Card>,
    /// nodes that it adds, with all that is in it
    size: usize,
    depth: usize,
}

#[derive(Clone, Debug)]
pub enum Item {
    Card(Card),
    Sub(usize),
    Lib(usize, usize),
    Control,
}

#[derive(Clone, Debug)]
pub struct LibFile {
    /// as written in the deck
    pub name: String,
    pub sections: Vec<(String, Vec<Item>)>,
}

#[derive(Clone, Debug)]
pub struct Analysis {
    pub tran: bool,
    pub tstep: Num,
    pub tstop: Num,
    pub tstart: Option<Num>,
    pub reltol: Option<Num>,
    pub abstol: Option<Num>,
    pub rmax: Option<Num>,
}

impl Analysis {
    pub fn rmax(&self) -> f64 {
        self.rmax.as_ref().map_or(5.0, |n| n.v)
    }
    pub fn reltol(&self) -> f64 {
        self.reltol.as_ref().map_or(1e-4, |n| n.v)
    }
    pub fn abstol(&self) -> f64 {
        self.abstol.as_ref().map_or(1e-9, |n| n.v)
    }
    pub fn tstart(&self) -> f64 {
        self.tstart.as_ref().map_or(0.0, |n| n.v)
    }
}

/// What kind of decks
#[derive(Clone)]
pub struct Want {
    pub diodes: bool,
    pub caps: bool,
    pub hier: bool,
    pub libs: bool,
    pub op: bool,
    pub tstart: bool,
    /// at most so many nodes
    pub nodes: usize,
    /// at most so many steps
    pub steps: usize,
    /// files of several read buffers
    pub long: bool,
    /// more than 256 nodes, every now and then
    pub large: bool,
    /// hundreds of steps, every now and then
    pub lengthy: bool,
    pub paths: bool,
    pub options: bool,
}

impl Want {
    pub fn all() -> Want {
        Want {
            diodes: true, caps: true, hier: true, libs: true, op: false, tstart: true,
            nodes: 36, steps: 60, long: true, paths: true, options: true, large: false, lengthy: true,
        }
    }

    pub fn small() -> Want {
        Want { nodes: 12, steps: 15, long: false, paths: false, lengthy: false, ..Want::all() }
    }
}

#[derive(Clone)]
pub struct Deck {
    pub subs: Vec<Sub>,
    pub items: Vec<Item>,
    pub libs: Vec<LibFile>,
    pub an: Analysis,
    pub model: Model,
    /// directory of the deck (absolute)
    pub dir: String,
    pub file: String,
    /// how it's given on the command line
    pub path: String,
    /// absolute path of the file with the waveforms
    pub wave: String,
    /// how it's written down
    pub look: Look,
    /// what's wrong with the files, and not with what's written in them
    pub broken: Vec<(String, Broken)>,
    /// instead of the analysis command
    pub bad_command: Option<String>,
    /// how the circuit may not have a solution
    pub ill: Option<&'static str>,
    /// symbolic links, and where they lead
    pub links: Vec<(String, String)>,
    /// names are much alike
    pub alike: bool,
}

#[derive(Clone, Debug)]
pub enum Broken {
    Missing,
    IsDir,
    /// a byte that isn't UTF-8, about so far into the body
    BadByte(u64),
    /// without these lines
    Without(String),
    /// another text
    Text(Vec<u8>),
}

#[derive(Clone)]
pub struct Look {
    pub seed: u64,
    pub crlf: bool,
    pub padding: usize,
    pub noise: u64,
    pub no_newline: bool,
    /// files are a number of whole buffers, give or take a byte
    pub whole: Option<(usize, i64)>,
    pub odd_title: bool,
}

const NODE_NAMES: [&str; 32] = [
    "a", "b", "c", "in", "out", "n1", "n2", "x", "y", "mid", "1", "2", "3", "12", "A", "B", "In", "node_3452",
    "gnda", "o_", "p", "n", "vdd", "X1", "_z", "Time",
    "Gnd", "01", "00", "001", "V1", "10",
];
const ODD_NAMES: [&str; 12] =
    ["in+", "net-1", "a/b", "é", "a:1", "[3]", "a,b", "~x", "#1", "$g", "a'", "{n}"];
const SUB_NAMES: [&str; 8] = ["amp", "load", "s1", "S1", "bridge", "rc", "s11", "gain2"];
const PAR_NAMES: [&str; 8] = ["rval", "cval", "k", "g0", "r", "c0", "R", "x1"];
const TAILS: [&str; 10] = ["1", "2", "3", "a", "b", "load", "_x", "12", "1a", "X1"];

struct Scope {
    names: Vec<String>,
    /// which node it is stuck to
    root: Vec<usize>,
    port: Vec<bool>,
    /// resistance to ground, if it's known
    rgnd: Vec<f64>,
    cards: Vec<Card>,
    used: Vec<String>,
    params: Vec<(String, Kind)>,
    /// parameters that can be defined on the way
    new_params: Option<Vec<(String, Kind, Val)>>,
    /// nodes with nothing connected to them
    loose: usize,
}

impl Scope {
    fn new() -> Scope {
        Scope {
            names: vec!["0".to_string()], root: vec![0], port: vec![false], rgnd: vec![0.0],
            cards: vec![], used: vec![], params: vec![], new_params: None,
            loose: 0,
        }
    }

    fn add(&mut self, src: &mut Src, root: Option<usize>, port: bool) -> usize {
        let mut k = src.below(NODE_NAMES.len());
        while self.names.iter().any(|n| n == NODE_NAMES[k % NODE_NAMES.len()]) {
            k += 1;
            if k > 2 * NODE_NAMES.len() {
                break;
            }
        }
        let mut name = NODE_NAMES[k % NODE_NAMES.len()].to_string();
        if self.names.contains(&name) {
            name = format!("q{}", self.names.len());
        }
        if src.chance(1, 200) {
            name = format!("{}{}_{}", name, "_long".repeat(src.range(4, 70)), self.names.len());
        }
        self.names.push(name);
        let i = self.names.len() - 1;
        self.root.push(root.map_or(i, |r| self.root[r]));
        self.port.push(port);
        self.rgnd.push(0.0);
        i
    }

    /// A node for instances only: components can't have all of the characters
    fn add_for_instances(&mut self, src: &mut Src) -> usize {
        let n = self.add(src, None, false);
        if src.chance(1, 4) {
            let odd = *src.pick(&ODD_NAMES);
            if !self.names.iter().any(|m| m == odd) {
                self.names[n] = odd.to_string();
            }
        }
        n
    }

    /// The name of a node, as it's going to be written
    fn n(&self, src: &mut Src, i: usize) -> String {
        if i == 0 {
            (*src.pick(&["0", "gnd", "GND"])).to_string()
        } else {
            self.names[i].clone()
        }
    }

    fn ident(&mut self, src: &mut Src, letter: &str) -> String {
        // names needn't be different, or there at all
        if letter != "X" && src.chance(1, 16) {
            let same: Vec<String> = self.used.iter().filter(|u| u.starts_with(letter)).cloned().collect();
            if !same.is_empty() {
                return src.pick(&same).clone();
            }
            self.used.push(letter.to_string());
            return letter.to_string();
        }
        let mut k = src.below(TAILS.len());
        loop {
            let t = if k < 2 * TAILS.len() {
                format!("{}{}", letter, TAILS[k % TAILS.len()])
            } else {
                format!("{}{}", letter, k)
            };
            if !self.used.contains(&t) {
                self.used.push(t.clone());
                return t;
            }
            k += 1;
        }
    }

    fn any(&self, src: &mut Src) -> usize {
        src.below(self.names.len())
    }

    fn other(&self, src: &mut Src, not: usize) -> usize {
        let k = src.below(self.names.len() - 1);
        if k >= not { k + 1 } else { k }
    }

    /// a value, or a parameter that stands for one
    fn val(&mut self, src: &mut Src, kind: Kind, lit: Num) -> Val {
        let fits: Vec<String> = self.params.iter().filter(|p| p.1 == kind).map(|p| p.0.clone()).collect();
        if !fits.is_empty() && src.chance(1, 2) {
            return Val::Par(src.pick(&fits).clone());
        }
        if self.new_params.is_some() && src.chance(1, 5) {
            let name = *src.pick(&PAR_NAMES);
            if !self.params.iter().any(|p| p.0 == name) {
                self.params.push((name.to_string(), kind));
                self.new_params.as_mut().unwrap().push((name.to_string(), kind, Val::Lit(lit)));
                return Val::Par(name.to_string());
            }
        }
        Val::Lit(lit)
    }
}

/// What the values in a deck are about
#[derive(Clone, Copy)]
struct Scale {
    tstep: f64,
    /// how many times the usual impedance
    z: f64,
}

fn value_of(src: &mut Src, kind: Kind, sz: Scale) -> Num {
    match kind {
        Kind::R => spread(src, 10.0 * sz.z, 1e5 * sz.z),
        Kind::C => spread(src, sz.tstep * 1e-6 / sz.z, sz.tstep * 1e-2 / sz.z),
        Kind::K => signed(src, 0.5),
        Kind::Gm => spread(src, 1e-7 / sz.z, 1e-6 / sz.z),
    }
}

fn wave(src: &mut Src, size: f64, tstep: f64, volts: bool) -> W {
    match src.below(if volts { 4 } else { 3 }) {
        0 | 1 => W::Dc(signed(src, size)),
        2 => {
            let f = spread(src, 0.01 / tstep, 0.2 / tstep);
            W::Sin(signed(src, size / 2.0), signed(src, size / 2.0), f)
        }
        _ => {
            let mut t = 0.0;
            let mut pts = vec![(about(src, 0.0, 1), if src.chance(1, 2) { signed(src, size) } else { about(src, 0.0, 1) })];
            let many = src.chance(1, 20);
            for _ in 0..if many { src.range(5, 20) } else { src.range(1, 4) } {
                let dt = tstep * (0.3 + src.below(100) as f64 / 10.0);
                let n = about(src, t + dt, 4);
                if n.v <= t + 0.2 * tstep {
                    continue;
                }
                t = n.v;
                pts.push((n, signed(src, size)));
            }
            if pts.len() < 2 {
                return W::Dc(signed(src, size));
            }
            let td = if src.chance(1, 3) {
                let x = tstep * src.below(60) as f64 / 10.0;
                Some(about(src, x, 2))
            } else {
                None
            };
            W::Pwl(pts, td, src.chance(1, 3))
        }
    }
}

/// Put an instance of a subcircuit into a scope. Returns the number of nodes it adds outside
fn instance(src: &mut Src, sc: &mut Scope, subs: &[Sub], k: usize, sz: Scale) -> usize {
    let s = &subs[k];
    let mut size = 0;
    let mut conns = vec![];
    for u in &s.uses {
        if *u == Use::Not && src.chance(1, 2) {
            sc.loose += 1;
            size += 1;
            conns.push(format!("nc{}", sc.loose));
            continue;
        }
        if *u == Use::Held && src.chance(1, 4) {
            let n = sc.add_for_instances(src);
            size += 1;
            conns.push(sc.n(src, n));
            continue;
        }
        let n = if sc.names.len() > 1 && !src.chance(1, 8) { 1 + src.below(sc.names.len() - 1) } else { sc.any(src) };
        conns.push(sc.n(src, n));
    }
    let id = sc.ident(src, "X");
    let mut over = vec![];
    for (name, kind, def) in &s.params {
        // a default that refers to a parameter needs one in this scope
        let must = match def {
            Val::Par(p) => !sc.params.iter().any(|q| q.0 == *p && q.1 == *kind),
            _ => false,
        };
        if must || src.chance(1, 2) {
            let lit = value_of(src, *kind, sz);
            over.push((name.clone(), sc.val(src, *kind, lit)));
        }
    }
    if over.len() > 1 && src.chance(1, 2) {
        over.reverse();
    }
    sc.cards.push(Card::X(id, conns, k, over));
    size
}

/// Fill a scope with components. `room`: nodes it may still add
fn fill(src: &mut Src, sc: &mut Scope, want: &Want, subs: &[Sub], room: usize, sz: Scale, depth_left: usize) -> (usize, usize) {
    let start = sc.names.len();
    let soft = src.range(1, room.clamp(1, 5));
    for _ in 0..soft {
        let n = sc.add(src, None, false);
        let v = value_of(src, Kind::R, sz);
        sc.rgnd[n] = v.v;
        let id = sc.ident(src, "R");
        let val = match sc.val(src, Kind::R, v) {
            Val::Par(p) => {
                sc.rgnd[n] = 1e5 * sz.z;
                Val::Par(p)
            }
            v => v,
        };
        let (a, b) = (sc.n(src, n), sc.n(src, 0));
        sc.cards.push(if src.chance(1, 2) { Card::R(id, b, a, val) } else { Card::R(id, a, b, val) });
    }
    let mut left = room.saturating_sub(soft);
    for _ in 0..src.below(3) {
        if left == 0 {
            break;
        }
        left -= 1;
        let q = if src.chance(1, 3) { sc.any(src) } else { 0 };
        let p = sc.add(src, Some(q), false);
        let w = wave(src, 10.0, sz.tstep, true);
        let id = sc.ident(src, "V");
        let (a, b) = (sc.n(src, p), sc.n(src, q));
        sc.cards.push(if src.chance(1, 4) { Card::V(id, b, a, w) } else { Card::V(id, a, b, w) });
    }
    for _ in 0..src.below(2) {
        if left == 0 {
            break;
        }
        left -= 1;
        let (cp, cn) = (sc.any(src), sc.any(src));
        let q = if src.chance(1, 3) { sc.any(src) } else { 0 };
        let p = sc.add(src, Some(q), false);
        let id = sc.ident(src, "E");
        let k = value_of(src, Kind::K, sz);
        let k = sc.val(src, Kind::K, k);
        let c = (sc.n(src, cp), sc.n(src, cn));
        let (a, b) = (sc.n(src, p), sc.n(src, q));
        sc.cards.push(Card::E(id, if src.chance(1, 4) { [b, a, c.0, c.1] } else { [a, b, c.0, c.1] }, k));
    }
    for _ in 0..src.range(0, 4) {
        let a = sc.any(src);
        let b = sc.other(src, a);
        let id = sc.ident(src, "R");
        let v = value_of(src, Kind::R, sz);
        let v = sc.val(src, Kind::R, v);
        sc.cards.push(Card::R(id, sc.n(src, a), sc.n(src, b), v));
    }
    let softs: Vec<usize> = (start..sc.names.len()).filter(|i| sc.rgnd[*i] > 0.0).collect();
    if src.chance(1, 3) {
        // a VCCS, into a node that can take it
        let p = *src.pick(&softs);
        let (cp, cn) = (sc.any(src), sc.any(src));
        let id = sc.ident(src, "G");
        let hi = (0.1 / sc.rgnd[p]).max(2e-7 / sz.z);
        let lit = if hi > 1e-6 / sz.z { spread(src, hi / 10.0, hi) } else { value_of(src, Kind::Gm, sz) };
        let fixed = hi > 1e-6 / sz.z;
        let v = if fixed { Val::Lit(lit) } else { sc.val(src, Kind::Gm, lit) };
        let n = [sc.n(src, p), sc.n(src, 0), sc.n(src, cp), sc.n(src, cn)];
        let n = if src.chance(1, 3) { [n[1].clone(), n[0].clone(), n[2].clone(), n[3].clone()] } else { n };
        sc.cards.push(Card::G(id, n, v));
    }
    for _ in 0..src.below(2) {
        let p = *src.pick(&softs);
        let others: Vec<usize> = std::iter::once(0).chain(softs.iter().cloned()).filter(|x| *x != p).collect();
        let q = *src.pick(&others);
        let lim = |i: usize| if i == 0 { 1.0 / sz.z } else { 8.0 / sc.rgnd[i] };
        let size = lim(p).min(lim(q)).min(0.1 / sz.z);
        let id = sc.ident(src, "I");
        let w = wave(src, size, sz.tstep, false);
        let (a, b) = (sc.n(src, p), sc.n(src, q));
        sc.cards.push(if src.chance(1, 2) { Card::I(id, b, a, w) } else { Card::I(id, a, b, w) });
    }
    if want.caps {
        for _ in 0..src.below(3) {
            let a = sc.any(src);
            let b = sc.other(src, a);
            let id = sc.ident(src, "C");
            let v = value_of(src, Kind::C, sz);
            let v = sc.val(src, Kind::C, v);
            sc.cards.push(Card::C(id, sc.n(src, a), sc.n(src, b), v));
        }
    }
    if want.diodes {
        for _ in 0..src.below(3) {
            let own: Vec<usize> = softs.iter().cloned().filter(|i| sc.root[*i] == *i).collect();
            let a = *src.pick(&own);
            let b = sc.other(src, a);
            if sc.root[b] == sc.root[a] {
                continue;
            }
            let id = sc.ident(src, "D");
            let (p, q) = (sc.n(src, a), sc.n(src, b));
            sc.cards.push(if src.chance(1, 2) { Card::D(id, q, p) } else { Card::D(id, p, q) });
        }
    }
    let mut size = sc.names.len() - start;
    let mut depth = 0;
    if !subs.is_empty() && depth_left > 0 {
        for _ in 0..src.range(0, 3) {
            let k = src.below(subs.len());
            let s = &subs[k];
            if s.size + size > room || s.depth >= depth_left {
                continue;
            }
            size += s.size;
            depth = depth.max(s.depth + 1);
            size += instance(src, sc, subs, k, sz);
        }
    }
    (size, depth)
}

fn shuffle<T>(src: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - src.below(i + 1);
        v.swap(i, j);
    }
}

fn use_of(sc: &Scope, subs: &[Sub], port: &str) -> Use {
    let firm = |n: &String| {
        ["0", "gnd", "GND"].contains(&n.as_str()) || sc.names.iter().zip(&sc.rgnd).any(|(m, r)| m == n && *r > 0.0)
    };
    let mut u = Use::Not;
    for c in &sc.cards {
        let there = match c {
            Card::R(_, a, b, _) => {
                if (a == port && firm(b)) || (b == port && firm(a)) {
                    return Use::Held;
                }
                a == port || b == port
            }
            Card::C(_, a, b, _) | Card::D(_, a, b) | Card::V(_, a, b, _) | Card::I(_, a, b, _) => a == port || b == port,
            Card::E(_, n, _) | Card::G(_, n, _) => n.iter().any(|n| n == port),
            Card::X(_, conns, k, _) => conns.iter().zip(&subs[*k].uses).any(|(n, u)| n == port && *u != Use::Not),
            Card::Raw(_) => true,
        };
        if there {
            u = Use::Other;
        }
    }
    u
}

fn gen_sub(src: &mut Src, want: &Want, subs: &[Sub], sz: Scale) -> Sub {
    let mut sc = Scope::new();
    sc.new_params = Some(vec![]);
    for _ in 0..src.range(1, 4) {
        sc.add(src, None, true);
    }
    let ports = sc.names[1..].to_vec();
    let np = ports.len();
    // parameters can also be there without being used, or only be passed on
    if src.chance(1, 3) {
        let kind = *src.pick(&[Kind::R, Kind::C, Kind::K]);
        let name = *src.pick(&PAR_NAMES);
        let lit = value_of(src, kind, sz);
        sc.params.push((name.to_string(), kind));
        let def = if src.chance(1, 3) {
            Val::Par((*src.pick(&PAR_NAMES)).to_string())
        } else {
            Val::Lit(lit)
        };
        sc.new_params.as_mut().unwrap().push((name.to_string(), kind, def));
    }
    let room = 4.min(want.nodes);
    let (size, depth) = fill(src, &mut sc, want, subs, room + 6 * subs.len().min(2), sz, 3);
    let mut ports = ports;
    if src.chance(1, 5) {
        ports.insert(src.below(np + 1), "nc".to_string());
    }
    let uses = ports.iter().map(|p| use_of(&sc, subs, p)).collect();
    if src.chance(1, 2) {
        shuffle(src, &mut sc.cards);
    }
    let mut k = src.below(SUB_NAMES.len());
    while subs.iter().any(|s| s.name == SUB_NAMES[k % SUB_NAMES.len()]) {
        k += 1;
    }
    Sub {
        name: SUB_NAMES[k % SUB_NAMES.len()].to_string(),
        ports,
        uses,
        params: sc.new_params.unwrap(),
        cards: sc.cards,
        size,
        depth,
    }
}

/// Subcircuits that are in each other, a good many levels deep
fn add_tower(src: &mut Src, subs: &mut Vec<Sub>, sz: Scale) {
    let name = *src.pick(&["lv", "amp_", "S1", "x"]);
    let (p, q) = *src.pick(&[("p", "q"), ("a", "b"), ("m", "0p"), ("q", "p")]);
    let swap = src.chance(1, 3);
    let par = src.chance(1, 2);
    let first = subs.len();
    for k in 0..src.range(4, 11) {
        let val = |src: &mut Src| Val::Lit(value_of(src, Kind::R, sz));
        let mut cards = vec![
            Card::R("R1".to_string(), p.to_string(), "in".to_string(), val(src)),
            Card::R("R2".to_string(), "in".to_string(), "0".to_string(), if par { Val::Par("rval".to_string()) } else { val(src) }),
            Card::R("R3".to_string(), "in".to_string(), q.to_string(), val(src)),
        ];
        let params = if par { vec![("rval".to_string(), Kind::R, val(src))] } else { vec![] };
        let mut ports = vec![p.to_string(), q.to_string()];
        if swap && k % 2 == 1 {
            ports.reverse();
        }
        if k > 0 {
            let conns = vec!["in".to_string(), (*src.pick(&[p, q, "in", "gnd"])).to_string()];
            let over = if par && src.chance(2, 3) { vec![("rval".to_string(), Val::Par("rval".to_string()))] } else { vec![] };
            let at = src.below(cards.len() + 1);
            cards.insert(at, Card::X("X1".to_string(), conns, first + k - 1, over));
        }
        subs.push(Sub {
            name: format!("{}{}", name, k),
            ports,
            uses: vec![Use::Held, Use::Held],
            params,
            cards,
            size: k + 1,
            depth: k,
        });
    }
}

const PATHS: [(&str, &str, &str); 11] = [
    // directory, file, as given
    ("/w", "deck.spi", "deck.spi"),
    ("/w", "deck.spi", "./deck.spi"),
    ("/w/sub", "deck.spi", "sub/deck.spi"),
    ("/w", "my deck.cir", "my deck.cir"),
    ("/w/sub", "deck.spi", "./sub//deck.spi"),
    ("/w", "deck.spi", "sub/../deck.spi"),
    ("/w", "noext", "noext"),
    ("/w/a/b", "tran.dat", "a/b/tran.dat"),
    ("/w/waves", "deck.spi", "waves/deck.spi"),
    ("/w", "amp", "amp"),
    ("/w", "s1", "./s1"),
];

fn gen_analysis(src: &mut Src, want: &Want) -> Analysis {
    let tstep = {
        let m = *src.pick(&[1i64, 2, 5, 25]);
        let p = if src.chance(1, 3) { *src.pick(&[-6, -9, -7, 0, 3, -12]) } else { *src.pick(&[-3, -2, -1, -3]) };
        number(src, m, p)
    };
    let (x, digits) = match src.below(13) {
        0..=6 => (src.range(3, want.steps.max(4)) as f64, 4),
        7..=10 => (3.0 + src.below(want.steps * 10) as f64 / 10.0, 4),
        11 => (*src.pick(&[1.0, 0.5, 0.25, 0.1, 2.0]), 4),
        _ => {
            // what the steps add up to if all is well, or about that
            let sum = *src.pick(&[3.75, 1.75, 7.75, 2.75, 5.75, 0.75, 12.75, 4.75, 0.25]);
            let more = *src.pick(&[5e-4, 0.0, 2e-3, -5e-4, 1e-5, 1e-7, -1e-7, 0.9e-3, 1.1e-3]);
            (sum + more, 9)
        }
    };
    let tstop = about(src, tstep.v * x, digits);
    let tstart = if want.tstart && src.chance(1, 5) {
        let f = *src.pick(&[0.5, 0.1, 0.9, 1.0, 0.333]);
        let n = about(src, tstop.v * f, 3);
        Some(if n.v > tstop.v * (1.0 - 1e-9) { tstop.clone() } else { n })
    } else {
        None
    };
    let mut an = Analysis { tran: true, tstep, tstop, tstart, reltol: None, abstol: None, rmax: None };
    if want.options && src.chance(1, 3) {
        if src.chance(1, 2) {
            let (m, p) = *src.pick(&[(1, 0), (2, 0), (5, -1), (1, 1), (25, -2), (1, -1)]);
            an.rmax = Some(number(src, m, p));
        }
        if src.chance(1, 3) {
            let (m, p) = *src.pick(&[(1, -3), (1, -4), (1, -5), (3, -6)]);
            an.reltol = Some(number(src, m, p));
        }
        if src.chance(1, 3) {
            let (m, p) = *src.pick(&[(1, -9), (1, -12), (1, -6)]);
            an.abstol = Some(number(src, m, p));
        }
    }
    if want.op && src.chance(1, 8) {
        an.tran = false;
    }
    an
}

pub fn gen_deck(src: &mut Src, want: &Want) -> Deck {
    let mut last = None;
    for _ in 0..6 {
        let d = gen_once(src, want);
        let ok = d.model.dc_linear().is_some_and(|(v, _)| v.iter().all(|x| x.abs() < 200.0));
        last = Some(d);
        if ok {
            break;
        }
    }
    let mut d = last.unwrap();
    if src.chance(1, 10) {
        d.rename(src);
    }
    d
}

/// `n` names that are much alike, beginning with `first` (a letter) if there is one
fn alike(src: &mut Src, first: &str, n: usize) -> Vec<String> {
    let k0 = src.below(12) + 1;
    let head = format!("{}{}", if first.is_empty() { "n" } else { first }, *src.pick(&["_", "transimp", "et_of_the_amplifier_", "abcdefghijklmnopqrstuvwxyz0123456789_abcdefghijklmnopqrstuvwxyz", "x1"]));
    let way = src.below(if first.is_empty() { 7 } else { 5 });
    let long = src.range(1, 40);
    (0..n)
        .map(|k| match way {
            // the same at the front
            0 => format!("{}{}", head, k0 + k),
            // the same at the end
            1 => format!("{}{}{}", if first.is_empty() { "n" } else { first }, k0 + k, head),
            // the same but for upper and lower case
            2 => {
                let t: String = "lowerandupper".chars().enumerate()
                    .map(|(i, c)| if k >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                    .collect();
                format!("{}{}", if first.is_empty() { "" } else { first }, t)
            }
            // one is the start of the next
            3 => format!("{}{}", &head[..1], "o".repeat(k + long)),
            // the same at the front and at the end
            4 => format!("{}{}_and_then_the_rest_of_it", head, k0 + k),
            // numbers, the same but for the zeros
            5 => format!("{}{}", "0".repeat(k), k0),
            // numbers that are the same, modulo a power of two
            _ => format!("{}", 1u128 + ((k as u128) << *[8u32, 16, 32, 64].get(long % 4).unwrap())),
        })
        .collect()
}

fn each_name(cards: &mut [Card], what: u8, f: &mut dyn FnMut(&mut String)) {
    // what: 0 nodes, 1 parameters (those of the inside of the instances, too), 2 instances
    let val = |v: &mut Val, f: &mut dyn FnMut(&mut String)| {
        if let Val::Par(p) = v {
            f(p);
        }
    };
    for c in cards {
        match c {
            Card::R(_, a, b, v) | Card::C(_, a, b, v) => {
                if what == 0 {
                    f(a);
                    f(b);
                } else if what == 1 {
                    val(v, f);
                }
            }
            Card::D(_, a, b) | Card::V(_, a, b, _) | Card::I(_, a, b, _) => {
                if what == 0 {
                    f(a);
                    f(b);
                }
            }
            Card::E(_, n, v) | Card::G(_, n, v) => {
                if what == 0 {
                    n.iter_mut().for_each(|n| f(n));
                } else if what == 1 {
                    val(v, f);
                }
            }
            Card::X(id, conns, _, over) => {
                if what == 0 {
                    conns.iter_mut().for_each(|n| f(n));
                } else if what == 1 {
                    for o in over {
                        f(&mut o.0);
                        val(&mut o.1, f);
                    }
                } else {
                    f(id);
                }
            }
            Card::Raw(_) => {}
        }
    }
}

fn each_card(items: &mut [Item], f: &mut dyn FnMut(&mut [Card])) {
    for i in items {
        if let Item::Card(c) = i {
            f(std::slice::from_mut(c));
        }
    }
}

fn gen_once(src: &mut Src, want0: &Want) -> Deck {
    let mut want = want0.clone();
    want.diodes = want.diodes && src.chance(1, 3);
    want.caps = want.caps && src.chance(2, 3);
    let lengthy = want.lengthy && src.chance(1, 200);
    if lengthy {
        want.steps = *src.pick(&[300, 800, 2000]);
        want.nodes = want.nodes.min(5);
        want.diodes = want.diodes && src.chance(1, 4);
    }
    let mut an = gen_analysis(src, &want);
    let tstep = an.tstep.v;
    let z = match src.below(8) {
        7 if want.diodes => *src.pick(&[0.1, 10.0, 100.0]),
        7 => *src.pick(&[1e-2, 0.1, 1e2, 1e3, 1e4]),
        _ => 1.0,
    };
    let sz = Scale { tstep, z };
    let mut subs: Vec<Sub> = vec![];
    if want.hier {
        for _ in 0..src.below(if lengthy { 2 } else { 4 }) {
            let s = gen_sub(src, &want, &subs, sz);
            subs.push(s);
        }
    }
    let tower = want.hier && src.chance(1, 50);
    if tower {
        add_tower(src, &mut subs, sz);
    }
    let mut sc = Scope::new();
    let large = want.large && src.chance(1, 100);
    if large {
        an.tstop = about(src, tstep * 3.0, 4);
        an.tstart = None;
    }
    let small = src.chance(1, 3);
    let room = if small { want.nodes.min(6) } else { want.nodes };
    fill(src, &mut sc, &want, &subs, room, sz, 4);
    if tower {
        let k = subs.len() - 1;
        instance(src, &mut sc, &subs, k, sz);
    }
    let crowd = src.below(subs.len().max(1));
    if !subs.is_empty() && want.nodes > 20 && src.chance(1, 60) {
        // many instances of one subcircuit
        let n = src.range(11, 30);
        if subs[crowd].size * n <= 100 {
            for _ in 0..n {
                instance(src, &mut sc, &subs, crowd, sz);
            }
        }
    }
    if large {
        // a chain of resistors, with taps to ground
        let mut last = sc.any(src);
        if ODD_NAMES.contains(&sc.names[last].as_str()) {
            last = 0;
        }
        for k in 0..src.range(200, 300) {
            let name = format!("t{}", k);
            let a = sc.n(src, last);
            sc.names.push(name.clone());
            sc.root.push(sc.names.len() - 1);
            sc.port.push(false);
            sc.rgnd.push(0.0);
            last = sc.names.len() - 1;
            sc.cards.push(Card::R(format!("Rt{}", k), a, name.clone(), Val::Lit(value_of(src, Kind::R, sz))));
            if k % 7 == 3 {
                sc.cards.push(Card::R(format!("Rg{}", k), name, "0".to_string(), Val::Lit(value_of(src, Kind::R, sz))));
            }
        }
    }
    if src.chance(1, 2) {
        shuffle(src, &mut sc.cards);
    }
    // where things go
    let mut items: Vec<Item> = sc.cards.into_iter().map(Item::Card).collect();
    let mut libs: Vec<LibFile> = vec![];
    let mut order: Vec<usize> = (0..subs.len()).collect();
    if src.chance(1, 2) {
        shuffle(src, &mut order);
    }
    for k in order {
        let at = src.below(items.len() + 1);
        if want.libs && src.chance(1, 3) {
            let f = if !libs.is_empty() && src.chance(1, 2) {
                src.below(libs.len())
            } else {
                let names = ["parts.lib", "libs/parts.lib", "more.spi", "libs/x/y.lib"];
                let name = names[src.below(4)];
                match libs.iter().position(|l| l.name == name) {
                    Some(f) => f,
                    None => {
                        libs.push(LibFile { name: name.to_string(), sections: vec![] });
                        libs.len() - 1
                    }
                }
            };
            // a section of its own, or together with others
            let n = libs[f].sections.len();
            if n > 0 && src.chance(1, 3) {
                libs[f].sections[n - 1].1.push(Item::Sub(k));
            } else {
                let mut sn = ["core", "bits", "lib1", "tt"][n % 4].to_string();
                if n >= 4 {
                    sn.push_str(&(n / 4).to_string());
                }
                let mut inside = vec![Item::Sub(k)];
                if src.chance(1, 4) && !items.is_empty() {
                    // a component of the toplevel from the library
                    let j = src.below(items.len());
                    if let Item::Card(_) = items[j] {
                        let c = items.remove(j);
                        inside.push(c);
                    }
                }
                libs[f].sections.push((sn, inside));
                let at = at.min(items.len());
                items.insert(at, Item::Lib(f, n));
            }
        } else {
            items.insert(at, Item::Sub(k));
        }
    }
    let at = if src.chance(1, 3) { src.below(items.len() + 1) } else { items.len() };
    items.insert(at, Item::Control);

    let (dir, file, path) = if want.paths { PATHS[src.below(PATHS.len())] } else { PATHS[0] };
    let look = Look {
        seed: src.seed(),
        crlf: src.chance(1, 8),
        padding: if want.long && src.chance(1, 4) {
            if src.chance(1, 12) { src.range(9000, 70000) } else { src.range(100, 400) }
        } else {
            0
        },
        noise: *src.pick(&[0, 1, 3, 6]),
        no_newline: src.chance(1, 8),
        odd_title: src.chance(1, 10),
        whole: if want.long && src.chance(1, 20) {
            Some((*src.pick(&[4096, 8192, 1024, 65536]), src.draw(3) as i64 - 1))
        } else {
            None
        },
    };
    let mut fs = Fs::new();
    fs.put(&format!("{}/{}", dir, file), b"");
    let mut d = Deck {
        subs, items, libs, an, model: Model::default(),
        dir: dir.to_string(), file: file.to_string(), path: path.to_string(), wave: String::new(), look,
        broken: vec![], bad_command: None, ill: None, links: vec![], alike: false,
    };
    d.wave = wave_path(&d.path);
    d.model = d.flatten();
    d
}

/// The absolute path of the waveform file of a deck
pub fn wave_path(path: &str) -> String {
    // resolved the way the kernel does it once all of the directories are there
    let mut cur: Vec<&str> = CWD.split('/').filter(|c| !c.is_empty()).collect();
    for c in format!("waves/{}/tran.dat", path).split('/') {
        match c {
            "" | "." => {}
            ".." => {
                cur.pop();
            }
            c => cur.push(leak(c)),
        }
    }
    format!("/{}", cur.join("/"))
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

// ---------------------------------------------------------------------------
// writing it down

struct Writer<'a> {
    look: &'a Look,
    rng: Src,
    out: Vec<u8>,
}

impl Writer<'_> {
    fn line(&mut self, toks: &[String]) {
        self.comments();
        let r = &mut self.rng;
        let noisy = self.look.noise > 0;
        let mut s = String::new();
        if noisy && r.chance(1, 8) {
            s += *r.pick(&[" ", "\t", "   "]);
        }
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                s += if noisy { *r.pick(&[" ", " ", "  ", "\t", " \t "]) } else { " " };
            }
            s += t;
        }
        if noisy && r.chance(1, 8) {
            s += *r.pick(&[" ", "\t", " ; comment", " ; R9 a b 10", "\t;\tµ Ω .endl"]);
        }
        if self.look.padding > 1000 && r.chance(1, 20) {
            // more than fits into a buffer
            s += " ; ";
            s += &r.pick(&["R1 a b 10 ", "é", " "]).repeat(self.look.padding / 10);
        }
        self.raw(&s);
    }

    fn raw(&mut self, s: &str) {
        self.out.extend_from_slice(s.as_bytes());
        self.out.extend_from_slice(if self.look.crlf { b"\r\n" } else { b"\n" });
    }

    fn comments(&mut self) {
        let n = self.look.noise;
        while n > 0 && self.rng.chance(n.min(6), 20) {
            let t = *self.rng.pick(&[
                "* comment", "", "*", "* R1 a b 10", "*.subckt", "   * indented", "\t", "* µV, 10 kΩ … ✓", "*** .control",
                "; comment", "\t; R1 a b 10", ";",
            ]);
            self.raw(t);
        }
        let long_lines = self.look.padding > 1000;
        if self.look.padding > 0 && self.rng.chance(1, if long_lines { 20 } else { 8 }) {
            let k = self.look.padding;
            for i in 0..self.rng.range(1, if long_lines { 2 } else { 12 }) {
                let fill = ["-", "=", "x", "é"][self.rng.below(4)].repeat(k / 4 + i);
                self.raw(&format!("* {}", fill));
            }
        }
    }
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn val_text(v: &Val, rng: &mut Src) -> String {
    match v {
        Val::Lit(n) => n.text.clone(),
        Val::Par(p) => {
            let _ = rng;
            format!("{{{}}}", p)
        }
    }
}

fn wave_toks(w: &W, rng: &mut Src, noisy: bool) -> Vec<String> {
    match w {
        W::Dc(n) => vec![n.text.clone()],
        W::Sin(o, a, f) => {
            if noisy && rng.chance(1, 3) {
                vec!["SIN(".to_string(), o.text.clone(), a.text.clone(), f.text.clone(), ")".to_string()]
            } else {
                vec![format!("SIN({}", o.text), a.text.clone(), format!("{})", f.text)]
            }
        }
        W::Pwl(pts, td, rep) => {
            let mut v = vec![];
            let spaced = noisy && rng.chance(1, 3);
            for (i, (t, x)) in pts.iter().enumerate() {
                let open = if i == 0 { "PWL(" } else { "" };
                let close = if i == pts.len() - 1 { ")" } else { "," };
                if spaced {
                    v.push(format!("{}{},", open, t.text));
                    v.push(format!("{}{}", x.text, close));
                } else {
                    v.push(format!("{}{},{}{}", open, t.text, x.text, close));
                }
            }
            let mut p = vec![];
            if let Some(td) = td {
                p.push(format!("td={}", td.text));
            }
            if *rep {
                p.push("r=0".to_string());
            }
            if p.len() > 1 && rng.chance(1, 2) {
                p.reverse();
            }
            v.extend(p);
            v
        }
    }
}

impl Deck {
    fn card_toks(&self, c: &Card, rng: &mut Src) -> Vec<String> {
        let noisy = self.look.noise > 0;
        match c {
            Card::R(n, a, b, v) | Card::C(n, a, b, v) => strs(&[n, a, b, &val_text(v, rng)]),
            Card::D(n, a, b) => strs(&[n, a, b]),
            Card::E(n, c, k) | Card::G(n, c, k) => strs(&[n, &c[0], &c[1], &c[2], &c[3], &val_text(k, rng)]),
            Card::V(n, a, b, w) | Card::I(n, a, b, w) => {
                let mut t = strs(&[n, a, b]);
                t.extend(wave_toks(w, rng, noisy));
                t
            }
            Card::Raw(t) => vec![t.clone()],
            Card::X(n, conns, k, over) => {
                let mut t = vec![n.clone()];
                t.extend(conns.iter().cloned());
                t.push(self.subs[*k].name.clone());
                for (p, v) in over {
                    t.push(format!("{}={}", p, val_text(v, rng)));
                }
                t
            }
        }
    }

    fn write_sub(&self, w: &mut Writer, s: &Sub) {
        let mut t = vec![".subckt".to_string(), s.name.clone()];
        t.extend(s.ports.iter().cloned());
        for (n, _, v) in &s.params {
            t.push(format!("{}={}", n, val_text(v, &mut w.rng)));
        }
        w.line(&t);
        for c in &s.cards {
            let t = self.card_toks(c, &mut w.rng);
            w.line(&t);
        }
        let e = if w.look.noise > 0 && w.rng.chance(1, 3) { strs(&[".ends", &s.name]) } else { strs(&[".ends"]) };
        w.line(&e);
    }

    fn write_items(&self, w: &mut Writer, items: &[Item]) {
        for it in items {
            match it {
                Item::Card(c) => {
                    let t = self.card_toks(c, &mut w.rng);
                    w.line(&t);
                }
                Item::Sub(k) => self.write_sub(w, &self.subs[*k]),
                Item::Lib(f, s) => {
                    let l = &self.libs[*f];
                    let t = strs(&[".lib", &l.name, &l.sections[*s].0]);
                    w.line(&t);
                }
                Item::Control => self.write_control(w),
            }
        }
    }

    fn write_control(&self, w: &mut Writer) {
        let an = &self.an;
        let mut cmds = vec![];
        for (n, v) in [("RELTOL", &an.reltol), ("ABSTOL", &an.abstol), ("RMAX", &an.rmax)] {
            if let Some(v) = v {
                cmds.push(strs(&["option", n, "=", &v.text]));
            }
        }
        if w.look.noise > 2 && w.rng.chance(1, 2) {
            cmds.push(strs(&[*w.rng.pick(&["option", "plot", "run", "option ITL1 = 3"])]));
        }
        let mut t = if an.tran { strs(&["tran", &an.tstep.text, &an.tstop.text]) } else { strs(&["op"]) };
        if let (true, Some(s)) = (an.tran, &an.tstart) {
            t.push(s.text.clone());
        }
        if let Some(c) = &self.bad_command {
            t = vec![c.clone()];
        }
        let at = if w.rng.chance(1, 2) { 0 } else { cmds.len() };
        cmds.insert(at, t);
        if an.tran && self.bad_command.is_none() && w.look.noise > 2 && w.rng.chance(1, 3) {
            // the last analysis is the one that counts
            cmds.insert(w.rng.below(at + 1), strs(&["op"]));
        }
        if self.bad_command.is_none() && w.look.noise > 2 && w.rng.chance(1, 4) {
            // so is the last value of an option
            let c = *w.rng.pick(&[
                &["tran", "3m", "40m", "7m"][..], &["tran", "1n", "70n"], &["option", "RMAX", "=", "0.01"],
                &["option", "RELTOL", "=", "0.5"], &["option", "ABSTOL", "=", "1k"], &["op"],
            ]);
            let set = match c[1..].first() {
                Some(&"RMAX") => an.rmax.is_some(),
                Some(&"RELTOL") => an.reltol.is_some(),
                Some(&"ABSTOL") => an.abstol.is_some(),
                _ => true,
            };
            if set {
                cmds.insert(0, strs(c));
            }
        }
        w.line(&strs(&[".control"]));
        let split = if w.rng.chance(1, 10) { w.rng.below(cmds.len() + 1) } else { usize::MAX };
        for (k, c) in cmds.into_iter().enumerate() {
            if k == split {
                // another block
                w.line(&strs(&[".endc"]));
                w.line(&strs(&[".control"]));
            }
            w.line(&c);
        }
        w.line(&strs(&[".endc"]));
    }

    fn writer(&self, salt: u64) -> Writer<'_> {
        Writer { look: &self.look, rng: Src::from_seed(self.look.seed.wrapping_add(salt)), out: vec![] }
    }

    pub fn deck_text(&self) -> Vec<u8> {
        let mut w = self.writer(0);
        if self.look.odd_title {
            w.out.extend_from_slice(b"R1 a b 10 \xff\xfe not text \n");
        } else {
            let t = *w.rng.pick(&["title", "", "* title", ".subckt title", "R1 0 a 1"]);
            w.raw(t);
        }
        self.write_items(&mut w, &self.items);
        self.finish(w)
    }

    fn finish(&self, mut w: Writer) -> Vec<u8> {
        w.comments();
        if self.look.no_newline {
            while w.out.last() == Some(&b'\n') || w.out.last() == Some(&b'\r') {
                w.out.pop();
            }
        }
        if let Some((n, more)) = self.look.whole {
            // as the end of a comment
            let short = w.look.no_newline;
            if short {
                w.raw("");
            }
            w.out.extend_from_slice(b"* ");
            let room = w.out.len() + 2;
            let size = (room + n - 1) / n * n;
            w.out.resize((size as i64 + more) as usize - if short { 0 } else { 1 }, b'-');
            if !short {
                w.out.push(b'\n');
            }
        }
        w.out
    }

    pub fn lib_text(&self, f: usize) -> Vec<u8> {
        let mut w = self.writer(1 + f as u64);
        w.raw("* library");
        let l = &self.libs[f];
        let decoy = |w: &mut Writer, names: &[String]| {
            for n in names {
                w.line(&strs(&[".subckt", n, "a", "b"]));
                w.line(&strs(&["R1", "a", "b", "13"]));
                w.line(&strs(&[".ends"]));
            }
        };
        let names: Vec<String> = self.subs.iter().map(|s| s.name.clone()).collect();
        if w.look.noise > 0 {
            // things outside of sections, for testing the library by itself
            w.line(&strs(&["Rtest", "a", "0", "1k"]));
            decoy(&mut w, &names[..names.len().min(1)]);
            if w.rng.chance(1, 2) {
                w.line(&strs(&[".control"]));
                w.line(&strs(&["tran", "1", "100"]));
                w.line(&strs(&[".endc"]));
            }
        }
        for (i, (name, items)) in l.sections.iter().enumerate() {
            if w.look.noise > 0 && w.rng.chance(1, 2) {
                w.line(&strs(&[".lib", &format!("old{}", i)]));
                decoy(&mut w, &names);
                w.line(&strs(&[".endl"]));
            }
            w.line(&strs(&[".lib", name]));
            self.write_items(&mut w, items);
            let e = if w.look.noise > 0 && w.rng.chance(1, 3) { strs(&[".endl", name]) } else { strs(&[".endl"]) };
            w.line(&e);
            if w.look.noise > 0 {
                w.line(&strs(&["Vtest", "a", "0", "1"]));
            }
        }
        self.finish(w)
    }

    pub fn deck_file(&self) -> String {
        self.real(&format!("{}/{}", self.dir, self.file))
    }

    pub fn lib_file(&self, f: usize) -> String {
        self.real(&format!("{}/{}", self.dir, self.libs[f].name))
    }

    /// Where a path leads by way of links
    pub fn real(&self, path: &str) -> String {
        let mut fs = Fs::new();
        for l in &self.links {
            fs.put_link(&l.0, &l.1);
        }
        fs.real(path)
    }

    /// Symbolic links at places on the way to the files
    pub fn add_links(&mut self, src: &mut Src, alone: bool) {
        if self.path.contains("..") || self.dir.starts_with("/w/waves") {
            return;
        }
        let name = format!("{}/{}", self.dir, self.file).replace('/', "_");
        let mut at = vec![];
        for _ in 0..src.range(1, 2) {
            let way = src.below(3);
            let l = match src.below(4) {
                0 => (format!("{}/{}", self.dir, self.file), [format!("real{}", name), format!("/srv/decks/{}", name), format!("../srv/{}", name)][way].clone()),
                1 if !self.libs.is_empty() => {
                    let f = src.below(self.libs.len());
                    (format!("{}/{}", self.dir, self.libs[f].name), [format!("lib{}", name), format!("/srv/libs{}", name), format!("/w/l{}.lib", name)][way].clone())
                }
                2 if self.dir != CWD => (self.dir.clone(), format!("/srv/dir{}", name)),
                3 if alone => ("/w/waves".to_string(), ["/srv/waves", "out", "/w/out/waves"][way].to_string()),
                _ => continue,
            };
            if at.iter().all(|a: &(String, String)| a.0 != l.0 && a.1 != l.1) {
                at.push(l);
            }
        }
        // those that are in a directory that's one come after it
        at.sort();
        self.links = at;
        self.wave = self.real(&self.wave);
    }

    /// Names that are much alike, for one kind of thing
    fn rename(&mut self, src: &mut Src) {
        self.alike = true;
        let kind = src.below(4);
        if kind == 3 {
            let names = alike(src, "s", self.subs.len());
            for (s, n) in self.subs.iter_mut().zip(names) {
                s.name = n;
            }
            return;
        }
        let what = kind as u8;
        let mut old: Vec<String> = vec![];
        let mut see = |n: &mut String| {
            if !["0", "gnd", "GND"].contains(&n.as_str()) && !old.contains(n) {
                old.push(n.clone());
            }
        };
        self.all_names(what, &mut see);
        let mut names = alike(src, ["", "p", "X"][kind], old.len());
        if what == 1 {
            // not in the names of parameters
            names.iter_mut().for_each(|n| *n = n.replace('_', ""));
        }
        let mut put = |n: &mut String| {
            if let Some(k) = old.iter().position(|o| o == n) {
                *n = names[k].clone();
            }
        };
        self.all_names(what, &mut put);
        self.model = self.flatten();
    }

    fn all_names(&mut self, what: u8, f: &mut dyn FnMut(&mut String)) {
        each_card(&mut self.items, &mut |c| each_name(c, what, f));
        for l in &mut self.libs {
            for s in &mut l.sections {
                each_card(&mut s.1, &mut |c| each_name(c, what, f));
            }
        }
        for s in &mut self.subs {
            if what == 0 {
                s.ports.iter_mut().for_each(|n| f(n));
            }
            if what == 1 {
                for p in &mut s.params {
                    f(&mut p.0);
                    if let Val::Par(q) = &mut p.2 {
                        f(q);
                    }
                }
            }
            each_name(&mut s.cards, what, f);
        }
    }

    /// Sources of so many volts and amperes that the numbers are hundreds of digits
    pub fn make_huge(&mut self, src: &mut Src) {
        let p = *src.pick(&[12, 30, 80, 150, 250]);
        let mut big = |c: &mut [Card]| {
            for c in c {
                if let Card::V(_, _, _, w) | Card::I(_, _, _, w) = c {
                    let n = number(src, digit(w), p);
                    *w = W::Dc(n);
                }
            }
        };
        each_card(&mut self.items, &mut big);
        for l in &mut self.libs {
            for s in &mut l.sections {
                each_card(&mut s.1, &mut big);
            }
        }
        for s in &mut self.subs {
            big(&mut s.cards);
        }
        self.model = self.flatten();
    }

    /// Libraries that are read at all
    pub fn lib_files(&self) -> Vec<String> {
        (0..self.libs.len()).map(|f| self.lib_file(f)).collect()
    }

    pub fn put(&self, fs: &mut Fs) {
        for l in &self.links {
            fs.put_link(&l.0, &l.1);
            if l.0 == "/w/waves" || l.0 == self.dir {
                fs.put_dir(&l.0);
            }
        }
        fs.put(&self.deck_file(), &self.deck_text());
        for f in 0..self.libs.len() {
            fs.put(&self.lib_file(f), &self.lib_text(f));
        }
        if self.path.starts_with("sub/") {
            let _ = fs.mkdir("/w/sub");
        }
        for (p, b) in &self.broken {
            let data = fs.file(p).cloned().unwrap_or_default();
            match b {
                Broken::Missing => {
                    fs.nodes.remove(p);
                }
                Broken::IsDir => {
                    fs.nodes.insert(p.clone(), Node::Dir);
                }
                Broken::BadByte(n) => {
                    let from = data.iter().position(|c| *c == b'\n').map_or(data.len(), |i| i + 1);
                    let at = from + (*n as usize) % (data.len() - from + 1);
                    let mut t = data;
                    if from == t.len() {
                        t.push(b'\n');
                        t.push(0xff);
                    } else {
                        t.insert(at, 0xff);
                    }
                    fs.put(p, &t);
                }
                Broken::Without(w) => {
                    let t: Vec<&[u8]> = data.split_inclusive(|c| *c == b'\n').filter(|l| {
                        let l = String::from_utf8_lossy(l).to_string();
                        l.split_whitespace().next() != Some(w.as_str())
                    }).collect();
                    fs.put(p, &t.concat());
                }
                Broken::Text(t) => fs.put(p, t),
            }
        }
    }

    /// Subcircuits that are part of the circuit
    fn reachable(&self) -> Vec<usize> {
        let mut seen: Vec<usize> = vec![];
        let mut todo: Vec<&Card> = vec![];
        self.top_cards(&self.items, &mut todo);
        while let Some(c) = todo.pop() {
            if let Card::X(_, _, k, _) = c {
                if !seen.contains(k) {
                    seen.push(*k);
                    todo.extend(self.subs[*k].cards.iter());
                }
            }
        }
        seen.sort();
        seen
    }

    /// Put a line anywhere it's read. `subs`: these will do, too
    fn put_line(&mut self, src: &mut Src, line: String, subs: &[usize]) {
        let c = Card::Raw(line);
        match src.below(3) {
            1 if !subs.is_empty() => {
                let k = *src.pick(subs);
                let at = src.below(self.subs[k].cards.len() + 1);
                self.subs[k].cards.insert(at, c);
            }
            2 if !self.libs.is_empty() => {
                let f = src.below(self.libs.len());
                let s = src.below(self.libs[f].sections.len());
                let at = src.below(self.libs[f].sections[s].1.len() + 1);
                self.libs[f].sections[s].1.insert(at, Item::Card(c));
            }
            _ => {
                let at = src.below(self.items.len() + 1);
                self.items.insert(at, Item::Card(c));
            }
        }
    }

    fn put_top(&mut self, src: &mut Src, line: &str) {
        let at = src.below(self.items.len() + 1);
        self.items.insert(at, Item::Card(Card::Raw(line.to_string())));
    }

    pub fn fs(&self) -> Fs {
        let mut fs = Fs::new();
        self.put(&mut fs);
        fs
    }

    /// All of the input files
    pub fn listing(&self) -> String {
        let fs = self.fs();
        let text = |p: &str| fs.file(p).map_or("(isn't there)\n".to_string(), |t| String::from_utf8_lossy(t).to_string());
        let mut s = format!("=== {} (given as {})\n{}", self.deck_file(), self.path, text(&self.deck_file()));
        for f in 0..self.libs.len() {
            s += &format!("\n=== {}\n{}", self.lib_file(f), text(&self.lib_file(f)));
        }
        s
    }

    // -----------------------------------------------------------------------
    // what it means

    fn top_cards<'a>(&'a self, items: &'a [Item], out: &mut Vec<&'a Card>) {
        for it in items {
            match it {
                Item::Card(c) => out.push(c),
                Item::Lib(f, s) => self.top_cards(&self.libs[*f].sections[*s].1, out),
                _ => {}
            }
        }
    }

    pub fn flatten(&self) -> Model {
        let mut m = Model { nodes: vec!["gnd".to_string()], els: vec![], n_src: 0 };
        let mut cards = vec![];
        self.top_cards(&self.items, &mut cards);
        self.expand(&mut m, &cards, "", &[], &[]);
        m
    }

    /// `ports`: local name to node; `params`: local name to value
    fn expand(&self, m: &mut Model, cards: &[&Card], hier: &str, ports: &[(String, usize)], params: &[(String, f64)]) {
        fn node(m: &mut Model, hier: &str, ports: &[(String, usize)], n: &str) -> usize {
            if n == "0" || n == "gnd" || n == "GND" {
                return 0;
            }
            if let Some(p) = ports.iter().find(|p| p.0 == n) {
                return p.1;
            }
            m.node(&format!("{}{}", hier, n))
        }
        let val = |v: &Val| match v {
            Val::Lit(n) => n.v,
            Val::Par(p) => params.iter().find(|q| q.0 == *p).unwrap_or_else(|| panic!("no parameter {}", p)).1,
        };
        for c in cards {
            match c {
                Card::V(_, a, b, w) => {
                    let (a, b) = (node(m, hier, ports, a), node(m, hier, ports, b));
                    let j = m.n_src;
                    m.n_src += 1;
                    m.els.push(El::V(a, b, wave_of(w), j));
                }
                Card::I(_, a, b, w) => {
                    let (a, b) = (node(m, hier, ports, a), node(m, hier, ports, b));
                    m.els.push(El::I(a, b, wave_of(w)));
                }
                _ => {}
            }
        }
        for c in cards {
            match c {
                Card::V(..) | Card::I(..) | Card::Raw(..) => {}
                Card::R(_, a, b, v) => {
                    let (a, b) = (node(m, hier, ports, a), node(m, hier, ports, b));
                    m.els.push(El::R(a, b, val(v)));
                }
                Card::C(_, a, b, v) => {
                    let (a, b) = (node(m, hier, ports, a), node(m, hier, ports, b));
                    m.els.push(El::C(a, b, val(v)));
                }
                Card::D(_, a, b) => {
                    let (a, b) = (node(m, hier, ports, a), node(m, hier, ports, b));
                    m.els.push(El::D(a, b));
                }
                Card::E(_, n, k) => {
                    let n: Vec<usize> = n.iter().map(|x| node(m, hier, ports, x)).collect();
                    let j = m.n_src;
                    m.n_src += 1;
                    m.els.push(El::E(n[0], n[1], n[2], n[3], val(k), j));
                }
                Card::G(_, n, k) => {
                    let n: Vec<usize> = n.iter().map(|x| node(m, hier, ports, x)).collect();
                    m.els.push(El::G(n[0], n[1], n[2], n[3], val(k)));
                }
                Card::X(name, conns, k, over) => {
                    let s = &self.subs[*k];
                    let conns: Vec<usize> = conns.iter().map(|x| node(m, hier, ports, x)).collect();
                    let inner_ports: Vec<(String, usize)> = s.ports.iter().cloned().zip(conns).collect();
                    let mut inner: Vec<(String, f64)> = vec![];
                    for (p, _, def) in &s.params {
                        let v = match over.iter().find(|o| o.0 == *p) {
                            Some(o) => val(&o.1),
                            None => val(def),
                        };
                        inner.push((p.clone(), v));
                    }
                    let cards: Vec<&Card> = s.cards.iter().collect();
                    self.expand(m, &cards, &format!("{}{}.", hier, name), &inner_ports, &inner);
                }
            }
        }
    }
}

/// A digit that has something to do with it
fn digit(w: &W) -> i64 {
    let v = match w {
        W::Dc(n) => n.v,
        W::Sin(o, a, _) => o.v + a.v,
        W::Pwl(p, ..) => p[0].1.v,
    };
    (v.abs() * 7.0) as i64 % 9 + 1
}

fn wave_of(w: &W) -> Wave {
    match w {
        W::Dc(n) => Wave::Dc(n.v),
        W::Sin(o, a, f) => Wave::Sin { vo: o.v, va: a.v, f: f.v },
        W::Pwl(p, td, r) => Wave::Pwl {
            pts: p.iter().map(|(t, v)| (t.v, v.v)).collect(),
            td: td.as_ref().map_or(0.0, |n| n.v),
            rep: *r,
        },
    }
}

// ---------------------------------------------------------------------------
// what can be wrong with a deck

/// Make a circuit that may have no solution, or more than one
pub fn make_ill(src: &mut Src, d: &mut Deck) {
    let nodes: Vec<String> = d.model.nodes.iter()
        .filter(|n| !n.contains('.') && !ODD_NAMES.contains(&n.as_str()))
        .map(|n| if n == "gnd" { "0".to_string() } else { n.clone() })
        .collect();
    let mut tag = 0;
    let mut cards = vec![];
    let mut id = |l: &str| {
        tag += 1;
        format!("{}ill{}", l, tag)
    };
    let a = src.pick(&nodes).clone();
    let b = src.pick(&nodes).clone();
    let c = src.pick(&nodes).clone();
    let mut volts = || { let x = signed(src, 10.0); if src.chance(1, 3) { about(src, x.v.round(), 2) } else { x } };
    let (u, v, w) = (volts(), volts(), volts());
    let dc = |x: &Num| W::Dc(x.clone());
    let alone = "alone".to_string();
    let alone2 = "alone2".to_string();
    let zero = "0".to_string();
    let what = match src.below(12) {
        0 => {
            let x = if src.chance(1, 2) { u.clone() } else { v };
            cards.push(Card::V(id("V"), a.clone(), b.clone(), dc(&u)));
            cards.push(Card::V(id("V"), a, b, dc(&x)));
            "sources side by side"
        }
        1 => {
            let x = if src.chance(1, 4) { about(src, 0.0, 1) } else { u };
            let y = if src.chance(1, 2) { W::Dc(x) } else { W::Sin(x, v, about(src, 100.0, 2)) };
            cards.push(Card::V(id("V"), a.clone(), a, y));
            "source with both ends on one node"
        }
        2 => {
            cards.push(Card::R(id("R"), a, b, Val::Lit(about(src, 0.0, 1))));
            "short"
        }
        3 => {
            cards.push(Card::C(id("C"), a, alone, Val::Lit(about(src, 1e-6, 1))));
            "node behind a capacitor"
        }
        4 => {
            cards.push(Card::I(id("I"), a, alone.clone(), dc(&u)));
            if src.chance(1, 2) {
                cards.push(Card::I(id("I"), alone, zero, dc(&v)));
            } else if src.chance(1, 2) {
                cards.push(Card::C(id("C"), alone, zero, Val::Lit(about(src, 1e-6, 1))));
            }
            "node between current sources"
        }
        5 => {
            cards.push(Card::V(id("V"), a.clone(), b.clone(), dc(&u)));
            cards.push(Card::V(id("V"), b, c.clone(), dc(&v)));
            cards.push(Card::V(id("V"), a, c, dc(&w)));
            "loop of sources"
        }
        6 => {
            cards.push(Card::R(id("R"), alone.clone(), alone2.clone(), Val::Lit(about(src, 1e3, 1))));
            if src.chance(1, 2) {
                cards.push(Card::I(id("I"), alone, alone2, dc(&u)));
            } else if src.chance(1, 2) {
                cards.push(Card::V(id("V"), alone, alone2, dc(&u)));
            }
            "island"
        }
        7 => {
            let k = *src.pick(&[1.0, 2.0, -1.0, 0.5]);
            let k = about(src, k, 1);
            cards.push(Card::E(id("E"), [a.clone(), b.clone(), a, b], Val::Lit(k)));
            "controlled source that controls itself"
        }
        8 => {
            cards.push(Card::G(id("G"), [a, b, alone.clone(), zero], Val::Lit(about(src, 1e-3, 1))));
            "control without a voltage"
        }
        9 => {
            let r = *src.pick(&[1.0, 1e3, 2e3]);
            let r = about(src, r, 1);
            let m = about(src, -r.v, 1);
            cards.push(Card::R(id("R"), alone.clone(), a, Val::Lit(r)));
            cards.push(Card::R(id("R"), alone, b, Val::Lit(m)));
            "resistances that cancel"
        }
        10 => {
            cards.push(Card::D(id("D"), a, alone.clone()));
            if src.chance(1, 2) {
                cards.push(Card::D(id("D"), b, alone));
            } else {
                cards.push(Card::I(id("I"), alone, zero, dc(&u)));
            }
            "node behind a diode"
        }
        _ => {
            let k = *src.pick(&[1e15, 1e12, 1e9, 1e-3, -1.0]);
            cards.push(Card::R(id("R"), a, b, Val::Lit(about(src, k, 1))));
            cards.push(Card::V(id("V"), alone, c, dc(&u)));
            "odd resistance"
        }
    };
    for c in cards {
        let at = src.below(d.items.len() + 1);
        d.items.insert(at, Item::Card(c));
    }
    d.ill = Some(what);
    d.model = d.flatten();
}

/// Put something wrong into a deck, or its libraries. Says what.
pub fn put_defect(src: &mut Src, d: &mut Deck, fs: &mut Fs) -> String {
    let what = choose_defect(src, d);
    d.put(fs);
    for (p, b) in &d.broken {
        if let Broken::Missing = b {
            fs.nodes.remove(p);
        }
    }
    what
}

fn choose_defect(src: &mut Src, d: &mut Deck) -> String {
    let all: Vec<usize> = (0..d.subs.len()).collect();
    let live = d.reachable();
    let node = *src.pick(&["a", "out", "n1", "0", "gnd", "12"]);
    let say = |s: &str| s.to_string();
    match src.below(30) {
        0 => {
            let l = *src.pick(&["R", "C", "E", "G", "D"]);
            let t = match l {
                "E" | "G" => format!("{}bad {} 0 a 0", l, node),
                "D" => format!("Dbad {}", node),
                _ => format!("{}bad {} 0", l, node),
            };
            d.put_line(src, t, &all);
            format!("{} with something missing", l)
        }
        1 => {
            let l = *src.pick(&["R", "C", "E", "G"]);
            let v = *src.pick(&["abc", "k", "x10", "{nosuch}", "volts", "--1"]);
            let n = if l == "E" || l == "G" { "a 0 " } else { "" };
            d.put_line(src, format!("{}bad {} 0 {}{}", l, node, n, v), &live);
            format!("{} with a bad value", l)
        }
        2 => {
            let c = *src.pick(&[".foobar", ".include nothere.spi", ".model d1 D", ".tran 1m 10m", ".option RELTOL=1e-3", ".ic v(a)=1"]);
            d.put_line(src, c.to_string(), &all);
            say("unsupported dot-command")
        }
        3 => {
            let b = *src.pick(&["a-b", "a.b", "n+", "v(a)", "#1", "-"]);
            let t = match src.below(5) {
                0 => format!("Rbad {} 0 1k", b),
                1 => format!("Vbad {} 0 1", b),
                2 => format!("Ibad 0 {} 1m", b),
                3 => format!("Ebad a 0 0 {} 2", b),
                _ => format!("Dbad {} 0", b),
            };
            d.put_line(src, t, &all);
            say("bad node name")
        }
        4 => {
            d.put_line(src, ".ends".to_string(), &all);
            say("stray .ends")
        }
        5 => {
            if all.is_empty() {
                d.put_top(src, ".subckt outer a b\n.subckt inner a b\nR1 a b 1k\n.ends\nR1 a b 1k\n.ends");
            } else {
                let k = *src.pick(&all);
                let at = src.below(d.subs[k].cards.len() + 1);
                d.subs[k].cards.insert(at, Card::Raw(".subckt inner a b\nR1 a b 1k\n.ends".to_string()));
            }
            say("nested .subckt")
        }
        6 => {
            let t = *src.pick(&["Q1 a b c mod", "L1 a 0 1m", "M1 a b c d nmos", "K1 L1 L2 0.9", "Bsrc a 0 V=1"]);
            d.put_line(src, t.to_string(), &all);
            say("unknown component")
        }
        7 => {
            let v = *src.pick(&["EXP(0 1 2 3)", "PULSE(0 5 1u 1u 1u 10u 20u)", "1 2", "DC 5", "sin(0 1 1k)", "AC 1 0", "SINE (0 1 1k) x"]);
            let l = if v.starts_with("SINE") { "V" } else { *src.pick(&["V", "I"]) };
            let v = if v.starts_with("SINE") { "pwl(0,0, 1,1) r=0" } else { v };
            d.put_line(src, format!("{}bad {} 0 {}", l, node, v), &all);
            say("unsupported source")
        }
        8 => {
            let l = *src.pick(&["V", "I"]);
            let v = *src.pick(&["SIN(0 1)", "SIN(0 1 1k 0)", "SIN(0 1 1k 1m 0)", "SIN(0 x 1k)"]);
            d.put_line(src, format!("{}bad {} 0 {}", l, node, v), &all);
            say("bad SIN()")
        }
        9 => {
            let l = *src.pick(&["V", "I"]);
            let v = *src.pick(&["abc", "volts", "{v}", "EXP(1)"]);
            d.put_line(src, format!("{}bad {} 0 {}", l, node, v), &all);
            say("source with a bad value")
        }
        10 => {
            let v = *src.pick(&["PWL(0,0, 1m)", "PWL(0,0, 1m,1, 2m)", "PWL(0,0, 1m,x)", "PWL(0,0, 1m,1) td=x", "PWL(0,0, 1m,1) r=0=1"]);
            d.put_line(src, format!("Vbad {} 0 {}", node, v), &all);
            say("bad PWL()")
        }
        11 => {
            d.put_line(src, format!("Xbad {} 0 nosuch", node), &live);
            say("subcircuit that isn't defined")
        }
        12 => {
            let (name, n) = match d.subs.iter().find(|_| true) {
                Some(_) => {
                    let k = src.below(d.subs.len());
                    (d.subs[k].name.clone(), d.subs[k].ports.len())
                }
                None => {
                    d.put_top(src, ".subckt dx a b\nR1 a b 1k\n.ends");
                    ("dx".to_string(), 2)
                }
            };
            let m = if src.chance(1, 2) { n + 1 } else { n.saturating_sub(1) };
            let t = format!("Xbad {}{}", format!("{} ", node).repeat(m), name);
            // not in itself, or in one of those it's made of
            d.put_line(src, t, &[]);
            say("wrong number of connections")
        }
        13 => {
            let p = *src.pick(&["k=1=2", "k=abc", "rval=", "=1=1", "k=--1"]);
            if src.chance(1, 2) {
                d.put_top(src, &format!(".subckt dx a b {}\nR1 a b 1k\n.ends", p));
            } else {
                d.put_top(src, ".subckt dx a b k=1\nR1 a b 1k\n.ends");
                d.put_line(src, format!("Xbad {} 0 dx {}", node, p), &[]);
            }
            say("bad parameter")
        }
        14 => {
            let l = *src.pick(&["R", "C", "E", "G"]);
            let n = if l == "E" || l == "G" { "a 0 " } else { "" };
            d.put_line(src, format!("{}bad {} 0 {}{{nosuch}}", l, node, n), &live);
            say("unknown parameter")
        }
        15 => {
            d.put_top(src, ".lib nothere.lib core");
            say("library that isn't there")
        }
        16 => {
            if d.libs.is_empty() {
                // itself
                let t = format!(".lib {} nosuch", d.file);
                if t.split_whitespace().count() == 3 {
                    d.put_top(src, &t);
                } else {
                    d.put_top(src, ".lib nothere.lib core");
                }
            } else {
                let f = src.below(d.libs.len());
                let t = format!(".lib {} nosuch", d.libs[f].name);
                d.put_top(src, &t);
            }
            say("library section that isn't there")
        }
        17 => {
            let t = *src.pick(&[".lib core", ".lib", ".lib a b c"]);
            d.put_top(src, t);
            say("bad .lib")
        }
        18 => {
            d.put_top(src, ".endl");
            say("stray .endl")
        }
        19 if !d.libs.is_empty() => {
            let f = src.below(d.libs.len());
            let s = src.below(d.libs[f].sections.len());
            let at = src.below(d.libs[f].sections[s].1.len() + 1);
            let t = format!(".lib {} {}", d.libs[f].name, d.libs[f].sections[s].0);
            d.libs[f].sections[s].1.insert(at, Item::Card(Card::Raw(t)));
            say("nested .lib")
        }
        20 if !d.libs.is_empty() => {
            let f = src.below(d.libs.len());
            d.broken.push((d.lib_file(f), Broken::Without(".endl".to_string())));
            say("library without .endl")
        }
        21 => {
            let k = src.below(d.libs.len() + 1);
            let p = if k == 0 { d.deck_file() } else { d.lib_file(k - 1) };
            d.broken.push((p, Broken::BadByte(src.draw(1 << 20))));
            say("line that isn't text")
        }
        22 => {
            let k = src.below(d.libs.len() + 1);
            let p = if k == 0 { d.deck_file() } else { d.lib_file(k - 1) };
            d.broken.push((p, Broken::Missing));
            say("missing file")
        }
        23 => {
            let k = src.below(d.libs.len() + 1);
            let p = if k == 0 { d.deck_file() } else { d.lib_file(k - 1) };
            d.broken.push((p, Broken::IsDir));
            say("directory in place of a file")
        }
        24 => {
            d.bad_command = Some((*src.pick(&["tran", "tran 1m", "tran x 1", "tran 1m y", "tran 1m 10m z"])).to_string());
            say("bad tran command")
        }
        25 => {
            let p = *src.pick(&["a 0 b", "gnd", "a a", "a b a", "GND a"]);
            d.put_top(src, &format!(".subckt dx {}\nR1 a b 1k\n.ends", p));
            if src.chance(1, 2) {
                let t = format!("Xbad{}{} dx", " ", vec![node; p.split(' ').count()].join(" "));
                d.put_line(src, t, &[]);
            }
            say("bad port")
        }
        26 => {
            d.put_top(src, ".subckt dx a b\nR1 a b 1k\nXagain a b dx\n.ends");
            d.put_line(src, format!("Xbad {} 0 dx", node), &live);
            say("subcircuit in itself")
        }
        27 => {
            d.put_top(src, ".subckt dx a b\nR1 a b 1k\nXo a b dy\n.ends\n.subckt dy a b\nR1 a b 1k\nXi a b dx\n.ends");
            d.put_line(src, format!("Xbad {} 0 dy", node), &live);
            say("subcircuits in each other")
        }
        28 => {
            d.put_top(src, ".subckt dx a b\nR1 a c 1k\nR2 c b 1k\n.ends");
            d.put_top(src, "Xbad a 0 dx");
            d.put_top(src, &format!("Xbad {} 0 dx", node));
            say("two instances of one name")
        }
        _ => {
            d.put_top(src, ".subckt inner a b\nRq a b\n.ends");
            say("unused subcircuit with a defect")
        }
    }
}

// ---------------------------------------------------------------------------
// texts that nobody would write

/// A text with a few things in it changed, at random. The first line is the title.
pub fn garble(src: &mut Src, text: &[u8]) -> Vec<u8> {
    let mut lines: Vec<Vec<u8>> = text.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    for _ in 0..src.range(1, 3) {
        if lines.len() < 2 {
            break;
        }
        let at = 1 + src.below(lines.len() - 1);
        let to = 1 + src.below(lines.len() - 1);
        match src.below(16) {
            0 => {
                lines.remove(at);
            }
            1 => {
                let l = lines[at].clone();
                lines.insert(to, l);
            }
            2 => lines.swap(at, to),
            3 => {
                let l = lines.remove(at);
                lines.insert(to.min(lines.len()), l);
            }
            4 => {
                // ends there, maybe halfway through a line
                lines.truncate(at + 1);
                let n = src.below(lines[at].len() + 1);
                lines[at].truncate(n);
            }
            5 => {
                let l = *src.pick(&[
                    ".ends", ".endl", ".endc", ".control", ".subckt", ".subckt a b", ".lib", ".lib core", ".lib mylib.lib core", ".end",
                    "op", "tran 1m 10m", "run", "plot a", "option", "option reltol = 0.1", "option abstol=1e-9", ".ic a 1", "R", "V1", "* comment",
                    "+ 1k", "x", "X1 a b c", "d1 a b", "(", ")", "V9 a 0 SIN(", "I9 0 a PWL(0 0 1m 1)", "{", "Rz a 0 {1}", "E9 a 0 b 0 2",
                    "\t", "\u{3bc}", "q1 a b c", "tran 1m 10m 1m", "V9 a 0 dc 5", ".option x = 1",
                ]);
                let mut l = l.as_bytes().to_vec();
                l.push(b'\n');
                lines.insert(at, l);
            }
            k => {
                let l = String::from_utf8_lossy(&lines[at]).to_string();
                let mut toks: Vec<String> = l.split_whitespace().map(|t| t.to_string()).collect();
                if toks.is_empty() {
                    continue;
                }
                let i = src.below(toks.len());
                let j = src.below(toks.len());
                match k {
                    6 => {
                        toks.remove(i);
                    }
                    7 => {
                        let t = toks[i].clone();
                        toks.insert(j, t);
                    }
                    8 => toks.swap(i, j),
                    9 => {
                        // one from elsewhere
                        let o = String::from_utf8_lossy(&lines[to]).to_string();
                        let o: Vec<&str> = o.split_whitespace().collect();
                        if !o.is_empty() {
                            toks[i] = src.pick(&o).to_string();
                        }
                    }
                    10 => {
                        toks[i] = (*src.pick(&[
                            "0", "gnd", "GND", "1", "-1", "1k", "1e", "1e3", "1e400", "nan", "inf", "-0", "+1", "1.", ".5", "0x10", "1kk", "1MEG",
                            "1meg", "{", "}", "{a}", "{r}", "=", "a=", "=1", "r=1", "r=1k", "a", "SIN(0", "PWL(", "PWL()", ")", "(", "\"", ",", "1,2",
                            "dc", "DC", "\u{e9}", "1_000", "1e-9", "1u", "1\u{b5}", "*", "tran", "op", ".ends", "core", "x1.a", "a.b",
                        ])).to_string();
                    }
                    11 => toks.truncate(i + 1),
                    12 => {
                        let mut c: Vec<char> = toks[i].chars().collect();
                        let n = src.below(c.len() + 1);
                        c.insert(n, *src.pick(&['0', '1', '9', 'k', 'e', '-', '.', '{', '}', '(', ')', '=', ' ', '\u{e9}', '"', ';', '\\', '\'', ',', '+']));
                        toks[i] = c.into_iter().collect();
                    }
                    13 => {
                        let mut c: Vec<char> = toks[i].chars().collect();
                        let n = src.below(c.len());
                        c.remove(n);
                        toks[i] = c.into_iter().collect();
                    }
                    14 => {
                        let mut c: Vec<char> = toks[i].chars().collect();
                        let n = src.below(c.len());
                        c[n] = if c[n].is_lowercase() { c[n].to_ascii_uppercase() } else { c[n].to_ascii_lowercase() };
                        toks[i] = c.into_iter().collect();
                    }
                    _ => {
                        // the last one once more, with another value
                        if let Some((name, _)) = toks.last().cloned().unwrap().split_once('=') {
                            toks.push(format!("{}={}", name, *src.pick(&["1", "2k", "", "x", "{r}", "1=1"])));
                        } else {
                            toks.push(toks[i].clone());
                        }
                    }
                }
                let mut l = toks.join(" ").into_bytes();
                l.push(b'\n');
                lines[at] = l;
            }
        }
    }
    lines.concat()
}

impl Deck {
    /// Garble one or more of the files
    pub fn garble(&mut self, src: &mut Src) {
        let mut files = vec![self.deck_file()];
        files.extend(self.lib_files());
        for _ in 0..if src.chance(1, 4) { 2 } else { 1 } {
            let f = src.pick(&files).clone();
            let fs = self.fs();
            if let Some(t) = fs.file(&f) {
                let new = garble(src, t);
                self.broken.push((f, Broken::Text(new)));
            }
        }
    }
}
