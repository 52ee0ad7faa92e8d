//! The circuit as the generator wrote it down, flat, and what follows from it:
//! an independent reference for what the simulator should come up with.

pub const VNTOL: f64 = 1e-6;
pub const IS: f64 = 1e-9;
pub const GMIN: f64 = 1e-12;

/// thermal voltage of the diodes
pub fn vt() -> f64 {
    1.380_648_8e-23 * (363.0 + 27.0) / 1.603e-19
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wave {
    Dc(f64),
    Sin { vo: f64, va: f64, f: f64 },
    Pwl { pts: Vec<(f64, f64)>, td: f64, rep: bool },
}

impl Wave {
    pub fn at(&self, t: f64) -> f64 {
        match self {
            Wave::Dc(v) => *v,
            Wave::Sin { vo, va, f } => vo + va * (std::f64::consts::TAU * f * t).sin(),
            Wave::Pwl { pts, td, rep } => {
                let mut u = t - td;
                if u < 0.0 {
                    return 0.0;
                }
                let (tl, vl) = *pts.last().unwrap();
                if *rep {
                    u -= (u / tl).floor() * tl;
                    u = u.clamp(0.0, tl);
                } else if u >= tl {
                    return vl;
                }
                let mut last = pts[0];
                for p in pts {
                    if u <= p.0 {
                        if p.0 == last.0 {
                            return p.1;
                        }
                        return last.1 + (p.1 - last.1) * (u - last.0) / (p.0 - last.0);
                    }
                    last = *p;
                }
                vl
            }
        }
    }

    /// Smallest and largest value in t-e..t+e
    pub fn around(&self, t: f64, e: f64) -> (f64, f64) {
        if t == 0.0 {
            let v = self.at(0.0);
            return (v, v);
        }
        let mut at = vec![t - e, t, t + e];
        if let Wave::Pwl { pts, td, rep } = self {
            let tl = pts.last().unwrap().0;
            for p in pts {
                let mut x = td + p.0;
                if *rep {
                    let n = ((t - x) / tl).round().max(0.0);
                    x += n * tl;
                }
                if (x - t).abs() <= e {
                    at.push(x);
                }
            }
        }
        let mut v: Vec<f64> = at.iter().map(|t| self.at(*t)).collect();
        if let Wave::Pwl { pts, td, rep } = self {
            // jumps: both sides are fine
            let (tl, vl) = *pts.last().unwrap();
            let n = ((t - td) / tl).round();
            if *rep && n >= 1.0 && (t - td - n * tl).abs() <= e {
                v.push(pts[0].1);
                v.push(vl);
            }
            if (t - td).abs() <= e {
                v.push(0.0);
                v.push(pts[0].1);
            }
        }
        (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    R(usize, usize, f64),
    C(usize, usize, f64),
    D(usize, usize),
    I(usize, usize, Wave),
    /// and the number of its current
    V(usize, usize, Wave, usize),
    E(usize, usize, usize, usize, f64, usize),
    G(usize, usize, usize, usize, f64),
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    /// [0] is ground
    pub nodes: Vec<String>,
    pub els: Vec<El>,
    pub n_src: usize,
}

impl Model {
    pub fn linear(&self) -> bool {
        !self.els.iter().any(|e| matches!(e, El::D(..)))
    }

    pub fn has_c(&self) -> bool {
        self.els.iter().any(|e| matches!(e, El::C(..)))
    }

    pub fn node(&mut self, name: &str) -> usize {
        match self.nodes.iter().position(|n| n == name) {
            Some(i) => i,
            None => {
                self.nodes.push(name.to_string());
                self.nodes.len() - 1
            }
        }
    }

    /// Which nodes have nothing connected to them
    pub fn loose(&self) -> Vec<bool> {
        let mut l = vec![true; self.nodes.len()];
        for e in &self.els {
            let n = match e {
                El::R(a, b, _) | El::C(a, b, _) | El::D(a, b) | El::I(a, b, _) | El::V(a, b, _, _) => vec![*a, *b],
                El::E(a, b, c, d, _, _) | El::G(a, b, c, d, _) => vec![*a, *b, *c, *d],
            };
            for n in n {
                l[n] = false;
            }
        }
        l
    }

    pub fn describe(&self) -> String {
        let n = |i: &usize| self.nodes[*i].clone();
        let mut s = String::new();
        for e in &self.els {
            s += &match e {
                El::R(a, b, v) => format!("R {} {} {}\n", n(a), n(b), v),
                El::C(a, b, v) => format!("C {} {} {}\n", n(a), n(b), v),
                El::D(a, b) => format!("D {} {}\n", n(a), n(b)),
                El::I(a, b, w) => format!("I {} {} {:?}\n", n(a), n(b), w),
                El::V(a, b, w, j) => format!("V {} {} {:?} i({})\n", n(a), n(b), w, j),
                El::E(a, b, c, d, k, j) => format!("E {} {} {} {} {} i({})\n", n(a), n(b), n(c), n(d), k, j),
                El::G(a, b, c, d, k) => format!("G {} {} {} {} {}\n", n(a), n(b), n(c), n(d), k),
            };
        }
        s
    }

    /// DC solution (diodes left out): node voltages and source currents.
    /// None: it's too badly conditioned to be a test.
    pub fn dc_linear(&self) -> Option<(Vec<f64>, Vec<f64>)> {
        let nn = self.nodes.len();
        let n = nn - 1 + self.n_src;
        let mut m = vec![vec![0.0; n + 1]; n];
        // the index of a node's unknown
        let ix = |i: usize| if i == 0 { None } else { Some(i - 1) };
        let add = |m: &mut Vec<Vec<f64>>, r: Option<usize>, c: Option<usize>, v: f64| {
            if let (Some(r), Some(c)) = (r, c) {
                m[r][c] += v;
            }
        };
        for e in &self.els {
            match e {
                El::R(a, b, r) => {
                    let (a, b, g) = (ix(*a), ix(*b), 1.0 / r);
                    add(&mut m, a, a, g);
                    add(&mut m, b, b, g);
                    add(&mut m, a, b, -g);
                    add(&mut m, b, a, -g);
                }
                El::C(..) | El::D(..) => {}
                El::I(p, q, w) => {
                    let i = w.at(0.0);
                    add(&mut m, ix(*p), Some(n), -i);
                    add(&mut m, ix(*q), Some(n), i);
                }
                El::V(p, q, w, j) => {
                    let j = nn - 1 + j;
                    add(&mut m, ix(*p), Some(j), 1.0);
                    add(&mut m, ix(*q), Some(j), -1.0);
                    add(&mut m, Some(j), ix(*p), 1.0);
                    add(&mut m, Some(j), ix(*q), -1.0);
                    m[j][n] += w.at(0.0);
                }
                El::E(p, q, cp, cn, k, j) => {
                    let j = nn - 1 + j;
                    add(&mut m, ix(*p), Some(j), 1.0);
                    add(&mut m, ix(*q), Some(j), -1.0);
                    add(&mut m, Some(j), ix(*p), 1.0);
                    add(&mut m, Some(j), ix(*q), -1.0);
                    add(&mut m, Some(j), ix(*cp), -k);
                    add(&mut m, Some(j), ix(*cn), *k);
                }
                El::G(p, q, cp, cn, k) => {
                    add(&mut m, ix(*p), ix(*cp), *k);
                    add(&mut m, ix(*p), ix(*cn), -k);
                    add(&mut m, ix(*q), ix(*cp), -k);
                    add(&mut m, ix(*q), ix(*cn), *k);
                }
            }
        }
        for (i, l) in self.loose().iter().enumerate().skip(1) {
            if *l {
                m[i - 1][i - 1] = 1.0;
            }
        }
        // Gauss-Jordan with complete pivoting over rows, rows scaled
        for row in m.iter_mut() {
            let s = row[..n].iter().fold(0.0f64, |a, b| a.max(b.abs()));
            if s == 0.0 {
                return None;
            }
            for x in row.iter_mut() {
                *x /= s;
            }
        }
        for c in 0..n {
            let r = (c..n).max_by(|a, b| m[*a][c].abs().total_cmp(&m[*b][c].abs()))?;
            if m[r][c].abs() < 1e-9 {
                return None;
            }
            m.swap(r, c);
            let p = m[c].clone();
            for (i, row) in m.iter_mut().enumerate() {
                if i != c && row[c] != 0.0 {
                    let f = row[c] / p[c];
                    for k in c..=n {
                        row[k] -= f * p[k];
                    }
                }
            }
        }
        let x: Vec<f64> = (0..n).map(|i| m[i][n] / m[i][i]).collect();
        let mut v = vec![0.0];
        v.extend_from_slice(&x[..nn - 1]);
        Some((v, x[nn - 1..].to_vec()))
    }

    /// So much current, or so high a voltage, that the numbers don't mean much
    pub fn absurd(&self, row: &Row, ill: bool) -> bool {
        let over = |x: &Vec<f64>, m: f64| x.iter().any(|x| x.is_finite() && x.abs() > m);
        (!self.linear() || ill) && (over(&row.i, 1e6) || over(&row.v, 1e6))
    }

    /// Does a row of the waveforms solve the circuit? `prev` is the row of the
    /// step before; without it, it's the operating point (capacitors open).
    pub fn check_row(&self, prev: Option<&Row>, row: &Row, reltol: f64, abstol: f64) -> Result<(), String> {
        const PR: f64 = 5.1e-10; // by which a number is off because it's printed
        let nn = self.nodes.len();
        let v = &row.v;
        let nonlinear = !self.linear();
        // currents out of each node; by how much it may be off; size of the terms; conductance
        let mut i = vec![0.0; nn];
        let mut tol = vec![1e-12; nn];
        let mut mag = vec![0.0; nn];
        let mut cond = vec![0.0; nn];
        let mut shorts = vec![];
        let mut out = |p: usize, q: usize, cur: f64, t: f64, g: f64| {
            i[p] += cur;
            i[q] -= cur;
            for x in [p, q] {
                tol[x] += t;
                mag[x] += cur.abs();
                cond[x] += g;
            }
        };
        let lim = |x: f64| reltol * x.abs() + VNTOL + 2.0 * PR;
        // Diodes between stiff sources make for currents, and roundoff, of any size
        let imax = row.i.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
        let stiff = if nonlinear && imax > 1e3 { 1e-7 } else { 1e-9 };
        for e in &self.els {
            match e {
                El::R(a, b, r) if *r == 0.0 => {
                    if v[*a] != v[*b] {
                        return Err(format!("at {}, there are {} V across a short", row.t, v[*a] - v[*b]));
                    }
                    shorts.push(*a);
                    shorts.push(*b);
                }
                El::R(a, b, r) => out(*a, *b, (v[*a] - v[*b]) / r, 2.0 * PR / r.abs(), 1.0 / r.abs()),
                El::C(a, b, c) => {
                    if let Some(prev) = prev {
                        let dt = row.t - prev.t;
                        let cur = c * ((v[*a] - v[*b]) - (prev.v[*a] - prev.v[*b])) / dt;
                        out(*a, *b, cur, 4.0 * PR * c / dt + cur.abs() * (1e-12 + 1e-15 * row.t / dt), c / dt);
                    }
                }
                El::D(p, q) => {
                    let vd = v[*p] - v[*q];
                    let x = (vd / vt()).exp();
                    let cur = IS * (x - 1.0);
                    let g = IS / vt() * x;
                    let d = lim(v[*p]) + lim(v[*q]);
                    let curv = 0.5 * IS / (vt() * vt()) * ((vd + d) / vt()).exp() * d * d;
                    out(*p, *q, cur, 2.0 * PR * g + 1.5 * curv + GMIN * (vd.abs() + d), g);
                }
                El::I(p, q, w) => {
                    let (lo, hi) = w.around(row.t, 1e-12 * row.t);
                    out(*p, *q, (lo + hi) / 2.0, (hi - lo) / 2.0 + 1e-9 * lo.abs().max(hi.abs()), 0.0);
                }
                El::V(p, q, w, j) => {
                    out(*p, *q, row.i[*j], PR, 0.0);
                    let (lo, hi) = w.around(row.t, 1e-12 * row.t);
                    let s = 2.0 * PR + stiff * (lo.abs().max(hi.abs()) + v[*p].abs() + v[*q].abs());
                    let x = v[*p] - v[*q];
                    if !(x >= lo - s && x <= hi + s) {
                        return Err(format!("at {}, the source between {} and {} gives {} V, it should be {} V ({:?})",
                            row.t, self.nodes[*p], self.nodes[*q], x, w.at(row.t), w));
                    }
                }
                El::E(p, q, cp, cn, k, j) => {
                    out(*p, *q, row.i[*j], PR, 0.0);
                    let want = k * (v[*cp] - v[*cn]);
                    let x = v[*p] - v[*q];
                    let s = 2.0 * PR * (1.0 + k.abs())
                        + stiff * (v[*p].abs() + v[*q].abs() + k.abs() * (v[*cp].abs() + v[*cn].abs()));
                    if !((x - want).abs() <= s) {
                        return Err(format!("at {}, the controlled source between {} and {} gives {} V, it should be {} V",
                            row.t, self.nodes[*p], self.nodes[*q], x, want));
                    }
                }
                El::G(p, q, cp, cn, k) => {
                    let cur = k * (v[*cp] - v[*cn]);
                    out(*p, *q, cur, 2.0 * PR * k.abs() + 1e-9 * k.abs() * (v[*cp].abs() + v[*cn].abs()), 0.0);
                }
            }
        }
        if v[0] != 0.0 {
            return Err(format!("at {}, ground is at {} V", row.t, v[0]));
        }
        for (n, l) in self.loose().iter().enumerate() {
            if *l && v[n] != 0.0 {
                return Err(format!("at {}, there's nothing connected to node {}, but it's at {} V", row.t, self.nodes[n], v[n]));
            }
        }
        // What the elimination leaves of one row is off by the roundoff of the
        // biggest of them: a capacitor is a lot of siemens in a very short step
        let biggest = (1..nn).fold(imax, |a: f64, n| a.max(mag[n]).max(cond[n] * v[n].abs()));
        for n in 1..nn {
            if shorts.contains(&n) {
                continue;
            }
            let mut t = tol[n] + 2e-9 * mag[n] + 4e-15 * biggest;
            if nonlinear {
                t += 2.0 * VNTOL * cond[n] + abstol + 1e-13 * imax;
            }
            if !(i[n].abs() <= t) {
                return Err(format!(
                    "at {}, the currents out of node {} add up to {:e} A, and not to 0 (within {:e}); V = {}",
                    row.t, self.nodes[n], i[n], t, v[n]));
            }
        }
        Ok(())
    }
}

/// A row of waveforms, in the order of the model
#[derive(Clone, Debug)]
pub struct Row {
    pub t: f64,
    pub v: Vec<f64>,
    pub i: Vec<f64>,
}

/// A waveform file
#[derive(Clone, Debug, Default)]
pub struct Table {
    pub names: Vec<String>,
    pub rows: Vec<Vec<f64>>,
    pub text: Vec<String>,
}

pub fn parse_table(data: &[u8]) -> Result<Table, String> {
    let text = std::str::from_utf8(data).map_err(|_| "it isn't text".to_string())?;
    if !text.ends_with('\n') {
        return Err("it doesn't end with a complete line".to_string());
    }
    let mut lines = text.lines();
    let names: Vec<String> = lines.next().unwrap_or("").split('\t').map(|s| s.to_string()).collect();
    let units: Vec<&str> = lines.next().ok_or("there's no units row")?.split('\t').collect();
    if names[0] != "Time" || units.len() != names.len() {
        return Err("the header isn't one".to_string());
    }
    for (n, u) in names.iter().zip(&units).skip(1) {
        let want = if n.starts_with("v(") { "V" } else { "A" };
        if *u != want {
            return Err(format!("the unit of {} is {}", n, u));
        }
    }
    let mut t = Table { names, ..Table::default() };
    for l in lines {
        let r: Vec<&str> = l.split('\t').collect();
        if r.len() != t.names.len() {
            return Err(format!("a row has {} columns, the header {}: {:?}", r.len(), t.names.len(), l));
        }
        let mut v = vec![];
        for x in r {
            v.push(x.trim().parse::<f64>().map_err(|_| format!("not a number: {:?} in {:?}", x, l))?);
        }
        t.rows.push(v);
        t.text.push(l.to_string());
    }
    Ok(t)
}

impl Table {
    /// Match up the columns with the model
    pub fn rows_of(&self, m: &Model) -> Result<Vec<Row>, String> {
        let mut vcol = vec![usize::MAX; m.nodes.len()];
        let mut icol = vec![usize::MAX; m.n_src];
        for (c, name) in self.names.iter().enumerate().skip(1) {
            let inner = name.get(2..name.len() - 1).unwrap_or("");
            let slot = if name.starts_with("v(") && name.ends_with(')') {
                m.nodes.iter().position(|n| n == inner).map(|i| &mut vcol[i])
            } else if name.starts_with("i(") && name.ends_with(')') {
                inner.parse::<usize>().ok().filter(|j| *j < m.n_src).map(|j| &mut icol[j])
            } else {
                None
            };
            match slot {
                None => return Err(format!("there's a column {}, but no such node or source in the circuit (which has {})",
                    name, m.nodes.join(" "))),
                Some(s) if *s != usize::MAX => return Err(format!("there is more than one column {}", name)),
                Some(s) => *s = c,
            }
        }
        if let Some(i) = vcol.iter().position(|c| *c == usize::MAX) {
            return Err(format!("there's no column for node {} (columns: {})", m.nodes[i], self.names.join(" ")));
        }
        if let Some(j) = icol.iter().position(|c| *c == usize::MAX) {
            return Err(format!("there's no column for the current of source {}", j));
        }
        Ok(self.rows.iter().map(|r| Row {
            t: r[0],
            v: vcol.iter().map(|c| r[*c]).collect(),
            i: icol.iter().map(|c| r[*c]).collect(),
        }).collect())
    }
}
