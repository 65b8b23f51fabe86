//! Symbolic engine: hash-consed polynomial terms over bounded integers, path forking by
//! deterministic re-execution, and an SMT solver that decides every undetermined branch.
use crate::big::*;
use crate::solver::{race, Proc, Res};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub c: Big,
    pub t: Vec<(u32, Big)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Atom {
    Var(String, Big, Big),
    /// floor(num / den)
    Div(Id, Id),
    /// product of two or more atoms
    Mono(Vec<u32>),
}

struct AtomInfo {
    atom: Atom,
    lo: Big,
    hi: Big,
}

#[derive(Clone, Debug)]
pub enum Dec {
    Fork { val: bool, forced: bool },
    Choice(u32),
    /// a term fixed to one value because what follows cannot be expressed: the run is no longer exhaustive
    Pin(Big),
}

pub type Model = BTreeMap<String, Big>;

pub struct Work {
    prefix: Vec<Dec>,
    model: Option<Model>,
}

/// Panic payload that ends a path; never caught by harness code.
#[derive(Debug)]
pub enum PathEnd {
    /// an assumption excludes this path
    Infeasible,
    /// a check failed (already recorded)
    Violated,
    /// unsupported operation or internal error: the run is inconclusive
    Error(String),
    /// stop requested
    Stop,
}

type Form = Vec<(u32, Big)>;

#[derive(Clone, Debug)]
enum Lit {
    Le(Form, Big),
    Ge(Form, Big),
    Eq(Form, Big),
    Ne(Form, Big),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub choices: u64,
    pub decided_interval: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_fallback: u64,
    pub solver_s: f64,
    pub slowest_s: f64,
    pub checks: u64,
    pub checks_solver_unsat: u64,
    pub labels: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.forks += o.forks;
        self.choices += o.choices;
        self.decided_interval += o.decided_interval;
        self.q_sat += o.q_sat;
        self.q_unsat += o.q_unsat;
        self.q_unknown += o.q_unknown;
        self.q_fallback += o.q_fallback;
        self.solver_s += o.solver_s;
        self.slowest_s = self.slowest_s.max(o.slowest_s);
        self.checks += o.checks;
        self.checks_solver_unsat += o.checks_solver_unsat;
        for (k, v) in &o.labels {
            *self.labels.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.reached {
            *self.reached.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.counters {
            *self.counters.entry(k.clone()).or_default() += v;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub label: String,
    pub vars: BTreeMap<String, Big>,
    pub choices: Vec<u32>,
    pub notes: Vec<String>,
    pub obs: Vec<(String, String)>,
}

#[derive(Clone)]
pub struct Config {
    pub threads: usize,
    pub budget: Duration,
    pub query_ms: u64,
    pub max_violations: usize,
    /// keep a sample trace for (roughly) every n-th finished path
    pub sample_every: u64,
    pub max_samples: usize,
    pub solver: Vec<String>,
    pub fallbacks: Vec<Vec<String>>,
    pub seed: u64,
}

impl Default for Config {
    fn default() -> Self {
        let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        Config {
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            budget: Duration::from_secs(600),
            query_ms: 100,
            max_violations: 3,
            sample_every: 50,
            max_samples: 60,
            solver: s(&["z3-new", "-in", "-smt2"]),
            fallbacks: vec![
                s(&["z3", "-in", "-smt2", "-T:20"]),
                s(&["z3-new", "-in", "-smt2", "-T:20"]),
                s(&["cvc5", "--lang=smt2", "--produce-models", "--tlimit=20000"]),
            ],
            seed: 1,
        }
    }
}

#[derive(Default)]
pub struct Report {
    pub stats: Stats,
    pub violations: Vec<Trace>,
    pub samples: Vec<Trace>,
    pub errors: Vec<String>,
    /// operations that could not be expressed and were continued with single values
    pub pins: Vec<String>,
    /// where paths ended in an error, for a replay on the unmodified build
    pub error_traces: Vec<Trace>,
    pub complete: bool,
    pub wall_s: f64,
    pub left: usize,
}

struct Shared {
    q: Mutex<(Vec<Work>, usize)>, // stack, busy workers
    cv: Condvar,
    stop: AtomicBool,
    viol: Mutex<Vec<Trace>>,
    samples: Mutex<Vec<Trace>>,
    errors: Mutex<Vec<String>>,
    pins: Mutex<Vec<String>>,
    error_traces: Mutex<Vec<Trace>>,
    finished: AtomicUsize,
    deadline: Instant,
}

pub struct Engine {
    exprs: Vec<Lin>,
    index: HashMap<Lin, Id>,
    atoms: Vec<AtomInfo>,
    atom_index: HashMap<Atom, u32>,
    siblings: HashMap<(Vec<(u32, Big)>, Big), Vec<u32>>,
    vars: HashMap<String, u32>,

    // --- current path ---
    prefix: Vec<Dec>,
    pos: usize,
    decs: Vec<Dec>,
    lits: Vec<Lit>,
    forms: HashMap<Form, (Big, Big)>,
    /// The ranges of remainders `n - d*floor(n/d)`, without constant terms, on any path.
    remainders: HashMap<Form, (Big, Big, u32)>,
    /// The floors made on this path, in order.
    seen: HashMap<u32, usize>,
    /// Floors known to equal an earlier one and a number.
    subst: HashMap<u32, (u32, Big)>,
    nes: HashSet<(Form, Big)>,
    abounds: HashMap<u32, (Big, Big)>,
    /// What `abound` says of floors, until something more is assumed.
    dbounds: std::cell::RefCell<HashMap<u32, (Big, Big)>>,
    model: Option<Model>,
    mvals: HashMap<u32, Big>,
    used_names: HashMap<String, u32>,
    in_check: Option<String>,
    notes: Vec<String>,
    obs: Vec<(String, Obs)>,
    path_vars: Vec<(String, u32)>,

    // --- solver ---
    solver: Option<Proc>,
    declared: HashSet<u32>,
    scope_open: bool,
    scope_lits: usize,
    scope_atoms: HashSet<u32>,

    pub stats: Stats,
    cfg: Config,
    shared: std::sync::Arc<Shared>,
}

#[derive(Clone)]
pub enum Obs {
    Text(String),
    Num(Id),
}

thread_local! {
    static ENG: RefCell<Option<Box<Engine>>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| {
        let mut b = e.borrow_mut();
        let eng = b
            .as_mut()
            .unwrap_or_else(|| panic!("SYMRT symbolic value outside an exploration"));
        f(eng)
    })
}
pub fn active() -> bool {
    ENG.with(|e| e.borrow().is_some())
}

pub fn end_path(e: PathEnd) -> ! {
    std::panic::panic_any(e)
}

pub fn unsupported(what: &str) -> ! {
    if std::env::var("SYM_BT").is_ok() {
        eprintln!("unsupported {what}\n{}", std::backtrace::Backtrace::force_capture());
    }
    end_path(PathEnd::Error(format!("unsupported symbolic operation: {what}")))
}

/// one value of a term, where an operation on it cannot be expressed
pub fn pin(i: Id, what: &str) -> Big {
    if std::env::var("SYM_BT").is_ok() {
        eprintln!("unsupported {what}\n{}", std::backtrace::Backtrace::force_capture());
    }
    with(|e| e.pin(i, what))
}

pub enum Cond {
    /// e <= 0
    Le(Id),
    /// e == 0
    Eq(Id),
}

impl Engine {
    fn new(cfg: Config, shared: std::sync::Arc<Shared>) -> Self {
        Engine {
            exprs: vec![],
            index: HashMap::new(),
            atoms: vec![],
            atom_index: HashMap::new(),
            siblings: HashMap::new(),
            vars: HashMap::new(),
            prefix: vec![],
            pos: 0,
            decs: vec![],
            lits: vec![],
            forms: HashMap::new(),
            remainders: HashMap::new(),
            seen: HashMap::new(),
            subst: HashMap::new(),
            nes: HashSet::new(),
            abounds: HashMap::new(),
            dbounds: Default::default(),
            model: None,
            mvals: HashMap::new(),
            used_names: HashMap::new(),
            in_check: None,
            notes: vec![],
            obs: vec![],
            path_vars: vec![],
            solver: None,
            declared: HashSet::new(),
            scope_open: false,
            scope_lits: 0,
            scope_atoms: HashSet::new(),
            stats: Stats::default(),
            cfg,
            shared,
        }
    }

    // ---------- terms ----------
    pub fn intern(&mut self, l: Lin) -> Id {
        if let Some(i) = self.index.get(&l) {
            return *i;
        }
        let id = self.exprs.len() as Id;
        self.exprs.push(l.clone());
        self.index.insert(l, id);
        id
    }
    pub fn konst(&mut self, v: Big) -> Id {
        self.intern(Lin { c: v, t: vec![] })
    }
    pub fn lin(&self, i: Id) -> &Lin {
        &self.exprs[i as usize]
    }
    pub fn as_const(&self, i: Id) -> Option<Big> {
        let l = &self.exprs[i as usize];
        if l.t.is_empty() {
            Some(l.c)
        } else {
            None
        }
    }
    fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.atom_index.get(&a) {
            return *i;
        }
        let (lo, hi) = match &a {
            Atom::Var(_, lo, hi) => (*lo, *hi),
            Atom::Div(n, d) => {
                let (nl, nh) = self.interval_global(*n);
                match self.as_const(*d) {
                    Some(dc) => (fdiv(nl, dc), fdiv(nh, dc)),
                    None => {
                        // den >= 1 on this path
                        let (_dl, dh) = self.interval_global(*d);
                        let dh = dh.max(Big::ONE);
                        let cands = [fdiv(nl, dh), nl, fdiv(nh, dh), nh];
                        (
                            cands.iter().copied().min().unwrap(),
                            cands.iter().copied().max().unwrap(),
                        )
                    }
                }
            }
            Atom::Mono(v) => {
                let mut lo = Big::ONE;
                let mut hi = Big::ONE;
                for x in v {
                    let (l, h) = (self.atoms[*x as usize].lo, self.atoms[*x as usize].hi);
                    let c = [mul(lo, l), mul(lo, h), mul(hi, l), mul(hi, h)];
                    lo = c.iter().copied().min().unwrap();
                    hi = c.iter().copied().max().unwrap();
                }
                (lo, hi)
            }
        };
        let id = self.atoms.len() as u32;
        self.atoms.push(AtomInfo {
            atom: a.clone(),
            lo,
            hi,
        });
        self.atom_index.insert(a, id);
        if let Some((k, _)) = self.sibling_key(id) {
            self.siblings.entry(k).or_default().push(id);
        }
        id
    }
    /// (numerator without its constant, divisor) and the constant, for a division by a constant
    fn sibling_key(&self, a: u32) -> Option<((Vec<(u32, Big)>, Big), Big)> {
        match &self.atoms[a as usize].atom {
            Atom::Div(n, d) => {
                let d = self.as_const(*d)?;
                let l = self.lin(*n);
                Some(((l.t.clone(), d), l.c))
            }
            _ => None,
        }
    }
    fn of_atom(&mut self, a: u32) -> Id {
        self.intern(Lin {
            c: Big::ZERO,
            t: vec![(a, Big::ONE)],
        })
    }
    /// a*x + b*y
    fn comb(&mut self, a: Id, x: Big, b: Id, y: Big) -> Id {
        let la = &self.exprs[a as usize];
        let lb = &self.exprs[b as usize];
        let mut t = Vec::with_capacity(la.t.len() + lb.t.len());
        let (mut i, mut j) = (0, 0);
        while i < la.t.len() || j < lb.t.len() {
            if j >= lb.t.len() || (i < la.t.len() && la.t[i].0 < lb.t[j].0) {
                t.push((la.t[i].0, mul(la.t[i].1, x)));
                i += 1;
            } else if i >= la.t.len() || lb.t[j].0 < la.t[i].0 {
                t.push((lb.t[j].0, mul(lb.t[j].1, y)));
                j += 1;
            } else {
                let s = add(mul(la.t[i].1, x), mul(lb.t[j].1, y));
                if s != Big::ZERO {
                    t.push((la.t[i].0, s));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|(_, k)| *k != Big::ZERO);
        let c = add(mul(la.c, x), mul(lb.c, y));
        self.intern(Lin { c, t })
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        self.comb(a, Big::ONE, b, Big::ONE)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        self.comb(a, Big::ONE, b, -Big::ONE)
    }
    pub fn scale(&mut self, a: Id, k: Big) -> Id {
        let z = self.konst(Big::ZERO);
        self.comb(a, k, z, Big::ONE)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let Some(k) = self.as_const(a) {
            return self.scale(b, k);
        }
        if let Some(k) = self.as_const(b) {
            return self.scale(a, k);
        }
        let la = self.exprs[a as usize].clone();
        let lb = self.exprs[b as usize].clone();
        let mut acc: BTreeMap<u32, Big> = BTreeMap::new();
        let mut cst = Big::ZERO;
        let terms = |l: &Lin| {
            let mut v: Vec<(Option<u32>, Big)> = l.t.iter().map(|(a, k)| (Some(*a), *k)).collect();
            if l.c != Big::ZERO {
                v.push((None, l.c));
            }
            v
        };
        for (x, kx) in terms(&la) {
            for (y, ky) in terms(&lb) {
                let k = mul(kx, ky);
                match (x, y) {
                    (None, None) => cst = add(cst, k),
                    (Some(v), None) | (None, Some(v)) => {
                        let e = acc.entry(v).or_insert(Big::ZERO);
                        *e = add(*e, k);
                    }
                    (Some(v), Some(w)) => {
                        let mut m = vec![];
                        for z in [v, w] {
                            match &self.atoms[z as usize].atom {
                                Atom::Mono(f) => m.extend(f.iter().copied()),
                                _ => m.push(z),
                            }
                        }
                        m.sort();
                        let at = self.atom(Atom::Mono(m));
                        let e = acc.entry(at).or_insert(Big::ZERO);
                        *e = add(*e, k);
                    }
                }
            }
        }
        let t = acc.into_iter().filter(|(_, k)| *k != Big::ZERO).collect();
        self.intern(Lin { c: cst, t })
    }
    /// floor(a / b); the caller has established b > 0 on this path
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(fdiv(x, y));
        }
        if let Some(d0) = self.as_const(b) {
            let mut d = d0;
            if d == Big::ONE {
                return a;
            }
            let l = self.known(&self.exprs[a as usize]).unwrap_or_else(|| self.exprs[a as usize].clone());
            // split off the exactly divisible part
            let mut q: Vec<(u32, Big)> = vec![];
            let mut r: Vec<(u32, Big)> = vec![];
            for (at, k) in &l.t {
                let f = fdiv(*k, d);
                let rem = sub(*k, mul(f, d));
                if rem == Big::ZERO {
                    q.push((*at, f));
                } else {
                    r.push((*at, *k));
                }
            }
            let cq = fdiv(l.c, d);
            let mut cr = sub(l.c, mul(cq, d));
            let base = self.intern(Lin { c: cq, t: q });
            if r.is_empty() {
                return base; // 0 <= cr < d
            }
            // reduce by the common factor
            let mut g = d;
            for (_, k) in &r {
                g = gcd(g, *k);
            }
            if g != Big::ONE {
                d = d / g;
                cr = fdiv(cr, g);
                for x in r.iter_mut() {
                    x.1 = x.1 / g;
                }
            }
            let mut base = base;
            let mut down = true; // the result is base + floor((r + cr)/d), or base - floor((r + cr)/d)
            // one form for floors and ceilings: floor((c - S)/d) = -floor((S - c + d - 1)/d)
            let flip = |r: &mut Vec<(u32, Big)>, cr: &mut Big, down: &mut bool| {
                if r[0].1 < Big::ZERO {
                    for x in r.iter_mut() {
                        x.1 = -x.1;
                    }
                    *cr = sub(sub(d, Big::ONE), *cr);
                    *down = !*down;
                }
            };
            flip(&mut r, &mut cr, &mut down);
            // floor((floor(x/m) + c)/d) = floor((x + c*m)/(m*d))
            if r.len() == 1 && r[0].1 == Big::ONE {
                if let Some((n, mc)) = self.const_div(&r) {
                    let k = self.konst(mul(cr, mc));
                    let num = self.add(n, k);
                    let den = self.konst(mul(mc, d));
                    let inner = self.div(num, den);
                    return if down { self.add(base, inner) } else { self.sub(base, inner) };
                }
            }
            // there and back: k*floor(N/m) = (k/m)*N less a remainder, and d divides (k/m)*N
            let mut more: Vec<(u32, Big)> = vec![];
            for (at, k) in &r {
                let Some((n, m)) = self.const_div(&[(*at, Big::ONE)]) else { continue };
                let j = fdiv(*k, m);
                if mul(j, m) == *k && self.exprs[n as usize].t.iter().all(|x| mul(fdiv(mul(x.1, j), d), d) == mul(x.1, j)) {
                    more.extend(self.exprs[n as usize].t.iter().map(|x| (x.0, mul(x.1, j))));
                }
            }
            if !more.is_empty() {
                let whole = Self::gather(more.iter().map(|x| (x.0, fdiv(x.1, d))));
                let whole = self.intern(Lin { c: Big::ZERO, t: whole });
                base = if down { self.add(base, whole) } else { self.sub(base, whole) };
                r = Self::gather(r.into_iter().chain(more.into_iter().map(|x| (x.0, -x.1))));
                flip(&mut r, &mut cr, &mut down);
            }
            let num = self.intern(Lin { c: cr, t: r });
            let (lo, hi) = self.interval(num);
            if fdiv(lo, d) == fdiv(hi, d) {
                let k = self.konst(fdiv(lo, d));
                return if down { self.add(base, k) } else { self.sub(base, k) };
            }
            let den = self.konst(d);
            let at = self.atom(Atom::Div(num, den));
            let rem = self.remainder(at, d);
            if rem[0].1 > Big::ZERO {
                self.remainders.insert(rem, (-cr, sub(sub(d, Big::ONE), cr), at));
            }
            let x = match self.known_floor(at) {
                Some((y, k)) => {
                    let (y, k) = (self.of_atom(y), self.konst(k));
                    self.add(y, k)
                }
                None => self.of_atom(at),
            };
            return if down { self.add(base, x) } else { self.sub(base, x) };
        }
        let at = self.atom(Atom::Div(a, b));
        self.of_atom(at)
    }

    /// `n - d*floor(n/d)` without the constant term
    fn remainder(&self, at: u32, d: Big) -> Form {
        let Atom::Div(n, _) = self.atoms[at as usize].atom else { unreachable!() };
        let mut f = self.exprs[n as usize].t.clone();
        f.push((at, -d));
        f.sort_by_key(|x| x.0);
        f
    }
    /// A floor made now: the earlier one, of the same quotient less a number, it is known to differ from by a number.
    fn known_floor(&mut self, at: u32) -> Option<(u32, Big)> {
        if let Some(r) = self.subst.get(&at) {
            return Some(*r);
        }
        let n = self.seen.len();
        if *self.seen.entry(at).or_insert(n) != n {
            return None;
        }
        let (key, c) = self.sibling_key(at)?;
        let mut all: Vec<u32> = self.siblings.get(&key)?.iter().copied().filter(|b| *b != at && self.seen.contains_key(b)).collect();
        all.sort_by_key(|b| self.seen[b]);
        for b in all {
            let f = self.remainder(b, key.1);
            let Some((lo, hi)) = self.forms.get(&f) else { continue };
            // at = b + floor((f + c)/d)
            let (x, y) = (fdiv(add(*lo, c), key.1), fdiv(add(*hi, c), key.1));
            if x == y {
                let (b, k) = self.subst.get(&b).map_or((b, x), |(e, k)| (*e, add(*k, x)));
                self.equate(at, b, k);
                return Some((b, k));
            }
        }
        None
    }
    /// From here on `a` is `b + k`.
    fn equate(&mut self, a: u32, b: u32, k: Big) {
        let (lo, hi) = self.abound(a);
        let (bl, bh) = self.abound(b);
        self.abounds.insert(b, (bl.max(sub(lo, k)), bh.min(sub(hi, k))));
        for v in self.subst.values_mut().filter(|v| v.0 == a) {
            *v = (b, add(v.1, k));
        }
        self.subst.insert(a, (b, k));
        self.dbounds.get_mut().clear();
    }
    /// Something was learnt of the remainder of a floor: it may now be known to differ from another one of the same
    /// quotient by a number.
    fn relate(&mut self, f: &Form) {
        let Some((_, _, y)) = self.remainders.get(f).copied() else { return };
        let Some((lo, hi)) = self.forms.get(f).copied() else { return };
        let Some((key, _)) = self.sibling_key(y) else { return };
        let Some(sy) = self.seen.get(&y).copied() else { return };
        let mut all: Vec<(usize, u32)> = self.siblings.get(&key).into_iter().flatten().filter_map(|b| Some((*self.seen.get(b)?, *b))).filter(|b| b.1 != y).collect();
        all.sort();
        for (sb, b) in all {
            let (_, c) = self.sibling_key(b).unwrap();
            let (x, z) = (fdiv(add(lo, c), key.1), fdiv(add(hi, c), key.1));
            if x != z {
                continue;
            }
            // b = y + x
            let (newer, older, k) = if sb > sy { (b, y, x) } else { (y, b, -x) };
            if self.subst.contains_key(&newer) {
                continue;
            }
            let (older, k) = self.subst.get(&older).map_or((older, k), |(e, j)| (*e, add(*j, k)));
            if older != newer {
                self.equate(newer, older, k);
            }
        }
    }
    /// The same number with every floor that is known by an earlier one replaced, if there is any.
    fn known(&self, l: &Lin) -> Option<Lin> {
        if self.subst.is_empty() || !l.t.iter().any(|x| self.subst.contains_key(&x.0)) {
            return None;
        }
        let mut c = l.c;
        let t = Self::gather(l.t.iter().map(|(a, q)| match self.subst.get(a) {
            Some((b, k)) => {
                c = add(c, mul(*q, *k));
                (*b, *q)
            }
            None => (*a, *q),
        }));
        Some(Lin { c, t })
    }
    /// Terms by atom, without those that cancel.
    fn gather(t: impl Iterator<Item = (u32, Big)>) -> Form {
        let mut m: BTreeMap<u32, Big> = BTreeMap::new();
        for (a, k) in t {
            let x = m.entry(a).or_insert(Big::ZERO);
            *x = add(*x, k);
        }
        m.into_iter().filter(|x| x.1 != Big::ZERO).collect()
    }
    fn interval_global(&self, i: Id) -> (Big, Big) {
        let l = &self.exprs[i as usize];
        let (mut lo, mut hi) = (l.c, l.c);
        for (a, k) in &l.t {
            let ai = &self.atoms[*a as usize];
            let (x, y) = (mul(*k, ai.lo), mul(*k, ai.hi));
            lo = add(lo, x.min(y));
            hi = add(hi, x.max(y));
        }
        (lo, hi)
    }
    fn abound(&self, a: u32) -> (Big, Big) {
        let ai = &self.atoms[a as usize];
        let (mut lo, mut hi) = (ai.lo, ai.hi);
        if let Some((l, h)) = self.abounds.get(&a) {
            lo = lo.max(*l);
            hi = hi.min(*h);
        }
        if let Atom::Div(n, d) = &ai.atom {
            if let Some(d) = self.as_const(*d) {
                let known = self.dbounds.borrow().get(&a).copied();
                let (l, h) = known.unwrap_or_else(|| {
                    let (l, h) = self.interval(*n);
                    let r = (fdiv(l, d), fdiv(h, d));
                    self.dbounds.borrow_mut().insert(a, r);
                    r
                });
                lo = lo.max(l);
                hi = hi.min(h);
            }
        }
        (lo, hi)
    }
    fn interval_form(&self, f: &Form) -> (Big, Big) {
        let (mut lo, mut hi) = (Big::ZERO, Big::ZERO);
        for (a, k) in f {
            let (al, ah) = self.abound(*a);
            let (x, y) = (mul(*k, al), mul(*k, ah));
            lo = add(lo, x.min(y));
            hi = add(hi, x.max(y));
        }
        if let Some((l, h)) = self.forms.get(f) {
            lo = lo.max(*l);
            hi = hi.min(*h);
        }
        if let Some((l, h, _)) = self.remainders.get(f) {
            lo = lo.max(*l);
            hi = hi.min(*h);
        }
        (lo, hi)
    }
    pub fn interval(&self, i: Id) -> (Big, Big) {
        let l = &self.exprs[i as usize];
        let (mut x, mut y) = self.interval_form(&l.t);
        if l.t.len() > 1 {
            // what is known is known of primitive forms
            let (sg, f) = Self::primitive(l);
            if sg != Big::ONE {
                let (p, q) = self.interval_form(&f);
                let (p, q) = (mul(sg, p), mul(sg, q));
                x = x.max(p.min(q));
                y = y.min(p.max(q));
            }
        }
        (add(l.c, x), add(l.c, y))
    }

    // ---------- model ----------
    fn var_default(&self, lo: Big, _hi: Big) -> Big {
        lo
    }
    fn eval_atom(&mut self, a: u32) -> Big {
        if let Some(v) = self.mvals.get(&a) {
            return *v;
        }
        let at = self.atoms[a as usize].atom.clone();
        let v = match at {
            Atom::Var(n, lo, hi) => match self.model.as_ref().and_then(|m| m.get(&n)) {
                Some(v) if *v >= lo && *v <= hi => *v,
                _ => self.var_default(lo, hi),
            },
            Atom::Div(n, d) => {
                let n = self.eval(n);
                let d = self.eval(d);
                if d <= Big::ZERO {
                    Big::ZERO
                } else {
                    fdiv(n, d)
                }
            }
            Atom::Mono(v) => {
                let mut p = Big::ONE;
                for x in v {
                    p = mul(p, self.eval_atom(x));
                }
                p
            }
        };
        self.mvals.insert(a, v);
        v
    }
    pub fn eval(&mut self, i: Id) -> Big {
        let l = self.exprs[i as usize].clone();
        let mut s = l.c;
        for (a, k) in l.t {
            let v = self.eval_atom(a);
            s = add(s, mul(k, v));
        }
        s
    }
    fn eval_lit(&mut self, l: &Lit) -> bool {
        let (f, k) = match l {
            Lit::Le(f, k) | Lit::Ge(f, k) | Lit::Eq(f, k) | Lit::Ne(f, k) => (f, *k),
        };
        let mut s = Big::ZERO;
        for (a, c) in f {
            let v = self.eval_atom(*a);
            s = add(s, mul(*c, v));
        }
        match l {
            Lit::Le(..) => s <= k,
            Lit::Ge(..) => s >= k,
            Lit::Eq(..) => s == k,
            Lit::Ne(..) => s != k,
        }
    }
    fn set_model(&mut self, m: Option<Model>) {
        self.model = m;
        self.mvals.clear();
    }

    // ---------- literals ----------
    /// Normalises to a literal over a primitive form, or a constant truth value.
    fn literal(&self, c: &Cond) -> Result<(Lit, Lit), bool> {
        let (Cond::Le(i) | Cond::Eq(i)) = c;
        let l = &self.exprs[*i as usize];
        let k = self.known(l);
        let l = k.as_ref().unwrap_or(l);
        match c {
            Cond::Le(_) => self.literal_le(l),
            Cond::Eq(_) => self.literal_eq(l),
        }
    }
    /// The common factor of the coefficients, with the sign of the first, and the primitive form.
    fn primitive(l: &Lin) -> (Big, Form) {
        let mut g = Big::ZERO;
        for (_, k) in &l.t {
            g = gcd(g, *k);
        }
        let sg = if l.t[0].1 < Big::ZERO { -g } else { g };
        (sg, l.t.iter().map(|(a, k)| (*a, *k / sg)).collect())
    }
    fn literal_eq(&self, l: &Lin) -> Result<(Lit, Lit), bool> {
        if l.t.is_empty() {
            return Err(l.c == Big::ZERO);
        }
        let (sg, f) = Self::primitive(l);
        let k = -l.c / sg;
        if mul(k, sg) != -l.c {
            return Err(false);
        }
        Ok((Lit::Eq(f.clone(), k), Lit::Ne(f, k)))
    }
    fn literal_le(&self, l: &Lin) -> Result<(Lit, Lit), bool> {
        if l.t.is_empty() {
            return Err(l.c <= Big::ZERO);
        }
        let (sg, f) = Self::primitive(l);
        // sg*F + c <= 0
        let (neg, k) = if sg < Big::ZERO {
            (true, cdiv(l.c, -sg)) // F >= ceil(c/g)
        } else {
            (false, fdiv(-l.c, sg)) // F <= floor(-c/g)
        };
        // floor(n/d) <= k  iff  n <= d*k + d - 1;  floor(n/d) >= k  iff  n >= d*k
        if let Some((n, d)) = self.const_div(&f) {
            let mut m = self.lin(n).clone();
            if neg {
                m.c = sub(m.c, mul(d, k));
                m.c = sub(Big::ZERO, m.c);
                for x in m.t.iter_mut() {
                    x.1 = sub(Big::ZERO, x.1);
                }
            } else {
                m.c = sub(m.c, sub(mul(d, add(k, Big::ONE)), Big::ONE));
            }
            return self.literal_le(&m);
        }
        if neg {
            Ok((Lit::Ge(f.clone(), k), Lit::Le(f, sub(k, Big::ONE))))
        } else {
            Ok((Lit::Le(f.clone(), k), Lit::Ge(f, add(k, Big::ONE))))
        }
    }
    /// The form of one floor of a quotient by a constant.
    fn const_div(&self, f: &[(u32, Big)]) -> Option<(Id, Big)> {
        if f.len() != 1 || f[0].1 != Big::ONE {
            return None;
        }
        match &self.atoms[f[0].0 as usize].atom {
            Atom::Div(n, d) => Some((*n, self.as_const(*d)?)),
            _ => None,
        }
    }
    fn quick(&self, l: &Lit) -> Option<bool> {
        let (f, k) = match l {
            Lit::Le(f, k) | Lit::Ge(f, k) | Lit::Eq(f, k) | Lit::Ne(f, k) => (f, *k),
        };
        let (lo, hi) = self.interval_form(f);
        match l {
            Lit::Le(..) => {
                if hi <= k {
                    Some(true)
                } else if lo > k {
                    Some(false)
                } else {
                    None
                }
            }
            Lit::Ge(..) => {
                if lo >= k {
                    Some(true)
                } else if hi < k {
                    Some(false)
                } else {
                    None
                }
            }
            Lit::Eq(..) | Lit::Ne(..) => {
                let eq = if lo > k || hi < k || self.nes.contains(&(f.clone(), k)) {
                    Some(false)
                } else if lo == hi && lo == k {
                    Some(true)
                } else {
                    None
                };
                eq.map(|e| if matches!(l, Lit::Eq(..)) { e } else { !e })
            }
        }
    }
    /// The same literal, given what is known of its form, with an equation where it amounts to one.
    fn tight(&self, l: Lit) -> Lit {
        match l {
            Lit::Le(f, k) => {
                if self.interval_form(&f).0 == k {
                    Lit::Eq(f, k)
                } else {
                    Lit::Le(f, k)
                }
            }
            Lit::Ge(f, k) => {
                if self.interval_form(&f).1 == k {
                    Lit::Eq(f, k)
                } else {
                    Lit::Ge(f, k)
                }
            }
            Lit::Ne(f, k) => {
                let (lo, hi) = self.interval_form(&f);
                if lo == k {
                    Lit::Ge(f, add(k, Big::ONE))
                } else if hi == k {
                    Lit::Le(f, sub(k, Big::ONE))
                } else {
                    Lit::Ne(f, k)
                }
            }
            l => l,
        }
    }
    fn assume_lit(&mut self, l: Lit) {
        let (f, k) = match &l {
            Lit::Le(f, k) | Lit::Ge(f, k) | Lit::Eq(f, k) | Lit::Ne(f, k) => (f.clone(), *k),
        };
        let (mut lo, mut hi) = self.interval_form(&f);
        match &l {
            Lit::Le(..) => hi = hi.min(k),
            Lit::Ge(..) => lo = lo.max(k),
            Lit::Eq(..) => {
                lo = k;
                hi = k;
            }
            Lit::Ne(..) => {
                self.nes.insert((f.clone(), k));
            }
        }
        while self.nes.contains(&(f.clone(), lo)) {
            lo = add(lo, Big::ONE);
        }
        while self.nes.contains(&(f.clone(), hi)) {
            hi = sub(hi, Big::ONE);
        }
        if f.len() == 1 && f[0].1 == Big::ONE {
            self.abounds.insert(f[0].0, (lo, hi));
        }
        if let Some((n, d)) = self.const_div(&f) {
            // what is known of a floor is known of its numerator
            let m = self.lin(n).clone();
            if !m.t.is_empty() {
                let (sg, g) = Self::primitive(&m);
                // d*lo <= sg*G + c <= d*hi + d - 1
                let (x, y) = (sub(mul(d, lo), m.c), sub(sub(mul(d, add(hi, Big::ONE)), Big::ONE), m.c));
                let (x, y) = if sg > Big::ZERO { (cdiv(x, sg), fdiv(y, sg)) } else { (cdiv(-y, -sg), fdiv(-x, -sg)) };
                let (gl, gh) = self.interval_form(&g);
                let (x, y) = (x.max(gl), y.min(gh));
                if g.len() == 1 {
                    self.abounds.insert(g[0].0, (x, y));
                }
                self.forms.insert(g.clone(), (x, y));
                self.relate(&g);
            }
        }
        self.forms.insert(f.clone(), (lo, hi));
        self.dbounds.get_mut().clear();
        self.lits.push(l);
        self.relate(&f);
    }

    // ---------- solver ----------
    fn smt_lin(l: &Lin, out: &mut String) {
        let n = l.t.len() + if l.c != Big::ZERO { 1 } else { 0 };
        if n == 0 {
            out.push('0');
            return;
        }
        if n > 1 {
            out.push_str("(+ ");
        }
        for (i, (a, k)) in l.t.iter().enumerate() {
            if i > 0 {
                out.push(' ');
            }
            if *k == Big::ONE {
                write!(out, "v{a}").unwrap();
            } else {
                out.push_str("(* ");
                smt(*k, out);
                write!(out, " v{a})").unwrap();
            }
        }
        if l.c != Big::ZERO {
            if !l.t.is_empty() {
                out.push(' ');
            }
            smt(l.c, out);
        }
        if n > 1 {
            out.push(')');
        }
    }
    fn smt_lit(l: &Lit, out: &mut String) {
        let (f, k) = match l {
            Lit::Le(f, k) | Lit::Ge(f, k) | Lit::Eq(f, k) | Lit::Ne(f, k) => (f, *k),
        };
        let op = match l {
            Lit::Le(..) => "(<= ",
            Lit::Ge(..) => "(>= ",
            Lit::Eq(..) => "(= ",
            Lit::Ne(..) => "(not (= ",
        };
        out.push_str(op);
        Self::smt_lin(
            &Lin {
                c: Big::ZERO,
                t: f.clone(),
            },
            out,
        );
        out.push(' ');
        smt(k, out);
        out.push(')');
        if matches!(l, Lit::Ne(..)) {
            out.push(')');
        }
    }
    /// Emits declarations, bounds and definitions for every atom reachable from `form`.
    fn need_atoms(
        &self,
        atoms: &mut Vec<u32>,
        declared: &mut HashSet<u32>,
        scope: &mut HashSet<u32>,
        out: &mut String,
    ) {
        while let Some(a) = atoms.pop() {
            if !scope.insert(a) {
                continue;
            }
            if declared.insert(a) {
                writeln!(out, "(declare-const v{a} Int)").unwrap();
            }
            let ai = &self.atoms[a as usize];
            let mut d = String::new();
            let mut dep: Vec<u32> = vec![];
            match &ai.atom {
                Atom::Var(_, lo, hi) => {
                    d.push_str("(assert (and (<= ");
                    smt(*lo, &mut d);
                    write!(d, " v{a}) (<= v{a} ").unwrap();
                    smt(*hi, &mut d);
                    d.push_str(")))\n");
                }
                Atom::Div(n, den) => {
                    let ln = self.lin(*n).clone();
                    let ld = self.lin(*den).clone();
                    dep.extend(ln.t.iter().map(|x| x.0));
                    dep.extend(ld.t.iter().map(|x| x.0));
                    let mut ns = String::new();
                    Self::smt_lin(&ln, &mut ns);
                    let mut ds = String::new();
                    Self::smt_lin(&ld, &mut ds);
                    // den*v <= num < den*v + den
                    write!(
                        d,
                        "(assert (and (<= (* {ds} v{a}) {ns}) (< {ns} (+ (* {ds} v{a}) {ds}))))\n"
                    )
                    .unwrap();
                }
                Atom::Mono(v) => {
                    dep.extend(v.iter().copied());
                    write!(d, "(assert (= v{a} (*").unwrap();
                    for x in v {
                        write!(d, " v{x}").unwrap();
                    }
                    d.push_str(")))\n");
                    // interval facts help non-linear reasoning
                    d.push_str("(assert (and (<= ");
                    smt(ai.lo, &mut d);
                    write!(d, " v{a}) (<= v{a} ").unwrap();
                    smt(ai.hi, &mut d);
                    d.push_str(")))\n");
                }
            }
            // dependencies must be declared before the definition is sent
            for x in &dep {
                if declared.insert(*x) {
                    writeln!(out, "(declare-const v{x} Int)").unwrap();
                }
            }
            out.push_str(&d);
            // floors of the same quotient with different offsets differ by at most one
            if let Some((k, c)) = self.sibling_key(a) {
                debug_assert!(c >= Big::ZERO && c < k.1);
                for b in self.siblings.get(&k).into_iter().flatten() {
                    let (_, cb) = self.sibling_key(*b).unwrap();
                    if *b != a && scope.contains(b) && sub(c.max(cb), c.min(cb)) <= k.1 {
                        let (x, y) = if c < cb { (a, *b) } else { (*b, a) };
                        writeln!(out, "(assert (and (<= v{x} v{y}) (<= v{y} (+ v{x} 1))))").unwrap();
                    }
                }
            }
            atoms.extend(dep);
        }
    }
    fn lit_atoms(l: &Lit) -> Vec<u32> {
        match l {
            Lit::Le(f, _) | Lit::Ge(f, _) | Lit::Eq(f, _) | Lit::Ne(f, _) => {
                f.iter().map(|x| x.0).collect()
            }
        }
    }
    fn model_vars(scope: &HashSet<u32>, atoms: &[AtomInfo]) -> (Vec<String>, Vec<u32>) {
        let mut n = vec![];
        let mut ids = vec![];
        for a in scope {
            if let Atom::Var(..) = &atoms[*a as usize].atom {
                n.push(format!("v{a}"));
                ids.push(*a);
            }
        }
        (n, ids)
    }
    fn read_model(&self, vals: Vec<(String, Big)>) -> Model {
        let mut m = self.model.clone().unwrap_or_default();
        for (n, v) in vals {
            let a: u32 = n[1..].parse().unwrap();
            if let Atom::Var(name, ..) = &self.atoms[a as usize].atom {
                m.insert(name.clone(), v);
            }
        }
        m
    }
    fn query(&mut self, extra: Option<&Lit>) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        let mut r = self.query_live(extra);
        if matches!(r.0, Res::Unknown(_)) {
            self.stats.q_fallback += 1;
            r = self.query_oneshot(extra);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if dt > self.stats.slowest_s {
            self.stats.slowest_s = dt;
            if dt > 1.0 {
                if let Ok(d) = std::env::var("SYM_DUMP_SLOW") {
                    let _ = std::fs::write(
                        format!("{d}/slow_{:.1}.smt2", dt),
                        self.script(extra).0,
                    );
                }
            }
        }
        match &r.0 {
            Res::Sat => self.stats.q_sat += 1,
            Res::Unsat => self.stats.q_unsat += 1,
            Res::Unknown(_) => self.stats.q_unknown += 1,
        }
        r
    }
    fn query_live(&mut self, extra: Option<&Lit>) -> (Res, Option<Model>) {
        if self.solver.is_none() {
            let mut p = Proc::start(&self.cfg.solver);
            p.send(&format!(
                "(set-option :global-declarations true)\n(set-option :timeout {})\n",
                self.cfg.query_ms
            ));
            self.solver = Some(p);
            self.declared.clear();
            self.scope_open = false;
        }
        let mut out = String::new();
        if !self.scope_open {
            out.push_str("(push 1)\n");
            self.scope_open = true;
            self.scope_lits = 0;
            self.scope_atoms.clear();
        }
        let mut declared = std::mem::take(&mut self.declared);
        let mut scope = std::mem::take(&mut self.scope_atoms);
        for i in self.scope_lits..self.lits.len() {
            let l = &self.lits[i];
            let mut at = Self::lit_atoms(l);
            self.need_atoms(&mut at, &mut declared, &mut scope, &mut out);
            out.push_str("(assert ");
            Self::smt_lit(l, &mut out);
            out.push_str(")\n");
        }
        self.scope_lits = self.lits.len();
        if let Some(l) = extra {
            let mut at = Self::lit_atoms(l);
            self.need_atoms(&mut at, &mut declared, &mut scope, &mut out);
            out.push_str("(push 1)\n(assert ");
            Self::smt_lit(l, &mut out);
            out.push_str(")\n");
        }
        self.declared = declared;
        self.scope_atoms = scope;
        let (names, _) = Self::model_vars(&self.scope_atoms, &self.atoms);
        let s = self.solver.as_mut().unwrap();
        s.send(&out);
        let res = s.check();
        let mut vals = None;
        if res == Res::Sat {
            vals = s.values(&names);
        }
        if extra.is_some() {
            s.send("(pop 1)\n");
        }
        match res {
            Res::Sat => match vals {
                Some(v) => {
                    let m = self.read_model(v);
                    (Res::Sat, Some(m))
                }
                None => {
                    self.solver = None;
                    (Res::Unknown("no model".into()), None)
                }
            },
            Res::Unknown(ref w) => {
                if w != "unknown" && w != "timeout" {
                    self.solver = None; // broken pipe or error: start afresh
                }
                (res, None)
            }
            Res::Unsat => (res, None),
        }
    }
    /// A stand-alone script with the path condition (and one more literal).
    fn script(&self, extra: Option<&Lit>) -> (String, HashSet<u32>) {
        let mut out = String::from("(set-logic ALL)\n");
        let mut declared = HashSet::new();
        let mut scope = HashSet::new();
        for l in self.lits.iter().chain(extra) {
            let mut at = Self::lit_atoms(l);
            self.need_atoms(&mut at, &mut declared, &mut scope, &mut out);
            out.push_str("(assert ");
            Self::smt_lit(l, &mut out);
            out.push_str(")\n");
        }
        (out, scope)
    }
    fn query_oneshot(&mut self, extra: Option<&Lit>) -> (Res, Option<Model>) {
        let (script, scope) = self.script(extra);
        let (names, _) = Self::model_vars(&scope, &self.atoms);
        match race(&self.cfg.fallbacks, &script, &names) {
            (Res::Sat, Some(v)) => return (Res::Sat, Some(self.read_model(v))),
            (Res::Unsat, _) => return (Res::Unsat, None),
            _ => {}
        }
        if let Ok(d) = std::env::var("SYM_DUMP_UNKNOWN") {
            let _ = std::fs::write(format!("{d}/unknown_{}.smt2", self.stats.q_unknown), script);
        }
        (Res::Unknown("all solvers".into()), None)
    }

    // ---------- forking ----------
    pub fn truth(&mut self, c: Cond) -> bool {
        let (pos, neg) = match self.literal(&c) {
            Err(b) => return b,
            Ok(p) => p,
        };
        if let Some(b) = self.quick(&pos) {
            self.stats.decided_interval += 1;
            return b;
        }
        let (pos, neg) = (self.tight(pos), self.tight(neg));
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            let v = match d {
                Dec::Fork { val, .. } => val,
                _ => end_path(PathEnd::Error("replay diverged (fork)".into())),
            };
            self.decs.push(d);
            self.assume_lit(if v { pos } else { neg });
            return v;
        }
        if self.shared.stop.load(Ordering::Relaxed) {
            end_path(PathEnd::Stop);
        }
        self.stats.forks += 1;
        let v;
        let mut forced = false;
        if self.model.is_some() {
            v = self.eval_lit(&pos);
            let other = if v { neg.clone() } else { pos.clone() };
            let (r, m) = self.query(Some(&other));
            match r {
                Res::Unsat => {
                    forced = true;
                    if self.in_check.is_some() {
                        self.stats.checks_solver_unsat += 1;
                    }
                }
                Res::Sat => self.push_work(!v, m),
                Res::Unknown(_) => self.push_work(!v, None),
            }
        } else {
            // no model known for this path: decide both sides
            let (r, m) = self.query(Some(&pos));
            let (r2, m2) = self.query(Some(&neg));
            match (&r, &r2) {
                (Res::Unsat, Res::Unsat) => end_path(PathEnd::Infeasible),
                (Res::Unsat, _) => {
                    v = false;
                    forced = true;
                    self.set_model(m2);
                }
                (_, Res::Unsat) => {
                    v = true;
                    forced = true;
                    self.set_model(m);
                }
                _ => {
                    v = true;
                    self.push_work(false, m2);
                    self.set_model(m);
                }
            }
        }
        self.decs.push(Dec::Fork { val: v, forced });
        self.pos += 1;
        self.prefix.push(Dec::Fork { val: v, forced });
        self.assume_lit(if v { pos } else { neg });
        v
    }
    fn push_work(&mut self, v: bool, m: Option<Model>) {
        let mut p = self.decs.clone();
        p.push(Dec::Fork {
            val: v,
            forced: false,
        });
        self.enqueue(Work {
            prefix: p,
            model: m,
        });
    }
    fn enqueue(&self, w: Work) {
        let mut q = self.shared.q.lock().unwrap();
        q.0.push(w);
        self.shared.cv.notify_one();
    }
    fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            self.decs.push(d.clone());
            return match d {
                Dec::Choice(k) => k,
                _ => end_path(PathEnd::Error("replay diverged (choice)".into())),
            };
        }
        if self.shared.stop.load(Ordering::Relaxed) {
            end_path(PathEnd::Stop);
        }
        self.stats.choices += 1;
        for k in (1..n).rev() {
            let mut p = self.decs.clone();
            p.push(Dec::Choice(k));
            self.enqueue(Work {
                prefix: p,
                model: self.model.clone(),
            });
        }
        self.decs.push(Dec::Choice(0));
        self.prefix.push(Dec::Choice(0));
        self.pos += 1;
        0
    }
    /// Continues with one value of a term (and, as a path of its own, one other), and records that from here on
    /// only these values are covered.
    fn pin(&mut self, i: Id, what: &str) -> Big {
        if let Some(v) = self.as_const(i) {
            return v;
        }
        let v = if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos].clone();
            self.pos += 1;
            self.decs.push(d.clone());
            match d {
                Dec::Pin(v) => v,
                _ => end_path(PathEnd::Error("replay diverged (pin)".into())),
            }
        } else {
            if self.shared.stop.load(Ordering::Relaxed) {
                end_path(PathEnd::Stop);
            }
            if self.model.is_none() {
                let (r, m) = self.query(None);
                match r {
                    Res::Sat => self.set_model(m),
                    Res::Unsat => end_path(PathEnd::Infeasible),
                    Res::Unknown(_) => end_path(PathEnd::Error(format!("unsupported symbolic operation: {what}"))),
                }
            }
            let msg = what.to_string();
            {
                let mut er = self.shared.pins.lock().unwrap();
                if er.len() < 20 && !er.contains(&msg) {
                    er.push(msg);
                }
            }
            let v = self.eval(i);
            let c = self.konst(v);
            let d = self.sub(i, c);
            if let Ok((_, neg)) = self.literal(&Cond::Eq(d)) {
                if let (Res::Sat, Some(m)) = self.query(Some(&neg)) {
                    let here = self.model.take();
                    self.set_model(Some(m));
                    let w = self.eval(i);
                    let m = self.model.take();
                    self.set_model(here);
                    let mut p = self.decs.clone();
                    p.push(Dec::Pin(w));
                    self.enqueue(Work { prefix: p, model: m });
                }
            }
            self.decs.push(Dec::Pin(v));
            self.prefix.push(Dec::Pin(v));
            self.pos += 1;
            v
        };
        let c = self.konst(v);
        let d = self.sub(i, c);
        match self.literal(&Cond::Eq(d)) {
            Ok((pos, _)) => self.assume_lit(pos),
            Err(true) => {}
            Err(false) => end_path(PathEnd::Infeasible),
        }
        v
    }
    /// Replaces term handles in a text by their value in the current model.
    pub fn expand(&mut self, t: &str) -> String {
        let mut out = String::with_capacity(t.len());
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            // a raw handle printed as a machine integer
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_digit() || b[i - 1] == b'@' || b[i - 1] == b'd')) {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j - i >= 18 {
                    let neg = i > 0 && b[i - 1] == b'-';
                    if let Some(id) = crate::prim::raw_handle(&t[i..j], neg) {
                        if neg {
                            out.pop();
                        }
                        let v = self.eval(id);
                        write!(out, "{v}").unwrap();
                        i = j;
                        continue;
                    }
                }
            }
            if b[i] == b'@' {
                let dec = i + 1 < b.len() && b[i + 1] == b'd';
                let st = i + 1 + dec as usize;
                let mut j = st;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j > st {
                    let id: Id = t[st..j].parse().unwrap();
                    let v = self.eval(id);
                    if dec {
                        let one = Big::from(1_000_000_000_000_000_000u64);
                        let w = fdiv(v, one);
                        let f = sub(v, mul(w, one));
                        write!(out, "{w}").unwrap();
                        if f != Big::ZERO {
                            let fs = format!("{f}");
                            let fs = format!("{}{}", "0".repeat(18 - fs.len()), fs);
                            write!(out, ".{}", fs.trim_end_matches('0')).unwrap();
                        }
                    } else {
                        write!(out, "{v}").unwrap();
                    }
                    i = j;
                    continue;
                }
            }
            let ch = t[i..].chars().next().unwrap();
            out.push(ch);
            i += ch.len_utf8();
        }
        out
    }
    fn trace(&mut self, label: &str) -> Trace {
        let mut vars = BTreeMap::new();
        for (n, a) in self.path_vars.clone() {
            let v = self.eval_atom(a);
            vars.insert(n, v);
        }
        let obs = self.obs.clone();
        let obs = obs
            .into_iter()
            .map(|(l, o)| {
                let s = match o {
                    Obs::Text(t) => self.expand(&t),
                    Obs::Num(i) => self.eval(i).to_string(),
                };
                (l, s)
            })
            .collect();
        Trace {
            label: label.to_string(),
            vars,
            choices: self
                .decs
                .iter()
                .filter_map(|d| match d {
                    Dec::Choice(k) => Some(*k),
                    _ => None,
                })
                .collect(),
            notes: self.notes.clone().iter().map(|n| self.expand(n)).collect(),
            obs,
        }
    }
    fn begin(&mut self, w: Work) {
        self.prefix = w.prefix;
        self.pos = 0;
        self.decs.clear();
        self.lits.clear();
        self.forms.clear();
        self.nes.clear();
        self.abounds.clear();
        self.dbounds.get_mut().clear();
        self.seen.clear();
        self.subst.clear();
        self.set_model(w.model);
        self.used_names.clear();
        self.in_check = None;
        self.notes.clear();
        self.obs.clear();
        self.path_vars.clear();
        if self.scope_open {
            if let Some(s) = self.solver.as_mut() {
                s.send("(pop 1)\n");
            }
            self.scope_open = false;
        }
        // keep memory bounded: start with a fresh arena (and solver) now and then
        if self.exprs.len() > 400_000 {
            self.exprs.clear();
            self.index.clear();
            self.atoms.clear();
            self.atom_index.clear();
            self.siblings.clear();
            self.remainders.clear();
            self.vars.clear();
            self.solver = None;
            self.declared.clear();
        }
    }
}

// ---------- API used by the wrappers and the harness runtime ----------

pub fn new_var(name: &str, lo: Big, hi: Big) -> Id {
    with(|e| {
        let n = e.used_names.entry(name.to_string()).or_insert(0);
        *n += 1;
        let nm = if *n == 1 {
            name.to_string()
        } else {
            format!("{name}#{n}")
        };
        let a = e.atom(Atom::Var(nm.clone(), lo, hi));
        e.path_vars.push((nm, a));
        e.of_atom(a)
    })
}
pub fn choose(n: u32) -> u32 {
    with(|e| e.choose(n))
}
pub fn note(s: String) {
    with(|e| e.notes.push(s))
}
pub fn observe(label: &str, o: Obs) {
    with(|e| e.obs.push((label.to_string(), o)))
}
pub fn reach(label: &str) {
    with(|e| *e.stats.reached.entry(label.to_string()).or_default() += 1)
}
pub fn count(label: &str) {
    with(|e| *e.stats.counters.entry(label.to_string()).or_default() += 1)
}
/// `e <= 0`
pub fn le0(i: Id) -> bool {
    with(|e| e.truth(Cond::Le(i)))
}
pub fn eq0(i: Id) -> bool {
    with(|e| e.truth(Cond::Eq(i)))
}
pub fn lt(a: Id, b: Id) -> bool {
    with(|e| {
        // a < b  <=>  a - b + 1 <= 0
        let d = e.sub(a, b);
        let o = e.konst(Big::ONE);
        let d = e.add(d, o);
        e.truth(Cond::Le(d))
    })
}
pub fn le(a: Id, b: Id) -> bool {
    with(|e| {
        let d = e.sub(a, b);
        e.truth(Cond::Le(d))
    })
}
pub fn eq(a: Id, b: Id) -> bool {
    if a == b {
        return true;
    }
    with(|e| {
        let d = e.sub(a, b);
        e.truth(Cond::Eq(d))
    })
}

/// Restricts the path to `cond` (a forked comparison): the other side is dropped.
pub fn assume(cond: bool) {
    if !cond {
        end_path(PathEnd::Infeasible);
    }
}

pub fn check_begin(label: &str) {
    with(|e| {
        e.in_check = Some(label.to_string());
        e.stats.checks += 1;
        *e.stats.labels.entry(label.to_string()).or_default() += 1;
    })
}
pub fn check_end(label: &str, ok: bool) {
    let bad = with(|e| {
        e.in_check = None;
        if ok {
            return None;
        }
        if e.model.is_none() {
            let (r, m) = e.query(None);
            match r {
                Res::Sat => e.set_model(m),
                Res::Unsat => return Some(PathEnd::Infeasible),
                Res::Unknown(_) => {
                    return Some(PathEnd::Error(format!(
                        "check '{label}' fails on a path the solver could not decide"
                    )))
                }
            }
        }
        let t = e.trace(label);
        let mut v = e.shared.viol.lock().unwrap();
        v.push(t);
        if v.len() >= e.cfg.max_violations {
            e.shared.stop.store(true, Ordering::Relaxed);
            e.shared.cv.notify_all();
        }
        Some(PathEnd::Violated)
    });
    if let Some(b) = bad {
        end_path(b);
    }
}

/// True if a caught panic payload belongs to the engine and must be re-raised.
pub fn is_engine_payload(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<PathEnd>()
}

pub fn explore(cfg: Config, f: &(dyn Fn() + Sync)) -> Report {
    let t0 = Instant::now();
    let shared = std::sync::Arc::new(Shared {
        q: Mutex::new((
            vec![Work {
                prefix: vec![],
                model: Some(Model::new()),
            }],
            0,
        )),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        viol: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        pins: Mutex::new(vec![]),
        error_traces: Mutex::new(vec![]),
        finished: AtomicUsize::new(0),
        deadline: t0 + cfg.budget,
    });
    let stats = Mutex::new(Stats::default());
    let verbose = std::env::var("SYM_VERBOSE").is_ok();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        if verbose {
            let shared = shared.clone();
            let done = &done;
            s.spawn(move || {
                let mut k = 0;
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(200));
                    k += 1;
                    if k % 25 == 0 {
                        let q = shared.q.lock().unwrap();
                        eprintln!(
                            "[{:.0}s] queue {} busy {} finished {}",
                            t0.elapsed().as_secs_f64(),
                            q.0.len(),
                            q.1,
                            shared.finished.load(Ordering::Relaxed)
                        );
                    }
                }
            });
        }
        let mut hs = vec![];
        for _ in 0..cfg.threads {
            let shared = shared.clone();
            let cfg = cfg.clone();
            let stats = &stats;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        ENG.with(|e| {
                            *e.borrow_mut() =
                                Some(Box::new(Engine::new(cfg.clone(), shared.clone())))
                        });
                        worker(&cfg, &shared, f);
                        let mut eng = ENG.with(|e| e.borrow_mut().take().unwrap());
                        for n in crate::hook::entered() {
                            eng.stats.counters.insert(format!("f{n}"), 1);
                        }
                        stats.lock().unwrap().merge(&eng.stats);
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            if h.join().is_err() {
                shared.errors.lock().unwrap().push("a worker thread died".into());
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let q = shared.q.lock().unwrap();
    let left = q.0.len();
    let violations = shared.viol.lock().unwrap().clone();
    let errors = shared.errors.lock().unwrap().clone();
    let pins = shared.pins.lock().unwrap().clone();
    let error_traces = shared.error_traces.lock().unwrap().clone();
    let samples = shared.samples.lock().unwrap().clone();
    let stopped = shared.stop.load(Ordering::Relaxed);
    Report {
        stats: stats.into_inner().unwrap(),
        violations,
        samples,
        errors,
        pins,
        error_traces,
        complete: left == 0 && !stopped,
        wall_s: t0.elapsed().as_secs_f64(),
        left,
    }
}

fn worker(cfg: &Config, shared: &Shared, f: &(dyn Fn() + Sync)) {
    loop {
        let w = {
            let mut q = shared.q.lock().unwrap();
            loop {
                if shared.stop.load(Ordering::Relaxed) {
                    return;
                }
                if Instant::now() > shared.deadline {
                    shared.stop.store(true, Ordering::Relaxed);
                    shared.cv.notify_all();
                    return;
                }
                if let Some(w) = q.0.pop() {
                    q.1 += 1;
                    break w;
                }
                if q.1 == 0 {
                    shared.cv.notify_all();
                    return;
                }
                q = shared.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
            }
        };
        with(|e| e.begin(w));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        with(|e| {
            e.in_check = None;
            match r {
                Ok(()) => {
                    e.stats.paths += 1;
                    let n = shared.finished.fetch_add(1, Ordering::Relaxed) as u64;
                    if n % cfg.sample_every == 0 && e.model.is_some() {
                        let t = e.trace("sample");
                        let mut s = shared.samples.lock().unwrap();
                        if s.len() < cfg.max_samples {
                            s.push(t);
                        } else {
                            // reservoir: keep a spread over the whole run
                            let k = (n.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(cfg.seed)
                                % (n / cfg.sample_every + 1)) as usize;
                            if k < s.len() {
                                s[k] = t;
                            }
                        }
                    }
                }
                Err(p) => match p.downcast_ref::<PathEnd>() {
                    Some(PathEnd::Infeasible) => e.stats.infeasible += 1,
                    Some(PathEnd::Violated) => e.stats.paths += 1,
                    Some(PathEnd::Stop) => {}
                    Some(PathEnd::Error(s)) => {
                        let mut er = shared.errors.lock().unwrap();
                        if er.len() < 20 {
                            let t = e.trace("error");
                            er.push(format!(
                                "{s} [choices {:?} notes {:?}]",
                                t.choices, t.notes
                            ));
                            shared.error_traces.lock().unwrap().push(t);
                        }
                    }
                    None => {
                        let msg = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_else(|| "?".into());
                        let mut er = shared.errors.lock().unwrap();
                        if er.len() < 20 {
                            let t = e.trace("error");
                            er.push(format!(
                                "harness panicked: {msg} [choices {:?} notes {:?}]",
                                t.choices, t.notes
                            ));
                            shared.error_traces.lock().unwrap().push(t);
                        }
                    }
                },
            }
        });
        let mut q = shared.q.lock().unwrap();
        q.1 -= 1;
        if q.1 == 0 && q.0.is_empty() {
            shared.cv.notify_all();
        }
    }
}
