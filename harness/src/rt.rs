//! Harness runtime. The same harness code runs in two builds: `symh`, where `any` introduces solver
//! variables and every comparison may fork, and `conch`, where inputs come from a recorded trace.
use cosmwasm_std::{Decimal256, Uint128, Uint256};
use std::fmt;
use std::ops::{Add, AddAssign, Mul, Neg, Sub, SubAssign};

pub type Big = bnum::BInt<12>;

#[cfg(feature = "sym")]
mod imp {
    use super::*;
    use symrt::Num;
    pub use symrt::{choose as choose_raw, note, reach};

    #[derive(Clone, Copy)]
    pub struct Z(pub symrt::Id);

    pub fn any(name: &str, lo: u128, hi: u128) -> Uint128 {
        let id = symrt::new_var(name, Big::from(lo), Big::from(hi));
        Uint128::new(u128::norm(id))
    }
    pub fn any_i64(name: &str, lo: i64, hi: i64) -> i64 {
        i64::norm(symrt::new_var(name, Big::from(lo), Big::from(hi)))
    }
    pub fn assume(c: bool) {
        symrt::assume(c)
    }
    pub fn check(label: &str, f: impl FnOnce() -> bool) {
        symrt::check_begin(label);
        let ok = f();
        symrt::check_end(label, ok);
    }
    pub fn observe(label: &str, v: impl fmt::Display) {
        symrt::observe(label, symrt::Obs::Text(v.to_string()));
    }
    pub fn is_engine(p: &(dyn std::any::Any + Send)) -> bool {
        symrt::is_engine_payload(p)
    }
    impl Z {
        pub fn c(b: Big) -> Z {
            Z(symrt::with(|e| e.konst(b)))
        }
        pub fn parse(s: &str) -> Option<Z> {
            if let Some(r) = s.strip_prefix('@') {
                return Some(Z(r.parse().ok()?));
            }
            let (neg, d) = match s.strip_prefix('-') {
                Some(d) => (true, d),
                None => (false, s),
            };
            if d.len() >= 18 {
                if let Some(i) = symrt::raw_handle(d, neg) {
                    return Some(Z(i));
                }
            }
            Some(Z::c(symrt::big::parse(s)?))
        }
        pub fn of(v: impl fmt::Display) -> Z {
            let s = v.to_string();
            Z::parse(&s).unwrap_or_else(|| panic!("not a number: {s}"))
        }
        /// value must be within 0..2^128 on every path here
        pub fn u128(self) -> Uint128 {
            Uint128::new(u128::norm(self.0))
        }
        pub fn fdiv(self, d: Z) -> Z {
            Z(symrt::with(|e| e.div(self.0, d.0)))
        }
        pub fn le(self, o: Z) -> bool {
            symrt::le(self.0, o.0)
        }
        pub fn lt(self, o: Z) -> bool {
            symrt::lt(self.0, o.0)
        }
        pub fn eq(self, o: Z) -> bool {
            symrt::eq(self.0, o.0)
        }
    }
    impl Add for Z {
        type Output = Z;
        fn add(self, o: Z) -> Z {
            Z(symrt::with(|e| e.add(self.0, o.0)))
        }
    }
    impl Sub for Z {
        type Output = Z;
        fn sub(self, o: Z) -> Z {
            Z(symrt::with(|e| e.sub(self.0, o.0)))
        }
    }
    impl Mul for Z {
        type Output = Z;
        fn mul(self, o: Z) -> Z {
            Z(symrt::with(|e| e.mul(self.0, o.0)))
        }
    }
    impl fmt::Display for Z {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match symrt::with(|e| e.as_const(self.0)) {
                Some(v) => write!(f, "{v}"),
                None => write!(f, "@{}", self.0),
            }
        }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use super::*;
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    #[derive(Default)]
    pub struct Run {
        pub choices: Vec<u32>,
        pub pos: usize,
        pub vars: BTreeMap<String, Big>,
        pub used: BTreeMap<String, u32>,
        pub obs: Vec<(String, String)>,
        pub notes: Vec<String>,
        pub checks: Vec<String>,
    }
    thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }
    pub enum End {
        Infeasible,
        Violated(String),
        Diverged(String),
    }
    fn end(e: End) -> ! {
        std::panic::panic_any(e)
    }
    #[derive(Clone, Copy)]
    pub struct Z(pub Big);

    pub fn any(name: &str, lo: u128, hi: u128) -> Uint128 {
        let v = RUN.with(|r| {
            let mut r = r.borrow_mut();
            let n = r.used.entry(name.to_string()).or_insert(0);
            *n += 1;
            let nm = if *n == 1 {
                name.to_string()
            } else {
                format!("{name}#{n}")
            };
            r.vars.get(&nm).copied().unwrap_or(Big::from(lo))
        });
        let u = u128::try_from(v).unwrap_or(lo);
        if u < lo || u > hi {
            end(End::Diverged(format!("value of {name} out of range")));
        }
        Uint128::new(u)
    }
    pub fn any_i64(name: &str, lo: i64, hi: i64) -> i64 {
        let v = RUN.with(|r| {
            let mut r = r.borrow_mut();
            let n = r.used.entry(name.to_string()).or_insert(0);
            *n += 1;
            let nm = if *n == 1 { name.to_string() } else { format!("{name}#{n}") };
            r.vars.get(&nm).copied().unwrap_or(Big::from(lo))
        });
        let v = i64::try_from(v).unwrap_or(lo);
        if v < lo || v > hi {
            end(End::Diverged(format!("value of {name} out of range")));
        }
        v
    }
    pub fn choose_raw(n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            match r.choices.get(p) {
                Some(k) if *k < n => *k,
                _ => {
                    drop(r);
                    end(End::Diverged(format!("choice {p} missing or out of range")))
                }
            }
        })
    }
    pub fn note(s: String) {
        RUN.with(|r| r.borrow_mut().notes.push(s));
    }
    pub fn reach(_l: &str) {}
    pub fn assume(c: bool) {
        if !c {
            end(End::Infeasible)
        }
    }
    pub fn check(label: &str, f: impl FnOnce() -> bool) {
        RUN.with(|r| r.borrow_mut().checks.push(label.to_string()));
        if !f() {
            end(End::Violated(label.to_string()))
        }
    }
    pub fn observe(label: &str, v: impl fmt::Display) {
        RUN.with(|r| r.borrow_mut().obs.push((label.to_string(), v.to_string())));
    }
    pub fn is_engine(p: &(dyn std::any::Any + Send)) -> bool {
        p.is::<End>()
    }
    impl Z {
        pub fn c(b: Big) -> Z {
            Z(b)
        }
        pub fn parse(s: &str) -> Option<Z> {
            if let Some(r) = s.strip_prefix('-') {
                return Some(Z(-Big::from_str_radix(r, 10).ok()?));
            }
            Some(Z(Big::from_str_radix(s, 10).ok()?))
        }
        pub fn of(v: impl fmt::Display) -> Z {
            let s = v.to_string();
            Z::parse(&s).unwrap_or_else(|| panic!("not a number: {s}"))
        }
        pub fn u128(self) -> Uint128 {
            Uint128::new(u128::try_from(self.0).expect("Z out of u128"))
        }
        pub fn fdiv(self, d: Z) -> Z {
            let q = self.0 / d.0;
            Z(if self.0 < Big::ZERO && q * d.0 != self.0 {
                q - Big::ONE
            } else {
                q
            })
        }
        pub fn le(self, o: Z) -> bool {
            self.0 <= o.0
        }
        pub fn lt(self, o: Z) -> bool {
            self.0 < o.0
        }
        pub fn eq(self, o: Z) -> bool {
            self.0 == o.0
        }
    }
    impl Add for Z {
        type Output = Z;
        fn add(self, o: Z) -> Z {
            Z(self.0.checked_add(o.0).unwrap())
        }
    }
    impl Sub for Z {
        type Output = Z;
        fn sub(self, o: Z) -> Z {
            Z(self.0.checked_sub(o.0).unwrap())
        }
    }
    impl Mul for Z {
        type Output = Z;
        fn mul(self, o: Z) -> Z {
            Z(self.0.checked_mul(o.0).unwrap())
        }
    }
    impl fmt::Display for Z {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
}
pub use imp::*;

impl Z {
    pub fn n(v: i128) -> Z {
        Z::c(Big::from(v))
    }
    pub fn zero() -> Z {
        Z::n(0)
    }
    pub fn i(v: i64) -> Z {
        Z::of(v)
    }
    pub fn u(v: Uint128) -> Z {
        Z::of(v)
    }
    pub fn w(v: Uint256) -> Z {
        Z::of(v)
    }
    /// the 10^-18 units of a decimal
    pub fn atomics(v: Decimal256) -> Z {
        Z::of(v.atomics())
    }
    /// a decimal that must be an integer (exact division by 10^18)
    pub fn dec_floor(v: Decimal256) -> Z {
        Z::of(v.atomics()).fdiv(Z::n(ONE18))
    }
    pub fn ge(self, o: Z) -> bool {
        o.le(self)
    }
    pub fn gt(self, o: Z) -> bool {
        o.lt(self)
    }
    pub fn cdiv(self, d: Z) -> Z {
        -((-self).fdiv(d))
    }
    pub fn min(self, o: Z) -> Z {
        if self.le(o) {
            self
        } else {
            o
        }
    }
    pub fn max(self, o: Z) -> Z {
        if self.le(o) {
            o
        } else {
            self
        }
    }
    pub fn is_zero(self) -> bool {
        self.eq(Z::zero())
    }
    pub fn pos(self) -> bool {
        Z::zero().lt(self)
    }
}
pub const ONE18: i128 = 1_000_000_000_000_000_000;
impl Neg for Z {
    type Output = Z;
    fn neg(self) -> Z {
        Z::zero() - self
    }
}
impl AddAssign for Z {
    fn add_assign(&mut self, o: Z) {
        *self = *self + o;
    }
}
impl SubAssign for Z {
    fn sub_assign(&mut self, o: Z) {
        *self = *self - o;
    }
}
impl fmt::Debug for Z {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self}")
    }
}

/// Explores every one of `n` alternatives.
pub fn choose(n: usize) -> usize {
    choose_raw(n as u32) as usize
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
/// Unconditional failure of a property on this path.
pub fn fail(label: &str) -> ! {
    check(label, || false);
    unreachable!()
}
