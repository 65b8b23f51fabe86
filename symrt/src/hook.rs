//! What compiled contract code calls for its operations on raw 64- and 128-bit integers (see
//! mirpass): the plain operation on plain numbers, a term when an operand is a handle.
use crate::big::*;
use crate::engine::*;
use crate::prim::Num;
use std::cell::RefCell;
use std::cmp::Ordering;

/// upper half of a 64-bit handle
pub const TAG: u32 = 0xF5A7_C3D1;

macro_rules! num64 {
    ($($T:ident $n:literal)*) => { $(
        impl Num for $T {
            const BITS_: u32 = 64;
            const NAME: &'static str = $n;
            #[inline]
            fn sym(self) -> Option<Id> {
                if (self as u64 >> 32) as u32 == TAG { Some(self as u32) } else { None }
            }
            fn boxed(id: Id) -> Self {
                (((TAG as u64) << 32) | id as u64) as $T
            }
            fn to_big(self) -> Big {
                Big::from(self)
            }
            fn from_big(b: Big) -> Self {
                let v = $T::try_from(b).expect("SYMRT value out of range");
                if v.sym().is_some() {
                    unsupported("a concrete value that looks like a handle");
                }
                v
            }
        }
    )* };
}
num64! { u64 "u64" i64 "i64" }
impl Num for i128 {
    const BITS_: u32 = 128;
    const NAME: &'static str = "i128";
    #[inline]
    fn sym(self) -> Option<Id> {
        (self as u128).sym()
    }
    fn boxed(id: Id) -> Self {
        u128::boxed(id) as i128
    }
    fn to_big(self) -> Big {
        Big::from(self)
    }
    fn from_big(b: Big) -> Self {
        let v = i128::try_from(b).expect("SYMRT value out of range");
        if v.sym().is_some() {
            unsupported("a concrete value that looks like a handle");
        }
        v
    }
}

/// the range of a machine integer
pub trait Int: Num + PartialOrd {
    const SIGNED: bool;
    fn lo() -> Big {
        if Self::SIGNED {
            sub(Big::ZERO, Big::ONE << (Self::BITS_ - 1))
        } else {
            Big::ZERO
        }
    }
    fn hi() -> Big {
        add(Self::lo(), sub(Big::ONE << Self::BITS_, Big::ONE))
    }
}
impl Int for u128 {
    const SIGNED: bool = false;
}
impl Int for u64 {
    const SIGNED: bool = false;
}
impl Int for i128 {
    const SIGNED: bool = true;
}
impl Int for i64 {
    const SIGNED: bool = true;
}

fn k(b: Big) -> Id {
    with(|e| e.konst(b))
}
fn some<T: Num>(a: T, b: T) -> bool {
    a.sym().is_some() || b.sym().is_some()
}
fn fits<T: Int>(i: Id) -> bool {
    le(k(T::lo()), i) && le(i, k(T::hi()))
}
/// two's complement
fn wrap<T: Int>(i: Id) -> T {
    if fits::<T>(i) {
        return T::norm(i);
    }
    let (lo, m) = (k(T::lo()), k(Big::ONE << T::BITS_));
    T::norm(with(|e| {
        let x = e.sub(i, lo);
        let q = e.div(x, m);
        let p = e.mul(q, m);
        e.sub(i, p)
    }))
}
fn over<T: Int>(i: Id) -> (T, bool) {
    if fits::<T>(i) {
        (T::norm(i), false)
    } else {
        (wrap(i), true)
    }
}
fn sat<T: Int>(i: Id) -> T {
    if !le(i, k(T::hi())) {
        T::from_big(T::hi())
    } else if !le(k(T::lo()), i) {
        T::from_big(T::lo())
    } else {
        T::norm(i)
    }
}
fn sum<T: Num>(a: T, b: T) -> Id {
    let (x, y) = (a.lift(), b.lift());
    with(|e| e.add(x, y))
}
fn dif<T: Num>(a: T, b: T) -> Id {
    let (x, y) = (a.lift(), b.lift());
    with(|e| e.sub(x, y))
}
fn pro<T: Num>(a: T, b: T) -> Id {
    let (x, y) = (a.lift(), b.lift());
    with(|e| e.mul(x, y))
}
fn negated(i: Id) -> Id {
    let z = k(Big::ZERO);
    with(|e| e.sub(z, i))
}
/// truncated division, nonzero divisor
fn quo<T: Int>(a: T, b: T) -> Id {
    let (mut x, mut y) = (a.lift(), b.lift());
    let mut neg = false;
    if T::SIGNED {
        let z = k(Big::ZERO);
        if lt(x, z) {
            x = negated(x);
            neg = !neg;
        }
        if lt(y, z) {
            y = negated(y);
            neg = !neg;
        }
    }
    let q = with(|e| e.div(x, y));
    if neg {
        negated(q)
    } else {
        q
    }
}
fn rest<T: Int>(a: T, b: T) -> Id {
    let q = quo(a, b);
    let (x, y) = (a.lift(), b.lift());
    with(|e| {
        let p = e.mul(q, y);
        e.sub(x, p)
    })
}
/// splits the path until the number is a constant
pub fn concrete(i: Id) -> Big {
    if let Some(v) = with(|e| e.as_const(i)) {
        return v;
    }
    let (mut lo, mut hi) = with(|e| e.interval(i));
    if sub(hi, lo) > (Big::ONE << 12u32) {
        return pin(i, "a symbolic number where a concrete one is needed");
    }
    while lo < hi {
        let mid = fdiv(add(lo, hi), Big::from(2u8));
        if le(i, k(mid)) {
            hi = mid;
        } else {
            lo = add(mid, Big::ONE);
        }
        let (l, h) = with(|e| e.interval(i));
        lo = lo.max(l);
        hi = hi.min(h);
    }
    // now fixed on this path; say so to the engine
    if !eq(i, k(lo)) {
        end_path(PathEnd::Infeasible);
    }
    lo
}
fn conc<T: Int>(a: T) -> T {
    match a.sym() {
        Some(i) => T::from_big(concrete(i)),
        None => a,
    }
}
/// the runs of ones of a mask, as (position, length)
fn runs(mut b: Big) -> Vec<(u32, u32)> {
    let (mut v, mut at) = (vec![], 0);
    let two = Big::from(2u8);
    let bit = |b: Big| sub(b, mul(fdiv(b, two), two)) == Big::ONE;
    while b > Big::ZERO {
        let mut n = 0;
        while bit(b) {
            b = fdiv(b, two);
            n += 1;
        }
        if n > 0 {
            v.push((at, n));
            at += n;
        } else {
            b = fdiv(b, two);
            at += 1;
        }
    }
    v
}
/// the bits of a number as an unsigned term
fn bits<T: Int>(a: T) -> Id {
    let x = a.lift();
    if T::SIGNED && lt(x, k(Big::ZERO)) {
        let m = k(Big::ONE << T::BITS_);
        return with(|e| e.add(x, m));
    }
    x
}
/// bitwise and with a constant, as a term; the constant's bits
fn masked<T: Int>(a: T, b: T) -> (Id, Id, Id) {
    let (s, m) = if a.sym().is_some() { (a, b) } else { (b, a) };
    let m = match m.sym() {
        None => m,
        Some(i) => T::from_big(pin(i, "bit operation on symbolic numbers")),
    };
    let mut c = m.to_big();
    if c < Big::ZERO {
        c = add(c, Big::ONE << T::BITS_);
    }
    let x = bits(s);
    let mut sum = k(Big::ZERO);
    for (at, n) in runs(c) {
        sum = with(|e| {
            // (x / 2^at mod 2^n) * 2^at
            let (lo, hi) = (e.konst(Big::ONE << at), e.konst(Big::ONE << (at + n)));
            let q = e.div(x, lo);
            let p = e.scale(q, Big::ONE << at);
            let r = e.div(x, hi);
            let w = e.scale(r, Big::ONE << (at + n));
            let d = e.sub(p, w);
            e.add(sum, d)
        });
    }
    (sum, x, k(c))
}
fn and<T: Int>(a: T, b: T) -> T {
    wrap(masked(a, b).0)
}
fn or<T: Int>(a: T, b: T) -> T {
    let (m, x, c) = masked(a, b);
    wrap(with(|e| {
        let s = e.add(x, c);
        e.sub(s, m)
    }))
}
fn xor<T: Int>(a: T, b: T) -> T {
    let (m, x, c) = masked(a, b);
    wrap(with(|e| {
        let s = e.add(x, c);
        let s = e.sub(s, m);
        e.sub(s, m)
    }))
}
fn shl<T: Int>(a: T, n: u32) -> T {
    let x = a.lift();
    wrap(with(|e| e.scale(x, Big::ONE << n)))
}
fn shr<T: Int>(a: T, n: u32) -> T {
    let (x, d) = (a.lift(), k(Big::ONE << n));
    T::norm(with(|e| e.div(x, d)))
}

macro_rules! ops {
    ($T:ident: $add:ident $sub:ident $mul:ident $add_o:ident $sub_o:ident $mul_o:ident $sat_add:ident $sat_sub:ident
     $div:ident $rem:ident $and:ident $or:ident $xor:ident $shl:ident $shr:ident $neg:ident $not:ident
     $eq:ident $ne:ident $lt:ident $le:ident $gt:ident $ge:ident $cmp:ident $conc:ident) => {
        pub fn $add(a: $T, b: $T) -> $T { if some(a, b) { wrap(sum(a, b)) } else { a.wrapping_add(b) } }
        pub fn $sub(a: $T, b: $T) -> $T { if some(a, b) { wrap(dif(a, b)) } else { a.wrapping_sub(b) } }
        pub fn $mul(a: $T, b: $T) -> $T { if some(a, b) { wrap(pro(a, b)) } else { a.wrapping_mul(b) } }
        pub fn $add_o(a: $T, b: $T) -> ($T, bool) { if some(a, b) { over(sum(a, b)) } else { a.overflowing_add(b) } }
        pub fn $sub_o(a: $T, b: $T) -> ($T, bool) { if some(a, b) { over(dif(a, b)) } else { a.overflowing_sub(b) } }
        pub fn $mul_o(a: $T, b: $T) -> ($T, bool) { if some(a, b) { over(pro(a, b)) } else { a.overflowing_mul(b) } }
        pub fn $sat_add(a: $T, b: $T) -> $T { if some(a, b) { sat(sum(a, b)) } else { a.saturating_add(b) } }
        pub fn $sat_sub(a: $T, b: $T) -> $T { if some(a, b) { sat(dif(a, b)) } else { a.saturating_sub(b) } }
        pub fn $div(a: $T, b: $T) -> $T { if some(a, b) { wrap(quo(a, b)) } else { a / b } }
        pub fn $rem(a: $T, b: $T) -> $T { if some(a, b) { wrap(rest(a, b)) } else { a % b } }
        pub fn $and(a: $T, b: $T) -> $T { if some(a, b) { and(a, b) } else { a & b } }
        pub fn $or(a: $T, b: $T) -> $T { if some(a, b) { or(a, b) } else { a | b } }
        pub fn $xor(a: $T, b: $T) -> $T { if some(a, b) { xor(a, b) } else { a ^ b } }
        pub fn $shl(a: $T, n: u32) -> $T { if a.sym().is_some() { shl(a, n % <$T>::BITS) } else { a.wrapping_shl(n) } }
        pub fn $shr(a: $T, n: u32) -> $T { if a.sym().is_some() { shr(a, n % <$T>::BITS) } else { a.wrapping_shr(n) } }
        pub fn $neg(a: $T) -> $T { if let Some(i) = a.sym() { wrap(negated(i)) } else { a.wrapping_neg() } }
        pub fn $not(a: $T) -> $T {
            match a.sym() {
                // !a = lo + hi - a in two's complement
                Some(i) => { let c = k(add(<$T as Int>::lo(), <$T as Int>::hi())); wrap(with(|e| e.sub(c, i))) }
                None => !a,
            }
        }
        pub fn $eq(a: $T, b: $T) -> bool { if some(a, b) { eq(a.lift(), b.lift()) } else { a == b } }
        pub fn $ne(a: $T, b: $T) -> bool { !$eq(a, b) }
        pub fn $lt(a: $T, b: $T) -> bool { if some(a, b) { lt(a.lift(), b.lift()) } else { a < b } }
        pub fn $le(a: $T, b: $T) -> bool { if some(a, b) { le(a.lift(), b.lift()) } else { a <= b } }
        pub fn $gt(a: $T, b: $T) -> bool { $lt(b, a) }
        pub fn $ge(a: $T, b: $T) -> bool { $le(b, a) }
        pub fn $cmp(a: $T, b: $T) -> Ordering {
            if some(a, b) {
                if lt(a.lift(), b.lift()) { Ordering::Less } else if eq(a.lift(), b.lift()) { Ordering::Equal } else { Ordering::Greater }
            } else {
                a.cmp(&b)
            }
        }
        pub fn $conc(a: $T) -> $T { conc(a) }
    };
}
ops!(u128: u128_add u128_sub u128_mul u128_add_o u128_sub_o u128_mul_o u128_sat_add u128_sat_sub u128_div u128_rem u128_and u128_or u128_xor u128_shl u128_shr u128_neg u128_not u128_eq u128_ne u128_lt u128_le u128_gt u128_ge u128_cmp u128_conc);
ops!(i128: i128_add i128_sub i128_mul i128_add_o i128_sub_o i128_mul_o i128_sat_add i128_sat_sub i128_div i128_rem i128_and i128_or i128_xor i128_shl i128_shr i128_neg i128_not i128_eq i128_ne i128_lt i128_le i128_gt i128_ge i128_cmp i128_conc);
ops!(u64: u64_add u64_sub u64_mul u64_add_o u64_sub_o u64_mul_o u64_sat_add u64_sat_sub u64_div u64_rem u64_and u64_or u64_xor u64_shl u64_shr u64_neg u64_not u64_eq u64_ne u64_lt u64_le u64_gt u64_ge u64_cmp u64_conc);
ops!(i64: i64_add i64_sub i64_mul i64_add_o i64_sub_o i64_mul_o i64_sat_add i64_sat_sub i64_div i64_rem i64_and i64_or i64_xor i64_shl i64_shr i64_neg i64_not i64_eq i64_ne i64_lt i64_le i64_gt i64_ge i64_cmp i64_conc);

macro_rules! minmax {
    ($($T:ident $min:ident $max:ident $le:ident;)*) => { $(
        pub fn $min(a: $T, b: $T) -> $T { if $le(a, b) { a } else { b } }
        pub fn $max(a: $T, b: $T) -> $T { if $le(a, b) { b } else { a } }
    )* };
}
minmax! { u128 u128_min u128_max u128_le; i128 i128_min i128_max i128_le; u64 u64_min u64_max u64_le; i64 i64_min i64_max i64_le; }
macro_rules! casts {
    ($($n:ident $A:ident $B:ident;)*) => { $(
        pub fn $n(a: $A) -> $B {
            match a.sym() {
                Some(i) => wrap(i),
                None => a as $B,
            }
        }
    )* };
}
casts! {
    u128_to_i128 u128 i128; u128_to_u64 u128 u64; u128_to_i64 u128 i64;
    i128_to_u128 i128 u128; i128_to_u64 i128 u64; i128_to_i64 i128 i64;
    u64_to_u128 u64 u128; u64_to_i128 u64 i128; u64_to_i64 u64 i64;
    i64_to_u128 i64 u128; i64_to_i128 i64 i128; i64_to_u64 i64 u64;
}

/// Whether two stretches of memory hold the same values, where handles stand for theirs.
fn same(a: &[u8], b: &[u8]) -> bool {
    fn word<const N: usize>(x: &[u8]) -> [u8; N] {
        x.try_into().unwrap()
    }
    let mut i = 0;
    while i < a.len() {
        if a.len() % 16 == 0 && i % 16 == 0 {
            let (x, y) = (u128::from_ne_bytes(word(&a[i..i + 16])), u128::from_ne_bytes(word(&b[i..i + 16])));
            if some(x, y) {
                if !u128_eq(x, y) && !i128_eq(x as i128, y as i128) {
                    return false;
                }
                i += 16;
                continue;
            }
        }
        if a.len() % 8 == 0 && i % 8 == 0 {
            let (x, y) = (u64::from_ne_bytes(word(&a[i..i + 8])), u64::from_ne_bytes(word(&b[i..i + 8])));
            if some(x, y) {
                if !u64_eq(x, y) && !i64_eq(x as i64, y as i64) {
                    return false;
                }
                i += 8;
                continue;
            }
        }
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn raw_eq<T>(a: &T, b: &T) -> bool {
    let n = std::mem::size_of::<T>();
    unsafe { same(std::slice::from_raw_parts(a as *const T as *const u8, n), std::slice::from_raw_parts(b as *const T as *const u8, n)) }
}
/// # Safety
/// as `core::intrinsics::compare_bytes`
pub unsafe fn compare_bytes(a: *const u8, b: *const u8, n: usize) -> i32 {
    if n == 0 {
        return 0;
    }
    let (x, y) = (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n));
    match x.cmp(y) {
        Ordering::Equal => 0,
        _ if n % 8 == 0 && same(x, y) => 0,
        Ordering::Less => -1,
        Ordering::Greater => 1,
    }
}

thread_local! { static SEEN: RefCell<Vec<bool>> = const { RefCell::new(vec![]) }; }
/// a contract function was entered
pub fn enter(n: u32) {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        let n = n as usize;
        if s.len() <= n {
            s.resize(n + 1, false);
        }
        s[n] = true;
    })
}
/// the functions entered on this thread so far
pub fn entered() -> Vec<u32> {
    SEEN.with(|s| s.borrow().iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i as u32).collect())
}
