//! Boxing of terms into 128-bit words and the operations on possibly boxed words.
use crate::big::*;
use crate::engine::*;
use std::cmp::Ordering;
use std::fmt;

pub const MAGIC: u64 = 0xF5A7_C3D1_9B4E_8602;

/// A number representation that can hold either a concrete value or a term handle.
pub trait Num: Copy + Sized {
    const BITS_: u32;
    const NAME: &'static str;
    fn sym(self) -> Option<Id>;
    fn boxed(id: Id) -> Self;
    fn to_big(self) -> Big;
    fn from_big(b: Big) -> Self;
    fn max_big() -> Big {
        sub(Big::ONE << Self::BITS_, Big::ONE)
    }
    fn lift(self) -> Id {
        match self.sym() {
            Some(i) => i,
            None => with(|e| e.konst(self.to_big())),
        }
    }
    /// handle of an in-range term -> number (concrete when the term is constant)
    fn norm(id: Id) -> Self {
        match with(|e| e.as_const(id)) {
            Some(v) => Self::from_big(v),
            None => Self::boxed(id),
        }
    }
}

pub fn either<T: Num>(a: T, b: T) -> bool {
    a.sym().is_some() || b.sym().is_some()
}
pub fn s_add<T: Num>(a: T, b: T) -> Option<T> {
    let s = {
        let (x, y) = (a.lift(), b.lift());
        with(|e| e.add(x, y))
    };
    let m = with(|e| e.konst(T::max_big()));
    if le(s, m) {
        Some(T::norm(s))
    } else {
        None
    }
}
pub fn s_sub<T: Num>(a: T, b: T) -> Option<T> {
    let (x, y) = (a.lift(), b.lift());
    if le(y, x) {
        let d = with(|e| e.sub(x, y));
        Some(T::norm(d))
    } else {
        None
    }
}
pub fn s_mul<T: Num>(a: T, b: T) -> Option<T> {
    let (x, y) = (a.lift(), b.lift());
    let p = with(|e| e.mul(x, y));
    let m = with(|e| e.konst(T::max_big()));
    if le(p, m) {
        Some(T::norm(p))
    } else {
        None
    }
}
pub fn s_div<T: Num>(a: T, b: T) -> Option<T> {
    let (x, y) = (a.lift(), b.lift());
    if eq0(y) {
        return None;
    }
    let d = with(|e| e.div(x, y));
    Some(T::norm(d))
}
pub fn s_rem<T: Num>(a: T, b: T) -> Option<T> {
    let (x, y) = (a.lift(), b.lift());
    if eq0(y) {
        return None;
    }
    let r = with(|e| {
        let q = e.div(x, y);
        let p = e.mul(q, y);
        e.sub(x, p)
    });
    Some(T::norm(r))
}
pub fn s_pow<T: Num>(a: T, n: u32) -> Option<T> {
    let mut acc = T::from_big(Big::ONE);
    for _ in 0..n {
        acc = s_mul(acc, a)?;
    }
    Some(acc)
}
pub fn s_eq<T: Num>(a: T, b: T) -> bool {
    eq(a.lift(), b.lift())
}
pub fn s_lt<T: Num>(a: T, b: T) -> bool {
    lt(a.lift(), b.lift())
}
pub fn s_le<T: Num>(a: T, b: T) -> bool {
    le(a.lift(), b.lift())
}
pub fn s_cmp<T: Num>(a: T, b: T) -> Ordering {
    if s_lt(a, b) {
        Ordering::Less
    } else if s_eq(a, b) {
        Ordering::Equal
    } else {
        Ordering::Greater
    }
}

impl Num for u128 {
    const BITS_: u32 = 128;
    const NAME: &'static str = "u128";
    #[inline]
    fn sym(self) -> Option<Id> {
        if (self >> 64) as u64 == MAGIC {
            Some(self as u32)
        } else {
            None
        }
    }
    fn boxed(id: Id) -> Self {
        ((MAGIC as u128) << 64) | id as u128
    }
    fn to_big(self) -> Big {
        from_u128(self)
    }
    fn from_big(b: Big) -> Self {
        let v = u128::try_from(b).expect("SYMRT value out of u128");
        if v.sym().is_some() {
            unsupported("a concrete value that looks like a handle");
        }
        v
    }
}

// ---------- hooks for raw u128 code ----------
macro_rules! raw2 {
    ($($n:ident, $s:ident, $c:ident;)*) => { $(
        pub fn $n(a: u128, b: u128) -> Option<u128> {
            if either(a, b) { $s(a, b) } else { a.$c(b) }
        }
    )* };
}
raw2! {
    u_checked_add, s_add, checked_add;
    u_checked_sub, s_sub, checked_sub;
    u_checked_mul, s_mul, checked_mul;
    u_checked_div, s_div, checked_div;
    u_checked_rem, s_rem, checked_rem;
}
pub fn u_eq(a: u128, b: u128) -> bool {
    if either(a, b) {
        s_eq(a, b)
    } else {
        a == b
    }
}
pub fn u_lt(a: u128, b: u128) -> bool {
    if either(a, b) {
        s_lt(a, b)
    } else {
        a < b
    }
}
pub fn u_le(a: u128, b: u128) -> bool {
    if either(a, b) {
        s_le(a, b)
    } else {
        a <= b
    }
}

/// the handle in a machine integer printed by code that did not know about handles
pub fn raw_handle(digits: &str, neg: bool) -> Option<Id> {
    if neg {
        let s = format!("-{digits}");
        if let Ok(v) = s.parse::<i64>() {
            return v.sym();
        }
        return s.parse::<i128>().ok().and_then(|v| v.sym());
    }
    let v: u128 = digits.parse().ok()?;
    v.sym().or_else(|| u64::try_from(v).ok().and_then(|v| v.sym()))
}
/// `@<id>` if the word is a handle.
pub fn show(a: u128) -> String {
    match a.sym() {
        Some(i) => format!("@{i}"),
        None => a.to_string(),
    }
}
/// Reads `@<id>` or decimal digits.
pub fn read(s: &str) -> Option<u128> {
    if let Some(r) = s.strip_prefix('@') {
        return Some(u128::boxed(r.parse().ok()?));
    }
    s.parse().ok()
}

macro_rules! newtype_common {
    ($T:ident) => {
        impl PartialEq for $T {
            #[inline]
            fn eq(&self, o: &Self) -> bool {
                if either(*self, *o) {
                    s_eq(*self, *o)
                } else {
                    self.0 == o.0
                }
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
            fn lt(&self, o: &Self) -> bool {
                if either(*self, *o) {
                    s_lt(*self, *o)
                } else {
                    self.0 < o.0
                }
            }
            fn le(&self, o: &Self) -> bool {
                if either(*self, *o) {
                    s_le(*self, *o)
                } else {
                    self.0 <= o.0
                }
            }
            fn gt(&self, o: &Self) -> bool {
                o.lt(self)
            }
            fn ge(&self, o: &Self) -> bool {
                o.le(self)
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> Ordering {
                if either(*self, *o) {
                    s_cmp(*self, *o)
                } else {
                    self.0.cmp(&o.0)
                }
            }
            fn max(self, o: Self) -> Self {
                if o.lt(&self) {
                    self
                } else {
                    o
                }
            }
            fn min(self, o: Self) -> Self {
                if o.lt(&self) {
                    o
                } else {
                    self
                }
            }
        }
        impl std::hash::Hash for $T {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                match self.sym() {
                    Some(i) => $T::from_big(pin(i, "hash of a symbolic number")).0.hash(h),
                    None => self.0.hash(h),
                }
            }
        }
        impl $T {
            pub const fn checked_add(self, o: Self) -> Option<Self> {
                const fn c(a: $T, b: $T) -> Option<$T> {
                    match a.0.checked_add(b.0) {
                        Some(x) => Some($T(x)),
                        None => None,
                    }
                }
                fn r(a: $T, b: $T) -> Option<$T> {
                    if either(a, b) {
                        s_add(a, b)
                    } else {
                        c(a, b)
                    }
                }
                core::intrinsics::const_eval_select((self, o), c, r)
            }
            pub const fn checked_sub(self, o: Self) -> Option<Self> {
                const fn c(a: $T, b: $T) -> Option<$T> {
                    match a.0.checked_sub(b.0) {
                        Some(x) => Some($T(x)),
                        None => None,
                    }
                }
                fn r(a: $T, b: $T) -> Option<$T> {
                    if either(a, b) {
                        s_sub(a, b)
                    } else {
                        c(a, b)
                    }
                }
                core::intrinsics::const_eval_select((self, o), c, r)
            }
            pub const fn checked_mul(self, o: Self) -> Option<Self> {
                const fn c(a: $T, b: $T) -> Option<$T> {
                    match a.0.checked_mul(b.0) {
                        Some(x) => Some($T(x)),
                        None => None,
                    }
                }
                fn r(a: $T, b: $T) -> Option<$T> {
                    if either(a, b) {
                        s_mul(a, b)
                    } else {
                        c(a, b)
                    }
                }
                core::intrinsics::const_eval_select((self, o), c, r)
            }
            pub const fn checked_pow(self, n: u32) -> Option<Self> {
                const fn c(a: $T, n: u32) -> Option<$T> {
                    match a.0.checked_pow(n) {
                        Some(x) => Some($T(x)),
                        None => None,
                    }
                }
                fn r(a: $T, n: u32) -> Option<$T> {
                    if a.sym().is_some() {
                        s_pow(a, n)
                    } else {
                        c(a, n)
                    }
                }
                core::intrinsics::const_eval_select((self, n), c, r)
            }
            pub const fn is_zero(&self) -> bool {
                const fn c(a: $T) -> bool {
                    a.raw_is_zero()
                }
                fn r(a: $T) -> bool {
                    if a.sym().is_some() {
                        eq0(a.lift())
                    } else {
                        c(a)
                    }
                }
                core::intrinsics::const_eval_select((*self,), c, r)
            }
            pub const fn abs_diff(self, o: Self) -> Self {
                const fn c(a: $T, b: $T) -> $T {
                    $T(a.0.abs_diff(b.0))
                }
                fn r(a: $T, b: $T) -> $T {
                    if either(a, b) {
                        if a.lt(&b) {
                            s_sub(b, a).unwrap()
                        } else {
                            s_sub(a, b).unwrap()
                        }
                    } else {
                        c(a, b)
                    }
                }
                core::intrinsics::const_eval_select((self, o), c, r)
            }
            pub fn checked_div(self, o: Self) -> Option<Self> {
                if either(self, o) {
                    s_div(self, o)
                } else {
                    self.0.checked_div(o.0).map($T)
                }
            }
            pub fn checked_div_euclid(self, o: Self) -> Option<Self> {
                self.checked_div(o)
            }
            pub fn checked_rem(self, o: Self) -> Option<Self> {
                if either(self, o) {
                    s_rem(self, o)
                } else {
                    self.0.checked_rem(o.0).map($T)
                }
            }
            pub fn rem(self, o: Self) -> Self {
                self.checked_rem(o).expect("attempt to calculate the remainder with a divisor of zero")
            }
            fn pow2() -> Id {
                with(|e| e.konst(Big::ONE << <$T as Num>::BITS_))
            }
            pub fn wrapping_add(self, o: Self) -> Self {
                if either(self, o) {
                    match s_add(self, o) {
                        Some(x) => x,
                        None => {
                            let (x, y) = (self.lift(), o.lift());
                            let m = Self::pow2();
                            Self::norm(with(|e| {
                                let s = e.add(x, y);
                                e.sub(s, m)
                            }))
                        }
                    }
                } else {
                    $T(self.0.wrapping_add(o.0))
                }
            }
            pub fn wrapping_sub(self, o: Self) -> Self {
                if either(self, o) {
                    match s_sub(self, o) {
                        Some(x) => x,
                        None => {
                            let (x, y) = (self.lift(), o.lift());
                            let m = Self::pow2();
                            Self::norm(with(|e| {
                                let s = e.sub(x, y);
                                e.add(s, m)
                            }))
                        }
                    }
                } else {
                    $T(self.0.wrapping_sub(o.0))
                }
            }
            pub fn wrapping_mul(self, o: Self) -> Self {
                if either(self, o) {
                    let (x, y) = (self.lift(), o.lift());
                    let m = Self::pow2();
                    Self::norm(with(|e| {
                        let p = e.mul(x, y);
                        let q = e.div(p, m);
                        let k = e.mul(q, m);
                        e.sub(p, k)
                    }))
                } else {
                    $T(self.0.wrapping_mul(o.0))
                }
            }
            pub fn wrapping_pow(self, n: u32) -> Self {
                if self.sym().is_some() {
                    let mut a = Self::from_big(Big::ONE);
                    for _ in 0..n {
                        a = a.wrapping_mul(self);
                    }
                    a
                } else {
                    $T(self.0.wrapping_pow(n))
                }
            }
            pub fn saturating_add(self, o: Self) -> Self {
                self.checked_add(o).unwrap_or(Self::MAX)
            }
            pub fn saturating_sub(self, o: Self) -> Self {
                self.checked_sub(o).unwrap_or(Self::MIN)
            }
            pub fn saturating_mul(self, o: Self) -> Self {
                self.checked_mul(o).unwrap_or(Self::MAX)
            }
            pub fn saturating_pow(self, n: u32) -> Self {
                self.checked_pow(n).unwrap_or(Self::MAX)
            }
            pub fn checked_shl(self, n: u32) -> Option<Self> {
                if self.sym().is_none() {
                    return self.0.checked_shl(n).map($T);
                }
                if n >= <$T as Num>::BITS_ {
                    return None;
                }
                // bits shifted out are lost
                let x = self.lift();
                let m = Self::pow2();
                Some(Self::norm(with(|e| {
                    let p = e.scale(x, Big::ONE << n);
                    let q = e.div(p, m);
                    let k = e.mul(q, m);
                    e.sub(p, k)
                })))
            }
            pub fn checked_shr(self, n: u32) -> Option<Self> {
                if self.sym().is_none() {
                    return self.0.checked_shr(n).map($T);
                }
                if n >= <$T as Num>::BITS_ {
                    return None;
                }
                let x = self.lift();
                Some(Self::norm(with(|e| {
                    let d = e.konst(Big::ONE << n);
                    e.div(x, d)
                })))
            }
            pub fn shl(self, n: u32) -> Self {
                self.checked_shl(n).expect("attempt to shift left with overflow")
            }
            pub fn shr(self, n: u32) -> Self {
                self.checked_shr(n).expect("attempt to shift right with overflow")
            }
            /// decimal digits, or the handle
            pub fn handle(self) -> Option<Id> {
                self.sym()
            }
        }
        impl std::ops::Not for $T {
            type Output = Self;
            fn not(self) -> Self {
                if self.sym().is_some() {
                    Self::MAX.checked_sub(self).unwrap()
                } else {
                    $T(!self.0)
                }
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match self.sym() {
                    Some(i) => write!(f, "@{i}"),
                    None => fmt::Display::fmt(&self.0, f),
                }
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match self.sym() {
                    Some(i) => write!(f, "@{i}"),
                    None => fmt::Debug::fmt(&self.0, f),
                }
            }
        }
    };
}
pub(crate) use newtype_common;

/// Stands in for `u128` inside `Uint128`.
#[derive(Copy, Clone, Default)]
#[repr(transparent)]
pub struct U128(pub u128);

impl Num for U128 {
    const BITS_: u32 = 128;
    const NAME: &'static str = "u128";
    #[inline]
    fn sym(self) -> Option<Id> {
        self.0.sym()
    }
    fn boxed(id: Id) -> Self {
        U128(u128::boxed(id))
    }
    fn to_big(self) -> Big {
        self.0.to_big()
    }
    fn from_big(b: Big) -> Self {
        U128(u128::from_big(b))
    }
}
newtype_common!(U128);
impl U128 {
    pub const MAX: Self = U128(u128::MAX);
    pub const MIN: Self = U128(0);
    const fn raw_is_zero(self) -> bool {
        self.0 == 0
    }
    pub const fn get(self) -> u128 {
        self.0
    }
    pub const fn to_be_bytes(self) -> [u8; 16] {
        const fn c(a: U128) -> [u8; 16] {
            a.0.to_be_bytes()
        }
        fn r(a: U128) -> [u8; 16] {
            match a.sym() {
                Some(i) => c(U128::from_big(pin(i, "bytes of a symbolic number"))),
                None => c(a),
            }
        }
        core::intrinsics::const_eval_select((self,), c, r)
    }
    pub const fn to_le_bytes(self) -> [u8; 16] {
        const fn c(a: U128) -> [u8; 16] {
            a.0.to_le_bytes()
        }
        fn r(a: U128) -> [u8; 16] {
            match a.sym() {
                Some(i) => c(U128::from_big(pin(i, "bytes of a symbolic number"))),
                None => c(a),
            }
        }
        core::intrinsics::const_eval_select((self,), c, r)
    }
}
impl std::str::FromStr for U128 {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        if s.starts_with('@') {
            if let Some(v) = read(s) {
                return Ok(U128(v));
            }
        }
        s.parse().map(U128)
    }
}
impl From<u128> for U128 {
    fn from(v: u128) -> Self {
        U128(v)
    }
}
impl TryFrom<U128> for u64 {
    type Error = std::num::TryFromIntError;
    fn try_from(v: U128) -> Result<Self, Self::Error> {
        if v.sym().is_some() {
            return if s_le(v, U128(u64::MAX as u128)) { Ok(u64::norm(v.lift())) } else { u64::try_from(u128::MAX) };
        }
        v.0.try_into()
    }
}
