//! 256- and 512-bit unsigned integers (bnum) that may hold a term handle.
use crate::big::*;
use crate::engine::*;
use crate::prim::newtype_common;
use crate::prim::*;
use bnum::cast::{As, CastFrom};
use std::cmp::Ordering;
use std::fmt;

macro_rules! wide {
    ($T:ident, $B:ident, $I:ident, $n:expr) => {
        #[derive(Copy, Clone)]
        #[repr(transparent)]
        pub struct $T(pub bnum::types::$B);
        impl Default for $T {
            fn default() -> Self {
                Self::ZERO
            }
        }
        impl Num for $T {
            const BITS_: u32 = 64 * $n;
            const NAME: &'static str = stringify!($T);
            #[inline]
            fn sym(self) -> Option<Id> {
                let d = self.0.digits();
                if d[$n - 1] == MAGIC && d[1] == MAGIC {
                    Some(d[0] as u32)
                } else {
                    None
                }
            }
            fn boxed(id: Id) -> Self {
                let mut d = [MAGIC; $n];
                d[0] = id as u64;
                $T(bnum::types::$B::from_digits(d))
            }
            fn to_big(self) -> Big {
                Big::cast_from(self.0)
            }
            fn from_big(b: Big) -> Self {
                assert!(
                    b >= Big::ZERO && b <= Self::max_big(),
                    "SYMRT value out of range"
                );
                let v = $T(b.as_());
                if v.sym().is_some() {
                    unsupported("a concrete value that looks like a handle");
                }
                v
            }
        }
        newtype_common!($T);
        impl $T {
            pub const MAX: Self = $T(bnum::types::$B::MAX);
            pub const MIN: Self = $T(bnum::types::$B::ZERO);
            pub const ZERO: Self = $T(bnum::types::$B::ZERO);
            pub const ONE: Self = $T(bnum::types::$B::ONE);
            const fn raw_is_zero(self) -> bool {
                self.0.is_zero()
            }
            pub const fn from_digits(d: [u64; $n]) -> Self {
                $T(bnum::types::$B::from_digits(d))
            }
            pub const fn digits(&self) -> &[u64; $n] {
                const fn c(a: &$T) -> &[u64; $n] {
                    a.0.digits()
                }
                fn r(a: &$T) -> &[u64; $n] {
                    if a.sym().is_some() {
                        unsupported("digits of a symbolic number");
                    }
                    c(a)
                }
                core::intrinsics::const_eval_select((self,), c, r)
            }
            pub const fn from_u128(v: u128) -> Self {
                const fn c(v: u128) -> $T {
                    let mut d = [0u64; $n];
                    d[0] = v as u64;
                    d[1] = (v >> 64) as u64;
                    $T(bnum::types::$B::from_digits(d))
                }
                fn r(v: u128) -> $T {
                    match v.sym() {
                        Some(i) => $T::boxed(i),
                        None => c(v),
                    }
                }
                core::intrinsics::const_eval_select((v,), c, r)
            }
            pub fn from_str_radix(
                s: &str,
                radix: u32,
            ) -> Result<Self, bnum::errors::ParseIntError> {
                if let Some(r) = s.strip_prefix('@') {
                    if let Ok(i) = r.parse() {
                        return Ok(Self::boxed(i));
                    }
                }
                bnum::types::$B::from_str_radix(s, radix).map($T)
            }
            fn conc(self, what: &str) -> bnum::types::$B {
                match self.sym() {
                    Some(i) => Self::from_big(pin(i, what)).0,
                    None => self.0,
                }
            }
        }
        impl From<u128> for $T {
            fn from(v: u128) -> Self {
                Self::from_u128(v)
            }
        }
        impl From<U128> for $T {
            fn from(v: U128) -> Self {
                Self::from_u128(v.0)
            }
        }
        impl From<u64> for $T {
            fn from(v: u64) -> Self {
                match v.sym() {
                    Some(i) => Self::boxed(i),
                    None => $T(v.into()),
                }
            }
        }
        impl From<u32> for $T {
            fn from(v: u32) -> Self {
                $T(v.into())
            }
        }
        impl From<u16> for $T {
            fn from(v: u16) -> Self {
                $T(v.into())
            }
        }
        impl From<u8> for $T {
            fn from(v: u8) -> Self {
                $T(v.into())
            }
        }
        impl TryFrom<$T> for U128 {
            type Error = ();
            fn try_from(v: $T) -> Result<Self, ()> {
                if let Some(i) = v.sym() {
                    let m = with(|e| e.konst(U128::max_big()));
                    if le(i, m) {
                        Ok(U128::norm(i))
                    } else {
                        Err(())
                    }
                } else {
                    u128::try_from(v.0).map(U128).map_err(|_| ())
                }
            }
        }
        impl TryFrom<$T> for u64 {
            type Error = ();
            fn try_from(v: $T) -> Result<Self, ()> {
                u64::try_from(v.conc("u64 from a symbolic number")).map_err(|_| ())
            }
        }
        impl TryFrom<$T> for i64 {
            type Error = ();
            fn try_from(v: $T) -> Result<Self, ()> {
                i64::try_from(v.conc("i64 from a symbolic number")).map_err(|_| ())
            }
        }
        impl TryFrom<$T> for i128 {
            type Error = ();
            fn try_from(v: $T) -> Result<Self, ()> {
                i128::try_from(v.conc("i128 from a symbolic number")).map_err(|_| ())
            }
        }
        impl TryFrom<$T> for u128 {
            type Error = ();
            fn try_from(v: $T) -> Result<Self, ()> {
                U128::try_from(v).map(|x| x.0)
            }
        }
        impl CastFrom<bnum::types::I256> for $T {
            fn cast_from(v: bnum::types::I256) -> Self {
                $T(v.as_())
            }
        }
        impl CastFrom<bnum::types::I512> for $T {
            fn cast_from(v: bnum::types::I512) -> Self {
                $T(v.as_())
            }
        }
        impl CastFrom<i64> for $T {
            fn cast_from(v: i64) -> Self {
                $T(v.as_())
            }
        }
        impl CastFrom<i128> for $T {
            fn cast_from(v: i128) -> Self {
                $T(v.as_())
            }
        }
        impl CastFrom<$T> for bnum::types::I256 {
            fn cast_from(v: $T) -> Self {
                v.conc("signed cast of a symbolic number").as_()
            }
        }
        impl CastFrom<$T> for bnum::types::I512 {
            fn cast_from(v: $T) -> Self {
                v.conc("signed cast of a symbolic number").as_()
            }
        }
        impl CastFrom<$T> for i64 {
            fn cast_from(v: $T) -> Self {
                v.conc("signed cast of a symbolic number").as_()
            }
        }
        impl CastFrom<$T> for i128 {
            fn cast_from(v: $T) -> Self {
                v.conc("signed cast of a symbolic number").as_()
            }
        }
    };
}
wide!(U256, U256, I256, 4);
wide!(U512, U512, I512, 8);

impl From<U256> for U512 {
    fn from(v: U256) -> Self {
        match v.sym() {
            Some(i) => U512::boxed(i),
            None => U512(v.0.as_()),
        }
    }
}
impl TryFrom<U512> for U256 {
    type Error = ();
    fn try_from(v: U512) -> Result<Self, ()> {
        let m = U256::max_big();
        if let Some(i) = v.sym() {
            let m = with(|e| e.konst(m));
            if le(i, m) {
                Ok(U256::norm(i))
            } else {
                Err(())
            }
        } else if v.to_big() <= m {
            Ok(U256(v.0.as_()))
        } else {
            Err(())
        }
    }
}
impl U512 {
    pub const fn from_u256(v: U256) -> Self {
        const fn c(v: U256) -> U512 {
            let d = v.0.digits();
            U512(bnum::types::U512::from_digits([
                d[0], d[1], d[2], d[3], 0, 0, 0, 0,
            ]))
        }
        fn r(v: U256) -> U512 {
            v.into()
        }
        core::intrinsics::const_eval_select((v,), c, r)
    }
}
