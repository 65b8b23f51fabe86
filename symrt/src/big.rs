//! Exact integers used for symbolic terms (768-bit signed; every operation is checked, so an
//! overflow of the term arithmetic itself stops the run loudly instead of wrapping).
pub type Big = bnum::BInt<12>;

pub fn big(v: i128) -> Big {
    Big::from(v)
}
pub fn from_u128(v: u128) -> Big {
    Big::from(v)
}
#[inline]
pub fn add(a: Big, b: Big) -> Big {
    a.checked_add(b).expect("SYMRT big add overflow")
}
#[inline]
pub fn sub(a: Big, b: Big) -> Big {
    a.checked_sub(b).expect("SYMRT big sub overflow")
}
#[inline]
pub fn mul(a: Big, b: Big) -> Big {
    if a == Big::ONE {
        return b;
    }
    if b == Big::ONE {
        return a;
    }
    a.checked_mul(b).expect("SYMRT big mul overflow")
}
/// floor division, `d` > 0
pub fn fdiv(a: Big, d: Big) -> Big {
    debug_assert!(d > Big::ZERO);
    if d == Big::ONE {
        return a;
    }
    let q = a / d;
    if a < Big::ZERO && q * d != a {
        q - Big::ONE
    } else {
        q
    }
}
/// ceil division, `d` > 0
pub fn cdiv(a: Big, d: Big) -> Big {
    -fdiv(-a, d)
}
pub fn gcd(a: Big, b: Big) -> Big {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != Big::ZERO {
        if a == Big::ONE || b == Big::ONE {
            return Big::ONE;
        }
        let r = a % b;
        a = b;
        b = r;
    }
    a
}
pub fn parse(s: &str) -> Option<Big> {
    if let Some(r) = s.strip_prefix('-') {
        return Some(-Big::from_str_radix(r, 10).ok()?);
    }
    Big::from_str_radix(s, 10).ok()
}
pub fn smt(v: Big, out: &mut String) {
    use std::fmt::Write;
    if v < Big::ZERO {
        write!(out, "(- {})", -v).unwrap();
    } else {
        write!(out, "{}", v).unwrap();
    }
}
