//! Each operation on 64- and 128-bit integers, on terms and on machine numbers.
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symrt::{Big, Config, Num};

trait Out: Clone + std::panic::UnwindSafe {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! plain { ($($t:ty)*) => { $(impl Out for $t { fn same(&self, o: &Self) -> bool { *self == *o } })* } }
plain! { u128 i128 u64 i64 bool u32 u8 i32 u16 usize Ordering }
impl<T: Out> Out for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}
impl<T: Out, U: Out> Out for (T, U) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<T: Out, const N: usize> Out for [T; N] {
    fn same(&self, o: &Self) -> bool {
        (0..N).all(|i| self[i].same(&o[i]))
    }
}
fn run<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if symrt::is_engine_payload(&*p) => std::panic::resume_unwind(p),
        Err(_) => None,
    }
}
#[inline(never)]
fn one<T: Num + Copy + PartialEq + Sync + std::panic::RefUnwindSafe, R: Out + Sync>(name: &str, vals: &[(T, T)], lo: Big, hi: Big, f: fn(T, T) -> R, eq: fn(T, T) -> bool, bad: &mut Vec<String>) {
    let body = || {
        let (x, y) = vals[symrt::choose(vals.len() as u32) as usize];
        let mode = symrt::choose(3);
        let want = run(|| f(x, y));
        let any = |n: &str, v: T| {
            let a = T::norm(symrt::new_var(n, lo, hi));
            symrt::assume(eq(a, v));
            a
        };
        let a = if mode == 2 { x } else { any("a", x) };
        let b = if mode == 1 { y } else { any("b", y) };
        let got = run(|| f(a, b));
        symrt::check_begin("same");
        let ok = match (&got, &want) {
            (Some(g), Some(w)) => g.same(w),
            (None, None) => true,
            _ => false,
        };
        symrt::note(format!("{} {} {mode}", x.to_big(), y.to_big()));
        symrt::check_end("same", ok);
        symrt::reach("end");
    };
    let r = symrt::explore(Config::default(), &(|| body()) as &(dyn Fn() + Sync));
    let n = r.stats.reached.get("end").copied().unwrap_or(0) as usize;
    if !r.violations.is_empty() || !r.errors.is_empty() || n < 3 * vals.len() || !r.complete {
        bad.push(format!("{name}: {n} of {} {:?} {:?}", 3 * vals.len(), r.violations.iter().map(|v| &v.notes).collect::<Vec<_>>(), r.errors));
    } else {
        println!("{name} ok{}", if r.pins.is_empty() { "" } else { " (pins)" });
    }
}
macro_rules! ops {
    ($T:ident, $vals:expr, $bad:expr; $($n:literal: $f:expr;)*) => { $(
        one::<$T, _>(concat!(stringify!($T), " ", $n), &$vals, Big::from($T::MIN), Big::from($T::MAX), $f, |a: $T, b: $T| a == b, $bad);
    )* };
}
macro_rules! common {
    ($T:ident, $vals:expr, $bad:expr) => { ops! { $T, $vals, $bad;
        "add": |a, b| a + b; "sub": |a, b| a - b; "mul": |a, b| a * b; "div": |a, b| a / b; "rem": |a, b| a % b;
        "add_assign": |mut a, b| { a += b; a }; "sub_assign": |mut a, b| { a -= b; a };
        "ref_add": |a, b| &a + &b;
        "lt": |a, b| a < b; "le": |a, b| a <= b; "gt": |a, b| a > b; "ge": |a, b| a >= b; "eq": |a, b| a == b; "ne": |a, b| a != b;
        "cmp": |a, b| a.cmp(&b); "partial_cmp": |a, b| a.partial_cmp(&b);
        "min": |a, b| a.min(b); "max": |a, b| a.max(b); "cmp_min": |a, b| std::cmp::min(a, b); "cmp_max": |a, b| std::cmp::max(a, b);
        "clamp": |a, b| a.clamp(b.min(a), b.max(a)); "clamp_c": |a, b| a.clamp(3, 1000).min(b);
        "checked_add": |a, b| a.checked_add(b); "checked_sub": |a, b| a.checked_sub(b); "checked_mul": |a, b| a.checked_mul(b);
        "checked_div": |a, b| a.checked_div(b); "checked_rem": |a, b| a.checked_rem(b);
        "saturating_add": |a, b| a.saturating_add(b); "saturating_sub": |a, b| a.saturating_sub(b); "saturating_mul": |a, b| a.saturating_mul(b);
        "wrapping_add": |a, b| a.wrapping_add(b); "wrapping_sub": |a, b| a.wrapping_sub(b); "wrapping_mul": |a, b| a.wrapping_mul(b);
        "overflowing_add": |a, b| a.overflowing_add(b); "overflowing_sub": |a, b| a.overflowing_sub(b); "overflowing_mul": |a, b| a.overflowing_mul(b);
        "div_euclid": |a, b| a.div_euclid(b); "rem_euclid": |a, b| a.rem_euclid(b); "checked_rem_euclid": |a, b| a.checked_rem_euclid(b);
        "pow2": |a, _| a.checked_pow(2); "pow0": |a, _| a.pow(0); "pow3": |a, _| a.saturating_pow(3); 
        "not": |a, _| !a; "abs_diff": |a, b| a.abs_diff(b) as u128;
        "and_c": |a, _| a & 0xff; "and_one": |a, _| a & 1; "or": |a, _| a | 0; "xor0": |a, _| a ^ 0;
        "shl": |a, _| a.wrapping_shl(3); "shr": |a, _| a >> 5; "checked_shl": |a, _| a.checked_shl(70); "shr_op": |a, _| a >> 63;
        "is_power": |a, _| a == 1; "midpoint": |a, b| (a / 2) + (b / 2);
        "u8": |a, _| u8::try_from(a).ok(); "u32": |a, _| u32::try_from(a).ok(); "i32": |a, _| i32::try_from(a).ok(); "u64": |a, _| u64::try_from(a).ok(); "i64": |a, _| i64::try_from(a).ok();
        "u128": |a, _| u128::try_from(a).ok(); "i128": |a, _| i128::try_from(a).ok(); "usize": |a, _| usize::try_from(a).ok();
        "as_u8": |a, _| a as u8; "as_u32": |a, _| a as u32; "as_u64": |a, _| a as u64; "as_i64": |a, _| a as i64; "as_u128": |a, _| a as u128; "as_i128": |a, _| a as i128; "as_i32": |a, _| a as i32; "as_usize": |a, _| a as usize;
        "match": |a, _| match a { 0 => 1u32, 1..=9 => 2, 10 | 11 => 3, _ => 4 };
        "match_cmp": |a, b| match a.cmp(&b) { Ordering::Less => 1u32, Ordering::Equal => 2, Ordering::Greater => 3 };
        "range": |a, b| (3..=50).contains(&a) || (b..a).contains(&7);
        "range_from": |a, b| (a..).contains(&b);
        "iter_max": |a, b| [a, b, 7].iter().max().copied(); "iter_min": |a, b| [a, b, 7].into_iter().min(); "iter_sum": |a, b| [a / 4, b / 4, 3].iter().sum::<$T>();
        "iter_fold": |a, b| [a, b].iter().copied().fold($T::MIN, std::cmp::max); "iter_prod": |a, b| [a % 100, b % 100].iter().product::<$T>();
        "max_by_key": |a, b| [(a, 1u32), (b, 2)].iter().max_by_key(|x| x.0).map(|x| x.1); "min_by": |a, b| [a, b].into_iter().min_by(|x, y| y.cmp(x));
        "contains": |a, b| [1, b, 3].contains(&a); "any": |a, b| [1, b].iter().any(|x| *x == a); "position": |a, b| [5, b, a].iter().position(|x| *x == a).map(|x| x as u32);
        "vec_contains": |a, b| vec![1, b, 3].contains(&a);
        "sort": |a, b| { let mut v = [a, b, 9]; v.sort(); v }; "sort_unstable": |a, b| { let mut v = vec![b, 9, a]; v.sort_unstable(); [v[0], v[1], v[2]] }; "sort_by": |a, b| { let mut v = vec![b, 9, a]; v.sort_by(|x, y| y.cmp(x)); [v[0], v[1], v[2]] }; "sort_key": |a, b| { let mut v = vec![(b, 1u32), (9, 2), (a, 3)]; v.sort_by_key(|x| x.0); v[0].0 };
        "arr_eq": |a, b| [a, b] == [b, a]; "slice_eq": |a, b| vec![a, 1] == vec![b, 1]; "arr_lt": |a, b| [a, 3] < [b, 4]; "slice_cmp": |a, b| [a, b][..].cmp(&[b, a][..]);
        "tuple_eq": |a, b| (a, 1u32) == (b, 1); "tuple_lt": |a, b| (a, b) < (b, a); "tuple_cmp": |a, b| (b, a).cmp(&(a, b)); "tuple_max": |a, b| std::cmp::max((a, 1u32), (b, 2));
        "opt_eq": |a, b| Some(a) == Some(b); "opt_lt": |a, b| Some(a) < Some(b); "opt_max": |a, b| Some(a).max(Some(b)); "opt_cmp": |a, b| Some(a).cmp(&Some(b)); "opt_ok": |a, b| Some(a).filter(|x| *x > b);
        "rev": |a, b| std::cmp::Reverse(a) < std::cmp::Reverse(b);
        "bsearch": |a, _| [1, 5, 9, 30].binary_search(&a).unwrap_or_else(|x| x + 10) as u32; "partition_point": |a, _| [1, 5, 9, 30].partition_point(|x| *x < a) as u32;
        "checked_neg": |a, _| a.checked_neg(); "wrapping_neg": |a, _| a.wrapping_neg();
        "range_loop": |a, _| { let mut n = 0u32; let mut i = 0; while i < a % 7 { n += 1; i += 1; } n };
        "for_range": |a, b| { let mut s: $T = 0; for i in (a % 5)..(a % 5 + 3) { s += i; } s + b % 2 };
        "for_incl": |a, _| { let mut s: $T = 0; for i in 0..=(a % 4) { s += i; } s };
        "rev_range": |a, _| { let mut s: $T = 0; for i in (0..(a % 4)).rev() { s = s * 3 + i; } s };
        "step_by": |a, _| { let mut s: $T = 0; for i in (0..(a % 9)).step_by(2) { s += i; } s };
        "chunks": |a, b| [a, b, 4, 5].chunks(2).map(|c| c[0] / 2).max().unwrap();
        "default": |a, _| a == Default::default(); "replace": |mut a, b| { let o = std::mem::replace(&mut a, b); (o, a) }; "swap": |mut a, mut b| { std::mem::swap(&mut a, &mut b); (a, b) }; "take": |mut a, _| (std::mem::take(&mut a), a);
        "leading": |a, _| a.leading_zeros(); "ones": |a, _| a.count_ones(); "bytes": |a, _| a.to_be_bytes()[7]; "trailing": |a, _| a.trailing_zeros();
        "ilog10": |a, _| a.checked_ilog10(); "ilog2": |a, _| a.checked_ilog2(); "isqrt": |a, _| (a / 2 + a % 2).checked_ilog(10);
        "rotate": |a, _| a.rotate_left(8); "swap_bytes": |a, _| a.swap_bytes();
        "u64_from_str": |a, _| a == "17".parse::<$T>().unwrap();
        "strict": |a, b| a.strict_add(b); "try_fold": |a, b| [a, b].iter().try_fold(0, |s: $T, x| s.checked_add(*x));
        "checked_div_e": |a, b| a.checked_div_euclid(b); "unwrap_or": |a, b| a.checked_sub(b).unwrap_or_default(); "then": |a, b| (a > b).then(|| a - b); "then_some": |a, b| (a > b).then_some(a);
        "zip": |a, b| [a, b].iter().zip([b, a].iter()).filter(|(x, y)| x <= y).count() as u32; "windows": |a, b| [a, b].windows(2).all(|w| w[0] <= w[1]); "is_sorted": |a, b| [a, b].is_sorted(); "dedup": |a, b| { let mut v = vec![a, b]; v.dedup(); v.len() as u32 };
        "retain": |a, b| { let mut v = vec![a, b, 3]; v.retain(|x| *x > 2); v.len() as u32 }; "btree": |a, b| { let m = std::collections::BTreeMap::from([(a, 1u32), (b, 2)]); m.into_iter().map(|x| x.1).fold(0, |s, x| s * 10 + x) };
        "btree_get": |a, b| { let m = std::collections::BTreeMap::from([(5, 1u32), (b, 2)]); m.get(&a).copied() }; "vec_pos": |a, b| vec![b, 5].iter().rposition(|x| *x == a).map(|x| x as u32);
        "unsigned": |a, b| a.abs_diff(b) < 9; "checked_next": |a, b| a.checked_add(1).zip(b.checked_sub(1));
    } };
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = vec![];
    let b = &mut bad;
    let n: [u128; 9] = [0, 1, 2, 7, 10, 255, 65_537, 1 << 40, 1_000_000_007];
    macro_rules! pairs { ($T:ident, $more:expr) => {{
        let mut v: Vec<$T> = n.iter().map(|x| *x as $T).collect();
        v.extend($more);
        let m = v.len();
        let mut p = vec![];
        for (i, x) in v.iter().enumerate() { for j in [0, 1, 3, 5, m - 1] { p.push((*x, v[(i + j) % m])); } }
        p
    }} }
    let (pu128, pi128, pu64, pi64) = (pairs!(u128, [u128::MAX, u128::MAX / 3, 1 << 70, u64::MAX as u128, i64::MAX as u128]), pairs!(i128, [i128::MAX, i128::MIN, -1, -7, -(1 << 70), 1 << 66]), pairs!(u64, [u64::MAX, u64::MAX / 3, i64::MAX as u64]), pairs!(i64, [i64::MIN, i64::MAX, -1, -7, -1_000_000, 108_000_000]));
    common!(u128, pu128, b);
    common!(i128, pi128, b);
    common!(u64, pu64, b);
    common!(i64, pi64, b);
    macro_rules! unsigned { ($T:ident, $v:expr) => { ops! { $T, $v, b;
        "div_ceil": |a, b| a.div_ceil(b); "next_multiple": |a, b| a.checked_next_multiple_of(b); "is_pow2": |a, _| a.is_power_of_two(); "usqrt": |a, _| a.isqrt(); "umid": |a, b| a.midpoint(b); "checked_signed_diff": |a, b| a.checked_add_signed(-3).map(|x| x.min(b)); "multiple": |a, b| a.is_multiple_of(b); "bit_width": |a, _| a.checked_next_power_of_two();
    } } }
    unsigned!(u128, pu128);
    unsigned!(u64, pu64);
    macro_rules! signed { ($T:ident, $v:expr) => { ops! { $T, $v, b;
        "neg": |a, _| -a; "abs": |a, _| a.abs(); "checked_abs": |a, _| a.checked_abs(); "unsigned_abs": |a, _| a.unsigned_abs() as u128; "signum": |a, _| a.signum(); "is_neg": |a, _| a.is_negative(); "is_pos": |a, _| a.is_positive(); "sat_abs": |a, _| a.saturating_abs(); "sat_neg": |a, _| a.saturating_neg(); "shr": |a, _| a >> 3; "wrapping_abs": |a, _| a.wrapping_abs(); "sat_div": |a, b| a.saturating_div(b); "sub_unsigned": |a, b| a.checked_sub_unsigned(b.unsigned_abs());
    } } }
    signed!(i128, pi128);
    signed!(i64, pi64);
    println!("{} bad", bad.len());
    for x in &bad {
        println!("BAD {x}");
    }
    std::process::exit(!bad.is_empty() as i32);
}
