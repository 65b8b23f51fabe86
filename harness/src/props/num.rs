//! The price grid and amount conversions.
use super::hist::{h, QMAX};
use crate::chain::*;
use crate::book::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::{Decimal256, Uint128, Uint256};
use sumtree_orderbook::tick_math::*;

/// a direct call into the contract's arithmetic; an abort there is the contract's
fn direct<T>(what: &'static str, f: impl FnOnce() -> T) -> T {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) if is_engine(&*p) => std::panic::resume_unwind(p),
        Err(p) => {
            let m = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("");
            if m.starts_with("SYMRT") {
                std::panic::resume_unwind(p);
            }
            fail(what)
        }
    }
}
const CONV: &str = "convert: a conversion never aborts";
const GRID: &str = "grid: asking for a price never aborts";
fn rounding() -> (RoundingDirection, bool) {
    if choose(2) == 0 {
        (RoundingDirection::Down, false)
    } else {
        (RoundingDirection::Up, true)
    }
}
/// any price with 18 decimals at all
fn any_price() -> Decimal256 {
    let hi = any("price high", 0, u128::MAX);
    let lo = any("price low", 0, u128::MAX);
    let two64 = Uint256::from(1u128 << 64);
    let a = Uint256::from(hi) * two64 * two64 + Uint256::from(lo);
    Decimal256::new(a)
}
fn grid_price() -> (i64, Decimal256, Z) {
    let (t, q) = any_tick();
    match direct(GRID, || tick_to_price(t)) {
        Ok(p) => (t, p, q),
        Err(_) => fail("convert: every tick of the grid has a price"),
    }
}
fn mul_any() {
    let p = any_price();
    let a = any("amount", 0, u128::MAX);
    let (r, up) = rounding();
    let x = direct(CONV, || multiply_by_price(a, p, r));
    note(format!("{a} * {p} -> {}", x.as_ref().map(|v| v.to_string()).unwrap_or_else(|_| "error".into())));
    let full = Z::u(a) * Z::atomics(p);
    match x {
        Ok(v) => {
            let want = if up { full.cdiv(Z::n(ONE18)) } else { full.fdiv(Z::n(ONE18)) };
            check("convert: the exact product, rounded as asked", || Z::w(v).eq(want));
        }
        Err(_) => {
            check("convert: only a product that does not fit is refused", || full.ge(Z::c(pow2(256))));
            reach("refused");
        }
    }
}
fn pow2(n: u32) -> Big {
    let mut b = Big::ONE;
    for _ in 0..n {
        b = b + b;
    }
    b
}
fn div_any() {
    let p = any_price();
    let a = any("amount", 0, u128::MAX);
    let (r, up) = rounding();
    let x = direct(CONV, || divide_by_price(a, p, r));
    note(format!("{a} / {p} -> {}", x.as_ref().map(|v| v.to_string()).unwrap_or_else(|_| "error".into())));
    let (n, d) = (Z::u(a) * Z::n(ONE18), Z::atomics(p));
    match x {
        Ok(v) => {
            check("convert: no division by zero", || d.pos());
            let want = if up { n.cdiv(d) } else { n.fdiv(d) };
            check("convert: the exact quotient, rounded as asked", || Z::w(v).eq(want));
        }
        Err(_) => {
            // at a zero price, or (rounding up) at prices next to the largest number there is
            check("convert: only a quotient that cannot be computed is refused", || {
                d.is_zero() || (up && (n + d).gt(Z::c(pow2(256))))
            });
            reach("refused");
        }
    }
}
fn value_grid() {
    let (t, p, q) = grid_price();
    let a = any("amount", 0, u128::MAX);
    let d = pick(&[Bid, Ask]);
    let (r, up) = rounding();
    let x = direct(CONV, || amount_to_value(d, a, p, r));
    note(format!("{d} {a} at tick {t} -> {}", x.as_ref().map(|v| v.to_string()).unwrap_or_else(|_| "error".into())));
    let want = if up { value_up(d, Z::u(a), q) } else { value_down(d, Z::u(a), q) };
    match x {
        Ok(v) => {
            observe("value", v);
            check("convert: bids divide by the price, asks multiply, rounded as asked", || Z::w(v).eq(want))
        }
        Err(_) => fail("convert: every amount converts at every price of the grid"),
    }
}
/// there and back never gains
fn round_trip() {
    let (t, p, _) = grid_price();
    let a = any("amount", 0, u128::MAX);
    let d = pick(&[Bid, Ask]);
    let v = match direct(CONV, || amount_to_value(d, a, p, RoundingDirection::Down)) {
        Ok(v) => v,
        Err(_) => fail("convert: every amount converts at every price of the grid"),
    };
    let Ok(w) = Uint128::try_from(v) else { stop() };
    note(format!("{d} {a} at tick {t} -> {v}"));
    let (r, _) = rounding();
    match direct(CONV, || amount_to_value(d.opposite(), w, p, r)) {
        Ok(b) => {
            observe("back", b);
            check("convert: there and back never creates value", || Z::w(b).le(Z::u(a)));
        }
        Err(_) => fail("convert: every amount converts at every price of the grid"),
    }
}
const DECADE: i64 = 9_000_000;
const LO: i64 = -108_000_000;
const HI: i64 = 182_402_823;
/// any tick of the grid and what its price has to be: 10^d + (t - d * 9e6) * 10^(d-6) in decade d
fn any_tick() -> (i64, Z) {
    let d = choose(33) as i64 - 12;
    let t = any_i64("tick", d * DECADE, (d * DECADE + DECADE - 1).min(HI));
    let p = |e: i64| Z::c(pow10((18 + e) as u32));
    (t, p(d) + (Z::i(t) - Z::i(d * DECADE)) * p(d - 6))
}
fn grid_all() {
    let (t, q) = any_tick();
    note(format!("tick {t}"));
    match direct(GRID, || tick_to_price(t)) {
        Ok(p) => {
            observe("price", p);
            check("grid: the price of a tick is exact", || Z::atomics(p).eq(q))
        }
        Err(_) => fail("grid: every tick of the grid has a price"),
    }
}
/// any two ticks, the second above the first
fn grid_order() {
    let (t, _) = any_tick();
    let (u, _) = any_tick();
    assume(Z::i(t).lt(Z::i(u)));
    note(format!("ticks {t} and {u}"));
    match direct(GRID, || (tick_to_price(t), tick_to_price(u))) {
        (Ok(p), Ok(q)) => {
            observe("prices", format!("{p} {q}"));
            check("grid: a higher tick has a higher price", || Z::atomics(p).lt(Z::atomics(q)))
        }
        _ => fail("grid: every tick of the grid has a price"),
    }
}
fn outside() -> i64 {
    if choose(2) == 0 {
        any_i64("tick", i64::MIN, LO - 1)
    } else {
        any_i64("tick", HI + 1, i64::MAX)
    }
}
fn grid_outside() {
    let t = outside();
    note(format!("tick {t}"));
    let r = direct(GRID, || tick_to_price(t));
    check("grid: ticks outside the range have no price", || r.is_err());
}
fn place_outside() {
    let mut s = Sim::new();
    let t = outside();
    let d = pick(&[Bid, Ask]);
    let q = any("q", 1, QMAX);
    let (funds, before) = ([(maker_denom(d), Z::u(q))], s.ch.ticks());
    let r = s.ch.exec("bob", &funds, sumtree_orderbook::msg::ExecuteMsg::PlaceLimit { tick_id: t, order_direction: d, quantity: q, claim_bounty: None });
    note(format!("{d} of {q} at {t} -> {}", show(&r)));
    s.obs("place", &r);
    check("grid: no order at a tick outside the range", || r.is_err() && s.ch.ticks() == before);
}
pub fn all() -> Vec<H> {
    vec![
        h!("C09", "multiply", true, [], mul_any, "every amount below 2^128, every price below 2^256 in 10^-18 units, both roundings", ["refused"]),
        h!("C09", "divide", true, [], div_any, "every amount below 2^128, every price below 2^256 in 10^-18 units, both roundings", ["refused"]),
        h!("C09", "value_on_grid", true, [], value_grid, "every amount below 2^128 at the price of every tick of the grid, either side, both roundings", []),
        h!("C09", "round_trip", true, [], round_trip, "every amount below 2^128 at the price of every tick of the grid, either side, both roundings on the way back", []),
        h!("C08", "grid_all", true, [], grid_all, "every tick of the grid", []),
        h!("C08", "grid_order", true, [], grid_order, "every pair of ticks of the grid", []),
        h!("C08", "grid_outside", true, [], grid_outside, "every 64-bit tick outside the grid", []),
        h!("C08", "place_outside", true, [], place_outside, "an order at every 64-bit tick outside the grid, either side, every amount", []),
    ]
}
