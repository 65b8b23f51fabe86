//! Market orders: pricing, minimum output, refunds, bounds, quotes, pointers, spot price.
use super::hist::{h, hit, qty, Hist, Op, QMAX, TICKS};
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::{coin, Coin, Decimal, Uint128};
use sumtree_orderbook::constants::{MAX_TICK, MIN_TICK};
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::OrderDirection;

/// price levels over the whole grid: 10^-12 .. 3.4*10^20, the decades' edges, long fractions, and
/// prices whose inverse is below the 18-decimal fixed point
pub const EXT: [i64; 12] = [
    MIN_TICK,
    -99_000_001,
    -45_123_457,
    -9_000_000,
    -1,
    0,
    1,
    8_999_999,
    12_345_678,
    99_000_000,
    170_000_000,
    MAX_TICK,
];
pub const EXT_FEW: [i64; 5] = [MIN_TICK, -17_654_321, 12_345_678, 170_000_000, MAX_TICK];

fn min_out() -> Uint128 {
    if choose(2) == 0 {
        Uint128::zero()
    } else {
        any("min", 1, QMAX)
    }
}
pub fn input() -> Uint128 {
    any("in", 0, QMAX)
}
/// one level, two orders on it, two market orders
fn one_level(ticks: &[i64], swaps: usize) {
    let (t, d) = (pick(ticks), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    s.place(ALICE, t, d, qty("q"), None);
    s.place(BOB, t, d, qty("q"), None);
    for _ in 0..swaps {
        let m = min_out();
        let b = if choose(2) == 0 { None } else { Some(t) };
        s.swap(d.opposite(), input(), m, b);
    }
}
/// several levels on one side
fn levels(sets: &[[i64; 3]], swaps: usize) {
    let (l, d) = (pick(sets), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    for t in l {
        s.place(ALICE, t, d, qty("q"), None);
    }
    for _ in 0..swaps {
        let m = min_out();
        s.swap(d.opposite(), input(), m, None);
    }
}
/// orders on both sides, also crossed: a market order only trades with the other side
fn both_sides(swaps: usize) {
    let (a, b) = pick(&[(12_345_678i64, -17_654_321i64), (-17_654_321, 12_345_678), (0, 0)]);
    let mut s = Sim::new();
    s.place(ALICE, a, Bid, qty("q"), None);
    s.place(BOB, b, Ask, qty("q"), None);
    for _ in 0..swaps {
        let d = pick(&[Bid, Ask]);
        s.swap(d, input(), Uint128::zero(), None);
    }
}
/// the book changed by claims, cancellations and new orders before the market order comes
fn after_history(steps: usize) {
    let d = pick(&[Bid, Ask]);
    let h = Hist {
        slots: vec![(-17_654_321, d), (12_345_678, d)],
        init: vec![(ALICE, 0), (BOB, 1)],
        ops: vec![hit(d), Op::Claim, Op::Cancel, Op::Place(0), Op::Place(1)],
        steps,
        drain: false,
        ..Default::default()
    };
    let mut s = h.run();
    let m = min_out();
    s.swap(d.opposite(), input(), m, None);
}
fn wrong_swaps() {
    let mut s = Sim::new();
    s.place(ALICE, 0, Bid, qty("q"), None);
    s.place(BOB, 12_345_678, Ask, qty("q"), None);
    let q = qty("in");
    let denoms = [base_denom(), quote_denom(), "other"];
    let (din, dout) = (pick(&denoms), pick(&denoms));
    let fee = Decimal::new(any("swap fee", 0, 1_000_000_000_000_000_000));
    let to_tick = choose(2) == 1;
    let sender = TAKER.to_string();
    let token_in = Coin { denom: din.into(), amount: q };
    let msg = if to_tick {
        SudoMsg::SwapToTick {
            sender,
            token_in,
            token_out_denom: dout.into(),
            token_out_min_amount: Uint128::zero(),
            swap_fee: fee,
            target_tick: if din == base_denom() { MIN_TICK } else { MAX_TICK },
        }
    } else {
        SudoMsg::SwapExactAmountIn {
            sender,
            token_in,
            token_out_denom: dout.into(),
            token_out_min_amount: Uint128::zero(),
            swap_fee: fee,
        }
    };
    let dir = if din == base_denom() { Ask } else { Bid };
    let e = s.ref_swap(dir, Z::u(q), None);
    let r = s.ch.tx(TAKER, &[(din.to_string(), Z::u(q))], move |d, e, _| sumtree_orderbook::sudo::sudo(d, e, msg));
    note(format!("swap {q} {din} for {dout}, fee {fee} -> {}", show(&r)));
    observe("swap", show(&r));
    let pair = (din == base_denom() && dout == quote_denom()) || (din == quote_denom() && dout == base_denom());
    match &r {
        Ok(t) => {
            reach("swap ok");
            check("swap: only the book's own pair can be swapped", || pair);
            check("swap: only a zero swap fee is accepted", || fee.is_zero());
            check("swap: the taker gets exactly what the resting orders give at their prices", || {
                e.ok && t.to(TAKER, dout).eq(e.out) && t.to(TAKER, din).eq(e.refund)
            });
        }
        Err(_) => {
            reach("swap rejected");
            check("swap: a swap the book can serve is not rejected", || !(pair && fee.is_zero() && e.ok));
        }
    }
}

// ---- bounded swaps ----
fn bounded(ticks: [i64; 3], swaps: usize) {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    for t in ticks {
        s.place(ALICE, t, d, qty("q"), None);
    }
    let mut targets = vec![MIN_TICK, MAX_TICK];
    for t in ticks {
        for x in [t - 1, t, t + 1] {
            if (MIN_TICK..=MAX_TICK).contains(&x) && !targets.contains(&x) {
                targets.push(x)
            }
        }
    }
    let b = pick(&targets);
    let m = min_out();
    s.swap(d.opposite(), input(), m, Some(b));
    for k in 1..swaps {
        if k == 1 {
            // and an unbounded one meets what the first left behind
            s.swap(d.opposite(), input(), Uint128::zero(), None);
        } else {
            let b = pick(&targets);
            s.swap(d.opposite(), input(), Uint128::zero(), Some(b));
        }
    }
}
fn bad_bounds() {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    s.place(ALICE, 0, d, qty("q"), None);
    let b = pick(&[MIN_TICK - 1, MAX_TICK + 1, i64::MIN, i64::MAX]);
    let q = qty("in");
    let r = s.ch.swap(d.opposite(), q, Uint128::zero(), Some(b));
    note(format!("swap {q} to tick {b} -> {}", show(&r)));
    observe("swap", show(&r));
    check("swap: a target outside the grid is refused", || r.is_err());
}

// ---- quotes ----
pub fn quote(s: &mut Sim, dir: OrderDirection, q: Uint128) {
    let (din, dout) = (maker_denom(dir), maker_denom(dir.opposite()));
    let before = s.ch.store.0.clone();
    let mk = |n: bool| {
        let token_in = Coin { denom: din.into(), amount: q };
        if n {
            QueryMsg::CalcOutAmountGivenIn { token_in, token_out_denom: dout.into(), swap_fee: Decimal::zero() }
        } else {
            QueryMsg::CalcOutAmtGivenIn { token_in, token_out_denom: dout.into(), swap_fee: Decimal::zero() }
        }
    };
    let a: Result<CalcOutAmtGivenInResponse, String> = s.ch.query(mk(true));
    let b: Result<CalcOutAmtGivenInResponse, String> = s.ch.query(mk(false));
    check("quote: both forms of the query agree", || match (&a, &b) {
        (Ok(a), Ok(b)) => {
            a.token_out.denom == b.token_out.denom && Z::of(&a.token_out.amount).eq(Z::of(&b.token_out.amount))
        }
        (Err(_), Err(_)) => true,
        _ => false,
    });
    check("quote: quoting changes nothing", || before == s.ch.store.0);
    let r = s.ch.swap(dir, q, Uint128::zero(), None);
    note(format!(
        "quote {dir} {q} -> {}; swap -> {}",
        a.as_ref().map(|x| x.token_out.amount.clone()).unwrap_or_else(|_| "rejected".into()),
        show(&r)
    ));
    s.obs("swap", &r);
    match (&a, &r) {
        (Ok(x), Ok(t)) => {
            reach("quoted and swapped");
            check("quote: the quoted output is what the swap pays", || {
                x.token_out.denom == dout && Z::of(&x.token_out.amount).eq(t.to(TAKER, dout))
            });
        }
        (Ok(x), Err(_)) => {
            check("quote: a quoted positive output can be had", || Z::of(&x.token_out.amount).is_zero())
        }
        (Err(_), Ok(_)) => check("quote: a swap that works can be quoted", || false),
        (Err(_), Err(_)) => {
            reach("neither");
        }
    }
}
fn quotes(sets: &[[i64; 3]]) {
    let (l, d) = (pick(sets), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    for t in l {
        s.place(ALICE, t, d, qty("q"), None);
    }
    s.place(BOB, l[1], d.opposite(), qty("q"), None);
    for _ in 0..2 {
        quote(&mut s, d.opposite(), input());
    }
}
fn quotes_history(steps: usize) {
    let d = pick(&[Bid, Ask]);
    let h = Hist {
        slots: vec![(-17_654_321, d), (12_345_678, d)],
        init: vec![(ALICE, 0), (BOB, 1)],
        ops: vec![hit(d), Op::Claim, Op::Cancel, Op::Place(0), Op::Place(1)],
        steps,
        drain: false,
        ..Default::default()
    };
    let mut s = h.run();
    quote(&mut s, d.opposite(), input());
}
fn quotes_bad() {
    let mut s = Sim::new();
    s.place(ALICE, 0, Bid, qty("q"), None);
    s.place(ALICE, 0, Ask, qty("q"), None);
    let denoms = [base_denom(), quote_denom(), "other"];
    let (din, dout) = (pick(&denoms), pick(&denoms));
    let fee = Decimal::new(any("swap fee", 0, 1_000_000_000_000_000_000));
    let q = input();
    let r: Result<CalcOutAmtGivenInResponse, String> = s.ch.query(QueryMsg::CalcOutAmountGivenIn {
        token_in: Coin { denom: din.into(), amount: q },
        token_out_denom: dout.into(),
        swap_fee: fee,
    });
    note(format!("quote {q} {din} for {dout} fee {fee} -> {}", if r.is_ok() { "ok" } else { "rejected" }));
    let pair = (din == base_denom() && dout == quote_denom()) || (din == quote_denom() && dout == base_denom());
    check("quote: no quote for a foreign pair or a fee", || r.is_err() || (pair && fee.is_zero()));
}

// ---- pointers ----
fn pointers(steps: usize, prices: [i64; 3]) {
    let [a, b, c] = prices;
    pointers4(steps, [a, b, b, c]);
}
fn pointers4(steps: usize, levels: [i64; 4]) {
    let [a, b, b2, c] = levels;
    let h = Hist {
        slots: vec![(a, Bid), (b, Bid), (b2, Ask), (c, Ask)],
        init: vec![(ALICE, choose(2)), (BOB, 2 + choose(2))],
        ops: vec![Op::HitBids, Op::HitAsks, Op::Place(0), Op::Place(1), Op::Place(2), Op::Place(3), Op::Cancel],
        steps,
        drain: false,
        ..Default::default()
    };
    let mut s = h.run();
    let d = pick(&[Bid, Ask]);
    s.swap(d, input(), Uint128::zero(), None);
    s.check_state();
}
fn pointers_bounded(steps: usize) {
    let d = pick(&[Bid, Ask]);
    let ticks = [-17_654_321i64, 0, 12_345_678];
    let mut s = Sim::new();
    for _ in 0..2 {
        let t = pick(&ticks);
        s.place(ALICE, t, d, qty("q"), None);
    }
    s.check_state();
    for _ in 0..steps {
        match choose(3) {
            0 => {
                let b = pick(&[-17_654_321i64, -5, 0, 5, 12_345_678]);
                if !s.swap(d.opposite(), qty("in"), Uint128::zero(), Some(b)) {
                    stop()
                }
            }
            1 => {
                let t = pick(&ticks);
                s.place(BOB, t, d, qty("q"), None);
            }
            _ => {
                if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
                    stop()
                }
            }
        }
        s.check_state();
    }
    s.swap(d.opposite(), input(), Uint128::zero(), None);
}

// ---- spot price ----
fn spot(steps: usize, ticks: &[i64]) {
    let mut s = Sim::new();
    let (mut bid, mut ask) = (MIN_TICK, MAX_TICK);
    check_spot(&mut s, bid, ask);
    for _ in 0..steps {
        match choose(4) {
            k @ (0 | 1) => {
                let t = pick(ticks);
                let d = if k == 0 { Bid } else { Ask };
                s.place(ALICE, t, d, qty("q"), None);
                if d == Bid {
                    bid = bid.max(t)
                } else {
                    ask = ask.min(t)
                }
            }
            k => {
                let d = if k == 2 { Ask } else { Bid };
                let q = qty("in");
                let e = s.ref_swap(d, Z::u(q), None);
                if !s.swap(d, q, Uint128::zero(), None) || !e.ok {
                    stop()
                }
                if let Some(l) = e.fills.last() {
                    if d == Ask {
                        bid = l.0
                    } else {
                        ask = l.0
                    }
                }
            }
        }
        check_spot(&mut s, bid, ask);
    }
}
fn check_spot(s: &mut Sim, bid: i64, ask: i64) {
    let (pb, pa) = (s.price(bid), s.price(ask));
    let inv = (Z::n(ONE18) * Z::n(ONE18)).fdiv(pa);
    for (b, q, want) in [(base_denom(), quote_denom(), pb), (quote_denom(), base_denom(), inv)] {
        let r: Result<SpotPriceResponse, String> =
            s.ch.query(QueryMsg::SpotPrice { quote_asset_denom: q.into(), base_asset_denom: b.into() });
        observe("spot", r.as_ref().map(|x| x.spot_price.to_string()).unwrap_or_default());
        check("spot: the price of the best tick of the direction asked for", || {
            r.map_or(false, |x| Z::of(x.spot_price.atomics()).eq(want))
        });
    }
}
fn spot_pairs() {
    let mut s = Sim::new();
    s.place(ALICE, 12_345_678, Bid, qty("q"), None);
    let denoms = [base_denom(), quote_denom(), "other"];
    let (b, q) = (pick(&denoms), pick(&denoms));
    let r: Result<SpotPriceResponse, String> =
        s.ch.query(QueryMsg::SpotPrice { quote_asset_denom: q.into(), base_asset_denom: b.into() });
    note(format!("spot {b}/{q} -> {}", if r.is_ok() { "ok" } else { "rejected" }));
    let pair = (b == base_denom() && q == quote_denom()) || (b == quote_denom() && q == base_denom());
    check("spot: answered exactly for the book's own pair", || r.is_ok() == pair);
    let _ = coin(1, "x");
}

const SETS: [[i64; 3]; 3] = [TICKS, [12_345_678, 12_345_679, 99_000_000], [MIN_TICK, 170_000_000, MAX_TICK]];
const SETS_ALL: [[i64; 3]; 6] = [
    TICKS,
    [12_345_678, 12_345_679, 99_000_000],
    [MIN_TICK, 170_000_000, MAX_TICK],
    [-99_000_001, -9_000_000, -1],
    [-1, 0, 1],
    [8_999_999, 161_999_999, 162_000_001],
];

pub fn all() -> Vec<H> {
    vec![
        h!("C03", "swap_one_level", true, ["swap"], || one_level(&EXT, 2), "2 orders of 1..10^30 at one of 12 price levels over the whole grid, either side; 2 market orders of 0..10^30, bounded by that level or not, with any minimum output", ["swap ok", "swap rejected"]),
        h!("C03", "swap_levels", true, ["swap"], || levels(&SETS, 2), "3 orders at 3 price levels (3 sets, including the grid's extremes), either side; 2 market orders of 0..10^30 with any minimum output", ["swap ok", "swap rejected"]),
        h!("C03", "swap_both_sides", true, ["swap"], || both_sides(3), "a bid and an ask, crossed or not; 3 market orders in either direction", ["swap ok"]),
        h!("C03", "swap_after_history", true, ["swap"], || after_history(2), "2 price levels, 2 events out of {swap, claim, cancel, place}, then a market order with any minimum", ["swap ok", "swap rejected"]),
        h!("C03", "swap_wrong", true, ["swap"], wrong_swaps, "every pair of denominations, every swap fee, bounded or not", ["swap ok", "swap rejected"]),
        h!("C03", "swap_levels_all", false, ["swap"], || levels(&SETS_ALL, 3), "as swap_levels with 6 sets and 3 market orders", ["swap ok"]),
        h!("C03", "swap_after_history_3", false, ["swap"], || after_history(3), "as swap_after_history with 3 events", ["swap ok"]),
        h!("C17", "bounded_levels", true, ["swap"], || bounded([-17_654_321, 0, 12_345_678], 2), "3 price levels, either side; targets below, at, just beyond every level and at the grid's edges; any minimum; followed by an unbounded swap", ["swap ok", "swap rejected"]),
        h!("C17", "bounded_extreme", true, ["swap"], || bounded([MIN_TICK, 170_000_000, MAX_TICK], 2), "as bounded_levels at the extremes of the grid", ["swap ok"]),
        h!("C17", "bounded_bad", true, ["swap"], bad_bounds, "targets outside the grid", []),
        h!("C17", "bounded_levels_3", false, ["swap"], || bounded([-17_654_321, 0, 12_345_678], 3), "as bounded_levels, with a third, bounded swap", ["swap ok"]),
        h!("C13", "quote_levels", true, [], || quotes(&SETS), "3 price levels (3 sets), an order on the other side; 2 quotes each followed by the swap", ["quoted and swapped", "neither"]),
        h!("C13", "quote_history", true, [], || quotes_history(2), "2 events, then a quote and the swap", ["quoted and swapped", "neither"]),
        h!("C13", "quote_bad", true, [], quotes_bad, "every pair of denominations and every fee", []),
        h!("C13", "quote_history_3", false, [], || quotes_history(3), "3 events, then a quote and the swap", ["quoted and swapped"]),
        h!("C15", "pointers_two_sides", true, ["ptr", "swap"], || pointers(2, [-17_654_321, 0, 12_345_678]), "bids and asks over 3 price levels, 2 initial orders, 2 events out of {market order, placement at any level, cancellation}, then any market order", ["swap ok"]),
        h!("C15", "pointers_crossed", true, ["ptr", "swap"], || pointers(2, [MAX_TICK, 0, MIN_TICK]), "as pointers_two_sides with crossed books at the grid's edges", ["swap ok"]),
        h!("C15", "pointers_bounded", true, ["ptr", "swap"], || pointers_bounded(2), "2 orders at any of 3 levels, 2 events out of {bounded swap, swap, placement}, then any market order", ["swap ok"]),
        h!("C15", "pointers_near", true, ["ptr", "swap"], || pointers4(2, super::hist::LV_NEAR), "as pointers_two_sides with adjacent ticks", ["swap ok"]),
        h!("C15", "pointers_dust", true, ["ptr", "swap"], || pointers4(2, super::hist::LV_DUST), "as pointers_two_sides at prices 0.5 and 0.2 / 2 and 5, where remainders are worth nothing", ["swap ok"]),
        h!("C15", "pointers_3", false, ["ptr", "swap"], || pointers(3, [-17_654_321, 0, 12_345_678]), "as pointers_two_sides with 3 events", ["swap ok"]),
        h!("C15", "pointers_bounded_3", false, ["ptr", "swap"], || pointers_bounded(3), "as pointers_bounded with 3 events", ["swap ok"]),
        h!("C27", "spot_events", true, [], || spot(3, &[-17_654_321, 0, 12_345_678]), "every sequence of 3 placements or market orders over 3 levels on both sides", ["swap ok"]),
        h!("C27", "spot_extreme", true, [], || spot(2, &EXT), "every sequence of 2 events over 12 levels of the whole grid", []),
        h!("C27", "spot_pairs", true, [], spot_pairs, "every pair of denominations", []),
        h!("C27", "spot_events_4", false, [], || spot(4, &[-17_654_321, 0, 12_345_678]), "every sequence of 4 events", ["swap ok"]),
    ]
}
