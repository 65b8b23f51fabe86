//! Large books: many levels, many orders at a level, large cancellation trees. Resting quantities
//! are fixed numbers here, what is taken from them is anything.
use super::hist::{h, qty, QMAX};
use super::sum::check_tree;
use super::swap::quote;
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::Uint128;
use sumtree_orderbook::types::OrderDirection;

pub const OWNERS: [&str; 3] = [ALICE, BOB, CAROL];

/// The `i`-th resting quantity: uneven and neither all small nor all large.
pub fn rest(i: usize) -> Uint128 {
    let i = i as u128;
    Uint128::new(1_000_003 + 7_919 * i + if i % 5 == 3 { 10u128.pow(18) } else { 0 })
}
/// `n` ticks from the worst price to the best or so
fn grid(n: usize) -> Vec<i64> {
    let n = n as i64;
    match choose(3) {
        // over several decades
        0 => (0..n).map(|i| -20_000_000 + i * 1_234_567).collect(),
        // next to each other, around price 1
        1 => (0..n).map(|i| i - n / 2).collect(),
        // a decade apart where the grid has room for it
        _ => (0..n).map(|i| -108_000_000 + i * (290_402_823 / (n - 1))).collect(),
    }
}
fn ladder(n: usize) -> (Sim, Vec<i64>, OrderDirection) {
    let (ticks, d) = (grid(n), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    // placed from the middle outwards
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| (*i as i64 - n as i64 / 2).abs());
    for i in order {
        s.place(OWNERS[i % 3], ticks[i], d, rest(i), None);
    }
    (s, ticks, d)
}
/// A market order through a ladder of levels, another one, and claims around where they ended.
fn sweep(n: usize, bounded: bool, again: bool) {
    let (mut s, ticks, d) = ladder(n);
    let b = if bounded { Some(pick(&[ticks[0], ticks[n / 3], ticks[n / 2], ticks[n - 1]])) } else { None };
    let ok = s.swap(d.opposite(), qty("in"), Uint128::zero(), b);
    s.check_state();
    if !ok {
        return;
    }
    let by = line(&s);
    claim_around(&mut s, &by);
    if again {
        s.swap(d.opposite(), Uint128::new(12_345), Uint128::zero(), None);
        s.check_state();
    }
}
/// A claim of the first order in line, of the last one reached, or of the next.
fn claim_around(s: &mut Sim, line: &[usize]) {
    let reached = line.iter().filter(|i| s.claimable(**i).pos()).count();
    let w = pick(&[0, reached.saturating_sub(1), reached]);
    if let Some(i) = line.get(w) {
        let who = s.orders[*i].owner.clone();
        s.claim(&who, *i);
    }
}
/// A market order through a ladder of levels; then somebody wants their deposit back, then everybody.
fn sweep_leave(n: usize) {
    let (mut s, _, d) = ladder(n);
    s.ch.solvency = Some("solvent: every payout is covered by the contract's balance");
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    s.check_state();
    let by = line(&s);
    let reached = by.iter().filter(|i| s.claimable(**i).pos()).count();
    let w = pick(&[0, reached / 2, reached.saturating_sub(1)]);
    let who = s.orders[by[w]].owner.clone();
    s.cancel(&who, by[w]);
    s.check_state();
    s.drain();
    s.check_state();
}
/// the orders of a one-sided book with an order per level, best price first
fn line(s: &Sim) -> Vec<usize> {
    let mut by: Vec<usize> = (0..s.orders.len()).collect();
    by.sort_by_key(|i| if is_bid(s.orders[*i].dir) { -s.orders[*i].tick } else { s.orders[*i].tick });
    by
}
fn quote_sweep(n: usize) {
    let (mut s, _, d) = ladder(n);
    quote(&mut s, d.opposite(), qty("in"));
}
/// `n` orders at one level; a market order; claims of the first, the last reached and the next order.
fn crowd(n: usize) {
    let (t, d) = (pick(&[0i64, 12_345_678]), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    for i in 0..n {
        s.place(OWNERS[i % 3], t, d, rest(i), None);
    }
    let line: Vec<usize> = (0..n).collect();
    if s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        claim_around(&mut s, &line);
    }
    s.check_state();
}
/// Which of `n` orders are cancelled (all but every `keep`-th), and in which order.
fn felled(n: usize, keep: usize) -> Vec<usize> {
    let set: Vec<usize> = (0..n).filter(|i| i % keep != keep / 2).collect();
    let m = set.len();
    match choose(5) {
        0 => set,
        1 => set.into_iter().rev().collect(),
        // from both ends inwards
        2 => (0..m).map(|i| if i % 2 == 0 { set[i / 2] } else { set[m - 1 - i / 2] }).collect(),
        // from the middle outwards
        3 => (0..m).map(|i| if i % 2 == 0 { set[m / 2 + i / 2] } else { set[m / 2 - 1 - i / 2] }).collect(),
        // in strides
        _ => {
            let stride = (3..).find(|k| gcd(*k, m) == 1 && *k * *k > m).unwrap();
            (0..m).map(|i| set[i * stride % m]).collect()
        }
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub fn fell(s: &mut Sim, n: usize, keep: usize, mut then: impl FnMut(&Sim)) {
    for i in felled(n, keep) {
        let who = s.orders[i].owner.clone();
        if !s.cancel(&who, i) {
            stop()
        }
        then(s);
    }
}
/// Many cancellations; some times a market order, a claim of the last order it reached and of the
/// first one left.
fn forest(n: usize, keep: usize, rounds: usize) {
    const T: i64 = 12_345_678;
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    for i in 0..n {
        s.place(OWNERS[i % 3], T, d, rest(i), None);
    }
    fell(&mut s, n, keep, |_| {});
    for _ in 0..rounds {
        if !s.liq(T, d).pos() || !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
        let can: Vec<usize> = (0..n).filter(|i| s.orders[*i].live && s.claimable(*i).pos()).collect();
        let (Some(a), Some(b)) = (can.last(), can.first()) else { stop() };
        for i in [*a, *b] {
            let who = s.orders[i].owner.clone();
            if s.orders[i].live && s.claimable(i).pos() {
                s.claim(&who, i);
            }
        }
    }
    s.check_state();
}
/// A tree of more than 200 cancellations; two market orders, the first one of three, the second one any.
fn trunk(n: usize, keep: usize, wide: bool) {
    const T: i64 = 12_345_678;
    let d = if wide { pick(&[Bid, Ask]) } else { Bid };
    let mut s = Sim::new();
    for i in 0..n {
        s.place(OWNERS[i % 3], T, d, Uint128::new(1_000 + 7 * (i as u128 % 11)), None);
    }
    for i in felled(n, keep) {
        let who = s.orders[i].owner.clone();
        if !s.cancel(&who, i) {
            stop()
        }
    }
    let p = s.price(T);
    let left = s.liq(T, d);
    let first = (left * Z::n(pick(&[1, 4, 7]))).fdiv(Z::n(11));
    let first = value_up(d, first, p).u128();
    if !s.swap(d.opposite(), first, Uint128::zero(), None) {
        stop()
    }
    let i = (0..n).find(|i| s.claimable(*i).pos()).unwrap();
    let who = s.orders[i].owner.clone();
    s.claim(&who, i);
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let can: Vec<usize> = (0..n).filter(|i| s.orders[*i].live && s.claimable(*i).pos()).collect();
    for i in [can[can.len() - 1], can[can.len() / 2], can[0]] {
        let who = s.orders[i].owner.clone();
        if s.claimable(i).pos() {
            s.claim(&who, i);
        }
    }
    s.check_state();
}
/// Many cancellations, the tree looked at after each.
fn trees(n: usize, keep: usize) {
    const T: i64 = 12_345_678;
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    for i in 0..n {
        s.place(OWNERS[i % 3], T, d, qty("q"), None);
    }
    fell(&mut s, n, keep, |s| check_tree(s, T, d));
}
/// An order claimed bit by bit.
fn drip(rounds: usize) {
    let (t, d) = (pick(&[0i64, 12_345_678, -17_654_321]), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    s.ch.solvency = Some("solvent: every payout is covered by the contract's balance");
    super::hist::set_fee(&mut s, atto(12_345_678_901_234_567));
    s.place(ALICE, t, d, any("q", 10u128.pow(9), QMAX), Some(atto(3_141_592_653_589_793)));
    s.place(BOB, t, d, qty("q"), None);
    for k in 0..rounds {
        let i = Uint128::new(10_007 + 3_331 * k as u128);
        if !s.swap(d.opposite(), i, Uint128::zero(), None) {
            break;
        }
        if s.claimable(0).pos() {
            s.claim(if k % 2 == 0 { CAROL } else { ALICE }, 0);
        }
        s.check_state();
    }
    s.drain();
    s.check_state();
}
/// Many orders of one account, over many ticks.
fn settle(n: usize, per_tick: usize) {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    let up = choose(2) == 0;
    for k in 0..n {
        let t = (k / per_tick) as i64 * 1_001 * if up { 1 } else { -1 };
        s.place(ALICE, t, d, qty("q"), None);
    }
    s.check_state();
    let k = pick(&[0, n / 2, n - 1]);
    s.cancel(ALICE, k);
    s.check_state();
}
const EDGES: [i64; 5] = [0, 12_345_678, -17_654_321, -108_000_000, 182_402_823];
fn most(n: &str) -> Uint128 {
    any(n, 1, u128::MAX)
}
/// Amounts up to the largest a coin can have.
fn huge() {
    let (t, d) = (pick(&EDGES), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    s.place(ALICE, t, d, most("q"), None);
    s.check_state();
    for _ in 0..2 {
        let i = most("in");
        if s.swap(d.opposite(), i, Uint128::zero(), None) {
            let w = s.orders[0].owner.clone();
            s.claim(&w, 0);
        }
        s.check_state();
    }
    s.drain();
    s.check_state();
}
/// the same with bounded market orders and any minimum
fn huge_bounded() {
    let (t, d) = (pick(&EDGES), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    s.place(ALICE, t, d, most("q"), None);
    for _ in 0..2 {
        let (i, m) = (most("in"), any("min", 0, u128::MAX));
        s.swap(d.opposite(), i, m, Some(t));
    }
}
fn huge_quote() {
    let (t, d) = (pick(&EDGES), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    s.place(ALICE, t, d, most("q"), None);
    for _ in 0..2 {
        quote(&mut s, d.opposite(), most("in"));
    }
}
/// the same with a fee and a bounty, claimed by somebody else
fn huge_split() {
    let (t, d) = (pick(&EDGES), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    if choose(2) == 1 {
        super::hist::set_fee(&mut s, atto(12_345_678_901_234_567));
    }
    let b = pick(&[None, Some(atto(10_000_000_000_000_000)), Some(atto(3_141_592_653_589_793))]);
    s.place(ALICE, t, d, most("q"), b);
    for _ in 0..2 {
        if !s.swap(d.opposite(), most("in"), Uint128::zero(), None) {
            stop()
        }
        if choose(2) == 0 {
            s.claim(BOB, 0);
        } else {
            s.batch(BOB, &[0]);
        }
    }
}
/// Both sides of one level, each with three orders: the first is cancelled, some of the rest is sold,
/// the second claims, the third leaves; the two sides interleaved in any way.
fn both_sides(sell_first: bool) {
    const T: i64 = 12_345_678;
    let mut s = Sim::new();
    for d in [Bid, Ask] {
        for i in 0..3 {
            s.place(OWNERS[i], T, d, qty("q"), None);
        }
    }
    let mut at = [0usize, 0];
    while at != [4, 4] {
        let side = if at[0] == 4 {
            1
        } else if at[1] == 4 {
            0
        } else {
            choose(2)
        };
        let (d, base) = ([Bid, Ask][side], side * 3);
        let ok = match (at[side], sell_first) {
            (0, false) | (1, true) => s.cancel(OWNERS[0], base) || sell_first,
            (1, false) | (0, true) => s.swap(d.opposite(), qty("in"), Uint128::zero(), None),
            (2, _) => s.claim(OWNERS[1], base + 1),
            _ => s.cancel(OWNERS[2], base + 2) || true,
        };
        if !ok {
            stop()
        }
        at[side] += 1;
    }
    s.check_state();
    for i in [2, 5] {
        if s.claimable(i).pos() {
            s.claim(OWNERS[2], i);
        }
    }
}
pub fn all() -> Vec<H> {
    vec![
        h!("C03", "sweep_40", true, ["swap"], || sweep(40, false, false), "40 levels (far apart, adjacent, over the whole grid) on either side with fixed quantities; a market order of 1..10^30 and a claim around where it ended", ["swap ok", "swap rejected"]),
        h!("C17", "sweep_bounded", true, ["swap"], || sweep(16, true, false), "16 levels as in sweep_40; a market order of 1..10^30 bounded by one of 4 of them", ["swap ok", "swap rejected"]),
        h!("C13", "quote_sweep_40", true, [], || quote_sweep(40), "40 levels on either side with fixed quantities; a quote of 1..10^30 and the swap", ["quoted and swapped", "neither"]),
        h!("C02", "crowd_130", true, ["fifo", "priority"], || crowd(130), "130 orders at one level with fixed quantities; a market order of 1..10^30 and a claim of the first order, of the last one reached, or of the next", ["claim ok"]),
        h!("C14", "sweep_totals", true, ["tal"], || sweep(16, false, true), "16 levels as in sweep_40; two market orders and a claim", ["swap ok", "claim ok"]),
        h!("C15", "sweep_pointers", true, ["ptr", "swap"], || sweep(12, true, true), "12 levels as in sweep_40; a bounded market order, a claim, another market order", ["swap ok", "claim ok"]),
        h!("C24", "sweep_elsewhere", true, ["fifo", "tal", "record"], || sweep(12, false, true), "12 levels as in sweep_40; two market orders and a claim", ["swap ok", "claim ok"]),
        h!("C07", "forest_40", true, ["fifo", "cancel", "live"], || forest(40, 5, 2), "40 orders with fixed quantities, 32 of them cancelled in 5 orders; twice a market order of 1..10^30 and claims around where it ended", ["cancel ok", "claim ok"]),
        h!("C07", "forest_60", false, ["fifo", "cancel", "live"], || forest(60, 6, 2), "60 orders with fixed quantities, 50 of them cancelled in 5 orders; twice a market order of 1..10^30 and claims around where it ended", ["cancel ok", "claim ok"]),
        h!("C26", "forest_trees", true, [], || trees(150, 5), "150 orders of any quantities, 120 of them cancelled in 5 orders, the tree looked at after each", ["cancel ok"]),
        h!("C07", "trunk", true, ["fifo", "cancel", "live"], || trunk(270, 5, false), "270 bids with fixed quantities, 216 of them cancelled in 5 orders; one of 3 market orders and a claim, another market order of 1..10^30, claims of the last, the middle and the first order reached", ["cancel ok", "claim ok"]),
        h!("C07", "forest_trunk", false, ["fifo", "cancel", "live"], || forest(260, 5, 1), "260 orders with fixed quantities, 208 of them cancelled in 5 orders; a market order of 1..10^30 and claims around where it ended", ["cancel ok", "claim ok"]),
        h!("C01", "sweep_leave", true, ["solvent"], || sweep_leave(24), "24 levels as in sweep_40; a market order of 1..10^30; the first, the middle or the last of the orders it reached tries to cancel; then everybody leaves", ["swap ok", "cancel ok"]),
        h!("C24", "both_sides", true, ["fifo", "tal", "record", "cancel"], || both_sides(false), "3 bids and 3 asks of 1..10^30 at one level; on each side: the first is cancelled, a market order of 1..10^30 comes, the second claims, the third leaves; every interleaving of the two sides", ["claim ok", "cancel ok"]),
        h!("C13", "huge_quote", true, [], huge_quote, "an order, 2 quotes and the swaps of 1..2^128-1 at 5 price levels including the grid's edges", ["quoted and swapped", "neither"]),
        h!("C17", "huge_bounded", true, ["swap"], huge_bounded, "an order and 2 bounded market orders of 1..2^128-1 with any minimum at 5 price levels including the grid's edges", ["swap ok", "swap rejected"]),
        h!("C05", "huge_split", true, ["split"], huge_split, "an order and 2 market orders of 1..2^128-1 at 5 price levels, with and without a fee and bounties; claimed singly or in a batch by somebody else", ["claim ok", "batch ok"]),
        h!("C23", "huge_split", true, ["split"], huge_split, "an order and 2 market orders of 1..2^128-1 at 5 price levels, with and without a fee and bounties; claimed singly or in a batch by somebody else", ["claim ok", "batch ok"]),
        h!("C25", "huge", true, ["event"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["claim ok", "cancel ok"]),
        h!("C14", "huge", true, ["tal"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["claim ok", "cancel ok"]),
        h!("C04", "huge", true, ["record"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["claim ok", "cancel ok"]),
        h!("C06", "huge", true, ["cancel"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["cancel ok"]),
        h!("C01", "huge", true, ["solvent"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["claim ok", "cancel ok"]),
        h!("C01", "drip", true, ["solvent"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C02", "drip", true, ["fifo"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C04", "drip", true, ["record"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C05", "drip", true, ["split"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C14", "drip", true, ["tal"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C20", "drip", true, ["live"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C23", "drip", true, ["split"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C25", "drip", true, ["event"], || drip(20), "an order of 10^9..10^30 and one of 1..10^30 at 3 price levels, fee and bounty; 20 small market orders, the first order claimed after each by the owner or somebody else; then everybody leaves", ["claim ok"]),
        h!("C04", "settle", true, ["record"], || settle(260, 2), "260 orders of 1..10^30 of one account at 130 ticks, upwards or downwards, either side; one of them cancelled", ["cancel ok"]),
        h!("C06", "settle", true, ["cancel"], || settle(260, 2), "260 orders of 1..10^30 of one account at 130 ticks, upwards or downwards, either side; one of them cancelled", ["cancel ok"]),
        h!("C12", "settle", true, ["place"], || settle(260, 2), "260 orders of 1..10^30 of one account at 130 ticks, upwards or downwards, either side; one of them cancelled", ["cancel ok"]),
        h!("C14", "settle", true, ["tal"], || settle(260, 2), "260 orders of 1..10^30 of one account at 130 ticks, upwards or downwards, either side; one of them cancelled", ["cancel ok"]),
        h!("C15", "settle", true, ["ptr"], || settle(260, 2), "260 orders of 1..10^30 of one account at 130 ticks, upwards or downwards, either side; one of them cancelled", ["cancel ok"]),
        h!("C20", "settle", true, ["live"], || settle(260, 2), "260 orders of 1..10^30 of one account at 130 ticks, upwards or downwards, either side; one of them cancelled", ["cancel ok"]),
        h!("C03", "sweep_130", true, ["swap"], || sweep(130, false, false), "130 levels as in sweep_40; a market order of 1..10^30 and a claim around where it ended", ["swap ok", "swap rejected"]),
        h!("C20", "huge", true, ["live"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["swap ok", "claim ok"]),
        h!("C03", "huge", true, ["swap"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["swap ok"]),
        h!("C02", "huge", true, ["fifo"], huge, "an order and 2 market orders of 1..2^128-1 at 5 price levels including the grid's edges", ["claim ok"]),
    ]
}
