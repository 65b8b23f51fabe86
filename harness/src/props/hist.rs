//! Histories of placements, swaps, claims and cancellations over symbolic amounts.
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::Uint128;
use sumtree_orderbook::types::OrderDirection;

pub const QMAX: u128 = 1_000_000_000_000_000_000_000_000_000_000; // 10^30
/// one, ten-ish with a long fraction, and a small fraction: rounding matters at the last two
pub const TICKS: [i64; 3] = [0, 12_345_678, -17_654_321];

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    /// a market order against resting bids / asks
    HitBids,
    HitAsks,
    /// a new order in slot i
    Place(usize),
    /// the owner claims any order
    Claim,
    /// somebody else claims any order
    ClaimBy(&'static str),
    /// the owner cancels any order
    Cancel,
    /// somebody else tries to cancel
    CancelBy(&'static str),
    /// a market order that stops at a tick
    BoundBids(i64),
    BoundAsks(i64),
    /// a stranger claims every order of the book in one batch, in either order
    Batch,
}
pub struct Hist {
    pub slots: Vec<(i64, OrderDirection)>,
    /// (who, slot)
    pub init: Vec<(&'static str, usize)>,
    pub ops: Vec<Op>,
    pub steps: usize,
    pub bounty: bool,
    pub fee: bool,
    pub solvent: bool,
    /// a rejected operation ends the path (it changed nothing, so what follows is covered elsewhere)
    pub prune: bool,
    pub state_each: bool,
    pub drain: bool,
    /// an uncommon setting: see `odd`
    pub odd: bool,
}
/// A book in an uncommon setting: denominations in the other order, all in one block, a year between
/// any two transactions, or a taker who also has orders.
pub fn odd() -> Sim {
    let k = choose(4);
    note(["pair ibc/Z9 - ibc/A0", "all in one block", "400 days between transactions", "the taker owns orders"][k].into());
    if k == 0 {
        pair("ibc/Z9", "ibc/A0");
    }
    let mut s = Sim::new();
    match k {
        1 => s.ch.pace = (0, 0),
        2 => s.ch.pace = (6_000_000, 400 * 86_400 * 1_000_000_000),
        3 => s.ch.taker = ALICE,
        _ => {}
    }
    s
}
impl Default for Hist {
    fn default() -> Self {
        Hist {
            slots: vec![],
            init: vec![],
            ops: vec![],
            steps: 0,
            bounty: false,
            fee: false,
            solvent: false,
            prune: true,
            state_each: true,
            drain: true,
            odd: false,
        }
    }
}
pub fn qty(n: &str) -> Uint128 {
    any(n, 1, QMAX)
}
pub const ADMIN_ADDR: &str = sumtree_orderbook::constants::OSMOSIS_GOV_ADDR;
pub fn set_fee(s: &mut Sim, f: cosmwasm_std::Decimal256) {
    let r = s.ch.auth(ADMIN_ADDR, sumtree_orderbook::msg::AuthExecuteMsg::SetMakerFee { fee: f });
    if r.is_err() {
        stop()
    }
    s.fee = Z::atomics(f);
}
pub fn any_rate(n: &str, max_atomics: u128) -> cosmwasm_std::Decimal256 {
    let a = any(n, 0, max_atomics);
    cosmwasm_std::Decimal256::new(a.into())
}
impl Hist {
    pub fn run(self) -> Sim {
        let mut s = if self.odd { odd() } else { Sim::new() };
        if self.solvent {
            s.ch.solvency = Some("solvent: every payout is covered by the contract's balance");
        }
        if self.fee {
            // 5% is the cap; 0.0123.. exercises rounding
            let f = pick(&[50_000_000_000_000_000u128, 12_345_678_901_234_567]);
            set_fee(&mut s, atto(f));
        }
        for (who, k) in &self.init {
            let (t, d) = self.slots[*k];
            let b = self.bounty_of(s.orders.len());
            s.place(who, t, d, qty("q"), b);
        }
        for _ in 0..self.steps {
            self.step(&mut s);
            if self.state_each {
                s.check_state();
            }
        }
        if self.drain {
            s.drain();
            s.check_state();
        }
        s
    }
    fn bounty_of(&self, n: usize) -> Option<cosmwasm_std::Decimal256> {
        if self.bounty && n % 2 == 0 {
            Some(atto([10_000_000_000_000_000u128, 3_141_592_653_589_793][(n / 2) % 2]))
        } else {
            None
        }
    }
    pub fn step(&self, s: &mut Sim) {
        let mut alts: Vec<(Op, usize)> = vec![];
        for op in &self.ops {
            match op {
                Op::HitBids => {
                    if s.orders.iter().any(|o| o.dir == Bid) {
                        alts.push((*op, 0))
                    }
                }
                Op::HitAsks => {
                    if s.orders.iter().any(|o| o.dir == Ask) {
                        alts.push((*op, 0))
                    }
                }
                Op::Place(_) | Op::BoundBids(_) | Op::BoundAsks(_) => alts.push((*op, 0)),
                Op::Batch => {
                    alts.push((*op, 0));
                    alts.push((*op, 1));
                }
                _ => {
                    for (i, o) in s.orders.iter().enumerate() {
                        if o.live || !self.prune {
                            alts.push((*op, i))
                        }
                    }
                }
            }
        }
        let (op, i) = pick(&alts);
        let ok = match op {
            Op::HitBids => s.swap(Ask, qty("in"), Uint128::zero(), None),
            Op::HitAsks => s.swap(Bid, qty("in"), Uint128::zero(), None),
            Op::Place(k) => {
                let (t, d) = self.slots[k];
                let b = self.bounty_of(s.orders.len());
                let who = [ALICE, BOB, CAROL][s.orders.len() % 3];
                s.place(who, t, d, qty("q"), b);
                true
            }
            Op::Claim => {
                let who = s.orders[i].owner.clone();
                s.claim(&who, i)
            }
            Op::ClaimBy(w) => s.claim(w, i),
            Op::Cancel => {
                let who = s.orders[i].owner.clone();
                s.cancel(&who, i)
            }
            Op::CancelBy(w) => s.cancel(w, i),
            Op::BoundBids(t) => s.swap(Ask, qty("in"), Uint128::zero(), Some(t)),
            Op::BoundAsks(t) => s.swap(Bid, qty("in"), Uint128::zero(), Some(t)),
            Op::Batch => {
                let mut l: Vec<usize> = (0..s.orders.len()).collect();
                if i == 1 {
                    l.reverse();
                }
                s.batch(CAROL, &l)
            }
        };
        if self.prune && !ok {
            stop()
        }
    }
}
pub fn hit(d: OrderDirection) -> Op {
    match d {
        Bid => Op::HitBids,
        Ask => Op::HitAsks,
    }
}
fn tick_dir() -> (i64, OrderDirection) {
    (pick(&TICKS), pick(&[Bid, Ask]))
}

// ---- solvency ----
fn solv_one(steps: usize, fees: bool) {
    let (t, d) = tick_dir();
    Hist {
        slots: vec![(t, d)],
        init: vec![(ALICE, 0), (BOB, 0)],
        ops: vec![hit(d), Op::Place(0), Op::Claim, Op::Cancel],
        steps,
        solvent: true,
        fee: fees,
        bounty: fees,
        ..Default::default()
    }
    .run();
}
fn solv_two(steps: usize) {
    // a bid and an ask at different ticks, possibly crossed
    let (a, b) = pick(&[(12_345_678i64, -17_654_321i64), (-17_654_321, 12_345_678), (0, 0)]);
    Hist {
        slots: vec![(a, Bid), (b, Ask)],
        init: vec![(ALICE, 0), (BOB, 1)],
        ops: vec![Op::HitBids, Op::HitAsks, Op::Claim, Op::Cancel],
        steps,
        solvent: true,
        ..Default::default()
    }
    .run();
}

// ---- one tick, FIFO ----
fn fifo(init: usize, steps: usize) {
    let (t, d) = tick_dir();
    Hist {
        slots: vec![(t, d)],
        init: vec![(ALICE, 0), (BOB, 0), (CAROL, 0)][..init].to_vec(),
        ops: vec![hit(d), Op::Place(0), Op::Claim, Op::Cancel],
        steps,
        ..Default::default()
    }
    .run();
}
fn fifo_prices(steps: usize) {
    // several price levels on both sides of the grid
    let d = pick(&[Bid, Ask]);
    Hist {
        slots: vec![(-17_654_321, d), (12_345_678, d)],
        init: vec![(ALICE, 0), (BOB, 1), (CAROL, 0)],
        ops: vec![hit(d), Op::Claim, Op::Cancel],
        steps,
        ..Default::default()
    }
    .run();
}
fn unpruned(steps: usize) {
    // rejected attempts stay in the history: they must not change anything
    let d = pick(&[Bid, Ask]);
    Hist {
        slots: vec![(12_345_678, d)],
        init: vec![(ALICE, 0), (BOB, 0)],
        ops: vec![hit(d), Op::Claim, Op::ClaimBy(CAROL), Op::Cancel, Op::CancelBy(CAROL)],
        steps,
        prune: false,
        bounty: true,
        ..Default::default()
    }
    .run();
}
fn isolation() {
    // two ticks and two directions, each with its own orders; what happens in one place must not
    // show up in another
    let (t, u) = pick(&[(0i64, 12_345_678i64), (-17_654_321, 0)]);
    let h = Hist {
        slots: vec![(t, Bid), (t, Ask), (u, Bid), (u, Ask)],
        init: vec![(ALICE, 0), (BOB, 1), (CAROL, 2), (ALICE, 3)],
        ops: vec![Op::HitBids, Op::HitAsks, Op::Claim, Op::Cancel],
        steps: 1,
        drain: false,
        ..Default::default()
    };
    let mut s = Sim::new();
    for (who, k) in &h.init {
        let (t, d) = h.slots[*k];
        s.place(who, t, d, qty("q"), None);
    }
    for _ in 0..3 {
        h.step(&mut s);
        s.check_state();
    }
    s.drain();
}

/// whoever is not the owner, whatever office they hold, cannot cancel
fn strangers() {
    use sumtree_orderbook::msg::AuthExecuteMsg as A;
    let (t, d) = (pick(&TICKS), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    let md = sumtree_orderbook::constants::CIRCUIT_BREAKER_SUBDAO_ADDR;
    let offered = "offered";
    let r = s.ch.auth(ADMIN_ADDR, A::TransferAdmin { new_admin: cosmwasm_std::Addr::unchecked(offered) });
    let r2 = s.ch.auth(ADMIN_ADDR, A::OfferModerator { new_moderator: cosmwasm_std::Addr::unchecked(offered) });
    let r3 = s.ch.auth(ADMIN_ADDR, A::SetMakerFeeRecipient { recipient: cosmwasm_std::Addr::unchecked("payee") });
    check("cancel: offices can be offered", || r.is_ok() && r2.is_ok() && r3.is_ok());
    s.fee_to = "payee".into();
    s.place(ALICE, t, d, qty("q"), None);
    s.place(BOB, t, d, qty("q"), Some(atto(10_000_000_000_000_000)));
    if choose(2) == 1 && !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let me = s.ch.addr.clone();
    let all = [ALICE, BOB, CAROL, ADMIN_ADDR, md, offered, "payee", me.as_str(), "creator", "ALICE", "alic", ""];
    let i = choose(2);
    s.cancel(pick(&all), i);
    s.drain();
}
/// how an order with every kind of bounty is listed
fn record_bounty() {
    let (t, d) = tick_dir();
    let mut s = Sim::new();
    for _ in 0..2 {
        let b = match choose(3) {
            0 => None,
            1 => Some(atto(0)),
            _ => Some(any_rate("bounty", 10_000_000_000_000_000)),
        };
        s.place(ALICE, t, d, qty("q"), b);
        s.check_state();
    }
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    s.check_state();
    s.claim(BOB, 0);
    s.check_state();
}

/// Two levels on each side, adjacent or far apart, with fee and bounties and every kind of event.
fn market(levels: [i64; 4], one_side: bool, init: usize, ops: &[&str], steps: usize, solvent: bool, fees: bool) {
    let [b2, b1, a1, a2] = levels;
    let slots = vec![(b1, Bid), (a1, Ask), (b2, Bid), (a2, Ask)];
    let mut list = vec![];
    let d = if one_side { pick(&[Bid, Ask]) } else { Bid };
    for o in ops {
        match *o {
            "hit" if one_side => list.push(hit(d)),
            "hit" => list.extend([Op::HitBids, Op::HitAsks]),
            "place" if one_side => list.extend(if d == Bid { [Op::Place(0), Op::Place(2)] } else { [Op::Place(1), Op::Place(3)] }),
            "place" => list.extend([Op::Place(0), Op::Place(1), Op::Place(2), Op::Place(3)]),
            "best" if one_side => list.push(Op::Place(if d == Bid { 0 } else { 1 })),
            "best" => list.extend([Op::Place(0), Op::Place(1)]),
            "bound" if one_side && d == Bid => list.extend([Op::BoundBids(b1), Op::BoundBids(b2)]),
            "bound" if one_side => list.extend([Op::BoundAsks(a1), Op::BoundAsks(a2)]),
            "bound" => list.extend([Op::BoundBids(b1), Op::BoundBids(b2), Op::BoundAsks(a1), Op::BoundAsks(a2)]),
            "claim" => list.push(Op::Claim),
            "claimby" => list.push(Op::ClaimBy(CAROL)),
            "cancel" => list.push(Op::Cancel),
            "batch" => list.push(Op::Batch),
            _ => unreachable!(),
        }
    }
    let who = [ALICE, BOB, ALICE, BOB, ALICE];
    let order: Vec<usize> = if one_side {
        (if d == Bid { [0usize, 2, 0, 2] } else { [1, 3, 1, 3] }).to_vec()
    } else {
        vec![0, 1, 2, 3]
    };
    Hist {
        slots,
        init: (0..init).map(|i| (who[i], order[i])).collect(),
        ops: list,
        steps,
        solvent,
        fee: fees,
        bounty: fees,
        drain: !fees,
        ..Default::default()
    }
    .run();
}
/// the uncommon settings, two levels of one side, fee and bounties
fn odd_market(steps: usize, solvent: bool) {
    let d = pick(&[Bid, Ask]);
    let (a, b) = (12_345_678, -17_654_321);
    let bound = if d == Bid { Op::BoundBids(a) } else { Op::BoundAsks(b) };
    Hist {
        slots: vec![(a, d), (b, d)],
        init: vec![(ALICE, 0), (BOB, 1)],
        ops: vec![hit(d), bound, Op::Place(0), Op::ClaimBy(CAROL), Op::Claim, Op::Cancel, Op::Batch],
        steps,
        odd: true,
        solvent,
        fee: true,
        bounty: true,
        ..Default::default()
    }
    .run();
}
/// bids at 0.5 / 0.2 and asks at 2 / 5; adjacent ticks; the usual far levels
pub const LV_DUST: [i64; 4] = [-8_000_000, -5_000_000, 1_000_000, 4_000_000];
pub const LV_NEAR: [i64; 4] = [4, 5, 6, 7];
pub const LV_FAR: [i64; 4] = [-17_654_321, -1, 0, 12_345_678];
pub const LV_CROSS: [i64; 4] = [1_234_567, 12_345_678, -17_654_321, -3];

macro_rules! h {
    ($p:expr, $n:expr, $q:expr, [$($g:expr),*], $f:expr, $b:expr, [$($w:expr),*]) => {
        H { prop: $p, name: $n, quick: $q, groups: &[$($g),*], f: $f, bounds: $b, witness: &[$($w),*] }
    };
}
pub(crate) use h;

const B_ONE: &str = "2 orders at one of 3 price levels (1, 22.345678.., 0.0134..), either side, quantities 1..10^30; then every sequence of N events out of {market order 1..10^30, new order, claim, cancel}; then everybody leaves";

pub fn all() -> Vec<H> {
    vec![
        h!("C01", "solvency_fees", true, ["solvent"], || solv_one(2, true), "as solvency_one_tick with 2 events, two maker fees and bounties with long fractions", ["claim ok", "cancel ok", "swap ok"]),
        h!("C01", "solvency_one_tick", true, ["solvent"], || solv_one(4, false), B_ONE, ["claim ok", "cancel ok", "swap ok"]),
        h!("C01", "solvency_two_sides", true, ["solvent"], || solv_two(3), "a bid and an ask, crossed or not or at the same tick; 3 events; then everybody leaves", ["claim ok", "cancel ok", "swap ok"]),
        h!("C01", "solvency_levels", true, ["solvent"], || market(LV_FAR, true, 2, &["hit", "best", "bound", "claim", "cancel"], 3, true, false), "2 orders at 2 levels of one side; 3 events out of {market order, bounded market order, order at the best level, claim, cancel}; then everybody leaves", ["claim ok", "cancel ok", "swap ok"]),
        h!("C01", "solvency_dust", true, ["solvent"], || market(LV_DUST, true, 2, &["hit", "best", "bound", "batch"], 3, true, false), "as solvency_levels at prices 0.5 and 0.2 / 2 and 5, with batch claims", ["claim ok", "cancel ok", "swap ok"]),
        h!("C01", "solvency_fees_3", false, ["solvent"], || solv_one(3, true), "as solvency_fees with 3 events", ["claim ok"]),
        h!("C01", "solvency_one_tick_5", false, ["solvent"], || solv_one(5, false), B_ONE, ["claim ok"]),
        h!("C01", "solvency_two_sides_4", false, ["solvent"], || solv_two(4), "as solvency_two_sides with 4 events", ["claim ok"]),
        h!("C02", "fifo_2x3", true, ["fifo", "priority"], || fifo(2, 3), B_ONE, ["claim ok", "order partially claimed", "order fully claimed"]),
        h!("C02", "fifo_3x3", true, ["fifo", "priority"], || fifo(3, 3), B_ONE, ["claim ok"]),
        h!("C02", "fifo_prices_3", true, ["fifo", "priority"], || fifo_prices(3), "3 orders over 2 price levels, 3 events", ["claim ok"]),
        h!("C02", "fifo_market", true, ["fifo", "priority"], || market(pick(&[LV_NEAR, LV_CROSS]), false, 4, &["hit", "best", "claim", "batch"], 3, false, false), "4 orders at 4 levels (adjacent, or crossed); 3 events out of {market order, order at either best level, claim, batch claim}; then everybody leaves", ["claim ok", "batch ok"]),
        h!("C02", "fifo_2x5", false, ["fifo", "priority"], || fifo(2, 5), B_ONE, ["claim ok"]),
        h!("C02", "fifo_3x4", false, ["fifo", "priority"], || fifo(3, 4), B_ONE, ["claim ok"]),
        h!("C04", "record_2x3", true, ["record"], || fifo(2, 3), B_ONE, ["claim ok", "order partially claimed"]),
        h!("C04", "record_unpruned", true, ["record"], || unpruned(3), "as above, keeping rejected attempts in the history, and attempts by strangers", ["claim rejected", "cancel rejected"]),
        h!("C04", "record_market", true, ["record"], || market(pick(&[LV_NEAR, LV_CROSS]), false, 4, &["hit", "bound", "place", "cancel", "batch"], 2, false, false), "4 orders at 4 levels, 2 events including batch claims and bounded market orders; then everybody leaves", ["claim ok", "batch ok"]),
        h!("C04", "record_bounty", true, ["record"], record_bounty, "2 orders without bounty, with a bounty of zero, or any up to 1%; a market order and a claim by somebody else; the listing after each", ["claim ok"]),
        h!("C04", "record_3x4", false, ["record"], || fifo(3, 4), B_ONE, ["claim ok"]),
        h!("C06", "cancel_2x3", true, ["cancel"], || fifo(2, 3), B_ONE, ["cancel ok"]),
        h!("C06", "cancel_unpruned", true, ["cancel"], || unpruned(3), "2 orders with bounties, 3 events including claims and cancellations by strangers", ["cancel ok", "cancel rejected"]),
        h!("C06", "cancel_market", true, ["cancel"], || market(pick(&[LV_NEAR, LV_CROSS]), false, 4, &["hit", "best", "cancel", "batch"], 3, false, false), "4 orders at 4 levels, 3 events including batch claims; then everybody leaves", ["cancel ok", "batch ok"]),
        h!("C06", "cancel_strangers", true, ["cancel"], strangers, "2 orders, a market order or none, then any of 12 accounts (owners, admin, moderator, the offered ones, fee recipient, the contract itself, its creator, look-alikes) tries to cancel either", ["cancel ok", "cancel rejected"]),
        h!("C06", "cancel_3x4", false, ["cancel"], || fifo(3, 4), B_ONE, ["cancel ok"]),
        h!("C14", "totals_2x3", true, ["tal"], || fifo(2, 3), B_ONE, ["claim ok"]),
        h!("C14", "totals_sides", true, ["tal"], isolation, "4 orders over 2 ticks x 2 sides, 3 events", ["claim ok"]),
        h!("C14", "totals_market", true, ["tal"], || market(pick(&[LV_NEAR, LV_CROSS, LV_DUST]), false, 4, &["hit", "bound", "place", "cancel", "batch"], 2, false, false), "4 orders at 4 levels (adjacent, crossed, or where remainders are lost), 2 events out of {market order, bounded market order, order, cancel, batch claim}; then everybody leaves", ["claim ok", "swap ok"]),
        h!("C14", "totals_levels", true, ["tal"], || market(LV_FAR, true, 3, &["hit", "bound", "best", "cancel", "claim"], 3, false, false), "3 orders at 2 levels of one side, 3 events", ["claim ok", "swap ok"]),
        h!("C14", "totals_3x4", false, ["tal"], || fifo(3, 4), B_ONE, ["claim ok"]),
        h!("C20", "live_2x3", true, ["live"], || fifo(2, 3), B_ONE, ["claim ok", "cancel ok"]),
        h!("C20", "live_prices", true, ["live"], || fifo_prices(3), "3 orders over 2 price levels, 3 events", ["claim ok"]),
        h!("C20", "live_market", true, ["live"], || market(pick(&[LV_NEAR, LV_CROSS, LV_DUST]), false, 4, &["hit", "bound", "best", "cancel", "batch"], 2, false, false), "4 orders at 4 levels, 2 events; then everybody leaves", ["claim ok", "swap ok"]),
        h!("C20", "live_3x4", false, ["live"], || fifo(3, 4), B_ONE, ["claim ok"]),
        h!("C24", "isolation", true, ["fifo", "tal", "record"], isolation, "4 orders over 2 ticks x 2 sides, 3 events, then everybody leaves", ["claim ok", "swap ok"]),
        h!("C25", "events_2x3", true, ["event"], || fifo(2, 3), B_ONE, ["claim ok", "cancel ok", "order partially claimed"]),
        h!("C25", "events_market", true, ["event"], || market(pick(&[LV_NEAR, LV_CROSS]), false, 4, &["hit", "bound", "place", "cancel", "claimby", "batch"], 2, false, true), "4 orders at 4 levels on both sides, fees and bounties; 2 events including claims by strangers, batch claims and bounded market orders", ["claim ok", "batch ok"]),
        h!("C25", "events_levels", true, ["event"], || market(LV_FAR, true, 2, &["hit", "bound", "best", "cancel", "claimby", "batch"], 2, false, true), "2 orders at 2 levels of one side, fees and bounties; 2 events", ["claim ok", "batch ok"]),
        h!("C01", "odd", true, ["solvent"], || odd_market(2, true), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["claim ok"]),
        h!("C02", "odd", true, ["fifo"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["claim ok"]),
        h!("C03", "odd", true, ["swap"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["swap ok"]),
        h!("C04", "odd", true, ["record"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["claim ok"]),
        h!("C05", "odd", true, ["split"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["claim ok"]),
        h!("C06", "odd", true, ["cancel"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["cancel ok"]),
        h!("C14", "odd", true, ["tal"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["swap ok"]),
        h!("C15", "odd", true, ["ptr"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["swap ok"]),
        h!("C17", "odd", true, ["swap"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["swap ok"]),
        h!("C20", "odd", true, ["live"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["claim ok"]),
        h!("C25", "odd", true, ["event"], || odd_market(2, false), "denominations in the other order, everything in one block, 400 days between transactions, or a taker who owns orders; 2 orders at 2 levels of one side, fee and bounties; 2 events out of {market order, bounded market order, placement, claim by the owner or somebody else, cancellation, batch claim}; then everybody leaves", ["batch ok"]),
        h!("C25", "events_unpruned", true, ["event"], || unpruned(3), "2 orders with bounties, 3 events, strangers included", ["claim ok"]),
    ]
}
