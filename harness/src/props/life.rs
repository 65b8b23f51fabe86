//! Migrations, and how much work an operation is.
use super::auth::{fee_of, roles};
use super::deep::{fell, rest, OWNERS};
use super::hist::{h, hit, qty, set_fee, Hist, Op, ADMIN_ADDR};
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::{Addr, Uint128};
use sumtree_orderbook::constants::*;
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::OrderDirection;

// ---- migrations ----
/// What the queries answer, as text.
fn answers(c: &Chain, ticks: &[i64]) -> Vec<(String, serde_json::Value)> {
    let mut m = vec![
        ("AllTicks".to_string(), QueryMsg::AllTicks { start_from: None, end_at: None, limit: None }),
        ("OrderbookState".into(), QueryMsg::OrderbookState {}),
        ("Denoms".into(), QueryMsg::Denoms {}),
        ("GetTotalPoolLiquidity".into(), QueryMsg::GetTotalPoolLiquidity {}),
        ("GetMakerFee".into(), QueryMsg::GetMakerFee {}),
        ("GetSwapFee".into(), QueryMsg::GetSwapFee {}),
        ("IsActive".into(), QueryMsg::IsActive {}),
        ("GetUnrealizedCancels".into(), QueryMsg::GetUnrealizedCancels { tick_ids: ticks.to_vec() }),
    ];
    for (a, b) in [(base_denom(), quote_denom()), (quote_denom(), base_denom())] {
        m.push((
            format!("SpotPrice {a}"),
            QueryMsg::SpotPrice { quote_asset_denom: a.into(), base_asset_denom: b.into() },
        ));
    }
    for w in OWNERS {
        m.push((
            format!("OrdersByOwner {w}"),
            QueryMsg::OrdersByOwner { owner: Addr::unchecked(w), start_from: None, end_at: None, limit: None },
        ));
    }
    for t in ticks {
        m.push((
            format!("OrdersByTick {t}"),
            QueryMsg::OrdersByTick { tick_id: *t, start_from: None, end_at: None, limit: None },
        ));
    }
    m.into_iter()
        .map(|(n, q)| {
            let v = c.query(q).unwrap_or_else(|e: String| serde_json::json!({ "refused": e }));
            (n, v)
        })
        .collect()
}
fn same(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Object(x), Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w)))
        }
        (String(x), String(y)) => {
            x == y
                || match (Z::parse(x), Z::parse(y)) {
                    (Some(a), Some(b)) => a.eq(b),
                    _ => false,
                }
        }
        _ => a == b,
    }
}
/// Settings a migration has to leave alone.
fn settings(s: &mut Sim) -> bool {
    let mut paused = false;
    let who = |m: AuthExecuteMsg, c: &mut Chain| {
        if c.auth(ADMIN_ADDR, m).is_err() {
            stop()
        }
    };
    match choose(7) {
        0 => {}
        1 => {
            who(AuthExecuteMsg::SetActive { active: false }, &mut s.ch);
            paused = true;
        }
        2 => who(AuthExecuteMsg::TransferAdmin { new_admin: Addr::unchecked(ALICE) }, &mut s.ch),
        3 => who(AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked(BOB) }, &mut s.ch),
        4 => {
            who(AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked(BOB) }, &mut s.ch);
            if s.ch.auth(BOB, AuthExecuteMsg::ClaimModerator {}).is_err() {
                stop()
            }
        }
        5 => who(AuthExecuteMsg::RenounceAdminship {}, &mut s.ch),
        _ => {
            set_fee(s, atto(12_345_678_901_234_567));
            who(AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked(CAROL) }, &mut s.ch);
            s.fee_to = CAROL.into();
        }
    }
    paused
}
fn migrate(s: &mut Sim) {
    let ticks: Vec<i64> = s.orders.iter().map(|o| o.tick).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let (r0, f0, a0) = (roles(&s.ch), fee_of(&s.ch), answers(&s.ch, &ticks));
    let held: Vec<Z> = [base_denom(), quote_denom()].iter().map(|d| s.ch.held(d)).collect();
    let r = s.ch.migrate();
    s.obs("migrate", &r);
    if r.is_ok() {
        reach("migrate ok");
    }
    check("migration: it is accepted and pays nobody", || r.as_ref().map_or(false, |t| t.sent.is_empty()));
    check("migration: the contract keeps its balance", || {
        [base_denom(), quote_denom()].iter().zip(&held).all(|(d, h)| s.ch.held(d).eq(*h))
    });
    check("migration: roles, offers, switch, fee and recipient stay", || roles(&s.ch) == r0 && fee_of(&s.ch).eq(f0));
    for ((n, x), (_, y)) in a0.iter().zip(&answers(&s.ch, &ticks)) {
        check(&format!("migration: {n} answers as before"), || same(x, y));
    }
}
/// A history, a change of settings, the migration, another history, everybody leaves.
fn migration(before: usize, after: usize, set: bool) {
    let (t, d) = (pick(&[0i64, 12_345_678]), pick(&[Bid, Ask]));
    let (u, e) = (-17_654_321i64, d.opposite());
    let hist = |steps| Hist {
        slots: vec![(t, d), (u, e)],
        ops: vec![hit(d), Op::Claim, Op::Cancel, Op::Place(0)],
        steps,
        ..Default::default()
    };
    let mut s = Sim::new();
    s.place(ALICE, t, d, qty("q"), Some(atto(3_141_592_653_589_793)));
    s.place(BOB, t, d, qty("q"), None);
    s.place(CAROL, u, e, qty("q"), None);
    let b = hist(1);
    for _ in 0..before {
        b.step(&mut s);
    }
    let paused = set && settings(&mut s);
    migrate(&mut s);
    s.check_state();
    if paused {
        if s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetActive { active: true }).is_err() {
            stop()
        }
    }
    let a = hist(1);
    for _ in 0..after {
        a.step(&mut s);
    }
    s.drain();
    s.check_state();
}
/// A migration of a book nobody has used yet.
fn migration_empty() {
    let mut s = Sim::new();
    settings(&mut s);
    migrate(&mut s);
}

// ---- work ----
fn measure(s: &mut Sim, f: impl FnOnce(&mut Sim) -> bool) -> Option<u64> {
    let w = work();
    f(s).then(|| work() - w)
}
fn line(n: usize, t: i64, d: OrderDirection) -> Sim {
    let mut s = Sim::new();
    for i in 0..n {
        s.place(OWNERS[i % 3], t, d, rest(i % 8), None);
    }
    s
}
/// The same operations at a level with few orders and at one with many.
fn work_crowd(few: usize, many: usize) {
    let (t, d) = (pick(&[0i64, 12_345_678]), pick(&[Bid, Ask]));
    let (mut a, mut b) = (line(few, t, d), line(many, t, d));
    let i = qty("in");
    let take = |s: &mut Sim| s.swap(d.opposite(), i, Uint128::zero(), None);
    let (x, y) = (measure(&mut a, take), measure(&mut b, take));
    let (Some(x), Some(y)) = (x, y) else { stop() };
    check("work: a market order does not work harder at a level with more orders", || y <= x + SLACK);
    for k in 0..2 {
        let claim = |s: &mut Sim| {
            let w = s.orders[k].owner.clone();
            s.claim(&w, k)
        };
        if let (Some(x), Some(y)) = (measure(&mut a, claim), measure(&mut b, claim)) {
            check("work: a claim does not work harder at a level with more orders", || y <= x + SLACK);
        }
    }
    let place = |s: &mut Sim| {
        s.place(ALICE, t, d, Uint128::new(7), None);
        true
    };
    let (x, y) = (measure(&mut a, place).unwrap(), measure(&mut b, place).unwrap());
    check("work: a placement does not work harder at a level with more orders", || y <= x + SLACK);
    let cancel = |s: &mut Sim| {
        let k = s.orders.len() - 1;
        s.cancel(ALICE, k)
    };
    if let (Some(x), Some(y)) = (measure(&mut a, cancel), measure(&mut b, cancel)) {
        check("work: a cancellation does not work harder at a level with more orders", || y <= x + SLACK);
    }
}
/// The same operations after few cancellations and after many.
fn work_cancels(few: usize, many: usize) {
    let t = 12_345_678i64;
    let d = pick(&[Bid, Ask]);
    let levels = (many / few).ilog2() as u64 + 1;
    let felled = |n: usize| {
        let mut s = line(n, t, d);
        fell(&mut s, n, 8, |_| {});
        s
    };
    let (mut a, mut b) = (felled(few), felled(many));
    let cancel = |s: &mut Sim| {
        let k = s.orders.iter().position(|o| o.live).unwrap();
        let w = s.orders[k].owner.clone();
        s.cancel(&w, k)
    };
    let (Some(x), Some(y)) = (measure(&mut a, cancel), measure(&mut b, cancel)) else { stop() };
    check("work: a cancellation grows with the logarithm of the cancellations", || y <= x + SLACK + levels * STEP);
    let i = qty("in");
    let take = |s: &mut Sim| s.swap(d.opposite(), i, Uint128::zero(), None);
    let (x, y) = (measure(&mut a, take), measure(&mut b, take));
    let (Some(x), Some(y)) = (x, y) else { stop() };
    check("work: a market order does not work harder after more cancellations", || y <= x + SLACK);
    let claim = |s: &mut Sim| {
        let Some(k) = (0..s.orders.len()).find(|k| s.orders[*k].live && s.claimable(*k).pos()) else { return false };
        let w = s.orders[k].owner.clone();
        s.claim(&w, k)
    };
    if let (Some(x), Some(y)) = (measure(&mut a, claim), measure(&mut b, claim)) {
        check("work: a claim grows with the logarithm of the cancellations", || y <= x + SLACK + levels * STEP / 2);
    }
}
/// A market order that ends within the first levels of a book that goes on and of one that does not.
fn work_levels(few: usize, many: usize) {
    let d = pick(&[Bid, Ask]);
    let book = |n: usize| {
        let mut s = Sim::new();
        for i in 0..n {
            let t = 10_000_000 - 654_321 * i as i64;
            s.place(OWNERS[i % 3], if is_bid(d) { t } else { -t }, d, rest(i), None);
        }
        s
    };
    let (mut a, mut b) = (book(few), book(many));
    let i = qty("in");
    let take = |s: &mut Sim| s.swap(d.opposite(), i, Uint128::zero(), None);
    let (x, y) = (measure(&mut a, take), measure(&mut b, take));
    let (Some(x), Some(y)) = (x, y) else { stop() };
    check("work: a market order does not visit levels beyond those it trades at", || y <= x + SLACK);
    // what it emptied is not visited again
    let mut c = book(1);
    let one = Uint128::new(1_000);
    let take = |s: &mut Sim| s.swap(d.opposite(), one, Uint128::zero(), None);
    let (y, x) = (measure(&mut b, take), measure(&mut c, take));
    if let (Some(x), Some(y)) = (x, y) {
        check("work: a market order does not visit levels that earlier ones have emptied", || y <= x + 2 * SLACK);
    }
}
/// room for a different way of doing the same
const SLACK: u64 = 10;
/// accesses per level of the cancellation tree
const STEP: u64 = 24;

pub fn all() -> Vec<H> {
    vec![
        h!("C28", "migration_new", true, [], migration_empty, "a new book with one of 7 changes of the settings", ["migrate ok"]),
        h!("C28", "migration_history", true, ["fifo", "record", "cancel", "tal", "ptr", "swap"], || migration(2, 1, false), "3 orders at 2 levels, 2 events out of {market order, claim, cancel, new order}, the migration, 1 more event; then everybody leaves", ["migrate ok", "claim ok", "cancel ok", "swap ok"]),
        h!("C28", "migration_settings", true, ["fifo", "record", "cancel", "tal", "ptr", "swap"], || migration(1, 0, true), "3 orders at 2 levels, 1 event, one of 7 changes of the settings, the migration; then everybody leaves", ["migrate ok", "claim ok", "cancel ok", "swap ok"]),
        h!("C28", "migration_history_3", false, ["fifo", "record", "cancel", "tal", "ptr", "swap"], || migration(3, 1, true), "as migration_history with 3 events before and one of 7 changes of the settings", ["migrate ok"]),
        h!("C29", "work_crowd", true, [], || work_crowd(8, 64), "8 and 64 orders at one level with fixed quantities: a market order of 1..10^30, two claims, a placement, a cancellation", ["claim ok", "cancel ok"]),
        h!("C29", "work_cancels", true, [], || work_cancels(32, 256), "28 and 224 cancellations at one level in 5 orders: a cancellation, a market order of 1..10^30, a claim", ["claim ok", "cancel ok"]),
        h!("C29", "work_levels", true, [], || work_levels(6, 48), "6 and 48 levels with fixed quantities: a market order of 1..10^30 and another one", ["swap ok"]),
    ]
}
