//! Who gets paid what: claim splits, maker fees, batch claims, undeliverable payouts.
use super::hist::{any_rate, h, hit, qty, set_fee, Hist, Op, ADMIN_ADDR, TICKS};
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::{Addr, Decimal256, Uint128};
use sumtree_orderbook::msg::*;

const FEE_CAP: u128 = 50_000_000_000_000_000;
const BOUNTY_CAP: u128 = 10_000_000_000_000_000;

fn set_recipient(s: &mut Sim, who: &str) {
    let r = s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked(who) });
    if r.is_err() {
        stop()
    }
    s.fee_to = who.to_string();
}
fn bounty() -> Option<Decimal256> {
    if choose(2) == 0 {
        None
    } else {
        Some(any_rate("bounty", BOUNTY_CAP))
    }
}
/// One order, any fee and bounty, claimer and fee recipient possibly the same account as the owner
fn split(rounds: usize) {
    let (t, d) = (pick(&TICKS), pick(&[Bid, Ask]));
    let mut s = Sim::new();
    let b = bounty();
    s.place(ALICE, t, d, qty("q"), b);
    let to = pick(&["", ALICE, BOB, CAROL]);
    if !to.is_empty() {
        set_recipient(&mut s, to);
    }
    for k in 0..rounds {
        if k > 0 || choose(2) == 1 {
            let f = any_rate("fee", FEE_CAP);
            set_fee(&mut s, f);
        }
        if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
        if !s.orders[0].live {
            break;
        }
        let who = pick(&[ALICE, BOB]);
        s.claim(who, 0);
    }
}
/// splits at fixed rates whose products leave remainders, over longer histories
fn split_history(steps: usize) {
    let (t, d) = (pick(&[12_345_678i64, -17_654_321]), pick(&[Bid, Ask]));
    let mut h = Hist {
        slots: vec![(t, d)],
        ops: vec![hit(d), Op::Claim, Op::ClaimBy(CAROL)],
        bounty: true,
        ..Default::default()
    };
    h.drain = false;
    let mut s = Sim::new();
    let f = pick(&[12_345_678_901_234_567u128, FEE_CAP]);
    set_fee(&mut s, atto(f));
    let to = pick(&[CAROL, BOB, TAKER]);
    set_recipient(&mut s, to);
    s.place(ALICE, t, d, qty("q"), Some(atto(3_141_592_653_589_793)));
    s.place(BOB, t, d, qty("q"), None);
    for _ in 0..steps {
        h.step(&mut s);
    }
}

// ---- maker fee ----
fn fee_reported(s: &Sim) -> Option<Z> {
    let a: Result<serde_json::Value, String> = s.ch.query(QueryMsg::GetMakerFee {});
    let v = a.ok()?;
    let t = match &v {
        serde_json::Value::String(t) => t.clone(),
        serde_json::Value::Object(o) => o.get("maker_fee")?.as_str()?.to_string(),
        _ => return None,
    };
    let d: Decimal256 = cosmwasm_std::from_json(format!("\"{t}\"").as_bytes()).ok()?;
    Some(Z::atomics(d))
}
fn fees(steps: usize) {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    s.place(ALICE, 12_345_678, d, qty("q"), None);
    for _ in 0..steps {
        match choose(3) {
            0 => {
                let f = any_rate("fee", u128::MAX >> 2);
                let fz = Z::atomics(f);
                let r = s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetMakerFee { fee: f });
                note(format!("set fee {f} -> {}", show(&r)));
                observe("set fee", show(&r));
                let ok = fz.le(Z::n(FEE_CAP as i128));
                check("fee: accepted exactly up to 5%", || r.is_ok() == ok);
                if ok {
                    reach("fee set");
                    s.fee = fz;
                } else {
                    reach("fee refused");
                }
            }
            1 => {
                let to = pick(&[CAROL, ALICE, ADMIN_ADDR, sumtree_orderbook::constants::CIRCUIT_BREAKER_SUBDAO_ADDR]);
                let r = s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked(to) });
                note(format!("set recipient {to} -> {}", show(&r)));
                check("fee: the admin can name any valid recipient", || r.is_ok());
                s.fee_to = to.into();
            }
            _ => {
                if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
                    stop()
                }
                if s.orders[0].live && s.claimable(0).pos() {
                    s.claim(ALICE, 0);
                }
            }
        }
        let f = s.fee;
        let r = fee_reported(&s);
        check("fee: the fee in force is reported", || r.map_or(false, |x| x.eq(f)));
    }
    // a bad recipient is refused and changes nothing
    let r = s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked("") });
    check("fee: an invalid recipient is refused", || r.is_err());
    if s.orders[0].live && s.liq(12_345_678, d).pos() {
        if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
        if s.orders[0].live {
            s.claim(BOB, 0);
        }
    }
}

// ---- batch claims ----
/// `a` and `b` are the same book to everyone who can only look
pub fn same_book(label: &str, a: &Chain, b: &Chain, ticks: &[i64]) {
    for t in ticks {
        let (x, y) = (a.orders_at(*t), b.orders_at(*t));
        check(label, || {
            x.len() == y.len()
                && x.iter().zip(&y).all(|(p, q)| {
                    p.order_id == q.order_id
                        && p.owner == q.owner
                        && p.order_direction == q.order_direction
                        && Z::u(p.quantity).eq(Z::u(q.quantity))
                        && Z::u(p.placed_quantity).eq(Z::u(q.placed_quantity))
                })
        });
    }
    let (x, y) = (a.ticks(), b.ticks());
    check(label, || {
        x.len() == y.len()
            && x.iter().zip(&y).all(|(p, q)| {
                p.tick_id == q.tick_id
                    && dirs().iter().all(|d| {
                        Z::atomics(p.tick_state.get_values(*d).total_amount_of_liquidity)
                            .eq(Z::atomics(q.tick_state.get_values(*d).total_amount_of_liquidity))
                    })
            })
    });
    for who in [ALICE, BOB, CAROL, TAKER, a.addr.as_str(), sumtree_orderbook::constants::DEFAULT_MAKER_FEE_RECIPIENT] {
        for d in [base_denom(), quote_denom()] {
            let (x, y) = (a.balance(who, d), b.balance(who, d));
            check(label, || x.eq(y));
        }
    }
}
fn batch(entries: usize, fee: bool, ticks: [i64; 2]) {
    let d = pick(&[Bid, Ask]);
    let [t, u] = ticks;
    let mut s = Sim::new();
    if fee {
        set_fee(&mut s, atto(12_345_678_901_234_567));
    }
    let b = if fee { Some(atto(3_141_592_653_589_793)) } else { None };
    s.place(ALICE, t, d, qty("q"), b);
    s.place(BOB, t, d, qty("q"), None);
    s.place(ALICE, u, d, qty("q"), None);
    if choose(2) == 1 {
        // a gap in the queue
        s.cancel(ALICE, 0);
    }
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let all: [(i64, u64); 5] = [(t, 0), (t, 1), (u, 2), (u, 1), (5, 9)];
    let mut list = vec![];
    for _ in 0..entries {
        list.push(pick(&all));
    }
    let who = CAROL;
    let mut one = s.clone();
    let mut got: Vec<Claimed> = vec![];
    let mut paid = vec![];
    for (tk, id) in &list {
        if let Ok(tx) = one.ch.claim(who, *tk, *id) {
            got.extend(Claimed::all(&tx));
            paid.extend(tx.sent);
        }
    }
    let l = list.clone();
    let r = s.ch.exec(who, &[], ExecuteMsg::BatchClaim { orders: l });
    note(format!("batch {list:?} -> {} ({} claimed)", show(&r), got.len()));
    s.obs("batch", &r);
    match r {
        Err(_) => fail("batch: a batch of at most 100 claims is processed"),
        Ok(tx) => {
            reach(if got.is_empty() { "batch without effect" } else { "batch claimed" });
            check("batch: exactly the payments of the single claims", || {
                paid.len() == tx.sent.len()
                    && paid.iter().zip(&tx.sent).all(|(x, y)| x.to == y.to && x.denom == y.denom && x.amount.eq(y.amount))
            });
            let ev = Claimed::all(&tx);
            check("batch: the same claim events as single claims", || {
                ev.len() == got.len() && ev.iter().zip(&got).all(|(x, y)| x.same(y))
            });
        }
    }
    same_book("batch: the same book as after single claims", &s.ch, &one.ch, &ticks);
    // and everything afterwards goes the same way
    for (i, o) in s.orders.clone().iter().enumerate() {
        let _ = i;
        let (x, y) = (s.ch.claim(&o.owner, o.tick, o.id), one.ch.claim(&o.owner, o.tick, o.id));
        check("batch: later claims go the same way", || same_tx(&x, &y));
        let (x, y) = (s.ch.cancel(&o.owner, o.tick, o.id), one.ch.cancel(&o.owner, o.tick, o.id));
        check("batch: later cancellations go the same way", || same_tx(&x, &y));
    }
    same_book("batch: the same book after everybody has left", &s.ch, &one.ch, &ticks);
}
pub fn same_tx(x: &Tx, y: &Tx) -> bool {
    match (x, y) {
        (Err(_), Err(_)) => true,
        (Ok(x), Ok(y)) => {
            x.sent.len() == y.sent.len()
                && x.sent
                    .iter()
                    .zip(&y.sent)
                    .all(|(a, b)| a.to == b.to && a.denom == b.denom && a.amount.eq(b.amount))
        }
        _ => false,
    }
}
fn batch_limit() {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    s.place(ALICE, 0, d, qty("q"), None);
    s.place(BOB, 0, d, qty("q"), None);
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let n = pick(&[0usize, 1, 99, 100, 101, 102, 200]);
    // the claimable ones come last
    let mut v: Vec<(i64, u64)> = (0..n).map(|k| (0, 2 + k as u64)).collect();
    for (k, e) in v.iter_mut().rev().take(2).enumerate() {
        *e = (0, k as u64);
    }
    let c: Vec<Z> = (0..2).map(|i| s.claimable(i)).collect();
    let r = s.ch.exec(CAROL, &[], ExecuteMsg::BatchClaim { orders: v });
    note(format!("batch of {n} -> {}", show(&r)));
    s.obs("batch", &r);
    check("batch: refused exactly above 100 entries", || r.is_ok() == (n <= 100));
    if let Ok(t) = r {
        let want = (0..2).filter(|i| *i < n && c[*i].pos()).count();
        check("batch: claimable entries of a long batch are claimed", || Claimed::all(&t).len() == want);
    }
}
/// A hundred claims in one batch.
fn batch_full(n: usize) {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    set_fee(&mut s, atto(12_345_678_901_234_567));
    for i in 0..n {
        let b = if i % 3 == 0 { Some(atto(3_141_592_653_589_793)) } else { None };
        s.place([ALICE, BOB, TAKER][i % 3], [12_345_678, 0][i / 7 % 2], d, super::deep::rest(i), b);
    }
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let list: Vec<usize> = if choose(2) == 0 { (0..n).collect() } else { (0..n).rev().collect() };
    let mut one = s.clone();
    let mut paid = vec![];
    for i in &list {
        if let Ok(tx) = one.ch.claim(CAROL, s.orders[*i].tick, s.orders[*i].id) {
            paid.extend(tx.sent);
        }
    }
    let orders = list.iter().map(|i| (s.orders[*i].tick, s.orders[*i].id)).collect();
    match s.ch.exec(CAROL, &[], ExecuteMsg::BatchClaim { orders }) {
        Err(_) => fail("batch: a batch of at most 100 claims is processed"),
        Ok(tx) => {
            reach("batch claimed");
            check("batch: exactly the payments of the single claims", || {
                paid.len() == tx.sent.len()
                    && paid.iter().zip(&tx.sent).all(|(x, y)| x.to == y.to && x.denom == y.denom && x.amount.eq(y.amount))
            });
        }
    }
    same_book("batch: the same book as after single claims", &s.ch, &one.ch, &[12_345_678, 0]);
}
// ---- money sent along ----
/// Whatever needs no money refuses it.
const NAMES: [&str; 14] = [
    "claim", "batch_claim", "cancel", "cancel_admin_transfer", "reject_admin_transfer", "claim_admin", "reject_moderator_offer",
    "claim_moderator", "transfer_admin", "offer_moderator", "renounce_adminship", "set_active", "set_maker_fee", "set_maker_fee_recipient",
];
/// Every message, with and without money; administrative ones with money (`auth`) apart.
fn attached(auth: bool) {
    use AuthExecuteMsg as A;
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    s.place(ALICE, 0, d, qty("q"), None);
    s.place(BOB, 0, d, qty("q"), None);
    if choose(2) == 0 && !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let admin = ADMIN_ADDR;
    let new = Addr::unchecked(CAROL);
    let offer = |s: &mut Sim, m: A| {
        if s.ch.auth(admin, m).is_err() {
            stop()
        }
    };
    let m = if auth { 3 + choose(11) } else { choose(14) };
    if m == 3 || m == 4 || m == 5 {
        offer(&mut s, A::TransferAdmin { new_admin: new.clone() });
    }
    if m == 6 || m == 7 {
        offer(&mut s, A::OfferModerator { new_moderator: new.clone() });
    }
    if choose(2) == 1 {
        if m < 3 {
            stop()
        }
        offer(&mut s, A::SetActive { active: false });
    }
    let (who, msg) = match m {
        0 => (pick(&[ALICE, CAROL]), ExecuteMsg::ClaimLimit { tick_id: 0, order_id: 0 }),
        1 => (pick(&[ALICE, CAROL]), ExecuteMsg::BatchClaim { orders: vec![(0, 0), (0, 1)] }),
        2 => (BOB, ExecuteMsg::CancelLimit { tick_id: 0, order_id: 1 }),
        3 => (admin, ExecuteMsg::Auth(A::CancelAdminTransfer {})),
        4 => (CAROL, ExecuteMsg::Auth(A::RejectAdminTransfer {})),
        5 => (CAROL, ExecuteMsg::Auth(A::ClaimAdmin {})),
        6 => (CAROL, ExecuteMsg::Auth(A::RejectModeratorOffer {})),
        7 => (CAROL, ExecuteMsg::Auth(A::ClaimModerator {})),
        8 => (admin, ExecuteMsg::Auth(A::TransferAdmin { new_admin: new })),
        9 => (admin, ExecuteMsg::Auth(A::OfferModerator { new_moderator: new })),
        10 => (admin, ExecuteMsg::Auth(A::RenounceAdminship {})),
        11 => (admin, ExecuteMsg::Auth(A::SetActive { active: false })),
        12 => (admin, ExecuteMsg::Auth(A::SetMakerFee { fee: atto(5) })),
        _ => (admin, ExecuteMsg::Auth(A::SetMakerFeeRecipient { recipient: new })),
    };
    let f = Z::u(any("funds", 1, u128::MAX));
    let how = if auth { choose(4) } else if m < 3 { choose(5) } else { 4 };
    let coins: Vec<(&str, Z)> = match how {
        0 => vec![(base_denom(), f)],
        1 => vec![(quote_denom(), f)],
        2 => vec![("other", f)],
        3 => vec![(base_denom(), f), (quote_denom(), f)],
        _ => vec![],
    };
    let before = s.ch.clone();
    let r = s.ch.exec(who, &coins, msg);
    note(format!("message {m} ({}) with {coins:?} -> {}", NAMES[m], show(&r)));
    observe("sent", show(&r));
    if coins.is_empty() {
        reach("without money");
        // claims need something to claim, a cancellation nothing to claim
        let c = s.claimable(if m == 2 { 1 } else { 0 });
        check("attached: without money every administrative message works, and what is due to users", || {
            r.is_ok() == match m {
                0 => c.pos(),
                2 => !c.pos(),
                _ => true,
            }
        });
    } else {
        reach("with money");
        if auth {
            check("attached: an administrative message with money attached is refused", || r.is_err());
        } else {
            check("attached: a claim or cancellation with money attached is refused", || r.is_err());
        }
        check("attached: a refused message leaves no trace", || s.ch.store.0 == before.store.0);
    }
}

// ---- undeliverable payouts ----
fn blocked(steps: usize) {
    let d = pick(&[Bid, Ask]);
    let mut s = Sim::new();
    set_fee(&mut s, atto(FEE_CAP));
    set_recipient(&mut s, CAROL);
    s.place(ALICE, 12_345_678, d, qty("q"), Some(atto(BOUNTY_CAP)));
    s.place(ALICE, 12_345_678, d, qty("q"), None);
    if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    for _ in 0..steps {
        let who = pick(&[ALICE, BOB, CAROL, TAKER]);
        s.ch.blocked.insert(who.to_string());
        let before = s.ch.clone();
        let op = choose(4);
        let claimer = if op == 1 || op == 2 { pick(&[ALICE, BOB]) } else { ALICE };
        let q = if op == 0 { qty("in") } else { Uint128::zero() };
        let i = if op == 1 || op == 3 { choose(2) } else { 0 };
        let run = |c: &mut Chain| match op {
            0 => c.swap(d.opposite(), q, Uint128::zero(), None),
            1 => c.claim(claimer, 12_345_678, i as u64),
            2 => c.exec(
                claimer,
                &[],
                ExecuteMsg::BatchClaim { orders: vec![(12_345_678, 0), (12_345_678, 1), (12_345_678, 7)] },
            ),
            _ => c.cancel(ALICE, 12_345_678, i as u64),
        };
        let r = run(&mut s.ch);
        // what it would have paid
        let mut free = before.clone();
        free.blocked.clear();
        let want = run(&mut free);
        note(format!("{who} blocked, operation {op} by {claimer} -> {}; unblocked -> {}", show(&r), show(&want)));
        s.obs("blocked", &r);
        let hits = match &want {
            Ok(t) => t.sent.iter().any(|x| x.to == who),
            Err(_) => false,
        };
        if hits {
            reach("payout fails");
            check("undeliverable: the whole operation is rejected", || r.is_err());
            check("undeliverable: the book is untouched", || s.ch.store.0 == before.store.0);
            check("undeliverable: nobody's balance changes", || same_balances(&s.ch, &before));
            // once deliverable again, the operation gives what it would have given
            s.ch.blocked.clear();
            let again = run(&mut s.ch);
            check("undeliverable: it can be repeated later", || same_tx(&again, &want));
        } else {
            reach("payout not concerned");
            check("undeliverable: other people's operations are not affected", || same_tx(&r, &want));
            s.ch.blocked.clear();
        }
    }
}
fn same_balances(a: &Chain, b: &Chain) -> bool {
    let keys: std::collections::BTreeSet<_> = a.bank.keys().chain(b.bank.keys()).cloned().collect();
    keys.iter().all(|(w, d)| a.balance(w, d).eq(b.balance(w, d)))
}

pub fn all() -> Vec<H> {
    vec![
        h!("C05", "split_any", true, ["split", "fifo"], || split(1), "one order of 1..10^30 at 3 price levels, either side, any bounty 0..1% or none, any maker fee 0..5% or unset, fee recipient default / owner / claimer / third party, claimed by owner or stranger after any market order", ["claim ok"]),
        h!("C05", "split_history", true, ["split", "fifo"], || split_history(3), "2 orders, fixed bounty and fee with long fractions, 3 events out of {market order, claim by owner, claim by stranger}", ["claim ok", "order partially claimed"]),
        h!("C05", "split_any_2", false, ["split", "fifo"], || split(2), "as split_any with a second market order, fee change and claim", ["claim ok"]),
        h!("C05", "split_history_5", false, ["split", "fifo"], || split_history(5), "as split_history with 5 events", ["claim ok"]),
        h!("C23", "fee_settings", true, ["split", "fifo"], || fees(2), "2 events out of {set any fee up to 8*10^19 times 100%, set recipient, market order and claim}, then a market order and a claim", ["fee set", "fee refused", "claim ok"]),
        h!("C23", "fee_settings_3", true, ["split", "fifo"], || fees(3), "as fee_settings with 3 events", ["fee set", "claim ok"]),
        h!("C16", "batch_2", true, [], || batch(2, false, [-17_654_321, 12_345_678]), "3 orders at 2 price levels, possibly one cancelled, any market order; every batch of 2 entries out of 3 real, one misplaced and one unknown; compared with single claims, then everybody leaves", ["batch claimed", "batch without effect"]),
        h!("C16", "batch_fees", true, [], || batch(2, true, [0, 12_345_678]), "as batch_2 with bounty and maker fee", ["batch claimed"]),
        h!("C16", "batch_limit", true, [], batch_limit, "batches of 0, 1, 99, 100, 101, 102 and 200 entries", []),
        h!("C16", "batch_full", true, [], || batch_full(100), "100 orders with fixed quantities at 2 levels, fee and bounties, a market order of 1..10^30, all claimed in one batch in either order", ["batch claimed"]),
        h!("C30", "attached", true, [], || attached(false), "2 orders, a market order of 1..10^30 or none, switched on or off; claim, batch claim and cancellation with no money, one of three denominations or both of the book's, any amount 1..2^128-1; 11 administrative messages without money", ["with money", "without money"]),
        h!("C30", "attached_auth", true, [], || attached(true), "as attached, each of the 11 administrative messages by the account that may send it, with money", ["with money"]),
        h!("C16", "batch_3", false, [], || batch(3, true, [-17_654_321, 12_345_678]), "as batch_fees with every batch of 3 entries", ["batch claimed"]),
        h!("C21", "blocked_1", true, [], || blocked(1), "2 orders with bounty and fee, any market order; each of 4 accounts unable to receive; swap, claim (by owner or stranger), batch claim, cancellation", ["payout fails", "payout not concerned"]),
        h!("C21", "blocked_2", false, [], || blocked(2), "as blocked_1, twice in a row", ["payout fails"]),
    ]
}
