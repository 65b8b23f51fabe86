//! Roles, the circuit breaker, what may be placed, how a book is created.
use super::hist::{any_rate, h, qty, ADMIN_ADDR, QMAX};
use super::pay::same_tx;
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::{Addr, Decimal256, Uint128};
use sumtree_orderbook::constants::*;
use sumtree_orderbook::msg::*;

const MOD_ADDR: &str = CIRCUIT_BREAKER_SUBDAO_ADDR;

#[derive(Clone, Debug, PartialEq)]
pub struct Roles {
    admin: Option<String>,
    admin_offer: Option<String>,
    moderator: Option<String>,
    moderator_offer: Option<String>,
    active: bool,
    recipient: String,
}
pub fn roles(c: &Chain) -> Roles {
    let q = |m: AuthQueryMsg| -> Option<String> {
        match c.query::<Option<Addr>>(QueryMsg::Auth(m)) {
            Ok(a) => a.map(|x| x.to_string()),
            Err(e) => fail(&format!("auth: role queries answer ({e})")),
        }
    };
    Roles {
        admin: q(AuthQueryMsg::Admin {}),
        admin_offer: q(AuthQueryMsg::AdminOffer {}),
        moderator: q(AuthQueryMsg::Moderator {}),
        moderator_offer: q(AuthQueryMsg::ModeratorOffer {}),
        active: match c.query(QueryMsg::IsActive {}) {
            Ok(a) => a,
            Err(e) => fail(&format!("auth: the switch can be queried ({e})")),
        },
        recipient: c
            .store
            .0
            .get(&b"maker_fee_recipient"[..])
            .map(|v| String::from_utf8_lossy(v).trim_matches('"').to_string())
            .unwrap_or_default(),
    }
}
pub fn fee_of(c: &Chain) -> Z {
    let v: serde_json::Value = match c.query(QueryMsg::GetMakerFee {}) {
        Ok(v) => v,
        Err(e) => fail(&format!("auth: the fee can be queried ({e})")),
    };
    let t = v.as_str().map(|x| x.to_string()).or_else(|| v["maker_fee"].as_str().map(|x| x.to_string())).unwrap_or_default();
    let d: Decimal256 = cosmwasm_std::from_json(format!("\"{t}\"").as_bytes()).expect("fee");
    Z::atomics(d)
}
/// everything stored that is not a role or a setting
fn rest(c: &Chain) -> Vec<(Vec<u8>, Vec<u8>)> {
    let own: [&[u8]; 7] =
        [b"admin", b"admin_offer", b"moderator", b"moderator_offer", b"is_active", b"maker_fee", b"maker_fee_recipient"];
    c.store
        .0
        .iter()
        .filter(|(k, _)| !own.contains(&k.as_slice()))
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}
/// `kinds` selects which messages take part
fn role_steps(steps: usize, full_first: bool) {
    let actors = [ADMIN_ADDR, MOD_ADDR, ALICE, BOB];
    let mut s = Sim::new();
    s.place(CAROL, 12_345_678, Bid, qty("q"), None);
    let mut m = roles(&s.ch);
    let mut fee = fee_of(&s.ch);
    check("auth: a new book has the configured roles", || {
        m.admin.as_deref() == Some(ADMIN_ADDR)
            && m.moderator.as_deref() == Some(MOD_ADDR)
            && m.admin_offer.is_none()
            && m.moderator_offer.is_none()
            && m.active
            && m.recipient == DEFAULT_MAKER_FEE_RECIPIENT
    });
    for k in 0..steps {
        let last = k + 1 == steps;
        // the step that matters gets every message; earlier steps are those that move roles
        let kind = if last || full_first { choose(14) } else { choose(9) };
        let sudo = matches!(kind, 7 | 8 | 13);
        let who = if sudo { "module" } else { pick(&actors) };
        let is_admin = m.admin.as_deref() == Some(who);
        let is_mod = m.moderator.as_deref() == Some(who);
        let target = |bad: bool| {
            if bad {
                pick(&[ALICE, BOB, ""])
            } else {
                pick(&[ALICE, BOB])
            }
        };
        let before = rest(&s.ch);
        let mut w = m.clone();
        let mut wfee = fee;
        let (r, may): (Tx, bool) = match kind {
            0 => {
                let t = target(last);
                w.admin_offer = Some(t.into());
                (s.ch.auth(who, AuthExecuteMsg::TransferAdmin { new_admin: Addr::unchecked(t) }), is_admin && !t.is_empty())
            }
            1 => {
                let ok = m.admin_offer.as_deref() == Some(who);
                w.admin = Some(who.into());
                w.admin_offer = None;
                (s.ch.auth(who, AuthExecuteMsg::ClaimAdmin {}), ok)
            }
            2 => {
                w.admin_offer = None;
                let ok = m.admin_offer.as_deref() == Some(who);
                (s.ch.auth(who, AuthExecuteMsg::RejectAdminTransfer {}), ok)
            }
            3 => {
                w.admin_offer = None;
                (s.ch.auth(who, AuthExecuteMsg::CancelAdminTransfer {}), is_admin)
            }
            4 => {
                let t = target(last);
                w.moderator_offer = Some(t.into());
                (s.ch.auth(who, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked(t) }), is_admin && !t.is_empty())
            }
            5 => {
                let ok = m.moderator_offer.as_deref() == Some(who);
                w.moderator = Some(who.into());
                w.moderator_offer = None;
                (s.ch.auth(who, AuthExecuteMsg::ClaimModerator {}), ok)
            }
            6 => {
                let ok = m.moderator_offer.as_deref() == Some(who);
                w.moderator_offer = None;
                (s.ch.auth(who, AuthExecuteMsg::RejectModeratorOffer {}), ok)
            }
            7 => {
                let t = target(last);
                w.admin = Some(t.into());
                (s.ch.sudo(SudoMsg::TransferAdmin { new_admin: Addr::unchecked(t) }), !t.is_empty())
            }
            8 => {
                w.admin = None;
                (s.ch.sudo(SudoMsg::RemoveAdmin {}), true)
            }
            9 => {
                w.admin = None;
                (s.ch.auth(who, AuthExecuteMsg::RenounceAdminship {}), is_admin)
            }
            10 => {
                let a = choose(2) == 1;
                w.active = a;
                (s.ch.auth(who, AuthExecuteMsg::SetActive { active: a }), is_admin || is_mod)
            }
            11 => {
                let f = any_rate("fee", u128::MAX >> 2);
                wfee = Z::atomics(f);
                let r = s.ch.auth(who, AuthExecuteMsg::SetMakerFee { fee: f });
                let ok = is_admin && wfee.le(Z::n(50_000_000_000_000_000));
                (r, ok)
            }
            12 => {
                let t = pick(&[ALICE, ""]);
                w.recipient = t.into();
                (
                    s.ch.auth(who, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked(t) }),
                    is_admin && !t.is_empty(),
                )
            }
            _ => {
                let a = choose(2) == 1;
                w.active = a;
                (s.ch.sudo(SudoMsg::SetActive { active: a }), true)
            }
        };
        note(format!("message {kind} by {who} -> {}", show(&r)));
        observe("auth", show(&r));
        check("auth: accepted exactly from those entitled", || r.is_ok() == may);
        if may {
            reach("accepted");
            m = w;
            fee = wfee;
        } else {
            reach("refused");
            if !last {
                // nothing happened: covered by the shorter history
                check("auth: a refusal has no effect", || roles(&s.ch) == m && fee_of(&s.ch).eq(fee));
                stop()
            }
        }
        let now = roles(&s.ch);
        if now != m {
            note(format!("now {now:?}, expected {m:?}"));
        }
        check("auth: the change takes effect exactly as asked, and nothing else changes", || now == m);
        let f = fee_of(&s.ch);
        check("auth: the fee changes only by a fee message", || f.eq(fee));
        if let Ok(t) = &r {
            check("auth: administration pays nobody", || t.sent.is_empty());
        }
        check("auth: administration does not touch orders, ticks or liquidity", || rest(&s.ch) == before);
    }
}

// ---- circuit breaker ----
fn switch_off(c: &mut Chain) {
    let r = match choose(3) {
        0 => c.auth(ADMIN_ADDR, AuthExecuteMsg::SetActive { active: false }),
        1 => c.auth(MOD_ADDR, AuthExecuteMsg::SetActive { active: false }),
        _ => c.sudo(SudoMsg::SetActive { active: false }),
    };
    check("switch: admin, moderator and governance can stop trading", || r.is_ok());
}
fn trade(c: &mut Chain, op: usize, q: Uint128) -> Tx {
    let t = 12_345_678;
    match op {
        0 => c.place(BOB, t, Ask, q, None),
        1 => c.cancel(BOB, t, 1),
        2 => c.claim(ALICE, t, 0),
        3 => c.exec(CAROL, &[], ExecuteMsg::BatchClaim { orders: vec![(t, 0), (t, 1)] }),
        4 => c.swap(Ask, q, Uint128::zero(), None),
        _ => c.swap(Ask, q, Uint128::zero(), Some(t)),
    }
}
fn breaker() {
    let t = 12_345_678;
    let mut s = Sim::new();
    s.place(ALICE, t, Bid, qty("q"), None);
    s.place(BOB, t, Bid, qty("q"), None);
    if choose(2) == 1 && !s.swap(Ask, qty("in"), Uint128::zero(), None) {
        stop()
    }
    let twin = s.ch.clone();
    switch_off(&mut s.ch);
    let off = s.ch.clone();
    let op = choose(6);
    let q = qty("trade");
    // refused while off
    let r = trade(&mut s.ch, op, q);
    note(format!("operation {op} while off -> {}", show(&r)));
    observe("off", show(&r));
    check("switch: no trading while the book is off", || r.is_err());
    check("switch: a refused operation changes nothing", || s.ch.store.0 == off.store.0);
    // looking and administering still work
    let x: Result<bool, String> = s.ch.query(QueryMsg::IsActive {});
    check("switch: the switch shows off", || x == Ok(false));
    super::pay::same_book("switch: every listing stays the same", &s.ch, &twin, &[t]);
    let quote = |c: &Chain| -> Result<CalcOutAmtGivenInResponse, String> {
        c.query(QueryMsg::CalcOutAmountGivenIn {
            token_in: cosmwasm_std::Coin { denom: base_denom().into(), amount: q },
            token_out_denom: quote_denom().into(),
            swap_fee: cosmwasm_std::Decimal::zero(),
        })
    };
    let (a, b) = (quote(&s.ch), quote(&twin));
    check("switch: quotes stay the same", || match (&a, &b) {
        (Ok(a), Ok(b)) => Z::of(&a.token_out.amount).eq(Z::of(&b.token_out.amount)),
        (Err(_), Err(_)) => true,
        _ => false,
    });
    let adm = choose(9);
    let r = match adm {
        0 => Ok(TxOk::default()),
        1 => s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::TransferAdmin { new_admin: Addr::unchecked(ALICE) }),
        2 => s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::OfferModerator { new_moderator: Addr::unchecked(ALICE) }),
        3 => s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetMakerFeeRecipient { recipient: Addr::unchecked(ALICE) }),
        4 => s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetMakerFee { fee: Decimal256::zero() }),
        5 => s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::CancelAdminTransfer {}),
        6 => s.ch.sudo(SudoMsg::TransferAdmin { new_admin: Addr::unchecked(BOB) }),
        7 => s.ch.sudo(SudoMsg::RemoveAdmin {}),
        _ => {
            let a = s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::TransferAdmin { new_admin: Addr::unchecked(ALICE) });
            check("switch: administration works while the book is off", || a.is_ok());
            s.ch.auth(ALICE, AuthExecuteMsg::ClaimAdmin {})
        }
    };
    note(format!("administration {adm} while off -> {}", show(&r)));
    check("switch: administration works while the book is off", || r.is_ok());
    // and back on
    let r = match choose(3) {
        0 if !matches!(adm, 6 | 7 | 8) => s.ch.auth(ADMIN_ADDR, AuthExecuteMsg::SetActive { active: true }),
        1 => s.ch.auth(MOD_ADDR, AuthExecuteMsg::SetActive { active: true }),
        _ => s.ch.sudo(SudoMsg::SetActive { active: true }),
    };
    note(format!("switching on -> {}", show(&r)));
    check("switch: the book can be switched on again", || r.is_ok());
    reach("switched on");
    let mut twin = twin;
    let (x, y) = (trade(&mut s.ch, op, q), trade(&mut twin, op, q));
    note(format!("operation {op} -> {}, never switched off -> {}", show(&x), show(&y)));
    s.obs("after", &x);
    check("switch: trading resumes as if it had never stopped", || same_tx(&x, &y));
    super::pay::same_book("switch: the same book as if it had never stopped", &s.ch, &twin, &[t]);
}

// ---- placement ----
fn placement(ticks: &[i64]) {
    let d = pick(&[Bid, Ask]);
    let t = pick(ticks);
    let mut s = Sim::new();
    // something is already resting
    s.place(ALICE, 0, d, qty("q"), None);
    let b = if choose(2) == 0 { None } else { Some(any_rate("bounty", u128::MAX >> 2)) };
    let q = any("quantity", 0, QMAX);
    let f = any("funds", 0, QMAX);
    let (right, wrong) = (maker_denom(d), maker_denom(d.opposite()));
    let (funds, kind): (Vec<(&str, Z)>, usize) = match choose(7) {
        0 => (vec![(right, Z::u(f))], 0),
        1 => (vec![(wrong, Z::u(f))], 1),
        2 => (vec![], 2),
        3 => (vec![(right, Z::u(f)), (wrong, Z::u(q))], 3),
        4 => (vec![("other", Z::u(f))], 4),
        5 => (vec![(right, Z::u(f)), ("other", Z::n(1))], 5),
        _ => (vec![(right, Z::u(f)), (right, Z::n(1))], 6),
    };
    let (tick_before, before) = (s.ch.ticks(), s.ch.clone());
    let r = s.ch.exec(
        BOB,
        &funds,
        ExecuteMsg::PlaceLimit { tick_id: t, order_direction: d, quantity: q, claim_bounty: b },
    );
    note(format!("place {d} tick {t} quantity {q} funds {funds:?} bounty {b:?} -> {}", show(&r)));
    s.obs("place", &r);
    let grid = (MIN_TICK..=MAX_TICK).contains(&t);
    let ok = grid
        && kind == 0
        && Z::u(q).pos()
        && Z::u(f).eq(Z::u(q))
        && b.map_or(true, |x| Z::atomics(x).le(Z::n(10_000_000_000_000_000)));
    match r {
        Ok(_) => {
            reach("accepted");
            check("form: only well-formed orders are accepted", || ok);
            s.orders.push(Ord {
                tick: t,
                dir: d,
                id: 1,
                owner: BOB.into(),
                q: Z::u(q),
                eff: Z::u(q),
                claimed: Z::zero(),
                bounty: b.map(Z::atomics),
                live: true,
                at: s.ch.env.block.time.nanos(),
            });
            enable(&["tal", "record", "ptr"]);
            s.check_state();
            check("form: the funds are kept", || s.ch.held(maker_denom(d)).eq(s.orders[0].q + s.orders[1].q));
        }
        Err(_) => {
            reach("refused");
            check("form: every well-formed order is accepted", || !ok);
            check("form: a refused order leaves no trace", || s.ch.store.0 == before.store.0 && tick_before.len() == s.ch.ticks().len());
            // the next one gets the next id
            let q = qty("later");
            let r = s.ch.place(CAROL, 0, d, q, None);
            check("form: a later valid order is accepted with the next id", || {
                r.as_ref().map_or(false, |t| t.attr("order_id").as_deref() == Some("1"))
            });
        }
    }
}

// ---- instantiation ----
fn creation() {
    // the chain tells apart what differs in a letter's case, or is the beginning of the other
    let denoms = [base_denom(), quote_denom(), "other", "unknown", "broken", "", "BASE", "bas"];
    let (b, q) = (pick(&denoms), pick(&denoms));
    let mut c = Chain::blank();
    let (sb, sq) = (any("base supply", 0, QMAX), any("quote supply", 0, QMAX));
    c.supply = vec![(base_denom().into(), Z::u(sb)), (quote_denom().into(), Z::u(sq))];
    let supply = |d: &str| match d {
        x if x == base_denom() => Z::u(sb),
        x if x == quote_denom() => Z::u(sq),
        "other" | "BASE" | "bas" => Z::n(5),
        _ => Z::zero(),
    };
    let r = c.instantiate(b, q);
    note(format!("instantiate {b}/{q}, supplies {sb} and {sq} -> {}", show(&r)));
    observe("instantiate", show(&r));
    let ok = b != q && supply(b).pos() && supply(q).pos();
    match r {
        Err(_) => {
            reach("refused");
            check("create: every pair of different existing tokens gets its book", || !ok);
        }
        Ok(t) => {
            reach("created");
            check("create: only two different existing tokens make a book", || ok);
            check("create: nothing is paid", || t.sent.is_empty());
            let m = roles(&c);
            check("create: the configured roles, switched on", || {
                m == Roles {
                    admin: Some(OSMOSIS_GOV_ADDR.into()),
                    admin_offer: None,
                    moderator: Some(CIRCUIT_BREAKER_SUBDAO_ADDR.into()),
                    moderator_offer: None,
                    active: true,
                    recipient: DEFAULT_MAKER_FEE_RECIPIENT.into(),
                }
            });
            let f = fee_of(&c);
            check("create: no maker fee", || f.is_zero());
            let k = c.book();
            check("create: the pair as given, pointers at the grid's edges", || {
                k.base_denom == b && k.quote_denom == q && k.next_bid_tick == MIN_TICK && k.next_ask_tick == MAX_TICK
            });
            let dn: DenomsResponse = c.query(QueryMsg::Denoms {}).expect("denoms");
            check("create: the pair is reported", || dn.base_denom == b && dn.quote_denom == q);
            check("create: the book is empty", || c.ticks().is_empty());
            let l: GetTotalPoolLiquidityResponse = c.query(QueryMsg::GetTotalPoolLiquidity {}).expect("liquidity");
            check("create: no liquidity", || l.total_pool_liquidity.iter().all(|x| Z::u(x.amount).is_zero()));
            // each side takes the right token
            let q1 = qty("q");
            let (x, y) = (b.to_string(), q.to_string());
            for (d, right) in [(Bid, &y), (Ask, &x)] {
                let r = c.exec(
                    ALICE,
                    &[(right.as_str(), Z::u(q1))],
                    ExecuteMsg::PlaceLimit { tick_id: 5, order_direction: d, quantity: q1, claim_bounty: None },
                );
                check("create: bids lock the quote token, asks the base token", || r.is_ok());
            }
        }
    }
}

const PLACE_TICKS: [i64; 9] =
    [MIN_TICK, MAX_TICK, 0, -17_654_321, MIN_TICK - 1, MAX_TICK + 1, i64::MIN, i64::MAX, 12_345_678];

pub fn all() -> Vec<H> {
    vec![
        h!("C10", "roles_2", true, [], || role_steps(2, true), "every message by each of 4 accounts (admin, moderator, 2 others) or governance, any fee, 2 steps", ["accepted", "refused"]),
        h!("C10", "roles_3", true, [], || role_steps(3, false), "2 role-moving messages, then any message by anyone", ["accepted", "refused"]),
        h!("C10", "roles_4", false, [], || role_steps(4, false), "3 role-moving messages, then any message by anyone", ["accepted", "refused"]),
        h!("C11", "breaker", true, [], breaker, "2 orders, any market order or none; stopped by admin, moderator or governance; each of 6 trading operations; each of 9 administrative messages; switched on again by each; compared with a book never stopped", ["switched on"]),
        h!("C12", "placement", true, [], || placement(&PLACE_TICKS), "9 ticks on, at the edge of and outside the grid, either side, any quantity and attached amount 0..10^30, any bounty, 7 kinds of attached funds", ["accepted", "refused"]),
        h!("C30", "placement", true, [], || placement(&PLACE_TICKS), "9 ticks on, at the edge of and outside the grid, either side, any quantity and attached amount 0..10^30, any bounty, 7 kinds of attached funds", ["accepted", "refused"]),
        h!("C22", "creation", true, [], creation, "8x8 pairs of denominations, any supply of the two main ones", ["created", "refused"]),
    ]
}
