//! Listings and paging.
use super::deep::OWNERS;
use super::hist::{h, qty, Hist, Op};
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::Addr;
use sumtree_orderbook::constants::{MAX_TICK, MIN_TICK};
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::LimitOrder;

const TK: [i64; 3] = [-17_654_321, 0, 12_345_678];

fn by_tick(s: &Sim, t: i64, from: Option<u64>, to: Option<u64>, limit: Option<u64>) -> OrdersResponse {
    match s.ch.query(QueryMsg::OrdersByTick { tick_id: t, start_from: from, end_at: to, limit }) {
        Ok(r) => r,
        Err(e) => fail(&format!("list: orders by tick are answered ({e})")),
    }
}
fn by_owner(s: &Sim, w: &str, from: Option<(i64, u64)>, to: Option<(i64, u64)>, limit: Option<u64>) -> OrdersResponse {
    match s.ch.query(QueryMsg::OrdersByOwner { owner: Addr::unchecked(w), start_from: from, end_at: to, limit }) {
        Ok(r) => r,
        Err(e) => fail(&format!("list: orders by owner are answered ({e})")),
    }
}
fn all_ticks(s: &Sim, from: Option<i64>, to: Option<i64>, limit: Option<usize>) -> Vec<TickIdAndState> {
    match s.ch.query::<TicksResponse>(QueryMsg::AllTicks { start_from: from, end_at: to, limit }) {
        Ok(r) => r.ticks,
        Err(e) => fail(&format!("list: ticks are answered ({e})")),
    }
}
fn same_orders(got: &[LimitOrder], want: &[&Ord]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| {
            g.order_id == w.id
                && g.tick_id == w.tick
                && g.owner.as_str() == w.owner
                && g.order_direction == w.dir
                && Z::u(g.quantity).eq(w.q - w.claimed)
                && Z::u(g.placed_quantity).eq(w.q)
        })
}
fn bounds<T: Clone>(xs: &[T]) -> Option<T> {
    let k = choose(xs.len() + 1);
    if k == 0 {
        None
    } else {
        Some(xs[k - 1].clone())
    }
}
fn limit() -> Option<u64> {
    bounds(&[0u64, 1, 2, 3, 10])
}
/// a book after some history, with the orders of three accounts over three ticks and both sides
fn book(steps: usize) -> Sim {
    let h = Hist {
        slots: vec![(TK[0], Bid), (TK[1], Ask), (TK[2], Bid), (TK[1], Bid)],
        ops: vec![Op::HitBids, Op::Claim, Op::Cancel],
        ..Default::default()
    };
    let mut s = Sim::new();
    for (w, k) in [(ALICE, 2), (BOB, 0), (ALICE, 1), (ALICE, 0), (BOB, 3), (ALICE, 3)] {
        let (t, d) = h.slots[k];
        s.place(w, t, d, qty("q"), None);
    }
    for _ in 0..steps {
        h.step(&mut s);
    }
    s
}
fn take<'a>(v: Vec<&'a Ord>, l: Option<u64>, def: usize) -> Vec<&'a Ord> {
    let n = l.map_or(def, |x| x as usize);
    v.into_iter().take(n).collect()
}
fn list_by_tick(steps: usize) {
    let s = book(steps);
    let t = pick(&[TK[0], TK[1], TK[2], 77]);
    let ids = [0u64, 1, 3, 4, 5, 9];
    let (from, to, l) = (bounds(&ids), bounds(&ids), limit());
    let got = by_tick(&s, t, from, to, l);
    let want: Vec<&Ord> = s
        .orders
        .iter()
        .filter(|o| o.live && o.tick == t && from.map_or(true, |f| o.id >= f) && to.map_or(true, |e| o.id <= e))
        .collect();
    note(format!("orders at {t} from {from:?} to {to:?} limit {l:?}: {} listed, {} in range", got.orders.len(), want.len()));
    observe("listed", got.orders.len());
    if want.len() > 1 {
        reach("several in range");
    }
    check("list: the count of a tick's listing is the number of orders in range", || got.count == want.len() as u64);
    let want = take(want, l, usize::MAX);
    check("list: a tick's listing is exactly the open orders in range, in order", || same_orders(&got.orders, &want));
}
fn owner_keys(s: &Sim, w: &str) -> Vec<usize> {
    let mut v: Vec<usize> = (0..s.orders.len()).filter(|i| s.orders[*i].live && s.orders[*i].owner == w).collect();
    v.sort_by_key(|i| (s.orders[*i].tick, s.orders[*i].id));
    v
}
fn list_by_owner(steps: usize) {
    let s = book(steps);
    let w = pick(&[ALICE, BOB, CAROL]);
    let keys = [(TK[0], 0u64), (TK[0], 3), (TK[1], 2), (TK[1], 4), (TK[2], 9), (MIN_TICK, 0)];
    let (from, to, l) = (bounds(&keys), bounds(&keys), limit());
    let got = by_owner(&s, w, from, to, l);
    let mine = owner_keys(&s, w);
    let want: Vec<&Ord> = mine
        .iter()
        .map(|i| &s.orders[*i])
        .filter(|o| from.map_or(true, |f| (o.tick, o.id) >= f) && to.map_or(true, |e| (o.tick, o.id) <= e))
        .collect();
    note(format!("orders of {w} from {from:?} to {to:?} limit {l:?}: {} listed, {} in range", got.orders.len(), want.len()));
    observe("listed", got.orders.len());
    if want.len() > 1 {
        reach("several in range");
    }
    check("list: the count of an owner's listing is the number of the owner's open orders", || got.count == mine.len() as u64);
    let want = take(want, l, 100);
    check("list: an owner's listing is exactly the open orders in range, by tick and id", || same_orders(&got.orders, &want));
}
fn list_ticks(steps: usize) {
    let s = book(steps);
    let keys = [MIN_TICK, TK[0] - 1, TK[0], TK[1], TK[1] + 1, TK[2], MAX_TICK];
    let (from, to) = (bounds(&keys), bounds(&keys));
    let l = limit();
    let got = all_ticks(&s, from, to, l.map(|x| x as usize));
    let want: Vec<i64> = TK
        .iter()
        .copied()
        .filter(|t| from.map_or(true, |f| *t >= f) && to.map_or(true, |e| *t <= e))
        .take(l.map_or(usize::MAX, |x| x as usize))
        .collect();
    note(format!("ticks from {from:?} to {to:?} limit {l:?}: {} listed", got.len()));
    observe("listed", got.len());
    if want.len() > 1 {
        reach("several in range");
    }
    check("list: exactly the ticks in range, in order", || got.iter().map(|t| t.tick_id).collect::<Vec<_>>() == want);
    check("list: a listed tick shows its liquidity", || liq_ok(&s, &got));
    // by id: as asked
    let ask = pick(&[vec![TK[2], TK[0]], vec![TK[1], TK[1]], vec![], vec![TK[0], 77]]);
    let r: Result<TicksResponse, String> = s.ch.query(QueryMsg::TicksById { tick_ids: ask.clone() });
    match r {
        Ok(r) => {
            check("list: ticks by id come as asked for", || r.ticks.iter().map(|t| t.tick_id).collect::<Vec<_>>() == ask);
            check("list: a listed tick shows its liquidity", || liq_ok(&s, &r.ticks));
        }
        Err(_) => check("list: ticks by id are refused only for an unknown tick", || ask.contains(&77)),
    }
}
fn liq_ok(s: &Sim, v: &[TickIdAndState]) -> bool {
    v.iter().all(|t| {
        dirs().iter().all(|d| {
            Z::atomics(t.tick_state.get_values(*d).total_amount_of_liquidity).eq(s.liq(t.tick_id, *d) * Z::n(ONE18))
        })
    })
}
/// walking through any listing page by page
fn paging(steps: usize) {
    let s = book(steps);
    let n = 1 + choose(3);
    let mut seen: Vec<(i64, u64)> = vec![];
    let what = choose(3);
    match what {
        0 => {
            let t = pick(&TK);
            let mut from = None;
            loop {
                let p = by_tick(&s, t, from, None, Some(n as u64)).orders;
                seen.extend(p.iter().map(|o| (o.tick_id, o.order_id)));
                match p.last() {
                    Some(o) if p.len() == n && seen.len() < 20 => from = Some(o.order_id + 1),
                    _ => break,
                }
            }
            let want: Vec<(i64, u64)> = s.orders.iter().filter(|o| o.live && o.tick == t).map(|o| (o.tick, o.id)).collect();
            check("list: paging visits every entry exactly once", || seen == want);
        }
        1 => {
            let w = pick(&[ALICE, BOB]);
            let mut from = None;
            loop {
                let p = by_owner(&s, w, from, None, Some(n as u64)).orders;
                seen.extend(p.iter().map(|o| (o.tick_id, o.order_id)));
                match p.last() {
                    Some(o) if p.len() == n && seen.len() < 20 => from = Some((o.tick_id, o.order_id + 1)),
                    _ => break,
                }
            }
            let want: Vec<(i64, u64)> = owner_keys(&s, w).iter().map(|i| (s.orders[*i].tick, s.orders[*i].id)).collect();
            check("list: paging visits every entry exactly once", || seen == want);
        }
        _ => {
            let mut from = None;
            loop {
                let p = all_ticks(&s, from, None, Some(n));
                seen.extend(p.iter().map(|t| (t.tick_id, 0)));
                match p.last() {
                    Some(t) if p.len() == n && seen.len() < 20 => from = Some(t.tick_id + 1),
                    _ => break,
                }
            }
            check("list: paging visits every entry exactly once", || seen == TK.map(|t| (t, 0)));
        }
    }
    observe("seen", seen.len());
}
/// more orders than a default page
fn long_lists() {
    let d = pick(&[Bid, Ask]);
    let n = pick(&[99usize, 100, 101, 130, 300]);
    let mut s = Sim::new();
    for k in 0..n {
        s.place(ALICE, if k % 7 != 3 { 0 } else { 5 }, d, qty("q"), None);
    }
    let got = by_owner(&s, ALICE, None, None, None);
    let mine = owner_keys(&s, ALICE);
    check("list: an owner's default page holds 100 orders", || {
        got.count == n as u64
            && got.orders.iter().map(|o| o.order_id).collect::<Vec<_>>()
                == mine.iter().take(100).map(|i| s.orders[*i].id).collect::<Vec<_>>()
    });
    let got = by_tick(&s, 0, None, None, None);
    check("list: a tick lists all its orders", || {
        let want: Vec<u64> = (0..n as u64).filter(|k| k % 7 != 3).collect();
        got.orders.iter().map(|o| o.order_id).collect::<Vec<_>>() == want && got.count == want.len() as u64
    });
    // larger pages, from somewhere in the middle
    let l = pick(&[0u64, 1, 99, 100, 101, 150, 1_000]);
    let from = pick(&[0, n / 3, n - 1]);
    let key = (s.orders[mine[from]].tick, s.orders[mine[from]].id);
    let got = by_owner(&s, ALICE, Some(key), None, Some(l));
    check("list: a page holds as many orders as asked for", || {
        got.orders.iter().map(|o| o.order_id).collect::<Vec<_>>()
            == mine[from..].iter().take(l as usize).map(|i| s.orders[*i].id).collect::<Vec<_>>()
    });
    let got = by_tick(&s, 0, Some(from as u64), Some(n as u64 - 2), Some(l));
    check("list: a page holds as many orders as asked for", || {
        let want: Vec<u64> = (from as u64..n as u64 - 1).filter(|k| k % 7 != 3).collect();
        got.orders.iter().map(|o| o.order_id).collect::<Vec<_>>() == want.iter().copied().take(l as usize).collect::<Vec<_>>()
            && got.count == want.len() as u64
    });
}
/// more price levels than any page
fn many_ticks(n: usize) {
    let mut s = Sim::new();
    let at: Vec<i64> = (0..n as i64).map(|i| (i - n as i64 / 2) * 777_777).collect();
    for k in 0..n {
        // neither upwards nor downwards
        let k = k * 59 % n;
        s.place(OWNERS[k % 3], at[k], [Bid, Ask][k % 2], qty("q"), None);
    }
    let l = pick(&[None, Some(0usize), Some(1), Some(30), Some(100), Some(101), Some(n), Some(usize::MAX)]);
    let (from, to) = (pick(&[None, Some(0), Some(n / 2)]), pick(&[None, Some(n / 2), Some(n - 1)]));
    let got = all_ticks(&s, from.map(|i| at[i]), to.map(|i| at[i]), l);
    check("list: exactly the ticks in range, in order", || {
        got.iter().map(|t| t.tick_id).collect::<Vec<_>>()
            == at[from.unwrap_or(0)..=to.unwrap_or(n - 1)].iter().copied().take(l.unwrap_or(n)).collect::<Vec<_>>()
    });
    check("list: a listed tick shows its liquidity", || liq_ok(&s, &got));
    let r: Result<TicksResponse, String> = s.ch.query(QueryMsg::TicksById { tick_ids: at.clone() });
    check("list: ticks by id come as asked for", || {
        r.as_ref().map_or(false, |r| r.ticks.iter().map(|t| t.tick_id).collect::<Vec<_>>() == at && liq_ok(&s, &r.ticks))
    });
}

pub fn all() -> Vec<H> {
    vec![
        h!("C18", "list_by_tick", true, [], || list_by_tick(1), "6 orders over 3 ticks and both sides, any event out of {market order, claim, cancel}; every combination of 4 ticks, 7 lower bounds, 7 upper bounds and 6 limits", ["several in range"]),
        h!("C18", "list_by_owner", true, [], || list_by_owner(1), "as list_by_tick for 3 accounts", ["several in range"]),
        h!("C18", "list_ticks", true, [], || list_ticks(1), "as list_by_tick for the listing of ticks, with 4 lists of ticks by id", ["several in range"]),
        h!("C18", "paging", true, [], || paging(2), "2 events; walking each listing in pages of 1 to 3 entries", []),
        h!("C18", "long_lists", true, [], long_lists, "99, 100, 101, 130 and 300 orders of one owner, pages of 0 to 1000 from 3 positions", []),
        h!("C18", "many_ticks", true, [], || many_ticks(140), "140 ticks on both sides; 8 limits, 3 lower and 3 upper bounds; all of them by id", []),
        h!("C18", "list_by_owner_3", false, [], || list_by_owner(3), "as list_by_owner after 3 events", ["several in range"]),
        h!("C18", "list_by_tick_3", false, [], || list_by_tick(3), "as list_by_tick after 3 events", ["several in range"]),
    ]
}
