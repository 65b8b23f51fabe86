//! Many cancellations at one tick: queue positions, pending cancellations, the shape of the tree.
use super::hist::{h, hit, qty, Hist, Op};
use crate::book::*;
use crate::chain::*;
use crate::rt::*;
use crate::H;
use cosmwasm_std::Uint128;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::OrderDirection;

const T: i64 = 12_345_678;
const OWNERS: [&str; 3] = [ALICE, BOB, CAROL];

/// `n` orders, then any sequence of cancellations, market orders and claims
fn queue(n: usize, steps: usize, d: OrderDirection, ops: &[Op]) {
    Hist {
        slots: vec![(T, d)],
        init: (0..n).map(|i| (OWNERS[i % 3], 0)).collect(),
        ops: ops.to_vec(),
        steps,
        state_each: false,
        ..Default::default()
    }
    .run();
}
/// a market order first, then `k` cancellations in any order, a market order, and everybody leaves
fn waves(n: usize, k: usize, d: OrderDirection) {
    let mut s = start(n, d);
    let swap = |s: &mut Sim| {
        if choose(2) == 1 && !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
    };
    swap(&mut s);
    for _ in 0..k {
        cancel_any(&mut s);
    }
    swap(&mut s);
    s.check_state();
    s.drain();
}
/// Which `k` of `n` orders are cancelled, and in one of four orders.
fn cancel_set(n: usize, k: usize) -> Vec<usize> {
    let mut set: Vec<usize> = vec![];
    let mut from = 0;
    for j in 0..k {
        let left = n - from - (k - j) + 1;
        let x = from + choose(left);
        set.push(x);
        from = x + 1;
    }
    match choose(4) {
        0 => {}
        1 => set.reverse(),
        2 => set.rotate_left(k / 2),
        _ => {
            // from the outside in
            let mut v = vec![];
            while !set.is_empty() {
                v.push(set.remove(0));
                if let Some(x) = set.pop() {
                    v.push(x)
                }
            }
            set = v;
        }
    }
    set
}
/// Orders of cancellation that lead to every shape the tree can take with 5, 6 and 7 leaves.
const SHAPES_5: [[usize; 5]; 4] = [[0, 2, 3, 4, 1], [0, 1, 3, 4, 2], [0, 1, 2, 4, 3], [0, 1, 2, 3, 4]];
const SHAPES_6: [[usize; 6]; 6] = [[0, 1, 4, 5, 2, 3], [0, 2, 3, 5, 1, 4], [0, 2, 3, 4, 1, 5], [0, 1, 3, 5, 2, 4], [0, 1, 3, 4, 2, 5], [0, 1, 2, 3, 4, 5]];
const SHAPES_7: [[usize; 7]; 4] = [[0, 1, 2, 3, 4, 6, 5], [0, 1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 5, 6, 4], [0, 1, 3, 4, 2, 5, 6]];
/// A market order and a claim of the last order it reached, which must find everything before it
/// filled or passed over.
fn hit_and_claim_last(s: &mut Sim, d: OrderDirection) {
    if !s.liq(T, d).pos() || !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    let can: Vec<usize> = (0..s.orders.len()).filter(|i| s.orders[*i].live && s.claimable(*i).pos()).collect();
    let Some(last) = can.last() else { stop() };
    let who = s.orders[*last].owner.clone();
    s.claim(&who, *last);
}
/// Any `a` cancellations in any order, a market order and a claim, any `b` further cancellations
/// (the first of which may be of an order filled in part), a market order and a claim.
fn probe_mid(n: usize, a: usize, b: usize, d: OrderDirection) {
    let mut s = start(n, d);
    for _ in 0..a {
        cancel_any(&mut s);
    }
    hit_and_claim_last(&mut s, d);
    for _ in 0..b {
        let live: Vec<usize> = (0..n).filter(|i| s.orders[*i].live && !s.claimable(*i).pos()).collect();
        if live.is_empty() {
            stop()
        }
        let i = pick(&live);
        let who = s.orders[i].owner.clone();
        s.cancel(&who, i);
    }
    hit_and_claim_last(&mut s, d);
}
/// Deep trees: any `k` of the first `n - 1` of `n` orders are cancelled, so that the tree takes any
/// of its shapes; then, `rounds` times, a market order and a claim of the last order it reached,
/// which must find everything before it filled or passed over.
fn probe<const K: usize>(n: usize, shapes: &[[usize; K]], rounds: usize, d: OrderDirection) {
    let mut s = shaped(n, shapes, d);
    for _ in 0..rounds {
        hit_and_claim_last(&mut s, d);
    }
}
fn shaped<const K: usize>(n: usize, shapes: &[[usize; K]], d: OrderDirection) -> Sim {
    let mut s = start(n, d);
    let mut set: Vec<usize> = vec![];
    let mut from = 0;
    for j in 0..K {
        let left = n - 1 - from - (K - j) + 1;
        let x = from + choose(left);
        set.push(x);
        from = x + 1;
    }
    let order = pick(shapes);
    for i in order {
        let i = set[i];
        let who = s.orders[i].owner.clone();
        if !s.cancel(&who, i) {
            stop()
        }
    }
    s
}
/// Cancellations, a market order, a claim (which takes stock of the cancellations passed so far),
/// another market order, and everybody leaves, in any cyclic order.
fn waves_sync(n: usize, k: usize, d: OrderDirection) {
    let mut s = start(n, d);
    let set = cancel_set(n, k);
    for i in set {
        let who = s.orders[i].owner.clone();
        if !s.cancel(&who, i) {
            stop()
        }
    }
    let swap = |s: &mut Sim| {
        if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
    };
    swap(&mut s);
    let can: Vec<usize> = (0..n).filter(|i| s.orders[*i].live && s.claimable(*i).pos()).collect();
    let Some(last) = can.last() else { stop() };
    let who = s.orders[*last].owner.clone();
    s.claim(&who, *last);
    if s.orders.iter().any(|o| o.live) && s.liq(T, d).pos() {
        swap(&mut s);
    }
    let shift = pick(&[0, n / 2, n - 1]);
    for j in 0..n {
        let i = (j + shift) % n;
        if !s.orders[i].live {
            continue;
        }
        let who = s.orders[i].owner.clone();
        if s.claimable(i).pos() {
            s.claim(&who, i);
        }
        if s.orders[i].live {
            s.cancel(&who, i);
        }
    }
}
/// many cancellations on both sides of a tick, so that both trees are rebalanced
fn sides(n: usize, k: usize) {
    let mut s = Sim::new();
    for i in 0..n {
        for d in dirs() {
            s.place(OWNERS[i % 3], T, d, qty("q"), None);
        }
    }
    // a small tree on one side first
    let a = pick(&[Bid, Ask]);
    let mine = |s: &Sim, d: OrderDirection| -> Vec<usize> {
        (0..s.orders.len()).filter(|i| s.orders[*i].live && s.orders[*i].dir == d).collect()
    };
    let l = mine(&s, a);
    let i = pick(&l[..2]);
    let who = s.orders[i].owner.clone();
    s.cancel(&who, i);
    for _ in 0..k {
        let l = mine(&s, a.opposite());
        let i = pick(&[l[0], l[l.len() / 2], l[l.len() - 1]]);
        let who = s.orders[i].owner.clone();
        if !s.cancel(&who, i) {
            stop()
        }
        for d in dirs() {
            check_tree(&s, T, d);
        }
    }
    if !s.swap(a.opposite(), qty("in"), Uint128::zero(), None) {
        stop()
    }
    s.check_state();
    s.drain();
    s.check_state();
    for d in dirs() {
        check_tree(&s, T, d);
    }
}
fn start(n: usize, d: OrderDirection) -> Sim {
    let mut s = Sim::new();
    for i in 0..n {
        s.place(OWNERS[i % 3], T, d, qty("q"), None);
    }
    s
}
fn cancel_any(s: &mut Sim) {
    let live: Vec<usize> = (0..s.orders.len()).filter(|i| s.orders[*i].live).collect();
    let i = pick(&live);
    let who = s.orders[i].owner.clone();
    if !s.cancel(&who, i) {
        stop()
    }
}

// ---- pending cancellations ----
/// Where the queue truly stands: filled amount plus every cancelled interval reached on the way.
fn position(s: &Sim, t: i64, d: OrderDirection) -> Z {
    let mut at = s.filled_at(t, d);
    let mut start = Z::zero();
    for o in s.orders.iter().filter(|o| o.tick == t && o.dir == d) {
        let gap = o.q - o.eff;
        if gap.pos() && (start + o.eff).le(at) {
            at += gap;
        }
        start += o.q;
    }
    at
}
fn check_pending(s: &mut Sim, ticks: &[i64]) {
    let r: GetUnrealizedCancelsResponse = match s.ch.query(QueryMsg::GetUnrealizedCancels { tick_ids: ticks.to_vec() }) {
        Ok(r) => r,
        Err(e) => {
            note(format!("query: {e}"));
            fail("pending: the query answers for every initialised tick")
        }
    };
    let st: TicksResponse = s.ch.query(QueryMsg::TicksById { tick_ids: ticks.to_vec() }).expect("TicksById");
    check("pending: one answer per tick asked for, in order", || {
        r.ticks.iter().map(|x| x.tick_id).collect::<Vec<_>>() == ticks
    });
    for (x, y) in r.ticks.iter().zip(&st.ticks) {
        for d in dirs() {
            let (p, v) = match d {
                Bid => (x.unrealized_cancels.bid_unrealized_cancels, y.tick_state.get_values(Bid)),
                Ask => (x.unrealized_cancels.ask_unrealized_cancels, y.tick_state.get_values(Ask)),
            };
            let have = Z::atomics(v.effective_total_amount_swapped) + Z::atomics(p);
            let want = position(s, x.tick_id, d) * Z::n(ONE18);
            check("pending: filled counter plus pending cancellations is the queue's true position", || have.eq(want));
        }
    }
}
fn pending(n: usize, steps: usize) {
    let d = pick(&[Bid, Ask]);
    let h = Hist {
        slots: vec![(T, d)],
        ops: vec![hit(d), Op::Claim, Op::Cancel],
        ..Default::default()
    };
    let mut s = start(n, d);
    s.place(ALICE, T, d.opposite(), qty("q"), None);
    check_pending(&mut s, &[T]);
    for _ in 0..steps {
        h.step(&mut s);
        check_pending(&mut s, &[T]);
    }
}
/// the query on deep trees: after a market order, the claim of the last order it reached, and another
fn pending_shapes<const K: usize>(n: usize, shapes: &[[usize; K]]) {
    let d = pick(&[Bid, Ask]);
    let mut s = shaped(n, shapes, d);
    check_pending(&mut s, &[T]);
    for _ in 0..2 {
        if !s.liq(T, d).pos() || !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
        check_pending(&mut s, &[T]);
        let can: Vec<usize> = (0..n).filter(|i| s.orders[*i].live && s.claimable(*i).pos()).collect();
        let Some(last) = can.last() else { stop() };
        let who = s.orders[*last].owner.clone();
        s.claim(&who, *last);
        check_pending(&mut s, &[T]);
    }
}
fn pending_two_ticks(steps: usize) {
    let (t, u) = (-17_654_321i64, T);
    let d = pick(&[Bid, Ask]);
    let h = Hist {
        slots: vec![(t, d), (u, d)],
        ops: vec![hit(d), Op::Claim, Op::Cancel],
        ..Default::default()
    };
    let mut s = Sim::new();
    for (w, k) in [(ALICE, t), (BOB, u), (CAROL, t), (ALICE, u)] {
        s.place(w, k, d, qty("q"), None);
    }
    for _ in 0..steps {
        h.step(&mut s);
        let order = pick(&[[t, u], [u, t]]);
        check_pending(&mut s, &order);
    }
    let r: Result<GetUnrealizedCancelsResponse, String> =
        s.ch.query(QueryMsg::GetUnrealizedCancels { tick_ids: vec![t, 3] });
    check("pending: an uninitialised tick is refused", || r.is_err());
}

// ---- the tree ----
#[derive(Debug, Clone)]
struct Node {
    left: Option<u64>,
    right: Option<u64>,
    parent: Option<u64>,
    leaf: Option<(Z, Z)>,
    inner: Option<(Z, Z, Z, u64)>,
}
fn dec(v: &Value) -> Z {
    let t = v.as_str().expect("decimal");
    let d: cosmwasm_std::Decimal256 = cosmwasm_std::from_json(format!("\"{t}\"").as_bytes()).expect("decimal");
    Z::atomics(d)
}
/// All nodes of one tick and side, from the raw storage.
fn nodes(c: &Chain, tick: i64, d: OrderDirection) -> (Option<u64>, BTreeMap<u64, Node>) {
    let (mut root, mut m) = (None, BTreeMap::new());
    for (k, v) in &c.store.0 {
        let Some(ns) = k.get(0..2).map(|x| u16::from_be_bytes([x[0], x[1]]) as usize) else { continue };
        let Some(name) = k.get(2..2 + ns) else { continue };
        let rest = &k[2 + ns..];
        if name == b"nodes" {
            let j: Value = serde_json::from_slice(v).expect("node");
            if j["tick_id"].as_i64() != Some(tick) || j["direction"].as_str() != Some(&d.to_string()) {
                continue;
            }
            let t = &j["node_type"];
            let (leaf, inner) = if t.get("leaf").is_some() {
                (Some((dec(&t["leaf"]["etas"]), dec(&t["leaf"]["value"]))), None)
            } else {
                let i = &t["internal"];
                (
                    None,
                    Some((dec(&i["accumulator"]), dec(&i["range"][0]), dec(&i["range"][1]), i["weight"].as_u64().unwrap())),
                )
            };
            let n = Node {
                left: j["left"].as_u64(),
                right: j["right"].as_u64(),
                parent: j["parent"].as_u64(),
                leaf,
                inner,
            };
            check("tree: a node is stored under its own key", || {
                j["key"].as_u64().map_or(false, |x| rest.ends_with(&x.to_be_bytes()))
            });
            m.insert(j["key"].as_u64().unwrap(), n);
        } else if name == b"tree" && rest.ends_with(d.to_string().as_bytes()) {
            // key: length-prefixed tick, then the direction
            let tk = &rest[2..10];
            let id = i64::from_be_bytes(tk.try_into().unwrap()) ^ i64::MIN;
            if id == tick {
                root = serde_json::from_slice(v).ok();
            }
        }
    }
    (root, m)
}
struct Walk<'a> {
    m: &'a BTreeMap<u64, Node>,
    leaves: Vec<(Z, Z)>,
    seen: BTreeSet<u64>,
}
impl Walk<'_> {
    /// (sum, from, to, height)
    fn go(&mut self, id: u64, parent: Option<u64>) -> (Z, Z, Z, u64) {
        let Some(n) = self.m.get(&id).cloned() else { fail("tree: every child exists") };
        check("tree: parent links agree with child links", || n.parent == parent);
        if !self.seen.insert(id) {
            fail("tree: no node is reachable twice");
        }
        if let Some((e, v)) = n.leaf {
            check("tree: leaves have no children", || n.left.is_none() && n.right.is_none());
            self.leaves.push((e, v));
            return (v, e, e + v, 1);
        }
        let (acc, lo, hi, w) = n.inner.unwrap();
        let l = n.left.map(|x| self.go(x, Some(id)));
        let r = n.right.map(|x| self.go(x, Some(id)));
        let (sum, from, to, h) = match (l, r) {
            (Some(l), Some(r)) => {
                check("tree: the left subtree lies before the right one", || l.2.le(r.1));
                check("tree: sibling heights differ by at most one", || l.3.abs_diff(r.3) <= 1);
                (l.0 + r.0, l.1, r.2, l.3.max(r.3) + 1)
            }
            (Some(x), None) | (None, Some(x)) => {
                check("tree: an inner node with one child holds a leaf", || x.3 == 1);
                (x.0, x.1, x.2, x.3 + 1)
            }
            (None, None) => fail("tree: no inner node is empty"),
        };
        check("tree: an inner node's total is the sum of its leaves", || acc.eq(sum));
        check("tree: an inner node's range spans its leaves", || lo.eq(from) && hi.eq(to));
        check("tree: recorded heights are right", || w == h);
        (sum, from, to, h)
    }
}
pub fn check_tree(s: &Sim, tick: i64, d: OrderDirection) {
    let (root, m) = nodes(&s.ch, tick, d);
    // what was cancelled, by position in the queue
    let mut want = vec![];
    let mut start = Z::zero();
    for o in s.orders.iter().filter(|o| o.tick == tick && o.dir == d) {
        if !o.live && (o.q - o.eff).pos() {
            want.push(((start + o.eff) * Z::n(ONE18), (o.q - o.eff) * Z::n(ONE18)));
        }
        start += o.q;
    }
    let Some(root) = root else {
        check("tree: cancellations are recorded", || want.is_empty());
        return;
    };
    if !m.contains_key(&root) {
        // created by a synchronisation, not yet written
        check("tree: cancellations are recorded", || want.is_empty());
        return;
    }
    let mut w = Walk { m: &m, leaves: vec![], seen: BTreeSet::new() };
    w.go(root, None);
    check("tree: no node is left over outside the tree", || w.seen.len() == m.len());
    check("tree: exactly the cancelled intervals are recorded, in order", || {
        w.leaves.len() == want.len() && w.leaves.iter().zip(&want).all(|(a, b)| a.0.eq(b.0) && a.1.eq(b.1))
    });
}
/// every order of cancelling `n` orders, optionally after a market order
fn tree_all(n: usize, k: usize, swap: bool) {
    let d = pick(&[Bid, Ask]);
    let mut s = start(n, d);
    if swap {
        if !s.swap(d.opposite(), qty("in"), Uint128::zero(), None) {
            stop()
        }
        for i in 0..n {
            if s.claimable(i).pos() && s.orders[i].live {
                let w = s.orders[i].owner.clone();
                if !s.claim(&w, i) {
                    stop()
                }
            }
        }
    }
    for _ in 0..k {
        if s.orders.iter().all(|o| !o.live) {
            break;
        }
        cancel_any(&mut s);
        check_tree(&s, T, d);
    }
}
fn tree_two_sides(steps: usize) {
    let mut s = Sim::new();
    for i in 0..2 {
        for d in dirs() {
            s.place(OWNERS[i], T, d, qty("q"), None);
        }
    }
    let h = Hist {
        slots: vec![(T, Bid)],
        ops: vec![Op::HitBids, Op::HitAsks, Op::Cancel, Op::Claim],
        ..Default::default()
    };
    for _ in 0..steps {
        h.step(&mut s);
        for d in dirs() {
            check_tree(&s, T, d);
        }
    }
}

pub fn all() -> Vec<H> {
    vec![
        h!("C07", "queue_4", true, ["fifo", "cancel", "record", "live"], || queue(4, 3, pick(&[Bid, Ask]), &[Op::HitBids, Op::HitAsks, Op::Cancel]), "4 orders of one tick, either side; every sequence of 3 cancellations and market orders; then everybody leaves", ["cancel ok", "swap ok", "claim ok"]),
        h!("C07", "waves_5", true, ["fifo", "cancel", "live"], || waves(5, 3, Bid), "5 orders; a market order or none, any 3 cancellations in any order, a market order or none; then everybody leaves", ["cancel ok", "claim ok"]),
        h!("C07", "queue_claims", true, ["fifo", "cancel", "live"], || queue(3, 4, pick(&[Bid, Ask]), &[Op::HitBids, Op::HitAsks, Op::Cancel, Op::Claim]), "3 orders, every sequence of 4 cancellations, market orders and claims", ["cancel ok", "claim ok"]),
        h!("C07", "waves_sync_5", true, ["fifo", "cancel", "live"], || waves_sync(5, 3, pick(&[Bid, Ask])), "5 orders, any 3 of them cancelled (in 4 orders), a market order, a claim, another market order, then everybody leaves starting anywhere", ["cancel ok", "claim ok"]),
        h!("C07", "waves_sync_6", false, ["fifo", "cancel", "live"], || waves_sync(6, 4, pick(&[Bid, Ask])), "6 orders, any 4 of them cancelled (in 4 orders), a market order, a claim, another market order, then everybody leaves starting anywhere", ["cancel ok", "claim ok"]),
        h!("C07", "probe_8", true, ["fifo", "cancel", "live"], || probe(8, &SHAPES_5, 2, Bid), "8 orders, any 5 of the first 7 cancelled, every shape of the tree; twice: a market order and a claim of the last order it reached", ["cancel ok", "claim ok"]),
        h!("C07", "probe_mid_5", true, ["fifo", "cancel", "live"], || probe_mid(5, 2, 1, Ask), "5 orders, any 2 cancellations, a market order and a claim, any further cancellation, a market order and a claim", ["cancel ok", "claim ok"]),
        h!("C07", "probe_mid_7", false, ["fifo", "cancel", "live"], || probe_mid(7, 3, 2, Ask), "7 orders, any 3 cancellations, a market order and a claim, any 2 further cancellations, a market order and a claim", ["cancel ok", "claim ok"]),
        h!("C07", "probe_9", false, ["fifo", "cancel", "live"], || probe(9, &SHAPES_6, 3, Ask), "9 orders, any 6 of the first 8 cancelled, every shape of the tree; three times a market order and a claim of the last order it reached", ["cancel ok", "claim ok"]),
        h!("C07", "probe_10", false, ["fifo", "cancel", "live"], || probe(10, &SHAPES_7, 2, Bid), "10 orders, any 7 of the first 9 cancelled, every shape of the tree; twice a market order and a claim of the last order it reached", ["cancel ok", "claim ok"]),
        h!("C07", "queue_5x5", false, ["fifo", "cancel", "live"], || queue(5, 5, Ask, &[Op::HitAsks, Op::Cancel]), "5 orders, every sequence of 5 cancellations and market orders", ["cancel ok"]),
        h!("C07", "waves_6", false, ["fifo", "cancel", "live"], || waves(6, 5, Ask), "6 orders, any 5 cancellations in any order between two market orders", ["cancel ok"]),
        h!("C07", "waves_7", false, ["fifo", "cancel", "live"], || waves(7, 4, Bid), "7 orders, any 4 cancellations in any order between two market orders", ["cancel ok"]),
        h!("C19", "pending_4x3", true, [], || pending(4, 3), "4 orders of one tick and one on the other side; 3 events out of {market order, claim, cancel}; the query after each", ["cancel ok", "swap ok"]),
        h!("C19", "pending_two_ticks", true, [], || pending_two_ticks(3), "2 orders at each of 2 ticks, 3 events, the query for both ticks after each", ["cancel ok", "swap ok"]),
        h!("C19", "pending_shapes_7", true, [], || pending_shapes(7, &SHAPES_5), "7 orders, any 5 of the first 6 cancelled, every shape of the tree; the query before and after each of two market orders and claims of the last order reached", ["cancel ok", "claim ok"]),
        h!("C19", "pending_shapes_8", false, [], || pending_shapes(8, &SHAPES_5), "8 orders, any 5 of the first 7 cancelled, every shape of the tree; the query before and after each of two market orders and claims of the last order reached", ["cancel ok", "claim ok"]),
        h!("C19", "pending_4x5", false, [], || pending(4, 5), "as pending_4x3 with 5 events", ["cancel ok"]),
        h!("C26", "tree_all_4", true, [], || tree_all(4, 4, false), "every order of cancelling 4 orders", ["cancel ok"]),
        h!("C26", "tree_swapped_4", true, [], || tree_all(4, 4, true), "4 orders, any market order, all claims, then every order of cancelling the rest", ["cancel ok"]),
        h!("C26", "tree_two_sides", true, [], || tree_two_sides(4), "2 orders on each side of a tick, 4 events out of {market orders, cancel, claim}", ["cancel ok"]),
        h!("C26", "tree_sides", true, ["cancel"], || sides(5, 4), "5 orders on each side of a tick, one cancellation on one side and 4 (first, middle or last each time) on the other, a market order, then everybody leaves", ["cancel ok"]),
        h!("C24", "isolation_trees", true, ["fifo", "tal", "record", "cancel"], || sides(5, 4), "5 orders on each side of a tick, one cancellation on one side and 4 (first, middle or last each time) on the other, a market order, then everybody leaves", ["cancel ok", "claim ok"]),
        h!("C26", "tree_swapped_6", false, [], || tree_all(6, 6, true), "6 orders, any market order, claims, then every order of cancelling the rest", ["cancel ok"]),
        h!("C26", "tree_all_7", true, [], || tree_all(7, 7, false), "every order of cancelling 7 orders", ["cancel ok"]),
        h!("C26", "tree_all_8", false, [], || tree_all(8, 8, false), "every order of cancelling 8 orders", ["cancel ok"]),
    ]
}
