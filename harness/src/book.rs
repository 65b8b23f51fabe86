//! Reference semantics of the order book, and a driver that runs every step on the real contract
//! and on the reference, comparing what users can observe.
//!
//! Reference: per (tick, direction) a FIFO queue of orders; `d` is the total amount ever filled
//! there. An order's fill is whatever part of `d` is left after the orders placed before it have
//! been satisfied; a cancelled order keeps only what it had been filled.
use crate::chain::*;
use crate::rt::*;
use cosmwasm_std::{Decimal256, Uint128, Uint256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::OrderDirection;

pub use sumtree_orderbook::types::OrderDirection::{Ask, Bid};

thread_local! { static ON: RefCell<BTreeSet<&'static str>> = RefCell::new(BTreeSet::new()); }
/// Groups of checks that are enabled for the current harness.
pub fn enable(groups: &[&'static str]) {
    ON.with(|o| *o.borrow_mut() = groups.iter().copied().collect());
}
pub fn on(g: &str) -> bool {
    ON.with(|o| o.borrow().contains(g))
}
pub fn chk(group: &str, label: &str, f: impl FnOnce() -> bool) {
    if on(group) {
        check(&format!("{group}: {label}"), f)
    }
}

#[derive(Clone, Debug)]
pub struct Ord {
    pub tick: i64,
    pub dir: OrderDirection,
    pub id: u64,
    pub owner: String,
    /// quantity placed
    pub q: Z,
    /// quantity this order occupies in the queue
    pub eff: Z,
    pub claimed: Z,
    /// bounty in 10^-18 units
    pub bounty: Option<Z>,
    pub live: bool,
    /// block time of the placement
    pub at: u64,
}

#[derive(Clone)]
pub struct Sim {
    pub ch: Chain,
    pub orders: Vec<Ord>,
    /// filled per (tick, is_bid)
    pub d: BTreeMap<(i64, bool), Z>,
    pub fee: Z,
    pub fee_to: String,
    pub prices: BTreeMap<i64, Z>,
    /// what each account has put in minus what it got out, by (who, denom), as the reference sees it
    pub next_id: u64,
}

pub struct RefSwap {
    pub ok: bool,
    pub out: Z,
    pub refund: Z,
    /// (tick, fill)
    pub fills: Vec<(i64, Z)>,
    pub note: &'static str,
}

pub fn is_bid(d: OrderDirection) -> bool {
    matches!(d, OrderDirection::Bid)
}
pub fn dirs() -> [OrderDirection; 2] {
    [Bid, Ask]
}

/// Price of a tick in 10^-18 units, from the definition of the tick grid (not from the contract):
/// 9,000,000 ticks per decade, the tick size being 10^-6 of the decade's lower (for negative
/// ticks: upper) price ... expressed with integers.
pub fn ref_price(tick: i64) -> Z {
    let g = 9_000_000i64;
    let n = tick / g; // truncates toward zero
    let r = tick - n * g;
    let exp = if tick < 0 { n - 7 } else { n - 6 };
    // price = 10^n + r * 10^exp, in 10^-18 units
    let p = |e: i64| Z::c(pow10((18 + e) as u32));
    if r == 0 {
        return p(n);
    }
    p(n) + Z::n(r as i128) * p(exp)
}
pub fn pow10(e: u32) -> Big {
    let mut b = Big::ONE;
    for _ in 0..e {
        b = b * Big::from(10u8);
    }
    b
}

/// value of `a` input units of a taker of direction `dir` at price `p`, rounded down
pub fn value_down(dir: OrderDirection, a: Z, p: Z) -> Z {
    match dir {
        // sells base, receives quote
        Ask => (a * p).fdiv(Z::n(ONE18)),
        // sells quote, receives base
        Bid => (a * Z::n(ONE18)).fdiv(p),
    }
}
pub fn value_up(dir: OrderDirection, a: Z, p: Z) -> Z {
    match dir {
        Ask => (a * p).cdiv(Z::n(ONE18)),
        Bid => (a * Z::n(ONE18)).cdiv(p),
    }
}

impl Sim {
    pub fn new() -> Sim {
        Sim {
            ch: Chain::new(),
            orders: vec![],
            d: BTreeMap::new(),
            fee: Z::zero(),
            fee_to: sumtree_orderbook::constants::DEFAULT_MAKER_FEE_RECIPIENT.to_string(),
            prices: BTreeMap::new(),
            next_id: 0,
        }
    }
    pub fn price(&mut self, t: i64) -> Z {
        if let Some(p) = self.prices.get(&t) {
            return *p;
        }
        let p = ref_price(t);
        self.prices.insert(t, p);
        p
    }
    fn queue(&self, tick: i64, dir: OrderDirection) -> Vec<usize> {
        (0..self.orders.len())
            .filter(|i| self.orders[*i].tick == tick && self.orders[*i].dir == dir)
            .collect()
    }
    pub fn total_eff(&self, tick: i64, dir: OrderDirection) -> Z {
        let mut s = Z::zero();
        for i in self.queue(tick, dir) {
            s += self.orders[i].eff;
        }
        s
    }
    pub fn filled_at(&self, tick: i64, dir: OrderDirection) -> Z {
        self.d.get(&(tick, is_bid(dir))).copied().unwrap_or_else(Z::zero)
    }
    /// unfilled amount at a tick
    pub fn liq(&self, tick: i64, dir: OrderDirection) -> Z {
        self.total_eff(tick, dir) - self.filled_at(tick, dir)
    }
    /// how much of order `i` has been filled so far
    pub fn filled(&self, i: usize) -> Z {
        let o = &self.orders[i];
        let mut before = Z::zero();
        for j in self.queue(o.tick, o.dir) {
            if j < i {
                before += self.orders[j].eff;
            }
        }
        let rest = self.filled_at(o.tick, o.dir) - before;
        if !rest.pos() {
            return Z::zero();
        }
        rest.min(o.eff)
    }
    pub fn ticks(&self, dir: OrderDirection) -> Vec<i64> {
        let s: BTreeSet<i64> = self.orders.iter().filter(|o| o.dir == dir).map(|o| o.tick).collect();
        let mut v: Vec<i64> = s.into_iter().collect();
        if is_bid(dir) {
            v.reverse();
        }
        v // best first
    }

    pub fn place(&mut self, who: &str, tick: i64, dir: OrderDirection, q: Uint128, bounty: Option<Decimal256>) -> usize {
        let r = self.ch.place(who, tick, dir, q, bounty);
        note(format!("place {who} {dir} tick {tick} q {q} -> {}", show(&r)));
        self.obs("place", &r);
        let id = self.next_id;
        self.next_id += 1;
        chk("place", "a valid order is accepted", || r.is_ok());
        if let Ok(t) = &r {
            chk("event", "a placement reports the order's id, tick, direction, owner and quantity", || {
                t.attr("order_id").as_deref() == Some(&id.to_string())
                    && t.attr("tick_id").as_deref() == Some(&tick.to_string())
                    && t.attr("order_direction").as_deref() == Some(&dir.to_string())
                    && t.attr("owner").as_deref() == Some(who)
                    && t.attr("order_denom").as_deref() == Some(maker_denom(dir))
                    && t.attr("output_denom").as_deref() == Some(maker_denom(dir.opposite()))
                    && t.num("quantity").map_or(false, |z| z.eq(Z::u(q)))
            });
            chk("place", "placing an order pays nobody", || t.sent.is_empty());
        }
        chk("live", "a valid order is accepted", || r.is_ok());
        if r.is_err() {
            stop()
        }
        self.orders.push(Ord {
            tick,
            dir,
            id,
            owner: who.into(),
            q: Z::u(q),
            eff: Z::u(q),
            claimed: Z::zero(),
            bounty: bounty.map(Z::atomics),
            live: true,
            at: self.ch.env.block.time.nanos(),
        });
        self.orders.len() - 1
    }
    pub fn obs(&self, what: &str, r: &Tx) {
        observe(what, show(r));
        if let Ok(t) = r {
            for s in &t.sent {
                observe(&format!("{what}.sent.{}.{}", s.to, s.denom), s.amount);
            }
        }
    }

    /// What the matching rules say a swap must do.
    pub fn ref_swap(&mut self, dir: OrderDirection, input: Z, bound: Option<i64>) -> RefSwap {
        let mdir = dir.opposite();
        let mut rem = input;
        let mut out = Z::zero();
        let mut fills = vec![];
        let mut last: Option<Z> = None;
        let mut note = "exact";
        for t in self.ticks(mdir) {
            if let Some(b) = bound {
                if (is_bid(mdir) && t < b) || (!is_bid(mdir) && t > b) {
                    break;
                }
            }
            let l = self.liq(t, mdir);
            if !l.pos() {
                continue;
            }
            let p = self.price(t);
            last = Some(p);
            let v = value_down(dir, rem, p);
            if !v.pos() {
                if rem.pos() {
                    note = "dust consumed";
                }
                rem = Z::zero();
                break;
            }
            let f = v.min(l);
            let c = value_up(mdir, f, p);
            rem -= c;
            out += f;
            fills.push((t, f));
        }
        let left = match last {
            Some(p) => value_down(dir, rem, p),
            None => rem,
        };
        // the edge of the grid as a target means "everything"
        let full = match bound {
            None => true,
            Some(b) => {
                (is_bid(dir) && b >= sumtree_orderbook::constants::MAX_TICK)
                    || (!is_bid(dir) && b <= sumtree_orderbook::constants::MIN_TICK)
            }
        };
        let short = full && left.pos();
        let ok = !short && out.pos();
        if short {
            note = "not enough liquidity";
        }
        RefSwap {
            ok,
            out,
            refund: rem,
            fills,
            note,
        }
    }
    pub fn swap(&mut self, dir: OrderDirection, q: Uint128, min_out: Uint128, bound: Option<i64>) -> bool {
        let e = self.ref_swap(dir, Z::u(q), bound);
        let r = self.ch.swap(dir, q, min_out, bound);
        note(format!("swap {dir} in {q} min {min_out} bound {bound:?} -> {} (reference: {} {})", show(&r), e.ok, e.note));
        self.obs("swap", &r);
        let (din, dout) = (maker_denom(dir), maker_denom(dir.opposite()));
        let ok = e.ok && Z::u(min_out).le(e.out);
        match r {
            Ok(t) => {
                let got = t.to(self.ch.taker, dout);
                let back = t.to(self.ch.taker, din);
                reach("swap ok");
                chk("swap", "a swap succeeds only if the book can serve it at the required minimum", || ok);
                chk("swap", "the taker gets exactly what the resting orders give at their prices", || got.eq(e.out));
                chk("swap", "the taker gets at least the minimum asked for", || got.ge(Z::u(min_out)));
                chk("swap", "input that buys nothing is refunded", || back.eq(e.refund));
                chk("swap", "only the taker is paid", || t.only_to(&[self.ch.taker]));
                chk("event", "a swap reports the amount paid out", || {
                    t.num("output_quantity").map_or(false, |z| z.eq(got)) && t.attr("sender").as_deref() == Some(self.ch.taker)
                });
                chk("event", "a swap reports what was offered and asked for", || {
                    let offered = t.attr("token_in");
                    let offered = offered.as_deref().and_then(|a| a.strip_suffix(maker_denom(dir))).and_then(Z::parse);
                    offered.map_or(false, |z| z.eq(Z::u(q)))
                        && t.attr("token_out_denom").as_deref() == Some(maker_denom(dir.opposite()))
                        && t.num("token_out_min_amount").map_or(false, |z| z.eq(Z::u(min_out)))
                });
                if let Some(d) = t.data.as_ref() {
                    if on("swap") {
                        let v: SwapExactAmountInResponseData = cosmwasm_std::from_json(d).unwrap();
                        check("swap: reported output equals what was paid", || Z::w(v.token_out_amount).eq(got));
                    }
                } else {
                    chk("swap", "the amount paid out is reported", || false);
                }
                if on("loose") {
                    // relational form, independent of the reference's dust rule
                    check("loose: refund never exceeds the input", || back.le(Z::u(q)));
                }
                // attribute the output to ticks by price priority
                let mut left = got;
                let mdir = dir.opposite();
                for tk in self.ticks(mdir) {
                    let l = self.liq(tk, mdir);
                    let f = left.min(l);
                    if f.pos() {
                        let e = self.d.entry((tk, is_bid(mdir))).or_insert_with(Z::zero);
                        *e = *e + f;
                        left -= f;
                    }
                }
                chk("priority", "output never exceeds the resting liquidity", || left.is_zero());
                true
            }
            Err(e2) => {
                reach("swap rejected");
                chk("swap", "a swap the book can serve is not rejected", || !ok);
                chk("live", "a swap the book can serve is not rejected", || !ok);
                let _ = e2;
                false
            }
        }
    }
    /// What claiming order `i` would release now.
    pub fn claimable(&self, i: usize) -> Z {
        if !self.orders[i].live {
            return Z::zero();
        }
        self.filled(i) - self.orders[i].claimed
    }
    /// (to owner, to sender, fee) for a claim of `c`
    pub fn split(&mut self, i: usize, c: Z) -> (Z, Z, Z) {
        let o = self.orders[i].clone();
        let p = self.price(o.tick);
        let raw = value_down(o.dir, c, p);
        let b = match o.bounty {
            Some(b) => (raw * b).fdiv(Z::n(ONE18)),
            None => Z::zero(),
        };
        let f = (raw * self.fee).fdiv(Z::n(ONE18));
        (raw - b - f, b, f)
    }
    pub fn claim(&mut self, who: &str, i: usize) -> bool {
        let o = self.orders[i].clone();
        let c = self.claimable(i);
        let (own, bty, fee) = self.split(i, c);
        let r = self.ch.claim(who, o.tick, o.id);
        note(format!("claim by {who} order {} -> {}", o.id, show(&r)));
        self.obs("claim", &r);
        let denom = maker_denom(o.dir.opposite());
        match r {
            Ok(t) => {
                reach("claim ok");
                chk("fifo", "a claim succeeds only if the order has been filled since the last claim", || c.pos());
                let mut want: BTreeMap<String, Z> = BTreeMap::new();
                for (w, a) in [(o.owner.clone(), own), (who.to_string(), bty), (self.fee_to.clone(), fee)] {
                    let e = want.entry(w).or_insert_with(Z::zero);
                    *e = *e + a;
                }
                let total = t.to(&o.owner, denom)
                    + if who != o.owner { t.to(who, denom) } else { Z::zero() }
                    + if self.fee_to != o.owner && self.fee_to != who {
                        t.to(&self.fee_to, denom)
                    } else {
                        Z::zero()
                    };
                let raw = own + bty + fee;
                chk("fifo", "a claim pays out exactly the newly filled part at the order's price", || total.eq(raw));
                for (w, a) in &want {
                    chk("split", "owner, claimer and fee recipient each get their exact share", || t.to(w, denom).eq(*a));
                }
                let who_all: Vec<&str> = want.keys().map(|s| s.as_str()).collect();
                chk("split", "nobody else is paid", || t.only_to(&who_all) && t.sent.iter().all(|s| s.denom == denom));
                let oo = &mut self.orders[i];
                oo.claimed = oo.claimed + c;
                let done = oo.claimed.eq(oo.q);
                let left = oo.q - oo.claimed;
                if on("event") {
                    let e = Claimed::all(&t);
                    check("event: one claim event per claimed order", || e.len() == 1);
                    e[0].verify(&o, who, own, left, done);
                }
                if done {
                    oo.live = false;
                    reach("order fully claimed");
                } else {
                    reach("order partially claimed");
                }
                true
            }
            Err(_) => {
                reach("claim rejected");
                chk("fifo", "a claim of a filled amount is not rejected", || !c.pos());
                chk("live", "a filled amount can always be claimed", || !c.pos());
                false
            }
        }
    }
    /// A batch claim of the given orders by `who`: the sum of what the single claims release.
    pub fn batch(&mut self, who: &str, list: &[usize]) -> bool {
        let orders: Vec<(i64, u64)> = list.iter().map(|i| (self.orders[*i].tick, self.orders[*i].id)).collect();
        let mut want: BTreeMap<(String, &str), Z> = BTreeMap::new();
        // (order before, paid to owner, left, done)
        let mut rec = vec![];
        for i in list {
            let c = self.claimable(*i);
            if !c.pos() {
                continue;
            }
            let o = self.orders[*i].clone();
            let (own, bty, fee) = self.split(*i, c);
            let denom = maker_denom(o.dir.opposite());
            for (w, a) in [(o.owner.clone(), own), (who.to_string(), bty), (self.fee_to.clone(), fee)] {
                let e = want.entry((w, denom)).or_insert_with(Z::zero);
                *e = *e + a;
            }
            let oo = &mut self.orders[*i];
            oo.claimed = oo.claimed + c;
            let done = oo.claimed.eq(oo.q);
            let left = oo.q - oo.claimed;
            if done {
                oo.live = false;
            }
            rec.push((o, own, left, done));
        }
        let r = self.ch.exec(who, &[], ExecuteMsg::BatchClaim { orders: orders.clone() });
        note(format!("batch claim by {who} of {orders:?} -> {}", show(&r)));
        self.obs("batch", &r);
        let Ok(t) = r else { fail("fifo: a batch claim goes through whatever its entries are") };
        reach("batch ok");
        for ((w, d), a) in &want {
            chk("fifo", "a batch claim pays out exactly the newly filled parts", || t.to(w, d).eq(*a));
            chk("split", "a batch claim gives everybody their exact share", || t.to(w, d).eq(*a));
        }
        chk("split", "nobody else is paid", || {
            t.sent.iter().all(|s| want.contains_key(&(s.to.clone(), if s.denom == base_denom() { base_denom() } else { quote_denom() })))
        });
        if on("event") {
            let e = Claimed::all(&t);
            check("event: one claim event per claimed order", || e.len() == rec.len());
            for (e, (o, own, left, done)) in e.iter().zip(&rec) {
                e.verify(o, who, *own, *left, *done);
            }
        }
        true
    }
    pub fn cancel(&mut self, who: &str, i: usize) -> bool {
        let o = self.orders[i].clone();
        let c = self.claimable(i);
        let r = self.ch.cancel(who, o.tick, o.id);
        note(format!("cancel by {who} order {} -> {}", o.id, show(&r)));
        self.obs("cancel", &r);
        let denom = maker_denom(o.dir);
        match r {
            Ok(t) => {
                reach("cancel ok");
                chk("cancel", "only a live order can be cancelled", || o.live);
                chk("cancel", "only the owner cancels", || who == o.owner);
                chk("cancel", "an order with unclaimed fills cannot be cancelled", || !c.pos());
                chk("cancel", "the refund is exactly the unfilled remainder", || {
                    t.to(&o.owner, denom).eq(o.q - o.claimed)
                });
                chk("cancel", "the refund goes to the owner alone, in the order's denom", || {
                    t.only_to(&[&o.owner]) && t.sent.iter().all(|s| s.denom == denom)
                });
                chk("event", "a cancellation reports the order and the amount returned", || {
                    t.attr("order_id").as_deref() == Some(&o.id.to_string())
                        && t.attr("tick_id").as_deref() == Some(&o.tick.to_string())
                        && t.attr("owner").as_deref() == Some(&o.owner)
                        && t.attr("order_direction").as_deref() == Some(&o.dir.to_string())
                        && t.attr("order_denom").as_deref() == Some(maker_denom(o.dir))
                        && t.num("quantity").map_or(false, |z| z.eq(o.q - o.claimed))
                        && t.num("initial_quantity").map_or(false, |z| z.eq(o.q))
                });
                let oo = &mut self.orders[i];
                oo.eff = oo.claimed;
                oo.live = false;
                true
            }
            Err(_) => {
                reach("cancel rejected");
                let may = o.live && who == o.owner && !c.pos();
                chk("cancel", "the owner can cancel an order without unclaimed fills", || !may);
                chk("live", "an unfilled order can always be cancelled", || !may);
                false
            }
        }
    }
    // ---- whole-state checks ----
    pub fn check_state(&mut self) {
        if on("tal") {
            let mut seen = BTreeMap::new();
            for t in self.ch.ticks() {
                for dir in dirs() {
                    let v = t.tick_state.get_values(dir);
                    seen.insert((t.tick_id, is_bid(dir)), Z::dec_floor(v.total_amount_of_liquidity));
                }
            }
            let keys: BTreeSet<(i64, bool)> = self.orders.iter().map(|o| (o.tick, is_bid(o.dir))).collect();
            for dir in dirs() {
                let mut sum = Z::zero();
                for (t, b) in &keys {
                    if *b == is_bid(dir) {
                        let l = self.liq(*t, dir);
                        let got = seen.get(&(*t, *b)).copied();
                        check("tal: a tick's liquidity is the unfilled amount of its live orders", || {
                            got.map_or(false, |g| g.eq(l))
                        });
                        sum += l;
                    }
                }
                let tot = self.total(dir);
                check("tal: total pool liquidity is the unfilled amount of all live orders", || tot.eq(sum));
            }
        }
        if on("ptr") {
            let b = self.ch.book();
            for t in self.ticks(Bid) {
                let l = self.liq(t, Bid);
                check("ptr: no resting bid lies above the best-bid pointer", || t <= b.next_bid_tick || l.is_zero());
            }
            for t in self.ticks(Ask) {
                let l = self.liq(t, Ask);
                check("ptr: no resting ask lies below the best-ask pointer", || t >= b.next_ask_tick || l.is_zero());
            }
        }
        if on("solvent") {
            self.check_solvent();
        }
        if on("record") {
            let owners: BTreeSet<&str> = self.orders.iter().map(|o| o.owner.as_str()).collect();
            for w in owners {
                // page by page, as a client would
                let mut got: Result<Vec<_>, String> = Ok(vec![]);
                let mut from: Option<(i64, u64)> = None;
                for _ in 0..8 {
                    let page: Result<OrdersResponse, String> = self.ch.query(QueryMsg::OrdersByOwner {
                        owner: cosmwasm_std::Addr::unchecked(w),
                        start_from: from,
                        end_at: None,
                        limit: if from.is_some() { Some(100) } else { None },
                    });
                    match (page, &mut got) {
                        (Ok(p), Ok(g)) => {
                            let last = p.orders.last().map(|o| (o.tick_id, o.order_id + 1));
                            let n = p.orders.len();
                            g.extend(p.orders);
                            if n < 100 {
                                break;
                            }
                            from = last;
                        }
                        (Err(e), _) => {
                            got = Err(e);
                            break;
                        }
                        _ => break,
                    }
                }
                let mut want: Vec<&Ord> = self.orders.iter().filter(|o| o.live && o.owner == w).collect();
                want.sort_by_key(|o| (o.tick, o.id));
                check("record: an owner's listing is exactly the owner's open orders, as they are", || {
                    got.map_or(false, |g| {
                        g.len() == want.len()
                            && g.iter().zip(&want).all(|(g, w)| {
                                (g.tick_id, g.order_id, g.order_direction) == (w.tick, w.id, w.dir)
                                    && g.placed_at.nanos() == w.at
                                    && Z::u(g.placed_quantity).eq(w.q)
                                    && Z::u(g.quantity).eq(w.q - w.claimed)
                            })
                    })
                });
            }
            let ticks: BTreeSet<i64> = self.orders.iter().map(|o| o.tick).collect();
            for t in ticks {
                let got = self.ch.orders_at(t);
                let want: Vec<&Ord> = self.orders.iter().filter(|o| o.live && o.tick == t).collect();
                check("record: exactly the open orders are listed, in order of placement", || {
                    got.iter().map(|o| o.order_id).collect::<Vec<_>>() == want.iter().map(|o| o.id).collect::<Vec<_>>()
                });
                for (g, w) in got.iter().zip(&want) {
                    check("record: a listed order keeps its owner, direction, tick and bounty", || {
                        g.owner.as_str() == w.owner
                            && g.order_direction == w.dir
                            && g.tick_id == w.tick
                            && g.claim_bounty.map(Z::atomics).is_some() == w.bounty.is_some()
                            && g.claim_bounty.map(Z::atomics).map_or(true, |b| b.eq(w.bounty.unwrap()))
                    });
                    check("record: a listed order shows when it was placed", || g.placed_at.nanos() == w.at);
                    check("record: a listed order shows what was placed and what is not yet claimed", || {
                        Z::u(g.placed_quantity).eq(w.q) && Z::u(g.quantity).eq(w.q - w.claimed)
                    });
                }
            }
        }
    }
    pub fn total(&self, dir: OrderDirection) -> Z {
        let r: GetTotalPoolLiquidityResponse = self.ch.query(QueryMsg::GetTotalPoolLiquidity {}).expect("liquidity");
        let mut s = Z::zero();
        for c in r.total_pool_liquidity {
            if c.denom == maker_denom(dir) {
                s += Z::u(c.amount);
            }
        }
        s
    }
    /// Everything owed right now is covered by what the contract holds.
    pub fn check_solvent(&mut self) {
        let mut owed: BTreeMap<&str, Z> = BTreeMap::new();
        for i in 0..self.orders.len() {
            let o = self.orders[i].clone();
            if !o.live {
                continue;
            }
            let f = self.filled(i);
            let p = self.price(o.tick);
            let e = owed.entry(maker_denom(o.dir)).or_insert_with(Z::zero);
            *e = *e + (o.q - f);
            let v = value_down(o.dir, f - o.claimed, p);
            let e = owed.entry(maker_denom(o.dir.opposite())).or_insert_with(Z::zero);
            *e = *e + v;
        }
        for (d, a) in owed {
            let h = self.ch.held(d);
            check("solvent: the contract holds at least what it owes", || a.le(h));
        }
    }
    /// Everyone leaves: every filled part is claimed, every unfilled part cancelled.
    pub fn drain(&mut self) {
        for i in 0..self.orders.len() {
            if !self.orders[i].live {
                continue;
            }
            let who = self.orders[i].owner.clone();
            if self.claimable(i).pos() {
                self.claim(&who, i);
            }
            if self.orders[i].live {
                self.cancel(&who, i);
            }
        }
    }
}
/// A claim event as indexers see it.
pub struct Claimed(BTreeMap<String, String>);
impl Claimed {
    pub fn all(t: &TxOk) -> Vec<Claimed> {
        t.events
            .iter()
            .filter(|e| e.1.iter().any(|a| a.0 == "amount_claimed"))
            .map(|e| Claimed(e.1.iter().cloned().collect()))
            .collect()
    }
    pub fn is(&self, k: &str, v: &str) -> bool {
        self.0.get(k).map(|s| s.as_str()) == Some(v)
    }
    pub fn num(&self, k: &str, v: Z) -> bool {
        self.0.get(k).and_then(|s| Z::parse(s)).map_or(false, |z| z.eq(v))
    }
    /// the same event, attribute by attribute
    pub fn same(&self, o: &Claimed) -> bool {
        self.0.len() == o.0.len()
            && self.0.iter().all(|(k, v)| {
                o.0.get(k).map_or(false, |w| {
                    v == w
                        || match (Z::parse(v), Z::parse(w)) {
                            (Some(a), Some(b)) => a.eq(b),
                            _ => false,
                        }
                })
            })
    }
    pub fn verify(&self, o: &Ord, who: &str, paid: Z, left: Z, done: bool) {
        check("event: a claim reports the order it belongs to", || {
            self.is("order_id", &o.id.to_string())
                && self.is("tick_id", &o.tick.to_string())
                && self.is("owner", &o.owner)
                && self.is("sender", who)
                && self.is("order_direction", &o.dir.to_string())
                && self.is("order_denom", maker_denom(o.dir))
                && self.is("output_denom", maker_denom(o.dir.opposite()))
                && self.num("placed_quantity", o.q)
        });
        check("event: a claim reports the amount paid to the owner", || self.num("amount_claimed", paid));
        check("event: a claim reports the quantity still open", || {
            self.num("quantity_remaining", left) && self.is("fully_claimed", if done { "true" } else { "false" })
        });
    }
}
pub fn show(r: &Tx) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => e.kind(),
    }
}
/// End this path quietly: what happens next is the business of another property.
pub fn stop() -> ! {
    assume(false);
    unreachable!()
}
pub fn atto(v: u128) -> Decimal256 {
    Decimal256::new(Uint256::from(v))
}
