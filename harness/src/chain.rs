//! A stand-in for the chain around the contract: storage with rollback, a bank ledger, message
//! execution with replies, and transaction atomicity.
use crate::rt::*;
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier};
use cosmwasm_std::{
    coin, from_json, Addr, BankMsg, Binary, Coin, CosmosMsg, DepsMut, Deps, Empty, Env, MessageInfo, Order,
    QuerierWrapper, Record, Reply, ReplyOn, Response, Storage, SubMsg, SubMsgResponse, SubMsgResult,
    Uint128,
};
use osmosis_std::types::cosmos::bank::v1beta1::MsgSend;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use sumtree_orderbook::contract;
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::{LimitOrder, OrderDirection, Orderbook};

thread_local! { static PAIR: std::cell::Cell<(&'static str, &'static str)> = const { std::cell::Cell::new(("base", "quote")) }; }
/// The denominations of the book.
pub fn base_denom() -> &'static str {
    PAIR.with(|p| p.get().0)
}
pub fn quote_denom() -> &'static str {
    PAIR.with(|p| p.get().1)
}
/// Books created from here on are for this pair.
pub fn pair(base: &'static str, quote: &'static str) {
    PAIR.with(|p| p.set((base, quote)))
}
pub const ALICE: &str = "alice";
pub const BOB: &str = "bobby";
pub const CAROL: &str = "carol";
pub const TAKER: &str = "taker";

thread_local! { static WORK: std::cell::Cell<u64> = std::cell::Cell::new(0); }
fn worked() {
    WORK.with(|w| w.set(w.get() + 1))
}
/// Number of storage accesses (reads, writes, removals, items of a range) so far.
pub fn work() -> u64 {
    WORK.with(|w| w.get())
}
/// Contract storage, and what the running transaction has overwritten so far.
#[derive(Clone, Default)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>, Vec<(Vec<u8>, Option<Vec<u8>>)>);
impl Store {
    /// what was written since `mark` never happened
    fn undo(&mut self, mark: usize) {
        while self.1.len() > mark {
            match self.1.pop().unwrap() {
                (k, Some(v)) => self.0.insert(k, v),
                (k, None) => self.0.remove(&k),
            };
        }
    }
}
impl Storage for Store {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        worked();
        self.0.get(k).cloned()
    }
    fn set(&mut self, k: &[u8], v: &[u8]) {
        worked();
        let old = self.0.insert(k.to_vec(), v.to_vec());
        self.1.push((k.to_vec(), old));
    }
    fn remove(&mut self, k: &[u8]) {
        worked();
        if let Some(old) = self.0.remove(k) {
            self.1.push((k.to_vec(), Some(old)));
        }
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        let s = start.map_or(Unbounded, |x| Included(x.to_vec()));
        let e = end.map_or(Unbounded, |x| Excluded(x.to_vec()));
        if let (Some(a), Some(b)) = (start, end) {
            if a >= b {
                return Box::new(std::iter::empty());
            }
        }
        worked();
        let it = self.0.range((s, e)).map(|(k, v)| {
            worked();
            (k.clone(), v.clone())
        });
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub to: String,
    pub denom: String,
    pub amount: Z,
}
#[derive(Clone, Debug, Default)]
pub struct TxOk {
    pub sent: Vec<Sent>,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<(String, Vec<(String, String)>)>,
    pub data: Option<Binary>,
}
impl TxOk {
    /// total of `denom` sent to `to`
    pub fn to(&self, to: &str, denom: &str) -> Z {
        let mut s = Z::zero();
        for x in &self.sent {
            if x.to == to && x.denom == denom {
                s += x.amount;
            }
        }
        s
    }
    pub fn attr(&self, k: &str) -> Option<String> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.clone())
    }
    pub fn num(&self, k: &str) -> Option<Z> {
        Z::parse(&self.attr(k)?)
    }
    /// nothing was sent to anyone but `who`
    pub fn only_to(&self, who: &[&str]) -> bool {
        self.sent.iter().all(|s| who.contains(&s.to.as_str()))
    }
}
#[derive(Clone, Debug)]
pub enum TxErr {
    /// the contract returned an error
    Contract(String),
    /// the contract aborted (wasm trap)
    Panic(String),
    /// a payout failed and the reply handler turned it into an error
    Payout(String),
}
impl TxErr {
    pub fn kind(&self) -> String {
        match self {
            TxErr::Contract(s) => format!("err:{}", s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")),
            TxErr::Panic(_) => "panic".into(),
            TxErr::Payout(_) => "payout".into(),
        }
    }
    pub fn is(&self, name: &str) -> bool {
        matches!(self, TxErr::Contract(s) if s.starts_with(name))
    }
}
pub type Tx = Result<TxOk, TxErr>;

/// answers bank queries; supplies of the listed denominations, errors for the denomination "broken"
pub struct Supply(MockQuerier<Empty>);
impl cosmwasm_std::Querier for Supply {
    fn raw_query(&self, req: &[u8]) -> cosmwasm_std::QuerierResult {
        let v: serde_json::Value = serde_json::from_slice(req).unwrap_or_default();
        if v["bank"]["supply"]["denom"].as_str() == Some("broken") {
            return cosmwasm_std::SystemResult::Err(cosmwasm_std::SystemError::Unknown {});
        }
        self.0.raw_query(req)
    }
}
fn querier(supply: &[(String, Z)]) -> Supply {
    let mut cs = vec![coin(1_000_000, base_denom()), coin(1_000_000, quote_denom()), coin(5, "other"), coin(5, "BASE"), coin(5, "bas")];
    cs.retain(|c| supply.iter().all(|s| s.0 != c.denom));
    cs.extend(supply.iter().map(|(d, a)| Coin { denom: d.clone(), amount: a.u128() }));
    Supply(MockQuerier::new(&[("holder", &cs)]))
}

#[derive(Clone)]
pub struct Chain {
    pub store: Store,
    pub env: Env,
    pub bank: BTreeMap<(String, String), Z>,
    /// recipients the bank refuses to pay
    pub blocked: BTreeSet<String>,
    /// when set, a payout above the contract's balance is reported as a violation of this label
    pub solvency: Option<&'static str>,
    pub addr: String,
    /// who market orders come from
    pub taker: &'static str,
    /// blocks and nanoseconds between transactions
    pub pace: (u64, u64),
    /// supplies other than the default ones
    pub supply: Vec<(String, Z)>,
}

impl Chain {
    pub fn new() -> Chain {
        let env = mock_env();
        let addr = env.contract.address.to_string();
        let mut c = Chain {
            store: Store::default(),
            env,
            bank: BTreeMap::new(),
            blocked: BTreeSet::new(),
            solvency: None,
            addr,
            taker: TAKER,
            pace: (1, 6_123_456_789),
            supply: vec![],
        };
        let r = c.instantiate(base_denom(), quote_denom());
        r.expect("instantiate");
        c
    }
    pub fn blank() -> Chain {
        let env = mock_env();
        let addr = env.contract.address.to_string();
        Chain {
            store: Store::default(),
            env,
            bank: BTreeMap::new(),
            blocked: BTreeSet::new(),
            solvency: None,
            addr,
            taker: TAKER,
            pace: (1, 6_123_456_789),
            supply: vec![],
        }
    }
    pub fn instantiate(&mut self, base: &str, quote: &str) -> Tx {
        let msg = InstantiateMsg {
            base_denom: base.into(),
            quote_denom: quote.into(),
        };
        self.tx("creator", &[], move |d, e, i| contract::instantiate(d, e, i, msg))
    }
    pub fn balance(&self, who: &str, denom: &str) -> Z {
        self.bank
            .get(&(who.to_string(), denom.to_string()))
            .copied()
            .unwrap_or_else(Z::zero)
    }
    pub fn held(&self, denom: &str) -> Z {
        self.balance(&self.addr, denom)
    }
    fn credit(&mut self, who: &str, denom: &str, a: Z) {
        let b = self.balance(who, denom) + a;
        self.bank.insert((who.to_string(), denom.to_string()), b);
    }
    fn bank_send(&mut self, to: &str, coins: &[(String, Z)], sent: &mut Vec<Sent>) -> Result<(), String> {
        if coins.is_empty() {
            return Err("empty coins".into());
        }
        if self.blocked.contains(to) {
            return Err("recipient blocked".into());
        }
        for (d, a) in coins {
            if !a.pos() {
                return Err("amount is not positive".into());
            }
            let bal = self.held(d);
            if let Some(l) = self.solvency {
                check(l, || a.le(bal));
            }
            let me = self.addr.clone();
            self.credit(&me, d, -*a);
            self.credit(to, d, *a);
            sent.push(Sent {
                to: to.to_string(),
                denom: d.clone(),
                amount: *a,
            });
        }
        Ok(())
    }
    fn dispatch(&mut self, m: &CosmosMsg, sent: &mut Vec<Sent>) -> Result<(), String> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let cs: Vec<_> = amount.iter().map(|c| (c.denom.clone(), Z::u(c.amount))).collect();
                self.bank_send(to_address, &cs, sent)
            }
            CosmosMsg::Stargate { type_url, value } if type_url == MsgSend::TYPE_URL => {
                let m = MsgSend::try_from(value.clone()).map_err(|e| e.to_string())?;
                if m.from_address != self.addr {
                    return Err("unauthorized: sender is not the contract".into());
                }
                let mut cs = vec![];
                for c in &m.amount {
                    cs.push((c.denom.clone(), Z::parse(&c.amount).ok_or("bad amount")?));
                }
                self.bank_send(&m.to_address, &cs, sent)
            }
            other => Err(format!("unexpected message {other:?}")),
        }
    }
    fn call<T>(
        &mut self,
        f: impl FnOnce(DepsMut, Env) -> Result<T, sumtree_orderbook::ContractError>,
    ) -> Result<T, TxErr> {
        let api = MockApi::default();
        let q = querier(&self.supply);
        let env = self.env.clone();
        let st = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| {
            f(
                DepsMut {
                    storage: st,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                },
                env,
            )
        }));
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(TxErr::Contract(format!("{e:?}"))),
            Err(p) => {
                if is_engine(&*p) {
                    resume_unwind(p)
                }
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("SYMRT") {
                    resume_unwind(p)
                }
                Err(TxErr::Panic(m))
            }
        }
    }
    /// One transaction: funds move first, the entry point runs, its messages are executed with
    /// replies, and any failure rolls everything back.
    pub fn tx(
        &mut self,
        sender: &str,
        funds: &[(String, Z)],
        f: impl FnOnce(DepsMut, Env, MessageInfo) -> Result<Response, sumtree_orderbook::ContractError>,
    ) -> Tx {
        self.env.block.height += self.pace.0;
        self.env.block.time = self.env.block.time.plus_nanos(self.pace.1);
        let bank = self.bank.clone();
        self.store.1.clear();
        let r = self.tx_inner(sender, funds, f);
        if r.is_err() {
            self.store.undo(0);
            self.bank = bank;
        }
        self.store.1.clear();
        r
    }
    fn tx_inner(
        &mut self,
        sender: &str,
        funds: &[(String, Z)],
        f: impl FnOnce(DepsMut, Env, MessageInfo) -> Result<Response, sumtree_orderbook::ContractError>,
    ) -> Tx {
        let me = self.addr.clone();
        for (d, a) in funds {
            self.credit(sender, d, -*a);
            self.credit(&me, d, *a);
        }
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds
                .iter()
                .map(|(d, a)| Coin {
                    denom: d.clone(),
                    amount: a.u128(),
                })
                .collect(),
        };
        let resp = self.call(|d, e| f(d, e, info))?;
        let mut ok = TxOk {
            attrs: resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect(),
            events: resp
                .events
                .iter()
                .map(|e| {
                    (
                        e.ty.clone(),
                        e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect(),
                    )
                })
                .collect(),
            data: resp.data.clone(),
            ..Default::default()
        };
        self.run_msgs(&resp.messages, &mut ok)?;
        Ok(ok)
    }
    fn run_msgs(&mut self, msgs: &[SubMsg], ok: &mut TxOk) -> Result<(), TxErr> {
        for m in msgs {
            let snap = (self.store.1.len(), self.bank.clone(), ok.sent.len());
            let r = self.dispatch(&m.msg, &mut ok.sent);
            let want = matches!(
                (&r, &m.reply_on),
                (Ok(_), ReplyOn::Success | ReplyOn::Always) | (Err(_), ReplyOn::Error | ReplyOn::Always)
            );
            if r.is_err() {
                self.store.undo(snap.0);
                self.bank = snap.1;
                ok.sent.truncate(snap.2);
            }
            if want {
                let reply = Reply {
                    id: m.id,
                    result: match &r {
                        Ok(()) => SubMsgResult::Ok(SubMsgResponse {
                            events: vec![],
                            data: None,
                        }),
                        Err(e) => SubMsgResult::Err(e.clone()),
                    },
                };
                let resp = self.call(|d, e| contract::reply(d, e, reply)).map_err(|e| match r {
                    Err(ref w) => TxErr::Payout(w.clone()),
                    Ok(()) => e,
                })?;
                self.run_msgs(&resp.messages, ok)?;
            } else if let Err(e) = r {
                return Err(TxErr::Payout(e));
            }
        }
        Ok(())
    }
    pub fn exec(&mut self, sender: &str, funds: &[(&str, Z)], msg: ExecuteMsg) -> Tx {
        let f: Vec<_> = funds.iter().map(|(d, a)| (d.to_string(), *a)).collect();
        self.tx(sender, &f, move |d, e, i| contract::execute(d, e, i, msg))
    }
    pub fn auth(&mut self, sender: &str, msg: AuthExecuteMsg) -> Tx {
        self.exec(sender, &[], ExecuteMsg::Auth(msg))
    }
    pub fn migrate(&mut self) -> Tx {
        self.tx("module", &[], |d, e, _| contract::migrate(d, e, MigrateMsg {}))
    }
    pub fn sudo(&mut self, msg: SudoMsg) -> Tx {
        self.tx("module", &[], move |d, e, _| sumtree_orderbook::sudo::sudo(d, e, msg))
    }
    pub fn query<T: serde::de::DeserializeOwned>(&self, msg: QueryMsg) -> Result<T, String> {
        let api = MockApi::default();
        let q = querier(&self.supply);
        let env = self.env.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            contract::query(
                Deps {
                    storage: &self.store,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                },
                env,
                msg,
            )
        }));
        match r {
            Ok(Ok(b)) => from_json(b).map_err(|e| format!("unreadable response: {e}")),
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(p) => {
                if is_engine(&*p) {
                    resume_unwind(p)
                }
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("SYMRT") {
                    resume_unwind(p)
                }
                Err(format!("panic: {m}"))
            }
        }
    }

    // ---- conveniences ----
    pub fn place(&mut self, who: &str, tick: i64, dir: OrderDirection, q: Uint128, bounty: Option<cosmwasm_std::Decimal256>) -> Tx {
        self.exec(
            who,
            &[(maker_denom(dir), Z::u(q))],
            ExecuteMsg::PlaceLimit {
                tick_id: tick,
                order_direction: dir,
                quantity: q,
                claim_bounty: bounty,
            },
        )
    }
    pub fn cancel(&mut self, who: &str, tick: i64, id: u64) -> Tx {
        self.exec(who, &[], ExecuteMsg::CancelLimit { tick_id: tick, order_id: id })
    }
    pub fn claim(&mut self, who: &str, tick: i64, id: u64) -> Tx {
        self.exec(who, &[], ExecuteMsg::ClaimLimit { tick_id: tick, order_id: id })
    }
    /// `dir` is the direction of the market order: an Ask sells base, a Bid sells quote.
    pub fn swap(&mut self, dir: OrderDirection, q: Uint128, min_out: Uint128, target: Option<i64>) -> Tx {
        let (din, dout) = (maker_denom(dir), maker_denom(dir.opposite()));
        let token_in = Coin {
            denom: din.into(),
            amount: q,
        };
        let msg = match target {
            None => SudoMsg::SwapExactAmountIn {
                sender: self.taker.into(),
                token_in,
                token_out_denom: dout.into(),
                token_out_min_amount: min_out,
                swap_fee: cosmwasm_std::Decimal::zero(),
            },
            Some(t) => SudoMsg::SwapToTick {
                sender: self.taker.into(),
                token_in,
                token_out_denom: dout.into(),
                token_out_min_amount: min_out,
                swap_fee: cosmwasm_std::Decimal::zero(),
                target_tick: t,
            },
        };
        self.tx(self.taker, &[(din.to_string(), Z::u(q))], move |d, e, _| {
            sumtree_orderbook::sudo::sudo(d, e, msg)
        })
    }
    pub fn ticks(&self) -> Vec<TickIdAndState> {
        self.query::<TicksResponse>(QueryMsg::AllTicks {
            start_from: None,
            end_at: None,
            limit: None,
        })
        .expect("AllTicks")
        .ticks
    }
    pub fn orders_at(&self, tick: i64) -> Vec<LimitOrder> {
        self.query::<OrdersResponse>(QueryMsg::OrdersByTick {
            tick_id: tick,
            start_from: None,
            end_at: None,
            limit: None,
        })
        .expect("OrdersByTick")
        .orders
    }
    pub fn book(&self) -> Orderbook {
        self.query(QueryMsg::OrderbookState {}).expect("OrderbookState")
    }
}

/// denom a limit order of this direction locks up
pub fn maker_denom(d: OrderDirection) -> &'static str {
    match d {
        OrderDirection::Bid => quote_denom(),
        OrderDirection::Ask => base_denom(),
    }
}
