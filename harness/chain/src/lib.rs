//! The simulated chain: cw-multi-test's App over our Store, with the real contracts wrapped so that
//! a panic counts as a failed call and IBC transfers (Stargate messages) are recorded by a stand-in.
pub mod store;
use store::{gas, Store};
use anyhow::{anyhow, Result as AnyResult};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::*;
use cw_multi_test::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
pub struct Api2;

impl Api for Api2 {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.len() < 3 || human.len() > 90 {
            return Err(StdError::generic_err("invalid address length"));
        }
        if human.chars().any(|c| c.is_uppercase() || c.is_whitespace()) {
            return Err(StdError::generic_err("address not normalized"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr::from(human.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, a: &[u8], b: &[u8], c: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(a, b, c)
    }
    fn secp256k1_recover_pubkey(&self, a: &[u8], b: &[u8], c: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        MockApi::default().secp256k1_recover_pubkey(a, b, c)
    }
    fn ed25519_verify(&self, a: &[u8], b: &[u8], c: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(a, b, c)
    }
    fn ed25519_batch_verify(&self, a: &[&[u8]], b: &[&[u8]], c: &[&[u8]]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(a, b, c)
    }
    fn debug(&self, _: &str) {}
}

type Inner = App<
    BankKeeper,
    Api2,
    Store,
    FailingModule<Empty, Empty, Empty>,
    WasmKeeper<Empty, Empty>,
    StakeKeeper,
    DistributionKeeper,
    FailingModule<IbcMsg, IbcQuery, Empty>,
    FailingModule<GovMsg, Empty, Empty>,
>;

/// The chain, behind functions that are compiled here once (and not in every crate using them).
pub struct TApp(Inner);

impl TApp {
    pub fn execute(&mut self, by: Addr, m: CosmosMsg) -> AnyResult<AppResponse> {
        gas::reset();
        self.0.execute(by, m)
    }
    pub fn execute_multi(&mut self, by: Addr, m: Vec<CosmosMsg>) -> AnyResult<Vec<AppResponse>> {
        gas::reset();
        self.0.execute_multi(by, m)
    }
    pub fn set_block(&mut self, b: BlockInfo) {
        self.0.set_block(b)
    }
    pub fn store_code(&mut self, c: Box<dyn Contract<Empty>>) -> u64 {
        self.0.store_code(c)
    }
    pub fn raw_query(&self, q: &[u8]) -> QuerierResult {
        gas::reset();
        self.0.raw_query(q)
    }
    pub fn wrap(&self) -> QuerierWrapper<'_> {
        QuerierWrapper::new(self)
    }
    pub fn set_balance(&mut self, addr: &str, coins: Vec<Coin>) {
        self.0.init_modules(|r, _, s| r.bank.init_balance(s, &Addr::unchecked(addr), coins).unwrap())
    }
}

/// JSON reading and writing, compiled here once.
pub fn json_of(b: &[u8]) -> AnyResult<serde_json::Value> {
    Ok(serde_json::from_slice(b)?)
}
pub fn json_str(s: &str) -> AnyResult<serde_json::Value> {
    Ok(serde_json::from_str(s)?)
}
pub fn json_bytes(v: &serde_json::Value) -> Vec<u8> {
    serde_json::to_vec(v).unwrap()
}
pub fn json_line(s: &str) -> AnyResult<serde_json::Value> {
    let s: String = serde_json::from_str(s)?;
    Ok(serde_json::from_str(&s)?)
}

impl TApp {
    /// Smart query with JSON message and answer.
    pub fn smart(&self, contract: &str, msg: &serde_json::Value) -> AnyResult<serde_json::Value> {
        let req: QueryRequest<Empty> = WasmQuery::Smart { contract_addr: contract.to_string(), msg: Binary(json_bytes(msg)) }.into();
        gas::reset();
        match self.0.raw_query(&to_json_vec(&req)?) {
            SystemResult::Ok(ContractResult::Ok(b)) => json_of(b.as_slice()),
            SystemResult::Ok(ContractResult::Err(e)) => Err(anyhow!("query error: {e}")),
            SystemResult::Err(e) => Err(anyhow!("system error: {e}")),
        }
    }
}

impl Querier for TApp {
    fn raw_query(&self, q: &[u8]) -> QuerierResult {
        gas::reset();
        self.0.raw_query(q)
    }
}

pub fn new_app(store: Store) -> TApp {
    TApp(AppBuilder::new().with_api(Api2).with_storage(store).build(|_, _, _| {}))
}

pub const RECORDER: &str = "contract0";

pub struct Wrap(pub Box<dyn Contract<Empty>>);

fn guard<T>(f: impl FnOnce() -> AnyResult<T>) -> AnyResult<T> {
    let shallow = gas::enter();
    let r = catch_unwind(AssertUnwindSafe(|| {
        gas::charge(500);
        if shallow {
            f()
        } else {
            Err(anyhow!("too many nested calls"))
        }
    }));
    gas::leave();
    match r {
        Ok(r) => r,
        Err(_) => Err(anyhow!("contract panicked")),
    }
}

/// Protobuf: list of (field, bytes or varint-as-8-bytes).
pub fn proto_fields(mut b: &[u8]) -> Option<Vec<(u64, Vec<u8>)>> {
    fn varint(b: &mut &[u8]) -> Option<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let x = *b.first()?;
            *b = &b[1..];
            r |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                return Some(r);
            }
        }
        None
    }
    let mut out = vec![];
    while !b.is_empty() {
        let tag = varint(&mut b)?;
        match tag & 7 {
            0 => {
                let v = varint(&mut b)?;
                out.push((tag >> 3, v.to_be_bytes().to_vec()));
            }
            2 => {
                let n = varint(&mut b)? as usize;
                if b.len() < n {
                    return None;
                }
                out.push((tag >> 3, b[..n].to_vec()));
                b = &b[n..];
            }
            _ => return None,
        }
    }
    Some(out)
}

fn convert(mut r: Response) -> AnyResult<Response> {
    for m in r.messages.iter_mut() {
        if let CosmosMsg::Stargate { type_url, value } = &m.msg {
            let fields = proto_fields(value.as_slice()).ok_or_else(|| anyhow!("bad protobuf"))?;
            let text = |n: u64| {
                fields
                    .iter()
                    .find(|(f, _)| *f == n)
                    .map(|(_, v)| String::from_utf8_lossy(v).to_string())
                    .unwrap_or_default()
            };
            let mut funds = vec![];
            if let Some((_, t)) = fields.iter().find(|(f, _)| *f == 3) {
                let tf = proto_fields(t).ok_or_else(|| anyhow!("bad coin"))?;
                let g = |n: u64| {
                    tf.iter()
                        .find(|(f, _)| *f == n)
                        .map(|(_, v)| String::from_utf8_lossy(v).to_string())
                        .unwrap_or_default()
                };
                let amount: u128 = g(2).parse().map_err(|_| anyhow!("bad amount"))?;
                if amount > 0 {
                    funds.push(coin(amount, g(1)));
                }
            }
            let rec = serde_json::json!({"type_url": type_url, "port": text(1), "channel": text(2),
                "sender": text(4), "receiver": text(5), "memo": text(8)});
            m.msg = WasmMsg::Execute { contract_addr: RECORDER.into(), msg: Binary(serde_json::to_vec(&rec)?), funds }.into();
        }
    }
    Ok(r)
}

impl Contract<Empty> for Wrap {
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        guard(|| self.0.execute(deps, env, info, msg)).and_then(convert)
    }
    fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        guard(|| self.0.instantiate(deps, env, info, msg)).and_then(convert)
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        guard(|| self.0.query(deps, env, msg))
    }
    fn sudo(&self, deps: DepsMut, env: Env, msg: Vec<u8>) -> AnyResult<Response> {
        guard(|| self.0.sudo(deps, env, msg)).and_then(convert)
    }
    fn reply(&self, deps: DepsMut, env: Env, msg: Reply) -> AnyResult<Response> {
        guard(|| self.0.reply(deps, env, msg)).and_then(convert)
    }
    fn migrate(&self, deps: DepsMut, env: Env, msg: Vec<u8>) -> AnyResult<Response> {
        guard(|| self.0.migrate(deps, env, msg)).and_then(convert)
    }
}

/// Stand-in contracts written for the harness: they answer with JSON and keep a tiny store.
pub struct Fake(pub fn(FakeCall) -> AnyResult<(Response, Option<Binary>)>);

pub struct FakeCall<'a> {
    pub kind: &'static str,
    pub storage_get: Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + 'a>,
    pub writes: std::rc::Rc<std::cell::RefCell<Vec<(Vec<u8>, Vec<u8>)>>>,
    pub env: Env,
    pub info: Option<MessageInfo>,
    pub msg: serde_json::Value,
}

impl FakeCall<'_> {
    pub fn get(&self, k: &str) -> serde_json::Value {
        (self.storage_get)(k.as_bytes())
            .and_then(|v| serde_json::from_slice(&v).ok())
            .unwrap_or(serde_json::Value::Null)
    }
    pub fn set(&self, k: &str, v: &serde_json::Value) {
        self.writes.borrow_mut().push((k.as_bytes().to_vec(), serde_json::to_vec(v).unwrap()));
    }
}

impl Fake {
    fn run(&self, kind: &'static str, storage: &mut dyn Storage, env: Env, info: Option<MessageInfo>, msg: Vec<u8>) -> AnyResult<Response> {
        let writes = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let r = {
            let st: &dyn Storage = storage;
            (self.0)(FakeCall {
                kind,
                storage_get: Box::new(move |k| st.get(k)),
                writes: writes.clone(),
                env,
                info,
                msg: serde_json::from_slice(&msg).unwrap_or(serde_json::Value::Null),
            })?
            .0
        };
        for (k, v) in writes.borrow().iter() {
            storage.set(k, v);
        }
        Ok(r)
    }
}

impl Contract<Empty> for Fake {
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        self.run("execute", deps.storage, env, Some(info), msg)
    }
    fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response> {
        self.run("instantiate", deps.storage, env, Some(info), msg)
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let st = deps.storage;
        let r = (self.0)(FakeCall {
            kind: "query",
            storage_get: Box::new(move |k| st.get(k)),
            writes: Default::default(),
            env,
            info: None,
            msg: serde_json::from_slice(&msg).unwrap_or(serde_json::Value::Null),
        })?;
        r.1.ok_or_else(|| anyhow!("no answer"))
    }
    fn sudo(&self, _: DepsMut, _: Env, _: Vec<u8>) -> AnyResult<Response> {
        Err(anyhow!("no sudo"))
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> AnyResult<Response> {
        Err(anyhow!("no reply"))
    }
    fn migrate(&self, deps: DepsMut, env: Env, msg: Vec<u8>) -> AnyResult<Response> {
        self.run("migrate", deps.storage, env, None, msg)
    }
}

use serde_json::Value;
/// `got` matches `exp`, where exp may contain {lo,hi} intervals and empty lists/objects are equal.
pub fn matches(exp: &Value, got: &Value) -> bool {
    match (exp, got) {
        (Value::Object(e), Value::Number(n)) if e.contains_key("lo") && e.contains_key("hi") => {
            let n = n.as_i64().unwrap_or(i64::MIN);
            e["lo"].as_i64().unwrap() <= n && n <= e["hi"].as_i64().unwrap()
        }
        (Value::Object(e), Value::Array(g)) => e.is_empty() && g.is_empty(),
        (Value::Array(e), Value::Object(g)) => e.is_empty() && g.is_empty(),
        (Value::Object(e), Value::Object(g)) => e.len() == g.len() && e.iter().all(|(k, v)| g.get(k).map(|x| matches(v, x)).unwrap_or(false)),
        (Value::Array(e), Value::Array(g)) => {
            if !e.is_empty() && e.len() == g.len() && e.iter().chain(g).all(|x| x.is_string()) {
                // lists of names are sets in the specification
                let srt = |v: &Vec<Value>| {
                    let mut v: Vec<String> = v.iter().map(ToString::to_string).collect();
                    v.sort();
                    v
                };
                return srt(e) == srt(g);
            }
            e.len() == g.len() && e.iter().zip(g).all(|(a, b)| matches(a, b))
        }
        (Value::Number(a), Value::Number(b)) => a.as_i64() == b.as_i64(),
        (a, b) => a == b,
    }
}

