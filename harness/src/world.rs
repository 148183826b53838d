//! Worlds: a chain with the real contracts, a DAO created through the real factory from a
//! specification configuration, and a table from specification names to addresses.
use chain::store::*;
use chain::*;
use anyhow::{anyhow, bail, Context as _, Result};
use cosmwasm_std::*;
use cw_multi_test::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const T0: u64 = 1_700_000_000;
pub const NANOS: u64 = 123_456_789;
pub const H0: u64 = 10_000;
/// Nanoseconds per unit of specification time: a minute, or half a second in configurations marked "half".
pub const MINUTE: u64 = 60_000_000_000;
pub const HALF: u64 = 500_000_000;
thread_local! {
    static UNIT: std::cell::Cell<u64> = std::cell::Cell::new(MINUTE);
}
pub fn unit() -> u64 {
    UNIT.with(|u| u.get())
}
pub fn set_unit(n: u64) {
    UNIT.with(|u| u.set(n))
}
pub fn set_unit_of(cfg: &Value) {
    set_unit(if cfg["half"].as_bool() == Some(true) { HALF } else { MINUTE })
}
/// n units in seconds
pub fn secs(n: u64) -> u64 {
    n * unit() / 1_000_000_000
}
/// s seconds in units, if that is a whole number
pub fn units(s: u64) -> Option<u64> {
    let n = s * 1_000_000_000;
    if n % unit() == 0 { Some(n / unit()) } else { None }
}
pub const SETS: usize = 5;
pub const COMPS: [&str; 11] = [
    "attestation", "enterprise", "enterprise_governance", "enterprise_governance_controller",
    "enterprise_outposts", "enterprise_treasury", "funds_distributor", "token_staking_membership",
    "denom_staking_membership", "nft_staking_membership", "multisig_membership",
];

pub fn block(t: i64) -> BlockInfo {
    BlockInfo {
        height: (H0 as i64 + t) as u64,
        time: Timestamp::from_nanos((T0 as i64 * 1_000_000_000 + NANOS as i64 + t * unit() as i64) as u64),
        chain_id: "phoenix-1".into(),
    }
}

/// Enterprise code of version set `n`: the real contract, with a log of the migrations it went
/// through kept under a raw key the contract does not use, and optional refusal of a marked message.
struct LogEnt(usize, Box<dyn Contract<Empty>>);
impl Contract<Empty> for LogEnt {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> Result<Response> {
        self.1.execute(d, e, i, m)
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> Result<Response> {
        self.1.instantiate(d, e, i, m)
    }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> Result<Binary> {
        self.1.query(d, e, m)
    }
    fn sudo(&self, d: DepsMut, e: Env, m: Vec<u8>) -> Result<Response> {
        self.1.sudo(d, e, m)
    }
    fn reply(&self, d: DepsMut, e: Env, m: Reply) -> Result<Response> {
        self.1.reply(d, e, m)
    }
    fn migrate(&self, d: DepsMut, e: Env, m: Vec<u8>) -> Result<Response> {
        let mut log: Value = d.storage.get(b"@log").map(|v| serde_json::from_slice(&v).unwrap()).unwrap_or(json!([]));
        let msg: Value = serde_json::from_slice(&m).unwrap_or(Value::Null);
        let tag = match msg.get("move_excess_membership_assets_to").and_then(|v| v.as_str()) {
            Some(s) => s.to_string(),
            None => "default".into(),
        };
        if tag == "fail" {
            bail!("migration refused");
        }
        log.as_array_mut().unwrap().push(json!([self.0, tag]));
        d.storage.set(b"@log", &serde_json::to_vec(&log).unwrap());
        self.1.migrate(d, e, m)
    }
}

fn recorder(c: FakeCall) -> Result<(Response, Option<Binary>)> {
    match c.kind {
        "execute" => {
            let mut l = c.get("log");
            if l.is_null() {
                l = json!([]);
            }
            let mut m = c.msg.clone();
            m["funds"] = json!(c.info.as_ref().unwrap().funds);
            m["by"] = json!(c.info.as_ref().unwrap().sender);
            l.as_array_mut().unwrap().push(m);
            c.set("log", &l);
            Ok((Response::new(), None))
        }
        "query" => {
            let l = c.get("log");
            Ok((Response::new(), Some(Binary(serde_json::to_vec(&l)?))))
        }
        _ => Ok((Response::new(), None)),
    }
}

/// cw3 group stand-in: list_voters over a stored list.
fn cw3(c: FakeCall) -> Result<(Response, Option<Binary>)> {
    match c.kind {
        "instantiate" => {
            c.set("v", &c.msg["voters"]);
            Ok((Response::new(), None))
        }
        "query" => {
            let q = c.msg.get("list_voters").ok_or_else(|| anyhow!("unknown query"))?;
            let lim = q["limit"].as_u64().unwrap_or(10).min(30) as usize;
            let after = q["start_after"].as_str().unwrap_or("").to_string();
            let mut v = c.get("v").as_array().cloned().unwrap_or_default();
            v.sort_by_key(|x| x["addr"].as_str().unwrap_or("").to_string());
            let page: Vec<Value> = v.into_iter().filter(|x| x["addr"].as_str().unwrap_or("") > after.as_str()).take(lim).collect();
            Ok((Response::new(), Some(Binary(serde_json::to_vec(&json!({"voters": page}))?))))
        }
        _ => bail!("no"),
    }
}

/// ics721 bridge stand-in: knows the local contract for a class once told so.
fn ics721(c: FakeCall) -> Result<(Response, Option<Binary>)> {
    match c.kind {
        "instantiate" => Ok((Response::new(), None)),
        "execute" => {
            c.set(&format!("class/{}", c.msg["class_id"].as_str().unwrap_or("")), &c.msg["contract"]);
            Ok((Response::new(), None))
        }
        "query" => {
            let q = c.msg.get("nft_contract").ok_or_else(|| anyhow!("unknown query"))?;
            let a = c.get(&format!("class/{}", q["class_id"].as_str().unwrap_or("")));
            Ok((Response::new(), Some(Binary(serde_json::to_vec(&a)?))))
        }
        _ => bail!("no"),
    }
}

/// A contract that accepts every message it is sent (a stand-in for facade targets, etc.).
fn sink(c: FakeCall) -> Result<(Response, Option<Binary>)> {
    if c.kind == "query" {
        return Ok((Response::new(), Some(Binary(b"{}".to_vec()))));
    }
    Ok((Response::new(), None))
}

pub struct Codes {
    pub cw20: u64,
    pub cw721: u64,
    pub cw20b: u64,
    pub cw721b: u64,
    pub recorder: u64,
    pub cw3: u64,
    pub ics721: u64,
    pub sink: u64,
    pub factory: u64,
    pub versioning: u64,
    pub facade: u64,
    pub facade_v1: u64,
    pub facade_v2: u64,
    pub icsproxy: u64,
    pub sets: Vec<BTreeMap<String, u64>>,
}

pub fn store_codes(app: &mut TApp) -> Codes {
    let recorder_c = app.store_code(Box::new(Fake(recorder)));
    let cw20 = app.store_code(wraps::comp("cw20"));
    let cw721 = app.store_code(wraps::comp("cw721"));
    let cw20b = app.store_code(wraps::comp("cw20"));
    let cw721b = app.store_code(wraps::comp("cw721"));
    let cw3c = app.store_code(Box::new(Fake(cw3)));
    let ics721c = app.store_code(Box::new(Fake(ics721)));
    let sinkc = app.store_code(Box::new(Fake(sink)));
    let factory = app.store_code(wraps::comp("enterprise_factory"));
    let versioning = app.store_code(wraps::comp("enterprise_versioning"));
    let facade = app.store_code(wraps::comp("enterprise_facade"));
    let facade_v1 = app.store_code(wraps::comp("enterprise_facade_v1"));
    let facade_v2 = app.store_code(wraps::comp("enterprise_facade_v2"));
    let icsproxy = app.store_code(wraps::comp("ics721_callback_proxy"));
    let mut sets = vec![];
    for s in 0..SETS {
        let mut m = BTreeMap::new();
        for c in COMPS {
            let code = if c == "enterprise" { Box::new(LogEnt(s + 1, wraps::comp(c))) as Box<dyn Contract<Empty>> } else { wraps::comp(c) };
            m.insert(c.to_string(), app.store_code(code));
        }
        sets.push(m);
    }
    Codes { cw20, cw721, cw20b, cw721b, recorder: recorder_c, cw3: cw3c, ics721: ics721c, sink: sinkc, factory, versioning, facade, facade_v1, facade_v2, icsproxy, sets }
}

#[derive(Clone)]
pub struct World {
    pub base: Base,
    pub cfg: Value,
    pub roles: BTreeMap<String, String>,
    pub names: BTreeMap<String, String>,
    pub ws: u128,
    pub sc: BTreeMap<String, u128>,
    pub kind: String,
}

pub struct Sim {
    pub app: TApp,
    pub store: Store,
    pub codes: Codes,
    pub w: World,
    /// names of the components of the DAO looked at, where there are several
    pub over: std::cell::RefCell<Option<Overlay>>,
    /// the address a DAO is looked up by while it is looked at through the facade
    pub via: std::cell::RefCell<Option<String>>,
}

#[derive(Clone, Default)]
pub struct Overlay {
    pub roles: BTreeMap<String, String>,
    pub names: BTreeMap<String, String>,
    pub kind: String,
}

pub fn vstr(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Null => String::new(),
        o => o.to_string(),
    }
}

impl Sim {
    pub fn new() -> Sim {
        let store = Store::new();
        let mut app = new_app(store.clone());
        let codes = store_codes(&mut app);
        Sim {
            app,
            store: store.clone(),
            codes,
            w: World {
                base: store.freeze(),
                cfg: Value::Null,
                roles: BTreeMap::new(),
                names: BTreeMap::new(),
                ws: 1,
                sc: BTreeMap::new(),
                kind: String::new(),
            },
            over: Default::default(),
            via: Default::default(),
        }
    }

    pub fn kind(&self) -> String {
        match &*self.over.borrow() {
            Some(o) => o.kind.clone(),
            None => self.w.kind.clone(),
        }
    }

    pub fn role(&mut self, name: &str, addr: impl Into<String>) {
        let a: String = addr.into();
        self.w.names.insert(a.clone(), name.to_string());
        self.w.roles.insert(name.to_string(), a);
    }

    /// Specification name -> address.
    pub fn addr(&self, name: &str) -> String {
        if let Some(a) = self.over.borrow().as_ref().and_then(|o| o.roles.get(name)) {
            return a.clone();
        }
        if let Some(a) = self.w.roles.get(name) {
            return a.clone();
        }
        if let Some(n) = name.strip_prefix('u') {
            if n.chars().all(|c| c.is_ascii_digit()) && !n.is_empty() {
                return format!("user{n}");
            }
        }
        name.to_string()
    }

    /// Address -> specification name.
    pub fn name(&self, addr: &str) -> String {
        if let Some(a) = self.over.borrow().as_ref().and_then(|o| o.names.get(addr)) {
            return a.clone();
        }
        if let Some(a) = self.w.names.get(addr) {
            return a.clone();
        }
        if let Some(n) = addr.strip_prefix("user") {
            if n.chars().all(|c| c.is_ascii_digit()) && !n.is_empty() {
                return format!("u{n}");
            }
        }
        addr.to_string()
    }

    pub fn scale(&self, asset: &str) -> u128 {
        if asset == "dao" {
            return self.w.ws;
        }
        *self.w.sc.get(asset).unwrap_or(&1)
    }

    /// Native denom of a specification asset, if it is native.
    pub fn denom(&self, asset: &str) -> Option<String> {
        match asset {
            "dao" if self.kind() == "denom" => Some("udao".into()),
            "dao" => None,
            a if self.w.roles.contains_key(a) => None,
            "tok" => None,
            a if a.starts_with("cw") => None,
            a => Some(format!("u{a}")),
        }
    }
    /// Contract address of a cw20 specification asset.
    pub fn cw20(&self, asset: &str) -> String {
        if asset == "dao" {
            return self.addr("daotok");
        }
        self.addr(asset)
    }

    pub fn exec_raw(&mut self, by: &str, contract: &str, msg: &Value, funds: Vec<Coin>) -> Result<AppResponse> {
        let m = WasmMsg::Execute { contract_addr: contract.to_string(), msg: Binary(json_bytes(msg)), funds };
        self.app.execute(Addr::unchecked(by), m.into())
    }
    /// Executes by specification names.
    pub fn exec_c(&mut self, by: &str, c: &str, msg: Value, funds: Vec<Coin>) -> Result<AppResponse> {
        let (b, c) = (self.addr(by), self.addr(c));
        self.exec_raw(&b, &c, &msg, funds)
    }
    pub fn inst(&mut self, by: &str, code: u64, msg: Value, label: &str, admin: Option<String>) -> Result<String> {
        let m = WasmMsg::Instantiate { admin, code_id: code, msg: Binary(json_bytes(&msg)), funds: vec![], label: label.into() };
        let r = self.app.execute(Addr::unchecked(by), m.into())?;
        let d = r.data.ok_or_else(|| anyhow!("no data"))?;
        let f = proto_fields(d.as_slice()).ok_or_else(|| anyhow!("bad data"))?;
        Ok(String::from_utf8(f[0].1.clone())?)
    }
    pub fn q(&self, contract: &str, msg: Value) -> Result<Value> {
        self.app.smart(contract, &msg)
    }
    pub fn qc(&self, c: &str, msg: Value) -> Result<Value> {
        let via = self.via.borrow().clone();
        if let Some(dao) = via {
            if let Some(r) = self.face_q(&dao, c, &msg)? {
                return Ok(r);
            }
        }
        self.q(&self.addr(c), msg)
    }

    pub fn bank(&self, addr: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(addr, denom).map(|c| c.amount.u128()).unwrap_or(0)
    }
    pub fn mint(&mut self, addr: &str, denom: &str, amt: u128) {
        let cur = self.app.wrap().query_all_balances(addr).unwrap_or_default();
        let mut cur: Vec<Coin> = cur.into_iter().filter(|c| c.denom != denom).collect();
        let old = self.bank(addr, denom);
        cur.push(coin(amt + old, denom));
        self.app.set_balance(addr, cur);
    }

    pub fn dur(&self, d: &Value) -> Value {
        let n = d["n"].as_u64().unwrap_or(0);
        match d["k"].as_str() {
            Some("height") => json!({"height": n}),
            _ => json!({"time": secs(n)}),
        }
    }
    pub fn amt(&self, asset: &str, v: &Value) -> String {
        (v.as_i64().unwrap_or(0) as i128 * self.scale(asset) as i128).to_string()
    }
    pub fn wamt(&self, v: &Value) -> String {
        (v.as_i64().unwrap_or(0) as i128 * self.w.ws as i128).to_string()
    }
    pub fn asset_info(&self, asset: &str) -> Value {
        if let Some(r) = asset.strip_prefix("m1155_") {
            return json!({"cw1155": [format!("multi{r}"), format!("id{r}")]});
        }
        match self.denom(asset) {
            Some(d) => json!({"native": d}),
            None => json!({"cw20": self.cw20(asset)}),
        }
    }
    pub fn asset_name(&self, info: &Value) -> String {
        if let Some(d) = info.get("native").and_then(|v| v.as_str()) {
            if d == "udao" && self.kind() == "denom" {
                return "dao".into();
            }
            return d.strip_prefix('u').unwrap_or(d).to_string();
        }
        if let Some(c) = info.get("cw20").and_then(|v| v.as_str()) {
            let n = self.name(c);
            return if n == "daotok" { "dao".into() } else { n };
        }
        if let Some(a) = info.get("cw1155").and_then(|v| v.as_array()) {
            let c = vstr(&a[0]);
            let r = c.strip_prefix("multi").unwrap_or("?").to_string();
            if vstr(&a[1]) == format!("id{r}") {
                return format!("m1155_{r}");
            }
        }
        info.to_string()
    }
    pub fn asset(&self, asset: &str, v: &Value) -> Value {
        json!({"info": self.asset_info(asset), "amount": self.amt(asset, v)})
    }
    pub fn pct(v: &Value) -> String {
        if let Some(s) = v.as_str() {
            return s.to_string();
        }
        let n = v.as_i64().unwrap_or(0);
        if n > 1000 {
            return format!("{}.{:03}", (n - 1000) / 1000, n % 1000);
        }
        format!("{}.{:02}", n / 100, n % 100)
    }

    pub fn council_json(&self, c: &Value) -> Value {
        if c.is_null() || c.as_str() == Some("none") || c["on"].as_bool() == Some(false) {
            return Value::Null;
        }
        let members: Vec<String> = c["members"].as_array().map(|a| a.iter().map(|m| self.addr(&vstr(m))).collect()).unwrap_or_default();
        let allowed = match c.get("allowed") {
            Some(Value::Array(a)) if a.len() == 1 && a[0] == "default" => Value::Null,
            Some(Value::Array(a)) => json!(a),
            _ => Value::Null,
        };
        json!({"members": members, "quorum": Self::pct(&c["q"]), "threshold": Self::pct(&c["thr"]),
            "allowed_proposal_action_types": allowed})
    }
    pub fn gov_json(&self, g: &Value) -> Value {
        let ve = g["veto"].as_i64().unwrap_or(-1);
        let md = g["mindep"].as_i64().unwrap_or(-1);
        json!({
            "quorum": Self::pct(&g["q"]), "threshold": Self::pct(&g["thr"]),
            "veto_threshold": if ve < 0 { Value::Null } else { json!(Self::pct(&g["veto"])) },
            "vote_duration": secs(g["dur"].as_u64().unwrap_or(0)),
            "minimum_deposit": if md < 0 { Value::Null } else { json!(self.wamt(&g["mindep"])) },
            "allow_early_proposal_execution": g["early"].as_bool().unwrap_or(false),
        })
    }
    pub fn version_info(&self, ver: &Value, set: usize) -> Value {
        let s = &self.codes.sets[set - 1];
        let mut v = json!({"version": {"major": ver[0], "minor": ver[1], "patch": ver[2]}, "changelog": ["x"]});
        for c in COMPS {
            v[format!("{c}_code_id")] = json!(s[c]);
        }
        v
    }
    pub fn metadata(name: &str) -> Value {
        json!({"name": name, "description": "desc0", "logo": {"url": "logo0"},
            "socials": {"github_username": "gh0", "discord_username": "dc0", "twitter_username": "tw0", "telegram_username": "tg0"}})
    }

    /// Messages shared by all worlds: recorder, tokens, versioning registry, factory, facade.
    pub fn setup_chain(&mut self) -> Result<()> {
        self.app.set_block(block(-2));
        let rec = self.inst("owner", self.codes.recorder, json!({}), "rec", None)?;
        assert_eq!(rec, RECORDER);
        self.role("rec", rec);
        let big = "1000000000000000000000000000000";
        for t in ["daotok", "tok", "tokb"] {
            let a = self.inst("owner", self.codes.cw20, json!({"name": "Token", "symbol": "TOKEN", "decimals": 6,
                "initial_balances": [{"address": "mint", "amount": big}], "mint": null, "marketing": null}), t, None)?;
            self.role(t, a);
        }
        for t in ["nft", "nftx"] {
            let a = self.inst("owner", self.codes.cw721, json!({"name": "Nft", "symbol": "NFT", "minter": "mint"}), t, None)?;
            self.role(t, a);
        }
        let a = self.inst("owner", self.codes.ics721, json!({}), "ics", None)?;
        self.role("bridge", a);
        let bridge = self.addr("bridge");
        let a = self.inst("owner", self.codes.icsproxy, json!({"ics721_proxy": bridge}), "icsp", None)?;
        self.role("icsproxy", a);
        let ver = self.inst("owner", self.codes.versioning, json!({"admin": "veradmin"}), "ver", None)?;
        self.role("ver", ver.clone());
        self.role("veradmin", "veradmin");
        let vs = self.w.cfg.get("versions").cloned().unwrap_or(json!([[[1, 2, 1], 1]]));
        let start = self.w.cfg["start"].as_u64().unwrap_or(0) as usize;
        let all = vs.as_array().cloned().unwrap_or_default();
        let first = if start > 0 { start } else { all.len() };
        for e in all.into_iter().take(first) {
            let info = self.version_info(&e[0], e[1].as_u64().unwrap() as usize);
            self.exec_raw("veradmin", &ver, &json!({"add_version": {"version": info}}), vec![])?;
        }
        let gw: Vec<Value> = self.w.cfg.get("gwhite").and_then(|v| v.as_array()).cloned().unwrap_or_default()
            .iter().map(|a| self.asset_info(&vstr(a))).collect();
        let gn: Vec<Value> = self.w.cfg.get("gnftw").and_then(|v| v.as_array()).cloned().unwrap_or_default()
            .iter().map(|a| json!(self.addr(&vstr(a)))).collect();
        let fac = self.inst("owner", self.codes.factory, json!({"config": {"admin": "facadmin", "enterprise_versioning": ver,
            "cw20_code_id": self.codes.cw20, "cw721_code_id": self.codes.cw721},
            "global_asset_whitelist": gw, "global_nft_whitelist": gn}), "fac", Some("facadmin".into()))?;
        self.role("fac", fac);
        self.role("facadmin", "facadmin");
        let f1 = self.inst("owner", self.codes.facade_v1, json!({"enterprise_versioning": self.addr("ver")}), "f1", None)?;
        let f2 = self.inst("owner", self.codes.facade_v2, json!({}), "f2", None)?;
        let f = self.inst("owner", self.codes.facade, json!({"enterprise_facade_v1": f1, "enterprise_facade_v2": f2}), "f", None)?;
        self.role("facade", f);
        if self.w.kind == "none" {
            // another registry, with versions of its own
            let ver2 = self.inst("owner", self.codes.versioning, json!({"admin": "veradmin"}), "verb", None)?;
            for (v, n) in [(json!([1, 2, 1]), 3), (json!([1, 4, 0]), 1)] {
                let info = self.version_info(&v, n);
                self.exec_raw("veradmin", &ver2, &json!({"add_version": {"version": info}}), vec![])?;
            }
            self.role("ver2", ver2);
            // contracts that creation requests may refer to
            for (n, m) in [("tokz", Value::Null), ("tokm", json!({"minter": "mint", "cap": null}))] {
                let a = self.inst("owner", self.codes.cw20, json!({"name": "Token", "symbol": "TOKEN", "decimals": 6, "initial_balances": [], "mint": m, "marketing": null}), n, None)?;
                self.role(n, a);
            }
            let big: Vec<Value> = std::iter::once("user1".to_string()).chain((1..120).map(|i| format!("w{i:03}"))).map(|a| json!({"addr": a, "weight": 1})).collect();
            for (n, v) in [("cw3a", json!([{"addr": "user1", "weight": 2}, {"addr": "user2", "weight": 1}])), ("cw3m", json!([{"addr": "user1", "weight": 3}, {"addr": "user2", "weight": 0}])),
                ("cw3z", json!([{"addr": "user1", "weight": 0}])), ("cw3e", json!([])), ("cw3b", json!(big))] {
                let a = self.inst("owner", self.codes.cw3, json!({"voters": v}), n, None)?;
                self.role(n, a);
            }
            for u in ["user1", "user2", "user3"] {
                self.mint(u, "udao", 1000);
            }
        }
        Ok(())
    }

    /// Component names of the n-th DAO of the factory, found from its published address.
    pub fn overlay(&self, n: u64) -> Result<Overlay> {
        let r = self.qc("fac", json!({"all_daos": {"start_after": if n > 1 { json!((n - 1).to_string()) } else { Value::Null }, "limit": 1}}))?;
        let d = &r["daos"][0];
        if vstr(&d["dao_id"]) != n.to_string() {
            bail!("no DAO with number {n}: {r}");
        }
        self.overlay_at(&vstr(&d["dao_address"]))
    }
    pub fn overlay_at(&self, tre: &str) -> Result<Overlay> {
        let mut o = Overlay::default();
        let mut put = |n: &str, a: String| {
            if o.roles.contains_key(n) {
                return;
            }
            o.names.insert(a.clone(), n.to_string());
            o.roles.insert(n.to_string(), a);
        };
        put("tre", tre.to_string());
        let gc = vstr(&self.q(tre, json!({"config": {}}))?["admin"]);
        put("gc", gc.clone());
        let ent = vstr(&self.q(&gc, json!({"config": {}}))?["enterprise_contract"]);
        put("ent", ent.clone());
        let c = self.q(&ent, json!({"component_contracts": {}}))?;
        for (n, k) in [("gov", "enterprise_governance_contract"), ("out", "enterprise_outposts_contract"), ("dis", "funds_distributor_contract"),
            ("mem", "membership_contract"), ("cou", "council_membership_contract"), ("att", "attestation_contract")] {
            if let Some(a) = c[k].as_str() {
                put(n, a.to_string());
            }
        }
        let mem = vstr(&c["membership_contract"]);
        let ty = vstr(&self.q(&ent, json!({"dao_info": {}}))?["dao_type"]);
        if ty == "token" {
            put("daotok", vstr(&self.q(&mem, json!({"token_config": {}}))?["token_contract"]));
        }
        o.kind = ty;
        Ok(o)
    }

    pub fn membership_json(&self, cfg: &Value) -> Value {
        let ul = self.dur(&cfg["ul"]);
        match cfg["kind"].as_str().unwrap_or("") {
            "denom" => json!({"new_denom": {"denom": "udao", "unlocking_period": ul}}),
            "token" => json!({"import_cw20": {"cw20_contract": self.addr(cfg["tok"].as_str().unwrap_or("daotok")), "unlocking_period": ul}}),
            "nft" => json!({"import_cw721": {"cw721_contract": self.addr(cfg["tok"].as_str().unwrap_or("nft")), "unlocking_period": ul}}),
            "imp3" => json!({"import_cw3": {"cw3_contract": self.addr(&vstr(&cfg["tok"]))}}),
            "new721" => json!({"new_cw721": {"nft_name": format!("New {}", vstr(&cfg["name"])), "nft_symbol": "NEWNFT", "unlocking_period": ul,
                "minter": if cfg["mint"] == json!("none") { Value::Null } else { json!(self.addr(&vstr(&cfg["mint"]))) }}}),
            "new20" => {
                let b: Vec<Value> = cfg["members"].as_array().cloned().unwrap_or_default().iter()
                    .map(|e| json!({"address": self.addr(&vstr(&e[0])), "amount": self.wamt(&e[1])})).collect();
                json!({"new_cw20": {"token_name": format!("New {}", vstr(&cfg["name"])), "token_symbol": "NEWTOK", "token_decimals": 4, "initial_token_balances": b,
                    "initial_dao_balance": if cfg["daobal"].as_i64().unwrap_or(-1) < 0 { Value::Null } else { json!(self.wamt(&cfg["daobal"])) },
                    "token_mint": if cfg["mint"] == json!("none") { Value::Null } else { json!({"minter": self.addr(&vstr(&cfg["mint"])), "cap": null}) },
                    "token_marketing": if cfg["mkt"] == json!("none") { Value::Null } else { json!({"project": "p", "description": "d", "marketing_owner": self.addr(&vstr(&cfg["mkt"])), "logo_url": "l"}) },
                    "unlocking_period": ul}})
            }
            "ics721" => json!({"new_ics721": {"ics721_proxy": self.addr("bridge"), "class_id": "cls1", "unlocking_period": ul}}),
            _ => {
                let m: Vec<Value> = cfg["members"].as_array().cloned().unwrap_or_default().iter()
                    .map(|e| json!({"user": self.addr(&vstr(&e[0])), "weight": self.wamt(&e[1])})).collect();
                json!({"new_multisig": {"multisig_members": m}})
            }
        }
    }

    pub fn create_msg(&self, cfg: &Value) -> Value {
        let wl: Vec<Value> = cfg["white"].as_array().cloned().unwrap_or_default().iter().map(|a| self.asset_info(&vstr(a))).collect();
        let nw: Vec<Value> = cfg["nftw"].as_array().cloned().unwrap_or_default().iter().map(|a| json!(self.addr(&vstr(a)))).collect();
        json!({
            "dao_metadata": Self::metadata(cfg["name"].as_str().unwrap_or("dao0")),
            "gov_config": self.gov_json(&cfg["gov"]),
            "dao_council": self.council_json(&cfg["council"]),
            "dao_membership": self.membership_json(cfg),
            "asset_whitelist": wl, "nft_whitelist": nw,
            "minimum_weight_for_rewards": if cfg["minw"].as_i64().unwrap_or(-1) < 0 { Value::Null } else { json!(self.wamt(&cfg["minw"])) },
            "cross_chain_treasuries": match cfg["cross"].as_array() { Some(l) => json!(l.iter().map(|d| self.deploy_json(d)).collect::<Vec<_>>()), None => Value::Null },
            "attestation_text": match cfg["att"].as_str() { Some("") | None => Value::Null, Some(t) => json!(t) },
        })
    }

    pub fn last_dao(&self) -> Result<String> {
        let mut after = Value::Null;
        let mut last = None;
        loop {
            let r = self.qc("fac", json!({"all_daos": {"start_after": after, "limit": 100}}))?;
            let a = r["daos"].as_array().cloned().unwrap_or_default();
            if a.is_empty() {
                break;
            }
            last = a.last().cloned();
            after = last.as_ref().unwrap()["dao_id"].clone();
        }
        Ok(vstr(&last.ok_or_else(|| anyhow!("no dao"))?["dao_address"]))
    }

    /// Registers the component names of the DAO with treasury `tre` under suffix `sfx`.
    pub fn learn_dao(&mut self, tre: &str, sfx: &str) -> Result<()> {
        // the treasury's admin is the governance controller, which knows the enterprise contract
        let gc = vstr(&self.q(tre, json!({"config": {}}))?["admin"]);
        let ent = vstr(&self.q(&gc, json!({"config": {}}))?["enterprise_contract"]);
        let c = self.q(&ent, json!({"component_contracts": {}}))?;
        self.role(&format!("ent{sfx}"), ent);
        for (n, k) in [("gov", "enterprise_governance_contract"), ("gc", "enterprise_governance_controller_contract"),
            ("out", "enterprise_outposts_contract"), ("tre", "enterprise_treasury_contract"),
            ("dis", "funds_distributor_contract"), ("mem", "membership_contract"), ("cou", "council_membership_contract"),
            ("att", "attestation_contract")] {
            if let Some(a) = c[k].as_str() {
                self.role(&format!("{n}{sfx}"), a);
            }
        }
        Ok(())
    }

    pub fn give(&mut self, to: &str, asset: &str, amt: u128) -> Result<()> {
        if amt == 0 {
            return Ok(());
        }
        match self.denom(asset) {
            Some(d) => self.mint(to, &d, amt),
            None => {
                let c = self.cw20(asset);
                self.exec_raw("mint", &c, &json!({"transfer": {"recipient": to, "amount": amt.to_string()}}), vec![])?;
            }
        }
        Ok(())
    }

    /// A membership contract created on its own, with the totals of its predecessor, in place of the DAO's.
    fn stand_alone(&mut self, cfg: &Value) -> Result<()> {
        let a = &cfg["alone"];
        let checkpoints = |k: &str, at: &dyn Fn(i64) -> u64| -> Value {
            json!(a[k].as_array().unwrap().iter()
                .map(|e| json!({"height": at(e[0].as_i64().unwrap()), "total_weight": self.wamt(&e[1])})).collect::<Vec<_>>())
        };
        let old = self.addr("mem");
        let code = self.app.wrap().query_wasm_contract_info(&old)?.code_id;
        let hooks: Vec<String> = a["hooks"].as_array().unwrap().iter().map(|h| self.addr(h.as_str().unwrap())).collect();
        let mut m = json!({"enterprise_contract": self.addr("ent"), "weight_change_hooks": hooks,
            "total_weight_by_height_checkpoints": checkpoints("ch", &|t| block(t).height),
            "total_weight_by_seconds_checkpoints": checkpoints("cs", &|t| block(t).time.seconds())});
        let q = |k: &str| self.q(&old, json!({k: {}}));
        match self.w.kind.as_str() {
            "token" => {
                let c = q("token_config")?;
                m["token_contract"] = c["token_contract"].clone();
                m["unlocking_period"] = c["unlocking_period"].clone();
            }
            "nft" => {
                let c = q("nft_config")?;
                m["nft_contract"] = json!({"cw721": {"contract": c["nft_contract"]}});
                m["unlocking_period"] = c["unlocking_period"].clone();
            }
            _ => m["initial_weights"] = json!(self.pairs(&cfg["members"])),
        }
        let c = self.inst("owner", code, m, "mem", None)?;
        self.role("mem", c);
        Ok(())
    }

    /// Mints the NFTs: first those of users, then, once it exists, those of the DAO's contracts.
    fn mint_nfts(&mut self, cfg: &Value, dao: bool) -> Result<()> {
        if let Some(o) = cfg["nft"].as_object() {
            for (id, owner) in o {
                let (coll, tid) = if let Some(r) = id.strip_prefix("x:") { ("nftx", r.to_string()) } else { ("nft", id.clone()) };
                if ["tre", "mem", "gc", "dis", "ent"].contains(&owner.as_str().unwrap_or("")) != dao {
                    continue;
                }
                let o = self.addr(&vstr(owner));
                let c = self.addr(coll);
                self.exec_raw("mint", &c, &json!({"mint": {"token_id": tid, "owner": o, "token_uri": null, "extension": null}}), vec![])?;
            }
        }
        Ok(())
    }

    /// Builds the world of one specification configuration and freezes it.
    pub fn build(&mut self, cfg: &Value) -> Result<World> {
        self.store.restore(&std::sync::Arc::new(BTreeMap::new()), &BTreeMap::new());
        self.w.cfg = cfg.clone();
        self.w.roles.clear();
        self.w.names.clear();
        set_unit_of(cfg);
        self.w.kind = vstr(&cfg["kind"]);
        *self.over.borrow_mut() = None;
        self.w.ws = vstr(&cfg["ws"]).parse().unwrap_or(1);
        self.w.sc.clear();
        if let Some(o) = cfg["sc"].as_object() {
            for (k, v) in o {
                self.w.sc.insert(k.clone(), vstr(v).parse().unwrap_or(1));
            }
        }
        self.setup_chain().context("chain setup")?;
        self.mint_nfts(cfg, false)?;
        if self.w.kind != "none" {
            self.app.set_block(block(-1));
            if cfg["dao2"].as_bool() == Some(true) {
                // another DAO, created before, as an innocent bystander
                let m = self.create_msg(cfg);
                let fac = self.addr("fac");
                self.exec_raw("creator", &fac, &json!({"create_dao": m}), vec![]).context("create dao2")?;
                let t = self.last_dao()?;
                self.learn_dao(&t, "2")?;
            }
            let m = self.create_msg(cfg);
            let fac = self.addr("fac");
            self.exec_raw("creator", &fac, &json!({"create_dao": m}), vec![]).context("create dao")?;
            let t = self.last_dao()?;
            self.learn_dao(&t, "")?;
            if self.w.roles.contains_key("att") {
                let a = self.addr("att");
                self.role("att1", a);
            }
        }
        if cfg["tell"].is_array() {
            let r = self.inst("owner", self.codes.recorder, json!({}), "rec2", None)?;
            self.role("rec2", r);
        }
        if cfg["alone"].is_object() {
            self.stand_alone(cfg)?;
        }
        let start = cfg["start"].as_u64().unwrap_or(0) as usize;
        if start > 0 {
            // versions released after the DAO was created
            let ver = self.addr("ver");
            for e in cfg["versions"].as_array().cloned().unwrap_or_default().into_iter().skip(start) {
                let info = self.version_info(&e[0], e[1].as_u64().unwrap() as usize);
                self.exec_raw("veradmin", &ver, &json!({"add_version": {"version": info}}), vec![])?;
            }
        }
        self.mint_nfts(cfg, true)?;
        // initial balances
        if let Some(o) = cfg["bal"].as_object().cloned() {
            for (asset, m) in o {
                for (acct, v) in m.as_object().cloned().unwrap_or_default() {
                    let n = v.as_i64().unwrap_or(0) as u128 * self.scale(&asset);
                    let a = self.addr(&acct);
                    self.give(&a, &asset, n).with_context(|| format!("give {asset} {acct}"))?;
                }
            }
        }
        if cfg["leg"]["on"].as_bool() == Some(true) {
            self.write_legacy(&cfg["leg"])?;
        }
        // initial operations (stakes etc.)
        if let Some(ops) = cfg["setup"].as_array().cloned() {
            for op in ops {
                self.exec(&op).with_context(|| format!("setup {op}"))?;
            }
        }
        self.app.set_block(block(0));
        self.w.base = self.store.freeze();
        Ok(self.w.clone())
    }
}
