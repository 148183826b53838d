//! Observations: what the public queries of the real contracts report, in specification terms.
//! Each observer gets the specification's expected value as a template for what to ask.
use crate::world::*;
use anyhow::{anyhow, bail, Result};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn num(v: &Value) -> Result<u128> {
    match v {
        Value::String(s) => Ok(s.parse()?),
        Value::Number(n) => Ok(n.as_u64().ok_or_else(|| anyhow!("not a number"))? as u128),
        _ => bail!("not a number: {v}"),
    }
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn keys(v: &Value) -> Vec<String> {
    v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default()
}

pub use chain::matches;

/// Human-readable first difference.
pub fn diff(path: &str, exp: &Value, got: &Value) -> String {
    match (exp, got) {
        (Value::Object(e), Value::Object(g)) => {
            for (k, v) in e {
                match g.get(k) {
                    Some(x) if matches(v, x) => {}
                    Some(x) => return diff(&format!("{path}.{k}"), v, x),
                    None => return format!("{path}.{k}: expected {v}, got nothing"),
                }
            }
            for k in g.keys() {
                if !e.contains_key(k) {
                    return format!("{path}.{k}: expected nothing, got {}", g[k]);
                }
            }
            String::new()
        }
        (Value::Array(e), Value::Array(g)) if e.len() == g.len() => {
            for (i, (a, b)) in e.iter().zip(g).enumerate() {
                if !matches(a, b) {
                    return diff(&format!("{path}[{i}]"), a, b);
                }
            }
            String::new()
        }
        _ => format!("{path}: expected {exp}, got {got}"),
    }
}

impl Sim {
    /// Scaled amount back to a specification integer (or a text that matches nothing).
    pub fn unscale(&self, v: u128, scale: u128) -> Value {
        if v % scale == 0 && v / scale < (1u128 << 62) {
            json!((v / scale) as u64)
        } else {
            json!(format!("{v} (not a multiple of {scale})"))
        }
    }
    fn wval(&self, v: &Value) -> Value {
        match num(v) {
            Ok(n) => self.unscale(n, self.w.ws),
            Err(e) => json!(format!("ERR {e}")),
        }
    }
    /// Users and contracts of the DAO.
    fn holders(&self) -> Vec<String> {
        (1..=3).map(|i| format!("user{i}")).chain(["mem", "gc", "tre", "ent", "dis"].iter().map(|c| self.addr(c))).collect()
    }
    pub fn balance(&self, asset: &str, addr: &str) -> Result<u128> {
        match self.denom(asset) {
            Some(d) => Ok(self.bank(addr, &d)),
            None => num(&self.q(&self.cw20(asset), json!({"balance": {"address": addr}}))?["balance"]),
        }
    }
    pub fn time_of(&self, ts: &Value) -> Value {
        match num(ts) {
            Ok(n) => {
                let base = (T0 as i128) * 1_000_000_000 + NANOS as i128;
                let d = n as i128 - base;
                let u = unit() as i128;
                if d % u == 0 {
                    json!((d / u) as i64)
                } else {
                    json!(format!("off-grid {d}"))
                }
            }
            Err(e) => json!(format!("ERR {e}")),
        }
    }
    pub fn release(&self, r: &Value) -> Value {
        if let Some(t) = r.get("timestamp") {
            return json!({"k": "time", "n": self.time_of(t)});
        }
        if let Some(h) = r.get("height") {
            return json!({"k": "height", "n": num(h).map(|x| x as i64 - H0 as i64).unwrap_or(-1)});
        }
        r.clone()
    }
    pub fn duration(&self, d: &Value) -> Value {
        if let Some(h) = d.get("height") {
            return json!({"k": "height", "n": h});
        }
        if let Some(t) = d.get("time").and_then(|t| t.as_u64()) {
            if let Some(n) = units(t) {
                return json!({"k": "time", "n": n});
            }
        }
        d.clone()
    }
    pub fn pct_of(v: &Value) -> Value {
        match v.as_str() {
            None => json!(-1),
            Some(s) => {
                let d: cosmwasm_std::Decimal = match s.parse() {
                    Ok(d) => d,
                    Err(_) => return json!(s),
                };
                let x = d.atomics().u128();
                if x % 10u128.pow(16) == 0 {
                    json!((x / 10u128.pow(16)) as u64)
                } else if x % 10u128.pow(15) == 0 {
                    json!((x / 10u128.pow(15)) as u64 + 1000)
                } else {
                    json!(s)
                }
            }
        }
    }

    /// Walks a paginated query with several page sizes and demands they all agree.
    pub fn paged(&self, mut f: impl FnMut(Value, Value) -> Result<Vec<(Value, Value)>>) -> Result<Vec<Value>> {
        let mut first: Option<Vec<Value>> = None;
        for lim in [json!(100000), Value::Null, json!(1), json!(2), json!(3)] {
            let mut all = vec![];
            let mut after = Value::Null;
            loop {
                let page = f(after.clone(), lim.clone())?;
                if let Some(l) = lim.as_u64() {
                    if page.len() as u64 > l {
                        bail!("page longer than limit {l}");
                    }
                }
                if page.is_empty() {
                    break;
                }
                after = page.last().unwrap().0.clone();
                all.extend(page.into_iter().map(|x| x.1));
                if all.len() > 2000 {
                    bail!("paging does not terminate");
                }
            }
            match &first {
                None => first = Some(all),
                Some(x) => {
                    if *x != all {
                        bail!("pages of {lim} give {} but one page gives {}", json!(all), json!(x));
                    }
                }
            }
        }
        Ok(first.unwrap())
    }

    fn members(&self, c: &str) -> Result<Value> {
        let l = self.paged(|after, lim| {
            Ok(arr(&self.qc(c, json!({"members": {"start_after": after, "limit": lim}}))?["members"])
                .into_iter().map(|m| (m["user"].clone(), m)).collect())
        })?;
        let mut o = Map::new();
        let mut prev = String::new();
        for m in l {
            let u = vstr(&m["user"]);
            if u <= prev && !prev.is_empty() {
                bail!("members out of order");
            }
            prev = u.clone();
            if num(&m["weight"])? > 0 {
                o.insert(self.name(&u), self.wval_c(c, &m["weight"]));
            }
        }
        Ok(Value::Object(o))
    }
    fn wval_c(&self, c: &str, v: &Value) -> Value {
        if c.starts_with("cou") {
            return num(v).map(|n| json!(n as u64)).unwrap_or(json!("ERR"));
        }
        self.wval(v)
    }
    pub fn total(&self, c: &str, exp: Value) -> Result<Value> {
        let r = self.qc(c, json!({"total_weight": {"expiration": exp}}))?;
        Ok(self.wval_c(c, &r["total_weight"]))
    }

    /// Unclaimed reward of an address, in base units.
    pub fn reward(&self, addr: &str, asset: &str) -> Result<u128> {
        let (nat, cw) = match self.denom(asset) {
            Some(d) => (vec![d], vec![]),
            None => (vec![], vec![self.cw20(asset)]),
        };
        let r = self.qc("dis", json!({"user_rewards": {"user": addr, "native_denoms": nat, "cw20_assets": cw}}))?;
        let l = arr(&r[if cw.is_empty() { "native_rewards" } else { "cw20_rewards" }]);
        if l.len() != 1 {
            bail!("{} reward entries for one asset", l.len());
        }
        num(&l[0]["amount"])
    }

    fn claims_of(&self, c: &str, u: &str, which: &str) -> Result<Value> {
        if self.kind() == "multisig" && self.via.borrow().is_none() {
            return Ok(json!([]));
        }
        let r = self.qc(c, json!({which: {"user": self.addr(u)}}))?;
        let mut out = vec![];
        for c in arr(&r["claims"]) {
            if vstr(&c["user"]) != self.addr(u) {
                bail!("claim of another user");
            }
            let mut o = json!({"rel": self.release(&c["release_at"])});
            if c.get("nft_ids").is_some() {
                let mut ids: Vec<String> = arr(&c["nft_ids"]).iter().map(vstr).collect();
                ids.sort();
                o["ids"] = json!(ids);
            } else {
                o["amt"] = self.wval(&c["amount"]);
            }
            // claims for nothing are not told apart from no claim
            if o["amt"] != json!(0) {
                out.push((num(&c["id"])?, o));
            }
        }
        out.sort_by_key(|x| x.0);
        Ok(json!(out.into_iter().map(|x| x.1).collect::<Vec<_>>()))
    }

    fn results4(&self, kind: &str, r: &Value) -> Result<Value> {
        let mut v = [0u128; 4];
        for e in arr(r) {
            v[num(&e[0])? as usize] = num(&e[1])?;
        }
        let sc = if kind == "c" { 1 } else { self.w.ws };
        Ok(json!(v.iter().map(|x| self.unscale(*x, sc)).collect::<Vec<_>>()))
    }

    /// One proposal record from a ProposalResponse, cross-checked with the other proposal queries.
    fn prop(&self, r: &Value) -> Result<Value> {
        let p = &r["proposal"];
        let id = p["id"].as_u64().unwrap_or(0);
        let kind = if p["proposal_type"] == json!("general") { "g" } else { "c" };
        let single = self.qc("gc", json!({"proposal": {"proposal_id": id}}))?;
        if single != *r {
            bail!("proposal {id} differs between list and single query");
        }
        let st = self.qc("gc", json!({"proposal_status": {"proposal_id": id}}))?;
        if st["status"] != r["proposal_status"] || st["results"] != r["results"] || st["expires"] != p["expires"] || p["status"] != r["proposal_status"] {
            bail!("proposal {id}: status query {st} disagrees with {r}");
        }
        let sc = if kind == "c" { 1 } else { self.w.ws };
        let votes = self.paged(|after, lim| {
            Ok(arr(&self.qc("gc", json!({"proposal_votes": {"proposal_id": id, "start_after": after, "limit": lim}}))?["votes"])
                .into_iter().map(|m| (m["voter"].clone(), m)).collect())
        })?;
        let mut vo = Map::new();
        for v in votes {
            if v["poll_id"].as_u64() != Some(id) {
                bail!("vote of another proposal listed");
            }
            let u = vstr(&v["voter"]);
            let one = self.qc("gc", json!({"member_vote": {"member": u, "proposal_id": id}}))?;
            if one["vote"] != v {
                bail!("member vote differs from listed vote");
            }
            if vo.insert(self.name(&u), json!([v["outcome"], self.unscale(num(&v["amount"])?, sc)])).is_some() {
                bail!("voter listed twice");
            }
        }
        Ok(json!({
            "k": kind, "by": self.name(&vstr(&p["proposer"])), "st": vstr(&r["proposal_status"]),
            "res": self.results4(kind, &r["results"])?, "tot": self.unscale(num(&r["total_votes_available"])?, sc),
            "v": vo, "from": self.time_of(&p["started_at"]), "end": self.time_of(&p["expires"]["at_time"]),
        }))
    }

    pub fn observe(&self, key: &str, exp: &Value) -> Value {
        match self.observe_(key, exp) {
            Ok(v) => v,
            Err(e) => json!(format!("ERR {e:#}")),
        }
    }

    fn observe_(&self, key: &str, exp: &Value) -> Result<Value> {
        Ok(match key {
            "bal" => {
                let mut o = Map::new();
                for a in keys(exp) {
                    let mut m = Map::new();
                    for acct in keys(&exp[&a]) {
                        m.insert(acct.clone(), self.unscale(self.balance(&a, &self.addr(&acct))?, self.scale(&a)));
                        if self.denom(&a).is_none() {
                            // nobody has been allowed to spend another's tokens
                            let r = self.q(&self.cw20(&a), json!({"all_allowances": {"owner": self.addr(&acct), "start_after": null, "limit": null}}))?;
                            if arr(&r["allowances"]).iter().any(|x| vstr(&x["allowance"]) != "0") {
                                m.insert(format!("allowed by {acct}"), r["allowances"].clone());
                            }
                        }
                    }
                    o.insert(a, Value::Object(m));
                }
                Value::Object(o)
            }
            "nft" => {
                let mut o = Map::new();
                for id in keys(exp) {
                    let (coll, tid) = if let Some(r) = id.strip_prefix("x:") { ("nftx", r.to_string()) } else { ("nft", id.clone()) };
                    let r = self.qc(coll, json!({"owner_of": {"token_id": tid, "include_expired": null}}))?;
                    o.insert(id, json!(self.name(&vstr(&r["owner"]))));
                }
                // nobody has been given power over the whole collection of another
                if !o.is_empty() {
                    for who in self.holders() {
                        let r = self.qc("nft", json!({"all_operators": {"owner": who}}))?;
                        if !arr(&r["operators"]).is_empty() {
                            o.insert(format!("operators of {}", self.name(&who)), r["operators"].clone());
                        }
                    }
                }
                Value::Object(o)
            }
            "w" | "cw" => {
                let c = if key == "w" { "mem" } else { "cou" };
                let mut o = Map::new();
                for u in keys(exp) {
                    let r = self.qc(c, json!({"user_weight": {"user": self.addr(&u)}}))?;
                    if vstr(&r["user"]) != self.addr(&u) {
                        bail!("weight of another user");
                    }
                    o.insert(u, self.wval_c(c, &r["weight"]));
                }
                Value::Object(o)
            }
            "total" => self.total("mem", json!({"never": {}}))?,
            "ctotal" => self.total("cou", json!({"never": {}}))?,
            "members" => self.members("mem")?,
            "cmembers" => self.members("cou")?,
            "hist" | "chist" => {
                let c = if key == "hist" { "mem" } else { "cou" };
                let mut out = vec![];
                for (i, _) in arr(exp).iter().enumerate() {
                    let b = block(i as i64);
                    let h = self.total(c, json!({"at_height": b.height}))?;
                    let t = self.total(c, json!({"at_time": b.time}))?;
                    if h != t {
                        bail!("total at height {h} differs from total at time {t} for unit {i}");
                    }
                    // a moment earlier the total was the same, a moment later it is the next one
                    let before = self.total(c, json!({"at_time": b.time.minus_nanos(unit() / 60)}))?;
                    if before != t {
                        bail!("total a moment before unit {i} is {before}, not {t}");
                    }
                    let after = self.total(c, json!({"at_time": b.time.plus_nanos(unit() / 60)}))?;
                    let next = self.total(c, json!({"at_time": block(i as i64 + 1).time}))?;
                    let nexth = self.total(c, json!({"at_height": b.height + 1}))?;
                    if after != next || nexth != next {
                        bail!("total a moment after unit {i} is {after}, total at unit {} is {next} (by height {nexth})", i + 1);
                    }
                    out.push(h);
                }
                json!(out)
            }
            "phist" => {
                let at = |k: &str| -> Result<Vec<Value>> {
                    (-6..0).map(|t| {
                        let b = block(t);
                        self.total("mem", if k == "h" { json!({"at_height": b.height}) } else { json!({"at_time": b.time}) })
                    }).collect()
                };
                json!({"h": at("h")?, "s": at("s")?})
            }
            "told" => {
                // the last change of each user reported to each listener
                let mut o = Map::new();
                for l in keys(exp) {
                    let mut by: Map<String, Value> = Map::new();
                    for e in arr(&self.q(&self.addr(&l), json!({}))?) {
                        let c = self.name(&vstr(&e["by"]));
                        let ch = e["weights_changed"]["weight_changes"].as_array();
                        if ch.is_none() || !arr(&e["funds"]).is_empty() || !["mem", "cou"].contains(&c.as_str()) {
                            by.insert("odd".into(), e.clone());
                        }
                        // several changes of a user in one report count as one
                        let mut one: Map<String, Value> = Map::new();
                        for w in ch.cloned().unwrap_or_default() {
                            let k = format!("{c}.{}", self.name(&vstr(&w["user"])));
                            let (a, b) = (self.wval_c(&c, &w["old_weight"]), self.wval_c(&c, &w["new_weight"]));
                            match one.get_mut(&k) {
                                Some(x) => {
                                    if x[1] != a && *x != json!([a, b]) {
                                        by.insert("odd".into(), e.clone());
                                    }
                                    x[1] = b;
                                }
                                None => { one.insert(k, json!([a, b])); }
                            }
                        }
                        by.extend(one.into_iter().filter(|x| x.1[0] != x.1[1]));
                    }
                    o.insert(l, Value::Object(by));
                }
                Value::Object(o)
            }
            "nstake" => {
                // staked NFTs, overall and per user
                let all = self.paged(|after, lim| {
                    Ok(arr(&self.qc("mem", json!({"staked_nfts": {"start_after": after, "limit": lim}}))?["nfts"])
                        .into_iter().map(|m| (m.clone(), m)).collect())
                })?;
                let mut per: BTreeMap<String, String> = BTreeMap::new();
                for u in keys(&exp["per"]) {
                    let a = self.addr(&u);
                    let l = self.paged(|after, lim| {
                        let r = self.qc("mem", json!({"user_stake": {"user": a, "start_after": after, "limit": lim}}))?;
                        Ok(arr(&r["tokens"]).into_iter().map(|m| (m.clone(), m)).collect())
                    })?;
                    let r = self.qc("mem", json!({"user_stake": {"user": a, "start_after": null, "limit": 1}}))?;
                    if num(&r["total_user_stake"])? != l.len() as u128 {
                        bail!("total_user_stake {} but {} tokens", r["total_user_stake"], l.len());
                    }
                    for t in l {
                        if per.insert(vstr(&t), u.clone()).is_some() {
                            bail!("token staked twice");
                        }
                    }
                }
                let mut pm = Map::new();
                for u in keys(&exp["per"]) {
                    pm.insert(u.clone(), json!(per.iter().filter(|(_, v)| **v == u).map(|(k, _)| k.clone()).collect::<Vec<_>>()));
                }
                json!({"all": all, "per": pm})
            }
            "claims" | "rclaims" => {
                let which = if key == "claims" { "claims" } else { "releasable_claims" };
                let mut o = Map::new();
                for u in keys(exp) {
                    o.insert(u.clone(), self.claims_of("mem", &u, which)?);
                }
                Value::Object(o)
            }
            "ul" => {
                let q = match self.kind().as_str() {
                    "denom" => "denom_config",
                    "token" => "token_config",
                    "multisig" => return Ok(json!({"k": "none", "n": 0})),
                    _ => "nft_contract_config",
                };
                self.duration(&self.qc("mem", json!({q: {}}))?["unlocking_period"])
            }
            "props" => {
                let l = self.paged(|after, lim| {
                    Ok(arr(&self.qc("gc", json!({"proposals": {"filter": null, "start_after": after, "limit": lim}}))?["proposals"])
                        .into_iter().map(|m| (m["proposal"]["id"].clone(), m)).collect())
                })?;
                let mut out = vec![];
                for (i, r) in l.iter().enumerate() {
                    if r["proposal"]["id"].as_u64() != Some(i as u64 + 1) {
                        bail!("proposal ids not consecutive: {}", r["proposal"]["id"]);
                    }
                    out.push(self.prop(r)?);
                }
                json!(out)
            }
            "pacts" => {
                // stored actions equal the submitted ones
                let mut out = vec![];
                for (i, e) in arr(exp).iter().enumerate() {
                    let r = self.qc("gc", json!({"proposal": {"proposal_id": i + 1}}))?;
                    let want: Vec<Value> = arr(e).iter().map(|a| self.action(a)).collect();
                    let got = arr(&r["proposal"]["proposal_actions"]);
                    if want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| norm_eq(a, b)) {
                        out.push(e.clone());
                    } else {
                        out.push(json!(got));
                    }
                }
                json!(out)
            }
            "pfilter" => {
                let mut o = Map::new();
                for f in ["in_progress", "passed", "rejected"] {
                    let l = self.paged(|after, lim| {
                        Ok(arr(&self.qc("gc", json!({"proposals": {"filter": f, "start_after": after, "limit": lim}}))?["proposals"])
                            .into_iter().map(|m| (m["proposal"]["id"].clone(), m["proposal"]["id"].clone())).collect())
                    })?;
                    o.insert(f.into(), json!(l));
                }
                Value::Object(o)
            }
            "gov" => {
                let g = &self.qc("gc", json!({"gov_config": {}}))?["gov_config"];
                let d = g["vote_duration"].as_u64().unwrap_or(1);
                json!({"q": Self::pct_of(&g["quorum"]), "thr": Self::pct_of(&g["threshold"]), "veto": Self::pct_of(&g["veto_threshold"]),
                    "dur": match units(d) { Some(n) => json!(n), None => json!(format!("{d}s")) },
                    "mindep": if g["minimum_deposit"].is_null() { json!(-1) } else { self.wval(&g["minimum_deposit"]) },
                    "early": g["allow_early_proposal_execution"]})
            }
            "council" => {
                let r = self.qc("gc", json!({"gov_config": {}}))?;
                if vstr(&r["dao_membership_contract"]) != self.addr("mem") || vstr(&r["dao_council_membership_contract"]) != self.addr("cou") {
                    bail!("gov config names other membership contracts");
                }
                let c = &r["council_gov_config"];
                if c.is_null() {
                    json!({"on": false, "q": 0, "thr": 0, "allowed": []})
                } else {
                    let mut a: Vec<String> = arr(&c["allowed_proposal_action_types"]).iter().map(vstr).collect();
                    a.sort();
                    json!({"on": true, "q": Self::pct_of(&c["quorum"]), "thr": Self::pct_of(&c["threshold"]), "allowed": a})
                }
            }
            "meta" => {
                let m = &self.qc("ent", json!({"dao_info": {}}))?["metadata"];
                let o = |v: &Value| if v.is_null() { json!("none") } else { v.clone() };
                json!({"name": m["name"], "desc": o(&m["description"]), "logo": m["logo"].get("url").cloned().unwrap_or(m["logo"].clone()),
                    "gh": o(&m["socials"]["github_username"]), "dc": o(&m["socials"]["discord_username"]),
                    "tw": o(&m["socials"]["twitter_username"]), "tg": o(&m["socials"]["telegram_username"])})
            }
            "info" => {
                let m = self.qc("ent", json!({"dao_info": {}}))?;
                json!({"type": m["dao_type"], "created": self.time_of(&m["creation_date"]),
                    "ver": [m["dao_version"]["major"], m["dao_version"]["minor"], m["dao_version"]["patch"]]})
            }
            "comps" => {
                let c = self.qc("ent", json!({"component_contracts": {}}))?;
                let n = |k: &str| json!(self.name(&vstr(&c[k])));
                json!({"fac": n("enterprise_factory_contract"), "ver": n("enterprise_versioning_contract"), "gov": n("enterprise_governance_contract"),
                    "gc": n("enterprise_governance_controller_contract"), "out": n("enterprise_outposts_contract"), "tre": n("enterprise_treasury_contract"),
                    "dis": n("funds_distributor_contract"), "mem": n("membership_contract"), "cou": n("council_membership_contract")})
            }
            "wl" => {
                let l = self.paged(|after, lim| {
                    Ok(arr(&self.qc("tre", json!({"asset_whitelist": {"start_after": after, "limit": lim}}))?["assets"])
                        .into_iter().map(|m| (m.clone(), m)).collect())
                })?;
                if l.windows(2).any(|w| w[0].get("native").is_none() && w[1].get("native").is_some()) {
                    bail!("native asset listed after a token");
                }
                let mut n: Vec<String> = l.iter().map(|x| self.asset_name(x)).collect();
                n.sort();
                json!(n)
            }
            "nwl" => {
                let l = self.paged(|after, lim| {
                    Ok(arr(&self.qc("tre", json!({"nft_whitelist": {"start_after": after, "limit": lim}}))?["nfts"])
                        .into_iter().map(|m| (m.clone(), m)).collect())
                })?;
                let mut n: Vec<String> = l.iter().map(|x| self.name(&vstr(x))).collect();
                n.sort();
                json!(n)
            }
            "admin" => json!(self.name(&vstr(&self.qc("tre", json!({"config": {}}))?["admin"]))),
            "minw" => self.wval(&self.qc("dis", json!({"minimum_eligible_weight": {}}))?["minimum_eligible_weight"]),
            "cover" => {
                // the distributor holds at least what it owes
                let mut o = Map::new();
                let users: Vec<String> = keys(&self.w.cfg["bal"]).iter().flat_map(|a| keys(&self.w.cfg["bal"][a])).chain((1..9).map(|i| format!("u{i}"))).collect();
                for a in keys(exp) {
                    let mut owed = 0u128;
                    let mut seen = std::collections::BTreeSet::new();
                    for u in users.iter().filter(|u| seen.insert(u.to_string())) {
                        owed += self.reward(&self.addr(u), &a)?;
                    }
                    let held = self.balance(&a, &self.addr("dis"))?;
                    o.insert(a, if held >= owed { json!(true) } else { json!(format!("owes {owed}, holds {held}")) });
                }
                Value::Object(o)
            }
            "rewi" | "earned" => {
                let mut o = Map::new();
                for a in keys(exp) {
                    let mut m = Map::new();
                    for u in keys(&exp[&a]) {
                        let mut r = self.reward(&self.addr(&u), &a)?;
                        if key == "earned" {
                            let start = self.w.cfg["bal"][&a][&u].as_u64().unwrap_or(0) as u128 * self.scale(&a);
                            r = (r + self.balance(&a, &self.addr(&u))?).checked_sub(start).ok_or_else(|| anyhow!("lost money"))?;
                        }
                        m.insert(u, json!(r as u64));
                    }
                    o.insert(a, Value::Object(m));
                }
                Value::Object(o)
            }
            "rew" => {
                let mut o = Map::new();
                let assets = keys(exp);
                for a in &assets {
                    o.insert(a.clone(), json!({}));
                }
                let nat: Vec<String> = assets.iter().filter_map(|a| self.denom(a)).collect();
                let cw: Vec<String> = assets.iter().filter(|a| self.denom(a).is_none()).map(|a| self.cw20(a)).collect();
                let users = assets.first().map(|a| keys(&exp[a])).unwrap_or_default();
                for u in users {
                    let r = self.qc("dis", json!({"user_rewards": {"user": self.addr(&u), "native_denoms": nat, "cw20_assets": cw}}))?;
                    for a in &assets {
                        let amt = match self.denom(a) {
                            Some(d) => arr(&r["native_rewards"]).iter().find(|x| x["denom"] == json!(d)).map(|x| x["amount"].clone()),
                            None => arr(&r["cw20_rewards"]).iter().find(|x| x["asset"] == json!(self.cw20(a))).map(|x| x["amount"].clone()),
                        };
                        let v = match amt {
                            Some(x) => self.unscale(num(&x)?, self.scale(a)),
                            None => json!("missing"),
                        };
                        o[a][&u] = v;
                    }
                }
                Value::Object(o)
            }
            "att" => {
                let c = self.qc("ent", json!({"component_contracts": {}}))?;
                let (cur, signed) = match c["attestation_contract"].as_str() {
                    None => (json!("none"), None),
                    Some(a) => (self.q(a, json!({"attestation_text": {}}))?["text"].clone(), Some(a.to_string())),
                };
                let mut r = Map::new();
                let mut sg = Map::new();
                for u in keys(&exp["restr"]) {
                    let x = self.qc("ent", json!({"is_restricted_user": {"user": self.addr(&u)}}))?;
                    r.insert(u.clone(), x["is_restricted"].clone());
                    if let Some(a) = &signed {
                        sg.insert(u.clone(), self.q(a, json!({"has_user_signed": {"user": self.addr(&u)}}))?["has_signed"].clone());
                    } else {
                        sg.insert(u.clone(), json!(false));
                    }
                }
                json!({"cur": cur, "restr": r, "signed": sg})
            }
            x => return self.observe_more(x, exp),
        })
    }

    /// One IBC transfer in specification terms.
    fn sent(&self, e: &Value, exp: &Value) -> Result<Value> {
        use cosmwasm_std::Binary;
        if e["type_url"] != json!("/ibc.applications.transfer.v1.MsgTransfer") || e["port"] != json!("transfer") || vstr(&e["sender"]) != self.addr("out")
            || vstr(&e["by"]) != self.addr("out") || e["funds"] != json!([{"denom": "uluna", "amount": "1"}]) {
            bail!("unexpected transfer {e}");
        }
        let memo: Value = serde_json::from_str(e["memo"].as_str().unwrap_or(""))?;
        let w = &memo["wasm"];
        let l = arr(&w["msg"]["execute_msgs"]["msgs"]);
        if l.len() != 1 || w["contract"] != e["receiver"] {
            bail!("unexpected memo {memo}");
        }
        let chan = vstr(&e["channel"]).strip_prefix("channel-").unwrap_or("?").to_string();
        let short = |v: &Value| {
            let v = vstr(v);
            let v = v.strip_prefix("juno1").unwrap_or(&v).to_string();
            v.strip_prefix("globalproxy").map(|x| x.to_string()).unwrap_or(v)
        };
        let mut o = json!({"chan": chan, "to": short(&e["receiver"])});
        let cb = &l[0]["reply_callback"];
        o["cb"] = if cb.is_null() { json!(0) } else {
            if cb["ibc_port"] != json!("porta") || cb["ibc_channel"] != json!(format!("channel-back-{chan}")) || cb["denom"] != json!(format!("ibc/{chan}"))
                || vstr(&cb["receiver"]) != self.addr("out") {
                bail!("unexpected callback {cb}");
            }
            cb["callback_id"].clone()
        };
        let wasm = &l[0]["msg"]["wasm"];
        let body = |v: &Value| -> Result<Value> { Ok(serde_json::from_slice(Binary::from_base64(&vstr(&v["msg"]))?.as_slice())?) };
        if let Some(i) = wasm.get("instantiate") {
            let m = body(i)?;
            if i["funds"] != json!([]) {
                bail!("funds sent");
            }
            if i["code_id"] == json!(501) {
                let owner = Self::hook_addr(&format!("channel-back-{chan}"), &self.addr("out"), "juno");
                if !i["admin"].is_null() || m["allow_cross_chain_msgs"] != json!(true) || m["owner"] != json!(owner) || !m["whitelist"].is_null() || !m["msgs"].is_null() {
                    bail!("unexpected proxy request {i} {m}, owner should be {owner}");
                }
                o["k"] = json!("proxy");
            } else if i["code_id"] == json!(502) {
                if i["admin"] != m["admin"] {
                    bail!("admin mismatch");
                }
                o["k"] = json!("tre");
                o["admin"] = json!(short(&m["admin"]));
                let mut wl: Vec<String> = arr(&m["asset_whitelist"]).iter().map(|x| self.asset_name(x)).collect();
                wl.extend(arr(&m["nft_whitelist"]).iter().map(|x| self.name(&vstr(x))));
                o["white"] = json!(wl);
            } else {
                bail!("unexpected code {i}");
            }
        } else if let Some(x) = wasm.get("execute") {
            let m = body(x)?;
            o["k"] = json!("exec");
            o["tre"] = json!(short(&x["contract_addr"]));
            o["what"] = if x["funds"] == json!([]) && norm_eq(&m, &self.remote_msg(&exp["what"])) { exp["what"].clone() } else { m };
        } else {
            bail!("unexpected message {}", l[0]["msg"]);
        }
        Ok(o)
    }

    /// Everything a DAO of the factory shows.
    fn dao_view(&self, d: &Value, exp: &Value) -> Result<Value> {
        let mut o = Map::new();
        let info = |c: &str| self.app.wrap().query_wasm_contract_info(self.addr(c));
        let adm = |a: Option<String>| a.map(|a| self.name(&a)).unwrap_or("none".into());
        for k in keys(exp) {
            let v = match k.as_str() {
                "id" => json!(vstr(&d["dao_id"]).parse::<u64>().unwrap_or(0)),
                "adm" => {
                    let mut m = Map::new();
                    for c in keys(&exp["adm"]) {
                        m.insert(c.clone(), json!(adm(info(&c)?.admin)));
                    }
                    Value::Object(m)
                }
                "link" => {
                    let q = match self.kind().as_str() {
                        "denom" => "denom_config",
                        "token" => "token_config",
                        "multisig" => "config",
                        _ => "nft_contract_config",
                    };
                    json!({"mem": self.name(&vstr(&self.qc("mem", json!({q: {}}))?["enterprise_contract"])),
                        "cou": self.name(&vstr(&self.qc("cou", json!({"config": {}}))?["enterprise_contract"]))})
                }
                "nprops" => json!(arr(&self.qc("gc", json!({"proposals": {"filter": null, "start_after": null, "limit": 100}}))?["proposals"]).len()),
                "xsent" => {
                    let log = self.q(&self.addr("rec"), json!({}))?;
                    let mine: Vec<Value> = arr(&log).into_iter().filter(|e| vstr(&e["by"]) == self.addr("out")).collect();
                    json!(mine.iter().map(|e| self.sent(e, &Value::Null)).collect::<Result<Vec<_>>>()?)
                }
                "asset" => self.asset_view(&exp["asset"])?,
                _ => self.observe(&k, &exp[&k]),
            };
            o.insert(k, v);
        }
        Ok(Value::Object(o))
    }

    fn asset_view(&self, exp: &Value) -> Result<Value> {
        let code = |id: u64| [("cw20", self.codes.cw20), ("cw20b", self.codes.cw20b), ("cw721", self.codes.cw721), ("cw721b", self.codes.cw721b)]
            .iter().find(|x| x.1 == id).map(|x| x.0.to_string()).unwrap_or(format!("code {id}"));
        Ok(match self.kind().as_str() {
            "denom" => json!({"denom": self.qc("mem", json!({"denom_config": {}}))?["denom"]}),
            "token" => {
                let c = vstr(&self.qc("mem", json!({"token_config": {}}))?["token_contract"]);
                if let Some(n) = self.w.names.get(&c) {
                    return Ok(json!({"imp": n}));
                }
                let i = self.q(&c, json!({"token_info": {}}))?;
                let bal = |a: &str| -> Result<Value> { Ok(self.wval(&self.q(&c, json!({"balance": {"address": a}}))?["balance"])) };
                let mut b = Map::new();
                for u in keys(&exp["bal"]) {
                    b.insert(u.clone(), bal(&self.addr(&u))?);
                }
                let k = self.app.wrap().query_wasm_contract_info(&c)?;
                json!({"sym": i["symbol"], "name": i["name"], "dec": i["decimals"], "supply": self.wval(&i["total_supply"]), "bal": b, "tre": bal(&self.addr("tre"))?,
                    "minter": self.name(&vstr(&self.q(&c, json!({"minter": {}}))?["minter"])), "mkt": self.name(&vstr(&self.q(&c, json!({"marketing_info": {}}))?["marketing"])),
                    "adm": k.admin.map(|a| self.name(&a)), "code": code(k.code_id)})
            }
            "nft" => {
                let n = self.qc("mem", json!({"nft_contract_config": {}}))?["nft_contract"].clone();
                if let Some(x) = n.get("ics721") {
                    return Ok(json!({"class": x["class_id"], "bridge": self.name(&vstr(&x["contract"]))}));
                }
                let c = vstr(&n["cw721"]["contract"]);
                if let Some(n) = self.w.names.get(&c) {
                    return Ok(json!({"imp": n}));
                }
                let i = self.q(&c, json!({"contract_info": {}}))?;
                let k = self.app.wrap().query_wasm_contract_info(&c)?;
                json!({"sym": i["symbol"], "name": i["name"], "minter": self.name(&vstr(&self.q(&c, json!({"minter": {}}))?["minter"])),
                    "tokens": self.q(&c, json!({"num_tokens": {}}))?["count"], "adm": k.admin.map(|a| self.name(&a)), "code": code(k.code_id)})
            }
            _ => json!({"none": true}),
        })
    }

    fn observe_more(&self, x: &str, exp: &Value) -> Result<Value> {
        match x {
            "fout" => {
                let fee = self.bank(&self.addr("out"), "uluna") as u64;
                let r = self.face_obs(&json!({"remote": exp["remote"]}))?;
                return Ok(json!({"luna": fee, "remote": r["remote"]}));
            }
            "face" => return self.face_obs(exp),
            "leg" => return self.legacy_obs(exp),
            "query" => {
                let mut o = exp.clone();
                let m = self.fill(&exp["msg"]);
                o["is"] = self.qc(exp["c"].as_str().unwrap_or(""), m)?;
                if let Some(p) = exp["at"].as_str() {
                    o["is"] = o["is"].pointer(p).cloned().unwrap_or(Value::Null);
                }
                return Ok(o);
            }
            "bridged" => {
                // memberships of a bridged collection: the local contract, stakes and claims
                let mut o = Map::new();
                for m in keys(exp) {
                    let addr = self.qc(&m, json!({"nft_config": {}})).map(|r| self.name(&vstr(&r["nft_contract"]))).unwrap_or("none".into());
                    let (mut st, mut clm) = (Map::new(), Map::new());
                    let mut n = 0;
                    for u in keys(&exp[&m]["st"]) {
                        let a = self.addr(&u);
                        let r = self.qc(&m, json!({"user_stake": {"user": a, "start_after": null, "limit": 100}}))?;
                        let w = self.qc(&m, json!({"user_weight": {"user": a}}))?;
                        let l = arr(&r["tokens"]);
                        if num(&w["weight"])? != l.len() as u128 || num(&r["total_user_stake"])? != l.len() as u128 {
                            bail!("weight {} but {} tokens", w["weight"], l.len());
                        }
                        n += l.len();
                        st.insert(u.clone(), json!(l));
                        clm.insert(u.clone(), self.claims_of(&m, &u, "claims")?);
                    }
                    let all = arr(&self.qc(&m, json!({"staked_nfts": {"start_after": null, "limit": 100}}))?["nfts"]);
                    if all.len() != n {
                        bail!("{} tokens staked but {} listed", n, all.len());
                    }
                    let total = num(&self.qc(&m, json!({"total_weight": {"expiration": {"never": {}}}}))?["total_weight"])?;
                    o.insert(m, json!({"addr": addr, "st": st, "clm": clm, "total": total as u64}));
                }
                return Ok(Value::Object(o));
            }
            "fac" => {
                let c = self.qc("fac", json!({"config": {}}))?["config"].clone();
                let code = |v: &Value, l: &[(&str, u64)]| l.iter().find(|x| json!(x.1) == *v).map(|x| json!(x.0)).unwrap_or(v.clone());
                let gwl: Vec<String> = arr(&self.qc("fac", json!({"global_asset_whitelist": {}}))?["assets"]).iter().map(|a| self.asset_name(a)).collect();
                let gn: Vec<String> = arr(&self.qc("fac", json!({"global_nft_whitelist": {}}))?["nfts"]).iter().map(|a| self.name(&vstr(a))).collect();
                return Ok(json!({"luna": self.bank(&self.addr("fac"), "uluna") as u64, "adm": self.name(&vstr(&c["admin"])), "reg": self.name(&vstr(&c["enterprise_versioning"])), "gwl": gwl, "gnwl": gn,
                    "c20": code(&c["cw20_code_id"], &[("cw20", self.codes.cw20), ("cw20b", self.codes.cw20b)]),
                    "c721": code(&c["cw721_code_id"], &[("cw721", self.codes.cw721), ("cw721b", self.codes.cw721b)])}));
            }
            "ids" => {
                let l = self.paged(|after, lim| {
                    Ok(arr(&self.qc("fac", json!({"all_daos": {"start_after": after, "limit": lim}}))?["daos"])
                        .into_iter().map(|m| (m["dao_id"].clone(), m)).collect())
                })?;
                let mut names = vec![];
                for (i, d) in l.iter().enumerate() {
                    if vstr(&d["dao_id"]) != (i + 1).to_string() {
                        bail!("DAO {} listed as number {}", d["dao_id"], i + 1);
                    }
                    let o = self.overlay_at(&vstr(&d["dao_address"]))?;
                    names.push(self.q(&o.roles["ent"], json!({"dao_info": {}}))?["metadata"]["name"].clone());
                }
                return Ok(json!({"n": l.len(), "names": names}));
            }
            "daos" => {
                let l = self.paged(|after, lim| {
                    Ok(arr(&self.qc("fac", json!({"all_daos": {"start_after": after, "limit": lim}}))?["daos"])
                        .into_iter().map(|m| (m["dao_id"].clone(), m)).collect())
                })?;
                let mut out = vec![];
                for (i, d) in l.iter().enumerate() {
                    let o = self.overlay_at(&vstr(&d["dao_address"]))?;
                    *self.over.borrow_mut() = Some(o);
                    let r = self.dao_view(d, exp.get(i).unwrap_or(&Value::Null));
                    *self.over.borrow_mut() = None;
                    out.push(r?);
                }
                return Ok(json!(out));
            }
            "remote" => {
                // recorded proxies and treasuries, by chain and listed
                let short = |v: &Value| v.as_str().map(|x| json!(x.strip_prefix("juno1").unwrap_or(x))).unwrap_or(json!(""));
                let mut by = Map::new();
                for c in keys(&exp["by"]) {
                    let r = self.qc("out", json!({"cross_chain_deployments": {"chain_id": c}}))?;
                    if r["chain_id"] != json!(c) {
                        bail!("deployments of another chain");
                    }
                    by.insert(c, json!({"proxy": short(&r["proxy_addr"]), "tre": short(&r["treasury_addr"])}));
                }
                let l = self.paged(|after, lim| {
                    Ok(arr(&self.qc("out", json!({"cross_chain_treasuries": {"start_after": after, "limit": lim}}))?["treasuries"])
                        .into_iter().map(|m| (m["chain_id"].clone(), m)).collect())
                })?;
                return Ok(json!({"by": by, "list": l.iter().map(|m| json!({"chain": m["chain_id"], "tre": short(&m["treasury_addr"])})).collect::<Vec<_>>()}));
            }
            "sent" => {
                let log = self.q(&self.addr("rec"), json!({}))?;
                let mut out = vec![];
                for (i, e) in arr(&log).iter().enumerate() {
                    out.push(self.sent(e, &exp[i])?);
                }
                return Ok(json!(out));
            }
            "owners" => {
                let n = |v: &Value| self.name(&vstr(v));
                return Ok(json!({"tre": n(&self.qc("tre", json!({"config": {}}))?["admin"]), "fac": n(&self.qc("fac", json!({"config": {}}))?["config"]["admin"]),
                    "ver": n(&self.qc("ver", json!({"admin": {}}))?["admin"])}));
            }
            "reg" => {
                let ver = |v: &Value| json!([v["major"], v["minor"], v["patch"]]);
                let mk = |v: &Value| json!({"major": v[0], "minor": v[1], "patch": v[2]});
                let entry = |i: &Value| {
                    let mut f = Map::new();
                    for c in COMPS {
                        f.insert(c.to_string(), i[format!("{c}_code_id")].clone());
                    }
                    let log = arr(&i["changelog"]).iter().map(vstr).collect::<Vec<_>>().join(" | ");
                    let b = (0..20).find(|b| log == format!("first {b} | again {b}"));
                    f.insert("log".into(), b.map(|b| json!(b)).unwrap_or(json!(log)));
                    json!({"v": ver(&i["version"]), "i": f})
                };
                let from = |first: &Value| {
                    self.paged(|after, lim| {
                        let a = if after.is_null() { first.clone() } else { after };
                        Ok(arr(&self.qc("ver", json!({"versions": {"start_after": a, "limit": lim}}))?["versions"])
                            .into_iter().map(|m| (m["version"].clone(), m)).collect())
                    })
                };
                let list: Vec<Value> = from(&Value::Null)?.iter().map(entry).collect();
                let latest = self.qc("ver", json!({"latest_version": {}})).map(|r| entry(&r["version"])).unwrap_or(json!("none"));
                let mut at = vec![];
                for p in arr(&exp["at"]) {
                    let p = &p["p"];
                    let has = self.qc("ver", json!({"version": {"version": mk(p)}})).map(|r| entry(&r["version"])).unwrap_or(json!("none"));
                    let after: Vec<Value> = from(&mk(p))?.iter().map(|i| ver(&i["version"])).collect();
                    at.push(json!({"p": p, "has": has, "after": after}));
                }
                let admin = self.name(&vstr(&self.qc("ver", json!({"admin": {}}))?["admin"]));
                return Ok(json!({"admin": admin, "list": list, "latest": latest, "at": at}));
            }
            "log" => {
                // migrations the enterprise contract went through: [version set, message tag]
                let raw = self.app.wrap().query_wasm_raw(self.addr("ent"), b"@log".to_vec())?;
                return Ok(raw.map(|r| serde_json::from_slice(&r).unwrap()).unwrap_or(json!([])));
            }
            "code" => {
                let mut o = Map::new();
                for (n, k) in [("ent", "enterprise"), ("gov", "enterprise_governance"), ("gc", "enterprise_governance_controller"), ("tre", "enterprise_treasury"),
                    ("out", "enterprise_outposts"), ("dis", "funds_distributor"), ("cou", "multisig_membership"), ("mem", "")] {
                    let k = match (n, self.kind().as_str()) {
                        ("mem", "denom") => "denom_staking_membership",
                        ("mem", "token") => "token_staking_membership",
                        ("mem", "nft" | "ics721") => "nft_staking_membership",
                        ("mem", _) => "multisig_membership",
                        _ => k,
                    };
                    let id = self.app.wrap().query_wasm_contract_info(self.addr(n))?.code_id;
                    o.insert(n.into(), self.codes.sets.iter().position(|s| s[k] == id).map(|i| json!(i + 1)).unwrap_or(json!(format!("code {id}"))));
                }
                return Ok(Value::Object(o));
            }
            _ => {}
        }
        eprintln!("HARNESS: unknown observation {x}");
        std::process::exit(2);
    }
}

/// JSON equality up to null/absent fields and empty lists.
pub fn norm_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.keys().chain(y.keys()).all(|k| norm_eq(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null)))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| norm_eq(p, q)),
        (Value::String(x), Value::String(y)) => {
            x == y || matches!((x.parse::<cosmwasm_std::Decimal>(), y.parse::<cosmwasm_std::Decimal>()), (Ok(p), Ok(q)) if p == q)
        }
        (p, q) => p == q,
    }
}
