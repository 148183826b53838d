//! Old DAOs: the treasury contract with the records of the former all-in-one DAO contract.
use crate::obs::num;
use crate::world::*;
use anyhow::{bail, Result};
use cosmwasm_std::Storage;
use serde_json::{json, Map, Value};

fn lp(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u16).to_be_bytes());
    out.extend_from_slice(b);
}

impl Sim {
    fn raw_put(&mut self, contract: &str, key: &[u8], v: &Value) {
        let mut k = vec![];
        lp(&mut k, b"wasm");
        lp(&mut k, format!("contract_data/{contract}").as_bytes());
        k.extend_from_slice(key);
        self.store.set(&k, &serde_json::to_vec(v).unwrap());
    }

    /// Writes the former contract's records into the treasury.
    pub fn write_legacy(&mut self, l: &Value) -> Result<()> {
        let tre = self.addr("tre");
        let kind = self.kind();
        let key = |parts: &[&[u8]], last: &[u8]| {
            let mut k = vec![];
            for p in parts {
                lp(&mut k, p);
            }
            k.extend_from_slice(last);
            k
        };
        self.raw_put(&tre, b"dao_type", &json!(kind));
        let asset = if kind == "token" { self.addr("daotok") } else { self.addr("nft") };
        self.raw_put(&tre, b"dao_membership_contract", &json!(asset));
        let info = json!({"version_info": self.version_info(&json!([1, 0, 0]), 1), "enterprise_contract": self.addr("ent"),
            "enterprise_governance_controller_contract": self.addr("gc"), "enterprise_outposts_contract": self.addr("out"),
            "membership_contract": self.addr("mem"), "council_membership_contract": self.addr("cou"), "initial_submsgs_limit": null});
        self.raw_put(&tre, b"migration_info", &info);
        if l["stage"] != json!("none") {
            self.raw_put(&tre, b"migration_stage", &l["stage"]);
        }
        for e in l["st"].as_array().cloned().unwrap_or_default() {
            if kind == "token" {
                let v = json!(self.wamt(&e[1]));
                self.raw_put(&tre, &key(&[b"stakes"], self.addr(&vstr(&e[0])).as_bytes()), &v);
            } else {
                let (id, u) = (vstr(&e[0]), self.addr(&vstr(&e[1])));
                self.raw_put(&tre, &key(&[b"nft_stakes"], id.as_bytes()), &json!({"staker": u, "token_id": id}));
                self.raw_put(&tre, &key(&[b"nft_stakes__staker", u.as_bytes()], id.as_bytes()), &json!(id.len()));
            }
        }
        let mut claims: Map<String, Value> = Map::new();
        for c in l["clm"].as_array().cloned().unwrap_or_default() {
            let b = block(c["rel"]["n"].as_i64().unwrap_or(0));
            let rel = if c["rel"]["k"] == json!("time") { json!({"timestamp": b.time}) } else { json!({"height": b.height.to_string()}) };
            let asset = if kind == "token" { json!({"cw20": {"amount": self.wamt(&c["amt"])}}) } else { json!({"cw721": {"tokens": c["ids"]}}) };
            let u = self.addr(&vstr(&c["u"]));
            claims.entry(u).or_insert(json!([])).as_array_mut().unwrap().push(json!({"asset": asset, "release_at": rel}));
        }
        for (u, v) in claims {
            self.raw_put(&tre, &key(&[b"claims"], u.as_bytes()), &v);
        }
        for e in l["ms"].as_array().cloned().unwrap_or_default() {
            let v = json!(self.wamt(&e[1]));
            self.raw_put(&tre, &key(&[b"multisig_members"], self.addr(&vstr(&e[0])).as_bytes()), &v);
        }
        // total weight, changed once in the past
        let b = block(l["tot"]["at"].as_i64().unwrap_or(0));
        for (n, at) in [("block_height", b.height), ("time_seconds", b.time.seconds())] {
            let (now, was) = (json!(self.wamt(&l["tot"]["now"])), json!(self.wamt(&l["tot"]["was"])));
            self.raw_put(&tre, format!("total_staked_{n}_snapshot").as_bytes(), &now);
            self.raw_put(&tre, &key(&[format!("total_staked_{n}_changelog").as_bytes()], &at.to_be_bytes()), &json!({"old": was}));
        }
        Ok(())
    }

    /// The "leg" observation.
    pub fn legacy_obs(&self, exp: &Value) -> Result<Value> {
        let tre = self.addr("tre");
        let yes = |m: &str, k: &str| -> Result<Value> {
            let a = self.q(&tre, json!({m: {}}))?[k].clone();
            for by in ["tre", "ent"] {
                let f = self.q(&self.addr("facade"), json!({m: {"contract": self.addr(by)}}))?[k].clone();
                if f != a {
                    bail!("{m}: treasury says {a}, facade {f}");
                }
            }
            Ok(a)
        };
        let mut w = Map::new();
        for u in exp["w"].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
            let r = self.q(&tre, json!({"user_weight": {"user": self.addr(&u)}}))?;
            if vstr(&r["user"]) != self.addr(&u) {
                bail!("user weight of {u}: {r}");
            }
            w.insert(u, self.unscale(num(&r["weight"])?, self.w.ws));
        }
        let tot = |e: Value| -> Result<Value> { Ok(self.unscale(num(&self.q(&tre, json!({"total_weight": {"expiration": e}}))?["total_weight"])?, self.w.ws)) };
        let at = exp["tot"]["at"].as_i64().unwrap_or(0);
        let mut ds = vec![];
        for d in [0, 1] {
            // the value at the moment of the change is that before it
            let b = block(at + d);
            let (h, t) = (tot(json!({"at_height": b.height}))?, tot(json!({"at_time": b.time}))?);
            if h != t {
                bail!("total weight at {}: by height {h}, by time {t}", at + d);
            }
            ds.push(h);
        }
        let now = tot(json!({"never": {}}))?;
        if ds[1] != now {
            bail!("total weight: now {now}, since the last change {}", ds[1]);
        }
        let stage = self.q(&self.addr("facade"), json!({"v2_migration_stage": {"contract": tre}}))?["stage"].clone();
        Ok(json!({"open": yes("has_incomplete_v2_migration", "has_incomplete_migration")?, "unm": yes("has_unmoved_stakes_or_claims", "has_unmoved_stakes_or_claims")?,
            "stage": stage, "w": w, "tot": {"now": now, "was": ds[0], "at": at}}))
    }
}
