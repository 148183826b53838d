//! Looking at and operating a DAO through the facade, in the terms of the direct queries and operations.
use crate::obs::num;
use crate::ops::OUTCOMES;
use crate::world::*;
use anyhow::{bail, Result};
use cosmwasm_std::*;
use serde_json::{json, Map, Value};

fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

impl Sim {
    fn ask(&self, dao: &str, mut msg: Value) -> Result<Value> {
        let k = msg.as_object().unwrap().keys().next().unwrap().clone();
        msg[&k]["contract"] = json!(dao);
        self.q(&self.addr("facade"), msg)
    }

    /// A direct query answered by the facade instead, in the direct query's form (None: the facade has no such query).
    pub fn face_q(&self, dao: &str, c: &str, msg: &Value) -> Result<Option<Value>> {
        let k = msg.as_object().unwrap().keys().next().unwrap().clone();
        let p = &msg[&k];
        let f = |m: Value| self.ask(dao, m);
        let kind = self.kind();
        Ok(Some(match (c, k.as_str()) {
            ("mem", "user_weight") => {
                let r = f(json!({"user_stake": {"params": {"user": p["user"], "start_after": null, "limit": null}}}))?["user_stake"].clone();
                let w = match kind.as_str() {
                    "denom" => r["denom"]["amount"].clone(),
                    "token" => r["token"]["amount"].clone(),
                    "multisig" => if r == json!("none") { json!("0") } else { r },
                    _ => r["nft"]["amount"].clone(),
                };
                json!({"user": p["user"], "weight": w})
            }
            ("mem", "total_weight") => json!({"total_weight": f(json!({"total_staked_amount": {}}))?["total_staked_amount"]}),
            ("mem", "members") => {
                let l = arr(&f(json!({"list_multisig_members": {"msg": p}}))?["members"]);
                json!({"members": l.iter().map(|m| json!({"user": m["address"], "weight": m["weight"]})).collect::<Vec<_>>()})
            }
            ("cou", "members") => {
                // the facade lists councillors in one page
                let c = f(json!({"dao_info": {}}))?["dao_council"].clone();
                let l: Vec<String> = arr(&c["members"]).iter().map(vstr).filter(|u| p["start_after"].as_str().map(|s| u.as_str() > s).unwrap_or(true)).collect();
                let n = p["limit"].as_u64().unwrap_or(1000) as usize;
                json!({"members": l.iter().take(n).map(|m| json!({"user": m, "weight": "1"})).collect::<Vec<_>>()})
            }
            ("mem", "staked_nfts") => f(json!({"staked_nfts": {"params": p}}))?,
            ("mem", "user_stake") => {
                let r = f(json!({"user_stake": {"params": p}}))?["user_stake"]["nft"].clone();
                json!({"user": p["user"], "tokens": r["tokens"], "total_user_stake": r["amount"]})
            }
            ("mem", "claims" | "releasable_claims") => {
                let r = f(json!({k: {"params": {"owner": p["user"]}}}))?;
                let mut out = vec![];
                for (i, c) in arr(&r["claims"]).iter().enumerate() {
                    let mut o = json!({"id": i.to_string(), "user": p["user"], "release_at": c["release_at"]});
                    match kind.as_str() {
                        "denom" => o["amount"] = c["asset"]["denom"]["amount"].clone(),
                        "token" => o["amount"] = c["asset"]["cw20"]["amount"].clone(),
                        _ => o["nft_ids"] = c["asset"]["cw721"]["tokens"].clone(),
                    }
                    out.push(o);
                }
                json!({"claims": out})
            }
            ("mem", "denom_config" | "token_config" | "nft_contract_config") => {
                json!({"unlocking_period": f(json!({"dao_info": {}}))?["gov_config"]["unlocking_period"]})
            }
            ("gc", "proposal" | "proposals" | "proposal_status" | "proposal_votes" | "member_vote") => f(json!({k: {"params": p}}))?,
            ("gc", "gov_config") => {
                let i = f(json!({"dao_info": {}}))?;
                let c = f(json!({"component_contracts": {}}))?;
                json!({"gov_config": i["gov_config"], "council_gov_config": i["dao_council"],
                    "dao_membership_contract": c["membership_contract"], "dao_council_membership_contract": c["council_membership_contract"]})
            }
            ("ent", "dao_info" | "component_contracts") => f(json!({k: {}}))?,
            ("tre", "asset_whitelist" | "nft_whitelist") => f(json!({k: {"params": p}}))?,
            ("out", "cross_chain_treasuries") => f(json!({k: {"params": p}}))?,
            _ => return Ok(None),
        }))
    }

    /// What the facade shows beyond the direct queries.
    pub fn face_more(&self, dao: &str, exp: &Value) -> Result<Value> {
        let f = |m: Value| self.ask(dao, m);
        let i = f(json!({"dao_info": {}}))?;
        let c = f(json!({"component_contracts": {}}))?;
        let n = |v: &Value| json!(self.name(&vstr(v)));
        let mut pw = Map::new();
        for u in exp["pw"].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
            let d: Decimal = vstr(&f(json!({"member_info": {"msg": {"member_address": self.addr(&u)}}}))?["voting_power"]).parse()?;
            pw.insert(u, json!((d.atomics().u128() / 10u128.pow(12)) as u64));
        }
        let yes = |m: Value, k: &str| -> Result<Value> { Ok(f(m)?[k].clone()) };
        Ok(json!({
            "tre": n(&f(json!({"treasury_address": {}}))?["treasury_address"]), "ent": n(&c["enterprise_contract"]),
            "asset": n(&i["dao_membership_contract"]), "fac": n(&i["enterprise_factory_contract"]), "dis": n(&i["funds_distributor_contract"]),
            "code": num(&i["dao_code_version"])? as u64, "pw": pw,
            "mig": yes(json!({"has_incomplete_v2_migration": {}}), "has_incomplete_migration")?,
            "unm": yes(json!({"has_unmoved_stakes_or_claims": {}}), "has_unmoved_stakes_or_claims")?,
            "stage": yes(json!({"v2_migration_stage": {}}), "stage")?,
            "none": self.kind().contains("nft") || self.kind() == "ics721" || f(json!({"staked_nfts": {"params": {"start_after": null, "limit": null}}}))?["nfts"] == json!([]),
            "lists": self.ask(dao, json!({"list_multisig_members": {"msg": {}}})).is_ok(),
        }))
    }

    /// The "face" observation: the DAO looked up by both of its addresses, in the form of the direct observations.
    pub fn face_obs(&self, exp: &Value) -> Result<Value> {
        let mut first = Value::Null;
        for a in ["tre", "ent"] {
            let dao = self.addr(a);
            *self.via.borrow_mut() = Some(dao.clone());
            let mut o = Map::new();
            for (k, e) in exp.as_object().cloned().unwrap_or_default() {
                let v = if k == "more" { self.face_more(&dao, &e).unwrap_or_else(|e| json!(format!("ERR {e:#}"))) } else { self.observe(&k, &e) };
                o.insert(k, v);
            }
            *self.via.borrow_mut() = None;
            let o = Value::Object(o);
            if first.is_null() {
                first = o;
            } else if first != o {
                bail!("by treasury address {first}, by enterprise address {o}");
            }
        }
        Ok(first)
    }

    /// Carries out an operation with the messages the facade prepares; false if it prepares no such operation.
    pub fn face_exec(&mut self, op: &Value) -> Result<bool> {
        let dao = match self.w.cfg["via"].as_str() {
            Some(x) if !x.is_empty() => self.addr(x),
            _ => return Ok(false),
        };
        let g = |k: &str| vstr(&op[k]);
        let by = g("by");
        let kind = self.kind();
        let user = if op["for"].as_str() == Some("self") { self.addr(&by) } else { self.addr(&g("for")) };
        let vote = |p: &Value| json!({"proposal_id": p["p"], "outcome": OUTCOMES[p["o"].as_u64().unwrap_or(0) as usize]});
        let pos = |k: &str| op[k].as_u64().unwrap_or(0) > 0;
        let m = match op["op"].as_str().unwrap_or("") {
            "stake" if g("asset") == "dao" && pos("amt") => {
                let b = json!({"user": user, "amount": self.wamt(&op["amt"])});
                json!({"stake_adapted": {"params": if kind == "denom" { json!({"denom": b}) } else { json!({"cw20": b}) }}})
            }
            "stakenft" if g("coll") == "nft" => json!({"stake_adapted": {"params": {"cw721": {"user": user, "tokens": [op["id"]]}}}}),
            "stakenfts" => json!({"stake_adapted": {"params": {"cw721": {"user": user, "tokens": op["ids"]}}}}),
            "unstake" => json!({"unstake_adapted": {"params": match kind.as_str() {
                "denom" => json!({"denom": {"amount": self.wamt(&op["amt"])}}),
                "token" | "multisig" => json!({"cw20": {"amount": self.wamt(&op["amt"])}}),
                _ => json!({"cw721": {"tokens": op["ids"]}}),
            }}}),
            "claim" if g("user") == "self" => json!({"claim_adapted": {}}),
            "propose" => {
                let p = self.proposal_json(op);
                let dep = json!({"create_proposal_msg": p, "deposit_amount": self.wamt(&op["dep"])});
                match op["via"].as_str().unwrap_or("none") {
                    "none" => json!({"create_proposal_adapted": {"params": p}}),
                    "native" if g("dasset") == "dao" && pos("dep") && op["extra"].is_null() => json!({"create_proposal_with_denom_deposit_adapted": {"params": dep}}),
                    "cw20" if g("dasset") == "dao" && pos("dep") => json!({"create_proposal_with_token_deposit_adapted": {"params": dep}}),
                    "nft" if op["appr"].as_bool() == Some(true) && op["lend"].is_null() => {
                        json!({"create_proposal_with_nft_deposit_adapted": {"params": {"create_proposal_msg": p, "deposit_tokens": op["dtok"]}}})
                    }
                    _ => return Ok(false),
                }
            }
            "cpropose" => json!({"create_council_proposal_adapted": {"params": self.proposal_json(op)}}),
            "vote" => json!({"cast_vote_adapted": {"params": vote(op)}}),
            "cvote" => json!({"cast_council_vote_adapted": {"params": vote(op)}}),
            "exec" => json!({"execute_proposal_adapted": {"params": {"proposal_id": op["p"]}}}),
            _ => return Ok(false),
        };
        let r = self.ask(&dao, m)?;
        let by = self.addr(&by);
        let coins = |v: &Value| -> Result<Vec<Coin>> { Ok(serde_json::from_value(v.clone())?) };
        // one transaction with all the prepared messages
        let mut all: Vec<CosmosMsg> = vec![];
        for m in arr(&r["msgs"]) {
            if let Some(e) = m.get("execute") {
                let msg: Value = serde_json::from_str(&vstr(&e["msg"]))?;
                all.push(WasmMsg::Execute { contract_addr: vstr(&e["target_contract"]), msg: Binary(serde_json::to_vec(&msg)?), funds: coins(&e["funds"])? }.into());
            } else if let Some(b) = m.get("bank") {
                all.push(BankMsg::Send { to_address: vstr(&b["receiver"]), amount: coins(&b["funds"])? }.into());
            } else {
                bail!("unknown prepared message {m}");
            }
        }
        self.app.execute_multi(Addr::unchecked(by), all)?;
        Ok(true)
    }
}
