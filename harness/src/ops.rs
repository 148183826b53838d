//! Translation of specification operations into transactions on the real contracts.
use crate::world::*;
use anyhow::{anyhow, bail, Result};
use cosmwasm_std::*;
use serde_json::{json, Value};

pub const OUTCOMES: [&str; 4] = ["yes", "no", "abstain", "veto"];

fn s(v: &Value, k: &str) -> String {
    vstr(&v[k])
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn b64(v: &Value) -> Value {
    json!(Binary(chain::json_bytes(v)).to_base64())
}
fn version(v: &Value) -> Value {
    json!({"major": v[0], "minor": v[1], "patch": v[2]})
}

/// Bech32 text of some bytes (BIP 173).
fn bech32(prefix: &str, data: &[u8]) -> String {
    const SET: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    let (mut acc, mut bits, mut v) = (0u32, 0, vec![]);
    for b in data {
        acc = (acc << 8) | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            v.push((acc >> bits) & 31);
        }
    }
    if bits > 0 {
        v.push((acc << (5 - bits)) & 31);
    }
    let polymod = |vals: &[u32]| {
        let mut c = 1u32;
        for x in vals {
            let t = c >> 25;
            c = ((c & 0x1ffffff) << 5) ^ x;
            for (i, g) in [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3].iter().enumerate() {
                if (t >> i) & 1 == 1 {
                    c ^= g;
                }
            }
        }
        c
    };
    let mut x: Vec<u32> = prefix.bytes().map(|b| b as u32 >> 5).collect();
    x.push(0);
    x.extend(prefix.bytes().map(|b| b as u32 & 31));
    x.extend(&v);
    x.extend([0; 6]);
    let p = polymod(&x) ^ 1;
    let mut out = format!("{prefix}1");
    for d in v.into_iter().chain((0..6).map(|i| (p >> (5 * (5 - i))) & 31)) {
        out.push(SET[d as usize] as char);
    }
    out
}
/// Instantiation reply data: contract address, then unused data.
fn inst_data(addr: &str) -> Value {
    let mut b = vec![0x0a, addr.len() as u8];
    b.extend(addr.as_bytes());
    json!(Binary(b).to_base64())
}

/// The changelog of a specification version base: two lines that name it.
fn changelog(b: u64) -> Value {
    json!([format!("first {b}"), format!("again {b}")])
}

impl Sim {
    fn opt(v: &Value) -> Value {
        if v.as_str() == Some("none") {
            Value::Null
        } else {
            v.clone()
        }
    }

    pub fn remote(&self, v: &Value) -> Value {
        match v.get("remote").and_then(|r| r.as_str()) {
            Some(ch) if !ch.is_empty() => json!({"cross_chain_msg_spec": self.spec_json(ch)}),
            _ => Value::Null,
        }
    }
    /// How to reach a remote chain: "chain" or "chain/channel".
    pub fn spec_json(&self, chain: &str) -> Value {
        let (chain, chan) = chain.split_once('/').unwrap_or((chain, chain));
        json!({"chain_id": chain, "chain_bech32_prefix": "juno", "src_ibc_port": "transfer", "src_ibc_channel": format!("channel-{chan}"),
            "dest_ibc_port": "porta", "dest_ibc_channel": format!("channel-back-{chan}"), "uluna_denom": format!("ibc/{chan}"), "timeout_nanos": null})
    }
    pub fn deploy_json(&self, a: &Value) -> Value {
        let ch = s(a, "chain");
        let gp = match a["gp"].as_str() {
            Some(g) => g.to_string(),
            None => ch.clone(),
        };
        let nfts: Vec<String> = arr(&a["nfts"]).iter().map(|x| self.addr(&vstr(x))).collect();
        json!({"cross_chain_msg_spec": self.spec_json(&match a["chan"].as_str() { Some(c) => format!("{ch}/{c}"), None => ch }),
            "asset_whitelist": arr(&a["white"]).iter().map(|x| self.asset_info(&vstr(x))).collect::<Vec<_>>(),
            "nft_whitelist": if nfts.is_empty() { Value::Null } else { json!(nfts) }, "ics_proxy_code_id": 501, "enterprise_treasury_code_id": 502,
            "chain_global_proxy": format!("juno1globalproxy{gp}")})
    }
    /// The treasury message a remote instruction of the specification stands for.
    pub fn remote_msg(&self, a: &Value) -> Value {
        match a["a"].as_str().unwrap_or("") {
            "fund" => json!({"spend": {"recipient": self.addr(&s(a, "to")), "assets": self.assets(&a["assets"])}}),
            "white" => json!({"update_asset_whitelist": {"add": self.infos(&a["add"]), "remove": self.infos(&a["rem"])}}),
            "nftw" => json!({"update_nft_whitelist": {"add": self.addrs(&a["add"]), "remove": self.addrs(&a["rem"])}}),
            "tre" => json!({"execute_cosmos_msgs": {"msgs": self.cosmos_list(&a["msgs"])}}),
            _ => json!({}),
        }
    }
    /// The address a remote sender has here (or this contract has there) through IBC hooks.
    pub fn hook_addr(channel: &str, sender: &str, prefix: &str) -> String {
        use sha2::{Digest, Sha256};
        let mut h = Sha256::new();
        h.update(Sha256::digest(b"ibc-wasm-hook-intermediary"));
        h.update(format!("{channel}/{sender}").as_bytes());
        bech32(prefix, &h.finalize())
    }

    pub fn meta_json(&self, f: &Value) -> Value {
        let mut m = json!({});
        for (k, j) in [("name", "name"), ("desc", "description"), ("logo", "logo"), ("gh", "github_username"),
            ("dc", "discord_username"), ("tw", "twitter_username"), ("tg", "telegram_username")] {
            m[j] = match f.get(k) {
                None => json!("no_change"),
                Some(v) if k == "logo" => json!({"change": if v.as_str() == Some("none") { json!("none") } else { json!({"url": v}) }}),
                Some(v) if k == "name" => json!({"change": v}),
                Some(v) => json!({"change": Self::opt(v)}),
            };
        }
        m
    }

    pub fn govcfg_json(&self, f: &Value) -> Value {
        let mut m = json!({"quorum": "no_change", "threshold": "no_change", "veto_threshold": "no_change", "voting_duration": "no_change",
            "unlocking_period": "no_change", "minimum_deposit": "no_change", "allow_early_proposal_execution": "no_change"});
        if let Some(o) = f.as_object() {
            for (k, v) in o {
                let neg = v.as_i64().map(|x| x < 0).unwrap_or(false);
                match k.as_str() {
                    "q" => m["quorum"] = json!({"change": Self::pct(v)}),
                    "thr" => m["threshold"] = json!({"change": Self::pct(v)}),
                    "veto" => m["veto_threshold"] = json!({"change": if neg { Value::Null } else { json!(Self::pct(v)) }}),
                    "dur" => m["voting_duration"] = json!({"change": secs(v.as_u64().unwrap_or(0)).to_string()}),
                    "ul" => m["unlocking_period"] = json!({"change": self.dur(v)}),
                    "mindep" => m["minimum_deposit"] = json!({"change": if neg { Value::Null } else { json!(self.wamt(v)) }}),
                    "early" => m["allow_early_proposal_execution"] = json!({"change": v}),
                    _ => {}
                }
            }
        }
        m
    }

    pub fn pairs(&self, v: &Value) -> Vec<Value> {
        arr(v).iter().map(|e| json!({"user": self.addr(&vstr(&e[0])), "weight": self.wamt(&e[1])})).collect()
    }
    pub fn assets(&self, v: &Value) -> Vec<Value> {
        arr(v).iter().map(|e| self.asset(&vstr(&e[0]), &e[1])).collect()
    }
    pub fn infos(&self, v: &Value) -> Vec<Value> {
        arr(v).iter().map(|e| self.asset_info(&vstr(e))).collect()
    }
    pub fn addrs(&self, v: &Value) -> Vec<Value> {
        arr(v).iter().map(|e| json!(self.addr(&vstr(e)))).collect()
    }

    /// A chain message, as the JSON text governance proposals carry.
    pub fn cosmos(&self, m: &Value) -> String {
        let wasm = |c: String, msg: Value| {
            json!({"wasm": {"execute": {"contract_addr": c, "msg": b64(&msg), "funds": []}}}).to_string()
        };
        match m["m"].as_str().unwrap_or("") {
            "send" => {
                let a = s(m, "asset");
                match self.denom(&a) {
                    Some(d) => json!({"bank": {"send": {"to_address": self.addr(&s(m, "to")), "amount": [{"denom": d, "amount": self.amt(&a, &m["amt"])}]}}}).to_string(),
                    None => wasm(self.cw20(&a), json!({"transfer": {"recipient": self.addr(&s(m, "to")), "amount": self.amt(&a, &m["amt"])}})),
                }
            }
            "setatt" => wasm(self.addr("ent"), json!({"set_attestation": {"attestation_text": m["text"]}})),
            "rmatt" => wasm(self.addr("ent"), json!({"remove_attestation": {}})),
            "bad" => wasm("nosuchcontract".into(), json!({})),
            "unparse" => "{\"not\": \"a message\"}".into(),
            "raw" => wasm(self.addr(&s(m, "c")), m["msg"].clone()),
            _ => "{}".into(),
        }
    }
    fn cosmos_list(&self, v: &Value) -> Vec<String> {
        arr(v).iter().map(|m| self.cosmos(m)).collect()
    }

    /// A proposal action of the specification as the contracts' JSON.
    pub fn action(&self, a: &Value) -> Value {
        match a["a"].as_str().unwrap_or("") {
            "meta" => json!({"update_metadata": self.meta_json(&a["f"])}),
            "gov" => json!({"update_gov_config": self.govcfg_json(&a["f"])}),
            "council" => json!({"update_council": {"dao_council": self.council_json(&a["c"])}}),
            "white" => json!({"update_asset_whitelist": {"remote_treasury_target": self.remote(a), "add": self.infos(&a["add"]), "remove": self.infos(&a["rem"])}}),
            "nftw" => json!({"update_nft_whitelist": {"remote_treasury_target": self.remote(a), "add": self.addrs(&a["add"]), "remove": self.addrs(&a["rem"])}}),
            "fund" => json!({"request_funding_from_dao": {"remote_treasury_target": self.remote(a), "recipient": self.addr(&s(a, "to")), "assets": self.assets(&a["assets"])}}),
            "upg" => json!({"upgrade_dao": self.upgrade_json(a)}),
            "exec" => json!({"execute_msgs": {"action_type": "x", "msgs": self.cosmos_list(&a["msgs"])}}),
            "tre" => json!({"execute_treasury_msgs": {"action_type": "x", "msgs": self.cosmos_list(&a["msgs"]), "remote_treasury_target": self.remote(a)}}),
            "ent" => json!({"execute_enterprise_msgs": {"action_type": "x", "msgs": self.cosmos_list(&a["msgs"])}}),
            "msig" => json!({"modify_multisig_membership": {"edit_members": self.pairs(&a["edits"])}}),
            "dist" => json!({"distribute_funds": {"funds": self.assets(&a["funds"])}}),
            "minw" => json!({"update_minimum_weight_for_rewards": {"minimum_weight_for_rewards": self.wamt(&a["w"])}}),
            "deploy" => json!({"deploy_cross_chain_treasury": self.deploy_json(a)}),
            x => json!({x: {}}),
        }
    }
    pub fn upgrade_json(&self, a: &Value) -> Value {
        let mm: Vec<Value> = arr(&a["msgs"]).iter().map(|e| {
            let m = match e[1].as_str() {
                Some("default") | None => json!({}),
                Some("nojson") => return json!({"version": version(&e[0]), "migrate_msg": Binary(b"not json".to_vec()).to_base64()}),
                Some(t) => json!({"move_excess_membership_assets_to": t}),
            };
            json!({"version": version(&e[0]), "migrate_msg": b64(&m)})
        }).collect();
        json!({"new_version": version(&a["v"]), "migrate_msgs": mm})
    }

    pub fn proposal_json(&self, op: &Value) -> Value {
        let acts: Vec<Value> = arr(&op["acts"]).iter().map(|a| self.action(a)).collect();
        let mut p = json!({"title": "title", "description": "text", "proposal_actions": acts});
        if let Some(o) = op["own"].as_str() {
            if !o.is_empty() && o != "none" {
                p["deposit_owner"] = json!(self.addr(o));
            }
        }
        p
    }

    fn coins(&self, asset: &str, v: &Value) -> Vec<Coin> {
        let a: u128 = self.amt(asset, v).parse().unwrap_or(0);
        match self.denom(asset) {
            Some(d) if a > 0 => vec![coin(a, d)],
            _ => vec![],
        }
    }
    fn send20(&mut self, by: &str, asset: &str, to: &str, amt: &Value, hook: Value) -> Result<()> {
        let c = self.cw20(asset);
        let b = self.addr(by);
        let msg = json!({"send": {"contract": self.addr(to), "amount": self.amt(asset, amt), "msg": b64(&hook)}});
        self.exec_raw(&b, &c, &msg, vec![])?;
        Ok(())
    }

    /// Moves the clock to specification time t.
    pub fn set_time(&mut self, t: i64) {
        self.app.set_block(block(t));
    }

    pub fn exec(&mut self, op: &Value) -> Result<Value> {
        let by = s(op, "by");
        let kind = self.kind();
        let ok = json!({});
        if self.face_exec(op)? {
            return Ok(ok);
        }
        match op["op"].as_str().unwrap_or("") {
            "seq" => {
                for o in arr(&op["ops"]) {
                    self.exec(&o)?;
                }
            }
            "tick" => {
                self.set_time(op["to"].as_i64().unwrap());
            }
            "stake" => {
                let asset = op["asset"].as_str().unwrap_or("dao").to_string();
                let user = if op["for"].as_str() == Some("self") { self.addr(&by) } else { self.addr(&s(op, "for")) };
                if self.denom(&asset).is_some() {
                    let f = self.coins(&asset, &op["amt"]);
                    if kind == "denom" {
                        let u = if op["for"].as_str() == Some("self") { Value::Null } else { json!(user) };
                        self.exec_c(&by, "mem", json!({"stake": {"user": u}}), f)?;
                    } else {
                        bail!("no native staking");
                    }
                } else {
                    self.send20(&by, &asset, "mem", &op["amt"], json!({"stake": {"user": user}}))?;
                }
            }
            "stakemulti" => {
                // denom staking with two different coins attached
                let mut f = self.coins("dao", &op["amt"]);
                f.extend(self.coins("cash", &op["amt"]));
                f.sort_by(|a, b| a.denom.cmp(&b.denom));
                self.exec_c(&by, "mem", json!({"stake": {"user": null}}), f)?;
            }
            "addstakes" => {
                let l: Vec<Value> = arr(&op["list"]).iter().map(|e| json!({"user": self.addr(&vstr(&e[0])), "staked_amount": self.wamt(&e[1])})).collect();
                self.send20(&by, "dao", "mem", &op["amt"], json!({"add_stakes": {"stakers": l}}))?;
            }
            "addclaims" => {
                let l: Vec<Value> = arr(&op["list"]).iter().map(|e| json!({"user": self.addr(&vstr(&e[0])), "claim_amount": self.wamt(&e[1]),
                    "release_at": {"timestamp": block(e[2].as_i64().unwrap_or(0)).time}})).collect();
                self.send20(&by, "dao", "mem", &op["amt"], json!({"add_claims": {"claims": l}}))?;
            }
            "stakenft" | "addclaimnft" => {
                let c = self.addr(op["coll"].as_str().unwrap_or("nft"));
                let b = self.addr(&by);
                let u = self.addr(&s(op, "for"));
                let hook = if op["op"] == "stakenft" { json!({"stake": {"user": u}}) } else {
                    json!({"add_claim": {"user": u, "release_at": {"timestamp": block(op["rel"].as_i64().unwrap_or(0)).time}}}) };
                let msg = json!({"send_nft": {"contract": self.addr("mem"), "token_id": s(op, "id"), "msg": b64(&hook)}});
                self.exec_raw(&b, &c, &msg, vec![])?;
            }
            "fakenft" => {
                // a bare ReceiveNft notification from an arbitrary sender
                let u = self.addr(&s(op, "for"));
                let msg = json!({"receive_nft": {"edition": null, "sender": u, "token_id": s(op, "id"), "msg": b64(&json!({"stake": {"user": u}}))}});
                self.exec_c(&by, "mem", msg, vec![])?;
            }
            "fake20" => {
                let u = self.addr(&s(op, "for"));
                let msg = json!({"receive": {"sender": u, "amount": self.wamt(&op["amt"]), "msg": b64(&json!({"stake": {"user": u}}))}});
                self.exec_c(&by, "mem", msg, vec![])?;
            }
            "unstake" => {
                if kind == "nft" || kind == "ics721" {
                    self.exec_c(&by, "mem", json!({"unstake": {"nft_ids": op["ids"]}}), vec![])?;
                } else {
                    self.exec_c(&by, "mem", json!({"unstake": {"amount": self.wamt(&op["amt"])}}), vec![])?;
                }
            }
            "claim" => {
                let u = match op["user"].as_str() {
                    Some("self") | None => Value::Null,
                    Some(u) => json!(self.addr(u)),
                };
                self.exec_c(&by, "mem", json!({"claim": {"user": u}}), vec![])?;
            }
            "unlock" => {
                let p = if op["ul"].is_object() { self.dur(&op["ul"]) } else { Value::Null };
                self.exec_c(&by, "mem", json!({"update_unlocking_period": {"new_unlocking_period": p}}), vec![])?;
            }
            "hook" => {
                let m = json!({"hook_addr": self.addr(&s(op, "who"))});
                let k = if s(op, "what") == "add" { "add_weight_change_hook" } else { "remove_weight_change_hook" };
                self.exec_c(&by, &s(op, "c"), json!({k: m}), vec![])?;
            }
            "editm" => {
                let l = self.pairs(&op["edits"]);
                let c = op["c"].as_str().unwrap_or("mem").to_string();
                self.exec_c(&by, &c, json!({"update_members": {"update_members": l}}), vec![])?;
            }
            "setm" => {
                let l = self.pairs(&op["edits"]);
                let c = op["c"].as_str().unwrap_or("mem").to_string();
                self.exec_c(&by, &c, json!({"set_members": {"new_members": l}}), vec![])?;
            }
            "propose" => {
                let p = self.proposal_json(op);
                match op["via"].as_str().unwrap_or("none") {
                    "native" => {
                        let asset = op["dasset"].as_str().unwrap_or("dao").to_string();
                        let mut f = self.coins(&asset, &op["dep"]);
                        for e in arr(&op["extra"]) {
                            f.extend(self.coins(&vstr(&e[0]), &e[1]));
                        }
                        f.sort_by(|a, b| a.denom.cmp(&b.denom));
                        self.exec_c(&by, "gc", json!({"create_proposal": p}), f)?;
                    }
                    "cw20" => {
                        let asset = op["dasset"].as_str().unwrap_or("dao").to_string();
                        self.send20(&by, &asset, "gc", &op["dep"], json!({"create_proposal": p}))?;
                    }
                    "nft" => {
                        if op["appr"].as_bool() == Some(true) {
                            let (nft, gc) = (self.addr("nft"), self.addr("gc"));
                            for t in arr(&op["dtok"]) {
                                let o = self.q(&nft, json!({"owner_of": {"token_id": t, "include_expired": null}})).map(|r| s(&r, "owner")).unwrap_or_default();
                                let _ = self.exec_raw(&o, &nft, &json!({"approve": {"spender": gc, "token_id": t, "expires": null}}), vec![]);
                                if op["lend"].as_bool() == Some(true) && o.starts_with("user") {
                                    let by = self.addr(&by);
                                    let _ = self.exec_raw(&o, &nft, &json!({"approve": {"spender": by, "token_id": t, "expires": null}}), vec![]);
                                }
                            }
                        }
                        self.exec_c(&by, "gc", json!({"create_proposal_with_nft_deposit": {"create_proposal_msg": p, "deposit_tokens": op["dtok"]}}), vec![])?;
                    }
                    _ => {
                        self.exec_c(&by, "gc", json!({"create_proposal": p}), vec![])?;
                    }
                }
            }
            "cpropose" => {
                let p = self.proposal_json(op);
                self.exec_c(&by, "gc", json!({"create_council_proposal": p}), vec![])?;
            }
            "vote" => {
                self.exec_c(&by, "gc", json!({"cast_vote": {"proposal_id": op["p"], "outcome": OUTCOMES[op["o"].as_u64().unwrap() as usize]}}), vec![])?;
            }
            "cvote" => {
                self.exec_c(&by, "gc", json!({"cast_council_vote": {"proposal_id": op["p"], "outcome": OUTCOMES[op["o"].as_u64().unwrap() as usize]}}), vec![])?;
            }
            "exec" => {
                self.exec_c(&by, "gc", json!({"execute_proposal": {"proposal_id": op["p"]}}), vec![])?;
            }
            "dist" => {
                let asset = s(op, "asset");
                if self.denom(&asset).is_some() {
                    let f = self.coins(&asset, &op["amt"]);
                    self.exec_c(&by, "dis", json!({"distribute_native": {}}), f)?;
                } else {
                    self.send20(&by, &asset, "dis", &op["amt"], json!({"distribute": {}}))?;
                }
            }
            "dist2" => {
                // several native coins in one distribution
                let mut f: Vec<Coin> = vec![];
                for e in arr(&op["funds"]) {
                    f.extend(self.coins(&vstr(&e[0]), &e[1]));
                }
                f.sort_by(|a, b| a.denom.cmp(&b.denom));
                self.exec_c(&by, "dis", json!({"distribute_native": {}}), f)?;
            }
            "claimrew" => {
                let (mut nat, mut cw) = (vec![], vec![]);
                for a in arr(&op["assets"]) {
                    let a = vstr(&a);
                    match self.denom(&a) {
                        Some(d) => nat.push(d),
                        None => cw.push(self.cw20(&a)),
                    }
                }
                let u = self.addr(&s(op, "user"));
                self.exec_c(&by, "dis", json!({"claim_rewards": {"user": u, "native_denoms": nat, "cw20_assets": cw}}), vec![])?;
            }
            "disw" => {
                let l = self.pairs(&op["edits"]);
                self.exec_c(&by, "dis", json!({"update_user_weights": {"new_user_weights": l}}), vec![])?;
            }
            "minw" => {
                self.exec_c(&by, "dis", json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": self.wamt(&op["w"])}}), vec![])?;
            }
            "sign" => {
                let c = op["c"].as_str().unwrap_or("att").to_string();
                let att = if c == "att" { self.current_att()? } else { self.addr(&c) };
                let b = self.addr(&by);
                self.exec_raw(&b, &att, &json!({"sign_attestation": {}}), vec![])?;
            }
            "setatt" => {
                self.exec_c(&by, "ent", json!({"set_attestation": {"attestation_text": op["text"]}}), vec![])?;
            }
            "rmatt" => {
                self.exec_c(&by, "ent", json!({"remove_attestation": {}}), vec![])?;
            }
            "meta" => {
                let m = self.meta_json(&op["f"]);
                self.exec_c(&by, "ent", json!({"update_metadata": m}), vec![])?;
            }
            "entcfg" => {
                let f = |k: &str| match op["f"].get(k) {
                    Some(v) => json!({"change": self.addr(&vstr(v))}),
                    None => json!("no_change"),
                };
                let m = json!({"update_config": {"new_versioning_contract": f("ver"), "new_factory_contract": f("fac")}});
                self.exec_c(&by, "ent", m, vec![])?;
            }
            "upg" => {
                let m = self.upgrade_json(op);
                self.exec_c(&by, "ent", json!({"upgrade_dao": m}), vec![])?;
            }
            "entmsgs" => {
                let m = self.cosmos_list(&op["msgs"]);
                self.exec_c(&by, "ent", json!({"execute_msgs": {"msgs": m}}), vec![])?;
            }
            "spend" => {
                let m = json!({"spend": {"recipient": self.addr(&s(op, "to")), "assets": self.assets(&op["assets"])}});
                self.exec_c(&by, "tre", m, vec![])?;
            }
            "tredist" => {
                let m = json!({"distribute_funds": {"funds": self.assets(&op["funds"]), "funds_distributor_contract": self.addr("dis")}});
                self.exec_c(&by, "tre", m, vec![])?;
            }
            "tremsgs" => {
                let m = self.cosmos_list(&op["msgs"]);
                self.exec_c(&by, "tre", json!({"execute_cosmos_msgs": {"msgs": m}}), vec![])?;
            }
            "white" => {
                let m = json!({"update_asset_whitelist": {"add": self.infos(&op["add"]), "remove": self.infos(&op["rem"])}});
                self.exec_c(&by, "tre", m, vec![])?;
            }
            "nftw" => {
                let m = json!({"update_nft_whitelist": {"add": self.addrs(&op["add"]), "remove": self.addrs(&op["rem"])}});
                self.exec_c(&by, "tre", m, vec![])?;
            }
            "treadmin" => {
                self.exec_c(&by, "tre", json!({"set_admin": {"new_admin": self.addr(&s(op, "to"))}}), vec![])?;
            }
            "mig" => {
                let n = op["n"].as_i64().unwrap_or(-1);
                self.exec_c(&by, "tre", json!({"perform_next_migration_step": {"submsgs_limit": if n < 0 { Value::Null } else { json!(n) }}}), vec![])?;
            }
            "transfer" => {
                let a = s(op, "asset");
                let (b, t) = (self.addr(&by), self.addr(&s(op, "to")));
                match self.denom(&a) {
                    Some(_) => {
                        let c = self.coins(&a, &op["amt"]);
                        self.app.execute(Addr::unchecked(b), BankMsg::Send { to_address: t, amount: c }.into())?;
                    }
                    None => {
                        let c = self.cw20(&a);
                        self.exec_raw(&b, &c, &json!({"transfer": {"recipient": t, "amount": self.amt(&a, &op["amt"])}}), vec![])?;
                    }
                }
            }
            x => return self.exec_more(x, op),
        }
        Ok(ok)
    }

    pub fn current_att(&self) -> Result<String> {
        let c = self.qc("ent", json!({"component_contracts": {}}))?;
        c["attestation_contract"].as_str().map(|x| x.to_string()).ok_or_else(|| anyhow!("no attestation"))
    }

    /// Replaces "@name" by the address of name, "@@" objects by base64 of their content, everywhere in a message.
    pub fn fill(&self, v: &Value) -> Value {
        match v {
            Value::String(x) => match x.strip_prefix('@') {
                Some(n) => json!(self.addr(n)),
                None => v.clone(),
            },
            Value::Array(a) => Value::Array(a.iter().map(|x| self.fill(x)).collect()),
            Value::Object(o) if o.len() == 1 && o.contains_key("@@") => b64(&self.fill(&o["@@"])),
            Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), self.fill(x))).collect()),
            _ => v.clone(),
        }
    }

    /// The message of a reserved operation.
    pub fn priv_msg(&self, m: &str, to: &str) -> (String, Value) {
        let (c, f) = m.split_once('/').unwrap();
        let a = |n: &str| self.addr(n);
        let one = self.wamt(&json!(1));
        let end = block(5).time;
        let proposal = json!({"title": "t", "description": "d", "proposal_actions": [self.action(&json!({"a": "meta", "f": {"name": "n"}}))]});
        let spec = self.spec_json("chn");
        let msg = match (c, f) {
            ("mem" | "cou", "add_hook") => json!({"add_weight_change_hook": {"hook_addr": a("rec")}}),
            ("mem" | "cou", "remove_hook") => json!({"remove_weight_change_hook": {"hook_addr": a("gc")}}),
            ("mem" | "cou", "update_members") => json!({"update_members": {"update_members": [{"user": "user9", "weight": "1"}]}}),
            ("mem" | "cou", "set_members") => json!({"set_members": {"new_members": [{"user": "user9", "weight": "1"}]}}),
            ("mem", "unlocking") => json!({"update_unlocking_period": {"new_unlocking_period": {"time": 6000}}}),
            ("mem", "receive_stake") => json!({"receive": {"sender": a("u1"), "amount": one, "msg": b64(&json!({"stake": {"user": a("u1")}}))}}),
            ("mem", "receive_add_stakes") => json!({"receive": {"sender": a("u1"), "amount": one, "msg": b64(&json!({"add_stakes": {"stakers": [{"user": a("u1"), "staked_amount": one}]}}))}}),
            ("mem", "receive_add_claims") => json!({"receive": {"sender": a("u1"), "amount": one, "msg": b64(&json!({"add_claims": {"claims": [{"user": a("u1"), "claim_amount": one, "release_at": {"timestamp": end}}]}}))}}),
            ("mem", "receive_nft") => json!({"receive_nft": {"edition": null, "sender": a("u1"), "token_id": "b", "msg": b64(&json!({"stake": {"user": a("u1")}}))}}),
            ("mem", "receive_nft_claim") => json!({"receive_nft": {"edition": null, "sender": a("u1"), "token_id": "b", "msg": b64(&json!({"add_claim": {"user": a("u1"), "release_at": {"timestamp": end}}}))}}),
            ("gov", "create_poll") => json!({"create_poll": {"proposer": a("u1"), "deposit_amount": "0", "label": "l", "description": "long enough description", "scheme": "coin_voting",
                "ends_at": end, "quorum": "0.5", "threshold": "0.5", "veto_threshold": null}}),
            ("gov", "cast_vote") => json!({"cast_vote": {"poll_id": "1", "outcome": "no", "voter": a("u2"), "amount": one}}),
            ("gov", "update_votes") => json!({"update_votes": {"voter": a("u1"), "new_amount": "7"}}),
            ("gov", "end_poll") => json!({"end_poll": {"poll_id": "1", "maximum_available_votes": self.wamt(&json!(2)), "error_if_already_ended": true, "allow_early_ending": true}}),
            ("ent", "update_metadata") => json!({"update_metadata": self.meta_json(&json!({"name": "stolen"}))}),
            ("ent", "upgrade") => json!({"upgrade_dao": {"new_version": version(&json!([1, 3, 0])), "migrate_msgs": []}}),
            ("ent", "update_config") => json!({"update_config": {"new_versioning_contract": {"change": a("rec")}, "new_factory_contract": "no_change"}}),
            ("ent", "set_attestation") => json!({"set_attestation": {"attestation_text": "other"}}),
            ("ent", "remove_attestation") => json!({"remove_attestation": {}}),
            ("ent", "execute_msgs") => json!({"execute_msgs": {"msgs": []}}),
            ("ent", "finalize") => json!({"finalize_instantiation": {"enterprise_treasury_contract": a("tre2"), "enterprise_governance_contract": a("gov2"),
                "enterprise_governance_controller_contract": a("gc2"), "enterprise_outposts_contract": a("out2"), "funds_distributor_contract": a("dis2"),
                "membership_contract": a("mem2"), "council_membership_contract": a("cou2"), "attestation_contract": null}}),
            ("gc", "weights_changed") => json!({"weights_changed": {"weight_changes": [{"user": a("u1"), "old_weight": "1", "new_weight": "5"}]}}),
            ("gc", "execute_actions") => json!({"execute_proposal_actions": {"proposal_id": 1}}),
            ("gc", "receive") => json!({"receive": {"sender": a("u1"), "amount": one, "msg": b64(&json!({"create_proposal": proposal}))}}),
            ("gc", "deploy_initial") => json!({"deploy_initial_cross_chain_treasuries": {}}),
            ("gc", "cpropose") => json!({"create_council_proposal": proposal}),
            ("gc", "cvote") => json!({"cast_council_vote": {"proposal_id": 2, "outcome": "yes"}}),
            ("out", "deploy") => json!({"deploy_cross_chain_treasury": self.deploy_json(&json!({"chain": "chn", "white": []}))}),
            ("out", "execute") => json!({"execute_cross_chain_treasury": {"msg": {"set_admin": {"new_admin": to}}, "treasury_target": {"cross_chain_msg_spec": spec}}}),
            ("out", "callback") => json!({"execute_msg_reply_callback": {"callback_id": 1, "events": [], "data": null}}),
            ("dis", "user_weights") => json!({"update_user_weights": {"new_user_weights": [{"user": a("u1"), "weight": "5"}]}}),
            ("dis", "minimum") => json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": "5"}}),
            ("dis", "claim_u1") => json!({"claim_rewards": {"user": a("u1"), "native_denoms": ["ucash"], "cw20_assets": []}}),
            ("dis", "claim_u3") => json!({"claim_rewards": {"user": a("u3"), "native_denoms": ["ucash"], "cw20_assets": []}}),
            ("dis", "receive") => json!({"receive": {"sender": a("u1"), "amount": "10", "msg": b64(&json!({"distribute": {}}))}}),
            ("tre", "set_admin") => json!({"set_admin": {"new_admin": to}}),
            ("tre", "asset_whitelist") => json!({"update_asset_whitelist": {"add": [{"native": "ufoo"}], "remove": []}}),
            ("tre", "nft_whitelist") => json!({"update_nft_whitelist": {"add": [a("nft")], "remove": []}}),
            ("tre", "spend") => json!({"spend": {"recipient": to, "assets": self.assets(&json!([["cash", 1]]))}}),
            ("tre", "distribute") => json!({"distribute_funds": {"funds": self.assets(&json!([["cash", 1]])), "funds_distributor_contract": a("dis")}}),
            ("tre", "execute") => json!({"execute_cosmos_msgs": {"msgs": [self.cosmos(&json!({"m": "send", "asset": "cash", "to": "u2", "amt": 1}))]}}),
            ("fac", "update_config") => json!({"update_config": {"new_admin": to}}),
            ("fac", "finalize") => json!({"finalize_dao_creation": {}}),
            ("ver", "admin") => json!({"update_admin": {"new_admin": to}}),
            ("ver", "add") => json!({"add_version": {"version": self.version_info(&json!([7, 0, 0]), 1)}}),
            ("ver", "edit") => json!({"edit_version": {"version": version(&json!([1, 2, 1])), "enterprise_code_id": 1}}),
            ("icsproxy", "callback") => json!({"ics721_receive_callback": {"nft_contract": a("nftx"), "original_packet": {"classId": "c", "classUri": null, "classData": null,
                "tokenIds": ["q"], "tokenUris": null, "tokenData": null, "sender": "s", "receiver": "r", "memo": null}, "msg": b64(&json!({"nothing": {}}))}}),
            _ => { eprintln!("HARNESS: unknown reserved operation {m}"); std::process::exit(2) }
        };
        (c.to_string(), msg)
    }

    pub fn exec_more(&mut self, x: &str, op: &Value) -> Result<Value> {
        match x {
            "raw" => {
                let f: Vec<Coin> = arr(&op["funds"]).iter().map(|e| coin(e[1].as_u64().unwrap_or(0) as u128, vstr(&e[0]))).collect();
                let m = self.fill(&op["msg"]);
                self.exec_c(&s(op, "by"), &s(op, "c"), m, f)?;
                return Ok(json!({}));
            }
            "create" => {
                let m = self.create_msg(&op["r"]);
                let v = arr(&op["v"]);
                let m = if v.is_empty() { json!({"create_dao": m}) } else { json!({"create_dao_with_version": {"version": version(&op["v"]), "create_dao_msg": m}}) };
                self.exec_c(&s(op, "by"), "fac", m, vec![])?;
            }
            "relver" => {
                let info = self.version_info(&op["v"], op["set"].as_u64().unwrap_or(1) as usize);
                self.exec_c("veradmin", "ver", json!({"add_version": {"version": info}}), vec![])?;
            }
            "facconf" => {
                let c = |n: &str| match n { "cw20b" => json!(self.codes.cw20b), "cw721b" => json!(self.codes.cw721b), _ => Value::Null };
                let m = json!({"update_config": {"new_admin": if s(op, "to").is_empty() { Value::Null } else { json!(self.addr(&s(op, "to"))) }, "new_enterprise_versioning": if s(op, "reg").is_empty() { Value::Null } else { json!(self.addr(&s(op, "reg"))) },
                    "new_cw20_code_id": c(&s(op, "c20")), "new_cw721_code_id": c(&s(op, "c721"))}});
                self.exec_c(&s(op, "by"), "fac", m, vec![])?;
            }
            "fminw" => {
                let (o, d) = (self.overlay(op["i"].as_u64().unwrap_or(0))?, self.overlay(op["d"].as_u64().unwrap_or(0))?);
                self.exec_raw(&d.roles["gc"], &o.roles["dis"], &json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": self.wamt(&op["w"])}}), vec![])?;
            }
            "fstake" | "fdist" | "fprop" | "fsign" => {
                let o = self.overlay(op["i"].as_u64().unwrap_or(0))?;
                let kind = o.kind.clone();
                let by = s(op, "by");
                let sub = match x {
                    "fstake" if kind == "multisig" => {
                        let w = self.q(&o.roles["mem"], json!({"user_weight": {"user": self.addr(&by)}}))?["weight"].clone();
                        let n: u64 = vstr(&w).parse()?;
                        json!({"op": "editm", "by": "gc", "c": "mem", "edits": [[by, n + 1]]})
                    }
                    "fstake" => json!({"op": "stake", "by": by, "for": by, "amt": 1, "asset": "dao"}),
                    "fdist" => json!({"op": "dist", "by": "u1", "asset": "cash", "amt": op["n"]}),
                    "fprop" => json!({"op": "propose", "by": by, "acts": [], "via": "none", "dep": 0, "dasset": "dao", "dtok": [], "appr": false, "own": "none"}),
                    _ => json!({"op": "sign", "by": by, "c": "att"}),
                };
                *self.over.borrow_mut() = Some(o);
                let r = self.exec(&sub);
                *self.over.borrow_mut() = None;
                r?;
            }
            "learn" => {
                let m = json!({"class_id": op["class"], "contract": self.addr(&s(op, "coll"))});
                self.exec_c("u1", "bridge", m, vec![])?;
            }
            "nftgive" => {
                let m = json!({"transfer_nft": {"recipient": self.addr(&s(op, "to")), "token_id": op["id"]}});
                self.exec_c(&s(op, "by"), &s(op, "coll"), m, vec![])?;
            }
            "icsin" => {
                let (u, m) = (self.addr(&s(op, "user")), self.addr(&s(op, "to")));
                let hook = match op["form"].as_str().unwrap_or("") {
                    "stake" => b64(&json!({"stake": {"user": u, "membership_contract": m}})),
                    "noisy" => b64(&json!({"stake": {"user": u, "membership_contract": m, "amount": "1"}})),
                    "claim" => b64(&json!({"add_claim": {"user": u, "release_at": {"height": "1"}}})),
                    "other" => b64(&json!({"unstake": {"user": u, "membership_contract": m}})),
                    _ => "bm90IGpzb24=".into(),
                };
                let c = self.addr(&s(op, "coll"));
                let msg = json!({"ics721_receive_callback": {"nft_contract": c, "original_packet": {"classId": "cls1", "classUri": null, "classData": null,
                    "tokenIds": op["ids"], "tokenUris": null, "tokenData": null, "sender": "stars1sender", "receiver": self.addr("icsproxy"), "memo": null}, "msg": hook}});
                self.exec_c(&s(op, "by"), "icsproxy", msg, vec![])?;
            }
            "xdeploy" => {
                let m = self.deploy_json(op);
                self.exec_c(&s(op, "by"), "out", json!({"deploy_cross_chain_treasury": m}), vec![])?;
                return Ok(json!({}));
            }
            "xexec" => {
                let m = json!({"msg": self.remote_msg(&op["a"]), "treasury_target": {"cross_chain_msg_spec": self.spec_json(&s(op, "chain"))}});
                self.exec_c(&s(op, "by"), "out", json!({"execute_cross_chain_treasury": m}), vec![])?;
                return Ok(json!({}));
            }
            "xreply" => {
                let who = s(op, "by");
                let by = match who.split_once('@') {
                    Some((gp, chan)) => {
                        let remote = if gp.starts_with('p') || gp.starts_with('t') { format!("juno1{gp}") } else { format!("juno1globalproxy{gp}") };
                        Self::hook_addr(&format!("channel-{chan}"), &remote, if s(op, "pre") == "juno" { "juno" } else { "terra" })
                    }
                    None => self.addr(&who),
                };
                let data = match s(op, "form").as_str() {
                    "good" => inst_data(&format!("juno1{}", s(op, "addr"))),
                    "none" => Value::Null,
                    _ => json!(Binary(b"\xff\xff".to_vec()).to_base64()),
                };
                let m = json!({"execute_msg_reply_callback": {"callback_id": op["id"], "events": [], "data": data}});
                let out = self.addr("out");
                self.exec_raw(&by, &out, &m, vec![])?;
                return Ok(json!({}));
            }
            "priv" => {
                let (by, m, to) = (s(op, "by"), s(op, "m"), self.addr(&s(op, "to")));
                if let Some(c) = m.strip_prefix("adm/") {
                    // the chain's own right to replace a contract's code
                    let c = self.addr(c);
                    let b = self.addr(&by);
                    self.app.execute(Addr::unchecked(b), WasmMsg::UpdateAdmin { contract_addr: c, admin: "someone".into() }.into())?;
                    return Ok(json!({}));
                }
                let (c, msg) = self.priv_msg(&m, &to);
                self.exec_c(&by, &c, msg, vec![])?;
                return Ok(json!({}));
            }
            "addver" => {
                let b = op["base"].as_u64().unwrap_or(0);
                let mut v = json!({"version": version(&op["v"]), "changelog": changelog(b)});
                for (i, c) in COMPS.iter().enumerate() {
                    v[format!("{c}_code_id")] = json!(b * 100 + i as u64 + 1);
                }
                self.exec_c(&s(op, "by"), "ver", json!({"add_version": {"version": v}}), vec![])?;
                return Ok(json!({}));
            }
            "editver" => {
                let b = op["base"].as_u64().unwrap_or(0);
                let mut m = json!({"version": version(&op["v"])});
                let fs = arr(&op["f"]);
                if fs.contains(&json!("log")) {
                    m["changelog"] = changelog(b);
                }
                for (i, c) in COMPS.iter().enumerate() {
                    if fs.contains(&json!(c)) {
                        m[format!("{c}_code_id")] = json!(b * 100 + i as u64 + 1);
                    }
                }
                self.exec_c(&s(op, "by"), "ver", json!({"edit_version": m}), vec![])?;
                return Ok(json!({}));
            }
            "veradmin" => {
                let to = self.addr(&s(op, "to"));
                self.exec_c(&s(op, "by"), "ver", json!({"update_admin": {"new_admin": to}}), vec![])?;
                return Ok(json!({}));
            }
            _ => { eprintln!("HARNESS: unknown op {x}"); std::process::exit(2) }
        }
        Ok(json!({}))
    }
}
