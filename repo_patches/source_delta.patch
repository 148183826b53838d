From 6dea80e9e82e8435ae4a3dac8a4186f0d4d85f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 1/5] fix: report weight loss of members removed when the
 multisig member list is replaced

Replacing the member list cleared the weights of members that are not in the
new list without reporting it to the weight change hooks, so their votes on
open proposals and their reward weights stayed in place.
---
 packages/multisig-membership-impl/src/execute.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..387db16 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -54,7 +54,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
 
     let old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -77,6 +77,17 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // members that were not given a new weight have lost theirs
+    for (member, old_weight) in old_member_weights {
+        if !MEMBER_WEIGHTS.has(ctx.deps.storage, member.clone()) {
+            weight_changes.push(UserWeightChange {
+                user: member.to_string(),
+                old_weight,
+                new_weight: Uint128::zero(),
+            });
+        }
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


From 9303f695a9e361bcf60d39a31b25950055f507ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 2/5] fix: report proposals tied at the threshold as executable
 early

Executing such a proposal early is accepted (it is rejected as a draw), but
its status was reported as merely in progress.
---
 contracts/enterprise-governance-controller/src/contract.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/enterprise-governance-controller/src/contract.rs b/contracts/enterprise-governance-controller/src/contract.rs
index 5586591..e07c6ea 100644
--- a/contracts/enterprise-governance-controller/src/contract.rs
+++ b/contracts/enterprise-governance-controller/src/contract.rs
@@ -94,7 +94,7 @@ use token_staking_api::api::TokenConfigResponse;
 use token_staking_api::msg::QueryMsg::TokenConfig;
 use DaoType::{Denom, Multisig, Nft, Token};
 use Expiration::{AtHeight, AtTime};
-use PollRejectionReason::{IsRejectingOutcome, IsVetoOutcome, QuorumNotReached};
+use PollRejectionReason::{IsRejectingOutcome, IsVetoOutcome, OutcomeDraw, QuorumNotReached};
 use ProposalAction::{DeployCrossChainTreasury, ExecuteTreasuryMsgs};
 
 // version info for migration info
@@ -1797,7 +1797,7 @@ fn fix_poll_status(
                             PollStatus::InProgress { .. } => ProposalStatus::InProgress,
                             PollStatus::Passed { .. } => ProposalStatus::InProgressCanExecuteEarly,
                             PollStatus::Rejected { reason } => match reason {
-                                IsRejectingOutcome | IsVetoOutcome => {
+                                IsRejectingOutcome | IsVetoOutcome | OutcomeDraw(..) => {
                                     ProposalStatus::InProgressCanExecuteEarly
                                 }
                                 _ => ProposalStatus::InProgress,
-- 
2.43.0


From 48314b8dd6a1f77aad8df16125eb0bbf3a14c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 3/5] fix: do not give council members initial reward weights

The council membership is instantiated with the same helper as a multisig
membership, which stored the council's seats as the DAO's initial weights. In
DAOs that are not multisigs they ended up in the funds distributor.
---
 .../src/multisig_membership.rs                  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..6a6c438 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,16 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only the DAO's own members have initial reward weights, not its council
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From 65d06fe0b274bc89c14a1750923d9a221039a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:18 +0000
Subject: [PATCH 4/5] fix: keep council votes independent of membership weight

A change of a user's membership weight re-cast all of their open votes with the
new weight, including votes on council proposals, which count council seats.
---
 .../src/contract.rs                           | 35 ++++++++++++++++++-
 .../enterprise-governance/src/contract.rs     |  4 +++
 packages/poll-engine-api/src/api.rs           |  3 ++
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/contracts/enterprise-governance-controller/src/contract.rs b/contracts/enterprise-governance-controller/src/contract.rs
index e07c6ea..f8f7d11 100644
--- a/contracts/enterprise-governance-controller/src/contract.rs
+++ b/contracts/enterprise-governance-controller/src/contract.rs
@@ -85,7 +85,7 @@ use poll_engine_api::api::{
     CastVoteParams, CreatePollParams, EndPollParams, Poll, PollId, PollParams, PollRejectionReason,
     PollResponse, PollStatus, PollStatusFilter, PollStatusResponse, PollVoterParams,
     PollVoterResponse, PollVotersParams, PollVotersResponse, PollsParams, PollsResponse,
-    UpdateVotesParams, VotingScheme,
+    UpdateVotesParams, VoterParams, VoterResponse, VotingScheme,
 };
 use poll_engine_api::error::PollError::PollInProgress;
 use std::cmp::min;
@@ -1348,6 +1348,11 @@ pub fn update_user_votes(
             &UpdateVotes(UpdateVotesParams {
                 voter: user_weight_change.user.clone(),
                 new_amount: user_weight_change.new_weight,
+                excluded_polls: query_council_polls_voted_on(
+                    deps,
+                    governance_contract.to_string(),
+                    user_weight_change.user.clone(),
+                )?,
             }),
             vec![],
         )?));
@@ -1356,6 +1361,34 @@ pub fn update_user_votes(
     Ok(update_votes_submsgs)
 }
 
+/// Council proposals that the user has voted on. Those votes count council seats, so they do not
+/// follow the user's membership weight.
+fn query_council_polls_voted_on(
+    deps: Deps,
+    governance_contract: String,
+    user: String,
+) -> GovernanceControllerResult<Vec<PollId>> {
+    let response: VoterResponse = deps.querier.query_wasm_smart(
+        governance_contract,
+        &enterprise_governance_api::msg::QueryMsg::Voter(VoterParams {
+            voter_addr: user,
+            start_after: None,
+            limit: None,
+        }),
+    )?;
+
+    let mut council_polls: Vec<PollId> = vec![];
+
+    for vote in response.votes {
+        let proposal_info = PROPOSAL_INFOS.may_load(deps.storage, vote.poll_id)?;
+        if proposal_info.is_some_and(|info| info.proposal_type == Council) {
+            council_polls.push(vote.poll_id);
+        }
+    }
+
+    Ok(council_polls)
+}
+
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> GovernanceControllerResult<Response> {
     match msg.id {
diff --git a/contracts/enterprise-governance/src/contract.rs b/contracts/enterprise-governance/src/contract.rs
index 18e60d0..afe96d0 100644
--- a/contracts/enterprise-governance/src/contract.rs
+++ b/contracts/enterprise-governance/src/contract.rs
@@ -87,6 +87,10 @@ fn update_votes(ctx: &mut Context, params: UpdateVotesParams) -> PollResult<Resp
     let votes = query_voter(&qctx, &params.voter, None, None)?;
 
     for vote in votes.votes {
+        if params.excluded_polls.contains(&vote.poll_id) {
+            continue;
+        }
+
         let qctx = QueryContext::from(ctx.deps.as_ref(), ctx.env.clone());
         let status = query_poll_status(&qctx, vote.poll_id)?;
         if let PollStatus::InProgress { ends_at } = status.status {
diff --git a/packages/poll-engine-api/src/api.rs b/packages/poll-engine-api/src/api.rs
index 6a8127a..67dc940 100644
--- a/packages/poll-engine-api/src/api.rs
+++ b/packages/poll-engine-api/src/api.rs
@@ -154,6 +154,9 @@ pub struct UpdateVotesParams {
     pub voter: String,
     /// New number of user's available votes.
     pub new_amount: Uint128,
+    /// Polls whose votes do not depend on the changed weight and are left as they are.
+    #[serde(default)]
+    pub excluded_polls: Vec<PollId>,
 }
 
 #[cw_serde]
-- 
2.43.0


From 20a8229e2007ee36f68d1a83630be54d7fd22864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 5/5] fix: facade lists all members of councils larger than one
 page

---
 .../enterprise-facade-v2/src/facade_v2.rs     | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/contracts/enterprise-facade-v2/src/facade_v2.rs b/contracts/enterprise-facade-v2/src/facade_v2.rs
index 8174188..3b4d825 100644
--- a/contracts/enterprise-facade-v2/src/facade_v2.rs
+++ b/contracts/enterprise-facade-v2/src/facade_v2.rs
@@ -138,18 +138,21 @@ impl EnterpriseFacade for EnterpriseFacadeV2 {
             }
         };
 
-        let council_members_response: MembersResponse = qctx.deps.querier.query_wasm_smart(
-            gov_config.dao_council_membership_contract.to_string(),
-            &Members(MembersParams {
-                start_after: None,
-                limit: Some(1000u32),
-            }),
-        )?;
-        let council_members = council_members_response
-            .members
-            .into_iter()
-            .map(|user_weight| user_weight.user)
-            .collect();
+        // a single page of members is capped by the membership contract, so go through all the pages
+        let mut council_members: Vec<Addr> = vec![];
+        loop {
+            let page: MembersResponse = qctx.deps.querier.query_wasm_smart(
+                gov_config.dao_council_membership_contract.to_string(),
+                &Members(MembersParams {
+                    start_after: council_members.last().map(|member| member.to_string()),
+                    limit: Some(1000u32),
+                }),
+            )?;
+            if page.members.is_empty() {
+                break;
+            }
+            council_members.extend(page.members.into_iter().map(|member| member.user));
+        }
 
         let dao_council = gov_config.council_gov_config.map(|config| DaoCouncil {
             members: council_members,
-- 
2.43.0

