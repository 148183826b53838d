#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
GC='contracts/enterprise-governance-controller/src/contract.rs'
GV='contracts/enterprise-governance-controller/src/validate.rs'
PE='packages/poll-engine/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))

p('G01','A vote is decided by quorum, threshold and veto over the weight available',
 "When a proposal is resolved, it passes exactly if the weight that voted (abstentions included) over all available weight reaches its quorum, veto votes over non-abstaining weight stay below the veto threshold (or the ordinary threshold if none is set), and yes votes over non-abstaining weight reach the threshold while outnumbering no votes. A tie of yes and no at the threshold, a veto, a no-majority, a missed quorum or a missed threshold all reject it, with comparisons inclusive at the exact boundary.",
 ['inputs','configurations'],'every combination of yes/no/abstain/veto weight, available weight, quorum, threshold and veto threshold',
 'the poll-engine tests sample a dozen tallies; boundary equality, abstain-only, zero-vote and veto/threshold interaction are a product space they do not reach',
 [PE+'state.rs',PE+'execute.rs',GC],[('final_status / most_voted_over_threshold / quorum_reached',PE+'state.rs'),('end_proposal',GC)])
p('G02','Tallies count every voter once, with their present weight and latest choice',
 "While a vote is open, each option's tally equals the sum over voters whose latest choice is that option of that voter's present membership weight, whatever sequence of voting, re-voting and weight changes led there. Once voting has closed or the proposal has been resolved, no later vote or weight change alters any tally or recorded vote.",
 ['histories','schedules'],'every interleaving of votes, re-votes, stakes, unstakes, membership edits, several open proposals and closings',
 'tests cast a few votes against a mocked poll; they never interleave weight changes with several polls or cross the closing instant',
 [PE+'execute.rs','contracts/enterprise-governance/src/contract.rs',GC],[('cast_vote replaces previous vote',PE+'execute.rs'),('update_votes on weight change','contracts/enterprise-governance/src/contract.rs'),('weights_changed',GC)])
p('G03','Only entitled members can vote, and only while voting is open',
 "A general vote is accepted exactly when the caller is an unrestricted member with positive weight, the proposal exists, is of the general kind, is unresolved and its voting window (from creation inclusive to its end exclusive) contains the present time; a rejected vote changes nothing.",
 ['histories','inputs','schedules'],'every caller, proposal, choice and time, in every reachable DAO state and DAO type',
 'tests exercise poll-engine time checks on fixed values, never the whole entitlement rule through the DAO',
 [GC,PE+'validate.rs'],[('cast_vote entitlement checks',GC),('validate_within_voting_period',PE+'validate.rs')])
p('G04','A proposal is resolved at most once and never too early',
 "Resolving a proposal succeeds at most once over its lifetime, for passed and rejected outcomes alike. It succeeds only after voting has ended or, where early resolution is allowed, once quorum is reached with a decisive outcome and the grace delay (a tenth of the voting duration after the last vote that changed the would-be outcome, capped at the voting end, waived for multisig DAOs and council proposals) has elapsed; after the voting end it always succeeds while any weight was available.",
 ['histories','schedules'],'every history of votes, weight changes, clock advances and repeated resolution attempts',
 'no test drives the resolution path at all; the delay depends on the order and time of every vote',
 [GC,PE+'validate.rs'],[('executed_at guard, earliest_execution',GC),('validate_can_end_early',PE+'validate.rs')])
p('G05','A passed proposal applies all of its actions or none of them',
 "When a proposal passes, its actions take effect exactly as proposed and in full, each on the component it concerns, or, if any action fails, none of them has any effect. In both cases the proposal counts as executed and its deposit is released; actions of proposals that did not pass never take effect.",
 ['fault_sequences','histories'],'every action batch, every failing position in the batch, and every DAO state at execution time',
 'tests never execute proposal actions, let alone with a failure in the middle of a batch',
 [GC],[('reply_always sub-message for the batch',GC),('execute_proposal_actions_submsgs',GC)])
p('G06','Proposal deposits are held in full and go to exactly one right recipient',
 "A proposal's deposit stays in the governance custody untouched until the proposal is resolved, and is then transferred exactly once and in full: to the treasury if the proposal was vetoed or missed quorum, and otherwise to the named deposit owner (the proposer by default). One proposal's deposit is never used for another's.",
 ['histories','inputs'],'every number of concurrent proposals with native, token or NFT deposits, deposit owners and outcomes',
 'deposits have no test at all; custody is a sum over all open proposals',
 [GC],[('return_proposal_deposit_submsgs / send_proposal_deposit_to',GC),('resolve_ended_proposal',GC)])
p('G07','Proposals are admitted exactly under the DAO\'s entry rules',
 "A general proposal is created exactly when its proposer is unrestricted, holds weight (if no minimum deposit is set) or posts at least the minimum deposit in the DAO's own asset, and its actions are at most ten and individually valid for that DAO. Proposals get consecutive identifiers from one, start at creation and end exactly one voting duration later under the rules in force at creation, and a refused creation takes no deposit.",
 ['inputs','configurations','histories'],'every proposer, deposit, action list, DAO type and configuration',
 'validation tests do not exist for the controller; admission depends on membership state, config and action content together',
 [GC,GV],[('assert_sufficient_deposit_or_member',GC),('validate_proposal_actions',GV),('create_poll',GC)])
p('G08','The council can do only what the DAO allowed it to do',
 "Council proposals can be created and voted on only by present council members, only while a council exists, and only with action kinds the DAO put on the council's list, which can never include moving funds, changing governance, council or membership, or running arbitrary messages. They are decided by the council's own quorum and threshold over council seats with one seat one vote, independently of ordinary membership weight.",
 ['histories','inputs','configurations'],'every council composition, change of council, action list, caller and voting history',
 'no test creates a council proposal',
 [GC,GV,'packages/multisig-membership-impl/src/execute.rs'],[('create_council_proposal / cast_council_vote',GC),('validate_allowed_council_proposal_types',GV)])
p('G09','Reported proposal status and totals agree with what resolving would do',
 "At every moment the reported status of a proposal (in progress, executable early, passed, rejected, executed), its tallies, recorded votes, end time and available weight agree with the votes cast and with what a resolution attempt at that moment would do. Listing proposals or votes page by page returns each matching item exactly once, in order.",
 ['histories','schedules'],'every reachable history and clock value; every page size and filter',
 'status derivation mixes time, config and historical weight; tests never query it',
 [GC,PE+'query.rs'],[('fix_poll_status / determine_final_status_of_ended_poll',GC),('query_polls, query_poll_voters',PE+'query.rs')])
p('G10','The governance configuration always stays well-formed',
 "In every reachable state quorum, threshold and veto threshold lie in (0,1], the voting duration is positive, multisig DAOs have no minimum deposit, and an unlocking period that is set by time is never set below the voting duration. Creations and changes that would break this are refused without effect, and an accepted change alters exactly the fields it names and does not affect proposals already created.",
 ['inputs','histories','configurations'],'every creation and every sequence of partial configuration changes, for every DAO type',
 'tests never run config changes; validity depends on combination of new and retained fields',
 [GV,GC],[('validate_dao_gov_config / apply_gov_config_changes / validate_unlocking_period',GV)])
p('G11','Proposal actions reach exactly the component and target they name',
 "Each kind of proposal action changes only what it describes: funding and treasury messages act on this DAO's treasury or, when a remote chain is named, are only sent towards that chain's treasury; metadata, upgrade, membership, whitelist, council, reward and configuration actions change only their own subject. Everything else in the DAO stays as it was.",
 ['inputs','histories'],'every action kind, parameter, target and DAO type',
 'no test executes any proposal action',
 [GC],[('execute_proposal_actions_submsgs and per-action routing',GC)])

p('M01','Staked weight equals assets held: nothing is lost, created or misattributed',
 "In token, denom and NFT DAOs each user's weight always equals what was staked for them minus what they unstaked, the total weight equals the sum over users, and the staking contract holds exactly the staked assets plus the unreleased and unclaimed ones. Only the DAO's own asset can be staked, and only the staker can unstake, never more than their stake.",
 ['histories','inputs'],'every sequence of stakes (for self or others), unstakes and claims by any users with any amounts',
 'membership contracts have no tests beyond trivial ones; conservation is a sum over the whole history',
 ['packages/denom-staking-impl/src/execute.rs','packages/token-staking-impl/src/execute.rs','packages/nft-staking-impl/src/execute.rs','packages/membership-common/src/member_weights.rs','packages/membership-common/src/total_weight.rs'],[('increment/decrement member and total weight','packages/membership-common/src')])
p('M02','Unstaked assets are released once, to their owner, not before the period ends',
 "Every unstake creates a claim for exactly the unstaked assets that becomes releasable exactly when the unlocking period in force at the time of unstaking (in blocks or time) has passed. Claiming pays the caller all of their own releasable claims exactly once and nothing else, and the reported open and releasable claims always match.",
 ['histories','schedules'],'every sequence of unstakes, period changes, clock advances and claims by any users',
 'no test crosses the release instant or changes the period while claims are pending',
 ['packages/denom-staking-impl/src/claims.rs','packages/token-staking-impl/src/claims.rs','packages/nft-staking-impl/src/claims.rs'],[('add_claim / is_releasable / claim','packages/*-staking-impl/src')])
p('M03','An NFT backs at most one stake and only its staker can get it back',
 "At every moment each NFT held by the staking contract is either staked by exactly one user or part of exactly one pending claim, a user's weight equals the number of NFTs they have staked, and an NFT leaves custody only to the user who unstaked it. Unstaking a set of NFTs succeeds only if the caller has staked every one of them, each named once.",
 ['histories','inputs'],'every sequence of staking, unstaking with arbitrary token lists (duplicates, foreign, unknown) and claiming',
 'no test of NFT staking with more than one user',
 ['packages/nft-staking-impl/src/execute.rs','packages/nft-staking-impl/src/nft_staking.rs'],[('NFT_STAKES ownership check','packages/nft-staking-impl/src/execute.rs')])
p('M04','Multisig membership is exactly what governance last set',
 "The weight of every multisig (or council) member equals what the last accepted edit or replacement gave them, with members not named keeping their weight on edits and losing it on replacements, and the total is their sum. Only the DAO's own governance can change it, and lists naming a user twice are refused or counted once, never double counted.",
 ['histories','inputs'],'every sequence of edits and replacements with arbitrary member lists',
 'no test applies successive edits and checks totals',
 ['packages/multisig-membership-impl/src/execute.rs','packages/multisig-membership-impl/src/validate.rs'],[('update_members / set_members / dedup_user_weights','packages/multisig-membership-impl/src')])
p('M05','Total weight can be asked for any past moment and is the one that held then',
 "The total membership weight reported for a past block or time equals the total that held at the start of that block, or of that whole second, regardless of later changes, and proposals that have ended are always judged by the total as of their end (in whole seconds). A membership contract that is given the past totals of its predecessor at its creation reports those for the moments before it existed.",
 ['histories','schedules'],'every history of weight changes and every past moment, including several changes in one block',
 'tests never query historical totals',
 ['packages/membership-common/src/total_weight.rs',GC],[('SnapshotItem by height and seconds','packages/membership-common/src/total_weight.rs')])
p('M06','Every weight change reaches open votes and reward weights at once',
 "After any change of membership, the weight a member has in the membership, in all of their votes that are still open and in reward distribution is the same, in the very transaction that changed it, and the change either happens everywhere or nowhere.",
 ['histories','fault_sequences'],'every weight-changing operation, for any number of affected users and open proposals',
 'tests cover contracts in isolation; propagation spans four contracts',
 ['packages/membership-common/src/weight_change_hooks.rs',GC,'contracts/funds-distributor/src/user_weights.rs'],[('report_weight_change_submsgs / weights_changed',GC)])
p('M08','Whoever asked to be told of weight changes is told of every one',
 "From the moment the DAO's governance registers a listener with its membership or council contract until it removes it, every change of anybody's weight in that contract is reported to the listener in the transaction that makes it, with the user's weight before and after; nobody else is told. A change that a registered listener cannot be told of does not happen. Only the DAO's governance registers and removes listeners.",
 ['histories','fault_sequences'],'every kind of membership, every weight-changing operation (also of several users at once, or of one user several times), any set of listeners, listeners that fail',
 'tests never register a listener',
 ['packages/membership-common/src/weight_change_hooks.rs','packages/token-staking-impl/src/execute.rs','packages/nft-staking-impl/src/execute.rs','packages/denom-staking-impl/src/execute.rs','packages/multisig-membership-impl/src/execute.rs'],[('report_weight_change_submsgs and its callers','packages/*-impl/src/execute.rs')])
p('M07','Members can be listed completely and in a stable order',
 "Listing members, staked NFTs or a user's staked NFTs page by page returns every entry exactly once with its present value, for every page size, and never an entry that does not exist.",
 ['inputs','histories'],'every membership state and every page size / starting point',
 'no pagination tests for memberships',
 ['packages/denom-staking-impl/src/query.rs','packages/token-staking-impl/src/query.rs','packages/nft-staking-impl/src/query.rs','packages/multisig-membership-impl/src/query.rs'],[('query_members and list queries','packages/*-impl/src/query.rs')])

p('R01','Each distribution is split in proportion to weight at that moment',
 "Every distribution of an asset credits each user the distributed amount times their eligible weight over the total eligible weight at that moment, up to rounding down by at most one unit per settlement (for total weights up to 10^18 base units), and users who join or gain weight later gain nothing from it. A user's credited reward never decreases except by their own claim.",
 ['histories','inputs'],'every interleaving of distributions of several assets, weight changes, minimum changes and claims',
 'the distributor tests follow a few fixed histories with one or two users',
 ['contracts/funds-distributor/src/distributing.rs','contracts/funds-distributor/src/rewards.rs','contracts/funds-distributor/src/user_weights.rs'],[('global index / user index','contracts/funds-distributor/src')])
p('R02','Rewards are paid once, to their owner, and are always covered',
 "A reward claim pays the caller exactly their credited unclaimed reward for each asset they name, however often an asset is named, and resets it to zero; nobody can claim for someone else. The distributor's holdings of every asset always cover the sum of all unclaimed rewards, so that no order of claims can make a later claim fail.",
 ['histories','schedules'],'every order of claims by all users after any history of distributions and weight changes',
 'tests never sum obligations against holdings',
 ['contracts/funds-distributor/src/claim.rs','contracts/funds-distributor/src/native_distributions.rs','contracts/funds-distributor/src/cw20_distributions.rs'],[('claim_rewards','contracts/funds-distributor/src/claim.rs')])
p('R03','Only users at or above the minimum weight share in rewards',
 "A user takes part in a distribution exactly if their weight at that moment is at least the minimum in force at that moment; changing the minimum neither adds to nor takes from rewards of earlier distributions, whatever weights and minimum changes came before.",
 ['histories','inputs'],'every sequence of minimum changes, weight changes and distributions',
 'tests try a handful of minimum changes with fixed weights',
 ['contracts/funds-distributor/src/eligibility.rs','contracts/funds-distributor/src/user_weights.rs'],[('update_minimum_eligible_weight','contracts/funds-distributor/src/eligibility.rs')])
p('R04','Only whitelisted assets can be distributed, and never to nobody',
 "A distribution is accepted exactly when each asset in it is on the DAO's or the global whitelist, however long the lists are, and some eligible weight exists; otherwise it is refused and no funds move.",
 ['inputs','configurations'],'every whitelist content and length, asset kind and sender',
 'whitelist tests use a single page of assets',
 ['contracts/funds-distributor/src/distributing.rs','contracts/enterprise-treasury/src/contract.rs'],[('assert_assets_whitelisted','contracts/funds-distributor/src/distributing.rs')])

p('T01','Treasury funds move only by governance and exactly as instructed',
 "No asset leaves the treasury except by an instruction of its present administrator, and each such spend, distribution or message moves exactly the named amounts to the named recipients, or, if any part cannot be carried out, nothing at all.",
 ['histories','inputs','fault_sequences'],'every caller, every spend list (native, token), every balance, every change of administrator',
 'treasury has no tests',
 ['contracts/enterprise-treasury/src/contract.rs'],[('admin_only; spend; distribute_funds; execute_cosmos_msgs','contracts/enterprise-treasury/src/contract.rs')])
p('T02','Whitelists contain exactly what was added and not removed',
 "After any sequence of whitelist updates the asset and NFT whitelists contain exactly the entries added and not removed since, each once, and paging through them with any page size from the start or from any entry returns each remaining entry exactly once, native assets before tokens; multi-token (cw1155) assets are never admitted.",
 ['histories','inputs'],'every sequence of additions and removals (duplicates, absent entries, all asset kinds) and every page size',
 'no tests on whitelists',
 ['contracts/enterprise-treasury/src/asset_whitelist.rs','contracts/enterprise-treasury/src/nft_whitelist.rs','contracts/enterprise-treasury/src/contract.rs'],[('add/remove whitelisted assets, paginated queries','contracts/enterprise-treasury/src/asset_whitelist.rs')])
p('T03','Migrating an old DAO moves every stake and claim exactly once',
 "However a legacy DAO's migration is split into steps and whoever triggers them, each legacy stake and pending claim is transferred to the membership contract exactly once with its owner, amount or tokens and release time, until none is left; further steps then change nothing. During the migration a user's legacy weight stays fully accounted for.",
 ['histories','crash_points','inputs'],'every legacy state and every split of the migration into steps of any size',
 'no tests of the migration path',
 ['contracts/enterprise-treasury/src/migration.rs','packages/token-staking-impl/src/execute.rs','packages/nft-staking-impl/src/execute.rs'],[('perform_next_migration_step','contracts/enterprise-treasury/src/migration.rs')])

p('E01','A DAO with an attestation shuts out users who have not signed it',
 "While an attestation is in force, a user who has not signed that very attestation cannot create or execute proposals, vote, receive stake or claim rewards, and can do all of these exactly as before once they sign or the attestation is removed; unstaking and claiming unstaked assets is never blocked. Nobody can sign for someone else, and a new attestation requires new signatures.",
 ['histories','inputs'],'every sequence of setting, replacing, removing and signing attestations with every gated operation',
 'no test of gated operations',
 ['contracts/enterprise/src/contract.rs','contracts/attestation/src/contract.rs',GC,'contracts/funds-distributor/src/claim.rs'],[('is_restricted_user','contracts/enterprise/src/contract.rs')])
p('E02','A DAO upgrades only forward, through every version in between',
 "An upgrade is accepted only from the DAO's governance and only to a version higher than the present one, and it migrates the DAO through every registered version above the present up to the target, in ascending order, each with the message supplied for that version or the default one. Afterwards the DAO reports the target version, and a failing migration step leaves the DAO on its old version and code.",
 ['inputs','configurations','fault_sequences'],'every registry content, present version, target and set of migration messages',
 'no test of upgrades',
 ['contracts/enterprise/src/contract.rs','contracts/enterprise-versioning/src/contract.rs'],[('upgrade_dao','contracts/enterprise/src/contract.rs')])
p('E03','The version registry is append-only by its admin, ordered and complete',
 "Versions can be added or edited only by the registry's present administrator, an existing version is never replaced by adding it again, and an edit changes exactly the fields it names. Looking up a version, the latest version or pages of versions always agrees with this content in version order.",
 ['histories','inputs'],'every sequence of additions in any order, edits, admin changes and every page size',
 'no tests on the registry',
 ['contracts/enterprise-versioning/src/contract.rs'],[('add_version / edit_version / query_versions','contracts/enterprise-versioning/src/contract.rs')])
p('E04','DAO identity and metadata change only through governance, field by field',
 "A DAO's type, creation date and component contracts never change after creation (other than replacing or removing its attestation), and its metadata and configuration change only by its own governance, each update altering exactly the named fields and leaving all others as they were.",
 ['histories','inputs'],'every sequence of metadata and configuration updates with every subset of fields, by every caller',
 'no tests of enterprise updates',
 ['contracts/enterprise/src/contract.rs'],[('update_metadata / update_config / finalize_instantiation','contracts/enterprise/src/contract.rs')])
p('E05','Privileged operations are open only to the party entitled to them',
 "Every operation reserved for a particular party (governance, a DAO component, the administrator, the asset contract or the contract itself) is refused without effect for every other caller, including other components of the same DAO and components of other DAOs, and accepted from the entitled one.",
 ['inputs','configurations'],'every message of every contract, from every caller role, for every DAO type',
 'tests check a few unauthorized calls on a few contracts',
 ['contracts/*/src/contract.rs','packages/membership-common/src/validate.rs'],[('sender checks','contracts/*/src')])

p('F01','Creating a DAO yields a complete, correctly wired DAO or nothing at all',
 "A successful creation yields a DAO whose components all refer to each other, are administered by that DAO (the immutable attestation text excepted), run the code of the version asked for (the latest by default) and is registered under the next consecutive number; a failed creation leaves no trace. Creating one DAO never affects another.",
 ['inputs','configurations','histories'],'every DAO type, membership source, option combination, version choice and sequence of creations and failures',
 'factory tests cover config only; creation spans a dozen replies',
 ['contracts/enterprise-factory/src/contract.rs'],[('create_dao and its replies','contracts/enterprise-factory/src/contract.rs')])
p('F02','A new DAO has exactly the members, rules and assets that were asked for',
 "Right after creation the members, weights, reward weights, council, governance rules, minimum reward weight, whitelists, token balances, treasury balance and attestation equal what the creation request named and nothing more, and requests that are invalid for the kind of membership are refused.",
 ['inputs','configurations'],'every creation request: all membership kinds, duplicate or empty members, zero amounts, imports',
 'no test creates a DAO end to end',
 ['contracts/enterprise-factory/src/contract.rs','contracts/enterprise-factory/src/multisig_membership.rs','contracts/enterprise-factory/src/token_membership.rs','contracts/enterprise-factory/src/nft_membership.rs','contracts/enterprise-factory/src/denom_membership.rs','contracts/enterprise-factory/src/validate.rs'],[('membership instantiation per kind','contracts/enterprise-factory/src')])

p('X01','A DAO has at most one proxy and one treasury per remote chain',
 "Only the DAO's governance can start a remote deployment or send instructions to a remote treasury. For each chain at most one proxy and one treasury is ever recorded, a treasury is requested only once that chain's proxy is recorded and is administered by it, instructions go only to that chain's recorded proxy and treasury, and without them they are refused.",
 ['histories','inputs'],'every sequence of deployments, callbacks (in any order, repeated, from several chains) and remote instructions',
 'outposts have no tests',
 ['contracts/enterprise-outposts/src/contract.rs','contracts/enterprise-outposts/src/state.rs'],[('deploy_cross_chain_treasury / execute_cross_chain_treasury','contracts/enterprise-outposts/src/contract.rs')])
p('X02','Remote replies are believed once, from the right sender only',
 "A reply from a remote chain is accepted only if it comes from the expected relay identity for the channel and proxy the request was sent to, and each outstanding request can be answered at most once; any other reply is refused without effect.",
 ['histories','inputs','fault_sequences'],'every order, repetition, forgery and loss of replies over any number of outstanding requests',
 'no tests of callbacks',
 ['contracts/enterprise-outposts/src/contract.rs','contracts/enterprise-outposts/src/ibc_hooks.rs'],[('execute_msg_reply_callback','contracts/enterprise-outposts/src/contract.rs')])
p('X03','NFTs bridged in with a stake request are staked for the named user only',
 "An incoming bridged transfer is honoured only from the configured bridge, and then stakes exactly the transferred tokens for the user named in its request in the named membership; other requests have no effect. Bridged collections become stakeable only once the bridge knows their local contract, and from then on only that contract's tokens are accepted.",
 ['inputs','histories'],'every caller, packet and hook message; before and after the collection arrives',
 'no tests of the callback proxy',
 ['packages/ics721-callback-proxy-impl/src','packages/nft-staking-impl/src/execute.rs'],[('ics721_receive_callback','packages/ics721-callback-proxy-impl/src'),('receive_nft','packages/nft-staking-impl/src/execute.rs')])
p('V01','The facade shows and builds exactly what the DAO itself would',
 "For every DAO of the present multi-contract architecture, looked up by either of its public addresses, every facade query returns the same information as asking the DAO's own contracts directly, and every operation the facade prepares, when submitted, has exactly the effect of the direct operation.",
 ['histories','inputs','configurations'],'every query and prepared operation in every reachable state of every DAO type',
 'facade tests do not exist for current DAOs',
 ['contracts/enterprise-facade/src/contract.rs','contracts/enterprise-facade-v2/src/facade_v2.rs'],[('get_facade and v2 adapters','contracts/enterprise-facade-v2/src/facade_v2.rs')])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
