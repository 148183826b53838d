FD = 'contracts/funds-distributor/src/'
GC = 'contracts/enterprise-governance-controller/src/'
MEM2 = dict(dao={'u1': 8, 'u2': 8, 'u3': 8}, cash={'u1': 5000, 'u3': 5000})

seed('rejoin-backpay', 'R01', [(FD + 'user_weights.rs',
'''            Some(old_user_effective_weight) => {
                // the user already had''',
'''            Some(old_user_effective_weight) if old_user_effective_weight.is_zero() => {
                // a user without weight cannot have accrued anything
            }
            Some(old_user_effective_weight) => {
                // the user already had''')],
 cfg(bal=MEM2, white=['cash'], setup=[stake('u1', 4), stake('u2', 4)]),
 [unstake('u1', 4), dist('u3', 'cash', 840), stake('u1', 4), obs('rew', {'cash': {'u1': 0, 'u2': 840}}), obs('cover', {'cash': True}),
  claimrew('u2', ['cash']), obs('rew', {'cash': {'u1': 0, 'u2': 0}})],
 'a user leaves entirely, a distribution happens while they hold no weight, and they come back',
 'the returning user is credited from the distribution made while they had no weight')

seed('claim-twice-named', 'R02', [(FD + 'claim.rs',
'''    for denom in msg.native_denoms {
''', '''    let mut claimed: Vec<NativeDistribution> = vec![];

    for denom in msg.native_denoms {
'''), (FD + 'claim.rs', '''        NATIVE_DISTRIBUTIONS().save(
            ctx.deps.storage,
            (user.clone(), denom.clone()),
            &NativeDistribution {
                user: user.clone(),
                denom,
                user_index: global_index,
                pending_rewards: Uint128::zero(),
            },
        )?;
    }
''', '''        claimed.push(NativeDistribution {
            user: user.clone(),
            denom,
            user_index: global_index,
            pending_rewards: Uint128::zero(),
        });
    }

    for distribution in claimed {
        NATIVE_DISTRIBUTIONS().save(
            ctx.deps.storage,
            (user.clone(), distribution.denom.clone()),
            &distribution,
        )?;
    }
''')],
 cfg(bal=MEM2, white=['cash'], setup=[stake('u1', 4), stake('u2', 4)]),
 [dist('u3', 'cash', 1680), claimrew('u1', ['cash', 'cash']), obs('bal', {'cash': {'u1': 5840, 'dis': 840}}), claimrew('u2', ['cash'])],
 'a reward claim naming the same native asset twice',
 'the reward is paid once per mention, out of the other users\' money')

seed('minweight-unsettled', 'R03', [(FD + 'eligibility.rs',
'''        update_user_native_distributions(deps.branch(), user.clone(), old_effective_weight)?;
        update_user_cw20_distributions(deps.branch(), user.clone(), old_effective_weight)?;
''', '''        if !use_actual_weights {
            update_user_native_distributions(deps.branch(), user.clone(), old_effective_weight)?;
            update_user_cw20_distributions(deps.branch(), user.clone(), old_effective_weight)?;
        }
''')],
 cfg(bal=MEM2, white=['cash'], minw=3, setup=[stake('u1', 2), stake('u2', 4)]),
 [dist('u3', 'cash', 840), dict(op='minw', by='gc', w=1, want='ok'), obs('rew', {'cash': {'u1': 0, 'u2': 840}})],
 'a user below the minimum weight, a distribution, then the minimum is lowered below their weight',
 'the newly eligible user is credited from distributions made while they were not eligible')

seed('leaver-keeps-vote', 'G02', [('contracts/enterprise-governance/src/contract.rs',
'''            if ends_at > ctx.env.block.time {
                poll_engine''', '''            if ends_at > ctx.env.block.time && !params.new_amount.is_zero() {
                poll_engine''')],
 cfg(bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)], gov=dict(dur=3)),
 [propose('u1', [meta('x')]), vote('u1', 1, 0), unstake('u1', 4), q('gc', {'proposal': {'proposal_id': 1}}, '/results', [[0, '0']])],
 'a member votes and then unstakes everything while the vote is open',
 'the vote of somebody who holds no weight any more still counts with the old weight')

seed('nft-claims-index', 'M03', [('packages/nft-staking-impl/src/execute.rs',
'''                if stake.staker != user {
                    return Err(Unauthorized);
                } else {
                    NFT_STAKES().remove(ctx.deps.storage, token_id.to_string())?;
                }
            }
        }
    }
''', '''                if stake.staker != user {
                    return Err(Unauthorized);
                }
            }
        }
    }

    for token_id in &msg.nft_ids {
        NFT_STAKES().remove(ctx.deps.storage, token_id.to_string())?;
    }
''')],
 cfg(kind='nft', nft={'1': 'u1', '2': 'u1', '3': 'u2'}, setup=[dict(op='stakenft', by='u1', id='1', coll='nft', **{'for': 'u1'}), dict(op='stakenft', by='u1', id='2', coll='nft', **{'for': 'u1'}), dict(op='stakenft', by='u2', id='3', coll='nft', **{'for': 'u2'})]),
 [dict(op='unstake', by='u1', ids=['1', '1'], want='refused'), obs('w', {'u1': 2, 'u2': 1}), dict(op='unstake', by='u1', ids=['1', '2'], want='ok')],
 'an unstake request naming the same NFT twice',
 'one NFT is unstaked twice: the weight drops by two for one NFT, and the claim can never be paid')

seed('set-members-total', 'M04', [('packages/multisig-membership-impl/src/execute.rs',
'''    let mut total_weight = Uint128::zero();

    let mut weight_changes: Vec<UserWeightChange> = vec![];

    for (member, weight) in deduped_edit_members {
        total_weight += weight;

        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
''', '''    let mut total_weight = load_total_weight(ctx.deps.storage)?;

    let mut weight_changes: Vec<UserWeightChange> = vec![];

    for (member, weight) in deduped_edit_members {
        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();

        total_weight = total_weight - old_weight + weight;

''')],
 cfg(kind='multisig', members=[['u1', 2], ['u2', 3]], council=dict(on=True, members=['u1', 'u2'], q=50, thr=50, allowed=['update_metadata'])),
 [dict(op='setm', by='gc', c='cou', edits=[['u1', 1]], want='ok'), obs('cw', {'u1': 1, 'u2': 0}), obs('ctotal', 1)],
 'a replacement of a member list that leaves somebody out',
 'the weight of dropped members stays in the total')

seed('total-same-block', 'M05', [('packages/membership-common/src/total_weight.rs',
'''    TOTAL_WEIGHT_SECONDS_SNAPSHOT.save(store, amount, block.time.seconds())?;
''', '''    // only one entry per second is ever looked up
    if TOTAL_WEIGHT_SECONDS_SNAPSHOT.may_load(store)?.as_ref() != Some(amount) {
        TOTAL_WEIGHT_SECONDS_SNAPSHOT.save(store, amount, block.time.seconds() + 1)?;
    }
''')],
 cfg(bal=MEM2, setup=[stake('u1', 4)], hist=True),
 [tick(1), stake('u2', 4), tick(2), stake('u2', 1), tick(3), obs('hist', [4, 4, 8, 9])],
 'a past total asked for the very second of a later change',
 'the total at a time is one second late')

OUTS = 'contracts/enterprise-outposts/src/contract.rs'
FACT = 'contracts/enterprise-factory/src/contract.rs'

seed('deposit-with-actions', 'G06', [(GC + 'contract.rs',
'''            let mut submsgs = return_proposal_deposit_submsgs(ctx.deps.branch(), proposal_id)?;

            submsgs.insert(0, execute_proposal_actions_msg);

            submsgs
''', '''            // the deposit is returned together with the actions
            vec![execute_proposal_actions_msg]
'''), (GC + 'contract.rs',
'''    let submsgs: Vec<SubMsg> = execute_proposal_actions_submsgs(ctx, msg.proposal_id)?;
''', '''    let mut submsgs: Vec<SubMsg> = execute_proposal_actions_submsgs(ctx, msg.proposal_id)?;

    submsgs.append(&mut return_proposal_deposit_submsgs(
        ctx.deps.branch(),
        msg.proposal_id,
    )?);
''')],
 cfg(bal=dict(dao={'u1': 5, 'u3': 3}, cash={'tre': 5}), gov=dict(mindep=2), setup=[stake('u3', 3)]),
 [propose('u1', [dict(a='fund', to='u1', assets=[['cash', 9]], remote='')], via='native', dep=2), vote('u3', 1, 0), tick(2), execp('u3', 1),
  obs('bal', {'dao': {'u1': 5, 'gc': 0}, 'cash': {'tre': 5, 'u1': 0}})],
 'a proposal with a deposit passes and one of its actions fails',
 'the deposit stays in the governance controller for good when the actions of a passed proposal fail')

seed('unlock-vs-old-duration', 'G10', [(GC + 'contract.rs',
'''    let updated_gov_config = apply_gov_config_changes(gov_config, &msg);

    validate_dao_gov_config(&query_dao_type(ctx.deps.as_ref())?, &updated_gov_config)?;
''', '''    let updated_gov_config = apply_gov_config_changes(gov_config.clone(), &msg);

    validate_dao_gov_config(&query_dao_type(ctx.deps.as_ref())?, &updated_gov_config)?;
'''), (GC + 'contract.rs',
'''        validate_unlocking_period(updated_gov_config, new_unlocking_period)?;
''', '''        validate_unlocking_period(gov_config, new_unlocking_period)?;
''')],
 cfg(bal=MEM2, gov=dict(dur=2), ul=dict(k='time', n=4), setup=[stake('u1', 4)]),
 [propose('u1', [dict(a='gov', f=dict(dur=6, ul=dict(k='time', n=3)))]), vote('u1', 1, 0), tick(2), execp('u1', 1),
  obs('gov', dict(q=50, thr=50, veto=-1, dur=2, mindep=-1, early=False)), obs('ul', dict(k='time', n=4))],
 'one governance action that raises the voting duration and sets a time-based unlocking period between the old and the new duration',
 'the unlocking period ends up below the voting duration')

seed('first-turn-only', 'G04', [(GC + 'contract.rs',
'''                if new_executability_status != proposal_being_voted_on.executability_status {
''', '''                if new_executability_status != proposal_being_voted_on.executability_status
                    && proposal_info.earliest_execution.is_none()
                {
''')],
 cfg(bal=MEM2, gov=dict(q=30, dur=20, early=True), setup=[stake('u1', 4), stake('u2', 3)]),
 [propose('u1', [meta('x')]), vote('u1', 1, 0), tick(1), vote('u1', 1, 1), tick(2), execp('u2', 1, want='refused'), tick(3), execp('u2', 1)],
 'a vote whose outlook turns twice before the end, and an execution within the grace delay of the second turn',
 'the grace delay is counted from the first turn only, so a proposal can be resolved right after its outcome flips')

seed('council-edited-not-replaced', 'G08', [(GC + 'contract.rs',
'''        &SetMembers(SetMembersMsg { new_members }),
''', '''        &multisig_membership_api::msg::ExecuteMsg::UpdateMembers(
            multisig_membership_api::api::UpdateMembersMsg {
                update_members: new_members,
            },
        ),
''')],
 cfg(bal=MEM2, gov=dict(dur=1), council=dict(on=True, members=['u1', 'u2'], q=50, thr=50, allowed=['update_metadata']), setup=[stake('u1', 4)]),
 [propose('u1', [dict(a='council', c=dict(on=True, members=['u3'], q=50, thr=50, allowed=['update_metadata']))]), vote('u1', 1, 0), tick(1), execp('u1', 1),
  obs('cw', {'u1': 0, 'u2': 0, 'u3': 1}), dict(op='cpropose', by='u2', acts=[meta('y')], own='none', want='refused')],
 'the council is replaced by other members through a proposal',
 'former councillors keep their seats')

seed('claim-early-second', 'M02', [('packages/denom-staking-impl/src/claims.rs',
'''        ReleaseAt::Timestamp(timestamp) => block_info.time >= timestamp,
''', '''        ReleaseAt::Timestamp(timestamp) => block_info.time.seconds() >= timestamp.seconds(),
''')],
 cfg(bal=MEM2, half=True, gov=dict(dur=2), ul=dict(k='time', n=4), setup=[stake('u1', 4)]),
 [tick(1), unstake('u1', 2), tick(4), dict(op='claim', by='u1', user='self', want='any'), obs('bal', {'dao': {'u1': 4, 'mem': 4}}),
  tick(5), dict(op='claim', by='u1', user='self', want='ok'), obs('bal', {'dao': {'u1': 6, 'mem': 2}})],
 'a claim made within the same second as, but before, its time-based release',
 'a claim is paid before its unlocking period has passed')


seed('wrong-page-cursor', 'R04', [('contracts/funds-distributor/src/distributing.rs',
'''    let mut last_whitelist_asset = asset_whitelist_response.assets.last();
''', '''    let mut last_whitelist_asset = unified_asset_whitelist.last();
''')],
 cfg(bal=dict(dao={'u1': 2}, z={'u2': 8400}), gov=dict(dur=1), white=['b%d' % (100 + i) for i in range(1, 36)] + ['z'], gwhite=['zz'], setup=[stake('u1', 1)]),
 [dict(op='dist', by='u2', asset='z', amt=840, want='ok'), obs('rew', {'z': {'u1': 840}})],
 'a DAO whitelist longer than a page together with a global whitelist whose last entry sorts behind it',
 'an asset on the second page of the whitelist cannot be distributed although it is whitelisted')

seed('leftover-creation', 'F01', [(FACT,
'''    DAO_BEING_CREATED.save(
        deps.storage,
        &DaoBeingCreated {
            create_dao_msg: Some(msg.clone()),
''', '''    let existing = DAO_BEING_CREATED.may_load(deps.storage)?;

    DAO_BEING_CREATED.save(
        deps.storage,
        &DaoBeingCreated {
            create_dao_msg: Some(msg.clone()),
'''), (FACT,
'''            attestation_addr: None,
        },
    )?;

    let config = CONFIG.load(deps.storage)?;
''', '''            attestation_addr: existing.and_then(|existing| existing.attestation_addr),
        },
    )?;

    let config = CONFIG.load(deps.storage)?;
'''), (FACT,
'''            attestation_addr: None,
        },
    )?;

    let finalize_creation_submsg''', '''            attestation_addr: dao_being_created.attestation_addr.clone(),
        },
    )?;

    let finalize_creation_submsg''')],
 cfg(kind='none', bal=dict(luna={'fac': 2}, cash={'u1': 1000}, dao={'u1': 50, 'u2': 50}), gwhite=['cash'], gnftw=['nftx'], versions=[[[1, 2, 1], 1], [[1, 3, 0], 2]]),
 [dict(op='create', by='creator', v=[], want='ok', r=REQ(att='terms')), dict(op='create', by='creator', v=[], want='ok', r=REQ(name='B')),
  dict(op='fprop', i=2, by='u1', want='ok')],
 'a DAO with an attestation is created and then, later, one without',
 'the second DAO is governed by the first DAO\'s attestation')

seed('migrate-msg-by-minor', 'E02', [('contracts/enterprise/src/contract.rs',
'''        let msg = migrate_msgs_map.get(&version.version);
''', '''        // a message is meant for a release, whatever its patch number
        let msg = migrate_msgs_map
            .iter()
            .find(|(v, _)| (v.major, v.minor) == (version.version.major, version.version.minor))
            .map(|(_, msg)| msg);
''')],
 cfg(kind='multisig', members=[['u1', 1]], bal=dict(cash={'u1': 0}), versions=[[[1, 2, 1], 1], [[1, 2, 2], 2], [[1, 2, 3], 3]], start=1),
 [dict(op='upg', by='gc', v=[1, 2, 3], msgs=[[[1, 2, 3], 'm1']], want='ok'), obs('log', [[2, 'default'], [3, 'm1']])],
 'an upgrade through two versions of one release with a message for only one of them',
 'a message supplied for one version is also given to another')


def xdeploy(h, gp, ch, w=(), by='gc', want='ok'): return dict(op='xdeploy', by=by, chain=h, gp=gp, chan=ch, white=list(w), want=want)
def xreply(by, i, a, want='ok', form='good'): return dict(op='xreply', by=by, id=i, addr=a, form=form, pre='terra', want=want)


XCFG = dict(kind='multisig', members=[['u1', 1]], bal=dict(luna={'out': 40}, cash={'tre': 5}), white=['cash'], dao2=True)

seed('callback-id-reuse', 'X02', [(OUTS,
"""    let callback_id = ICS_PROXY_CALLBACK_LAST_ID
        .may_load(deps.storage)?
        .unwrap_or_default()
        + 1;
""", """    // ids of answered requests can be given out again
    let callback_id = ICS_PROXY_CALLBACKS
        .keys(deps.storage, None, None, cosmwasm_std::Order::Descending)
        .next()
        .transpose()?
        .unwrap_or_default()
        + 1;
""")],
 cfg(**XCFG),
 [xdeploy('chn1', 'g1', 'A'), xreply('g1@A', 1, 'p1'), xreply('g1@A', 1, 'p1', want='refused')],
 'a reply to a proxy request relayed a second time while the treasury request that followed it is outstanding',
 'the repeated reply is taken for the answer of the next request, and the proxy is recorded as the treasury')

seed('distribute-same-token-twice', 'T01', [('contracts/enterprise-treasury/src/contract.rs',
"""                let addr = ctx.deps.api.addr_validate(&addr)?;
                let asset = Asset::cw20(addr, asset.amount);
                submsgs.push(SubMsg::new(asset.send_msg(
                    funds_distributor.to_string(),
                    to_json_binary(&Distribute {})?,
                )?))
""", """                let addr = ctx.deps.api.addr_validate(&addr)?;
                cw20_funds.insert(addr, asset.amount);
"""), ('contracts/enterprise-treasury/src/contract.rs',
"""    if native_funds.is_empty().not() {
        submsgs""", """    // one message per token
    for (addr, amount) in cw20_funds {
        submsgs.push(SubMsg::new(Asset::cw20(addr, amount).send_msg(
            funds_distributor.to_string(),
            to_json_binary(&Distribute {})?,
        )?));
    }

    if native_funds.is_empty().not() {
        submsgs"""), ('contracts/enterprise-treasury/src/contract.rs',
"""    let mut native_funds: Vec<Coin> = vec![];
""", """    let mut native_funds: Vec<Coin> = vec![];
    let mut cw20_funds: std::collections::BTreeMap<cosmwasm_std::Addr, cosmwasm_std::Uint128> =
        std::collections::BTreeMap::new();
""")],
 cfg(kind='multisig', members=[['u1', 1]], bal=dict(cash={'tre': 5}, tok={'tre': 50}), white=['cash', 'tok']),
 [dict(op='tredist', by='gc', funds=[['tok', 10], ['tok', 20]], want='ok'), obs('bal', dict(tok={'tre': 20, 'dis': 30}))],
 'a distribution that names the same token twice',
 'only the last of the amounts is distributed')

seed('remove-stops-at-stranger', 'T02', [('contracts/enterprise-treasury/src/asset_whitelist.rs',
"""            AssetInfoUnchecked::Native(denom) => NATIVE_ASSET_WHITELIST.remove(deps.storage, denom),
""", """            AssetInfoUnchecked::Native(denom) => {
                if !NATIVE_ASSET_WHITELIST.has(deps.storage, denom.clone()) {
                    // nothing to remove
                    return Ok(());
                }
                NATIVE_ASSET_WHITELIST.remove(deps.storage, denom)
            }
""")],
 cfg(kind='multisig', members=[['u1', 1]], bal=dict(cash={'u1': 0}), white=['cash', 'tok']),
 [dict(op='white', by='gc', add=[], rem=['gold', 'tok'], want='ok'), obs('wl', ['cash'])],
 'a removal list whose first entries are not whitelisted',
 'the entries after it stay on the whitelist')

seed('restricted-member-stake', 'E01', [('packages/token-staking-impl/src/execute.rs',
"""    validate_user_not_restricted(ctx.deps.as_ref(), user.clone())?;

    let user = ctx.deps.api.addr_validate(&user)?;

    let old_weight = get_member_weight(ctx.deps.storage, user.clone())?;
""", """    let user = ctx.deps.api.addr_validate(&user)?;

    let old_weight = get_member_weight(ctx.deps.storage, user.clone())?;

    // only new members have anything to sign
    if old_weight.is_zero() {
        validate_user_not_restricted(ctx.deps.as_ref(), user.to_string())?;
    }
""")],
 cfg(kind='token', bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)]),
 [dict(op='setatt', by='gc', text='terms', want='ok'), stake('u1', 1, want='refused'), dict(op='sign', by='u1', want='ok'), stake('u1', 1)],
 'an attestation introduced while users already hold stakes',
 'members who have not signed the attestation go on receiving stake')

seed('revote-unsigned', 'E01', [(GC + 'contract.rs',
"""fn cast_vote(ctx: &mut Context, msg: CastVoteMsg) -> GovernanceControllerResult<Response> {
    unrestricted_users_only(ctx.deps.as_ref(), ctx.info.sender.to_string())?;

    let qctx""", """fn cast_vote(ctx: &mut Context, msg: CastVoteMsg) -> GovernanceControllerResult<Response> {
    // whoever has a say in this proposal already may change it
    let qctx = QueryContext::from(ctx.deps.as_ref(), ctx.env.clone());
    let previous_vote = query_member_vote(
        qctx,
        MemberVoteParams {
            member: ctx.info.sender.to_string(),
            proposal_id: msg.proposal_id,
        },
    )?;
    if previous_vote.vote.is_none() {
        unrestricted_users_only(ctx.deps.as_ref(), ctx.info.sender.to_string())?;
    }

    let qctx""")],
 cfg(bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)], gov=dict(dur=3)),
 [propose('u1', [meta('x')]), vote('u1', 1, 0), dict(op='setatt', by='gc', text='terms', want='ok'), vote('u2', 1, 0, want='refused'), vote('u1', 1, 1, want='refused')],
 'an attestation introduced while a vote is open',
 'users who have not signed can still change their votes')

seed('thirty-open-votes', 'M06', [('contracts/enterprise-governance/src/contract.rs',
"""    let votes = query_voter(&qctx, &params.voter, None, None)?;
""", """    let votes = query_voter(&qctx, &params.voter, None, Some(30))?;
""")],
 cfg(bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)], gov=dict(dur=9)),
 [o for i in range(1, 33) for o in (propose('u1', [meta('x')]), vote('u1', i, 0))] +
 [unstake('u1', 3)] + [q('gc', {'proposal': {'proposal_id': i}}, '/results', [[0, '1']]) for i in (1, 30, 31, 32)],
 'a member with more than thirty open votes changes their stake',
 'votes beyond the thirtieth keep the old weight')

seed('members-filtered-page', 'M07', [('packages/multisig-membership-impl/src/query.rs',
"""        .map(|(user, weight)| UserWeightResponse { user, weight })
        .collect();

    Ok(MembersResponse { members })
""", """        .filter(|(_, weight)| !weight.is_zero())
        .map(|(user, weight)| UserWeightResponse { user, weight })
        .collect();

    Ok(MembersResponse { members })
""")],
 cfg(kind='multisig', members=[['u1', 2], ['u2', 3], ['u3', 4]]),
 [dict(op='editm', by='gc', c='mem', edits=[['u1', 0], ['u2', 0]], want='ok'), q('mem', {'members': {'start_after': None, 'limit': 2}}, '/members/1/weight', '0') ],
 'members with weight zero that fill a whole page',
 'a page comes out empty although members follow, so that whoever pages through the list misses them')

seed('surplus-in-batch', 'M01', [('packages/token-staking-impl/src/execute.rs',
"""    if new_user_stakes_sum != msg.amount {
""", """    if new_user_stakes_sum > msg.amount {
""")],
 cfg(kind='token', bal=MEM2, setup=[stake('u1', 4)]),
 [dict(op='addstakes', by='u2', amt=3, list=[['u1', 1], ['u2', 1]], want='refused'), dict(op='addstakes', by='u2', amt=2, list=[['u1', 1], ['u2', 1]], want='ok')],
 'a batch of stakes sent with more tokens than it names',
 'the surplus is held by the staking contract but belongs to nobody')

seed('optional-nft-update', 'G05', [(GC + 'contract.rs',
"""            UpdateNftWhitelist(msg) => update_nft_whitelist(ctx.deps.branch(), msg)?,
            UpgradeDao(msg)""", """            UpdateNftWhitelist(msg) => update_nft_whitelist(ctx.deps.branch(), msg)?
                .into_iter()
                .map(|submsg| SubMsg::reply_on_error(submsg.msg, NFT_WHITELIST_REPLY_ID))
                .collect(),
            UpgradeDao(msg)"""), (GC + 'contract.rs',
"""pub const EXECUTE_PROPOSAL_ACTIONS_REPLY_ID""", """pub const NFT_WHITELIST_REPLY_ID: u64 = 9;
pub const EXECUTE_PROPOSAL_ACTIONS_REPLY_ID"""), (GC + 'contract.rs',
"""        EXECUTE_PROPOSAL_ACTIONS_REPLY_ID => {
""", """        NFT_WHITELIST_REPLY_ID => Ok(Response::new()),
        EXECUTE_PROPOSAL_ACTIONS_REPLY_ID => {
""")],
 cfg(bal=dict(dao={'u1': 4}, luna={'out': 0}), setup=[stake('u1', 4)], gov=dict(dur=1)),
 [propose('u1', [meta('x'), dict(a='nftw', add=['nft'], rem=[], remote='')]), vote('u1', 1, 0), tick(1), dict(op='treadmin', by='gc', to='u1', want='ok'), execp('u1', 1), obs('meta', dict(name='dao0', desc='desc0', logo='logo0', gh='gh0', dc='dc0', tw='tw0', tg='tg0'))],
 'a passed proposal whose NFT whitelist change fails on execution next to other actions',
 'the other actions take effect although one failed')

seed('mixed-coins-deposit', 'G07', [(GC + 'contract.rs',
"""                .iter()
                .find(|coin| coin.denom == dao_denom_config.denom);
""", """                .first()
                .filter(|coin| coin.denom == dao_denom_config.denom);
""")],
 cfg(bal=dict(dao={'u1': 4, 'u2': 4}, cash={'u2': 2}), setup=[stake('u1', 4)], gov=dict(mindep=2)),
 [propose('u2', [meta('x')], via='native', dep=2, extra=[['cash', 1]])],
 'a deposit in the DAO denomination sent together with another coin that sorts before it',
 'the deposit is not recognised and the proposal refused')

seed('latest-beyond-fifty', 'E03', [('contracts/enterprise-versioning/src/contract.rs',
"""            .range(qctx.deps.storage, None, None, Descending)
            .take(1)
            .map(|res| res.map(|(_, version)| version))
            .collect::<StdResult<Vec<VersionInfo>>>()?
            .first()
            .cloned()
""", """            .range(qctx.deps.storage, None, None, Ascending)
            .take(MAX_QUERY_LIMIT as usize)
            .map(|res| res.map(|(_, version)| version))
            .collect::<StdResult<Vec<VersionInfo>>>()?
            .last()
            .cloned()
"""), ('contracts/enterprise-versioning/src/contract.rs', 'use cosmwasm_std::Order::{Ascending, Descending};', 'use cosmwasm_std::Order::Ascending;')],
 cfg(members=[['u1', 1]], kind='multisig'),
 [dict(op='addver', by='veradmin', v=[2, i, 0], base=1, want='ok') for i in range(60)] +
 [q('ver', {'latest_version': {}}, '/version/version', dict(major=2, minor=59, patch=0))],
 'more than fifty registered versions',
 'the newest version is not reported as the latest')

seed('equal-actions-once', 'G11', [(GC + 'contract.rs',
"""    let proposal_actions =
        get_proposal_actions(ctx.deps.storage, proposal_id)?.ok_or(NoSuchProposal)?;

    let mut submsgs""", """    let mut proposal_actions =
        get_proposal_actions(ctx.deps.storage, proposal_id)?.ok_or(NoSuchProposal)?;
    proposal_actions.dedup();

    let mut submsgs""")],
 cfg(bal=dict(dao={'u1': 4}, cash={'tre': 9, 'u2': 0}), setup=[stake('u1', 4)], gov=dict(dur=1)),
 [propose('u1', [dict(a='fund', to='u2', assets=[['cash', 2]], remote='')] * 2), vote('u1', 1, 0), tick(1), execp('u1', 1), obs('bal', dict(cash=dict(u2=4, tre=5)))],
 'a proposal that carries the same payment twice in a row',
 'the payment is made only once')

seed('dissolved-council-votes', 'G03', [(GC + 'contract.rs',
"""    if proposal_info.proposal_type != General {
        return Err(WrongProposalType);
    }

    let governance_contract""", """    let has_council = COUNCIL_GOV_CONFIG.load(ctx.deps.storage)?.is_some();
    if proposal_info.proposal_type != General && has_council {
        return Err(WrongProposalType);
    }

    let governance_contract""")],
 cfg(bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)], gov=dict(dur=4, early=True), council=dict(on=True, members=['u3'], q=50, thr=50, allowed=['update_metadata'])),
 [dict(op='cpropose', by='u3', acts=[meta('x')], own='none', want='ok'),
  propose('u1', [dict(a='council', c=dict(on=False, members=[], q=0, thr=0, allowed=[]))]), vote('u1', 2, 0), vote('u2', 2, 0), vote('u1', 1, 0, want='refused'),
  tick(3), execp('u1', 2), vote('u1', 1, 0, want='refused')],
 'a council proposal still open when the council has been dissolved',
 'members vote on the council proposal with their staked weight')

seed('second-proxy', 'X01', [(OUTS,
"""        Err(ProxyAlreadyExistsForChainId)
    } else {""", """        // the first proxy registered for a chain stays in use
        Ok(())
    } else {"""), (OUTS, """    NoCrossChainDeploymentForGivenChainId, ProxyAlreadyExistsForChainId,
    TreasuryAlreadyExistsForChainId, Unauthorized,
""", """    NoCrossChainDeploymentForGivenChainId, TreasuryAlreadyExistsForChainId, Unauthorized,
""")],
 cfg(**XCFG),
 [xdeploy('chn1', 'g1', 'A'), xdeploy('chn1', 'g1', 'A'), xreply('g1@A', 1, 'p1'), xreply('g1@A', 2, 'p2', want='refused')],
 'two deployments for the same chain under way at the same time',
 'a second treasury is started under a proxy that the DAO has no record of')

seed('own-vote-update', 'E05', [('contracts/enterprise-governance/src/contract.rs',
"""    if info.sender != admin {
        return Err(Unauthorized {});
    }
""", """    let is_own_votes_update =
        matches!(&msg, ExecuteMsg::UpdateVotes(params) if params.voter == info.sender);

    if info.sender != admin && !is_own_votes_update {
        return Err(Unauthorized {});
    }
""")],
 cfg(bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)], gov=dict(dur=4)),
 [propose('u1', [meta('x')]), vote('u1', 1, 0), raw('user1', 'gov', {'update_votes': {'voter': 'user1', 'new_amount': '1000', 'excluded_polls': []}}, want='refused')],
 'a voter who calls the governance contract directly',
 'anyone who has voted can give their votes any weight')

seed('total-after-early-end', 'G09', [(GC + 'contract.rs',
"""            AtTime(time) => AtTime(min(time, executed_block.time)),
            Never {} => AtHeight(executed_block.height),""", """            AtTime(time) if env.block.time >= time => AtTime(time),
            AtTime(_) => AtTime(executed_block.time),
            Never {} => AtHeight(executed_block.height),""")],
 cfg(bal=dict(dao={'u1': 4, 'u2': 4}), setup=[stake('u1', 4)], gov=dict(dur=4, early=True)),
 [propose('u1', [meta('x')]), tick(1), vote('u1', 1, 0), tick(2), execp('u1', 1), tick(3), stake('u2', 4), tick(4), q('gc', {'proposal': {'proposal_id': 1}}, '/total_votes_available', '4'),
  tick(5), q('gc', {'proposal': {'proposal_id': 1}}, '/total_votes_available', '4')],
 'a proposal executed early, then looked at after its original end when the total has changed in between',
 'the total reported for a resolved proposal changes afterwards')

seed('whole-percent-quorum', 'G01', [('packages/poll-engine/src/state.rs',
"""        Decimal::checked_from_ratio(self.total_votes(), maximum_available_votes)
            .unwrap_or(Decimal::zero())
            .ge(quorum)
""", """        (self.total_votes() * 100)
            .checked_div(maximum_available_votes)
            .map(|turnout| Decimal::percent(turnout as u64))
            .unwrap_or(Decimal::zero())
            .ge(quorum)
""")],
 cfg(bal=dict(dao={'u1': 667, 'u2': 333}), setup=[stake('u1', 667), stake('u2', 333)], gov=dict(dur=1, q=1333, thr=50)),
 [propose('u1', [meta('x')]), vote('u2', 1, 0), tick(1), q('gc', {'proposal': {'proposal_id': 1}}, '/proposal_status', 'passed')],
 'a quorum that is not a whole percentage, reached by less than one percent',
 'a proposal that reached its quorum is rejected')

seed('clear-logo', 'E04', [('contracts/enterprise/src/contract.rs',
"""    if let Change(logo) = msg.logo {
        metadata.logo = logo;
    }
""", """    if let Change(logo) = msg.logo {
        metadata.logo = match logo {
            Logo::Url(url) => Logo::Url(url),
            Logo::None => metadata.logo,
        };
    }
"""), ('contracts/enterprise/src/contract.rs', '    IsRestrictedUserParams, IsRestrictedUserResponse, SetAttestationMsg, UpdateConfigMsg,\n', '    IsRestrictedUserParams, IsRestrictedUserResponse, Logo, SetAttestationMsg, UpdateConfigMsg,\n')],
 cfg(kind='multisig', members=[['u1', 1]]),
 [dict(op='meta', by='gc', f=dict(logo='none'), want='ok'), obs('meta', dict(name='dao0', desc='desc0', logo='none', gh='gh0', dc='dc0', tw='tw0', tg='tg0'))],
 'a metadata update that takes the logo away',
 'the logo cannot be removed')

TM = lambda n: dict(k='time', n=n)
seed('cut-user-claims', 'T03', [('contracts/enterprise-treasury/src/migration.rs',
"""            if claims_remaining.is_empty() {
                CLAIMS.remove(deps.storage, &user);
            } else {
                CLAIMS.save(deps.storage, &user, &claims_remaining)?;
            }
        }
    }

    let items_consumed = claims_included;

    if total_claims_amount""", """            if claims_remaining.len() < 2 {
                CLAIMS.remove(deps.storage, &user);
            } else {
                CLAIMS.save(deps.storage, &user, &claims_remaining)?;
            }
        }
    }

    let items_consumed = claims_included;

    if total_claims_amount""")],
 cfg(kind='token', bal=dict(dao={'u1': 2, 'tre': 12}), ul=dict(k='height', n=1),
     leg=dict(on=True, stage='migration_in_progress', st=[], clm=[dict(u='u1', amt=1, ids=[], rel=TM(2)), dict(u='u1', amt=3, ids=[], rel=TM(1))], ms=[], tot=dict(now=7, was=4, at=-3))),
 [dict(op='mig', by='u1', n=1, want='ok'), dict(op='mig', by='u1', n=5, want='ok'), tick(3), dict(op='claim', by='u1', user='self', want='ok'), obs('bal', dict(dao=dict(u1=6)))],
 'a hand-over step that ends between two claims of one user',
 'the rest of the user\'s claims is lost')

seed('short-import-page', 'F02', [('contracts/enterprise-factory/src/multisig_membership.rs',
"""        for voter in voters.voters {
            last_voter""", """        let is_last_page = voters.voters.len() < LIST_VOTERS_QUERY_LIMIT as usize;

        for voter in voters.voters {
            last_voter"""), ('contracts/enterprise-factory/src/multisig_membership.rs',
"""        last_voter.is_some()
    } {}""", """        !is_last_page
    } {}""")],
 cfg(kind='none', bal=dict(luna={'fac': 2}, cash={'u1': 1000}, dao={'u1': 50, 'u2': 50})),
 [dict(op='create', by='creator', v=[], r=REQ(kind='imp3', tok='cw3b', members=[]), want='ok'), dict(op='fprop', i=1, by='w007', want='ok'), dict(op='fprop', i=1, by='w110', want='ok')],
 'importing a multisig that lists fewer voters per page than asked for',
 'only the first page of voters become members')

seed('some-council-action', 'G08', [(GC + 'contract.rs',
"""            for proposal_action in &msg.proposal_actions {
                let proposal_action_type = to_proposal_action_type(proposal_action);
                if !allowed_actions.contains(&proposal_action_type) {
                    return Err(UnsupportedCouncilProposalAction {
                        action: proposal_action_type,
                    });
                }
            }
""", """            if let Some(proposal_action) = msg.proposal_actions.first() {
                let is_allowed = msg
                    .proposal_actions
                    .iter()
                    .map(to_proposal_action_type)
                    .any(|action| allowed_actions.contains(&action));
                if !is_allowed {
                    return Err(UnsupportedCouncilProposalAction {
                        action: to_proposal_action_type(proposal_action),
                    });
                }
            }
""")],
 cfg(bal=MEM2, setup=[stake('u1', 4), stake('u2', 4)], gov=dict(dur=4), council=dict(on=True, members=['u3'], q=50, thr=50, allowed=['update_metadata'])),
 [dict(op='cpropose', by='u3', acts=[dict(a='minw', w=3)], own='none', want='refused'), dict(op='cpropose', by='u3', acts=[meta('x'), dict(a='minw', w=3)], own='none', want='refused')],
 'a council proposal that mixes an allowed action with others',
 'the council decides on actions it was never given')

seed('kept-nft', 'X03', [('packages/ics721-callback-proxy-impl/src/execute.rs',
"""        let stake_nft_msg = SubMsg::new(wasm_execute(
            msg.nft_contract.clone(),
            &SendNft {
                contract: membership_contract.clone(),
                token_id: token_id.0.clone(),
                msg: to_json_binary(&nft_staking_api::msg::Cw721HookMsg::Stake {
                    user: user.clone(),
                })?,
            },
            vec![],
        )?);
""", """        let stake_nft_msg = SubMsg::reply_on_error(
            wasm_execute(
                msg.nft_contract.clone(),
                &SendNft {
                    contract: membership_contract.clone(),
                    token_id: token_id.0.clone(),
                    msg: to_json_binary(&nft_staking_api::msg::Cw721HookMsg::Stake {
                        user: user.clone(),
                    })?,
                },
                vec![],
            )?,
            1,
        );
""")],
 cfg(kind='ics721', bal=dict(cash={'u1': 0}), nft={'a': 'icsproxy', 'b': 'icsproxy'}, dao2=True, att='terms', setup=[dict(op='learn', **{'class': 'cls1'}, coll='nft')]),
 [dict(op='icsin', by='bridge', coll='nft', ids=['a'], user='u2', to='mem', form='stake', want='refused')],
 'a bridged NFT whose staking is refused, here because the user has not signed',
 'the NFT stays with the callback proxy, which nobody can get it out of, where the transfer should have been refused')

seed('operator-left', 'V01', [('contracts/enterprise-facade-v2/src/facade_v2.rs',
"""            .deposit_tokens
            .iter()
            .map(|token_id| {
                serde_json_wasm::to_string(&Approve {
                    spender: governance_controller.to_string(),
                    token_id: token_id.to_string(),
                    expires: None,
                })
            })
""", """            .deposit_tokens
            .iter()
            .take(1)
            .map(|_| {
                serde_json_wasm::to_string(&ApproveAll {
                    operator: governance_controller.to_string(),
                    expires: None,
                })
            })
"""), ('contracts/enterprise-facade-v2/src/facade_v2.rs', 'use cw721::Cw721ExecuteMsg::Approve;', 'use cw721::Cw721ExecuteMsg::ApproveAll;')],
 cfg(kind='nft', via='tre', nft={'a': 'u1', 'b': 'u1', 'd': 'u3'}, gov=dict(mindep=1), setup=[dict(op='stakenft', by='u3', id='d', **{'for': 'u3'}, coll='nft')]),
 [dict(op='propose', by='u1', acts=[meta('x')], via='nft', dep=0, dasset='dao', dtok=['a'], appr=True, own='none', want='ok'), obs('nft', {'a': 'gc', 'b': 'u1', 'd': 'mem'})],
 'an NFT deposit posted with the messages the facade prepares',
 'the governance controller keeps power over all NFTs of the depositor')

seed('always-own-treasury', 'X01', [(GC + 'contract.rs',
"""        ExecuteCosmosMsgs(ExecuteCosmosMsgsMsg { msgs: msg.msgs }),
        msg.remote_treasury_target,
""", """        ExecuteCosmosMsgs(ExecuteCosmosMsgsMsg { msgs: msg.msgs }),
        None,
""")],
 cfg(bal=dict(dao={'u1': 4}, cash={'tre': 9, 'u2': 0}, luna={'out': 9}), setup=[stake('u1', 4)], gov=dict(dur=1)),
 [propose('u1', [dict(a='tre', msgs=[dict(m='send', asset='cash', to='u2', amt=2)], remote='chn1')]), vote('u1', 1, 0), tick(1), execp('u1', 1), obs('bal', dict(cash=dict(u2=0, tre=9)))],
 'a proposal with messages for the treasury on another chain',
 'the messages are run by the treasury on this chain instead')

seed('named-twice-told-once', 'M08', [('packages/token-staking-impl/src/execute.rs',
"""        user_weight_changes.push(UserWeightChange {
            user: staker.user,
""", """        // one change per user is enough, the latest one
        user_weight_changes.retain(|change| change.user != staker.user);
        user_weight_changes.push(UserWeightChange {
            user: staker.user,
""")],
 cfg(kind='token', bal=dict(dao={'u1': 6}), tell=['rec', 'rec2']),
 [dict(op='hook', by='gc', c='mem', what='add', who='rec'), dict(op='addstakes', by='u1', amt=5, list=[['u1', 1], ['u2', 2], ['u1', 2]]),
  obs('told', {'rec': {'mem.u1': [0, 3], 'mem.u2': [0, 2]}})],
 'a batch of stakes naming a user twice, and a listener other than the DAO itself',
 'the weight before the change is reported wrongly')

seed('deaf-listener', 'M08', [('packages/membership-common/src/weight_change_hooks.rs',
""".map(|res| res.map(SubMsg::new))""", """.map(|res| res.map(|msg| SubMsg::reply_on_error(msg, 0)))""")],
 cfg(bal=dict(dao={'u1': 6}), tell=['rec', 'rec2']),
 [dict(op='hook', by='gc', c='mem', what='add', who='u3'), dict(stake('u1', 2), want='refused'), obs('w', {'u1': 0})],
 'a registered listener that fails',
 'the weight changes although a listener was not told of it')

seed('history-after-start', 'M05', [('packages/nft-staking-impl/src/instantiate.rs',
"""    save_initial_total_weight_checkpoints(
        ctx.deps.storage,
        msg.total_weight_by_height_checkpoints.unwrap_or_default(),
        msg.total_weight_by_seconds_checkpoints.unwrap_or_default(),
    )?;

    save_total_weight(ctx.deps.storage, &Uint128::zero(), &ctx.env.block)?;
""", """    save_total_weight(ctx.deps.storage, &Uint128::zero(), &ctx.env.block)?;

    save_initial_total_weight_checkpoints(
        ctx.deps.storage,
        msg.total_weight_by_height_checkpoints.unwrap_or_default(),
        msg.total_weight_by_seconds_checkpoints.unwrap_or_default(),
    )?;
""")],
 cfg(kind='nft', bal=dict(dao={'u1': 0}), nft={'a': 'u1'}, tell=['rec', 'rec2'], alone=dict(ch=[[-4, 2]], cs=[[-4, 2]], hooks=[])),
 [obs('total', 0)],
 'an NFT membership contract created with the totals of its predecessor',
 'the last total of the predecessor is taken for the present one')

seed('seconds-as-heights', 'M05', [('packages/membership-common/src/total_weight.rs',
"""    for checkpoint in total_weight_checkpoints_by_seconds {
        TOTAL_WEIGHT_SECONDS_SNAPSHOT.save(store, &checkpoint.total_weight, checkpoint.height)?;
    }
""", """    let mut last_height = 0;
    for checkpoint in total_weight_checkpoints_by_seconds {
        // checkpoints with nothing new
        if checkpoint.height / 100 != last_height {
            TOTAL_WEIGHT_SECONDS_SNAPSHOT.save(store, &checkpoint.total_weight, checkpoint.height)?;
        }
        last_height = checkpoint.height / 100;
    }
""")],
 cfg(kind='token', bal=dict(dao={'u1': 1}), tell=['rec', 'rec2'], alone=dict(ch=[], cs=[[-5, 3], [-4, 8], [-3, 1]], hooks=[])),
 [obs('phist', dict(h=[0, 0, 0, 0, 0, 0], s=[0, 0, 3, 8, 1, 1]))],
 'a membership contract created with several past totals close to each other',
 'some past totals are lost')

seed('fifty-council-votes', 'M06', [('contracts/enterprise-governance-controller/src/contract.rs',
"""            voter_addr: user,
            start_after: None,
            limit: None,
""", """            voter_addr: user,
            start_after: None,
            limit: Some(50),
""")],
 cfg(kind='multisig', bal=dict(cash={'u1': 0}), members=[['u1', 4], ['u2', 1]], gov=dict(dur=9), council=dict(on=True, members=['u1', 'u2', 'u3'], q=50, thr=50, allowed=['update_metadata'])),
 [o for i in range(1, 53) for o in (dict(op='cpropose', by='u1', acts=[meta('x')], own='none', want='ok'), cvote('u1', i, 0))] +
 [dict(op='editm', by='gc', c='mem', edits=[['u1', 3]], want='ok')] + [q('gc', {'proposal': {'proposal_id': i}}, '/results', [[0, '1']]) for i in (1, 50, 51, 52)],
 'a council member with votes on more than fifty council proposals, whose weight as a member of the DAO changes',
 'their votes in the council beyond the fiftieth take on the weight they have in the DAO')

seed('hundred-versions', 'E02', [('contracts/enterprise/src/contract.rs',
"""            versions.push(version.clone());

            if version.version == target_version {
                break 'outer;
            }
        }
""", """            versions.push(version.clone());

            if version.version == target_version {
                break 'outer;
            }
        }

        if versions.len() == MAX_QUERY_LIMIT as usize {
            break;
        }
""")],
 cfg(kind='multisig', bal=dict(cash={'u1': 0}), members=[['u1', 1]], versions=[[[1, 2, 1], 1]] + [[[1, 3, i], 2] for i in range(104)], start=1),
 [dict(op='upg', by='gc', v=[1, 3, 103], msgs=[], want='ok'), q('ent', {'dao_info': {}}, '/dao_version', dict(major=1, minor=3, patch=103)), obs('log', [[2, 'default']] * 104)],
 'an upgrade across more than a hundred versions',
 'the DAO says to have the new version although it stopped before it')
