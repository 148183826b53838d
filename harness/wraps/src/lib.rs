//! All contracts of the repository as contracts of the simulated chain.
use chain::Wrap;
use cosmwasm_std::Empty;
use cw_multi_test::{Contract, ContractWrapper};

macro_rules! wrap {
    ($m:ident) => {
        Box::new(Wrap(Box::new(
            ContractWrapper::new($m::contract::execute, $m::contract::instantiate, $m::contract::query)
                .with_reply($m::contract::reply)
                .with_migrate($m::contract::migrate),
        )))
    };
}
macro_rules! wrap_nm {
    ($m:ident) => {
        Box::new(Wrap(Box::new(
            ContractWrapper::new($m::contract::execute, $m::contract::instantiate, $m::contract::query)
                .with_reply($m::contract::reply),
        )))
    };
}

/// The real contract of the given name, behind a guard that turns panics into errors.
pub fn comp(name: &str) -> Box<dyn Contract<Empty>> {
    match name {
        "attestation" => wrap!(attestation),
        "enterprise" => wrap!(enterprise),
        "enterprise_governance" => wrap!(enterprise_governance),
        "enterprise_governance_controller" => wrap!(enterprise_governance_controller),
        "enterprise_outposts" => wrap!(enterprise_outposts),
        "enterprise_treasury" => wrap!(enterprise_treasury),
        "funds_distributor" => wrap!(funds_distributor),
        "token_staking_membership" => wrap!(token_staking_membership),
        "denom_staking_membership" => wrap!(denom_staking_membership),
        "nft_staking_membership" => wrap!(nft_staking_membership),
        "multisig_membership" => wrap!(multisig_membership),
        "enterprise_factory" => wrap!(enterprise_factory),
        "enterprise_versioning" => wrap!(enterprise_versioning),
        "enterprise_facade" => wrap!(enterprise_facade),
        "enterprise_facade_v1" => wrap_nm!(enterprise_facade_v1),
        "enterprise_facade_v2" => wrap_nm!(enterprise_facade_v2),
        "ics721_callback_proxy" => wrap!(ics721_callback_proxy),
        "cw20" => Box::new(Wrap(Box::new(ContractWrapper::new(cw20_base::contract::execute, cw20_base::contract::instantiate, cw20_base::contract::query)))),
        "cw721" => Box::new(Wrap(Box::new(ContractWrapper::new(cw721_base::entry::execute, cw721_base::entry::instantiate, cw721_base::entry::query)))),
        _ => panic!("{name}"),
    }
}

