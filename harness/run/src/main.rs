//! The checks and the ledger's entry points, linked together. (They are apart so that a change to
//! the ledger does not have the checks compiled again.)
use canister as _;
use deployed as _;

macro_rules! ledger {
    ($prefix:literal) => {
        sim::exports! { $prefix;
            "update" icrc1_transfer, "update" icrc2_transfer_from, "update" icrc2_approve, "update" deposit,
            "update" withdraw, "update" withdraw_from, "update" create_canister, "update" create_canister_from,
            "query" icrc1_name, "query" icrc1_symbol, "query" icrc1_decimals, "query" icrc1_fee,
            "query" icrc1_minting_account, "query" icrc1_supported_standards, "query" icrc10_supported_standards,
            "query" icrc3_supported_block_types, "query" icrc1_total_supply, "query" icrc1_metadata,
            "query" icrc1_balance_of, "query" icrc3_get_blocks, "query" icrc2_allowance,
            "query" icrc103_get_allowances, "query" icrc106_get_index_principal, "query" http_request,
            "query" icrc3_get_tip_certificate, "query" icrc3_get_archives,
        }
    };
}
mod new {
    ledger!("");
}
mod old {
    ledger!("old_");
}
extern "Rust" {
    fn canister_init();
    fn canister_post_upgrade();
    #[link_name = "canister_update.old_init"]
    fn deployed_init();
}

fn main() {
    sim::main(sim::Table {
        entry: new::entry,
        methods: new::METHODS,
        init: Some(canister_init),
        post_upgrade: Some(canister_post_upgrade),
        deployed: old::entry,
        deployed_init: Some(deployed_init),
        probe: || (sim::Mode::Query, new::entry("icrc1_fee").unwrap().1, sim::enc(())),
    })
}
