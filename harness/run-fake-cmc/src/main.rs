//! The checks and the stand-in CMC's entry points, linked together.
use fake_cmc_canister as _;

sim::exports! { ""; "update" create_canister, "update" fail_next_create_canister_with, "query" get_icp_xdr_conversion_rate, "query" last_create_canister_args }

fn main() {
    sim::main(sim::Table { entry, methods: METHODS, init: None, post_upgrade: None, deployed: |_| None, deployed_init: None, probe: || (sim::Mode::Query, entry("get_icp_xdr_conversion_rate").unwrap().1, sim::enc(())) })
}
