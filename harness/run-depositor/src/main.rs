//! The checks and the depositor's entry points, linked together.
use depositor_canister as _;

sim::exports! { ""; "update" deposit }
extern "Rust" {
    fn canister_init();
}

fn main() {
    sim::main(sim::Table { entry, methods: METHODS, init: Some(canister_init), post_upgrade: None, deployed: |_| None, deployed_init: None, probe: || (sim::Mode::Init, canister_init, sim::depositor_init(candid::Principal::anonymous())) })
}
