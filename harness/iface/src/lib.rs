//! What the ledger's interface says, apart from its code: types, hashing, the reference model.
pub mod icrc3;
pub mod model;
pub mod ops;
pub mod types;
pub mod wire;
