// The host: justification walk, attestation collection, state providers, state patches, input building.
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
pub mod chain;
pub mod input;
pub mod states;
pub mod walk;
