#[path = "/repo/simulate_from_snapshot/src/snapshot_utils/mod.rs"]
pub mod snapshot_utils;
