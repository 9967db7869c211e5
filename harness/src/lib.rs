//! Runtime-monitoring harness for ublox-rs/ublox (see /verif/DESIGN.md).
pub mod rng;
pub mod run;
pub mod spec;
pub mod obs;
pub mod frames;
pub mod model;
pub mod build;
pub mod cfgv;
#[rustfmt::skip]
pub mod gen_spec;
#[rustfmt::skip]
pub mod gen_obs;
#[rustfmt::skip]
pub mod gen_build;
#[rustfmt::skip]
pub mod gen_cfg;
