//! Harnesses executed symbolically by /verif/engine.
#![allow(clippy::all, unexpected_cfgs)]
#[path = "h/mod.rs"]
pub mod h;
