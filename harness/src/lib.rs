#![allow(unexpected_cfgs)]
pub mod sym;
pub mod types;
pub mod user;
pub mod topo;
pub mod hist;
pub mod equal;
pub mod serial;
#[cfg(feature = "text")]
pub mod text;
pub mod entries;
#[cfg(feature = "text")]
pub mod py;
