#![allow(clippy::all)]
pub mod made;
pub mod show;
pub mod types;
pub mod util;
