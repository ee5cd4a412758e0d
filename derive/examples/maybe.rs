//! Structs that may or may not be accepted: what the compiler says about them is looked at, one by one.
#![allow(dead_code)]
use pasture_core::nalgebra::*;
use pasture_derive::PointType;
include!(env!("PV_MAYBE"));
fn main() {}
