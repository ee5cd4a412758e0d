//! Driver of the algorithms.
#[path = "../alg/cloud.rs"]
#[macro_use]
mod cloud;
#[path = "../alg/extrema.rs"]
mod extrema;
#[path = "../alg/voxel.rs"]
mod voxel;
#[path = "../alg/hull.rs"]
mod hull;
#[path = "../alg/ransac.rs"]
mod ransac;
#[path = "../alg/surface.rs"]
mod surface;
#[path = "../alg/reproject.rs"]
mod reproject;

fn main() {
    pv::util::driver_main(|prop, c| match prop {
        "A01" => extrema::run(c),
        "A02" => voxel::run(c),
        "A03" => hull::run(c),
        "A04" => ransac::run(c),
        "A05" => surface::run(c),
        "A06" => reproject::run(c),
        _ => panic!("unknown driver {prop}"),
    });
}
