//! Drivers of the properties of readers and writers (pasture-io).
#![allow(clippy::all)]
mod ascii;
mod common;
mod files;
mod las;
mod pnts;
mod tileset;

fn main() {
    pv::util::driver_main(|prop, c| match prop {
        "I01" => ascii::run(c),
        "I03" => las::run(c),
        "I04" => files::run(c),
        "I05" => tileset::run(c),
        "I02" => pnts::run(c),
        _ => panic!("unknown driver {prop}"),
    });
}
