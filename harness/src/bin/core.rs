//! Driver of the layout, conversion, attribute pusher and math properties.
#[path = "../core/layouts.rs"]
mod layouts;
#[path = "../core/casts.rs"]
mod casts;

#[path = "../core/pusher.rs"]
mod pusher;

#[path = "../core/untyped.rs"]
mod untyped;

#[path = "../core/convert.rs"]
mod convert;

#[path = "../core/boxes.rs"]
mod boxes;

fn main() {
    pv::util::driver_main(|prop, c| match prop {
        "L01" | "L02" | "L04" => layouts::run(prop, c),
        "V02" => casts::run_casts(c),
        "M02" => casts::run_math(c),
        "B08" => pusher::run(c),
        "V01" => convert::run(c),
        "V03" => untyped::run(c),
        "M01" => boxes::run(c),
        _ => panic!("unknown driver {prop}"),
    });
}
