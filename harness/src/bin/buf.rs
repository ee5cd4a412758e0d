//! Driver of the buffer properties.
#[path = "../access.rs"]
mod access;
#[path = "../bufs.rs"]
#[macro_use]
mod buf;
#[path = "../drive_buf.rs"]
mod drive_buf;
#[path = "../replay.rs"]
mod replay;

fn main() {
    pv::util::driver_main(|prop, c| {
        let (mut tr, mut r) = (c.trace(3400), c.rng());
        drive_buf::run(prop, &mut tr, &mut r, 2400 * c.k);
        let mut n = 0;
        if let Some(cases) = &c.cases {
            let (max, reps) = if c.thorough { (100_000, 4) } else { (500, 2) };
            match pv::util::guard_loud(|| replay::run(prop, cases, &mut tr, &mut r, max, reps)) {
                Some(k) => n = k,
                None => tr.emit(serde_json::json!({"e": "crash"})),
            }
        }
        let mut v = tr.summary();
        v["generated_behaviours_replayed"] = n.into();
        v
    });
}
