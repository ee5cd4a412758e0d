//! Convex hulls of lattice clouds of every kind of degeneracy.
use super::cloud::*;
use crate::with_cloud;
use pasture_algorithms::convexhull::*;
use pasture_core::containers::*;
use pasture_core::layout::PointAttributeDataType as D;
use pv::types::attr;
use pv::util::*;
use serde_json::{json, Value};

fn shape(r: &mut StdRng) -> (Vec<P>, i64) {
    let kind = weighted(r, &[4, 3, 4, 2, 2, 3, 2]);
    let range = match kind { 0 => *pick(r, &[1, 2, 3, 10, 150]), _ => *pick(r, &[1, 2, 3, 6]) };
    let n = r.gen_range(0..10);
    let mut ps: Vec<P> = (0..n).map(|_| rand_p(r, range)).collect();
    match kind {
        2 => { // a plane
            let (a, b) = (r.gen_range(-2..=2), r.gen_range(-2..=2));
            let ax = r.gen_range(0..3);
            for p in &mut ps { p[ax] = a * p[(ax + 1) % 3] + b * p[(ax + 2) % 3] + 1; }
        }
        3 => { // a line
            let (o, d) = (rand_p(r, 3), rand_p(r, 2));
            for p in &mut ps { let t = p[0]; *p = [o[0] + t * d[0], o[1] + t * d[1], o[2] + t * d[2]]; }
        }
        4 => { // a plane and one point more
            for p in &mut ps { p[2] = 0; }
            if !ps.is_empty() { let k = r.gen_range(0..ps.len()); ps[k][2] = r.gen_range(-2..=2); }
        }
        5 => { // two planes: prisms
            for p in &mut ps { p[2] = if r.gen_bool(0.5) { 1 } else { -1 }; }
        }
        6 => { // the corners of a box, and more
            ps = (0..8).map(|k| [(k & 1) * range, (k >> 1 & 1) * 2, (k >> 2 & 1) * 3]).collect();
            for _ in 0..r.gen_range(0..4) { ps.push([r.gen_range(0..=range), r.gen_range(0..=2), r.gen_range(0..=3)]); }
            for _ in 0..r.gen_range(0..4) { let k = r.gen_range(0..ps.len()); ps.remove(k); }
        }
        _ => (),
    }
    if r.gen_bool(0.25) && !ps.is_empty() { let p = *pick(r, &ps); ps.push(p); }
    for i in (1..ps.len()).rev() { let j = r.gen_range(0..=i); ps.swap(i, j); }
    ps.truncate(11);
    (ps, range)
}

/// Clouds of many points.
fn large(r: &mut StdRng) -> Vec<P> {
    let n = r.gen_range(13..70);
    match r.gen_range(0..4) {
        0 => (0..n).map(|_| rand_p(r, 150)).collect(),
        // near a sphere, so that most points are extreme
        1 => (0..n).map(|_| loop { let p = rand_p(r, 60); if (2900..=3600).contains(&dot(p, p)) { break p } }).collect(),
        // a lattice, with many points in every plane
        2 => (0..n.min(30)).map(|_| rand_p(r, 2)).collect(),
        // many points inside of a few
        _ => { let mut v: Vec<P> = (0..n).map(|_| rand_p(r, 5)).collect(); for _ in 0..r.gen_range(4..9) { let k = r.gen_range(0..v.len()); v.insert(k, rand_p(r, 150)); } v }
    }
}
fn hulls(tr: &mut Trace, r: &mut StdRng, ps: &[P], d: D, scale: f64) -> u32 {
    let cl = positions(r, ps, d, scale);
    let kind = r.gen_range(0..KINDS);
    let mesh = with_cloud!(kind, cl, b => guard(|| convex_hull_as_triangle_mesh(b)));
    let (res, t) = match &mesh { None => ("panic", vec![]), Some(Err(_)) => ("err", vec![]), Some(Ok(t)) => ("ok", t.iter().map(|t| [t.x + 1, t.y + 1, t.z + 1]).collect::<Vec<_>>()) };
    tr.emit(json!({"e": "mesh", "kind": kind, "dt": format!("{d:?}"), "r": res, "t": t}));
    let kind = r.gen_range(0..KINDS);
    let ix = with_cloud!(kind, cl, b => guard(|| convex_hull_as_points(b)));
    tr.emit(json!({"e": "points", "kind": kind, "r": if ix.is_some() { "ok" } else { "panic" }, "ix": ix.unwrap_or_default().iter().map(|i| i + 1).collect::<Vec<_>>()}));
    kind
}

/// The clouds that TLC enumerated (GenHull), in a random order and place.
fn replay(cases: &str, tr: &mut Trace, r: &mut StdRng) {
    let text = std::fs::read_to_string(cases).unwrap();
    for line in text.lines() {
        let c: Value = serde_json::from_str(line).unwrap();
        let mut ps: Vec<P> = c["ps"].as_array().unwrap().iter().map(|p| [p[0].as_i64().unwrap(), p[1].as_i64().unwrap(), p[2].as_i64().unwrap()]).collect();
        for i in (1..ps.len()).rev() { let j = r.gen_range(0..=i); ps.swap(i, j); }
        let (ax, d) = (r.gen_range(0..3), *pick(r, &[D::Vec3f64, D::Vec3f64, D::Vec3f64, D::Vec3f32, D::Vec3i32, D::Vec3u8]));
        let o = if d == D::Vec3u8 || r.gen_bool(0.5) { [0; 3] } else { rand_p(r, 20) };
        let flip = d != D::Vec3u8 && r.gen_bool(0.5);
        for p in &mut ps { p.rotate_left(ax); for k in 0..3 { p[k] = o[k] + if flip { -p[k] } else { p[k] }; } }
        tr.scenario();
        tr.emit(json!({"e": "new", "ps": ps}));
        hulls(tr, r, &ps, d, 1.0);
    }
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(if c.cases.is_some() { 600 } else { 90 }), c.rng());
    if let Some(f) = &c.cases { replay(f, &mut tr, &mut r) }
    for s in 0..420 * c.k {
        tr.scenario();
        let mut ps = if s % 30 == 29 { large(&mut r) } else { shape(&mut r).0 };
        let d = *pick(&mut r, &[D::Vec3f64, D::Vec3f64, D::Vec3f64, D::Vec3f32, D::Vec3i32, D::Vec3u16, D::Vec3u8]);
        if matches!(d, D::Vec3u16 | D::Vec3u8) {
            for p in &mut ps { for k in 0..3 { p[k] = p[k].abs().min(200); } }
        }
        tr.emit(json!({"e": "new", "ps": ps}));
        let scale = if d == D::Vec3f64 { *pick(&mut r, &[1.0, 0.25, 1024.0, 1.0 / 4096.0]) } else { 1.0 };
        let kind = hulls(&mut tr, &mut r, &ps, d, scale);
        if s % 40 == 0 {
            let cl = Cloud::new(&mut r, vec![(attr("x", D::U8), vec![vec![1], vec![2]])], vec![vec![3]], 2);
            let ok = with_cloud!(kind, cl, b => guard(|| { convex_hull_as_points(b); }));
            tr.emit(json!({"e": "none", "r": if ok.is_some() { "ok" } else { "panic" }}));
        }
    }
    tr.summary()
}
