//! Line and plane segmentation.
use super::cloud::*;
use crate::with_cloud;
use pasture_algorithms::segmentation::*;
use pasture_core::containers::*;
use pasture_core::layout::PointAttributeDataType as D;
use pv::util::*;
use serde_json::{json, Value};

/// The numbers in a debug representation, in order (the models have no accessors).
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).filter_map(|t| if t.starts_with(|c: char| c.is_ascii_digit() || c == '-') || t == "NaN" { t.parse().ok() } else { None }).collect()
}
fn line_span(ps: &[P], v: &[f64], scale: f64) -> Vec<usize> {
    let at = |q: &[f64]| ps.iter().position(|p| (0..3).all(|k| p[k] as f64 * scale == q[k]));
    if v.len() != 7 { return vec![]; }
    match (at(&v[0..3]), at(&v[3..6])) { (Some(i), Some(j)) => vec![i + 1, j + 1], _ => vec![] }
}
/// The points that span the plane ax + by + cz + d = 0, whatever its length and orientation.
fn plane_span(ps: &[P], v: &[f64], scale: f64) -> Vec<usize> {
    if v.len() != 5 { return vec![]; }
    let len = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    // up to three points of every place
    let mut at: std::collections::HashMap<P, usize> = Default::default();
    let ix: Vec<usize> = (0..ps.len()).filter(|i| { let c = at.entry(ps[*i]).or_default(); *c += 1; *c <= 3 }).collect();
    for x in 0..ix.len() { for y in 0..x { for z in 0..y {
        let (i, j, k) = (ix[x], ix[y], ix[z]);
        let n = cross(sub(ps[j], ps[i]), sub(ps[k], ps[i]));
        let l = (dot(n, n) as f64).sqrt();
        let zero = l == 0.0;
        if zero != (len == 0.0 || len.is_nan()) { continue; }
        if zero { return vec![k + 1, j + 1, i + 1]; }
        let w = [n[0] as f64 / l, n[1] as f64 / l, n[2] as f64 / l, -(dot(n, ps[i]) as f64) / l];
        let u = [v[0] / len, v[1] / len, v[2] / len, v[3] / len / scale];
        if [1.0, -1.0].iter().any(|s| (0..4).all(|t| (u[t] * s - w[t]).abs() < 1e-9)) { return vec![k + 1, j + 1, i + 1]; }
    } } }
    vec![]
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(60), c.rng());
    for case in c.cases() {
        let mut ps: Vec<P> = serde_json::from_value(case["ps"].clone()).unwrap();
        let (ax, o) = (r.gen_range(0..3), rand_p(&mut r, 3));
        for p in &mut ps { p.rotate_left(ax); for k in 0..3 { p[k] += o[k]; } }
        for i in (1..ps.len()).rev() { let j = r.gen_range(0..=i); ps.swap(i, j); }
        tr.scenario();
        tr.emit(json!({"e": "new", "ps": ps}));
        let t = (case["num"].as_i64().unwrap(), case["den"].as_i64().unwrap());
        fits(&mut tr, &mut r, &ps, Some(t));
    }
    for sc in 0..110 * c.k {
        tr.scenario();
        let range = *pick(&mut r, &[1, 2, 4, 4]);
        let big = r.gen_bool(0.3);
        let n = if big { r.gen_range(8..30) } else { weighted(&mut r, &[1, 1, 2, 3, 3, 4, 4]) };
        let mut ps: Vec<P> = (0..n).map(|_| rand_p(&mut r, range)).collect();
        // most points on a line or a plane now and then
        match r.gen_range(0..4) {
            0 => for p in &mut ps { if r.gen_bool(0.7) { p[2] = 1; } },
            1 => for p in &mut ps { if r.gen_bool(0.7) { p[1] = p[0]; p[2] = 0; } },
            2 => if n > 1 && r.gen_bool(0.5) { ps[n - 1] = ps[0]; },
            _ => (),
        }
        // now and then very many points at few places
        if sc % 27 == 13 {
            let m = if sc == 13 { 70_001 } else { *pick(&mut r, &[130, 300, 1100, 4200, 8300]) };
            let places: Vec<P> = if ps.len() < 3 { (0..9).map(|_| rand_p(&mut r, 4)).collect() } else { ps[..ps.len().min(12)].to_vec() };
            ps = (0..m).map(|_| *pick(&mut r, &places)).collect();
        }
        tr.emit(json!({"e": "new", "ps": ps}));
        fits(&mut tr, &mut r, &ps, None);
    }
    tr.summary()
}
fn fits(tr: &mut Trace, r: &mut StdRng, ps: &[P], thr: Option<(i64, i64)>) {
    let n = ps.len();
    for kind in ["line", "plane"] { for par in [false, true] {
        let scale = *pick(r, &[1.0, 0.25, 1024.0]);
        let cl = positions(r, ps, D::Vec3f64, scale);
        let (num, den) = if let Some(t) = thr { t } else { *pick(r, &[(1, 4), (1, 2), (3, 4), (1, 1), (5, 4), (2, 1), (7, 4), (1, 8)]) };
        let t = num as f64 / den as f64 * scale;
        let many = n <= 6;
        let iters = if many { 700 } else { r.gen_range(1..8) };
        let k = r.gen_range(0..KINDS);
        let res = with_cloud!(k, cl, b => guard(|| match (kind, par) {
            ("line", false) => { let (m, ix) = ransac_line_serial(b, t, iters); (format!("{m:?}"), ix) }
            ("line", true) => { let (m, ix) = ransac_line_par(b, t, iters); (format!("{m:?}"), ix) }
            (_, false) => { let (m, ix) = ransac_plane_serial(b, t, iters); (format!("{m:?}"), ix) }
            _ => { let (m, ix) = ransac_plane_par(b, t, iters); (format!("{m:?}"), ix) }
        }));
        let (ok, s, ix) = match res { Some((s, ix)) => (true, s, ix), None => (false, String::new(), vec![]) };
        let v = numbers(&s);
        let span = if kind == "line" { line_span(ps, &v, scale) } else { plane_span(ps, &v, scale) };
        let rank = v.last().map(|x| *x as i64).unwrap_or(-1);
        tr.emit(json!({"e": "fit", "kind": kind, "par": par, "store": k, "num": num, "den": den, "many": many, "ok": ok, "span": span, "rank": rank, "inl": ix.iter().map(|i| i + 1).collect::<Vec<_>>()}));
    } }
}
