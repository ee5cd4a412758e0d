//! Centroids and normals.
use super::cloud::*;
use crate::with_cloud;
use pasture_algorithms::normal_estimation::*;
use pasture_core::containers::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;
use pv::util::*;
use serde_json::{json, Value};

#[derive(PointType, Copy, Clone, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
struct Kp { #[pasture(BUILTIN_POSITION_3D)] position: Vector3<f64> }
impl kd_tree::KdPoint for Kp {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 { let p = self.position; p[k] }
}
fn scaled(v: &Vector3<f64>, to: f64) -> Vec<i64> {
    let m = v.amax();
    if !m.is_finite() || m == 0.0 { return vec![0, 0, 0]; }
    v.iter().map(|x| (x / m * to).round() as i64).collect()
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(50), c.rng());
    for case in c.cases() {
        let mut ps: Vec<P> = serde_json::from_value(case["ps"].clone()).unwrap();
        let (ax, o, flip) = (r.gen_range(0..3), rand_p(&mut r, 3), r.gen_bool(0.5));
        for p in &mut ps { p.rotate_left(ax); for k in 0..3 { p[k] = o[k] + if flip { -p[k] } else { p[k] }; } }
        for i in (1..ps.len()).rev() { let j = r.gen_range(0..=i); ps.swap(i, j); }
        tr.scenario();
        tr.emit(json!({"e": "new", "ps": ps}));
        let cl = positions(&mut r, &ps, D::Vec3f64, 1.0);
        describe(&mut tr, &mut r, &cl, case["k"].as_u64().unwrap() as usize);
    }
    for sc in 0..260 * c.k {
        tr.scenario();
        // now and then many points
        let n = match sc % 52 { 26 => *pick(&mut r, &[300, 1030, 4100]), 27 => *pick(&mut r, &[33, 65, 130]), _ => weighted(&mut r, &[1, 1, 2, 4, 4, 4, 3, 2]) };
        let mut ps: Vec<P> = (0..n).map(|_| rand_p(&mut r, 3)).collect();
        match r.gen_range(0..5) {
            0 => { let ax = r.gen_range(0..3); let v = r.gen_range(-3..=3); for p in &mut ps { p[ax] = v; } }
            1 => for p in &mut ps { p[2] = (p[0] - p[1]).clamp(-3, 3); },
            2 => for p in &mut ps { p[1] = p[0]; },
            3 => for p in ps.iter_mut().skip(1) { p[2] = 0; },
            _ => (),
        }
        tr.emit(json!({"e": "new", "ps": ps}));
        let scale = *pick(&mut r, &[1.0, 1.0, 0.125, 64.0]);
        let cl = positions(&mut r, &ps, D::Vec3f64, scale);
        for _ in 0..2 {
            // now and then points that are not finite among the others
            let mut cols = cl.cols.clone();
            let at = cols.iter().position(|x| x.0.name() == "Position3D").unwrap();
            let mut m = n;
            if r.gen_bool(0.5) {
                for _ in 0..r.gen_range(1..4) {
                    let k = r.gen_range(0..=m);
                    for (j, col) in cols.iter_mut().enumerate() {
                        let mut v = cl.pad[j].clone();
                        if j == at {
                            let bad = *pick(&mut r, &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                            let a = r.gen_range(0..3) * 8;
                            v[a..a + 8].copy_from_slice(&bad.to_le_bytes());
                        }
                        col.1.insert(k, v);
                    }
                    m += 1;
                }
            }
            let c2 = Cloud::new(&mut r, cols, cl.pad.clone(), m);
            let kind = r.gen_range(0..KINDS);
            let res = with_cloud!(kind, c2, b => guard(|| compute_centroid(b)));
            let v = res.unwrap_or(Vector3::new(f64::NAN, f64::NAN, f64::NAN)) / scale;
            let finite = v.iter().all(|x| x.is_finite());
            tr.emit(json!({"e": "centroid", "kind": kind, "n": m, "ok": res.is_some(), "finite": finite, "c": v.iter().map(|x| if finite { (x * 1000.0).round() as i64 } else { 0 }).collect::<Vec<_>>()}));
        }
        if n > 200 { continue; }
        for _ in 0..2 {
            let k = if r.gen_bool(0.85) { r.gen_range(3..8) } else { r.gen_range(0..4) };
            describe(&mut tr, &mut r, &cl, k);
        }
    }
    tr.summary()
}
fn describe(tr: &mut Trace, r: &mut StdRng, cl: &Cloud, k: usize) {
    let kind = r.gen_range(0..KINDS);
    let res = with_cloud!(kind, cl, b => guard(|| normals(b, k)));
    let rs: Vec<Value> = res.iter().flatten().map(|(v, k)| json!({"v6": scaled(v, 1e6), "v": scaled(v, 400.0), "kz": if k.is_finite() { (k * 1e6).round().clamp(-1e6, 2e6) as i64 } else { -1 }})).collect();
    tr.emit(json!({"e": "normals", "kind": kind, "k": k, "ok": res.is_some(), "r": rs}));
}
fn normals<'a, T: BorrowedBuffer<'a>>(b: &'a T, k: usize) -> Vec<(Vector3<f64>, f64)> { compute_normals::<T, Kp>(b, k) }
