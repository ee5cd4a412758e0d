//! Reprojection between and within clouds.
use super::cloud::*;
use pasture_algorithms::reprojection::*;
use pasture_core::containers::*;
use pasture_core::layout::attributes::POSITION_3D;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3};
use pv::types::*;
use pv::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;

/// Systems that are quickly set up, for the generated histories.
const QUICK: [(&str, &str); 4] = [
    ("+proj=longlat +R=6378137", "+proj=merc +R=6378137"), ("+proj=longlat +R=6378137", "+proj=cart +R=6378137"), ("+proj=merc +R=6378137", "+proj=longlat +R=6378137"), ("+proj=longlat +R=6378137", "+proj=sinu +R=6378137")];
const VALID: [(&str, &str); 6] = [
    ("EPSG:4326", "EPSG:3309"), ("EPSG:4326", "EPSG:3857"), ("EPSG:32632", "EPSG:4326"), ("+proj=longlat +datum=WGS84", "+proj=utm +zone=32 +datum=WGS84"),
    ("EPSG:25832", "EPSG:25833"), ("EPSG:4326", "EPSG:4978")];
const INVALID: [(&str, &str); 4] = [("EPSG:4326", "nonsense"), ("no such system", "EPSG:4326"), ("EPSG:99999999", "EPSG:4326"), ("", "EPSG:4326")];
const NUL: (&str, &str) = ("EPSG:4326\0x", "EPSG:4326");

/// Numbers for positions and for the values of the other attributes, by their bytes.
struct Toks(HashMap<Vec<u8>, i64>);
impl Toks { fn t(&mut self, b: Vec<u8>) -> i64 { let n = self.0.len() as i64 + 1; *self.0.entry(b).or_insert(n) } }
fn bytes(v: &Vector3<f64>) -> Vec<u8> { v.iter().flat_map(|x| if x.is_nan() { f64::NAN } else { *x }.to_le_bytes()).collect() }

enum B { V(VectorBuffer), H(HashMapBuffer), E(ExternalMemoryBuffer<Vec<u8>>) }
struct Store { b: B, sliced: bool, n: usize, defs: Vec<Def> }
macro_rules! with_mut { ($st:expr, $x:ident => $body:expr) => {{
    let (sl, n) = ($st.sliced, $st.n);
    match &mut $st.b {
        B::V(b) => if sl { let mut s = b.slice_mut(1..1 + n); let $x = &mut s; $body } else { let $x = b; $body },
        B::H(b) => if sl { let mut s = b.slice_mut(1..1 + n); let $x = &mut s; $body } else { let $x = b; $body },
        B::E(b) => if sl { let mut s = b.slice_mut(1..1 + n); let $x = &mut s; $body } else { let $x = b; $body },
    }
}} }
impl Store {
    fn new(r: &mut StdRng, ps: &[Vector3<f64>]) -> Store {
        let mut cols = vec![(POSITION_3D, ps.iter().map(bytes).collect::<Vec<_>>())];
        let mut pad = vec![bytes(&Vector3::new(11.0, 47.0, 5.0))];
        for k in 0..r.gen_range(0..3) {
            let t = *pick(r, &PRIMS);
            let at = r.gen_range(0..=cols.len());
            cols.insert(at, (attr(&format!("more{k}"), t), ps.iter().map(|_| (0..t.size()).map(|_| r.gen()).collect()).collect()));
            pad.insert(at, (0..t.size()).map(|_| r.gen()).collect());
        }
        let cl = Cloud::new(r, cols, pad, ps.len());
        let sliced = r.gen_bool(0.4);
        let b = match r.gen_range(0..3) { 0 => B::V(cl.v(sliced)), 1 => B::H(cl.h(sliced)), _ => B::E(cl.e(sliced)) };
        Store { b, sliced, n: ps.len(), defs: cl.cols.into_iter().map(|c| c.0).collect() }
    }
    /// <<position, other attributes>> of every point of the whole buffer.
    fn all(&self, tk: &mut Toks) -> Vec<[i64; 2]> {
        macro_rules! go { ($b:expr) => { (0..$b.len()).map(|i| {
            let mut rest = vec![0xABu8];
            let mut pos = vec![];
            for d in &self.defs { let mut v = vec![0; d.size() as usize]; $b.get_attribute(d, i, &mut v); if d.name() == POSITION_3D.name() { pos = bytes(&bytemuck::pod_read_unaligned::<Vector3<f64>>(&v)); } else { rest.extend(v); } }
            [tk.t(pos), tk.t(rest)]
        }).collect() } }
        match &self.b { B::V(b) => go!(b), B::H(b) => go!(b), B::E(b) => go!(b) }
    }
    /// The points of the cloud; if points around it changed, all of them are shown.
    fn toks(&self, tk: &mut Toks, pad: &mut Option<[[i64; 2]; 2]>) -> Vec<[i64; 2]> {
        let v = self.all(tk);
        if !self.sliced { return v; }
        let p = [v[0], *v.last().unwrap()];
        match pad { None => *pad = Some(p), Some(q) => if *q != p { return v; } }
        v[1..v.len() - 1].to_vec()
    }
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(120), c.rng());
    for (n, case) in c.cases().iter().enumerate() {
        tr.scenario();
        let sites = [rp(&mut r), rp(&mut r), rp(&mut r)];
        let cl = |k: &str| case[k].as_array().unwrap().iter().map(|s| sites[s.as_u64().unwrap() as usize - 1]).collect::<Vec<_>>();
        let calls = case["calls"].as_array().unwrap().iter().map(|h| {
            let (valid, sys) = (h[1].as_bool().unwrap(), h[2].as_u64().unwrap() as usize);
            (h[0] == "within", valid, if valid { if n % 16 == 0 { VALID[(sys + n / 16) % VALID.len()] } else { QUICK[(sys + n) % QUICK.len()] } } else { INVALID[(sys + n) % INVALID.len()] })
        }).collect::<Vec<_>>();
        history(&mut tr, &mut r, cl("a"), cl("b"), &calls);
    }
    for i in 0..if c.thorough { 700 } else { 150 } {
        tr.scenario();
        scenario(&mut tr, &mut r);
        if i % 10 == 0 { reference(&mut tr, &mut r); }
    }
    tr.summary()
}
thread_local! { static OURS: std::cell::RefCell<HashMap<(String, String), Projection>> = Default::default(); }
/// The transformation from `s` to `t`, by a projection of our own (making one takes long).
fn moved(s: &str, t: &str, v: Vector3<f64>) -> Vector3<f64> {
    OURS.with(|m| m.borrow_mut().entry((s.into(), t.into())).or_insert_with(|| Projection::new(s, t).unwrap()).transform(v))
}
fn rp(r: &mut StdRng) -> Vector3<f64> { Vector3::new(r.gen_range(-20..60) as f64 * 0.75, r.gen_range(-30..80) as f64 * 0.5 + 0.125, r.gen_range(-10..900) as f64) }
fn scenario(tr: &mut Trace, r: &mut StdRng) {
    let n = if r.gen_bool(0.03) { *pick(r, &[65, 130, 300, 1030]) } else { weighted(r, &[1, 2, 3, 3, 3]) };
    let m = if r.gen_bool(0.8) { n } else { weighted(r, &[1, 2, 3, 3, 3]) };
    // points that share coordinates with earlier ones: columns, lines, duplicates
    let shared = *pick(r, &[0.0, 0.3, 0.8]);
    let cloud = |r: &mut StdRng, n: usize| {
        let mut v: Vec<Vector3<f64>> = vec![];
        for i in 0..n {
            let mut p = rp(r);
            if r.gen_bool(0.15) { p = *pick(r, &[Vector3::zeros(), Vector3::new(0.0, p.y, p.z), Vector3::new(p.x, 0.0, 0.0), Vector3::new(-0.0, -0.0, 0.0), Vector3::new(1.0, 1.0, 1.0)]); }
            if i > 0 && r.gen_bool(shared) {
                let q = if r.gen_bool(0.7) { v[i - 1] } else { *pick(r, &v) };
                let keep = r.gen_range(1..8);
                for k in 0..3 { if keep >> k & 1 == 1 { p[k] = q[k]; } }
            }
            v.push(p);
        }
        v
    };
    let (pa, pb) = (cloud(r, n), cloud(r, m));
    let calls: Vec<_> = (0..r.gen_range(1..4)).map(|_| {
        let valid = r.gen_bool(0.8);
        (r.gen_bool(0.5), valid, if valid { *pick(r, &VALID) } else if r.gen_bool(0.1) { NUL } else { *pick(r, &INVALID) })
    }).collect();
    history(tr, r, pa, pb, &calls);
}
/// Calls on two clouds: within the first one or from it to the second one.
fn history(tr: &mut Trace, r: &mut StdRng, pa: Vec<Vector3<f64>>, pb: Vec<Vector3<f64>>, calls: &[(bool, bool, (&str, &str))]) {
    let (mut a, mut b) = (Store::new(r, &pa), Store::new(r, &pb));
    let (mut tk, mut fa, mut fb) = (Toks(HashMap::new()), None, None);
    tr.emit(json!({"e": "new", "a": a.toks(&mut tk, &mut fa), "b": b.toks(&mut tk, &mut fb)}));
    for &(within, valid, (s, t)) in calls {
        if r.gen_bool(0.3) { tr.emit(json!({"e": "projection", "s": s, "t": t, "valid": valid, "ok": guard(|| Projection::new(s, t).is_ok()).unwrap_or(false)})); }
        // the transformation of the positions that the cloud has now
        let mut table = vec![];
        if valid {
            for (v, _) in with_mut!(a, x => x.view_attribute::<Vector3<f64>>(&POSITION_3D).into_iter().map(|v| (v, 0)).collect::<Vec<_>>()) {
                table.push([tk.t(bytes(&v)), tk.t(bytes(&moved(s, t, v)))]);
            }
        }
        let mx = tk.0.len();
        let mut tab = vec![0; mx];
        for [x, y] in table { tab[x as usize - 1] = y; }
        if within {
            let ok = guard(|| with_mut!(a, x => reproject_point_cloud_within(x, s, t))).is_some();
            tr.emit(json!({"e": "within", "s": s, "t2": t, "valid": valid, "ok": ok, "t": tab, "a": a.toks(&mut tk, &mut fa), "b": b.toks(&mut tk, &mut fb)}));
        } else {
            let ok = guard(|| with_mut!(a, x => with_mut!(b, y => reproject_point_cloud_between(x, y, s, t)))).is_some();
            tr.emit(json!({"e": "between", "s": s, "t2": t, "valid": valid, "ok": ok, "t": tab, "a": a.toks(&mut tk, &mut fa), "b": b.toks(&mut tk, &mut fb)}));
        }
    }
}

/// Known results of simple transformations, the way back, and boxes.
fn reference(tr: &mut Trace, r: &mut StdRng) {
    let radius = 6_378_137.0_f64;
    let (lon, lat, z) = (r.gen_range(-170..170) as f64, r.gen_range(-80..80) as f64, r.gen_range(0..100) as f64);
    let (x, y) = (radius * lon.to_radians(), radius * (std::f64::consts::FRAC_PI_4 + lat.to_radians() / 2.0).tan().ln());
    let dev = |a: &Vector3<f64>, b: Vector3<f64>, unit: f64| a.iter().zip(b.iter()).map(|(a, b)| { let d = (a - b).abs() / unit; if d.is_finite() { d.min(1e9).round() as i64 } else { 1_000_000_000 } }).collect::<Vec<_>>();
    let mut out = vec![];
    let ok = guard(|| {
        let p = Projection::new("+proj=longlat +R=6378137", "+proj=merc +R=6378137").unwrap();
        let q = Projection::new("+proj=merc +R=6378137", "+proj=longlat +R=6378137").unwrap();
        let there = p.transform(Vector3::new(lon, lat, z));
        out.extend(dev(&there, Vector3::new(x, y, z), 1e-3));
        out.extend(dev(&q.transform(there), Vector3::new(lon, lat, z), 1e-6));
        let e = Projection::new("EPSG:4326", "EPSG:3857").unwrap();
        out.extend(dev(&e.transform(Vector3::new(lat, lon, z)), Vector3::new(x, y, z), 1e-3));
    }).is_some();
    tr.emit(json!({"e": "reference", "at": [lon, lat, z], "ok": ok, "dev": out}));
    // the box of the images of the two corners (ranks of the coordinates)
    let (s, t) = *pick(r, &VALID[..4]);
    let (lo, hi) = (Vector3::new(r.gen_range(-10..20) as f64, r.gen_range(-10..40) as f64, 1.0), Vector3::new(r.gen_range(21..40) as f64, r.gen_range(41..60) as f64, 3.0));
    let res = guard(|| { let p = Projection::new(s, t).unwrap(); (p.transform(lo), p.transform(hi), p.transform_bounds(&AABB::from_min_max(Point3::from(lo), Point3::from(hi)))) });
    if let Some((p, q, bx)) = res {
        let rank = |k: usize, x: f64| -> i64 { let mut v = vec![p[k], q[k]]; v.sort_by(|a, b| a.total_cmp(b)); v.iter().position(|y| *y == x).map(|i| i as i64).unwrap_or(-1) };
        let f = |g: &dyn Fn(usize) -> f64| (0..3).map(|k| rank(k, g(k))).collect::<Vec<_>>();
        tr.emit(json!({"e": "box", "ok": true, "p": f(&|k| p[k]), "q": f(&|k| q[k]), "lo": f(&|k| bx.min()[k]), "hi": f(&|k| bx.max()[k])}));
    } else { tr.emit(json!({"e": "box", "ok": false})); }
}
