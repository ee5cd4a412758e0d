//! Bounds and minimum / maximum of attributes.
use super::cloud::*;
use crate::with_cloud;
use pasture_algorithms::bounds::calculate_bounds;
use pasture_algorithms::minmax::minmax_attribute;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pv::types::*;
use pv::util::*;
use serde_json::{json, Value};

/// An ascending list of values of a component type.
trait Pool: Sized + Copy + PartialEq + bytemuck::Pod { fn pool() -> Vec<Self>; fn f(self) -> f64; }
macro_rules! int_pool { ($t:ty) => { impl Pool for $t {
    fn pool() -> Vec<$t> { let mut v: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MIN / 2, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1, 0, 1, 2, 3, 10, 99, 100]; v.sort(); v.dedup(); v }
    fn f(self) -> f64 { self as f64 }
} } }
macro_rules! float_pool { ($t:ident) => { impl Pool for $t {
    fn pool() -> Vec<$t> { vec![$t::MIN, -1.0e30, -1000.5, -2.0, -1.0, -$t::MIN_POSITIVE, 0.0, $t::MIN_POSITIVE, 0.5, 1.0, 1.5, 2.0, 1000.25, 1.0e30, $t::MAX] }
    fn f(self) -> f64 { self as f64 }
} } }
int_pool!(u8); int_pool!(i8); int_pool!(u16); int_pool!(i16); int_pool!(u32); int_pool!(i32); int_pool!(u64); int_pool!(i64);
float_pool!(f32); float_pool!(f64);

/// Encodes tuples of pool positions.
fn put<T: Pool>(ts: &[i64]) -> Vec<u8> { let p = T::pool(); ts.iter().flat_map(|t| bytemuck::bytes_of(&p[*t as usize]).to_vec()).collect() }
fn tok<T: Pool>(x: f64, exact: Option<T>) -> i64 {
    T::pool().iter().position(|y| match exact { Some(e) => *y == e, None => y.f() == x }).map(|k| k as i64).unwrap_or(-1)
}
fn toks<T: Pool>(b: &[u8]) -> Vec<i64> { b.chunks(std::mem::size_of::<T>()).map(|c| { let v: T = bytemuck::pod_read_unaligned(c); tok::<T>(0.0, Some(v)) }).collect() }

macro_rules! elem { ($d:expr, $E:ident => $b:expr) => { match $d {
    D::U8 | D::Vec3u8 => { type $E = u8; $b } D::I8 => { type $E = i8; $b } D::U16 | D::Vec3u16 => { type $E = u16; $b } D::I16 => { type $E = i16; $b }
    D::U32 => { type $E = u32; $b } D::I32 | D::Vec3i32 => { type $E = i32; $b } D::U64 => { type $E = u64; $b } D::I64 => { type $E = i64; $b }
    D::F32 | D::Vec3f32 => { type $E = f32; $b } _ => { type $E = f64; $b }
} } }
fn comps(d: D) -> usize { if format!("{d:?}").starts_with("Vec3") { 3 } else { 1 } }
fn col(r: &mut StdRng, d: D, n: usize) -> (Vec<Vec<i64>>, Vec<Vec<u8>>) {
    let m = elem!(d, E => E::pool().len()) as i64;
    // clusters of values, so that the extrema are often at one end of the list
    let (lo, hi) = { let a = r.gen_range(0..m); let b = r.gen_range(0..m); (a.min(b), a.max(b)) };
    let t: Vec<Vec<i64>> = (0..n).map(|_| (0..comps(d)).map(|_| r.gen_range(lo..=hi)).collect()).collect();
    let b = t.iter().map(|x| elem!(d, E => put::<E>(x))).collect();
    (t, b)
}

/// A column that the specification made up: places in an ascending list of three values.
fn col_of(r: &mut StdRng, d: D, vs: &[Vec<i64>]) -> (Vec<Vec<i64>>, Vec<Vec<u8>>) {
    let m = elem!(d, E => E::pool().len()) as i64;
    let a = r.gen_range(0..m - 2);
    let b = r.gen_range(a + 1..m - 1);
    let p = [a, b, r.gen_range(b + 1..m)];
    let t: Vec<Vec<i64>> = vs.iter().map(|v| v[..comps(d)].iter().map(|x| p[*x as usize]).collect()).collect();
    let b = t.iter().map(|x| elem!(d, E => put::<E>(x))).collect();
    (t, b)
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(400), c.rng());
    for case in c.cases() {
        let vs = serde_json::from_value::<Vec<Vec<i64>>>(case["vs"].clone()).unwrap();
        tr.scenario();
        bounds(&mut tr, &mut r, Some(&vs));
        tr.scenario();
        minmax(&mut tr, &mut r, Some(&vs));
    }
    for _ in 0..700 * c.k {
        tr.scenario();
        if r.gen_bool(0.4) { bounds(&mut tr, &mut r, None) } else { minmax(&mut tr, &mut r, None) }
    }
    tr.summary()
}
fn size(r: &mut StdRng) -> usize { if r.gen_bool(0.1) { 0 } else if r.gen_bool(0.012) { *pick(r, &[65, 130, 300, 1030, 4100, 70_001]) } else { r.gen_range(1..9) } }

fn bounds(tr: &mut Trace, r: &mut StdRng, given: Option<&[Vec<i64>]>) {
    let n = given.map(|v| v.len()).unwrap_or_else(|| size(r));
    let d = *pick(r, &[D::Vec3f64, D::Vec3f64, D::Vec3f64, D::Vec3f32, D::Vec3i32, D::Vec3u16, D::Vec3u8]);
    let (t, b) = match given { Some(v) => col_of(r, d, v), None => col(r, d, n) };
    let has = r.gen_bool(0.9);
    tr.emit(json!({"e": "new", "vs": t}));
    let mut cols = vec![(if has { pos_def(d) } else { attr("other", d) }, b)];
    let mut pad = vec![elem!(d, E => put::<E>(&[0, E::pool().len() as i64 - 1, 0]))];
    if r.gen_bool(0.6) { let (_, b) = col(r, D::Vec3f64, n); cols.insert(0, (attr("first", D::Vec3f64), b)); pad.insert(0, vec![0; 24]); }
    if r.gen_bool(0.6) { let (_, b) = col(r, D::U16, n); cols.push((attr("last", D::U16), b)); pad.push(vec![0; 2]); }
    let cl = Cloud::new(r, cols, pad, n);
    let def = if has { pos_def(d) } else { attr("other", d) };
    for _ in 0..2 {
        let kind = r.gen_range(0..KINDS);
        with_cloud!(kind, cl, s => {
            let res = guard(|| calculate_bounds(s));
            let b = res.clone().flatten();
            let q = |p: pasture_core::nalgebra::Point3<f64>| [p.x, p.y, p.z].iter().map(|x| elem!(d, E => tok::<E>(*x, None))).collect::<Vec<_>>();
            tr.emit(json!({"e": "bounds", "kind": kind, "dt": format!("{d:?}"), "has": has, "ok": res.is_some(), "some": b.is_some(), "box": b.map(|b| json!({"lo": q(*b.min()), "hi": q(*b.max())})).unwrap_or(json!({}))}));
            tr.emit(json!({"e": "column", "vs": column(s, &def).iter().map(|b| elem!(d, E => toks::<E>(b))).collect::<Vec<_>>()}));
        });
    }
}

macro_rules! with_mm { ($d:expr, $T:ident => $b:expr) => { match $d {
    D::U8 => { type $T = u8; $b } D::I8 => { type $T = i8; $b } D::U16 => { type $T = u16; $b } D::I16 => { type $T = i16; $b }
    D::U32 => { type $T = u32; $b } D::I32 => { type $T = i32; $b } D::U64 => { type $T = u64; $b } D::I64 => { type $T = i64; $b }
    D::F32 => { type $T = f32; $b } D::F64 => { type $T = f64; $b }
    D::Vec3u8 => { type $T = Vector3<u8>; $b } D::Vec3u16 => { type $T = Vector3<u16>; $b } D::Vec3f32 => { type $T = Vector3<f32>; $b }
    D::Vec3i32 => { type $T = Vector3<i32>; $b } _ => { type $T = Vector3<f64>; $b }
} } }
fn minmax(tr: &mut Trace, r: &mut StdRng, given: Option<&[Vec<i64>]>) {
    let n = given.map(|v| v.len()).unwrap_or_else(|| size(r));
    let d = PRIMS[r.gen_range(0..15)];
    let (t, b) = match given { Some(v) => col_of(r, d, v), None => col(r, d, n) };
    tr.emit(json!({"e": "new", "vs": t}));
    let mut cols = vec![(attr("v", d), b)];
    let m = elem!(d, E => E::pool().len() as i64);
    let mut pad = vec![elem!(d, E => put::<E>(&vec![if r.gen_bool(0.5) { 0 } else { m - 1 }; comps(d)]))];
    let d2 = PRIMS[r.gen_range(0..15)];
    if r.gen_bool(0.6) { let (_, b) = col(r, d2, n); cols.insert(0, (attr("first", d2), b)); pad.insert(0, vec![0; d2.size() as usize]); }
    let cl = Cloud::new(r, cols, pad, n);
    // (attribute asked for, type asked for, whether that must work)
    let wide = if comps(d) == 3 { D::Vec3f64 } else { D::F64 };
    let (q, t, has) = match r.gen_range(0..8) {
        0 => (attr("missing", d), d, false),
        1 if d != wide => (attr("v", wide), wide, false),
        2 | 3 if !matches!(d, D::U64 | D::I64) => (attr("v", d), wide, true),
        _ => (attr("v", d), d, true),
    };
    for _ in 0..2 {
        let kind = r.gen_range(0..KINDS);
        with_cloud!(kind, cl, s => {
            let (ok, some, lo, hi) = with_mm!(t, T => {
                let res = guard(|| minmax_attribute::<T, _>(s, &q));
                let e = |v: &T| -> Vec<i64> { let b = bytemuck::bytes_of(v); if t == d { elem!(d, E => toks::<E>(b)) } else { b.chunks(8).map(|c| { let x: f64 = bytemuck::pod_read_unaligned(c); elem!(d, E => tok::<E>(x, None)) }).collect() } };
                let m = res.flatten();
                (res.is_some(), m.is_some(), m.map(|m| e(&m.0)).unwrap_or_default(), m.map(|m| e(&m.1)).unwrap_or_default())
            });
            tr.emit(json!({"e": "minmax", "kind": kind, "dt": format!("{d:?}"), "as": format!("{t:?}"), "has": has, "ok": ok, "some": some, "lo": lo, "hi": hi}));
            tr.emit(json!({"e": "column", "vs": column(s, &attr("v", d)).iter().map(|b| elem!(d, E => toks::<E>(b))).collect::<Vec<_>>()}));
        });
    }
}
