//! Bounding boxes.
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3};
use pv::util::*;
use serde_json::{json, Value};

type P = [i64; 3];

/// Scalars in which the boxes of a scenario live; `to` and `of` are exact, order preserving bijections on the used range.
trait Sc: Copy + PartialOrd + pasture_core::nalgebra::Scalar + pasture_core::nalgebra::ClosedSub { }
impl Sc for f64 {}
impl Sc for f32 {}
impl Sc for i32 {}
impl Sc for u8 {}
impl Sc for i64 {}

struct Map<T> { to: Box<dyn Fn(i64) -> T>, of: Box<dyn Fn(T) -> i64>, lim: i64, neg: bool, arith: bool }
impl<T: Sc> Map<T> {
    fn p(&self, p: &P) -> Point3<T> { Point3::new((self.to)(p[0]), (self.to)(p[1]), (self.to)(p[2])) }
    fn q(&self, p: &Point3<T>) -> Value { json!([(self.of)(p.x), (self.of)(p.y), (self.of)(p.z)]) }
    fn b(&self, b: &AABB<T>) -> Value { json!({"lo": self.q(b.min()), "hi": self.q(b.max())}) }
    /// A coordinate triple, often sharing coordinates with the boxes that exist.
    fn rand(&self, r: &mut StdRng, near: &[P]) -> P {
        let step = if self.arith { 64 } else { 1 };
        let mut p = [0; 3];
        for k in 0..3 {
            p[k] = if !near.is_empty() && r.gen_bool(0.5) { let q = pick(r, near)[k]; match r.gen_range(0..4) { 0 => q + step, 1 => q - step, _ => q } } else { step * r.gen_range(-self.lim..self.lim + 1) };
            let (lo, hi) = (if self.neg { -self.lim * step } else { 0 }, self.lim * step);
            p[k] = p[k].clamp(lo, hi);
        }
        p
    }
}

fn corners(v: &Value) -> Vec<P> { ["lo", "hi"].iter().map(|k| { let a = v[k].as_array().unwrap(); [a[0].as_i64().unwrap(), a[1].as_i64().unwrap(), a[2].as_i64().unwrap()] }).collect() }

/// Operations every scalar type has.
fn common<T: Sc>(tr: &mut Trace, r: &mut StdRng, m: &Map<T>, bs: &mut Vec<AABB<T>>) {
    let near: Vec<P> = bs.iter().flat_map(|b| corners(&m.b(b))).collect();
    let (s, a, b) = (r.gen_range(0..bs.len()), r.gen_range(0..bs.len()), r.gen_range(0..bs.len()));
    match r.gen_range(0..10) {
        0 | 1 => {
            let (mut lo, mut hi) = (m.rand(r, &near), m.rand(r, &near));
            for k in 0..3 { if lo[k] > hi[k] && r.gen_bool(0.97) { std::mem::swap(&mut lo[k], &mut hi[k]); } }
            let x = guard(|| AABB::from_min_max(m.p(&lo), m.p(&hi)));
            if let Some(x) = x { bs[s] = x; }
            tr.emit(json!({"e": "make", "s": s + 1, "lo": lo, "hi": hi, "ok": x.is_some(), "box": m.b(&bs[s])}));
        }
        2 | 3 => {
            let x = guard(|| AABB::union(&bs[a], &bs[b]));
            if let Some(x) = x { bs[s] = x; }
            tr.emit(json!({"e": "union", "s": s + 1, "a": a + 1, "b": b + 1, "ok": x.is_some(), "box": m.b(&bs[s])}));
        }
        4 | 5 => {
            let p = m.rand(r, &near);
            let x = guard(|| AABB::extend_with_point(&bs[a], &m.p(&p)));
            if let Some(x) = x { bs[s] = x; }
            tr.emit(json!({"e": "extend", "s": s + 1, "a": a + 1, "p": p, "ok": x.is_some(), "box": m.b(&bs[s])}));
        }
        6 => {
            let p = m.rand(r, &near);
            tr.emit(json!({"e": "contains", "a": a + 1, "p": p, "r": bs[a].contains(&m.p(&p))}));
        }
        7 => tr.emit(json!({"e": "intersects", "a": a + 1, "b": b + 1, "r": bs[a].intersects(&bs[b]), "rr": bs[b].intersects(&bs[a])})),
        8 if m.arith => { let e = bs[a].extent(); tr.emit(json!({"e": "extent", "a": a + 1, "r": m.q(&Point3::from(e))})) }
        _ => tr.emit(json!({"e": "eq", "a": a + 1, "b": b + 1, "r": bs[a] == bs[b]})),
    }
}

fn start<T: Sc>(tr: &mut Trace, r: &mut StdRng, m: &Map<T>, name: &str) -> Vec<AABB<T>> {
    tr.scenario();
    let mut near = vec![];
    let bs: Vec<AABB<T>> = (0..4).map(|_| {
        let (mut lo, mut hi) = (m.rand(r, &near), m.rand(r, &near));
        for k in 0..3 { if lo[k] > hi[k] { std::mem::swap(&mut lo[k], &mut hi[k]); } }
        near.push(lo); near.push(hi);
        AABB::from_min_max(m.p(&lo), m.p(&hi))
    }).collect();
    tr.emit(json!({"e": "new", "t": name, "boxes": bs.iter().map(|b| m.b(b)).collect::<Vec<_>>()}));
    bs
}

macro_rules! float_run { ($name:ident, $t:ty) => {
    fn $name(tr: &mut Trace, r: &mut StdRng, m: &Map<$t>) {
        let mut bs = start(tr, r, m, stringify!($t));
        for _ in 0..30 {
            let a = r.gen_range(0..bs.len());
            let s = r.gen_range(0..bs.len());
            // the cubic box of a box with coordinates that are multiples of 4 stays within the integers
            let even = corners(&m.b(&bs[a])).iter().flatten().all(|c| c % 4 == 0);
            match r.gen_range(0..12) {
                0 if m.arith && even => {
                    let x = guard(|| bs[a].as_cubic());
                    if let Some(x) = x { bs[s] = x; }
                    tr.emit(json!({"e": "cubic", "s": s + 1, "a": a + 1, "ok": x.is_some(), "box": m.b(&bs[s])}));
                }
                1 if m.arith && even => { let c = bs[a].center(); tr.emit(json!({"e": "centre", "a": a + 1, "r": m.q(&c)})) }
                2 => {
                    let back: Option<AABB<$t>> = serde_json::to_value(&bs[a]).ok().and_then(|x| serde_json::from_value(x).ok());
                    tr.emit(json!({"e": "serde", "a": a + 1, "ok": back.is_some(), "box": back.map(|b| m.b(&b)).unwrap_or(json!({}))}));
                }
                _ => common(tr, r, m, &mut bs),
            }
        }
    }
} }
float_run!(run_f64, f64);
float_run!(run_f32, f32);

fn points(tr: &mut Trace, r: &mut StdRng, m: &Map<f64>) {
    let mut bs = start(tr, r, m, "f64");
    for _ in 0..12 {
        let near: Vec<P> = bs.iter().flat_map(|b| corners(&m.b(b))).collect();
        let s = r.gen_range(0..bs.len());
        if r.gen_bool(0.6) {
            let n = weighted(r, &[1, 4, 4, 3, 2, 2]);
            let ps: Vec<P> = (0..n).map(|_| m.rand(r, &near)).collect();
            let x = guard(|| if r.gen_bool(0.5) { ps.iter().map(|p| m.p(p)).collect::<AABB<f64>>() } else { ps.iter().map(|p| Vector3::from(m.p(p).coords)).map(Point3::from).collect() });
            if let Some(x) = x { bs[s] = x; }
            tr.emit(json!({"e": "points", "s": s + 1, "ps": ps, "ok": x.is_some(), "box": m.b(&bs[s])}));
        } else if m.arith {
            let (p, a) = (m.rand(r, &near), r.gen_range(0..bs.len()));
            let eps = *pick(r, &[0i64, 1, 32, 63, 64, 65, 128]);
            // nearby points, with a distance of about epsilon
            let p = [p[0] + *pick(r, &[0, 1, -1, eps, -eps]), p[1] + *pick(r, &[0, eps, -eps, eps + 1, -eps - 1]), p[2]];
            tr.emit(json!({"e": "approx", "a": a + 1, "p": p, "eps": eps, "r": bs[a].contains_approx(&m.p(&p), (m.to)(eps))}));
        } else { common(tr, r, m, &mut bs); }
    }
}

fn p3(v: &Value) -> P { let a = v.as_array().unwrap(); [a[0].as_i64().unwrap(), a[1].as_i64().unwrap(), a[2].as_i64().unwrap()] }

/// Pairs of boxes, boxes with points and clouds that TLC enumerated (GenBoxes).
fn replay<T: Sc>(cases: &[Value], tr: &mut Trace, r: &mut StdRng, m: &Map<T>, name: &str, cloud: impl Fn(Vec<Point3<T>>) -> Option<AABB<T>>) {
    let step = if m.arith { 64 } else { 1 };
    let up = |p: P| [p[0] * step, p[1] * step, p[2] * step];
    for chunk in cases.chunks(16) {
        let mut bs = start(tr, r, m, name);
        let make = |tr: &mut Trace, bs: &mut Vec<AABB<T>>, s: usize, b: &Value| {
            let (lo, hi) = (up(p3(&b["lo"])), up(p3(&b["hi"])));
            let x = guard(|| AABB::from_min_max(m.p(&lo), m.p(&hi)));
            if let Some(x) = x { bs[s] = x; }
            tr.emit(json!({"e": "make", "s": s + 1, "lo": lo, "hi": hi, "ok": x.is_some(), "box": m.b(&bs[s])}));
        };
        for c in chunk {
            match c["e"].as_str().unwrap() {
                "pair" => {
                    make(tr, &mut bs, 0, &c["a"]);
                    make(tr, &mut bs, 1, &c["b"]);
                    tr.emit(json!({"e": "intersects", "a": 1, "b": 2, "r": bs[0].intersects(&bs[1]), "rr": bs[1].intersects(&bs[0])}));
                    tr.emit(json!({"e": "eq", "a": 1, "b": 2, "r": bs[0] == bs[1]}));
                    let x = guard(|| AABB::union(&bs[0], &bs[1]));
                    if let Some(x) = x { bs[2] = x; }
                    tr.emit(json!({"e": "union", "s": 3, "a": 1, "b": 2, "ok": x.is_some(), "box": m.b(&bs[2])}));
                }
                "point" => {
                    make(tr, &mut bs, 0, &c["a"]);
                    let p = up(p3(&c["p"]));
                    tr.emit(json!({"e": "contains", "a": 1, "p": p, "r": bs[0].contains(&m.p(&p))}));
                    let x = guard(|| AABB::extend_with_point(&bs[0], &m.p(&p)));
                    if let Some(x) = x { bs[1] = x; }
                    tr.emit(json!({"e": "extend", "s": 2, "a": 1, "p": p, "ok": x.is_some(), "box": m.b(&bs[1])}));
                }
                _ => {
                    let ps: Vec<P> = c["ps"].as_array().unwrap().iter().map(|p| up(p3(p))).collect();
                    let x = cloud(ps.iter().map(|p| m.p(p)).collect());
                    if let Some(x) = x { bs[3] = x; } else if !ps.is_empty() && name != "f64" { continue }
                    tr.emit(json!({"e": "points", "s": 4, "ps": ps, "ok": x.is_some(), "box": m.b(&bs[3])}));
                }
            }
        }
    }
}

fn replay_all(c: &Ctx, tr: &mut Trace, r: &mut StdRng, tab: std::rc::Rc<Vec<f64>>) {
    let Some(f) = &c.cases else { return };
    let mut cs: Vec<Value> = std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    for i in (1..cs.len()).rev() { let j = r.gen_range(0..=i); cs.swap(i, j); }
    let half = (tab.len() / 2) as i64;
    let n = cs.len();
    // every case with one scalar type; thorough: with all of them
    let part = |k: usize| if c.thorough { &cs[..] } else { &cs[n * k / 6..n * (k + 1) / 6] };
    let pts = |ps: Vec<Point3<f64>>| guard(|| ps.into_iter().collect::<AABB<f64>>());
    let m = Map { to: Box::new(move |i| i as f64 / 64.0), of: Box::new(move |x: f64| (x * 64.0) as i64), lim: 6, neg: true, arith: true };
    replay(part(0), tr, r, &m, "f64", pts);
    let (t1, t2) = (tab.clone(), tab.clone());
    let m = Map { to: Box::new(move |i| t1[(i - 1 + half) as usize]), of: Box::new(move |x: f64| t2.iter().position(|y| *y == x).map(|i| i as i64 - half + 1).unwrap_or(-999)), lim: half - 1, neg: true, arith: false };
    replay(part(1), tr, r, &m, "f64", pts);
    let m = Map { to: Box::new(move |i| i as f32), of: Box::new(move |x: f32| x as i64), lim: 6, neg: true, arith: true };
    replay(part(2), tr, r, &m, "f32", |_| None);
    macro_rules! ints { ($k:expr, $t:ty, $neg:expr, $lim:expr, $unit:expr) => {{
        let m = Map { to: Box::new(move |i| (i / 64 * $unit) as $t), of: Box::new(move |x: $t| (x as i64) / $unit * 64), lim: $lim, neg: $neg, arith: true };
        replay(part($k), tr, r, &m, stringify!($t), |_| None);
    }} }
    ints!(3, i32, true, 6, 100_000_000);
    ints!(4, u8, false, 5, 51);
    ints!(5, i64, true, 6, 1i64 << 59);
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(1800), c.rng());
    // finite floats of every size, in order: for operations that only compare
    let mut table: Vec<f64> = vec![f64::MAX, 1e300, 1e150, 1e18, 12345.678, 1.5, 1.0 + f64::EPSILON, 1.0, 0.1, 1e-10, f64::MIN_POSITIVE, 5e-324];
    let mut neg: Vec<f64> = table.iter().map(|x| -x).collect();
    table.reverse();
    neg.push(0.0);
    neg.extend(table);
    let tab = std::rc::Rc::new(neg);
    let half = (tab.len() / 2) as i64;
    replay_all(c, &mut tr, &mut r, tab.clone());
    for _ in 0..120 * c.k {
        let sc = *pick(&mut r, &[1.0 / 64.0, 1.0 / 1024.0, 1.0, 1024.0, 1e-9f64.log2().floor().exp2()]);
        let m = Map { to: Box::new(move |i| i as f64 * sc), of: Box::new(move |x: f64| (x / sc) as i64), lim: *pick(&mut r, &[2, 6, 1000]), neg: true, arith: true };
        run_f64(&mut tr, &mut r, &m);
        points(&mut tr, &mut r, &m);
        let sc = *pick(&mut r, &[1.0f32 / 64.0, 1.0, 256.0]);
        let m = Map { to: Box::new(move |i| i as f32 * sc), of: Box::new(move |x: f32| (x / sc) as i64), lim: *pick(&mut r, &[2, 6, 1000]), neg: true, arith: true };
        run_f32(&mut tr, &mut r, &m);
        let (t1, t2) = (tab.clone(), tab.clone());
        let m = Map { to: Box::new(move |i| t1[(i + half) as usize]), of: Box::new(move |x: f64| t2.iter().position(|y| *y == x).map(|i| i as i64 - half).unwrap_or(-999)), lim: half, neg: true, arith: false };
        run_f64(&mut tr, &mut r, &m);
        points(&mut tr, &mut r, &m);
        macro_rules! ints { ($t:ty, $neg:expr, $lim:expr, $unit:expr) => {{
            let m = Map { to: Box::new(move |i| (i / 64 * $unit) as $t), of: Box::new(move |x: $t| (x as i64) / $unit * 64), lim: $lim, neg: $neg, arith: true };
            let mut bs = start(&mut tr, &mut r, &m, stringify!($t));
            for _ in 0..12 { common(&mut tr, &mut r, &m, &mut bs); }
        }} }
        ints!(i32, true, 6, 100_000_000);
        ints!(u8, false, 5, 51);
        ints!(i64, true, 6, 1i64 << 59);
    }
    tr.summary()
}
