//! Untyped points and raw point conversion, byte for byte.
use super::casts::value;
use super::layouts::{jdef, jlay};
use pasture_core::containers::*;
use pasture_core::layout::conversion::RawPointConverter;
use pasture_core::layout::*;
use pv::made::*;
use pv::types::*;
use pv::util::*;
use pv::with_prim;
use serde_json::{json, Value};
use std::io::{Seek, SeekFrom, Write};

fn bytes_of_dt(r: &mut StdRng, d: PointAttributeDataType) -> Vec<u8> {
    match d {
        PointAttributeDataType::ByteArray(_) | PointAttributeDataType::Custom { .. } => (0..d.size()).map(|_| r.gen()).collect(),
        d => value(r, d),
    }
}
fn small_layout(r: &mut StdRng, names: &[&str]) -> PointLayout {
    let mut defs = vec![];
    for n in names { if r.gen_bool(0.75) { defs.push(attr(n, rand_dt(r))); } }
    for i in (1..defs.len()).rev() { let j = r.gen_range(0..=i); defs.swap(i, j); }
    match r.gen_range(0..4) {
        0 | 1 => PointLayout::from_attributes(&defs),
        2 => PointLayout::from_attributes_packed(&defs, *pick(r, &[1, 2, 4])),
        _ => {
            let mut off = r.gen_range(0..3u64);
            let ms: Vec<_> = defs.iter().map(|d| { let m = d.at_offset_in_type(off); off += d.size() + r.gen_range(0..3u64); m }).collect();
            PointLayout::from_members_and_alignment(&ms, 1)
        }
    }
}

/// One call on any implementation of UntypedPoint: what it is, the attribute it is for, the type it is made with and
/// how much too long the value is.
fn call<P: UntypedPoint>(tr: &mut Trace, r: &mut StdRng, p: &mut P, op: &str, def: &PointAttributeDefinition, t: PointAttributeDataType, x: i64) {
    let mut e = match op {
        "getraw" => match guard(|| p.get_raw_attribute(def).map(|b| b.to_vec()).ok()).flatten() {
            Some(v) => json!({"e": "getraw", "ok": true, "v": v}),
            None => json!({"e": "getraw", "ok": false}),
        },
        "setraw" => {
            let mut v = bytes_of_dt(r, def.datatype());
            if x > 0 { v.push(7); } else if x < 0 { v.pop(); }
            let ok = guard(|| p.set_raw_attribute(def, &v).is_ok()).unwrap_or(false);
            json!({"e": "setraw", "v": v, "ok": ok})
        }
        "mutraw" => {
            let v = bytes_of_dt(r, def.datatype());
            let before = guard(|| p.get_raw_attribute_mut(def).ok().map(|b| { let o = b.to_vec(); if o.len() == v.len() { b.copy_from_slice(&v); } o })).flatten();
            json!({"e": "mutraw", "v": v, "ok": before.is_some(), "before": before.unwrap_or_default()})
        }
        "get" => {
            let v = guard(|| with_prim!(t, T => p.get_attribute::<T>(def).ok().map(|x| bytemuck::bytes_of(&x).to_vec()), unreachable!())).flatten();
            json!({"e": "get", "t": format!("{t:?}"), "ok": v.is_some(), "v": v.unwrap_or_default()})
        }
        "set" => {
            let v = value(r, t);
            let ok = guard(|| with_prim!(t, T => p.set_attribute::<T>(def, &from_val::<T>(&v)).is_ok(), unreachable!())).unwrap_or(false);
            json!({"e": "set", "t": format!("{t:?}"), "v": v, "ok": ok})
        }
        _ => {
            let (len, pos) = (p.get_buffer().len(), x as usize);
            if pos >= len { return; }
            let n = r.gen_range(0..(len - pos).min(9) + 1);
            let v: Vec<u8> = (0..n).map(|_| r.gen()).collect();
            let ok = guard(|| { let mut c = p.get_cursor(); c.seek(SeekFrom::Start(pos as u64)).is_ok() && c.write_all(&v).is_ok() }).unwrap_or(false);
            json!({"e": "cursor", "pos": pos, "v": v, "ok": ok})
        }
    };
    e["def"] = jdef(def);
    e["mem"] = json!(p.get_buffer());
    tr.emit(e);
}
/// A history: random, or the one that the specification made up.
fn history<P: UntypedPoint>(tr: &mut Trace, r: &mut StdRng, p: &mut P, l: &PointLayout, ops: Option<&Value>) {
    if let Some(ops) = ops {
        for o in ops.as_array().unwrap() {
            let def = attr(o["n"].as_str().unwrap(), prim_of(o["d"].as_str().unwrap()));
            let t = match o["t"].as_str().unwrap() { "" => PointAttributeDataType::U8, t => prim_of(t) };
            call(tr, r, p, o["op"].as_str().unwrap(), &def, t, o["x"].as_i64().unwrap());
        }
        return;
    }
    let defs: Vec<_> = l.attributes().map(|m| m.attribute_definition().clone()).collect();
    for _ in 0..r.gen_range(3..14) {
        let mut def = if defs.is_empty() || r.gen_bool(0.06) { attr("nope", rand_dt(r)) } else { pick(r, &defs).clone() };
        if r.gen_bool(0.06) { def = def.with_custom_datatype(rand_dt(r)); }
        let t = if r.gen_bool(0.4) && PRIMS.contains(&def.datatype()) { def.datatype() } else { *pick(r, &PRIMS) };
        match r.gen_range(0..12) {
            0 | 1 => call(tr, r, p, "getraw", &def, t, 0),
            2..=4 => { let x = if r.gen_bool(0.08) { *pick(r, &[1, -1]) } else { 0 }; call(tr, r, p, "setraw", &def, t, x) }
            5 => call(tr, r, p, "mutraw", &def, t, 0),
            6..=8 => call(tr, r, p, "get", &def, t, 0),
            9 | 10 => call(tr, r, p, "set", &def, t, 0),
            _ => { let n = p.get_buffer().len(); if n > 0 { let x = r.gen_range(0..n); call(tr, r, p, "cursor", &def, t, x as i64) } }
        }
    }
}

fn raw(tr: &mut Trace, r: &mut StdRng) {
    const N: [&str; 5] = ["a", "b", "c", "d", "e"];
    let la = small_layout(r, &N);
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    for n in &N {
        if r.gen_bool(0.3) { continue; }
        // mostly a type that the source can be converted to
        let same = la.get_attribute_by_name(n).map(|m| m.datatype());
        let d = match same {
            Some(d) if r.gen_bool(0.4) => d,
            Some(d) if PRIMS.contains(&d) && r.gen_bool(0.95) => {
                let vec3 = |x: &PointAttributeDataType| format!("{x:?}").starts_with("Vec3");
                let v4 = d == PointAttributeDataType::Vec4u8;
                let c: Vec<_> = PRIMS.iter().copied().filter(|x| if v4 { *x == d } else { vec3(x) == vec3(&d) && *x != PointAttributeDataType::Vec4u8 }).collect();
                *pick(r, &c)
            }
            Some(d) if r.gen_bool(0.9) => d,
            _ => rand_dt(r),
        };
        defs.push(attr(n, d));
    }
    for i in (1..defs.len()).rev() { let j = r.gen_range(0..=i); defs.swap(i, j); }
    let lb = if r.gen_bool(0.5) { PointLayout::from_attributes(&defs) } else { PointLayout::from_attributes_packed(&defs, 1) };
    let mut ma: Vec<u8> = (0..la.size_of_point_entry()).map(|_| r.gen()).collect();
    for m in la.attributes() { let v = bytes_of_dt(r, m.datatype()); ma[m.byte_range_within_point()].copy_from_slice(&v); }
    let before: Vec<u8> = (0..lb.size_of_point_entry()).map(|_| r.gen()).collect();
    let mut after = before.clone();
    let ok = guard(|| { let c = RawPointConverter::from_to(&la, &lb); unsafe { c.convert(&ma, &mut after) } }).is_some();
    tr.emit(json!({"e": "rawconv", "la": jlay(&la), "lb": jlay(&lb), "ma": ma, "before": before, "after": after, "ok": ok}));
}

/// A point in memory of its own or in a part of other memory.
fn point(tr: &mut Trace, r: &mut StdRng, l: &PointLayout, owned: bool, n: usize, ops: Option<&Value>) {
    tr.scenario();
    if owned {
        let mut p = UntypedPointBuffer::new(l);
        tr.emit(json!({"e": "new", "lay": jlay(l), "owned": true, "mem": p.get_buffer(), "laysame": p.get_layout() == l}));
        history(tr, r, &mut p, l, ops);
        return;
    }
    let mut mem: Vec<u8> = (0..n + 96).map(|_| r.gen()).collect();
    let frame = (mem[..32].to_vec(), mem[n + 32..].to_vec());
    {
        let mut p = UntypedPointSlice::new(l, &mut mem[32..n + 32]);
        tr.emit(json!({"e": "new", "lay": jlay(l), "owned": false, "mem": p.get_buffer(), "laysame": p.get_layout() == l}));
        history(tr, r, &mut p, l, ops);
    }
    tr.emit(json!({"e": "frame", "ok": frame.0 == mem[..32] && frame.1 == mem[n + 32..]}));
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(1200), c.rng());
    for case in c.cases() {
        let l = layout_of(&case["lay"]);
        point(&mut tr, &mut r, &l, case["owned"] == true, case["len"].as_u64().unwrap() as usize, Some(&case["ops"]));
    }
    for _ in 0..500 * c.k {
        let l = if r.gen_bool(0.2) { rand_lay(&mut r, 1.0).layout } else { small_layout(&mut r, &["a", "b", "c", "d"]) };
        // memory of its own, or borrowed and sometimes shorter or longer than a point
        let owned = r.gen_bool(0.5);
        let n = l.size_of_point_entry() as usize;
        let n = match r.gen_range(0..5) { 0 => r.gen_range(0..n + 1), 1 => n + r.gen_range(1..5), _ => n };
        point(&mut tr, &mut r, &l, owned, n, None);
        raw(&mut tr, &mut r);
    }
    tr.summary()
}
