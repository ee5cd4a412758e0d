//! Sessions of HashMapBuffer::begin_push_attributes.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pv::types::*;
use pv::util::*;
use pv::with_prim;
use serde_json::{json, Value};

/// A random layout whose attributes all have a Rust type.
fn prim_lay(r: &mut StdRng) -> Lay {
    if r.gen_bool(0.3) { return Lay::of_ty(*pick(r, &TYS)); }
    let n = r.gen_range(1..6);
    let attrs: Vec<_> = (0..n).map(|i| attr(&format!("at{i}"), *pick(r, &PRIMS))).collect();
    Lay::new(if r.gen_bool(0.5) { PointLayout::from_attributes(&attrs) } else { PointLayout::from_attributes_packed(&attrs, 1) }, None)
}

/// Contents column by column, checked to be rectangular: every column must have exactly `len` values.
fn contents(b: &HashMapBuffer, l: &Lay) -> (Value, usize) {
    let n = b.len();
    let rows = guard(|| {
        let cols: Vec<Vec<i64>> = (0..l.na()).map(|a| l.toks(a, b.get_attribute_range_ref(&l.attrs[a], 0..n))).collect();
        // one more value than `len` must not be there
        for a in 0..l.na() { if guard(|| { b.get_attribute_range_ref(&l.attrs[a], 0..n + 1); }).is_some() { return vec![vec![BAD]]; } }
        (0..n).map(|i| cols.iter().map(|c| c[i]).collect::<Vec<_>>()).collect()
    }).unwrap_or_else(|| vec![vec![PANIC]]);
    (json!(rows), n)
}


/// One push call: which attribute (0: one that is not there), which value type, the tokens.
struct Call { jat: usize, typed: bool, ask: PointAttributeDefinition, ty: PointAttributeDataType, vs: Vec<i64>, bytes: Vec<u8>, real: bool }

fn session(tr: &mut Trace, b: &mut HashMapBuffer, l: &Lay, calls: &[Call], commit: bool) {
    tr.emit(json!({"e": "begin"}));
    let mut v;
    {
        let mut p = b.begin_push_attributes();
        for c in calls {
            let ok = guard(|| with_prim!(c.ty, T => {
                let vals: Vec<T> = if c.real { c.bytes.chunks(std::mem::size_of::<T>()).map(from_val::<T>).collect() } else { vec![<T as bytemuck::Zeroable>::zeroed(); c.vs.len()] };
                p.push_attribute_range(&c.ask, &vals)
            }, unreachable!())).is_some();
            tr.emit(json!({"e": "push", "at": c.jat, "typed": c.typed, "vs": c.vs, "ok": ok}));
        }
        v = if commit { let ok = guard(move || p.done()).is_some(); json!({"e": "done", "ok": ok}) } else { drop(p); json!({"e": "drop"}) };
    }
    let (obs, len) = contents(b, l);
    v["obs"] = obs;
    v["len"] = json!(len);
    tr.emit(v);
}

/// The sessions that TLC enumerated (GenPusher), several on the same buffer.
fn replay(cases: &str, tr: &mut Trace, r: &mut StdRng) {
    let text = std::fs::read_to_string(cases).unwrap();
    let mut by: std::collections::BTreeMap<usize, Vec<Value>> = Default::default();
    for line in text.lines() { let c: Value = serde_json::from_str(line).unwrap(); by.entry(c["na"].as_u64().unwrap() as usize).or_default().push(c); }
    for (na, mut cs) in by {
        for i in (1..cs.len()).rev() { let j = r.gen_range(0..=i); cs.swap(i, j); }
        for chunk in cs.chunks(8) {
            tr.scenario();
            let l = loop { let l = prim_lay(r); if l.na() == na { break l } };
            let n = r.gen_range(0..3);
            let ps = l.rand_pts(r, n);
            let mut b = hashmap_of(&l, &ps);
            let (obs, len) = contents(&b, &l);
            tr.emit(json!({"e": "new", "na": na, "pts": ps, "obs": obs, "len": len}));
            for c in chunk {
                let calls: Vec<Call> = c["calls"].as_array().unwrap().iter().map(|x| {
                    let (at, k) = (x["at"].as_u64().unwrap() as usize, x["k"].as_u64().unwrap());
                    let vs: Vec<i64> = (0..k).map(|_| r.gen_range(0..=MAXTOK)).collect();
                    let i = if at == 0 { r.gen_range(0..na) } else { at - 1 };
                    let def = &l.attrs[i];
                    Call { jat: at, typed: true, ask: if at == 0 { attr("nope", def.datatype()) } else { def.clone() }, ty: def.datatype(), bytes: l.vals(i, &vs), vs, real: true }
                }).collect();
                session(tr, &mut b, &l, &calls, c["fin"] == "done");
            }
        }
    }
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(1500), c.rng());
    if let Some(f) = &c.cases { replay(f, &mut tr, &mut r) }
    for i in 0..500 * c.k {
        tr.scenario();
        let l = prim_lay(&mut r);
        let large = c.thorough && i % 50 == 0 || i % 125 == 40;
        let n = if large { r.gen_range(60..200) } else { r.gen_range(0..4) };
        let ps = l.rand_pts(&mut r, n);
        let mut b = hashmap_of(&l, &ps);
        let (obs, len) = contents(&b, &l);
        tr.emit(json!({"e": "new", "na": l.na(), "pts": ps, "obs": obs, "len": len}));
        for _ in 0..r.gen_range(2..7) {
            if r.gen_bool(0.15) {
                let k = r.gen_range(0..3);
                let ps = l.rand_pts(&mut r, k);
                unsafe { b.push_points(&l.pts_bytes(&ps)) };
                let (obs, len) = contents(&b, &l);
                tr.emit(json!({"e": "rows", "ps": ps, "obs": obs, "len": len}));
                continue;
            }
            let cnt = if r.gen_bool(0.1) { 0 } else if large { *pick(&mut r, &[64, 129, 300, 700]) } else { r.gen_range(1..5) };
            // mostly every attribute once, in any order; sometimes one is missing, repeated or uneven
            let mut order: Vec<usize> = (0..l.na()).collect();
            for i in (1..order.len()).rev() { let j = r.gen_range(0..=i); order.swap(i, j); }
            match r.gen_range(0..10) { 0 => { order.pop(); } 1 | 2 => { let k = order[r.gen_range(0..order.len())]; let at = r.gen_range(0..order.len() + 1); order.insert(at, k); } _ => () }
            let calls: Vec<Call> = order.into_iter().map(|at| {
                let k = if r.gen_bool(0.07) { r.gen_range(0..6) } else { cnt };
                let vs: Vec<i64> = (0..k).map(|_| r.gen_range(0..=MAXTOK)).collect();
                let def = &l.attrs[at];
                let (mut jat, mut typed, mut ask, mut ty) = (at + 1, true, def.clone(), def.datatype());
                match r.gen_range(0..24) {
                    0 => { ask = attr("nope", def.datatype()); jat = 0; }
                    1 => { // the right name with another type, and the same type for the values
                        let o = *pick(&mut r, &PRIMS);
                        if o != def.datatype() { ask = def.with_custom_datatype(o); ty = o; jat = 0; } }
                    2 => { let o = *pick(&mut r, &PRIMS); if o != def.datatype() { ty = o; typed = false; } }
                    _ => (),
                }
                Call { jat, typed, ask, ty, bytes: l.vals(at, &vs), vs, real: ty == def.datatype() }
            }).collect();
            session(&mut tr, &mut b, &l, &calls, r.gen_bool(0.85));
        }
    }
    tr.summary()
}
