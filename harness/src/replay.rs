//! Replays behaviours that TLC generated from the Buffer specification (GenBuffer) on every kind of buffer.
use crate::access::*;
use crate::buf::*;
use crate::drive_buf::iter_hows;
use pasture_core::layout::*;
use pv::types::*;
use pv::util::*;
use serde_json::Value;

fn us(v: &Value, k: &str) -> usize { v[k].as_i64().unwrap() as usize }
fn toks(v: &Value) -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() }
fn rows(v: &Value) -> Rows { v.as_array().unwrap().iter().map(toks).collect() }
fn bools(v: &Value) -> Vec<bool> { v.as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect() }
fn path(v: &Value) -> Path { v["w"].as_array().unwrap().iter().map(|r| (r[0].as_u64().unwrap() as usize, r[1].as_u64().unwrap() as usize)).collect() }

/// A layout with k attributes: one of a point type, or made at run time.
fn lay_of(r: &mut StdRng, k: usize, typed: bool) -> Lay {
    if typed { return Lay::of_ty(match k { 1 => Ty::One, _ => Ty::Small }) }
    let attrs = rand_attrs(r, k);
    let l = match r.gen_range(0..3) {
        0 => PointLayout::from_attributes(&attrs),
        1 => PointLayout::from_attributes_packed(&attrs, *pick(r, &[1, 2, 4, 8])),
        _ => {
            let mut off = r.gen_range(0..3u64);
            let mut ms = vec![];
            for a in attrs.iter().rev() { ms.push(a.at_offset_in_type(off)); off += a.size() + r.gen_range(0..4u64); }
            ms.reverse();
            PointLayout::from_members_and_alignment(&ms, *pick(r, &[1, 4]))
        }
    };
    Lay::new(l, None)
}

fn call(s: &mut Sc, op: &Value, r: &mut StdRng, full: bool) {
    let typed = s.l.ty.is_some();
    let own = s.buf.kind() != "E";
    let st = r.gen_range(0..4);
    match op["e"].as_str().unwrap() {
        "push" if own => { let how = *pick(r, if typed { &["push_points", "push_points1", "push_point"][..] } else { &["push_points", "push_points1"][..] }); s.push(rows(&op["ps"]), how, r) }
        "append" if own => { let (src, how, sl) = (r.gen_range(0..3), r.gen_range(0..2), r.gen_bool(0.4)); s.append(rows(&op["ps"]), src, how, sl, None, r) }
        "resize" if own => s.resize(us(op, "n"), r),
        "clear" if own => s.clear(r),
        "clone" if own => s.clone_buf(r),
        "collect" if own && typed => { let sh = r.gen_range(0..10); s.collect(rows(&op["ps"]), sh, r) }
        "collect" | "push" | "append" | "resize" | "clear" | "clone" => {}
        "setp" => s.write(&path(op), st, Wr::SetPt { i: us(op, "i"), p: toks(&op["p"]) }, r),
        "setps" => s.write(&path(op), st, Wr::SetPts { a: us(op, "a"), b: us(op, "b"), ps: rows(&op["ps"]) }, r),
        "seta" => s.write(&path(op), st, Wr::SetAttr { at: us(op, "at") - 1, i: us(op, "i"), v: op["v"].as_i64().unwrap() }, r),
        "setas" => s.write(&path(op), st, Wr::SetAttrs { at: us(op, "at") - 1, a: us(op, "a"), b: us(op, "b"), vs: toks(&op["vs"]) }, r),
        "swap" => s.write(&path(op), st, Wr::Swap { i: us(op, "i"), j: us(op, "j") }, r),
        "xform" => if has_prim(&s.l, us(op, "at") - 1) { s.write(&path(op), st, Wr::Xform { at: us(op, "at") - 1, mul: op["mul"].as_i64().unwrap(), add: op["add"].as_i64().unwrap() }, r) },
        "sort" => if typed && s.buf.inter() { s.write(&path(op), st, Wr::Sort { at: us(op, "at") - 1, m: op["m"].as_i64().unwrap(), desc: op["desc"].as_bool().unwrap() }, r) },
        "len" => for st in if full { 0..4 } else { st..st + 1 } { s.read_len(&path(op), st) },
        // every way of reading
        "rows" => {
            let (p, a, b) = (path(op), us(op, "a"), us(op, "b"));
            if !full { return s.read_rows(&p, st, a, b, r) }
            for st in 0..4 { for how in row_hows(&s.l, s.buf.inter(), s.plain(&p, st)) { s.read_rows_how(&p, st, a, b, how) } if p.is_empty() { break } }
        }
        "col" => {
            let (p, at, a, b) = (path(op), us(op, "at") - 1, us(op, "a"), us(op, "b"));
            if !full { return s.read_attr(&p, st, at, a, b, r) }
            for st in 0..4 { for how in attr_hows(&s.l, at, s.buf.inter(), s.plain(&p, st)) { s.read_attr_how(&p, st, at, a, b, how) } if p.is_empty() { break } }
        }
        "iter" => {
            let at = r.gen_range(0..s.l.na());
            let hows = iter_hows(s, at);
            if hows.is_empty() { return }
            let how = *pick(r, &hows);
            let sc: Vec<(String, usize)> = op["script"].as_array().unwrap().iter().map(|c| (c["c"].as_str().unwrap().to_string(), us(c, "n"))).collect();
            s.iter(&path(op), st, how, at, &sc)
        }
        "filter" => { let d = r.gen_range(0..2); s.filter(bools(&op["pred"]), d, r) }
        "filter_into" => { let (d, h) = (r.gen_range(0..3), r.gen_bool(0.5)); s.filter_into(bools(&op["pred"]), d, rows(&op["pre"]), None, h, None, r) }
        e => panic!("harness: case {e}"),
    }
}

/// At most `max` calls of a tour are made at once (a sample of it, in random order).
pub fn run(prop: &str, cases: &str, tr: &mut Trace, r: &mut StdRng, max: usize, reps: usize) -> usize {
    let text = std::fs::read_to_string(cases).unwrap();
    let mut n = 0;
    for line in text.lines() {
        let c: Value = serde_json::from_str(line).unwrap();
        let (k, ps) = (us(&c, "na"), rows(&c["pts"]));
        let kinds: &[usize] = match prop { "B01" => &[0, 1], "B06" => &[0, 2], "B07" => &[1], _ => &[0, 1, 2] };
        for kind in kinds {
            for rep in 0..reps {
                let l = lay_of(r, k, prop == "B06" || (rep + kind) % 2 == 0);
                let tour = c.get("tour").is_some();
                let mut ops: Vec<&Value> = c[if tour { "tour" } else { "seq" }].as_array().unwrap().iter().collect();
                if tour {
                    for i in (1..ops.len()).rev() { let j = r.gen_range(0..=i); ops.swap(i, j); }
                    ops.truncate(max);
                }
                n += 1;
                // a new buffer now and then, so that a violation comes with a short history
                let mut it = ops.into_iter().peekable();
                while it.peek().is_some() {
                    let mut s = Sc::new(Lay::new(l.layout.clone(), l.ty), *kind, ps.clone(), tr, r);
                    for op in it.by_ref().take(40) { call(&mut s, op, r, prop == "B03" && c["pts"].as_array().unwrap().len() == 3); }
                }
            }
        }
    }
    n
}
