//! BufferLayoutConverter over all storage combinations.
use pasture_core::containers::*;
use pasture_core::layout::conversion::BufferLayoutConverter;
use pasture_core::layout::*;
use pv::types::*;
use pv::util::*;
use pv::with_prim;
use serde_json::{json, Value};
use super::casts::shape;

type D = PointAttributeDataType;
/// One attribute value: components in units of one half.
type Val = Vec<i64>;
type Row = Vec<Val>;

fn elem_name(d: D) -> &'static str {
    match d {
        D::U8 | D::Vec3u8 | D::Vec4u8 => "U8", D::I8 => "I8", D::U16 | D::Vec3u16 => "U16", D::I16 => "I16", D::U32 => "U32", D::I32 | D::Vec3i32 => "I32",
        D::U64 => "U64", D::I64 => "I64", D::F32 | D::Vec3f32 => "F32", D::F64 | D::Vec3f64 => "F64", _ => "raw",
    }
}
fn put(d: D, v: &Val) -> Vec<u8> {
    match elem_name(d) {
        "raw" => { let n = d.size() as usize; (0..n).map(|k| ((v[0] / 2) as usize * (k + 1)) as u8).collect() }
        e => v.iter().flat_map(|h| { let i = h / 2; match e {
            "U8" => vec![i as u8], "I8" => vec![i as i8 as u8], "U16" => (i as u16).to_le_bytes().to_vec(), "I16" => (i as i16).to_le_bytes().to_vec(),
            "U32" => (i as u32).to_le_bytes().to_vec(), "I32" => (i as i32).to_le_bytes().to_vec(), "U64" => (i as u64).to_le_bytes().to_vec(), "I64" => i.to_le_bytes().to_vec(),
            "F32" => (*h as f32 / 2.0).to_le_bytes().to_vec(), _ => (*h as f64 / 2.0).to_le_bytes().to_vec(),
        } }).collect(),
    }
}
fn get(d: D, b: &[u8]) -> Val {
    macro_rules! g { ($t:ty) => { b.chunks(std::mem::size_of::<$t>()).map(|c| (<$t>::from_le_bytes(c.try_into().unwrap()) as f64 * 2.0).clamp(-2e9, 2e9)).map(|x| if x.fract() == 0.0 { x as i64 } else { 2_000_000_001 }).collect() } }
    match elem_name(d) {
        "raw" => {
            let v = (0..126i64).find(|i| put(d, &vec![i * 2]) == b).map(|i| i * 2).unwrap_or(-1);
            vec![v]
        }
        "U8" => g!(u8), "I8" => g!(i8), "U16" => g!(u16), "I16" => g!(i16), "U32" => g!(u32), "I32" => g!(i32), "U64" => g!(u64), "I64" => g!(i64), "F32" => g!(f32), _ => g!(f64),
    }
}
fn rand_val(r: &mut StdRng, d: D) -> Val {
    let (_, n) = shape(d);
    if elem_name(d) == "raw" { return vec![2 * r.gen_range(0..126)]; }
    (0..n).map(|_| match elem_name(d) {
        "U8" => 2 * r.gen_range(0..256), "I8" => 2 * r.gen_range(0..128),
        "F32" | "F64" => if r.gen_bool(0.6) { r.gen_range(-300..700) } else { r.gen_range(-60_000..60_000) },
        _ => if r.gen_bool(0.6) { 2 * r.gen_range(0..300) } else { 2 * r.gen_range(0..30_000) },
    }).collect()
}
/// Transformation number `n` on the bytes of a value, the same function as X of the specification.
fn xform(d: D, n: u32, v: &Val) -> Val {
    let fl = matches!(elem_name(d), "F32" | "F64");
    v.iter().map(|h| match (n, fl) {
        (1, true) => 3 * h + 1, (1, false) => 2 * (3 * (h / 2) + 1).rem_euclid(97),
        (_, true) => 5 - h, (_, false) => 2 * (5 * (h / 2) + 3).rem_euclid(101),
    }).collect()
}

struct L { lay: PointLayout, defs: Vec<PointAttributeDefinition> }
impl L {
    fn new(r: &mut StdRng, defs: Vec<PointAttributeDefinition>) -> L {
        let lay = match r.gen_range(0..3) {
            0 => PointLayout::from_attributes(&defs),
            1 => PointLayout::from_attributes_packed(&defs, *pick(r, &[1, 2, 4])),
            _ => {
                // members in another order in memory
                let mut off = r.gen_range(0..3u64);
                let mut ms: Vec<_> = defs.iter().rev().map(|d| { let m = d.at_offset_in_type(off); off += d.size() + r.gen_range(0..3u64); m }).collect();
                ms.reverse();
                PointLayout::from_members_and_alignment(&ms, *pick(r, &[1, 4, 8]))
            }
        };
        L { lay, defs }
    }
    fn j(&self) -> Value { json!(self.defs.iter().map(|d| json!({"n": d.name(), "t": dt_name(d.datatype())})).collect::<Vec<_>>()) }
    fn bytes(&self, ps: &[Row]) -> Vec<u8> {
        let n = self.lay.size_of_point_entry() as usize;
        ps.iter().flat_map(|p| { let mut v = vec![0xEE; n]; for (m, x) in self.lay.attributes().zip(p) { v[m.byte_range_within_point()].copy_from_slice(&put(m.datatype(), x)); } v }).collect()
    }
    fn rows<'a>(&self, b: &impl BorrowedBuffer<'a>) -> Vec<Row> {
        (0..b.len()).map(|i| self.defs.iter().map(|d| { let mut v = vec![0; d.size() as usize]; b.get_attribute(d, i, &mut v); get(d.datatype(), &v) }).collect()).collect()
    }
    fn rand(&self, r: &mut StdRng, n: usize) -> Vec<Row> { (0..n).map(|_| self.defs.iter().map(|d| rand_val(r, d.datatype())).collect()).collect() }
    fn v(&self, ps: &[Row]) -> VectorBuffer { let mut b = VectorBuffer::new_from_layout(self.lay.clone()); unsafe { b.push_points(&self.bytes(ps)) }; b }
    fn h(&self, ps: &[Row]) -> HashMapBuffer { let mut b = HashMapBuffer::new_from_layout(self.lay.clone()); unsafe { b.push_points(&self.bytes(ps)) }; b }
    fn e(&self, ps: &[Row]) -> ExternalMemoryBuffer<Vec<u8>> { ExternalMemoryBuffer::new(self.bytes(ps), self.lay.clone()) }
}

/// `$body` with `$s` bound to a reference to the points `ps` in one of the storage kinds.
macro_rules! with_source {
    ($kind:expr, $l:expr, $ps:expr, $pad:expr, $s:ident => $body:expr) => {{
        let (lo, hi) = (1, 1 + $ps.len());
        match $kind {
            0 => { let b = $l.v($ps); let $s = &b; $body }
            1 => { let b = $l.h($ps); let $s = &b; $body }
            2 => { let b = $l.e($ps); let $s = &b; $body }
            3 => { let b = $l.v($pad); let x = b.slice(lo..hi); let $s = &x; $body }
            4 => { let b = $l.h($pad); let x = b.slice(lo..hi); let $s = &x; $body }
            5 => { let mut b = $l.v($pad); let x = b.slice_mut(lo..hi); let $s = &x; $body }
            6 => { let mut b = $l.h($pad); let x = b.slice_mut(lo..hi); let $s = &x; $body }
            7 => { let b = $l.v($pad); let x = b.slice(0..$pad.len()); let y = x.slice(lo..hi); let $s = &y; $body }
            _ => { let b = $l.e($pad); let x = b.slice(lo..hi); let $s = &x; $body }
        }
    }};
}

fn targets(kind: u32, l: &L, pre: &[Row], pad: &[Row], f: &mut dyn FnMut(&mut Tgt)) -> Vec<Row> {
    let (lo, hi) = (1, 1 + pre.len());
    let whole;
    macro_rules! run { ($t:expr) => {{ let mut t = $t; f(&mut t) }} }
    match kind {
        0 => { let mut b = l.v(pre); run!(Tgt::V(&mut b)); return l.rows(&b); }
        1 => { let mut b = l.h(pre); run!(Tgt::H(&mut b)); return l.rows(&b); }
        2 => { let mut b = l.e(pre); run!(Tgt::E(&mut b)); return l.rows(&b); }
        3 => { let mut b = l.v(pad); run!(Tgt::Vs(&mut b, lo..hi)); whole = l.rows(&b); }
        4 => { let mut b = l.h(pad); run!(Tgt::Hs(&mut b, lo..hi)); whole = l.rows(&b); }
        _ => { let mut b = l.e(pad); run!(Tgt::Es(&mut b, lo..hi)); whole = l.rows(&b); }
    }
    // the points around the slice must not change; if they do, show it
    let frame = whole.len() == pad.len() && whole[..lo] == pad[..lo] && whole[hi..] == pad[hi..];
    if frame { whole[lo..hi].to_vec() } else { whole }
}
pub enum Tgt<'a> { V(&'a mut VectorBuffer), H(&'a mut HashMapBuffer), E(&'a mut ExternalMemoryBuffer<Vec<u8>>),
    Vs(&'a mut VectorBuffer, std::ops::Range<usize>), Hs(&'a mut HashMapBuffer, std::ops::Range<usize>), Es(&'a mut ExternalMemoryBuffer<Vec<u8>>, std::ops::Range<usize>) }
macro_rules! each_tgt { ($t:expr, $x:ident => $body:expr) => { match $t {
    Tgt::V(b) => { let $x = &mut **b; $body } Tgt::H(b) => { let $x = &mut **b; $body } Tgt::E(b) => { let $x = &mut **b; $body }
    Tgt::Vs(b, g) => { let mut s = b.slice_mut(g.clone()); let $x = &mut s; $body }
    Tgt::Hs(b, g) => { let mut s = b.slice_mut(g.clone()); let $x = &mut s; $body }
    Tgt::Es(b, g) => { let mut s = b.slice_mut(g.clone()); let $x = &mut s; $body }
} } }

fn conv_dt(r: &mut StdRng, d: D) -> D {
    let vec3 = |x: D| format!("{x:?}").starts_with("Vec3");
    match d {
        D::ByteArray(_) | D::Custom { .. } | D::Vec4u8 => d,
        _ => { let c: Vec<D> = PRIMS.iter().copied().filter(|x| vec3(*x) == vec3(d) && *x != D::Vec4u8).collect(); *pick(r, &c) }
    }
}
fn dt(r: &mut StdRng) -> D {
    match r.gen_range(0..16) { 0 => D::ByteArray(*pick(r, &[1, 3, 9])), 1 => D::Vec4u8, _ => *pick(r, &PRIMS) }
}

/// The converters that TLC enumerated (GenConversion), each used once or twice.
fn replay(cases: &str, tr: &mut Trace, r: &mut StdRng) {
    let text = std::fs::read_to_string(cases).unwrap();
    let defs = |v: &Value| -> Vec<_> { v.as_array().unwrap().iter().map(|a| attr(a["n"].as_str().unwrap(), *PRIMS.iter().find(|d| dt_name(**d) == a["t"].as_str().unwrap()).unwrap())).collect() };
    for line in text.lines() {
        let c: Value = serde_json::from_str(line).unwrap();
        let (from, to) = (L::new(r, defs(&c["from"])), L::new(r, defs(&c["to"])));
        for (n, maps) in c["all"].as_array().unwrap().iter().enumerate() {
            if n % 16 == 0 { tr.scenario(); }
            let maps = maps.as_array().unwrap();
            for dflt in [true, false] {
                if !dflt && !maps.is_empty() { continue }
                let conv = guard(|| if dflt { BufferLayoutConverter::for_layouts_with_default(&from.lay, &to.lay) } else { BufferLayoutConverter::for_layouts(&from.lay, &to.lay) });
                tr.emit(json!({"e": "new", "from": from.j(), "to": to.j(), "dflt": dflt, "ok": conv.is_some()}));
                let Some(mut conv) = conv else { continue };
                for m in maps {
                    let us = |k: &str| m[k].as_u64().unwrap() as usize;
                    let (a, b, pre) = (from.defs[us("i") - 1].clone(), to.defs[us("j") - 1].clone(), m["pre"].as_bool().unwrap());
                    let tt = if pre { a.datatype() } else { b.datatype() };
                    map_of(tr, &mut conv, a, b, us("x") as u32, pre, tt);
                }
                convert(tr, r, &conv, &from, &to);
            }
        }
    }
}

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(800), c.rng());
    if let Some(f) = &c.cases { replay(f, &mut tr, &mut r) }
    for _ in 0..700 * c.k {
        tr.scenario();
        scenario(&mut tr, &mut r);
    }
    tr.summary()
}

fn scenario(tr: &mut Trace, r: &mut StdRng) {
    const N: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
    let nf = r.gen_range(1..6);
    let mut fdefs: Vec<_> = N[..nf].iter().map(|n| attr(n, dt(r))).collect();
    let mut tdefs: Vec<PointAttributeDefinition> = vec![];
    for f in &fdefs { if r.gen_bool(0.7) { tdefs.push(f.with_custom_datatype(if r.gen_bool(0.3) { f.datatype() } else if r.gen_bool(0.97) { conv_dt(r, f.datatype()) } else { dt(r) })); } }
    let dflt = r.gen_bool(0.6);
    for _ in 0..r.gen_range(0..3) {
        if dflt || r.gen_bool(0.1) { tdefs.push(attr(&format!("x{}", tdefs.len()), if r.gen_bool(0.6) { let f = pick(r, &fdefs).datatype(); conv_dt(r, f) } else { dt(r) })); }
    }
    if tdefs.is_empty() { tdefs.push(fdefs[0].clone()); }
    for v in [&mut fdefs, &mut tdefs] { for i in (1..v.len()).rev() { let j = r.gen_range(0..=i); v.swap(i, j); } }
    let (from, to) = (L::new(r, fdefs), L::new(r, tdefs));
    let conv = guard(|| if dflt { BufferLayoutConverter::for_layouts_with_default(&from.lay, &to.lay) } else { BufferLayoutConverter::for_layouts(&from.lay, &to.lay) });
    tr.emit(json!({"e": "new", "from": from.j(), "to": to.j(), "dflt": dflt, "ok": conv.is_some()}));
    let Some(mut conv) = conv else { return };
    for _ in 0..r.gen_range(1..4) {
        for _ in 0..if r.gen_bool(0.5) { 0 } else { r.gen_range(1..3) } { map(tr, r, &mut conv, &from, &to); }
        for _ in 0..r.gen_range(1..5) { convert(tr, r, &conv, &from, &to); }
    }
}

fn map(tr: &mut Trace, r: &mut StdRng, conv: &mut BufferLayoutConverter, from: &L, to: &L) {
    let mut a = pick(r, &from.defs).clone();
    // a target the source can be converted to, if there is one
    let fit: Vec<_> = to.defs.iter().filter(|d| { let v3 = |x: D| format!("{x:?}").starts_with("Vec3"); d.datatype() == a.datatype() || (shape(d.datatype()).1 == 1 && shape(a.datatype()).1 == 1 && PRIMS.contains(&a.datatype()) && PRIMS.contains(&d.datatype())) || (v3(d.datatype()) && v3(a.datatype())) }).cloned().collect();
    let mut b = if !fit.is_empty() && r.gen_bool(0.95) { pick(r, &fit).clone() } else { pick(r, &to.defs).clone() };
    match r.gen_range(0..30) {
        0 => a = attr("zz", a.datatype()), 1 => b = attr("zz", b.datatype()), 2 => a = a.with_custom_datatype(dt(r)), 3 => b = b.with_custom_datatype(dt(r)), _ => () }
    let x = r.gen_range(0..3u32);
    let pre = r.gen_bool(0.5);
    let side = if pre { a.datatype() } else { b.datatype() };
    let mut tt = side;
    if r.gen_bool(0.05) { tt = *pick(r, &PRIMS); }
    let x = if PRIMS.contains(&tt) { x } else { 0 };
    map_of(tr, conv, a, b, x, pre, tt)
}
fn map_of(tr: &mut Trace, conv: &mut BufferLayoutConverter, a: PointAttributeDefinition, b: PointAttributeDefinition, x: u32, pre: bool, tt: D) {
    let ok = guard(|| {
        if x == 0 { conv.set_custom_mapping(&a, &b) }
        else { with_prim!(tt, T => conv.set_custom_mapping_with_transformation::<T, _>(&a, &b, move |v: T| from_val::<T>(&put(tt, &xform(tt, x, &get(tt, bytemuck::bytes_of(&v))))), pre), unreachable!()) }
    }).is_some();
    let j = |d: &PointAttributeDefinition| json!({"n": d.name(), "t": dt_name(d.datatype())});
    tr.emit(json!({"e": "map", "a": j(&a), "b": j(&b), "x": x, "pre": pre && x != 0, "tt": dt_name(tt), "ok": ok}));
}

fn convert(tr: &mut Trace, r: &mut StdRng, conv: &BufferLayoutConverter, from: &L, to: &L) {
    // now and then more points than any internal block holds
    let large = r.gen_bool(0.006);
    let n = if large { *pick(r, &[65, 130, 260, 517, 1030]) } else { weighted(r, &[1, 2, 2, 3, 2, 2]) };
    // now and then a source (or target) with another layout
    let (mut sl, mut tl) = (None, None);
    match r.gen_range(0..30) { 0 => sl = Some(other(r, from)), 1 => tl = Some(other(r, to)), _ => () }
    let (f, t) = (sl.as_ref().unwrap_or(from), tl.as_ref().unwrap_or(to));
    let kind = r.gen_range(0..9u32);
    let ps = f.rand(r, n);
    let mut pad = f.rand(r, n + 2);
    pad[1..1 + n].clone_from_slice(&ps);
    if r.gen_bool(0.35) && tl.is_none() {
        let h = r.gen_bool(0.5);
        let out = with_source!(kind, f, &ps, &pad, s => guard(|| if h { let o: HashMapBuffer = conv.convert::<HashMapBuffer, _>(s); to.rows(&o) } else { let o: VectorBuffer = conv.convert::<VectorBuffer, _>(s); to.rows(&o) }));
        tr.emit(json!({"e": "convert", "src": kind, "h": h, "samelay": sl.is_none(), "ps": ps, "ok": out.is_some(), "out": out.unwrap_or_default()}));
        return;
    }
    let all = r.gen_bool(0.25);
    let m = if large || all && r.gen_bool(0.6) { n } else { weighted(r, &[1, 2, 2, 3, 2, 2]) };
    let pre = t.rand(r, m);
    let mut tpad = t.rand(r, m + 2);
    tpad[1..1 + m].clone_from_slice(&pre);
    let tk = r.gen_range(0..6u32);
    let (a, b, c, d);
    if r.gen_bool(0.85) {
        let k = if large { n - r.gen_range(0..3) } else { r.gen_range(0..n.min(m) + 1) };
        a = r.gen_range(0..n - k + 1); b = a + k; c = r.gen_range(0..m - k + 1); d = c + k;
    } else { a = r.gen_range(0..n + 2); b = r.gen_range(0..n + 3); c = r.gen_range(0..m + 2); d = if r.gen_bool(0.7) { c + b.saturating_sub(a) } else { r.gen_range(0..m + 3) }; }
    let mut ok = false;
    let mut src = vec![];
    let out = targets(tk, t, &pre, &tpad, &mut |tg| {
        with_source!(kind, f, &ps, &pad, s => {
            ok = guard(|| each_tgt!(tg, x => if all { conv.convert_into(s, x) } else { conv.convert_into_range(s, a..b, x, c..d) })).is_some();
            src = f.rows(s);
        })
    });
    let samelay = sl.is_none() && tl.is_none();
    if all { tr.emit(json!({"e": "intoall", "src_kind": kind, "dst_kind": tk, "samelay": samelay, "ps": ps, "pre": pre, "ok": ok, "out": out, "src": src})); }
    else { tr.emit(json!({"e": "into", "src_kind": kind, "dst_kind": tk, "samelay": samelay, "ps": ps, "a": a, "b": b, "pre": pre, "c": c, "d": d, "ok": ok, "out": out, "src": src})); }
}

/// A layout that differs from `l`: in an offset, a type, or the number of attributes.
fn other(r: &mut StdRng, l: &L) -> L {
    let mut defs = l.defs.clone();
    match r.gen_range(0..2) { 0 => defs.push(attr("extra", dt(r))), _ => { let k = r.gen_range(0..defs.len()); defs[k] = attr("renamed", defs[k].datatype()); } }
    L::new(r, defs)
}
