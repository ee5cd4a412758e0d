//! Building, querying, comparing and serializing layouts.
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use pv::made::*;
pub use pv::show::*;
use pv::types::*;
use pv::util::*;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Names with near misses: prefixes, case, builtin names, the empty name.
const NAMES: [&str; 14] = ["a", "A", "ab", "b", "Position3D", "Position3d", "Intensity", "", "c", "d", "e", "ClassificationFlags", "Classification", "\u{00e4} x"];

fn any_dt(r: &mut StdRng) -> PointAttributeDataType {
    match r.gen_range(0..24) {
        0 => PointAttributeDataType::ByteArray(*pick(r, &[0u64, 1, 2, 3, 5, 8, 16, 300])),
        1 => PointAttributeDataType::ByteArray(r.gen_range(1..70)),
        2 | 3 => {
            let m = *pick(r, &[1u64, 2, 4, 8, 16, 32]);
            PointAttributeDataType::Custom { size: m * r.gen_range(0..5), min_alignment: m, name: uuid::Uuid::from_u128(r.gen_range(1..3)) }
        }
        _ => *pick(r, &PRIMS),
    }
}
fn any_def(r: &mut StdRng) -> PointAttributeDefinition {
    let n = *pick(r, &NAMES);
    let name = if r.gen_bool(0.5) { Cow::Borrowed(n) } else { Cow::Owned(n.to_string()) };
    PointAttributeDefinition::custom(name, any_dt(r))
}
/// Definitions with (mostly) distinct names.
fn any_defs(r: &mut StdRng, n: usize, dup: f64) -> Vec<PointAttributeDefinition> {
    let mut v: Vec<PointAttributeDefinition> = vec![];
    while v.len() < n {
        let d = any_def(r);
        if r.gen_bool(dup) || v.iter().all(|x| x.name() != d.name()) { v.push(d); }
        else if r.gen_bool(0.7) { v.push(PointAttributeDefinition::custom(Cow::Owned(format!("n{}", v.len())), d.datatype())) }
    }
    v
}
fn packing(r: &mut StdRng) -> u64 { *pick(r, &[0, 0, 1, 1, 2, 4, 8, 16, 32]) }
fn fa(p: u64) -> FieldAlignment { if p == 0 { FieldAlignment::Default } else { FieldAlignment::Packed(p) } }

fn any_members(r: &mut StdRng, defs: &[PointAttributeDefinition], messy: f64) -> Vec<PointAttributeMember> {
    // laid out in a random memory order, packed or with gaps; sometimes one is moved onto another
    let mut order: Vec<usize> = (0..defs.len()).collect();
    for i in (1..order.len()).rev() { let j = r.gen_range(0..=i); order.swap(i, j); }
    let gap = r.gen_range(0..5u64);
    let mut off = if r.gen_bool(0.5) { 0 } else { r.gen_range(0..20) };
    let mut offs = vec![0; defs.len()];
    for i in order { offs[i] = off; off += defs[i].size() + if gap > 0 { r.gen_range(0..gap) } else { 0 }; }
    if defs.len() > 1 && r.gen_bool(messy) {
        let (i, j) = (r.gen_range(0..defs.len()), r.gen_range(0..defs.len()));
        offs[i] = match r.gen_range(0..4) {
            0 => offs[j],
            1 => (offs[j] + defs[j].size()).saturating_sub(1),
            2 => (offs[j] + 1).saturating_sub(defs[i].size()),
            _ => r.gen_range(0..40),
        };
    }
    defs.iter().zip(offs).map(|(d, o)| d.at_offset_in_type(o)).collect()
}

struct Sc<'a> { tr: &'a mut Trace, ls: Vec<PointLayout> }
impl Sc<'_> {
    /// A building call on slot s; `f` gives the new layout.
    fn build(&mut self, mut e: Value, s: usize, f: impl FnOnce(&PointLayout) -> PointLayout) {
        let r = guard(|| f(&self.ls[s]));
        e["s"] = json!(s + 1);
        e["ok"] = json!(r.is_some());
        if let Some(l) = r { self.ls[s] = l; }
        e["lay"] = jlay(&self.ls[s]);
        self.tr.emit(e);
    }
    fn add(&mut self, s: usize, d: &PointAttributeDefinition, p: u64) {
        // in place, so that a refused call shows what it leaves behind
        let ok = guard(|| ()).is_some() && { let l = &mut self.ls[s]; guard(|| l.add_attribute(d.clone(), fa(p))).is_some() };
        let v = json!({"e": "add", "s": s + 1, "def": jdef(d), "p": p, "ok": ok, "lay": jlay(&self.ls[s])});
        self.tr.emit(v);
    }
    fn random_build(&mut self, r: &mut StdRng, s: usize) {
        match r.gen_range(0..10) {
            0 => {
                let n = r.gen_range(0..8);
                let defs = any_defs(r, n, 0.03);
                let jd: Vec<_> = defs.iter().map(jdef).collect();
                if r.gen_bool(0.5) { self.build(json!({"e": "from", "defs": jd, "p": 0, "via": "from_attributes"}), s, |_| PointLayout::from_attributes(&defs)); }
                else { self.build(json!({"e": "from", "defs": jd, "p": 0, "via": "collect"}), s, |_| defs.iter().cloned().collect()); }
            }
            1 => {
                let n = r.gen_range(0..8);
                let defs = any_defs(r, n, 0.03);
                let p = *pick(r, &[1u64, 2, 4, 8, 16]);
                let jd: Vec<_> = defs.iter().map(jdef).collect();
                self.build(json!({"e": "from", "defs": jd, "p": p, "via": "packed"}), s, |_| PointLayout::from_attributes_packed(&defs, p));
            }
            2 | 3 => {
                let n = r.gen_range(0..7);
                let defs = any_defs(r, n, 0.04);
                let ms = any_members(r, &defs, 0.3);
                let al = *pick(r, &[1u64, 2, 4, 8, 16]);
                let jm: Vec<_> = ms.iter().map(jmem).collect();
                self.build(json!({"e": "members", "ms": jm, "al": al}), s, |_| PointLayout::from_members_and_alignment(&ms, al));
            }
            4 => {
                let from = r.gen_range(0..self.ls.len());
                let l = self.ls[from].clone();
                self.build(json!({"e": "copy", "from": from + 1}), s, |_| l);
            }
            5 => {
                // the attributes of another slot, reordered, repacked or moved: near-equal layouts
                let from = r.gen_range(0..self.ls.len());
                let mut ms: Vec<_> = self.ls[from].attributes().cloned().collect();
                if ms.len() > 1 && r.gen_bool(0.5) { let i = r.gen_range(1..ms.len()); ms.swap(i - 1, i); }
                if !ms.is_empty() && r.gen_bool(0.4) {
                    let i = r.gen_range(0..ms.len());
                    ms[i] = match r.gen_range(0..3) {
                        0 => ms[i].attribute_definition().at_offset_in_type(ms[i].offset() + r.gen_range(0..3)),
                        1 => ms[i].attribute_definition().with_custom_datatype(any_dt(r)).at_offset_in_type(ms[i].offset()),
                        _ => attr("other", ms[i].datatype()).at_offset_in_type(ms[i].offset()),
                    };
                }
                if r.gen_bool(0.1) && !ms.is_empty() { ms.pop(); }
                let al = if r.gen_bool(0.7) { jlay(&self.ls[from])["align"].as_u64().unwrap() } else { *pick(r, &[1u64, 2, 4, 8]) };
                let jm: Vec<_> = ms.iter().map(jmem).collect();
                self.build(json!({"e": "members", "ms": jm, "al": al}), s, |_| PointLayout::from_members_and_alignment(&ms, al));
            }
            _ => {
                let d = if r.gen_bool(0.1) { any_def(r) } else { attr(&format!("f{}", r.gen_range(0..40)), any_dt(r)) };
                let p = packing(r);
                self.add(s, &d, p);
            }
        }
    }
    fn query(&mut self, r: &mut StdRng, s: usize) {
        let l = &self.ls[s];
        let n = l.attributes().count();
        // an attribute of the layout, a near miss of one, or any
        let d = if n > 0 && r.gen_bool(0.8) {
            let m = l.at(r.gen_range(0..n)).attribute_definition().clone();
            match r.gen_range(0..5) {
                0 => m.with_custom_datatype(any_dt(r)),
                1 => attr(*pick(r, &NAMES), m.datatype()),
                2 => attr(&m.name().to_uppercase(), m.datatype()),
                _ => m,
            }
        } else { any_def(r) };
        self.query_of(s, &d);
        if r.gen_bool(0.3) { let i = r.gen_range(0..n + 2); self.at(s, i) }
    }
    fn query_of(&mut self, s: usize, d: &PointAttributeDefinition) {
        let l = &self.ls[s];
        let opt = |x: Option<&PointAttributeMember>| x.map(|m| vec![jmem(m)]).unwrap_or_default();
        let v = json!({"e": "query", "s": s + 1, "def": jdef(d), "has": l.has_attribute(d), "hasname": l.has_attribute_with_name(d.name()),
            "get": opt(l.get_attribute(d)), "byname": opt(l.get_attribute_by_name(d.name())),
            "index": l.index_of(d).map(|x| x as i64).unwrap_or(-1), "offset": l.offset_of(d).map(|x| x as i64).unwrap_or(-1),
            "size": l.size_of_point_entry()});
        self.tr.emit(v);
    }
    fn at(&mut self, s: usize, i: usize) {
        let l = &self.ls[s];
        let m = guard(|| l.at(i).clone());
        let v = match m {
            Some(m) => { let br = m.byte_range_within_point(); json!({"e": "at", "s": s + 1, "i": i, "ok": true, "m": jmem(&m), "range": [br.start, br.end], "size": m.size()}) }
            None => json!({"e": "at", "s": s + 1, "i": i, "ok": false}),
        };
        self.tr.emit(v);
    }
    fn cmp(&mut self, r: &mut StdRng) {
        let (a, b) = (r.gen_range(0..self.ls.len()), r.gen_range(0..self.ls.len()));
        self.cmp_of(a, b);
    }
    fn cmp_of(&mut self, a: usize, b: usize) {
        let (x, y) = (&self.ls[a], &self.ls[b]);
        let v = json!({"e": "cmp", "a": a + 1, "b": b + 1, "eq": x == y, "ne": x != y, "cwo": x.compare_without_offsets(y), "hash": hash(x) == hash(y)});
        self.tr.emit(v);
    }
    fn def(&mut self, r: &mut StdRng) {
        let a = any_def(r);
        let b = match r.gen_range(0..4) {
            0 => PointAttributeDefinition::custom(Cow::Owned(a.name().to_string()), a.datatype()),
            1 => attr(a.name(), any_dt(r)),
            2 => attr(*pick(r, &NAMES), a.datatype()),
            _ => any_def(r),
        };
        let o = r.gen_range(0..1000u64);
        let v = json!({"e": "def", "a": jdef(&a), "b": jdef(&b), "name": a.name(), "size": a.size(), "align": a.datatype().min_alignment(),
            "eq": a == b, "hash": hash(&a) == hash(&b), "retyped": jdef(&a.with_custom_datatype(b.datatype())), "o": o, "member": jmem(&if o % 2 == 0 { a.at_offset_in_type(o) } else { PointAttributeMember::custom(Box::leak(a.name().to_string().into_boxed_str()), a.datatype(), o) })});
        self.tr.emit(v);
    }
    fn serde(&mut self, r: &mut StdRng, s: usize) {
        let l = &self.ls[s];
        let via = r.gen_range(0..6);
        let back = guard(|| -> Option<PointLayout> { round(l, via) }).flatten();
        let v = match &back {
            Some(b) => json!({"e": "serde", "s": s + 1, "via": via, "ok": true, "eq": b == l, "back": jlay(b)}),
            None => json!({"e": "serde", "s": s + 1, "via": via, "ok": false}),
        };
        self.tr.emit(v);
        let d = any_def(r);
        let m = d.at_offset_in_type(r.gen_range(0..100_000));
        let v = match round(&d, via) {
            Some(b) => json!({"e": "serdedef", "def": jdef(&d), "ok": true, "eq": b == d, "back": jdef(&b)}),
            None => json!({"e": "serdedef", "def": jdef(&d), "ok": false}),
        };
        self.tr.emit(v);
        let v = match round(&m, via) {
            Some(b) => json!({"e": "serdemember", "m": jmem(&m), "ok": true, "eq": b == m && b.size() == m.size(), "back": jmem(&b)}),
            None => json!({"e": "serdemember", "m": jmem(&m), "ok": false}),
        };
        self.tr.emit(v);
    }
}

fn round<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, via: u32) -> Option<T> {
    match via {
        0 => serde_json::from_value(serde_json::to_value(x).ok()?).ok(),
        1 => serde_json::from_str(&serde_json::to_string(x).ok()?).ok(),
        2 => serde_json::from_slice(&serde_json::to_vec_pretty(x).ok()?).ok(),
        // formats without names and types, and a binary one with them
        4 => bincode::deserialize(&bincode::serialize(x).ok()?).ok(),
        5 => { let mut v = vec![]; ciborium::into_writer(x, &mut v).ok()?; ciborium::from_reader(&v[..]).ok() }
        _ => serde_json::from_reader(std::io::Cursor::new(serde_json::to_vec(x).ok()?)).ok(),
    }
}

pub fn tables(tr: &mut Trace) {
    macro_rules! prim { ($($t:ty => $n:expr),*) => { $( tr.emit(json!({"e": "prim", "t": $n, "d": jdt(<$t as PrimitiveType>::data_type()),
        "size": std::mem::size_of::<$t>(), "align": std::mem::align_of::<$t>()})); )* } }
    prim!(u8 => "U8", i8 => "I8", u16 => "U16", i16 => "I16", u32 => "U32", i32 => "I32", u64 => "U64", i64 => "I64", f32 => "F32", f64 => "F64",
        Vector3<u8> => "Vec3u8", Vector3<u16> => "Vec3u16", Vector3<i32> => "Vec3i32", Vector3<f32> => "Vec3f32", Vector3<f64> => "Vec3f64", Vector4<u8> => "Vec4u8");
    macro_rules! builtin { ($($c:ident),*) => { $( tr.emit(json!({"e": "builtin", "c": stringify!($c), "def": jdef(&attributes::$c)})); )* } }
    builtin!(POSITION_3D, INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, CLASSIFICATION_FLAGS, SCANNER_CHANNEL, SCAN_DIRECTION_FLAG, EDGE_OF_FLIGHT_LINE,
        CLASSIFICATION, SCAN_ANGLE_RANK, SCAN_ANGLE, USER_DATA, POINT_SOURCE_ID, COLOR_RGB, GPS_TIME, NIR, WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET,
        WAVEFORM_PACKET_SIZE, RETURN_POINT_WAVEFORM_LOCATION, WAVEFORM_PARAMETERS, POINT_ID, NORMAL);
}

/// Builds what TLC made up (GenLayout), then asks about it.
fn replay(prop: &str, cases: &str, tr: &mut Trace, r: &mut StdRng) {
    let us = |v: &Value, k: &str| v[k].as_u64().unwrap() as usize;
    let text = std::fs::read_to_string(cases).unwrap();
    for (n, line) in text.lines().enumerate() {
        let c: Value = serde_json::from_str(line).unwrap();
        if n % 8 == 0 { tr.scenario(); }
        let mut s = Sc { tr, ls: vec![PointLayout::default(); 3] };
        let j: Vec<_> = s.ls.iter().map(jlay).collect();
        s.tr.emit(json!({"e": "new", "k": 3, "lays": j}));
        for op in c["ops"].as_array().unwrap() {
            match op["e"].as_str().unwrap() {
                "from" => {
                    let (defs, p) = (defs_of(&op["defs"]), op["p"].as_u64().unwrap());
                    let collect = n % 2 == 0;
                    s.build(op.clone(), us(op, "s") - 1, |_| match p { 0 if collect => defs.iter().cloned().collect(), 0 => PointLayout::from_attributes(&defs), p => PointLayout::from_attributes_packed(&defs, p) });
                }
                "add" => s.add(us(op, "s") - 1, &def_of(&op["def"]), op["p"].as_u64().unwrap()),
                "members" => {
                    let ms: Vec<_> = op["ms"].as_array().unwrap().iter().map(|m| def_of(m).at_offset_in_type(m["o"].as_u64().unwrap())).collect();
                    let al = op["al"].as_u64().unwrap();
                    s.build(op.clone(), us(op, "s") - 1, |_| PointLayout::from_members_and_alignment(&ms, al));
                }
                "cmp" => { s.cmp_of(us(op, "a") - 1, us(op, "b") - 1); s.cmp_of(us(op, "b") - 1, us(op, "a") - 1) }
                e => panic!("harness: case {e}"),
            }
        }
        match prop {
            "L02" => {
                // every attribute, an absent one, and one index too far
                let ms: Vec<_> = s.ls[0].attributes().map(|m| m.attribute_definition().clone()).collect();
                for m in &ms { s.query_of(0, m); s.query_of(0, &m.with_custom_datatype(any_dt(r))) }
                s.query_of(0, &attr("zz", PointAttributeDataType::U8));
                for i in 0..ms.len() + 1 { s.at(0, i) }
            }
            "L04" => s.serde(r, 0),
            _ => {}
        }
    }
}

pub fn run(prop: &str, c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(2500), c.rng());
    if let Some(f) = &c.cases { replay(prop, f, &mut tr, &mut r) }
    let (wb, wq, wc, wd, ws) = match prop { "L01" => (12, 3, 0, 1, 0), "L02" => (6, 8, 6, 3, 0), _ => (6, 0, 0, 0, 6) };
    for sc in 0..600 * c.k {
        tr.scenario();
        let k = 3;
        let mut s = Sc { tr: &mut tr, ls: vec![PointLayout::default(); k] };
        let j: Vec<_> = s.ls.iter().map(jlay).collect();
        s.tr.emit(json!({"e": "new", "k": k, "lays": j}));
        if sc == 0 { tables(s.tr); }
        for _ in 0..r.gen_range(8..28) {
            let i = r.gen_range(0..k);
            match weighted(&mut r, &[wb, wq, wc, wd, ws]) {
                0 => s.random_build(&mut r, i),
                1 => s.query(&mut r, i),
                2 => s.cmp(&mut r),
                3 => s.def(&mut r),
                _ => s.serde(&mut r, i),
            }
        }
    }
    tr.summary()
}
