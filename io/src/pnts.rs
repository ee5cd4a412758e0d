//! 3D Tiles point clouds, byte for byte.
use crate::common::*;
use crate::in_storage;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_io::base::*;
use pasture_core::layout::attributes;
use pasture_io::tiles3d::*;
use pv::show::{jdef, jdt};
use pv::types::PRIMS;
use pv::util::*;
use serde_json::{json, Value};
use std::borrow::Cow;
use std::io::SeekFrom;

pub fn def(n: &str, d: PointAttributeDataType) -> PointAttributeDefinition { PointAttributeDefinition::custom(Cow::Owned(n.to_string()), d) }
const NAMES: [&str; 4] = ["Position3D", "ColorRGBA", "ColorRGB", "Normal"];
pub const VEC3: [PointAttributeDataType; 5] = [PointAttributeDataType::Vec3u8, PointAttributeDataType::Vec3u16, PointAttributeDataType::Vec3i32, PointAttributeDataType::Vec3f32, PointAttributeDataType::Vec3f64];
fn own_type(n: &str) -> PointAttributeDataType {
    match n { "ColorRGBA" => PointAttributeDataType::Vec4u8, "ColorRGB" => PointAttributeDataType::Vec3u8, _ => PointAttributeDataType::Vec3f32 }
}
/// Some eighths, and what they are as a value of the type (all components).
fn eighths(r: &mut StdRng) -> i64 { match r.gen_range(0..4) { 0 => 0, 1 => r.gen_range(-16..16), 2 => 8 * r.gen_range(-5000..5000), _ => r.gen_range(-60000..60000) } }
pub fn value_bytes(r: &mut StdRng, d: PointAttributeDataType) -> Vec<u8> {
    use PointAttributeDataType as D;
    let f = |r: &mut StdRng| eighths(r) as f64 / 8.0;
    match d {
        D::Vec3f64 => (0..3).flat_map(|_| f(r).to_le_bytes()).collect(),
        D::Vec3f32 => (0..3).flat_map(|_| (f(r) as f32).to_le_bytes()).collect(),
        D::F64 => f(r).to_le_bytes().to_vec(),
        D::F32 => (f(r) as f32).to_le_bytes().to_vec(),
        D::Vec3i32 => (0..3).flat_map(|_| r.gen_range(-100000i32..100000).to_le_bytes()).collect(),
        d => (0..d.size()).map(|_| *pick(r, &[0, 1, 127, 128, 255, r.clone().gen()])).collect(),
    }
}
/// A layout for a writer: some of the known attributes with types that can be converted, and others.
fn any_writer_layout(r: &mut StdRng) -> PointLayout {
    let mut defs = vec![];
    for n in NAMES {
        if r.gen_bool(if n == "Position3D" { 0.85 } else { 0.45 }) {
            let d = if n == "ColorRGBA" || r.gen_bool(0.5) { own_type(n) } else { *pick(r, &VEC3) };
            defs.push(def(n, d));
        }
    }
    for d in [attributes::INTENSITY, attributes::CLASSIFICATION, attributes::POINT_ID] { if r.gen_bool(0.2) { defs.push(d); } }
    if defs.is_empty() { defs.push(attributes::POSITION_3D); }
    shuffle(r, &mut defs);
    any_layout(r, &defs)
}
pub fn any_points(r: &mut StdRng, l: &PointLayout, n: usize) -> VectorBuffer {
    let mut b = VectorBuffer::new_from_layout(l.clone());
    b.resize(n);
    for i in 0..n { for m in l.attributes() { let v = value_bytes(r, m.datatype()); unsafe { b.set_attribute(m.attribute_definition(), i, &v); } } }
    b
}
pub fn jpts<'a, B: BorrowedBuffer<'a>>(b: &'a B, n: usize) -> Value {
    json!((0..n).map(|i| b.point_layout().attributes().map(|m| attr_bytes(b, m.attribute_definition(), i)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
pub fn jdefs(l: &PointLayout) -> Value { json!(l.attributes().map(|m| jdef(m.attribute_definition())).collect::<Vec<_>>()) }
/// Numbers in eighths; None if one is not a whole number of them.
fn in_eighths(v: &[f64]) -> Option<Vec<i64>> { v.iter().map(|x| { let e = x * 8.0; (e.fract() == 0.0 && e.abs() < 1e8).then(|| e as i64) }).collect() }

/// The entries of the feature table, and the length of its JSON.
fn entries(file: &[u8]) -> Option<(Value, usize)> {
    let n = u32::from_le_bytes(file.get(12..16)?.try_into().ok()?) as usize;
    let text = file.get(28..28 + n)?;
    let mut s = serde_json::Deserializer::from_slice(text).into_iter::<Value>();
    let v = s.next()?.ok()?;
    let len = s.byte_offset();
    let es: Vec<Value> = v.as_object()?.iter().map(|(n, x)| {
        if let Some(o) = x.get("byteOffset") { json!({"n": n, "k": "ref", "o": o, "a": []}) }
        else if let Some(o) = x.as_u64() { json!({"n": n, "k": "num", "o": o, "a": []}) }
        else if let Some(a) = x.as_array().and_then(|a| a.iter().map(|x| x.as_f64()).collect::<Option<Vec<_>>>()).and_then(|a| in_eighths(&a)) { json!({"n": n, "k": "arr", "o": 0, "a": a}) }
        else { json!({"n": n, "k": "other", "o": 0, "a": []}) }
    }).collect();
    Some((json!(es), len))
}
fn jfile(file: &[u8]) -> Value {
    match entries(file) {
        Some((es, len)) => json!({"e": "file", "ok": true, "file": file, "es": es, "json": len}),
        None => json!({"e": "file", "ok": false, "file": file}),
    }
}

fn center(r: &mut StdRng) -> [i64; 3] { [eighths(r), eighths(r), eighths(r)] }

/// A writer: batches of points, flushes in between, and then the reader.
fn writes(tr: &mut Trace, r: &mut StdRng, l: &PointLayout, ops: &[(&str, usize)]) {
    tr.scenario();
    let file = Shared::new(*pick(r, &[0, 0, 1, 13]));
    tr.emit(json!({"e": "new", "lay": jdefs(l)}));
    let mut w = PntsWriter::from_write_and_layout(file.clone(), l.clone());
    let mut flushed = false;
    for (op, n) in ops {
        match *op {
            "center" => {
                let c = center(r);
                let _ = guard(|| w.set_rtc_center(Vector3::new(c[0] as f64 / 8.0, c[1] as f64 / 8.0, c[2] as f64 / 8.0)));
                tr.emit(json!({"e": "center", "c": c}));
            }
            "write" => {
                let src = any_points(r, l, *n);
                let kind = r.gen_range(0..5);
                let ok = guard(|| in_storage!(kind, src, b => w.write(b).is_ok())).unwrap_or(false);
                tr.emit(json!({"e": "write", "same": true, "ok": ok, "pts": jpts(&src, *n)}));
                flushed = false;
            }
            "other" => {
                // points of another layout
                let mut defs: Vec<_> = l.attributes().map(|m| m.attribute_definition().clone()).collect();
                if defs.len() > 1 { defs.pop(); } else { defs.push(attributes::WAVEFORM_PARAMETERS); }
                let src = any_points(r, &PointLayout::from_attributes(&defs), 2);
                let ok = guard(|| w.write(&src).is_ok()).unwrap_or(false);
                tr.emit(json!({"e": "write", "same": false, "ok": ok, "pts": []}));
            }
            _ => {
                if guard(|| w.flush().is_ok()) != Some(true) { tr.emit(json!({"e": "file", "ok": false})); std::mem::forget(w); return; }
                tr.emit(jfile(&file.bytes()));
                flushed = true;
            }
        }
    }
    let _ = flushed;
    if guard(|| drop(w)).is_none() { tr.emit(json!({"e": "file", "ok": false})); return; }
    let bytes = file.bytes();
    tr.emit(jfile(&bytes));
    reads(tr, r, &bytes, None);
}

/// Some attributes to read into.
fn any_target(r: &mut StdRng, rtc: bool) -> PointLayout {
    let mut defs = vec![];
    for n in NAMES {
        if r.gen_bool(0.55) {
            let d = if r.gen_bool(0.02) { *pick(r, &PRIMS) } else if n == "ColorRGBA" || r.gen_bool(0.5) { own_type(n) }
                else if rtc && n == "Position3D" { PointAttributeDataType::Vec3f64 } else { *pick(r, &VEC3) };
            let d = if rtc && n == "Position3D" && d != PointAttributeDataType::Vec3f32 { PointAttributeDataType::Vec3f64 } else { d };
            defs.push(def(n, d));
        }
    }
    for d in [attributes::INTENSITY, attributes::GPS_TIME] { if r.gen_bool(0.2) { defs.push(d); } }
    if defs.is_empty() { defs.push(def("Position3D", PointAttributeDataType::Vec3f64)); }
    shuffle(r, &mut defs);
    any_layout(r, &defs)
}

fn reads(tr: &mut Trace, r: &mut StdRng, file: &[u8], ops: Option<&Vec<Value>>) {
    let Some((es, _)) = entries(file) else { return };
    let has = |n: &str| es.as_array().unwrap().iter().any(|e| e["n"] == n);
    let rtc = has("RTC_CENTER");
    let src = std::io::BufReader::with_capacity(*pick(r, &[1, 31, 8192]), Shared::of(file.to_vec(), *pick(r, &[0, 1, 7])));
    let rd = guard(|| PntsReader::from_read(src).ok()).flatten();
    let mut e = json!({"e": "open", "file": file, "es": es, "ok": rd.is_some(), "lay": [], "total": 0, "rtc": []});
    let Some(mut rd) = rd else { tr.emit(e); return };
    e["lay"] = jdefs(rd.get_default_point_layout());
    e["total"] = json!(rd.get_metadata().number_of_points());
    if let Some(c) = rd.get_metadata().get_named_field("RTC_CENTER").and_then(|b| b.downcast_ref::<Vector3<f64>>().copied()) { e["rtc"] = json!(in_eighths(c.as_slice())); }
    let total = e["total"].as_u64().unwrap_or(0) as usize;
    tr.emit(e);
    let some: Vec<Value> = (0..r.gen_range(2..9)).map(|_| match r.gen_range(0..10) {
        0..=4 => json!(["read", r.gen_range(0..total + 2)]),
        5 | 6 => json!([*pick(r, &["start", "start", "current"]), r.gen_range(0..total as i64 + 2)]),
        7 => json!([*pick(r, &["end", "current"]), -r.gen_range(0..total as i64 + 2)]),
        8 => json!(["at", 0]),
        _ => json!(["mode", r.gen_range(0..2)]),
    }).collect();
    for op in ops.unwrap_or(&some) {
        let (o, x) = (op[0].as_str().unwrap(), op[1].as_i64().unwrap());
        match o {
            "read" => {
                let count = x as usize;
                let own = r.gen_bool(0.4);
                let (lay, got) = if own {
                    let lay = rd.get_default_point_layout().clone();
                    let got = if r.gen_bool(0.5) { guard(|| rd.read::<VectorBuffer>(count).ok().map(|b| (b.len(), jpts(&b, b.len()), true))).flatten() }
                        else { guard(|| rd.read::<HashMapBuffer>(count).ok().map(|b| (b.len(), jpts(&b, b.len()), true))).flatten() };
                    (lay, got)
                } else {
                    let lay = any_target(r, rtc);
                    let more = r.gen_range(0..3);
                    macro_rules! into { ($t:ident) => {{
                        let mut b = $t::new_from_layout(lay.clone());
                        b.resize(count + more);
                        let before: Vec<Vec<Vec<u8>>> = (0..count + more).map(|i| lay.attributes().map(|m| { let v = value_bytes(r, m.datatype()); unsafe { b.set_attribute(m.attribute_definition(), i, &v); } v }).collect()).collect();
                        guard(|| rd.read_into(&mut b, count).ok()).flatten().map(|n| {
                            let n2 = n.min(count);
                            let rest = (n2..count + more).all(|i| lay.attributes().enumerate().all(|(k, m)| attr_bytes(&b, m.attribute_definition(), i) == before[i][k]));
                            (n, jpts(&b, n2), rest)
                        })
                    }} }
                    let got = if r.gen_bool(0.5) { into!(VectorBuffer) } else { into!(HashMapBuffer) };
                    (lay, got)
                };
                let (ok, (n, pts, rest)) = (got.is_some(), got.unwrap_or((0, json!([]), true)));
                tr.emit(json!({"e": "read", "count": count, "defs": jdefs(&lay), "ok": ok, "n": n, "pts": pts, "rest": rest}));
            }
            "mode" => {
                let m = if x == 1 { PntsReadPositionsMode::Absolute } else { PntsReadPositionsMode::RelativeToCenter };
                rd.set_read_positions_mode(m);
                let got = matches!(rd.read_positions_mode(), PntsReadPositionsMode::Absolute);
                tr.emit(json!({"e": "mode", "absolute": x == 1, "got": got}));
            }
            "at" => {
                let i = guard(|| rd.point_index().ok()).flatten();
                let t = guard(|| rd.point_count().ok()).flatten();
                tr.emit(json!({"e": "at", "index": i.map(|x| x as i64).unwrap_or(-1), "total": t.map(|x| x as i64).unwrap_or(-1)}));
            }
            _ => {
                let p = match o { "start" => SeekFrom::Start(x as u64), "end" => SeekFrom::End(x), _ => SeekFrom::Current(x) };
                let at = guard(|| rd.seek_point(p).ok()).flatten();
                tr.emit(json!({"e": "seek", "whence": o, "off": x, "ok": at.is_some(), "at": at.unwrap_or(0)}));
            }
        }
    }
}

/// A file that was not made by the writer.
fn foreign(r: &mut StdRng, n: usize, which: &[&str], rtc: bool) -> Vec<u8> {
    let mut head = serde_json::Map::new();
    let mut body: Vec<u8> = vec![];
    let mut order: Vec<&str> = which.to_vec();
    shuffle(r, &mut order);
    if r.gen_bool(0.3) { order.insert(0, "BATCH_ID"); }
    for s in order {
        let (d, align) = match s { "POSITION" | "NORMAL" => (PointAttributeDataType::Vec3f32, 4), "RGBA" => (PointAttributeDataType::Vec4u8, 1), "RGB" => (PointAttributeDataType::Vec3u8, 1), _ => (PointAttributeDataType::U16, 2) };
        for _ in 0..r.gen_range(0..5) { body.push(0xEE); }
        while body.len() % align != 0 { body.push(0xEE); }
        let mut e = json!({"byteOffset": body.len()});
        if s == "BATCH_ID" { e["componentType"] = json!("UNSIGNED_SHORT"); }
        head.insert(s.into(), e);
        for _ in 0..n { body.extend(value_bytes(r, d)); }
    }
    head.insert("POINTS_LENGTH".into(), json!(n));
    if rtc { let c = center(r); head.insert("RTC_CENTER".into(), json!(c.iter().map(|x| *x as f64 / 8.0).collect::<Vec<_>>())); }
    if r.gen_bool(0.3) { head.insert("CONSTANT_RGBA".into(), json!([1, 2, 3, 255])); }
    if r.gen_bool(0.3) { head.insert("QUANTIZED_VOLUME_SCALE".into(), json!([1.5, 2, 3.25])); }
    if r.gen_bool(0.3) { head.insert("BATCH_LENGTH".into(), json!(3)); }
    if r.gen_bool(0.3) { head.insert("extras".into(), json!({"a": [1, {"b": "größe"}]})); }
    let mut text = if r.gen_bool(0.5) { serde_json::to_string(&head).unwrap() } else { serde_json::to_string_pretty(&head).unwrap() };
    // the end of the table is not always where it should be
    if r.gen_bool(0.7) { while (28 + text.len()) % 8 != 0 { text.push(' '); } }
    let bt: &[u8] = if r.gen_bool(0.3) { b"{\"x\":[1,2,3]}   " } else { b"" };
    while (28 + text.len() + body.len()) % 8 != 0 { body.push(0); }
    let mut f = b"pnts".to_vec();
    for x in [1, 28 + text.len() + body.len() + bt.len(), text.len(), body.len(), bt.len(), 0] { f.extend((x as u32).to_le_bytes()); }
    f.extend(text.as_bytes()); f.extend(body); f.extend(bt);
    f
}
fn reject(tr: &mut Trace, r: &mut StdRng) {
    let mut f = foreign(r, 2, &["POSITION"], false);
    let what = r.gen_range(0..6);
    match what {
        0 => { let k = r.gen_range(0..4); f[k] ^= 0x20; }
        1 => { f.truncate(r.gen_range(0..28)); }
        2 => { f.truncate(r.gen_range(28..60)); }
        3 => { let k = 28; f[k] = b'#'; }
        4 => { let k = f.windows(8).position(|w| w == b"POINTS_L").unwrap(); f[k] = b'Q'; }
        _ => { let p = f.windows(10).position(|w| w == b"\"POSITION\"").unwrap(); let k = p + f[p..].windows(10).position(|w| w == b"byteOffset").unwrap(); f[k] = b'q'; }
    }
    tr.scenario();
    tr.emit(json!({"e": "new", "lay": []}));
    let ok = guard(|| PntsReader::from_read(std::io::Cursor::new(f)).is_ok()).unwrap_or(false);
    tr.emit(json!({"e": "reject", "what": what, "ok": ok}));
}

pub fn run(c: &Ctx) -> Value {
    let mut r = c.rng();
    let mut tr = c.trace(500);
    let _ = jdt;
    for case in c.cases() {
        if case["role"] == "w" {
            let defs: Vec<_> = case["attrs"].as_array().unwrap().iter().map(|a| def(a[0].as_str().unwrap(), pv::made::prim_of(a[1].as_str().unwrap()))).collect();
            let ops: Vec<(String, usize)> = case["ops"].as_array().unwrap().iter().map(|o| (o[0].as_str().unwrap().to_string(), o[1].as_u64().unwrap() as usize)).collect();
            let ops: Vec<(&str, usize)> = ops.iter().map(|(a, b)| (a.as_str(), *b)).collect();
            writes(&mut tr, &mut r, &PointLayout::from_attributes(&defs), &ops);
        } else {
            let which: Vec<&str> = case["which"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let f = foreign(&mut r, case["n"].as_u64().unwrap() as usize, &which, case["rtc"].as_bool().unwrap());
            tr.scenario();
            tr.emit(json!({"e": "new", "lay": []}));
            reads(&mut tr, &mut r, &f, Some(case["ops"].as_array().unwrap()));
        }
    }
    for _ in 0..250 * c.k {
        let l = any_writer_layout(&mut r);
        let mut ops: Vec<(&str, usize)> = vec![];
        for _ in 0..r.gen_range(0..5) { ops.push(match r.gen_range(0..8) { 0 => ("center", 0), 1 => ("flush", 0), 2 => ("other", 0), _ => ("write", *pick(&mut r, &[0, 1, 2, 3, 5, 8, 17])) }); }
        writes(&mut tr, &mut r, &l, &ops);
    }
    for _ in 0..250 * c.k {
        let which: Vec<&str> = ["POSITION", "RGBA", "RGB", "NORMAL"].iter().copied().filter(|_| r.gen_bool(0.6)).collect();
        let rtc = which.contains(&"POSITION") && r.gen_bool(0.4);
        let n = *pick(&mut r, &[0, 1, 2, 3, 7, 20]);
        let f = foreign(&mut r, n, &which, rtc);
        tr.scenario();
        tr.emit(json!({"e": "new", "lay": []}));
        reads(&mut tr, &mut r, &f, None);
    }
    for _ in 0..60 * c.k { reject(&mut tr, &mut r); }
    tr.summary()
}
