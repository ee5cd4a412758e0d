//! LAS and LAZ files, byte for byte.
use crate::common::*;
use crate::in_storage;
use crate::pnts::{any_points, def, jdefs, jpts, value_bytes, VEC3};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_io::base::*;
use pasture_io::las::*;
use pasture_io::las_rs::{point::Format, Builder, Transform, Vector, Vlr};
use pv::show::jdef;
use pv::types::PRIMS;
use pv::util::*;
use serde_json::{json, Value};
use std::convert::TryInto;
use std::io::SeekFrom;

const SCALARS: [PointAttributeDataType; 10] = [PointAttributeDataType::U8, PointAttributeDataType::I8, PointAttributeDataType::U16, PointAttributeDataType::I16, PointAttributeDataType::U32, PointAttributeDataType::I32, PointAttributeDataType::U64, PointAttributeDataType::I64, PointAttributeDataType::F32, PointAttributeDataType::F64];
const GRIDS: [f64; 7] = [0.01, 0.001, 0.0001, 0.0000001, 0.25, 1.0, 0.3048];
const AWAY: [f64; 5] = [0.0, 500000.0, -1234567.89, 0.5, 3000000.125];

fn ext(f: u8) -> bool { f >= 6 }
fn rgb(f: u8) -> bool { [2, 3, 5, 7, 8, 10].contains(&f) }
fn wave(f: u8) -> bool { [4, 5, 9, 10].contains(&f) }
/// The attributes of a format, as users see them.
pub fn attrs_of(f: u8) -> Vec<PointAttributeDefinition> {
    let mut v = vec![POSITION_3D, INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, SCAN_DIRECTION_FLAG, EDGE_OF_FLIGHT_LINE, CLASSIFICATION, USER_DATA, POINT_SOURCE_ID];
    if ext(f) { v.extend([CLASSIFICATION_FLAGS, SCANNER_CHANNEL, SCAN_ANGLE]) } else { v.push(SCAN_ANGLE_RANK) }
    if f == 1 || f >= 3 { v.push(GPS_TIME) }
    if rgb(f) { v.push(COLOR_RGB) }
    if f == 8 || f == 10 { v.push(NIR) }
    if wave(f) { v.extend([WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE, RETURN_POINT_WAVEFORM_LOCATION, WAVEFORM_PARAMETERS]) }
    v
}
fn record_length(f: u8) -> usize { [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67][f as usize] }
fn bits_of(f: u8, name: &str) -> Option<u32> {
    match name {
        "ReturnNumber" | "NumberOfReturns" => Some(if ext(f) { 4 } else { 3 }),
        "ClassificationFlags" => Some(4), "ScannerChannel" => Some(2), "ScanDirectionFlag" | "EdgeOfFlightLine" => Some(1),
        _ => None,
    }
}
fn scalar(d: PointAttributeDataType, x: u8) -> Vec<u8> {
    match d {
        PointAttributeDataType::F32 => (x as f32).to_le_bytes().to_vec(),
        PointAttributeDataType::F64 => (x as f64).to_le_bytes().to_vec(),
        d => { let mut v = vec![0; d.size() as usize]; v[0] = x; v }
    }
}

/// What a file is like.
#[derive(Clone)]
pub struct Cfg { fmt: u8, laz: bool, minor: u8, grid: bool, s: [i64; 3], o: [i64; 3], scale: [f64; 3], offset: [f64; 3], fix: Value, vlrs: Vec<(Vec<u8>, u16, Vec<u8>)>, pad: Vec<u8>, evlrs: Vec<(Vec<u8>, u16, Vec<u8>)>, described: Vec<(String, usize)>, rest: usize, big: bool }
impl Cfg {
    /// Positions in whole millimetres.
    pub fn plain() -> Self { Cfg { fmt: 0, laz: false, minor: 4, grid: true, s: [1; 3], o: [0; 3], scale: [0.001; 3], offset: [0.0; 3], fix: json!({}), vlrs: vec![], pad: vec![], evlrs: vec![], described: vec![], rest: 0, big: false } }
    fn extra(&self) -> Vec<PointAttributeDefinition> {
        let mut v: Vec<_> = self.described.iter().map(|(n, k)| def(n, SCALARS[*k])).collect();
        if self.rest > 0 { v.push(def("UndescribedExtraBytes", PointAttributeDataType::ByteArray(self.rest as u64))); }
        v
    }
    fn extra_size(&self) -> usize { self.extra().iter().map(|d| d.size() as usize).sum() }
    fn json(&self) -> Value {
        let vl = |v: &Vec<(Vec<u8>, u16, Vec<u8>)>| json!(v.iter().map(|(u, r, d)| json!({"u": u, "r": r, "d": d})).collect::<Vec<_>>());
        let le = |v: &[f64; 3]| json!(v.iter().map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        json!({"fmt": self.fmt, "laz": self.laz, "minor": self.minor, "grid": self.grid, "s": self.s, "o": self.o, "sb": le(&self.scale), "ob": le(&self.offset), "fix": self.fix,
            "vlrs": vl(&self.vlrs), "pad": self.pad, "evlrs": vl(&self.evlrs), "extra": self.extra().iter().map(jdef).collect::<Vec<_>>()})
    }
    fn size(&self) -> usize { record_length(self.fmt) + self.extra_size() }
    fn world(&self, loc: [i32; 3]) -> Vec<u8> { (0..3).flat_map(|a| ((loc[a] as f64 * self.scale[a]) + self.offset[a]).to_le_bytes()).collect() }
    fn any_loc(&self, r: &mut StdRng) -> [i32; 3] {
        let m = if self.big { i32::MAX } else { *pick(r, &[10, 1000, (1 << 24) - 1]) };
        [0; 3].map(|_| match r.gen_range(0..8) { 0 => 0, 1 => m, 2 => if self.big { i32::MIN } else { -m }, _ => r.gen_range(-m..=m) })
    }
}
fn padded(s: &str, n: usize) -> Vec<u8> { let mut v = s.as_bytes().to_vec(); v.resize(n, 0); v }

fn any_vlr(r: &mut StdRng) -> (Vec<u8>, u16, Vec<u8>) {
    match r.gen_range(0..8) {
        0 => (padded("LASF_Spec", 16), 3, "A file of points.".bytes().take(r.gen_range(0..17)).collect()),
        1 => (padded("LASF_Spec", 16), 0, (0..256usize).flat_map(|i| { let mut e = vec![i as u8]; e.extend(padded(&format!("class {i}"), 15)); e }).collect()),
        2 => (padded("LASF_Projection", 16), 2112, (0..r.gen_range(0..40u8)).collect()),
        _ => (padded(pick(r, &["pv", "0123456789abcdef", ""]), 16), r.gen_range(5..20000), (0..r.gen_range(0..30)).map(|_| r.clone().gen()).collect()),
    }
}
/// The 192 bytes that describe an attribute in the extra bytes.
fn entry(r: &mut StdRng, n: &str, k: usize) -> Vec<u8> {
    let mut v = vec![0, 0, k as u8 + 1];
    let o: u8 = r.gen_range(0..32);
    v.push(o);
    v.extend(padded(n, 32));
    v.extend([0; 4]);
    for (bit, gap) in [(1, 16), (2, 16), (4, 16)] { v.extend(if o & bit != 0 { scalar64(r, SCALARS[k]) } else { [0; 8] }); v.extend(vec![0; gap]); }
    for bit in [8, 16] { v.extend((if o & bit != 0 { *pick(r, &[0.01, 2.0, -5.5]) } else { 0.0f64 }).to_le_bytes()); v.extend([0; 16]); }
    v.extend(padded(pick(r, &["", "some text", "32 characters of a description .."]).get(..32).unwrap_or("some text"), 32));
    v
}
fn scalar64(r: &mut StdRng, d: PointAttributeDataType) -> [u8; 8] {
    match d { PointAttributeDataType::F32 | PointAttributeDataType::F64 => (r.gen_range(-100..100) as f64 / 4.0).to_le_bytes(), _ => (r.gen_range(0..100) as u64).to_le_bytes() }
}

fn any_cfg(r: &mut StdRng, fmt: u8, laz: bool) -> Cfg {
    let least = match fmt { 4 | 5 => 3, f if f >= 6 => 4, _ => 2 };
    let minor = r.gen_range(least..5);
    let grid = r.gen_bool(0.4);
    let s = [0; 3].map(|_| *pick(r, &[1, 2, 3, 4, 8, 16, 80]));
    let o = [0; 3].map(|_| *pick(r, &[0, 0, 8, -3, 4000, -77777]));
    let (scale, offset) = if grid { ([0; 3].map(|_| *pick(r, &GRIDS)), [0; 3].map(|_| *pick(r, &AWAY))) } else { (s.map(|x: i64| x as f64 / 8.0), o.map(|x: i64| x as f64 / 8.0)) };
    let mut vlrs: Vec<_> = (0..*pick(r, &[0, 0, 1, 2])).map(|_| any_vlr(r)).collect();
    let mut described = vec![];
    let mut rest = 0;
    if !laz && r.gen_bool(0.3) {
        for i in 0..r.gen_range(0..3) { described.push((format!("{} {i}", pick(r, &["Extra", "Temperature", "32 characters of an attribute "])), r.gen_range(0..10))); }
        rest = *pick(r, &[0, 0, 1, 3, 7]);
        if !described.is_empty() {
            let data = described.clone().iter().flat_map(|(n, k)| entry(r, n, *k)).collect();
            let at = r.gen_range(0..vlrs.len() + 1);
            vlrs.insert(at, (padded("LASF_Spec", 16), 4, data));
        }
    }
    let evlrs: Vec<_> = if minor == 4 { (0..*pick(r, &[0, 0, 1, 2])).map(|_| any_vlr(r)).collect() } else { vec![] };
    let pad = (0..*pick(r, &[0, 0, 0, 1, 5, 60])).map(|i| i as u8).collect();
    let year = *pick(r, &[0u16, 1999, 2024]);
    let day = if year == 0 { 0u16 } else { r.gen_range(1..366) };
    let guid: [u8; 16] = if r.gen_bool(0.5) { [0; 16] } else { r.gen() };
    let both = [day.to_le_bytes(), year.to_le_bytes()].concat();
    let source = *pick(r, &[0u16, 1, 700]);
    let fix = json!({"source": source.to_le_bytes(), "guid": guid, "system": padded(pick(r, &["", "pv", "a system of 32 characters ......"]).get(..31).unwrap_or("pv"), 32), "software": padded(pick(r, &["pasture", ""]), 32),
        "date": both});
    Cfg { fmt, laz, minor, grid, s, o, scale, offset, fix, vlrs, pad, evlrs, described, rest, big: grid && r.gen_bool(0.3) }
}
fn bytes_of(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn header_of(c: &Cfg) -> pasture_io::las_rs::Header {
    let u16_at = |v: &Value, i: usize| { let b = bytes_of(v); u16::from_le_bytes([b[i], b[i + 1]]) };
    let mut f = Format::new(c.fmt).unwrap();
    f.extra_bytes = c.extra_size() as u16;
    let mut b = Builder::from((1, c.minor));
    b.point_format = f;
    let mut h = b.into_header().unwrap().into_raw().unwrap();
    h.file_source_id = u16_at(&c.fix["source"], 0);
    h.guid = bytes_of(&c.fix["guid"]).try_into().unwrap();
    h.system_identifier = bytes_of(&c.fix["system"]).try_into().unwrap();
    h.generating_software = bytes_of(&c.fix["software"]).try_into().unwrap();
    h.file_creation_day_of_year = u16_at(&c.fix["date"], 0);
    h.file_creation_year = u16_at(&c.fix["date"], 2);
    // counts that are not those of the file to be written
    h.number_of_point_records = 17;
    h.number_of_points_by_return = [9, 8, 0, 0, 0];
    let mut b = Builder::new(h).unwrap();
    let t = |a: usize| Transform { scale: c.scale[a], offset: c.offset[a] };
    b.transforms = Vector { x: t(0), y: t(1), z: t(2) };
    let vl = |(u, r, d): &(Vec<u8>, u16, Vec<u8>)| Vlr { user_id: String::from_utf8(u.clone()).unwrap().trim_end_matches('\0').to_string(), record_id: *r, description: "about it".into(), data: d.clone() };
    b.vlrs = c.vlrs.iter().map(vl).collect();
    b.evlrs = c.evlrs.iter().map(vl).collect();
    b.vlr_padding = c.pad.clone();
    b.into_header().unwrap()
}

/// A layout of points for the writer: some attributes of the format, some not, in types that can be converted (mostly).
fn any_source(r: &mut StdRng, c: &Cfg) -> PointLayout {
    let mut defs = vec![];
    for d in attrs_of(c.fmt).into_iter().chain(c.extra()) {
        if d.name() == "Position3D" {
            if c.grid { defs.push(d) } else if r.gen_bool(0.9) { let t = if r.gen_bool(0.5) { d.datatype() } else { *pick(r, &VEC3) }; defs.push(def("Position3D", t)) }
            continue;
        }
        if r.gen_bool(0.3) { continue }
        let t = d.datatype();
        let t = match t {
            _ if r.gen_bool(0.6) => t,
            _ if r.gen_bool(0.02) => *pick(r, &PRIMS),
            PointAttributeDataType::Vec3u16 | PointAttributeDataType::Vec3f32 => *pick(r, &VEC3),
            PointAttributeDataType::ByteArray(_) => t,
            _ => *pick(r, &SCALARS),
        };
        defs.push(def(d.name(), t));
    }
    for d in [NORMAL, POINT_ID, SCAN_ANGLE, SCAN_ANGLE_RANK, NIR] { if r.gen_bool(0.15) && !defs.iter().any(|x| x.name() == d.name()) { defs.push(d) } }
    if defs.is_empty() { defs.push(INTENSITY) }
    shuffle(r, &mut defs);
    any_layout(r, &defs)
}
/// Points of a layout for a file, and the positions on the grid.
pub fn points_for(r: &mut StdRng, c: &Cfg, l: &PointLayout, n: usize) -> (VectorBuffer, Vec<[i32; 3]>) {
    let mut b = any_points(r, l, n);
    let mut locs = vec![];
    for i in 0..n {
        let loc = c.any_loc(r);
        for m in l.attributes() {
            if m.name() == "Position3D" && c.grid { let v = c.world(loc); unsafe { b.set_attribute(m.attribute_definition(), i, &v); } }
            if let (Some(bits), true) = (bits_of(c.fmt, m.name()), SCALARS.contains(&m.datatype())) { let v = scalar(m.datatype(), r.gen_range(0..1u8 << bits)); unsafe { b.set_attribute(m.attribute_definition(), i, &v); } }
        }
        locs.push(loc);
    }
    (b, locs)
}

fn emit_file(tr: &mut Trace, ok: bool, f: &[u8]) { tr.emit(json!({"e": "file", "ok": ok, "file": f})); }

fn writes(tr: &mut Trace, r: &mut StdRng, c: &Cfg, ops: &[(&str, usize)]) {
    tr.scenario();
    let file = Shared::new(*pick(r, &[0, 0, 1, 13]));
    let w = guard(|| LASWriter::from_writer_and_header(file.clone(), header_of(c), c.laz).ok()).flatten();
    let Some(w) = w else { tr.emit(json!({"e": "none", "new": true, "ok": false, "laz": c.laz, "fmt": c.fmt, "for": []})); return };
    tr.emit(json!({"e": "new", "ok": true, "c": c.json(), "for": [], "lay": jdefs(w.get_default_point_layout())}));
    batches(tr, r, c, w, file, None, ops);
}
/// A writer for points of a layout.
fn writes_layout(tr: &mut Trace, r: &mut StdRng) {
    tr.scenario();
    let laz = r.gen_bool(0.4);
    let all = attrs_of(10);
    let mut defs: Vec<_> = all.into_iter().filter(|d| match d.name() { "Position3D" => true, "GpsTime" | "ColorRGB" => r.gen_bool(0.5), "ScanAngle" | "ScannerChannel" | "ClassificationFlags" | "NIR" => r.gen_bool(0.25), n if n.starts_with("Wave") || n.starts_with("ReturnPoint") => r.gen_bool(0.08), _ => r.gen_bool(0.4) }).collect();
    if r.gen_bool(0.3) { defs.push(SCAN_ANGLE_RANK) }
    if r.gen_bool(0.2) { defs.push(NORMAL) }
    shuffle(r, &mut defs);
    let l = any_layout(r, &defs);
    let file = Shared::new(0);
    let w = guard(|| LASWriter::from_writer_and_point_layout(file.clone(), &l, laz).ok()).flatten();
    let f = file.bytes();
    let Some(w) = w else { tr.emit(json!({"e": "none", "new": true, "ok": false, "laz": laz, "fmt": 0, "for": jdefs(&l)})); return };
    let fix = json!({"source": f[4..6], "guid": f[8..24], "system": f[26..58], "software": f[58..90], "date": f[90..94]});
    let c = Cfg { fmt: f[104] & 0x3f, laz, minor: 4, grid: true, s: [1; 3], o: [0; 3], scale: [0.001; 3], offset: [0.0; 3], fix, vlrs: vec![], pad: vec![], evlrs: vec![], described: vec![], rest: 0, big: r.gen_bool(0.2) };
    tr.emit(json!({"e": "new", "ok": true, "c": c.json(), "for": jdefs(&l), "lay": jdefs(w.get_default_point_layout())}));
    let n = r.gen_range(0..5);
    batches(tr, r, &c, w, file, Some(&l), &[("write", n)]);
}
fn batches(tr: &mut Trace, r: &mut StdRng, c: &Cfg, mut w: LASWriter<Shared>, file: Shared, own: Option<&PointLayout>, ops: &[(&str, usize)]) {
    for (op, n) in ops {
        if *op == "flush" {
            let ok = guard(|| w.flush().is_ok()).unwrap_or(false);
            emit_file(tr, ok, &file.bytes());
            if !ok { std::mem::forget(w); return }
            continue;
        }
        let l = if let Some(l) = own { l.clone() } else if *op == "own" { w.get_default_point_layout().clone() } else { any_source(r, c) };
        let (src, locs) = points_for(r, c, &l, *n);
        let kind = r.gen_range(0..5);
        let ok = guard(|| in_storage!(kind, src, b => w.write(b).is_ok())).unwrap_or(false);
        tr.emit(json!({"e": "write", "ok": ok, "lay": jdefs(&l), "pts": jpts(&src, *n), "loc": locs}));
    }
    let ok = if c.laz && r.gen_bool(0.5) { guard(|| w.flush().is_ok()).unwrap_or(false) } else { guard(|| w.into_inner().is_ok()).unwrap_or(false) };
    let f = file.bytes();
    emit_file(tr, ok, &f);
    if ok { reads(tr, r, c, &f, None) }
}

/// Some attributes to read into.
fn any_target(r: &mut StdRng, c: &Cfg) -> PointLayout {
    let mut defs: Vec<PointAttributeDefinition> = vec![];
    let raw = [ATTRIBUTE_LOCAL_LAS_POSITION, if ext(c.fmt) { ATTRIBUTE_EXTENDED_FLAGS } else { ATTRIBUTE_BASIC_FLAGS }];
    for d in attrs_of(c.fmt).into_iter().chain(c.extra()).chain(raw) {
        if !r.gen_bool(0.4) { continue }
        let t = d.datatype();
        let t = match t {
            _ if r.gen_bool(0.01) => *pick(r, &PRIMS),
            PointAttributeDataType::Vec3f64 => if !(c.grid && c.big) && r.gen_bool(0.4) { PointAttributeDataType::Vec3f32 } else { t },
            PointAttributeDataType::ByteArray(_) => t,
            _ if r.gen_bool(0.5) => t,
            PointAttributeDataType::Vec3u16 | PointAttributeDataType::Vec3f32 | PointAttributeDataType::Vec3i32 => *pick(r, &VEC3),
            _ => *pick(r, &SCALARS),
        };
        let t = if d.name() == "Position3D" && c.grid && c.big && t == PointAttributeDataType::Vec3f32 { PointAttributeDataType::Vec3f64 } else { t };
        defs.push(def(d.name(), t));
    }
    for d in [NORMAL, NIR, SCANNER_CHANNEL] { if r.gen_bool(0.15) && !defs.iter().any(|x| x.name() == d.name()) { defs.push(d) } }
    if defs.is_empty() { defs.push(POSITION_3D) }
    shuffle(r, &mut defs);
    any_layout(r, &defs)
}

fn reads(tr: &mut Trace, r: &mut StdRng, c: &Cfg, file: &[u8], ops: Option<&Vec<Value>>) {
    let exact = r.gen_bool(0.3);
    let src = std::io::BufReader::with_capacity(*pick(r, &[1, 31, 8192]), Shared::of(file.to_vec(), *pick(r, &[0, 1, 7])));
    let rd = guard(|| LASReader::from_read(src, c.laz, exact).ok()).flatten();
    let mut e = json!({"e": "open", "ok": rd.is_some(), "exact": exact, "lay": [], "total": 0, "bounds": [], "size": 0, "at": []});
    let Some(mut rd) = rd else { tr.emit(e); return };
    let l = rd.get_default_point_layout();
    e["lay"] = jdefs(l);
    e["size"] = json!(l.size_of_point_entry());
    e["at"] = json!(l.attributes().map(|m| m.offset()).collect::<Vec<_>>());
    e["total"] = json!(rd.get_metadata().number_of_points());
    if let Some(b) = rd.get_metadata().bounds() { e["bounds"] = json!([b.min().x, b.min().y, b.min().z, b.max().x, b.max().y, b.max().z].iter().map(|x| x.to_le_bytes()).collect::<Vec<_>>()) }
    // what a user may look at
    e["ok"] = json!(guard(|| { let _ = format!("{}", rd.las_metadata()); }).is_some() && rd.header().point_format().to_u8().unwrap() == c.fmt);
    let total = e["total"].as_u64().unwrap_or(0) as usize;
    tr.emit(e);
    let some: Vec<Value> = (0..r.gen_range(2..8)).map(|_| match r.gen_range(0..9) {
        0..=4 => json!(["read", r.gen_range(0..total + 2)]),
        5 | 6 => json!([*pick(r, &["start", "start", "current"]), r.gen_range(0..total as i64 + 2)]),
        7 => json!([*pick(r, &["end", "current"]), -r.gen_range(0..total as i64 + 2)]),
        _ => json!(["at", 0]),
    }).collect();
    for op in ops.unwrap_or(&some) {
        let (o, x) = (op[0].as_str().unwrap(), op[1].as_i64().unwrap());
        match o {
            "read" => {
                let count = x as usize;
                let (lay, got) = if r.gen_bool(0.3) {
                    let lay = rd.get_default_point_layout().clone();
                    let got = if r.gen_bool(0.5) { guard(|| rd.read::<VectorBuffer>(count).ok().map(|b| (b.len(), jpts(&b, b.len()), true))).flatten() }
                        else { guard(|| rd.read::<HashMapBuffer>(count).ok().map(|b| (b.len(), jpts(&b, b.len()), true))).flatten() };
                    (lay, got)
                } else {
                    let lay = if r.gen_bool(0.2) { rd.get_default_point_layout().clone() } else { any_target(r, c) };
                    let more = r.gen_range(0..3);
                    macro_rules! into { ($t:ident) => {{
                        let mut b = $t::new_from_layout(lay.clone());
                        b.resize(count + more);
                        let before: Vec<Vec<Vec<u8>>> = (0..count + more).map(|i| lay.attributes().map(|m| { let v = value_bytes(r, m.datatype()); unsafe { b.set_attribute(m.attribute_definition(), i, &v); } v }).collect()).collect();
                        guard(|| rd.read_into(&mut b, count).ok()).flatten().map(|n| {
                            let n2 = n.min(count);
                            let rest = (n2..count + more).all(|i| lay.attributes().enumerate().all(|(k, m)| attr_bytes(&b, m.attribute_definition(), i) == before[i][k]));
                            (n, jpts(&b, n2), rest)
                        })
                    }} }
                    let got = if r.gen_bool(0.5) { into!(VectorBuffer) } else { into!(HashMapBuffer) };
                    (lay, got)
                };
                let (ok, (n, pts, rest)) = (got.is_some(), got.unwrap_or((0, json!([]), true)));
                tr.emit(json!({"e": "read", "count": count, "defs": jdefs(&lay), "ok": ok, "n": n, "pts": pts, "rest": rest}));
            }
            "at" => {
                let i = guard(|| rd.point_index().ok()).flatten();
                let t = guard(|| rd.point_count().ok()).flatten();
                tr.emit(json!({"e": "at", "index": i.map(|x| x as i64).unwrap_or(-1), "total": t.map(|x| x as i64).unwrap_or(-1), "left": rd.remaining_points()}));
            }
            _ => {
                let p = match o { "start" => SeekFrom::Start(x as u64), "end" => SeekFrom::End(x), _ => SeekFrom::Current(x) };
                let at = guard(|| rd.seek_point(p).ok()).flatten();
                tr.emit(json!({"e": "seek", "whence": o, "off": x, "ok": at.is_some(), "at": at.unwrap_or(0)}));
            }
        }
    }
}

/// More points than there are in the pieces in which points are written and read; some of them are looked at.
fn bulk(tr: &mut Trace, r: &mut StdRng, c: &Cfg, n: usize, own: bool) {
    tr.scenario();
    let file = Shared::new(0);
    let mut c = c.clone();
    c.evlrs = vec![];
    let Some(mut w) = guard(|| LASWriter::from_writer_and_header(file.clone(), header_of(&c), c.laz).ok()).flatten() else { panic!("no writer") };
    let l = if own { w.get_default_point_layout().clone() } else { any_layout(r, &attrs_of(c.fmt).into_iter().filter(|d| d.name() != "NumberOfReturns").map(|d| if d.name() == "Intensity" { def("Intensity", PointAttributeDataType::U32) } else { d }).collect::<Vec<_>>()) };
    // a few points again and again, each with a number of its own as its source
    let kinds = 7;
    let (few, locs) = points_for(r, &c, &l, kinds);
    let size = l.size_of_point_entry() as usize;
    let source = l.get_attribute_by_name("PointSourceID").unwrap();
    let (so, user) = (source.offset() as usize, l.get_attribute_by_name("UserData").unwrap().offset() as usize);
    let ret = l.get_attribute_by_name("ReturnNumber").unwrap().offset() as usize;
    let mut bytes = vec![0u8; n * size];
    for i in 0..n {
        let p = &mut bytes[i * size..(i + 1) * size];
        few.get_point(i % kinds, p);
        p[so..so + 2].copy_from_slice(&(i as u16).to_le_bytes());
        p[user] = (i >> 16) as u8;
        p[ret] = (i % 3) as u8 + 1;
    }
    let src = ExternalMemoryBuffer::new(&bytes, l.clone());
    let mut ok = guard(|| if r.gen_bool(0.5) { w.write(&src).is_ok() } else { let mut h = HashMapBuffer::new_from_layout(l.clone()); h.resize(n); unsafe { h.set_point_range(0..n, &bytes) }; w.write(&h).is_ok() }).unwrap_or(false);
    ok &= guard(|| w.into_inner().is_ok()).unwrap_or(false);
    let f = file.bytes();
    let at = u32::from_le_bytes(f[96..100].try_into().unwrap()) as usize + if c.laz { 8 } else { 0 };
    let exact = r.gen_bool(0.3);
    let rd = guard(|| LASReader::from_read(std::io::Cursor::new(f.clone()), c.laz, exact).ok()).flatten();
    ok &= rd.is_some();
    let mut seen = vec![];
    if let Some(mut rd) = rd {
        let skip = *pick(r, &[0, 1, 17]);
        let mut some: Vec<_> = attrs_of(c.fmt).into_iter().chain(c.extra()).filter(|_| r.gen_bool(0.6)).map(|d| if d.name() == "Classification" { def("Classification", PointAttributeDataType::U64) } else { d }).collect();
        some.push(def("NIR2", PointAttributeDataType::U8));
        shuffle(r, &mut some);
        let lay = if r.gen_bool(0.4) { rd.get_default_point_layout().clone() } else { any_layout(r, &some) };
        ok &= guard(|| rd.seek_point(SeekFrom::Start(skip as u64)).ok()).flatten() == Some(skip);
        macro_rules! look { ($t:ident) => {{
            let mut b = $t::new_from_layout(lay.clone());
            b.resize(n);
            ok &= guard(|| rd.read_into(&mut b, n).ok()).flatten() == Some(n - skip);
            let per = (1 << 20) / c.size();
            let mut is: Vec<usize> = vec![skip, skip + 1, n - 1, n - 2];
            for k in 1..10 { for x in [50_000 * k, per * k, per * k + skip, k * 16384, k * 8192] { for d in 0..2 { if x > d + skip && x - d < n { is.push(x - d) } } } }
            shuffle(r, &mut is);
            is.truncate(40);
            is.extend((0..10).map(|_| r.gen_range(skip..n)));
            for i in is {
                let q: Vec<Vec<u8>> = l.attributes().map(|m| bytes[i * size + m.offset() as usize..][..m.size() as usize].to_vec()).collect();
                let v: Vec<Vec<u8>> = lay.attributes().map(|m| attr_bytes(&b, m.attribute_definition(), i - skip)).collect();
                let wo = c.world(locs[i % kinds]);
                seen.push(json!({"i": i, "p": q, "loc": locs[i % kinds], "rec": f.get(at + i * c.size()..at + (i + 1) * c.size()).unwrap_or(&[]), "v": v, "w": if c.grid { json!([wo[0..8], wo[8..16], wo[16..24]]) } else { json!([]) }}));
            }
        }} }
        if r.gen_bool(0.5) { look!(VectorBuffer) } else { look!(HashMapBuffer) }
        let d = jdefs(&lay);
        tr.emit(json!({"e": "bulk", "new": true, "ok": ok, "c": c.json(), "n": n, "lay": jdefs(&l), "defs": d, "file": f[..at.min(f.len())], "len": f.len(), "seen": seen}));
        return;
    }
    tr.emit(json!({"e": "bulk", "new": true, "ok": false}));
}

/// A file that was not made by the writer.
fn foreign(r: &mut StdRng, c: &Cfg, n: usize) -> (Vec<u8>, Value) {
    let head = [227usize, 227, 227, 235, 375][c.minor as usize];
    let mut vlrs = vec![];
    let mut all = c.vlrs.clone();
    if c.laz {
        let items: &[(u16, u16)] = match c.fmt { 0 => &[(6, 20)], 1 => &[(6, 20), (7, 8)], 2 => &[(6, 20), (8, 6)], 3 => &[(6, 20), (7, 8), (8, 6)], 4 => &[(6, 20), (7, 8), (9, 29)], 5 => &[(6, 20), (7, 8), (8, 6), (9, 29)], 6 => &[(10, 30)], 7 => &[(10, 30), (11, 6)], _ => &[(10, 30), (12, 8)] };
        let mut d = vec![0; 34];
        d[0] = 2; d[32] = items.len() as u8;
        for (k, s) in items { d.extend(k.to_le_bytes()); d.extend(s.to_le_bytes()); d.extend([2, 0]); }
        let at = r.gen_range(0..all.len() + 1);
        all.insert(at, (padded("laszip encoded", 16), 22204, d));
    }
    for (u, rec, d) in &all { vlrs.extend([0, 0]); vlrs.extend(u); vlrs.extend(rec.to_le_bytes()); vlrs.extend((d.len() as u16).to_le_bytes()); vlrs.extend([0; 32]); vlrs.extend(d); }
    let mut world = vec![];
    let mut pts = vec![];
    let mut locs = vec![];
    for _ in 0..n {
        let loc = if c.grid { c.any_loc(r) } else { [0, 1, 2].map(|a| r.gen_range(-100000 / c.s[a]..100000 / c.s[a]) as i32) };
        for x in loc { pts.extend(x.to_le_bytes()); }
        if c.grid { let w = c.world(loc); world.push(json!([w[0..8], w[8..16], w[16..24]])); }
        locs.push(loc);
        // the other parts of a record are any bytes, except floats
        let mut rec: Vec<u8> = (12..record_length(c.fmt)).map(|_| match r.gen_range(0..4) { 0 => 0, 1 => 255, _ => r.clone().gen::<u8>().wrapping_add(r.gen_range(0..255)) }).collect();
        let gps = if ext(c.fmt) { 10 } else { 8 };
        if c.fmt == 1 || c.fmt >= 3 { let v = value_bytes(r, PointAttributeDataType::F64); rec[gps..gps + 8].copy_from_slice(&v); }
        if wave(c.fmt) { let k = rec.len() - 16; for j in 0..4 { let v = value_bytes(r, PointAttributeDataType::F32); rec[k + 4 * j..k + 4 * j + 4].copy_from_slice(&v); } }
        pts.extend(rec);
        for d in c.extra() { let v = value_bytes(r, d.datatype()); pts.extend(v); }
    }
    let at = head + vlrs.len() + c.pad.len();
    let mut f = b"LASF".to_vec();
    f.extend(bytes_of(&c.fix["source"])); f.extend([1, 0]); f.extend(bytes_of(&c.fix["guid"])); f.extend([1, c.minor]);
    f.extend(bytes_of(&c.fix["system"])); f.extend(bytes_of(&c.fix["software"])); f.extend(bytes_of(&c.fix["date"]));
    f.extend((head as u16).to_le_bytes()); f.extend((at as u32).to_le_bytes()); f.extend((all.len() as u32).to_le_bytes());
    f.push(c.fmt | if c.laz { 0x80 } else { 0 }); f.extend((c.size() as u16).to_le_bytes());
    let legacy = !ext(c.fmt) && !(c.minor == 4 && r.gen_bool(0.3));
    f.extend((if legacy { n as u32 } else { 0 }).to_le_bytes()); f.extend([0; 20]);
    for x in c.scale.iter().chain(&c.offset) { f.extend(x.to_le_bytes()); }
    for a in 0..3 {
        let w: Vec<f64> = locs.iter().map(|l| l[a] as f64 * c.scale[a] + c.offset[a]).collect();
        f.extend(w.iter().fold(f64::MIN, |x, y| x.max(*y)).to_le_bytes()); f.extend(w.iter().fold(f64::MAX, |x, y| x.min(*y)).to_le_bytes());
    }
    if c.minor >= 3 { f.extend([0; 8]); }
    if c.minor >= 4 { f.extend([0; 12]); f.extend((n as u64).to_le_bytes()); f.extend([0; 120]); }
    assert_eq!(f.len(), head);
    f.extend(vlrs); f.extend(&c.pad);
    if c.laz { f.extend(((f.len() + 8 + pts.len()) as u64).to_le_bytes()); }
    f.extend(pts);
    if c.laz { f.extend([0; 8]); }
    (f, json!(world))
}
fn reads_foreign(tr: &mut Trace, r: &mut StdRng, c: &Cfg, n: usize, ops: Option<&Vec<Value>>) {
    tr.scenario();
    let mut c = c.clone();
    c.evlrs = vec![];
    let (f, world) = foreign(r, &c, n);
    tr.emit(json!({"e": "foreign", "new": true, "c": c.json(), "file": f, "n": n, "world": world}));
    reads(tr, r, &c, &f, ops);
}
fn reject(tr: &mut Trace, r: &mut StdRng) {
    let fmt = r.gen_range(0..9);
    let laz = r.gen_bool(0.5);
    let mut c = any_cfg(r, fmt, laz);
    c.evlrs = vec![];
    let (mut f, _) = foreign(r, &c, 2);
    let what = r.gen_range(0..4);
    match what {
        0 => { let k = r.gen_range(0..4); f[k] ^= 0x20; }
        1 => f.truncate(r.gen_range(0..227)),
        2 => f[104] = f[104] & 0xc0 | r.gen_range(11..63),
        // a record length that is shorter than the format
        _ => { let n = r.gen_range(0..record_length(fmt) as u16); f[105..107].copy_from_slice(&n.to_le_bytes()); }
    }
    tr.scenario();
    let ok = guard(|| LASReader::from_read(std::io::Cursor::new(f), laz, false).is_ok()).unwrap_or(false);
    tr.emit(json!({"e": "reject", "new": true, "what": what, "ok": ok}));
}

pub fn run(c: &Ctx) -> Value {
    let mut r = c.rng();
    let mut tr = c.trace(250);
    for case in c.cases() {
        let (fmt, laz) = (case["fmt"].as_u64().unwrap() as u8, case["laz"].as_bool().unwrap());
        let cfg = any_cfg(&mut r, fmt, laz);
        if case["role"] == "w" {
            let ops: Vec<(String, usize)> = case["ops"].as_array().unwrap().iter().map(|o| (o[0].as_str().unwrap().to_string(), o[1].as_u64().unwrap() as usize)).collect();
            let ops: Vec<(&str, usize)> = ops.iter().map(|(a, b)| (a.as_str(), *b)).collect();
            writes(&mut tr, &mut r, &cfg, &ops);
        } else {
            reads_foreign(&mut tr, &mut r, &cfg, case["n"].as_u64().unwrap() as usize, Some(case["ops"].as_array().unwrap()));
        }
    }
    for _ in 0..150 * c.k {
        let laz = r.gen_bool(0.35);
        let fmt = r.gen_range(0..11);
        let cfg = any_cfg(&mut r, fmt, laz);
        let mut ops: Vec<(&str, usize)> = vec![];
        for _ in 0..r.gen_range(0..4) { ops.push(match r.gen_range(0..8) { 0 if !laz => ("flush", 0), 1..=3 => ("own", *pick(&mut r, &[0, 1, 2, 5])), _ => ("write", *pick(&mut r, &[0, 1, 2, 3, 8])) }); }
        writes(&mut tr, &mut r, &cfg, &ops);
    }
    for _ in 0..60 * c.k { writes_layout(&mut tr, &mut r); }
    for _ in 0..120 * c.k {
        let laz = r.gen_bool(0.35);
        let fmt = if laz { r.gen_range(0..9) } else { r.gen_range(0..11) };
        let cfg = any_cfg(&mut r, fmt, laz);
        let n = *pick(&mut r, &[0, 1, 2, 3, 7, 15]);
        reads_foreign(&mut tr, &mut r, &cfg, n, None);
    }
    for _ in 0..40 * c.k { reject(&mut tr, &mut r); }
    for i in 0..4 * c.k {
        let (laz, own) = (i % 4 == 0, i % 2 == 0);
        let fmt = *pick(&mut r, if laz { &[0u8, 3, 6, 8] } else { &[0, 1, 3, 5, 6, 10] });
        let cfg = any_cfg(&mut r, fmt, laz);
        let n = *pick(&mut r, &[50_000, 50_001, 52_429, 70_000, 100_001]);
        bulk(&mut tr, &mut r, &cfg, n, own);
    }
    tr.summary()
}
