//! Files by their paths.
use crate::common::*;
use crate::in_storage;
use crate::las::{attrs_of, points_for, Cfg};
use crate::pnts::{any_points, def, jdefs, jpts, value_bytes};
use pasture_core::containers::*;
use pasture_core::layout::attributes::*;
use pasture_core::layout::*;
use pasture_io::base::*;
use pv::util::*;
use serde_json::{json, Value};
use std::io::SeekFrom;
use std::path::PathBuf;

/// A folder for the files, which is removed at the end.
struct Folder(PathBuf);
impl Folder {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("pv-files-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Folder(p)
    }
    fn clear(&self) { for f in std::fs::read_dir(&self.0).unwrap() { std::fs::remove_file(f.unwrap().path()).unwrap(); } }
}
impl Drop for Folder { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Clone, Copy, PartialEq)]
enum Kind { Las, Laz, Pnts, Other }
/// What points the driver makes for a path; the specification says what the path means.
fn kind(x: &str) -> Kind { match x.to_ascii_lowercase().as_str() { "las" => Kind::Las, "laz" => Kind::Laz, "pnts" => Kind::Pnts, _ => Kind::Other } }

fn las_attrs() -> Vec<PointAttributeDefinition> {
    let mut v = attrs_of(10);
    v.push(SCAN_ANGLE_RANK);
    v
}
fn float3(r: &mut StdRng) -> PointAttributeDataType { *pick(r, &[PointAttributeDataType::Vec3f32, PointAttributeDataType::Vec3f64]) }
fn pnts_attrs(r: &mut StdRng) -> Vec<PointAttributeDefinition> {
    vec![def("Position3D", float3(r)), def("Normal", float3(r)), def("ColorRGB", PointAttributeDataType::Vec3u8), def("ColorRGBA", PointAttributeDataType::Vec4u8)]
}
/// Points for a file of this kind.
fn make(r: &mut StdRng, k: Kind, n: usize) -> VectorBuffer {
    let mut defs: Vec<_> = if k == Kind::Pnts {
        let mut v: Vec<_> = pnts_attrs(r).into_iter().filter(|d| r.gen_bool(if d.name() == "Position3D" { 0.9 } else { 0.5 })).collect();
        if r.gen_bool(0.3) { v.push(INTENSITY) }
        v
    } else {
        let rare = *pick(r, &[0.05, 0.25]);
        let mut v: Vec<_> = las_attrs().into_iter().filter(|d| match d.name() {
            "Position3D" => true,
            "GpsTime" | "ColorRGB" => r.gen_bool(0.5),
            "ScanAngle" | "ScannerChannel" | "ClassificationFlags" | "NIR" => r.gen_bool(rare),
            n if n.starts_with("Wave") || n.starts_with("ReturnPoint") => k != Kind::Laz && r.gen_bool(rare / 3.0),
            _ => r.gen_bool(0.4),
        }).collect();
        if r.gen_bool(0.2) { v.push(NORMAL) }
        v
    };
    if defs.is_empty() { defs.push(POSITION_3D) }
    shuffle(r, &mut defs);
    let l = any_layout(r, &defs);
    if k == Kind::Pnts { any_points(r, &l, n) } else {
        let c = Cfg::plain();
        points_for(r, &c, &l, n).0
    }
}
fn target(r: &mut StdRng, k: Kind) -> PointLayout {
    let all = if k == Kind::Pnts { let mut v = pnts_attrs(r); v.push(GPS_TIME); v } else { let mut v = las_attrs(); v.push(NORMAL); v };
    let mut defs: Vec<_> = all.into_iter().filter(|_| r.gen_bool(0.45)).collect();
    if defs.is_empty() { defs.push(POSITION_3D) }
    shuffle(r, &mut defs);
    any_layout(r, &defs)
}

fn name(stem: &str, x: &str) -> String { if x.is_empty() { stem.to_string() } else { format!("{stem}.{x}") } }

fn history(tr: &mut Trace, r: &mut StdRng, dir: &Folder, ops: &[Value]) {
    tr.scenario();
    dir.clear();
    tr.emit(json!({"e": "fresh", "new": true}));
    let stem = *pick(r, &["f", "a.b", ".h", "x.pnts", "x.las", "with space", "größe"]);
    let bare = *pick(r, &["f", ".las", ".pnts", "laz"]);
    let mut last = String::new();
    // the kind of the content of a file
    let mut inside: std::collections::HashMap<String, Kind> = Default::default();
    for op in ops {
        let (o, x, n) = (op["op"].as_str().unwrap(), op["x"].as_str().unwrap(), op["k"].as_u64().unwrap() as usize);
        let k = kind(x);
        let file = if x.is_empty() { bare.to_string() } else { name(stem, x) };
        let path = dir.0.join(&file);
        match o {
            "write" | "steps" => {
                let n = if r.gen_bool(0.05) { 0 } else { n };
                let src = make(r, k, n);
                let ok = if o == "write" {
                    let s = r.gen_range(0..5);
                    guard(|| in_storage!(s, src, b => write_all(b, &path).is_ok())).unwrap_or(false)
                } else {
                    guard(|| {
                        let mut w = GenericPointWriter::open_file(&path, src.point_layout()).ok()?;
                        let at = r.gen_range(0..n + 1);
                        w.write(&src.slice(0..at)).ok()?;
                        w.write(&src.slice(at..n)).ok()?;
                        // points of LAS files are only sure to be there after a flush
                        if k != Kind::Pnts || r.gen_bool(0.5) { w.flush().ok()?; }
                        Some(())
                    }).flatten().is_some()
                };
                let f = std::fs::read(&path).unwrap_or_default();
                if k != Kind::Other { inside.insert(file.clone(), k); last = file.clone(); }
                tr.emit(json!({"e": "write", "path": file, "ext": x, "lay": jdefs(src.point_layout()), "pts": jpts(&src, n), "ok": ok, "exists": path.exists(),
                    "magic": f.get(..4).unwrap_or(&[]), "flag": if k == Kind::Las || k == Kind::Laz { f.get(104).copied().unwrap_or(255) } else { 0 }, "len": f.len()}));
            }
            "read" => {
                macro_rules! all { ($t:ident) => { guard(|| read_all::<$t, _>(&path).ok().map(|b| (jdefs(b.point_layout()), jpts(&b, b.len())))).flatten() } }
                let got = if r.gen_bool(0.5) { all!(VectorBuffer) } else { all!(HashMapBuffer) };
                let ok = got.is_some();
                let (defs, got) = got.unwrap_or((json!([]), json!([])));
                tr.emit(json!({"e": "read", "path": file, "ext": x, "ok": ok, "defs": defs, "got": got}));
            }
            "into" => {
                let l = target(r, inside.get(&file).copied().unwrap_or(k));
                let have = *pick(r, &[0, 0, 1, 2, 5]);
                macro_rules! into { ($t:ident) => {{
                    let mut b = $t::new_from_layout(l.clone());
                    b.resize(have);
                    for i in 0..have { for m in l.attributes() { let v = value_bytes(r, m.datatype()); unsafe { b.set_attribute(m.attribute_definition(), i, &v); } } }
                    let before = jpts(&b, have);
                    let n = guard(|| read_all_into(&mut b, &path).ok()).flatten();
                    (n, before, jpts(&b, b.len()))
                }} }
                let (n, before, after) = if r.gen_bool(0.5) { into!(VectorBuffer) } else { into!(HashMapBuffer) };
                tr.emit(json!({"e": "into", "path": file, "ext": x, "ok": n.is_some(), "n": n.unwrap_or(0), "before": before, "after": after, "defs": jdefs(&l)}));
            }
            "copy" => {
                // compressed points are not what a .las file has
                if last.is_empty() || last == file || (k == Kind::Las && inside.get(&last) == Some(&Kind::Laz)) || !dir.0.join(&last).exists() { continue }
                std::fs::copy(dir.0.join(&last), &path).unwrap();
                inside.insert(file.clone(), inside[&last]);
                tr.emit(json!({"e": "copy", "from": last, "path": file}));
            }
            "remove" => {
                let _ = std::fs::remove_file(&path);
                inside.remove(&file);
                tr.emit(json!({"e": "remove", "path": file}));
            }
            _ => {
                let rd = guard(|| GenericPointReader::open_file(&path).ok()).flatten();
                let mut e = json!({"e": "open", "path": file, "ext": x, "ok": rd.is_some(), "total": 0, "defs": []});
                let Some(mut rd) = rd else { tr.emit(e); continue };
                let total = rd.point_count().map(|x| x as i64).unwrap_or(-1);
                e["total"] = json!(if rd.get_metadata().number_of_points().map(|x| x as i64) == Some(total) { total } else { -1 });
                e["defs"] = jdefs(rd.get_default_point_layout());
                tr.emit(e);
                for _ in 0..r.gen_range(1..6) {
                    if r.gen_bool(0.6) {
                        let count = r.gen_range(0..total.max(0) as usize + 2);
                        let (l, got) = if r.gen_bool(0.5) {
                            (rd.get_default_point_layout().clone(), guard(|| rd.read::<VectorBuffer>(count).ok().map(|b| jpts(&b, b.len()))).flatten())
                        } else {
                            let l = target(r, inside[&file]);
                            let mut b = HashMapBuffer::new_from_layout(l.clone());
                            b.resize(count);
                            let got = guard(|| rd.read_into(&mut b, count).ok()).flatten().map(|n| jpts(&b, n.min(count)));
                            (l, got)
                        };
                        let ok = got.is_some();
                        tr.emit(json!({"e": "part", "count": count, "ok": ok, "got": got.unwrap_or(json!([])), "defs": jdefs(&l)}));
                    } else {
                        let (whence, off) = match r.gen_range(0..3) { 0 => ("start", r.gen_range(0..total + 2)), 1 => ("end", -r.gen_range(0..total + 2)), _ => ("current", r.gen_range(-total - 1..total + 2)) };
                        let p = match whence { "start" => SeekFrom::Start(off as u64), "end" => SeekFrom::End(off), _ => SeekFrom::Current(off) };
                        let at = guard(|| rd.seek_point(p).ok()).flatten();
                        tr.emit(json!({"e": "seek", "whence": whence, "off": off, "ok": at.is_some(), "at": at.unwrap_or(0)}));
                    }
                }
            }
        }
    }
}

pub fn run(c: &Ctx) -> Value {
    let mut r = c.rng();
    let mut tr = c.trace(400);
    let dir = Folder::new();
    for case in c.cases() { history(&mut tr, &mut r, &dir, case["ops"].as_array().unwrap()); }
    let exts = ["las", "LAZ", "pnts", "laz", "PNTS", "Las", "txt", "", "e57", "lasz"];
    for _ in 0..150 * c.k {
        let few: Vec<&str> = (0..r.gen_range(1..4)).map(|_| if r.gen_bool(0.85) { *pick(&mut r, &exts[..6]) } else { *pick(&mut r, &exts) }).collect();
        let ops: Vec<Value> = (0..r.gen_range(2..9)).map(|i| {
            let o = if i == 0 { "write" } else { *pick(&mut r, &["write", "steps", "read", "read", "into", "into", "parts", "parts", "copy", "remove"]) };
            json!({"op": o, "x": pick(&mut r, &few), "k": pick(&mut r, &[0, 1, 2, 3, 7])})
        }).collect();
        history(&mut tr, &mut r, &dir, &ops);
    }
    tr.summary()
}
