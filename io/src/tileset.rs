//! Tilesets: building them, and their documents.
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Matrix4, Point3, Vector3};
use pasture_io::tiles3d::*;
use pv::util::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

fn n(x: f64) -> String { format!("{x:?}") }
/// Numbers that can be read back exactly from their decimal digits whatever the reader does.
fn num(r: &mut StdRng) -> f64 {
    match r.gen_range(0..6) {
        0 => r.gen_range(-4..5) as f64,
        1 => r.gen_range(-1_000_000..1_000_000) as f64 / 8.0,
        2 => r.gen_range(-9_000_000_000_000i64..9_000_000_000_000) as f64,
        3 => *pick(r, &[0.0, 1.0, 1e15, -1e20, 0.5, 1e-3, 255.0]),
        _ => r.gen_range(-100..100) as f64 / 4.0,
    }
}
fn nums(r: &mut StdRng, k: usize) -> Vec<f64> { let same = r.gen_bool(0.1); let x = num(r); (0..k).map(|_| if same { x } else { num(r) }).map(|x| if x == 0.0 { 0.0 } else { x }).collect() }
fn strings(v: &[f64]) -> Vec<String> { v.iter().map(|x| n(*x)).collect() }
fn text(r: &mut StdRng) -> String { pick(r, &["a.pnts", "", "r/0/1.pnts", "ü \"x\".pnts", "tileset.json", "\\n\n"]).to_string() }
fn size(k: &str) -> usize { match k { "region" => 6, "box" => 12, _ => 4 } }

/// The leaves of a document.
fn leaves(v: &Value) -> Value {
    fn go(v: &Value, p: &mut Vec<String>, out: &mut Vec<Value>) {
        let leaf = |t: &str, s: String| json!({"p": p, "t": t, "v": s});
        match v {
            Value::Null => out.push(leaf("null", "".into())),
            Value::Bool(b) => out.push(leaf("bool", b.to_string())),
            Value::Number(x) => out.push(leaf("number", n(x.as_f64().unwrap()))),
            Value::String(s) => out.push(leaf("string", s.clone())),
            Value::Array(a) if a.is_empty() => out.push(leaf("[]", "".into())),
            Value::Object(m) if m.is_empty() => out.push(leaf("{}", "".into())),
            Value::Array(a) => for (i, x) in a.iter().enumerate() { p.push(i.to_string()); go(x, p, out); p.pop(); },
            Value::Object(m) => for (k, x) in m { p.push(k.clone()); go(x, p, out); p.pop(); },
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    json!(out)
}

// what can be seen of things through their functions and members
fn parts(v: &BoundingVolume) -> (&'static str, Vec<f64>) {
    let three = |v: Vector3<f64>| [v.x, v.y, v.z];
    match v {
        BoundingVolume::Region(r) => ("region", vec![r.west(), r.south(), r.east(), r.north(), r.min_height(), r.max_height()]),
        BoundingVolume::Box(b) => ("box", [three(b.center()), three(b.x()), three(b.y()), three(b.z())].concat()),
        BoundingVolume::Sphere(s) => ("sphere", [&three(s.center())[..], &[s.radius()]].concat()),
    }
}
fn jvol(v: &BoundingVolume) -> Value { let (k, x) = parts(v); json!({"kind": k, "nums": strings(&x)}) }
fn jopt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value { match o { None => json!([]), Some(x) => json!([f(x)]) } }
fn jtile(t: &Tileset) -> Value {
    json!({
        "err": n(t.geometric_error), "refine": jopt(&t.refinement, |x| json!(match x { Refinement::Add => "ADD", Refinement::Replace => "REPLACE" })),
        "vol": jvol(&t.bounding_volume), "view": jopt(&t.viewer_request_volume, jvol),
        "content": jopt(&t.content, |c| json!({"uri": c.uri, "vol": jopt(&c.bounding_volume, jvol)})),
        // column by column
        "transform": jopt(&t.transform, |m| json!((0..16).map(|k| n(m[(k % 4, k / 4)])).collect::<Vec<_>>())),
        "children": t.children.iter().map(jtile).collect::<Vec<_>>(),
    })
}
fn jroot(t: &RootTileset) -> Value {
    json!({"version": t.asset.version, "tilesetVersion": jopt(&t.asset.tileset_version, |x| json!(x)), "err": n(t.geometric_error), "tile": jtile(&t.root), "properties": jopt(&t.properties, jprops)})
}
fn jprops(m: &HashMap<String, TilesetProperty>) -> Value { json!(m.iter().map(|(k, p)| json!({"name": k, "min": n(p.minimum), "max": n(p.maximum)})).collect::<Vec<_>>()) }

fn volume(r: &mut StdRng, kind: &str) -> BoundingVolume {
    let x = nums(r, size(kind));
    let v = |k: usize| Vector3::new(x[k], x[k + 1], x[k + 2]);
    match kind {
        "region" => BoundingVolume::Region(BoundingRegion::new(x[0], x[1], x[2], x[3], x[4], x[5])),
        "box" => BoundingVolume::Box(BoundingBox::new(v(0), v(3), v(6), v(9))),
        _ => BoundingVolume::Sphere(BoundingSphere::new(v(0), x[3])),
    }
}
fn a_kind(r: &mut StdRng) -> &'static str { pick(r, &["region", "box", "sphere"]) }

/// Builds a tile step by step.
struct Maker { b: Option<TilesetBuilder>, made: Vec<Tileset> }
impl Maker {
    fn step(&mut self, tr: &mut Trace, r: &mut StdRng, f: &str, arg: &str) {
        let b = self.b.take().unwrap_or_default();
        let some = |r: &mut StdRng, m: &Vec<Tileset>| r.gen_range(0..m.len());
        let mut neg = false;
        let (v, nb) = match f {
            "err" => { let x = num(r); neg = x < 0.0; (json!(n(x)), guard(|| b.geometric_error(x))) }
            "refine" => (json!(arg), guard(|| b.refinement(if arg == "ADD" { Refinement::Add } else { Refinement::Replace }))),
            "vol" => { let w = volume(r, arg); (jvol(&w), guard(|| b.bounding_volume(w))) }
            "view" => { let w = volume(r, arg); (jvol(&w), guard(|| b.viewer_request_volume(w))) }
            "content" => {
                let (u, w) = (text(r), if arg == "none" { None } else { Some(volume(r, arg)) });
                (json!({"uri": u, "vol": jopt(&w, jvol)}), guard(|| b.content(u, w)))
            }
            "transform" => { let x = nums(r, 16); (json!(strings(&x)), guard(|| b.transform(Matrix4::from_fn(|i, j| x[4 * j + i])))) }
            "child" => { let k = some(r, &self.made); (json!([k + 1]), guard(|| b.add_child(self.made[k].clone()))) }
            _ => { let ks: Vec<usize> = (0..r.gen_range(0..3)).map(|_| some(r, &self.made)).collect(); (json!(ks.iter().map(|k| k + 1).collect::<Vec<_>>()), guard(|| b.add_children(ks.iter().map(|k| self.made[*k].clone())))) }
        };
        tr.emit(json!({"e": "set", "op": {"f": f, "v": v, "negative": neg}, "ok": nb.is_some()}));
        self.b = nb;
    }
    fn done(&mut self, tr: &mut Trace) {
        let t: Tileset = self.b.take().unwrap_or_default().into();
        let doc = guard(|| serde_json::to_value(&t).ok()).flatten().unwrap_or(Value::Null);
        let back = guard(|| serde_json::from_value::<Tileset>(doc.clone()).ok()).flatten();
        let text = guard(|| serde_json::from_str::<Tileset>(&serde_json::to_string_pretty(&t).ok()?).ok()).flatten();
        let same: Vec<usize> = (0..self.made.len()).filter(|k| self.made[*k] == t).map(|k| k + 1).collect();
        tr.emit(json!({"e": "done", "tile": jtile(&t), "json": leaves(&doc), "ok": back.is_some() && text.is_some(), "back": jtile(&back.unwrap_or_default()), "text": jtile(&text.unwrap_or_default()), "same": same}));
        self.made.push(t);
    }
}

// documents, made without the library
fn dvol(r: &mut StdRng, kind: &str) -> Value { json!({kind: nums(r, size(kind))}) }
fn dtile(r: &mut StdRng, depth: usize, p: f64) -> Value {
    let mut m = Map::new();
    m.insert("geometricError".into(), if r.gen_bool(0.2) { json!(7) } else { json!(num(r)) });
    let k = a_kind(r);
    m.insert("boundingVolume".into(), dvol(r, k));
    if r.gen_bool(p) { m.insert("refine".into(), json!(pick(r, &["ADD", "REPLACE"]))); }
    if r.gen_bool(p) { let k = a_kind(r); m.insert("viewerRequestVolume".into(), dvol(r, k)); }
    if r.gen_bool(p) {
        let mut c = json!({"uri": text(r)});
        if r.gen_bool(p) { let k = a_kind(r); c["boundingVolume"] = dvol(r, k); }
        m.insert("content".into(), c);
    }
    if r.gen_bool(p) { m.insert("transform".into(), json!(nums(r, 16))); }
    if depth > 0 && r.gen_bool(p) { m.insert("children".into(), json!((0..r.gen_range(0..3)).map(|_| dtile(r, depth - 1, p)).collect::<Vec<_>>())); }
    Value::Object(m)
}
fn droot(r: &mut StdRng, p: f64) -> Value {
    let mut d = json!({"asset": {"version": text(r)}, "geometricError": num(r), "root": dtile(r, 2, p)});
    if r.gen_bool(p) { d["asset"]["tilesetVersion"] = json!(text(r)); }
    if r.gen_bool(p) { d["properties"] = Value::Object((0..r.gen_range(0..3)).map(|k| (["a", "b b", "Höhe"][k].to_string(), json!({"minimum": num(r), "maximum": num(r)}))).collect()); }
    d
}
/// The objects in a document that have a member.
fn with(v: &Value, name: &str, p: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => { if m.contains_key(name) { out.push(p.clone()); } for (k, x) in m { with(x, name, format!("{p}/{k}"), out); } }
        Value::Array(a) => for (k, x) in a.iter().enumerate() { with(x, name, format!("{p}/{k}"), out); },
        _ => {}
    }
}
fn change(r: &mut StdRng, d: &mut Value, how: &str, name: &str) -> bool {
    let mut at = vec![];
    with(d, name, String::new(), &mut at);
    if at.is_empty() { return false; }
    let p = pick(r, &at).clone();
    let m = d.pointer_mut(&p).unwrap().as_object_mut().unwrap();
    let x = m[name].clone();
    let y = match how {
        "drop" => { m.remove(name); return true; }
        "extra" => { m.insert("extras".into(), json!({"a": [1, {"b": null}]})); m.insert("Refine".into(), json!("NONE")); return true; }
        "null" => Value::Null,
        "number" => json!(5),
        "string" => json!(pick(r, &["add", "REPLACE ", "x", "ADD"])),
        "bool" => json!(true),
        "empty" => if x.is_array() { json!([]) } else { json!({}) },
        "short" => match x { Value::Array(mut a) => { a.pop(); json!(a) } x => x },
        "long" => match x { Value::Array(mut a) => { a.push(a.last().cloned().unwrap_or(json!(1))); json!(a) } x => x },
        "other" => match x { Value::Array(mut a) if !a.is_empty() => { let k = r.gen_range(0..a.len()); a[k] = json!(pick(r, &["1", "x"])); json!(a) } x => x },
        // a volume of two kinds
        "two" => match x { Value::Object(mut o) if o.contains_key("box") || o.contains_key("sphere") => { o.insert("region".into(), json!(nums(r, 6))); json!(o) } x => x },
        _ => x,
    };
    m.insert(name.into(), y);
    true
}
fn doc(tr: &mut Trace, r: &mut StdRng, what: &str, how: &str, name: &str) {
    tr.scenario();
    tr.emit(json!({"e": "fresh", "new": true}));
    for _ in 0..20 {
        let p = *pick(r, &[0.4, 0.9]);
        let mut d = if what == "tile" { dtile(r, 2, p) } else { droot(r, p) };
        if !change(r, &mut d, how, name) { continue; }
        let s = if r.gen_bool(0.5) { d.to_string() } else { serde_json::to_string_pretty(&d).unwrap() };
        if what == "tile" {
            let t = guard(|| serde_json::from_str::<Tileset>(&s).ok()).flatten();
            tr.emit(json!({"e": "read", "json": leaves(&d), "ok": t.is_some(), "tile": jtile(&t.unwrap_or_default())}));
        } else {
            let t = guard(|| serde_json::from_reader::<_, RootTileset>(s.as_bytes()).ok()).flatten();
            tr.emit(json!({"e": "readroot", "json": leaves(&d), "ok": t.is_some(), "root": jroot(&t.unwrap_or_default())}));
        }
        return;
    }
}

fn root(tr: &mut Trace, r: &mut StdRng, m: &Maker) {
    let k = r.gen_range(0..m.made.len());
    let mut t = RootTileset { geometric_error: num(r), root: m.made[k].clone(), ..Default::default() };
    if r.gen_bool(0.5) { t.asset.version = text(r); }
    if r.gen_bool(0.5) { t.asset.tileset_version = Some(text(r)); }
    if r.gen_bool(0.6) { t.properties = Some((0..r.gen_range(0..3)).map(|k| (["a", "b b", "Höhe"][k].to_string(), TilesetProperty { minimum: num(r), maximum: num(r) })).collect()); }
    let mut given = jroot(&t);
    given["tile"] = json!(k + 1);
    let doc = guard(|| serde_json::to_value(&t).ok()).flatten().unwrap_or(Value::Null);
    let back = guard(|| serde_json::from_str::<RootTileset>(&serde_json::to_string(&t).ok()?).ok()).flatten();
    tr.emit(json!({"e": "root", "given": given, "json": leaves(&doc), "ok": back.as_ref() == Some(&t), "back": jroot(&back.unwrap_or_default())}));
}

pub fn run(c: &Ctx) -> Value {
    let mut r = c.rng();
    let mut tr = c.trace(400);
    for case in c.cases() {
        let s = |k: &str| case[k].as_str().unwrap();
        if s("what") != "build" { doc(&mut tr, &mut r, s("what"), s("how"), s("member")); continue; }
        tr.scenario();
        tr.emit(json!({"e": "fresh", "new": true}));
        let mut m = Maker { b: None, made: vec![] };
        let kids = case["kids"].as_u64().unwrap();
        for _ in 0..kids {
            if r.gen_bool(0.5) { m.step(&mut tr, &mut r, "err", ""); }
            if r.gen_bool(0.5) { let k = a_kind(&mut r); m.step(&mut tr, &mut r, "content", k); }
            m.done(&mut tr);
        }
        let mut steps = vec![("err", "")];
        if s("refine") != "none" { steps.push(("refine", s("refine"))); }
        if s("vol") != "none" { steps.push(("vol", s("vol"))); }
        if s("view") != "none" { steps.push(("view", s("view"))); }
        if s("content") != "no" { steps.push(("content", s("content"))); }
        if case["transform"] == true { steps.push(("transform", "")); }
        for k in 0..kids { steps.push((if k == 2 { "children" } else { "child" }, "")); }
        crate::common::shuffle(&mut r, &mut steps);
        for (f, a) in steps { m.step(&mut tr, &mut r, f, a); }
        m.done(&mut tr);
        root(&mut tr, &mut r, &m);
    }
    for _ in 0..60 * c.k {
        tr.scenario();
        tr.emit(json!({"e": "fresh", "new": true}));
        let mut m = Maker { b: None, made: vec![] };
        for _ in 0..r.gen_range(2..20) {
            let f = *pick(&mut r, &["err", "refine", "vol", "view", "content", "transform", "child", "children", "done", "done"]);
            let a = match f { "refine" => *pick(&mut r, &["ADD", "REPLACE"]), "content" => *pick(&mut r, &["none", "region", "box", "sphere"]), _ => a_kind(&mut r) };
            if f == "done" { m.done(&mut tr) } else if !f.starts_with("child") || !m.made.is_empty() { m.step(&mut tr, &mut r, f, a) }
        }
        m.done(&mut tr);
        root(&mut tr, &mut r, &m);
        for kind in ["region", "box", "sphere"] {
            let x = nums(&mut r, size(kind));
            let v = |k: usize| Vector3::new(x[k], x[k + 1], x[k + 2]);
            let (w, d) = match kind {
                "region" => { let b = BoundingRegion::new(x[0], x[1], x[2], x[3], x[4], x[5]); (BoundingVolume::Region(b), json!({kind: b})) }
                "box" => { let b = BoundingBox::new(v(0), v(3), v(6), v(9)); (BoundingVolume::Box(b), json!({kind: b})) }
                _ => { let b = BoundingSphere::new(v(0), x[3]); (BoundingVolume::Sphere(b), json!({kind: b})) }
            };
            tr.emit(json!({"e": "volume", "kind": kind, "nums": strings(&x), "parts": strings(&parts(&w).1), "json": leaves(&d)}));
        }
        let lo: Vec<i64> = (0..3).map(|_| r.gen_range(-1000..1000)).collect();
        let hi: Vec<i64> = lo.iter().map(|x| x + *pick(&mut r, &[0, 1, 2, 77, 100_000])).collect();
        let p = |v: &[i64]| Point3::new(v[0] as f64, v[1] as f64, v[2] as f64);
        let b = AABB::from_min_max(p(&lo), p(&hi));
        let twice = |b: BoundingBox| parts(&BoundingVolume::Box(b)).1.iter().map(|x| (x * 2.0) as i64).collect::<Vec<_>>();
        tr.emit(json!({"e": "bounds", "min": lo, "max": hi, "twice": twice(b.into()), "byref": twice((&b).into())}));
    }
    tr.scenario();
    tr.emit(json!({"e": "fresh", "new": true}));
    tr.emit(json!({"e": "nothing", "json": leaves(&serde_json::to_value(RootTileset::default()).unwrap())}));
    tr.summary()
}
