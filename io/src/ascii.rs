//! Text files, byte for byte.
use crate::common::*;
use crate::in_storage;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_io::ascii::*;
use pasture_io::base::*;
use pv::util::*;
use serde_json::{json, Value};

const LITS: &str = "sxyzirnctupRGBedaI";
fn def_of(l: char) -> PointAttributeDefinition {
    match l {
        'x' | 'y' | 'z' => attributes::POSITION_3D,
        'i' => attributes::INTENSITY,
        'r' => attributes::RETURN_NUMBER,
        'n' => attributes::NUMBER_OF_RETURNS,
        'c' => attributes::CLASSIFICATION,
        't' => attributes::GPS_TIME,
        'u' => attributes::USER_DATA,
        'p' => attributes::POINT_SOURCE_ID,
        'R' | 'G' | 'B' => attributes::COLOR_RGB,
        'e' => attributes::EDGE_OF_FLIGHT_LINE,
        'd' => attributes::SCAN_DIRECTION_FLAG,
        'a' => attributes::SCAN_ANGLE_RANK,
        'I' => attributes::NIR,
        _ => unreachable!(),
    }
}
fn name_of(d: &PointAttributeDefinition) -> &'static str {
    LITS.chars().filter(|l| *l != 's').find(|l| def_of(*l) == *d).map(|l| match l {
        'x' => "POSITION_3D", 'i' => "INTENSITY", 'r' => "RETURN_NUMBER", 'n' => "NUMBER_OF_RETURNS", 'c' => "CLASSIFICATION", 't' => "GPS_TIME", 'u' => "USER_DATA",
        'p' => "POINT_SOURCE_ID", 'R' => "COLOR_RGB", 'e' => "EDGE_OF_FLIGHT_LINE", 'd' => "SCAN_DIRECTION_FLAG", 'a' => "SCAN_ANGLE_RANK", 'I' => "NIR", _ => "?",
    }).unwrap_or("?")
}
/// Which bytes of the attribute belong to the literal.
fn part(l: char) -> std::ops::Range<usize> {
    match l { 'x' | 't' => 0..8, 'y' => 8..16, 'z' => 16..24, 'R' | 'i' | 'p' | 'I' => 0..2, 'G' => 2..4, 'B' => 4..6, _ => 0..1 }
}
/// The value of a column as the specification sees it.
fn jval(l: char, b: &[u8]) -> Value {
    match l {
        'x' | 'y' | 'z' | 't' => json!(b),
        'a' => json!(b[0] as i8),
        _ => json!(b.iter().rev().fold(0u32, |s, x| s * 256 + *x as u32)),
    }
}
fn jfmt(f: &str) -> Value { json!(f.chars().map(|c| c.to_string()).collect::<Vec<_>>()) }

fn any_f64(r: &mut StdRng) -> f64 {
    match r.gen_range(0..9) {
        0 => *pick(r, &[0.0, -0.0, 1.0, 10.0, 100.0, -10.0, 1000.0, 0.1, 0.00001, 0.000005, 0.000004, -0.000001, 99999.999995, 0.5, 1e9, 1e15, 4503599627370496.5]),
        1 => r.gen_range(-1000i64..1000) as f64,
        2 => r.gen_range(-1000i64..1000) as f64 * 10.0,
        3 => r.gen_range(-1_000_000i64..1_000_000) as f64 / 1000.0,
        4 => (r.gen_range(-1_000_000_000i64..1_000_000_000) as f64 + 0.5) / 100_000.0,
        5 => r.gen_range(-1.0..1.0),
        6 => r.gen_range(-1e-4..1e-4),
        7 => r.gen_range(-1e12..1e12),
        _ => r.gen_range(-1e6..1e6),
    }
}
fn any_bytes(r: &mut StdRng, d: &PointAttributeDefinition) -> Vec<u8> {
    if *d == attributes::POSITION_3D { return (0..3).flat_map(|_| any_f64(r).to_le_bytes()).collect(); }
    if *d == attributes::GPS_TIME { return any_f64(r).to_le_bytes().to_vec(); }
    if *d == attributes::EDGE_OF_FLIGHT_LINE || *d == attributes::SCAN_DIRECTION_FLAG { return vec![*pick(r, &[0, 1, 0, 1, 2, 255])]; }
    (0..d.size()).map(|_| *pick(r, &[0, 1, 9, 10, 99, 100, 127, 128, 255, r.clone().gen()])).collect()
}
fn any_fmt(r: &mut StdRng) -> String {
    let lits: Vec<char> = LITS.chars().collect();
    if r.gen_bool(0.1) { let mut v = lits.clone(); shuffle(r, &mut v); return v.into_iter().collect(); }
    let n = *pick(r, &[1, 1, 2, 3, 4, 5, 6, 8, 12]);
    (0..n).map(|_| if r.gen_bool(0.01) { *pick(r, &['Q', 'X', '1', ' ', 'ä', 'b']) } else { *pick(r, &lits) }).collect()
}
fn needed(fmt: &str) -> Vec<PointAttributeDefinition> {
    let mut v: Vec<PointAttributeDefinition> = vec![];
    for l in fmt.chars().filter(|l| *l != 's' && LITS.contains(*l)) { if !v.contains(&def_of(l)) { v.push(def_of(l)); } }
    v
}

/// A writer and a few batches of points; afterwards the file is read back.
fn writes(tr: &mut Trace, r: &mut StdRng, fmt: &str, batches: &[usize], back: bool) {
    tr.scenario();
    let file = Shared::new(*pick(r, &[0, 0, 1, 3]));
    let w = guard(|| AsciiWriter::from_write(file.clone(), fmt).ok()).flatten();
    tr.emit(json!({"e": "new", "role": "w", "fmt": jfmt(fmt), "delim": ", ".as_bytes(), "prec": 5, "lines": [], "ok": w.is_some()}));
    let Some(mut w) = w else { return };
    let mut all: Vec<String> = vec![];
    for n in batches {
        let mut defs = needed(fmt);
        let missing = !defs.is_empty() && r.gen_bool(0.03);
        if missing { let k = r.gen_range(0..defs.len()); defs.remove(k); }
        for d in [attributes::POINT_ID, attributes::NORMAL, attributes::INTENSITY, attributes::CLASSIFICATION, attributes::USER_DATA, attributes::RETURN_NUMBER] {
            if r.gen_bool(0.3) && !defs.contains(&d) && !missing { defs.push(d); }
        }
        if defs.is_empty() { defs.push(attributes::POINT_ID); }
        shuffle(r, &mut defs);
        let lay = any_layout(r, &defs);
        let mut src = VectorBuffer::new_from_layout(lay.clone());
        src.resize(*n);
        for i in 0..*n { for d in &defs { let v = any_bytes(r, d); unsafe { src.set_attribute(d, i, &v); } } }
        let pts: Vec<Value> = (0..*n).map(|i| json!(fmt.chars().map(|l| if l == 's' || !defs.contains(&def_of(l)) { json!([]) } else { jval(l, &attr_bytes(&src, &def_of(l), i)[part(l)]) }).collect::<Vec<_>>())).collect();
        let before = file.bytes().len();
        let kind = r.gen_range(0..5);
        let ok = guard(|| in_storage!(kind, src, b => w.write(b).is_ok() && w.flush().is_ok())).unwrap_or(false);
        let new = file.bytes()[before..].to_vec();
        let whole = new.is_empty() || new.last() == Some(&b'\n');
        let mut lines: Vec<&[u8]> = new.split(|c| *c == b'\n').collect();
        lines.pop();
        let has = *n == 0 || needed(fmt).iter().all(|d| defs.contains(d));
        tr.emit(json!({"e": "write", "has": has, "ok": ok, "whole": whole, "lines": lines, "pts": pts}));
        if !has { return; }
        all.extend(lines.iter().map(|l| String::from_utf8_lossy(l).to_string()));
    }
    if back && !fmt.contains('s') { let d = Reading { fmt: fmt.into(), delim: ", ".into(), lines: all, end: "\n", last: true }; reads(tr, r, &d, None); }
}

struct Reading { fmt: String, delim: String, lines: Vec<String>, end: &'static str, last: bool }
/// Reads a text in steps; `steps`: (count, into another buffer).
fn reads(tr: &mut Trace, r: &mut StdRng, d: &Reading, steps: Option<Vec<usize>>) {
    tr.scenario();
    let mut text = d.lines.join(d.end);
    // an empty last line is only there if it ends
    if !d.lines.is_empty() && (d.last || d.lines.last().unwrap().is_empty()) { text += d.end; }
    let file = std::io::BufReader::with_capacity(*pick(r, &[1, 7, 8192]), Shared::of(text.into_bytes(), *pick(r, &[0, 1, 5])));
    let rd = guard(|| AsciiReader::from_read(file, &d.fmt, &d.delim).ok()).flatten();
    let attrs: Vec<_> = rd.iter().flat_map(|x| x.get_default_point_layout().attributes().map(|m| name_of(m.attribute_definition())).collect::<Vec<_>>()).collect();
    tr.emit(json!({"e": "new", "role": "r", "fmt": jfmt(&d.fmt), "delim": d.delim.as_bytes(), "prec": 5, "lines": d.lines.iter().map(|l| l.as_bytes().to_vec()).collect::<Vec<_>>(), "ok": rd.is_some(), "attrs": attrs}));
    let Some(mut rd) = rd else { return };
    let steps = steps.unwrap_or_else(|| { let n = d.lines.len(); let mut v: Vec<_> = (0..r.gen_range(1..4)).map(|_| r.gen_range(0..n + 2)).collect(); if r.gen_bool(0.8) { v.push(n + 1); } v });
    for count in steps {
        let kind = r.gen_range(0..5);
        let ok = match kind {
            0 => guard(|| rd.read::<VectorBuffer>(count).ok().map(|b| { let n = b.len(); (n, points(&d.fmt, &b, n), true) })).flatten(),
            1 => guard(|| rd.read::<HashMapBuffer>(count).ok().map(|b| { let n = b.len(); (n, points(&d.fmt, &b, n), true) })).flatten(),
            _ => {
                // into a buffer with other attributes, longer than what is read
                let mut defs: Vec<_> = needed(&d.fmt).into_iter().filter(|_| kind == 2 || r.gen_bool(0.7)).collect();
                for x in [attributes::POINT_ID, attributes::NORMAL, attributes::INTENSITY, attributes::CLASSIFICATION] { if r.gen_bool(0.25) && !defs.contains(&x) { defs.push(x); } }
                if defs.is_empty() { defs.push(attributes::NORMAL); }
                shuffle(r, &mut defs);
                let lay = any_layout(r, &defs);
                let more = r.gen_range(0..3);
                macro_rules! into { ($b:expr) => {{
                    let mut b = $b;
                    b.resize(count + more);
                    for i in 0..count + more { for x in &defs { let v: Vec<u8> = (0..x.size()).map(|_| 0xA5).collect(); unsafe { b.set_attribute(x, i, &v); } } }
                    guard(|| rd.read_into(&mut b, count).ok()).flatten().map(|n| {
                        let rest = (n.min(count)..count + more).all(|i| defs.iter().all(|x| attr_bytes(&b, x, i).iter().all(|y| *y == 0xA5)));
                        (n, points(&d.fmt, &b, n.min(count)), rest)
                    })
                }} }
                if kind == 3 { into!(HashMapBuffer::new_from_layout(lay)) } else { into!(VectorBuffer::new_from_layout(lay)) }
            }
        };
        match ok {
            Some((n, pts, rest)) => tr.emit(json!({"e": "read", "count": count, "ok": true, "n": n, "pts": pts, "rest": rest})),
            None => { tr.emit(json!({"e": "read", "count": count, "ok": false, "n": 0, "pts": [], "rest": true})); return; }
        }
    }
}
fn points<'a, B: BorrowedBuffer<'a>>(fmt: &str, b: &'a B, n: usize) -> Vec<Value> {
    (0..n).map(|i| json!(fmt.chars().map(|l| {
        if l == 's' || !b.point_layout().has_attribute(&def_of(l)) { json!([]) } else { json!([jval(l, &attr_bytes(b, &def_of(l), i)[part(l)])]) }
    }).collect::<Vec<_>>())).collect()
}

fn token(r: &mut StdRng, l: char, good: bool) -> String {
    if !good {
        let v: &[&str] = match l {
            'x' | 'y' | 'z' | 't' => &["abc", "", "1.2.3", "--1", "1,5", "x1", "-", "."],
            'i' | 'p' | 'R' | 'G' | 'B' | 'I' => &["65536", "-1", "1.5", "a", "", "100000000000000000000", "12a"],
            'a' => &["128", "-129", "1.0", "z", "", "--3", "1000"],
            'e' | 'd' => &["2", "255", "-1", "true", "", "10"],
            _ => &["256", "-1", "0.5", "q", "", "1000", "65536"],
        };
        return pick(r, v).to_string();
    }
    match l {
        'x' | 'y' | 'z' | 't' => match r.gen_range(0..6) {
            0 => pick(r, &["0", "-0", "0.0", "1", "123456789", "0.1", "-0.1", "00012.5000", "3.141592653589793", "9007199254740993", "0.30000000000000004", "1000000000000000", "-12345.678901234567"]).to_string(),
            1 => format!("{}", r.gen_range(-1000000i64..1000000)),
            2 => format!("{:.5}", any_f64(r)),
            3 => format!("{:.3}", any_f64(r)),
            4 => format!("{:.17}", any_f64(r)),
            _ => format!("{:.1}", any_f64(r)),
        },
        'i' | 'p' | 'R' | 'G' | 'B' | 'I' => match r.gen_range(0..4) { 0 => pick(r, &["0", "65535", "32768", "00007", "255", "256"]).to_string(), _ => format!("{}", r.gen::<u16>()) },
        'a' => match r.gen_range(0..4) { 0 => pick(r, &["-128", "127", "0", "-1"]).to_string(), _ => format!("{}", r.gen::<i8>()) },
        'e' | 'd' => format!("{}", r.gen_range(0..2)),
        's' => pick(r, &["", "skipped", "1.5", "-", "~~", "größe"]).to_string(),
        _ => match r.gen_range(0..4) { 0 => pick(r, &["0", "255", "128", "007"]).to_string(), _ => format!("{}", r.gen::<u8>()) },
    }
}
fn any_reading(r: &mut StdRng) -> Reading {
    let fmt = any_fmt(r);
    let delim = pick(r, &[", ", ", ", ",", ";", " ", "\t", "||", "abab", "\u{e4}"]).to_string();
    let n = *pick(r, &[0, 1, 2, 3, 5, 9]);
    let bad = if r.gen_bool(0.25) { r.gen_range(0..n + 1) } else { 1000 };
    let lines = (0..n).map(|i| {
        let k = fmt.chars().count();
        let wrong = if i == bad { r.gen_range(0..k + 1) } else { 1000 };
        let mut cols: Vec<String> = fmt.chars().enumerate().map(|(j, l)| token(r, l, j != wrong)).collect();
        if wrong == k { cols.pop(); }
        for _ in 0..*pick(r, &[0, 0, 0, 1, 2]) { cols.push(if i == bad { "".into() } else { "extra".into() }); }
        cols.join(&delim)
    }).collect();
    Reading { fmt, delim, lines, end: *pick(r, &["\n", "\n", "\r\n"]), last: r.gen_bool(0.7) }
}

pub fn run(c: &Ctx) -> Value {
    let mut r = c.rng();
    let mut tr = c.trace(500);
    for case in c.cases() {
        let fmt: String = case["fmt"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let ns: Vec<usize> = case["ns"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        if case["role"] == "w" { writes(&mut tr, &mut r, &fmt, &ns, true); continue; }
        let delim = case["delim"].as_str().unwrap().to_string();
        let lines: Vec<String> = case["lines"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(&delim)).collect();
        reads(&mut tr, &mut r, &Reading { fmt, delim, lines, end: "\n", last: case["last"].as_bool().unwrap() }, Some(ns));
    }
    for _ in 0..300 * c.k {
        let fmt = any_fmt(&mut r);
        let bs: Vec<usize> = (0..r.gen_range(0..4)).map(|_| r.gen_range(0..5)).collect();
        writes(&mut tr, &mut r, &fmt, &bs, true);
    }
    for _ in 0..400 * c.k { let d = any_reading(&mut r); reads(&mut tr, &mut r, &d, None); }
    // more points than the writer takes at once
    large(&mut tr, &mut r);
    tr.summary()
}
fn large(tr: &mut Trace, r: &mut StdRng) {
    tr.scenario();
    let n = 50_000 + r.gen_range(1..2000);
    let file = Shared::new(0);
    let mut src = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[attributes::INTENSITY, attributes::POINT_SOURCE_ID]));
    src.resize(n);
    for i in 0..n { unsafe { src.set_attribute(&attributes::INTENSITY, i, &((i % 60000) as u16).to_le_bytes()); src.set_attribute(&attributes::POINT_SOURCE_ID, i, &((i / 60000) as u16).to_le_bytes()); } }
    let ok = guard(|| { let mut w = AsciiWriter::from_write(file.clone(), "ip").unwrap(); w.write(&src).is_ok() && w.flush().is_ok() }).unwrap_or(false);
    let text = String::from_utf8(file.bytes()).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    // a sample of the lines, among them those around the boundary, and their number
    let at: Vec<usize> = (0..60).map(|_| r.gen_range(0..n)).chain([0, n - 1, 49_998, 49_999, 50_000, 50_001.min(n - 1)]).collect();
    tr.emit(json!({"e": "new", "role": "w", "fmt": ["i", "p"], "delim": ", ".as_bytes(), "prec": 5, "lines": [], "ok": true}));
    tr.emit(json!({"e": "write", "has": true, "ok": ok && lines.len() == n, "whole": true, "lines": at.iter().map(|i| lines.get(*i).unwrap_or(&"").as_bytes().to_vec()).collect::<Vec<_>>(), "pts": at.iter().map(|i| json!([i % 60000, i / 60000])).collect::<Vec<_>>()}));
}
