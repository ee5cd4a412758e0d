//! Random histories for the buffer properties.
use crate::access::*;
use crate::buf::*;
use pv::types::*;
use pv::util::*;
use pv::with_ty;
use pasture_core::containers::*;
use pasture_core::layout::*;
use serde_json::json;

/// A window path over a buffer of n points. `bad`: probability that some level does not fit.
fn rand_path(r: &mut StdRng, n: usize, depth: usize, bad: f64) -> Path {
    let mut p = vec![];
    let mut len = n;
    for _ in 0..depth {
        let (a, b) = if r.gen_bool(bad) {
            match r.gen_range(0..5) {
                0 => (len + 1 + r.gen_range(0..2), len + 1 + r.gen_range(1..4)),
                1 => (r.gen_range(0..=len), len + r.gen_range(1..4)),
                2 => (len + 1, len + 1),
                3 if len > 0 => { let b = r.gen_range(0..len); (b + 1, b) }
                _ => (0, len + 1),
            }
        } else {
            match r.gen_range(0..8) {
                0 => (0, len),
                1 => { let a = r.gen_range(0..=len); (a, a) }
                2 => (r.gen_range(0..=len), len),
                3 => (0, r.gen_range(0..=len)),
                _ => { let a = r.gen_range(0..=len); (a, r.gen_range(a..=len)) }
            }
        };
        p.push((a, b));
        len = b.saturating_sub(a);
    }
    p
}
fn win_len(n: usize, p: &Path) -> usize { p.last().map(|x| x.1.saturating_sub(x.0)).unwrap_or(n) }

fn rand_index(r: &mut StdRng, n: usize, bad: f64) -> usize {
    if n == 0 || r.gen_bool(bad) { n + weighted(r, &[6, 2, 1, 1]) } else { match r.gen_range(0..5) { 0 => 0, 1 => n - 1, _ => r.gen_range(0..n) } }
}
fn rand_range(r: &mut StdRng, n: usize, bad: f64) -> (usize, usize) {
    if r.gen_bool(bad) {
        match r.gen_range(0..4) { 0 => (r.gen_range(0..=n), n + 1), 1 => (n, n + 1), 2 => (r.gen_range(0..=n), n + 1 + r.gen_range(0..4)), _ => (n + 1, n + 2) }
    } else {
        match r.gen_range(0..6) { 0 => (0, n), 1 => { let a = r.gen_range(0..=n); (a, a) } 2 => (r.gen_range(0..=n), n), _ => { let a = r.gen_range(0..=n); (a, r.gen_range(a..=n)) } }
    }
}

fn rand_write(r: &mut StdRng, l: &Lay, n: usize, bad: f64) -> Wr {
    let at = r.gen_range(0..l.na());
    match weighted(r, &[3, 3, 3, 3, 2, if has_prim(l, at) { 1 } else { 0 }]) {
        0 => Wr::SetPt { i: rand_index(r, n, bad), p: l.rand_pt(r) },
        1 => { let (a, b) = rand_range(r, n, bad); Wr::SetPts { a, b, ps: l.rand_pts(r, b.saturating_sub(a)) } }
        2 => Wr::SetAttr { at, i: rand_index(r, n, bad), v: r.gen_range(0..=MAXTOK) },
        3 => { let (a, b) = rand_range(r, n, bad); Wr::SetAttrs { at, a, b, vs: (a..b.max(a)).map(|_| r.gen_range(0..=MAXTOK)).collect() } }
        4 => Wr::Swap { i: rand_index(r, n, bad), j: rand_index(r, n, bad) },
        _ => Wr::Xform { at, mul: r.gen_range(0..4), add: r.gen_range(0..50) },
    }
}
fn valid_write(w: &Wr, n: usize) -> bool {
    match w { Wr::SetPt { i, .. } | Wr::SetAttr { i, .. } => *i < n, Wr::Swap { i, j } => *i < n && *j < n, _ => true }
}

fn one_write(s: &mut Sc, r: &mut StdRng, n: usize, path: &Path, style: u8, bad: f64) {
    let k = win_len(n, path);
    let w = rand_write(r, &s.l, k, bad);
    if bad == 0.0 && !valid_write(&w, k) { return }
    s.write(path, style, w, r)
}
fn one_read(s: &mut Sc, r: &mut StdRng, n: usize, path: &Path, style: u8, bad: f64) {
    let k = win_len(n, path);
    match r.gen_range(0..8) {
        0 => s.read_len(path, style),
        1..=3 => { let (a, b) = if r.gen_bool(0.4) { let i = rand_index(r, k, bad); (i, i + 1) } else { rand_range(r, k, bad) }; if bad == 0.0 && b > k { return } s.read_rows(path, style, a, b, r) }
        _ => { let at = r.gen_range(0..s.l.na()); let (a, b) = if r.gen_bool(0.4) { let i = rand_index(r, k, bad); (i, i + 1) } else { rand_range(r, k, bad) }; if bad == 0.0 && b > k { return } s.read_attr(path, style, at, a, b, r) }
    }
}
/// Number of points to add: a few, or so many that blocks and counters of the usual sizes are crossed.
fn more(r: &mut StdRng, large: bool, below: usize) -> usize { if large && r.gen_bool(0.6) { r.gen_range(20..300) } else { r.gen_range(0..below) } }
fn grow(s: &mut Sc, r: &mut StdRng, large: bool) {
    let typed = s.l.ty.is_some();
    match weighted(r, &[4, 5, 3, 1, if typed { 2 } else { 0 }, 1]) {
        0 => { let k = more(r, large, 4); let ps = s.l.rand_pts(r, k); let how = *pick(r, if typed { &["push_points", "push_points1", "push_point"][..] } else { &["push_points", "push_points1"][..] }); s.push(ps, how, r) }
        1 => { let k = more(r, large, 5); let ps = s.l.rand_pts(r, k); let (src, how, sl) = (r.gen_range(0..3), r.gen_range(0..2), r.gen_bool(0.4)); s.append(ps, src, how, sl, None, r) }
        2 => { let n = s.len().clamp(0, 100_000) as usize; let m = match r.gen_range(0..4) { 0 => r.gen_range(0..=n), 1 => n, _ => n + more(r, large, 4) }; s.resize(if large { m } else { m.min(25) }, r) }
        3 => s.clear(r),
        4 => { let k = more(r, large, 6); let ps = s.l.rand_pts(r, k); let sh = r.gen_range(0..10); s.collect(ps, sh, r) }
        _ => s.clone_buf(r),
    }
}
fn script(r: &mut StdRng, n: usize) -> Vec<(String, usize)> {
    let k = r.gen_range(1..9);
    let mut v: Vec<(String, usize)> = vec![];
    for i in 0..k {
        let c = weighted(r, &[5, 4, 1, 1, 1, 1, if i + 1 == k { 2 } else { 0 }, if i + 1 == k { 2 } else { 0 }]);
        let m = match r.gen_range(0..6) { 0 => 0, 1 => n, 2 => n + 1 + r.gen_range(0..3), 3 => *pick(r, &[usize::MAX, usize::MAX / 2, usize::MAX - 1, 1 << 62]), _ => r.gen_range(0..=n) };
        v.push((["next", "nth", "skip", "step", "rest", "hint", "last", "count"][c].to_string(), m));
    }
    v
}
pub fn iter_hows(s: &Sc, at: usize) -> Vec<&'static str> {
    let (t, p) = (s.l.ty.is_some(), has_prim(&s.l, at));
    let mut v = vec![];
    if t { v.push("p.val"); }
    if p { v.push("a.val"); v.push("a.conv"); }
    if s.buf.inter() { if t { v.extend(["p.ref", "p.mut", "p.mutref"]); } } else if p { v.extend(["a.ref", "a.mut", "a.mutref"]); }
    v
}

/// Accesses that have no right answer at all.
fn bad_call(s: &mut Sc, r: &mut StdRng) {
    let n = s.len().clamp(0, 100_000) as usize;
    let at = r.gen_range(0..s.l.na());
    let def = s.l.attrs[at].clone();
    // near-miss definitions: other name, or same name and other type
    let near = if r.gen_bool(0.5) { attr(&format!("{}_", def.name()), def.datatype()) } else {
        let d = loop { let d = *pick(r, &PRIMS); if d != def.datatype() { break d } };
        attr(def.name(), d)
    };
    let other_ty = loop { let t = *pick(r, &TYS); if Some(t) != s.l.ty { break t } };
    let kind = r.gen_range(0..14);
    let nb = near.size() as usize;
    let psize = s.l.psize();
    macro_rules! each { ($b:ident => $e:expr) => { match &mut s.buf { Buf::V($b) => guard(|| $e), Buf::H($b) => guard(|| $e), Buf::E($b) => guard(|| $e) } } }
    macro_rules! own { ($b:ident => $e:expr) => { match &mut s.buf { Buf::V($b) => guard(|| $e), Buf::H($b) => guard(|| $e), Buf::E(_) => return } } }
    // Some(true): answered
    let res: Option<bool> = match kind {
        0 if n > 0 => each!(b => { b.get_attribute(&near, 0, &mut vec![0; nb]); true }),
        1 if n > 0 => each!(b => { b.get_attribute_range(&near, 0..n, &mut vec![0; nb * n]); true }),
        2 if n > 0 => each!(b => { unsafe { b.set_attribute(&near, 0, &vec![7; nb]) }; true }),
        3 if n > 0 => each!(b => { unsafe { b.set_attribute_range(&near, 0..n, &vec![7; nb * n]) }; true }),
        4 => each!(b => { let _ = with_ty!(other_ty, T => b.view::<T>().into_iter().count()); true }),
        5 => each!(b => { with_ty!(other_ty, T => { let _ = b.view_mut::<T>(); }); true }),
        6 if n > 0 => each!(b => pv::with_prim!(near.datatype(), T => { let v = b.view_attribute::<T>(&near); let _ = v.at(0); true }, panic!("no primitive"))),
        7 => each!(b => pv::with_prim!(near.datatype(), T => { let _ = b.view_attribute_mut::<T>(&near); true }, panic!("no primitive"))),
        8 => each!(b => pv::with_prim!(near.datatype(), T => { b.view_attribute_with_conversion::<T>(&attr(&format!("{}_", def.name()), def.datatype())).is_ok() }, panic!("no primitive"))),
        9 => each!(b => pv::with_prim!(near.datatype(), T => { b.transform_attribute::<T, _>(&near, |_, v| v); true }, panic!("no primitive"))),
        // the definition exists but the requested value type is another one
        10 => { let d = loop { let d = *pick(r, &PRIMS); if d != def.datatype() { break d } }; each!(b => pv::with_prim!(d, T => { let _ = b.view_attribute::<T>(&def); true }, unreachable!())) }
        11 => { let d = loop { let d = *pick(r, &PRIMS); if d != def.datatype() { break d } }; each!(b => pv::with_prim!(d, T => { let _ = b.view_attribute_mut::<T>(&def); true }, unreachable!())) }
        12 if psize > 1 => own!(b => { unsafe { b.push_points(&vec![3; psize * 2 - 1]) }; true }),
        13 => own!(b => { with_ty!(other_ty, T => b.view_mut::<T>().push_point(T::default())); true }),
        _ => return,
    };
    let ok = res == Some(true);
    let len = s.len();
    let obs = s.obs(r);
    s.tr.emit(json!({"e": "bad", "kind": kind, "near": format!("{near:?}"), "other": format!("{other_ty:?}"), "at": at + 1, "ok": ok, "obs": obs, "len": len}));
}

fn ext_bad(tr: &mut Trace, r: &mut StdRng) {
    // memory that is no whole number of points
    let l = rand_lay(r, 0.3);
    if l.psize() < 2 { return }
    tr.scenario();
    let n = r.gen_range(0..3) * l.psize() + r.gen_range(1..l.psize());
    let ok = guard(|| { let b = ExternalMemoryBuffer::new(vec![0u8; n], l.layout.clone()); b.len() }).is_some();
    tr.emit(json!({"e": "new", "kind": "E", "na": 1, "pts": [], "obs": [], "len": 0}));
    tr.emit(json!({"e": "bad", "kind": 100, "ok": ok, "obs": [], "len": 0}));
}

/// Float codes: 0 and 1 are the two zeros, 2 and 3 are not numbers, all others stand for themselves.
fn float(c: i64) -> f64 { match c { 0 => 0.0, 1 => -0.0, 2 => f64::NAN, 3 => -f64::NAN, 4 => f64::INFINITY, 5 => f64::MIN_POSITIVE, c => c as f64 } }
/// Equality of views is equality of the values, not of the bytes.
fn eq_floats(tr: &mut Trace, r: &mut StdRng) {
    use pasture_core::nalgebra::Vector3;
    tr.scenario();
    tr.emit(json!({"e": "new", "kind": "F", "na": 1, "pts": [], "obs": [], "len": 0}));
    for _ in 0..6 {
        let n = r.gen_range(0..4);
        let pool: &[i64] = if r.gen_bool(0.4) { &[0, 1, 4, 5, 9, 10] } else { &[0, 1, 2, 3, 4, 5, 9] };
        let xs: Vec<i64> = (0..3 * n).map(|_| *pick(r, pool)).collect();
        let mut ys = xs.clone();
        for y in ys.iter_mut() { if *y < 2 && r.gen_bool(0.5) { *y = 1 - *y } else if r.gen_bool(0.05) { *y = *pick(r, pool) } }
        if r.gen_bool(0.1) { ys.truncate(ys.len().saturating_sub(3)); }
        let (kx, ky, form, mode) = (r.gen_range(0..3), r.gen_range(0..3), r.gen_range(0..5), r.gen_range(0..3));
        macro_rules! pair { ($T:ty, $d:expr, $of:expr) => {{
            let def = attr("f", $d);
            let l = Lay::new(PointLayout::from_attributes(&[def.clone()]), None);
            let mk = |k: usize, v: &[i64]| { let bytes: Vec<u8> = $of(v); match k {
                0 => { let mut b = VectorBuffer::new_from_layout(l.layout.clone()); unsafe { b.push_points(&bytes) }; Buf::V(b) }
                1 => { let mut b = HashMapBuffer::new_from_layout(l.layout.clone()); unsafe { b.push_points(&bytes) }; Buf::H(b) }
                _ => Buf::E(ExternalMemoryBuffer::new(bytes, l.layout.clone())) } };
            let (mut x, mut y) = (mk(kx, &xs), mk(ky, &ys));
            macro_rules! cmp { ($a:expr, $b:expr) => { guard(|| match mode {
                0 => $a.view_attribute::<$T>(&def) == $b.view_attribute::<$T>(&def),
                1 => $a.view_attribute_mut::<$T>(&def) == $b.view_attribute_mut::<$T>(&def),
                _ => $a.view_attribute_with_conversion::<$T>(&def).unwrap() == $b.view_attribute_with_conversion::<$T>(&def).unwrap() }) } }
            match (&mut x, &mut y) {
                (Buf::V(a), Buf::V(b)) => cmp!(a, b), (Buf::V(a), Buf::H(b)) => cmp!(a, b), (Buf::V(a), Buf::E(b)) => cmp!(a, b),
                (Buf::H(a), Buf::V(b)) => cmp!(a, b), (Buf::H(a), Buf::H(b)) => cmp!(a, b), (Buf::H(a), Buf::E(b)) => cmp!(a, b),
                (Buf::E(a), Buf::V(b)) => cmp!(a, b), (Buf::E(a), Buf::H(b)) => cmp!(a, b), (Buf::E(a), Buf::E(b)) => cmp!(a, b),
            }
        }} }
        let f8 = |v: &[i64]| v.iter().flat_map(|c| float(*c).to_le_bytes()).collect::<Vec<u8>>();
        let f4 = |v: &[i64]| v.iter().flat_map(|c| (if *c == 5 { f32::MIN_POSITIVE } else { float(*c) as f32 }).to_le_bytes()).collect::<Vec<u8>>();
        let res = match form {
            0 => pair!(f64, PointAttributeDataType::F64, f8),
            1 => pair!(Vector3<f64>, PointAttributeDataType::Vec3f64, f8),
            2 => pair!(f32, PointAttributeDataType::F32, f4),
            3 => pair!(Vector3<f32>, PointAttributeDataType::Vec3f32, f4),
            _ => {
                // whole points
                let pts = |v: &[i64]| v.chunks(3).map(|c| PSmall { pos: Vector3::new(float(c[0]), float(c[1]), float(c[2])), class: 7 }).collect::<Vec<_>>();
                let (px, py) = (pts(&xs), pts(&ys));
                let (mut vx, mut hx) = (px.iter().copied().collect::<VectorBuffer>(), px.iter().copied().collect::<HashMapBuffer>());
                let (mut vy, mut hy) = (py.iter().copied().collect::<VectorBuffer>(), py.iter().copied().collect::<HashMapBuffer>());
                macro_rules! cmp { ($a:expr, $b:expr) => { guard(|| if mode == 1 { $a.view_mut::<PSmall>() == $b.view_mut::<PSmall>() } else { $a.view::<PSmall>() == $b.view::<PSmall>() }) } }
                match (kx == 1, ky == 1) { (false, false) => cmp!(vx, vy), (false, true) => cmp!(vx, hy), (true, false) => cmp!(hx, vy), _ => cmp!(hx, hy) }
            }
        };
        tr.emit(json!({"e": "eqf", "xs": xs, "ys": ys, "kx": kx, "ky": ky, "form": form, "mode": mode, "ok": res.is_some(), "res": res.unwrap_or(false)}));
    }
}

pub fn scenario(prop: &str, tr: &mut Trace, r: &mut StdRng, large: bool) {
    let big = r.gen_bool(0.05);
    let kind = match prop { "B01" => r.gen_range(0..2), "B06" => *pick(r, &[0, 2]), "B07" => 1, _ => r.gen_range(0..3) };
    let l = rand_lay(r, match prop { "B06" => 1.0, "B01" => 0.5, "B05" => 0.7, _ => 0.45 });
    let n0 = match prop { _ if large => *pick(r, &[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1023, 1024, 1025, 2050]).min(&(6000 / l.na())), "B06" => *pick(r, &[0, 1, 2, 5, 12, 19, 21, 24, 33, 50]), _ if big => r.gen_range(15..30), "B01" => r.gen_range(0..4), _ => weighted(r, &[1, 1, 2, 3, 3, 2, 2, 1]) };
    let ps = l.rand_pts(r, n0);
    let mut s = Sc::new(l, kind, ps, tr, r);
    let ops = if prop == "B06" { 3 } else if large { 6 } else { r.gen_range(6..16) };
    for _ in 0..ops {
        let n = s.len().clamp(0, 100_000) as usize;
        match prop {
            "B01" => match r.gen_range(0..10) {
                0 => one_read(&mut s, r, n, &vec![], 0, 0.0),
                1 => one_write(&mut s, r, n, &vec![], 0, 0.0),
                _ => grow(&mut s, r, large),
            },
            "B02" => match r.gen_range(0..12) {
                0 => one_read(&mut s, r, n, &vec![], 0, 0.0),
                1 if kind < 2 => grow(&mut s, r, large),
                2 => { let d = r.gen_range(1..3); let p = rand_path(r, n, d, 0.0); let st = r.gen_range(0..4); one_write(&mut s, r, n, &p, st, 0.0) }
                _ => one_write(&mut s, r, n, &vec![], 0, 0.0),
            },
            "B03" => match r.gen_range(0..12) {
                0 => one_write(&mut s, r, n, &vec![], 0, 0.0),
                1 if kind < 2 => grow(&mut s, r, large),
                2 => { let d = r.gen_range(1..3); let p = rand_path(r, n, d, 0.0); let st = r.gen_range(0..4); one_read(&mut s, r, n, &p, st, 0.0) }
                3..=5 => {
                    let whole = s.l.ty.is_some() && r.gen_bool(0.5);
                    let at = r.gen_range(0..s.l.na());
                    if !whole && !has_prim(&s.l, at) { continue }
                    // mostly equal or almost equal contents
                    let mut ps = s.obs(r);
                    if ps.iter().flatten().any(|t| *t < 0) { continue }
                    match r.gen_range(0..6) {
                        0 | 1 => {}
                        2 if !ps.is_empty() => { ps.pop(); }
                        3 => ps.push(s.l.rand_pt(r)),
                        4 if ps.len() > 1 => { let k = r.gen_range(1..ps.len()); ps.swap(k, k - 1); }
                        _ if !ps.is_empty() => { let k = r.gen_range(0..ps.len()); let a = if r.gen_bool(0.5) { at } else { r.gen_range(0..s.l.na()) }; ps[k][a] = (ps[k][a] + 1) % (MAXTOK + 1); }
                        _ => {}
                    }
                    let (k2, mode) = (r.gen_range(0..3), r.gen_range(0..if whole { 2 } else { 3 }));
                    s.eq_views(ps, k2, if whole { None } else { Some(at) }, mode, r)
                }
                _ => one_read(&mut s, r, n, &vec![], 0, 0.0),
            },
            "B04" => {
                let d = 1 + weighted(r, &[4, 4, 2]);
                let p = rand_path(r, n, d, 0.12);
                let st = r.gen_range(0..4);
                if r.gen_bool(0.55) { one_read(&mut s, r, n, &p, st, 0.2) } else { one_write(&mut s, r, n, &p, st, 0.15) }
                if kind < 2 && r.gen_bool(0.05) { grow(&mut s, r, large) }
            }
            "B05" => {
                let at = r.gen_range(0..s.l.na());
                let hows = iter_hows(&s, at);
                if hows.is_empty() { continue }
                let how = *pick(r, &hows);
                let p = if r.gen_bool(0.4) { let d = r.gen_range(1..3); rand_path(r, n, d, 0.0) } else { vec![] };
                let sc = script(r, win_len(n, &p));
                let st = r.gen_range(0..4);
                s.iter(&p, st, how, at, &sc);
                if kind < 2 && r.gen_bool(0.08) { grow(&mut s, r, large) }
            }
            "B06" => {
                let at = r.gen_range(0..s.l.na());
                let p = if r.gen_bool(0.35) { let d = r.gen_range(1..3); rand_path(r, n, d, 0.0) } else { vec![] };
                let st = r.gen_range(0..4);
                let m = *pick(r, &[1, 2, 3, 5, 16, 251]);
                let desc = r.gen_bool(0.5);
                s.write(&p, st, Wr::Sort { at, m, desc }, r);
                if r.gen_bool(0.3) { one_write(&mut s, r, n, &vec![], 0, 0.0) }
            }
            "B07" => {
                let pr = *pick(r, &[0.0, 0.2, 0.5, 0.8, 1.0]);
                let pred: Vec<bool> = (0..n).map(|_| r.gen_bool(pr)).collect();
                let k = pred.iter().filter(|x| **x).count();
                if r.gen_bool(0.4) { let d = r.gen_range(0..2); s.filter(pred, d, r) } else {
                    let m = match r.gen_range(0..5) { 0 => k, 1 => k.saturating_sub(1), 2 => r.gen_range(0..=n), _ => k + r.gen_range(0..3) };
                    let pre = s.l.rand_pts(r, m);
                    let other = if r.gen_bool(0.15) { Some(other_lay(r, &s.l)) } else { None };
                    let (d, h) = (r.gen_range(0..3), r.gen_bool(0.5));
                    s.filter_into(pred, d, pre, other.as_ref(), h, None, r)
                }
                match r.gen_range(0..8) { 0 => grow(&mut s, r, large), 1 => one_write(&mut s, r, n, &vec![], 0, 0.0), _ => {} }
            }
            "B09" => match r.gen_range(0..10) {
                0..=3 => bad_call(&mut s, r),
                4 | 5 => { let (d, st) = (r.gen_range(0..3), r.gen_range(0..4)); let p = rand_path(r, n, d, 0.1); one_write(&mut s, r, n, &p, st, 0.7) }
                6 | 7 => { let (d, st) = (r.gen_range(0..3), r.gen_range(0..4)); let p = rand_path(r, n, d, 0.1); one_read(&mut s, r, n, &p, st, 0.7) }
                8 if kind < 2 => {
                    let o = other_lay(r, &s.l);
                    let (src, how, sl) = (r.gen_range(0..3), r.gen_range(0..2), r.gen_bool(0.3));
                    s.append(vec![], src, how, sl, Some(&o), r)
                }
                _ if kind < 2 => grow(&mut s, r, large),
                _ => one_write(&mut s, r, n, &vec![], 0, 0.0),
            },
            _ => unreachable!(),
        }
    }
}

pub fn run(prop: &str, tr: &mut Trace, r: &mut StdRng, scenarios: usize) {
    for k in 0..scenarios {
        if prop == "B03" && k % 20 == 0 { eq_floats(tr, r) }
        if prop == "B09" && r.gen_bool(0.05) { ext_bad(tr, r) }
        if guard_loud(|| scenario(prop, tr, r, k % 150 == 149)).is_none() {
            tr.emit(json!({"e": "crash"}));
        }
    }
}
