//! Every way of reading and writing a buffer, behind one interface over tokens.
//! Each function performs exactly the named API calls and projects bytes to tokens.
use pv::types::*;
use pv::{with_prim, with_ty};
use pasture_core::containers::*;
use pasture_core::layout::*;

pub type Rows = Vec<Vec<i64>>;

pub const ROW_HOWS: [&str; 5] = ["get_point", "get_point_range", "view.at", "view.into_iter", "attrs"];
pub const ROW_HOWS_INTER: [&str; 6] = ["get_point_ref", "get_point_range_ref", "view.at_ref", "view.iter", "dyn.get_point_ref", "dyn.get_point_range_ref"];
pub const ATTR_HOWS: [&str; 6] = ["get_attribute", "get_attribute_range", "get_attribute_unchecked", "va.at", "va.into_iter", "vac"];
pub const ATTR_HOWS_INTER: [&str; 2] = ["raw", "dyn.raw"];
pub const ATTR_HOWS_COL: [&str; 7] = ["get_attribute_ref", "get_attribute_range_ref", "va.at_ref", "va.iter", "raw", "dyn.get_attribute_ref", "dyn.get_attribute_range_ref"];

/// How many bytes to hand to a range read; garbage-filled so that unwritten output is noticed.
fn out(n: usize) -> Vec<u8> { vec![0xA5; n] }

fn sub<T: Clone>(v: Vec<T>, a: usize, b: usize) -> Vec<T> { if a <= b && b <= v.len() { v[a..b].to_vec() } else { panic!("harness: sub-range of a full read") } }

pub fn read_rows<'a, B: BorrowedBuffer<'a> + 'a>(b: &B, l: &Lay, how: &str, lo: usize, hi: usize) -> Rows {
    let n = l.psize();
    match how {
        "get_point" => (lo..hi).map(|i| { let mut o = out(n); b.get_point(i, &mut o); l.pt_toks(&o) }).collect(),
        "get_point_range" => { let mut o = out(n * hi.saturating_sub(lo)); b.get_point_range(lo..hi, &mut o); l.pts_toks(&o) }
        "view.at" => with_ty!(l.ty.unwrap(), T => { let v = b.view::<T>(); (lo..hi).map(|i| l.pt_toks(bytemuck::bytes_of(&v.at(i)))).collect() }),
        "view.into_iter" => with_ty!(l.ty.unwrap(), T => sub(b.view::<T>().into_iter().take(hi + 1).map(|p| l.pt_toks(bytemuck::bytes_of(&p))).collect::<Vec<_>>(), lo, hi)),
        "attrs" => {
            let cols: Vec<Vec<i64>> = (0..l.na()).map(|at| read_attr(b, l, "get_attribute_range", at, lo, hi)).collect();
            (0..hi.saturating_sub(lo)).map(|i| cols.iter().map(|c| c[i]).collect()).collect()
        }
        _ => panic!("harness: read_rows {how}"),
    }
}

pub fn read_rows_inter<'a, B: InterleavedBuffer<'a> + 'a>(b: &B, l: &Lay, how: &str, lo: usize, hi: usize) -> Rows {
    match how {
        "get_point_ref" => (lo..hi).map(|i| l.pt_toks(b.get_point_ref(i))).collect(),
        "get_point_range_ref" => l.pts_toks(b.get_point_range_ref(lo..hi)),
        "view.at_ref" => with_ty!(l.ty.unwrap(), T => { let v = b.view::<T>(); (lo..hi).map(|i| l.pt_toks(bytemuck::bytes_of(v.at_ref(i)))).collect() }),
        "view.iter" => with_ty!(l.ty.unwrap(), T => { let v = b.view::<T>(); let x = sub(v.iter().take(hi + 1).map(|p| l.pt_toks(bytemuck::bytes_of(p))).collect::<Vec<_>>(), lo, hi); x }),
        "dyn.get_point_ref" => { let d = b.as_interleaved().unwrap(); (lo..hi).map(|i| l.pt_toks(d.get_point_ref(i))).collect() }
        "dyn.get_point_range_ref" => l.pts_toks(b.as_interleaved().unwrap().get_point_range_ref(lo..hi)),
        _ => read_rows(b, l, how, lo, hi),
    }
}

pub fn read_attr<'a, B: BorrowedBuffer<'a> + 'a>(b: &B, l: &Lay, how: &str, at: usize, lo: usize, hi: usize) -> Vec<i64> {
    let a = &l.attrs[at];
    let n = a.size() as usize;
    match how {
        "get_attribute" => (lo..hi).map(|i| { let mut o = out(n); b.get_attribute(a, i, &mut o); l.tok(at, &o) }).collect(),
        "get_attribute_range" => { let mut o = out(n * hi.saturating_sub(lo)); b.get_attribute_range(a, lo..hi, &mut o); l.toks(at, &o) }
        "get_attribute_unchecked" => { let m = b.point_layout().get_attribute(a).unwrap().clone(); (lo..hi).map(|i| { let mut o = out(n); unsafe { b.get_attribute_unchecked(&m, i, &mut o) }; l.tok(at, &o) }).collect() }
        "va.at" => with_prim!(a.datatype(), T => { let v = b.view_attribute::<T>(a); (lo..hi).map(|i| l.tok(at, bytemuck::bytes_of(&v.at(i)))).collect() }, panic!("harness: prim")),
        "va.into_iter" => with_prim!(a.datatype(), T => { let v = b.view_attribute::<T>(a); sub(v.into_iter().take(hi + 1).map(|x| l.tok(at, bytemuck::bytes_of(&x))).collect::<Vec<_>>(), lo, hi) }, panic!("harness: prim")),
        "vac" => with_prim!(a.datatype(), T => { let v = b.view_attribute_with_conversion::<T>(a).unwrap(); (lo..hi).map(|i| l.tok(at, bytemuck::bytes_of(&v.at(i)))).collect() }, panic!("harness: prim")),
        _ => panic!("harness: read_attr {how}"),
    }
}

pub fn read_attr_inter<'a, B: InterleavedBuffer<'a> + 'a>(b: &B, l: &Lay, how: &str, at: usize, lo: usize, hi: usize) -> Vec<i64> {
    let m = &l.members[at];
    match how {
        "raw" => { let v = b.view_raw_attribute(m); (lo..hi).map(|i| l.tok(at, &v[i])).collect() }
        "dyn.raw" => { let d = b.as_interleaved().unwrap(); let v = d.view_raw_attribute(m); assert_eq!(v.len(), b.len()); assert_eq!(v.is_empty(), b.is_empty()); (lo..hi).map(|i| l.tok(at, &v[i])).collect() }
        _ => read_attr(b, l, how, at, lo, hi),
    }
}

pub fn read_attr_col<'a, B: ColumnarBuffer<'a> + 'a>(b: &B, l: &Lay, how: &str, at: usize, lo: usize, hi: usize) -> Vec<i64> {
    let a = &l.attrs[at];
    match how {
        "get_attribute_ref" => (lo..hi).map(|i| l.tok(at, b.get_attribute_ref(a, i))).collect(),
        "get_attribute_range_ref" => l.toks(at, b.get_attribute_range_ref(a, lo..hi)),
        "va.at_ref" => with_prim!(a.datatype(), T => { let v = b.view_attribute::<T>(a); (lo..hi).map(|i| l.tok(at, bytemuck::bytes_of(v.at_ref(i)))).collect() }, panic!("harness: prim")),
        "va.iter" => with_prim!(a.datatype(), T => { let v = b.view_attribute::<T>(a); let x = sub(v.iter().take(hi + 1).map(|x| l.tok(at, bytemuck::bytes_of(x))).collect::<Vec<_>>(), lo, hi); x }, panic!("harness: prim")),
        "raw" => { let v = b.view_raw_attribute(&l.members[at]); assert_eq!(v.len(), b.len()); (lo..hi).map(|i| l.tok(at, &v[i])).collect() }
        "dyn.get_attribute_ref" => { let d = b.as_columnar().unwrap(); (lo..hi).map(|i| l.tok(at, d.get_attribute_ref(a, i))).collect() }
        "dyn.get_attribute_range_ref" => l.toks(at, b.as_columnar().unwrap().get_attribute_range_ref(a, lo..hi)),
        _ => read_attr(b, l, how, at, lo, hi),
    }
}

// ---------------------------------------------------------------- in-place writes

#[derive(Clone, Debug)]
pub enum Wr {
    SetPt { i: usize, p: Vec<i64> },
    SetPts { a: usize, b: usize, ps: Rows },
    SetAttr { at: usize, i: usize, v: i64 },
    SetAttrs { at: usize, a: usize, b: usize, vs: Vec<i64> },
    Swap { i: usize, j: usize },
    Xform { at: usize, mul: i64, add: i64 },
    Sort { at: usize, m: i64, desc: bool },
}

pub fn xf(t: i64, idx: usize, mul: i64, add: i64) -> i64 { (t * mul + idx as i64 * 3 + add).rem_euclid(MAXTOK + 1) }

pub fn write<'a, B: BorrowedMutBuffer<'a> + 'a>(b: &mut B, l: &Lay, how: &str, w: &Wr) {
    match (w, how) {
        (Wr::SetPt { i, p }, "set_point") => unsafe { b.set_point(*i, &l.pt_bytes(p)) },
        (Wr::SetPt { i, p }, "view_mut.set_at") => with_ty!(l.ty.unwrap(), T => b.view_mut::<T>().set_at(*i, from_pt(&l.pt_bytes(p)))),
        (Wr::SetPts { a, b: e, ps }, "set_point_range") => unsafe { b.set_point_range(*a..*e, &l.pts_bytes(ps)) },
        (Wr::SetAttr { at, i, v }, "set_attribute") => unsafe { b.set_attribute(&l.attrs[*at], *i, l.val(*at, *v)) },
        (Wr::SetAttr { at, i, v }, "vam.set_at") => with_prim!(l.attrs[*at].datatype(), T => b.view_attribute_mut::<T>(&l.attrs[*at]).set_at(*i, from_val(l.val(*at, *v))), panic!("harness: prim")),
        (Wr::SetAttrs { at, a, b: e, vs }, "set_attribute_range") => unsafe { b.set_attribute_range(&l.attrs[*at], *a..*e, &l.vals(*at, vs)) },
        (Wr::Swap { i, j }, _) => b.swap(*i, *j),
        (Wr::Xform { at, mul, add }, _) => with_prim!(l.attrs[*at].datatype(), T => b.transform_attribute::<T, _>(&l.attrs[*at], |idx, v| {
            let t = l.tok(*at, bytemuck::bytes_of(&v));
            from_val(l.val(*at, xf(t.max(0), idx, *mul, *add)))
        }), panic!("harness: prim")),
        _ => panic!("harness: write {how}"),
    }
}

pub fn write_inter<'a, B: InterleavedBufferMut<'a> + 'a>(b: &mut B, l: &Lay, how: &str, w: &Wr) {
    match (w, how) {
        (Wr::SetPt { i, p }, "get_point_mut") => b.get_point_mut(*i).copy_from_slice(&l.pt_bytes(p)),
        (Wr::SetPt { i, p }, "view_mut.at_mut") => with_ty!(l.ty.unwrap(), T => {
            // what the view shows while it is open is what the buffer has
            let before: Vec<Vec<i64>> = (0..b.len().min(40)).map(|k| l.pt_toks(b.get_point_ref(k))).collect();
            let mut v = b.view_mut::<T>();
            *v.at_mut(*i) = from_pt(&l.pt_bytes(p));
            for (k, old) in before.iter().enumerate() { assert_eq!(&l.pt_toks(bytemuck::bytes_of(v.at_ref(k))), if k == *i { p } else { old }); }
        }),
        (Wr::SetPts { a, b: e, ps }, "get_point_range_mut") => b.get_point_range_mut(*a..*e).copy_from_slice(&l.pts_bytes(ps)),
        (Wr::SetPts { a, b: e, ps }, "dyn.get_point_range_mut") => b.as_interleaved_mut().unwrap().get_point_range_mut(*a..*e).copy_from_slice(&l.pts_bytes(ps)),
        (Wr::SetPts { a, b: e, ps }, "view_mut.iter_mut") => with_ty!(l.ty.unwrap(), T => { assert!(*e <= b.len()); let mut v = b.view_mut::<T>(); for (k, p) in v.iter_mut().enumerate() { if k >= *a && k < *e { *p = from_pt(&l.pt_bytes(&ps[k - a])) } } }),
        (Wr::SetAttr { at, i, v }, "raw_mut") => { let mut w = b.view_raw_attribute_mut(&l.members[*at]); w[*i].copy_from_slice(l.val(*at, *v)); assert_eq!(l.tok(*at, &w[*i]), *v) }
        (Wr::Sort { at, m, desc }, _) => with_ty!(l.ty.unwrap(), T => {
            let key = |p: &T| { let t = l.pt_toks(bytemuck::bytes_of(p))[*at].rem_euclid(*m); if *desc { -t } else { t } };
            b.view_mut::<T>().sort_by(|x, y| key(x).cmp(&key(y)))
        }),
        _ => write(b, l, how, w),
    }
}

pub fn write_col<'a, B: ColumnarBufferMut<'a> + 'a>(b: &mut B, l: &Lay, how: &str, w: &Wr) {
    match (w, how) {
        (Wr::SetAttr { at, i, v }, "get_attribute_mut") => b.get_attribute_mut(&l.attrs[*at], *i).copy_from_slice(l.val(*at, *v)),
        (Wr::SetAttr { at, i, v }, "vam.at_mut") => with_prim!(l.attrs[*at].datatype(), T => {
            let before: Vec<i64> = (0..b.len().min(40)).map(|k| l.tok(*at, b.get_attribute_ref(&l.attrs[*at], k))).collect();
            { let mut vw = b.view_attribute_mut::<T>(&l.attrs[*at]); *vw.at_mut(*i) = from_val(l.val(*at, *v)); }
            let vw = b.view_attribute_mut::<T>(&l.attrs[*at]);
            for (k, old) in before.iter().enumerate() { assert_eq!(l.tok(*at, bytemuck::bytes_of(vw.at_ref(k))), if k == *i { *v } else { *old }); }
        }, panic!("harness: prim")),
        (Wr::SetAttr { at, i, v }, "raw_mut") => { let mut w = b.view_raw_attribute_mut(&l.members[*at]); w[*i].copy_from_slice(l.val(*at, *v)); assert_eq!(l.tok(*at, &w[*i]), *v) }
        (Wr::SetAttrs { at, a, b: e, vs }, "get_attribute_range_mut") => b.get_attribute_range_mut(&l.attrs[*at], *a..*e).copy_from_slice(&l.vals(*at, vs)),
        (Wr::SetAttrs { at, a, b: e, vs }, "dyn.get_attribute_range_mut") => b.as_columnar_mut().unwrap().get_attribute_range_mut(&l.attrs[*at], *a..*e).copy_from_slice(&l.vals(*at, vs)),
        (Wr::SetAttrs { at, a, b: e, vs }, "vam.iter_mut") => with_prim!(l.attrs[*at].datatype(), T => { assert!(*e <= b.len()); let mut vw = b.view_attribute_mut::<T>(&l.attrs[*at]); for (k, x) in vw.iter_mut().enumerate() { if k >= *a && k < *e { *x = from_val(l.val(*at, vs[k - a])) } } }, panic!("harness: prim")),
        _ => write(b, l, how, w),
    }
}

/// The API names that can perform `w` on a buffer with the given capabilities.
pub fn write_hows(w: &Wr, l: &Lay, inter: bool, col: bool, plain: bool) -> Vec<&'static str> {
    let typed = l.ty.is_some();
    let prim = |at: usize| has_prim(l, at);
    let mut v = vec![];
    match w {
        Wr::SetPt { .. } => {
            v.push("set_point");
            if typed { v.push("view_mut.set_at") }
            if inter { v.push("get_point_mut"); if typed { v.push("view_mut.at_mut") } }
        }
        Wr::SetPts { a, b, .. } => {
            v.push("set_point_range");
            if inter { v.push("get_point_range_mut"); if !plain { v.push("dyn.get_point_range_mut") } if typed && a <= b { v.push("view_mut.iter_mut") } }
        }
        Wr::SetAttr { at, .. } => {
            v.push("set_attribute");
            if prim(*at) { v.push("vam.set_at"); if col { v.push("vam.at_mut") } }
            if col { v.push("get_attribute_mut") }
            if col || inter { v.push("raw_mut") }
        }
        Wr::SetAttrs { at, a, b, .. } => {
            v.push("set_attribute_range");
            if col { v.push("get_attribute_range_mut"); if !plain { v.push("dyn.get_attribute_range_mut") } if prim(*at) && a <= b { v.push("vam.iter_mut") } }
        }
        Wr::Swap { .. } => v.push("swap"),
        Wr::Xform { .. } => v.push("transform_attribute"),
        Wr::Sort { .. } => v.push("sort_by"),
    }
    v
}

pub fn has_prim(l: &Lay, at: usize) -> bool { PRIMS.contains(&l.attrs[at].datatype()) }

pub fn row_hows(l: &Lay, inter: bool, plain: bool) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = ROW_HOWS.iter().chain(if inter { ROW_HOWS_INTER.iter() } else { [].iter() }).copied().collect();
    v.retain(|h| (l.ty.is_some() || !h.contains("view")) && !(plain && h.starts_with("dyn")));
    v
}
pub fn attr_hows(l: &Lay, at: usize, inter: bool, plain: bool) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = ATTR_HOWS.iter().chain(if inter { ATTR_HOWS_INTER.iter() } else { ATTR_HOWS_COL.iter() }).copied().collect();
    v.retain(|h| (has_prim(l, at) || !h.starts_with("va")) && !(plain && h.starts_with("dyn")));
    v
}
