//! Drivers for the buffer properties (B01..B07, B09): random histories over every buffer kind,
//! recorded as traces of the Buffer specification.
use crate::access::*;
use pv::types::*;
use pv::util::*;
use pv::{with_prim, with_ty};
use pasture_core::containers::*;
use pasture_core::layout::*;
use serde_json::{json, Value};

pub enum Buf {
    V(VectorBuffer),
    H(HashMapBuffer),
    E(ExternalMemoryBuffer<Vec<u8>>),
}


macro_rules! each_buf {
    ($b:expr, $x:ident => $body:expr) => {
        match $b { $crate::buf::Buf::V($x) => $body, $crate::buf::Buf::H($x) => $body, $crate::buf::Buf::E($x) => $body }
    };
}

impl Buf {
    pub fn make(kind: usize, l: &Lay, ps: &Rows) -> Buf {
        match kind {
            0 => Buf::V(vector_of(l, ps)),
            1 => Buf::H(hashmap_of(l, ps)),
            _ => Buf::E(ExternalMemoryBuffer::new(l.pts_bytes(ps), l.layout.clone())),
        }
    }
    pub fn len(&self) -> usize { each_buf!(self, b => b.len()) }
    pub fn inter(&self) -> bool { !matches!(self, Buf::H(_)) }
    pub fn kind(&self) -> &'static str { match self { Buf::V(_) => "V", Buf::H(_) => "H", Buf::E(_) => "E" } }
}

pub type Path = Vec<(usize, usize)>;

pub trait RVis {
    type Out;
    fn inter<'a, B: InterleavedBuffer<'a> + 'a>(self, b: &B) -> Self::Out;
    fn col<'a, B: ColumnarBuffer<'a> + 'a>(self, b: &B) -> Self::Out;
}
pub trait WVis {
    type Out;
    fn inter<'a, B: InterleavedBufferMut<'a> + 'a>(self, b: &mut B) -> Self::Out;
    fn col<'a, B: ColumnarBufferMut<'a> + 'a>(self, b: &mut B) -> Self::Out;
}

fn r_native_i<'a, T: for<'x> InterleavedBuffer<'x> + 'static, V: RVis>(s: &'a BufferSliceInterleaved<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path.split_first() { None => v.inter(s), Some((r, rest)) => { let n = s.slice(r.0..r.1); r_native_i(&n, rest, v) } }
}
fn r_plain_i<'a, T: for<'x> InterleavedBuffer<'x> + 'static, V: RVis>(s: &'a BufferSlice<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path.split_first() { None => v.inter(s), Some((r, rest)) => { let n = s.slice(r.0..r.1); r_plain_i(&n, rest, v) } }
}
fn r_plain_c<'a, T: for<'x> ColumnarBuffer<'x> + 'static, V: RVis>(s: &'a BufferSlice<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path.split_first() { None => v.col(s), Some((r, rest)) => { let n = s.slice(r.0..r.1); r_plain_c(&n, rest, v) } }
}
fn w_native_i<'a, T: for<'x> InterleavedBufferMut<'x> + 'static, V: WVis>(s: &'a mut BufferSliceInterleavedMut<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path.split_first() { None => v.inter(s), Some((r, rest)) => { let mut n = s.slice_mut(r.0..r.1); w_native_i(&mut n, rest, v) } }
}
fn w_plain_i<'a, T: for<'x> InterleavedBufferMut<'x> + 'static, V: WVis>(s: &'a mut BufferSliceMut<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path.split_first() { None => v.inter(s), Some((r, rest)) => { let mut n = s.slice_mut(r.0..r.1); w_plain_i(&mut n, rest, v) } }
}
fn w_plain_c<'a, T: for<'x> ColumnarBufferMut<'x> + 'static, V: WVis>(s: &'a mut BufferSliceMut<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path.split_first() { None => v.col(s), Some((r, rest)) => { let mut n = s.slice_mut(r.0..r.1); w_plain_c(&mut n, rest, v) } }
}
/// Mutable slices all the way, then an immutable slice of the innermost one.
fn rm_native_i<'a, T: for<'x> InterleavedBufferMut<'x> + 'static, V: RVis>(s: &'a mut BufferSliceInterleavedMut<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path { [] => v.inter(s), [r] => { let n = s.slice(r.0..r.1); v.inter(&n) } [r, rest @ ..] => { let mut n = s.slice_mut(r.0..r.1); rm_native_i(&mut n, rest, v) } }
}
fn rm_plain_i<'a, T: for<'x> InterleavedBufferMut<'x> + 'static, V: RVis>(s: &'a mut BufferSliceMut<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path { [] => v.inter(s), [r] => { let n = s.slice(r.0..r.1); v.inter(&n) } [r, rest @ ..] => { let mut n = s.slice_mut(r.0..r.1); rm_plain_i(&mut n, rest, v) } }
}
fn rm_plain_c<'a, T: for<'x> ColumnarBufferMut<'x> + 'static, V: RVis>(s: &'a mut BufferSliceMut<'a, T>, path: &[(usize, usize)], v: V) -> V::Out {
    match path { [] => v.col(s), [r] => { let n = s.slice(r.0..r.1); v.col(&n) } [r, rest @ ..] => { let mut n = s.slice_mut(r.0..r.1); rm_plain_c(&mut n, rest, v) } }
}

fn rng_of(p: &(usize, usize)) -> std::ops::Range<usize> { p.0..p.1 }

/// style 0: native slices, 1: plain BufferSlice, 2: through mutable native slices, 3: through BufferSliceMut
pub fn visit_read<V: RVis>(buf: &mut Buf, path: &[(usize, usize)], style: u8, v: V) -> V::Out {
    macro_rules! inter { ($b:expr) => { match path.split_first() {
        None => v.inter($b),
        Some((r, rest)) => match style {
            0 => { let s = $b.slice(rng_of(r)); r_native_i(&s, rest, v) }
            1 => { let s = BufferSlice::new(&*$b, rng_of(r)); r_plain_i(&s, rest, v) }
            2 => { let mut s = $b.slice_mut(rng_of(r)); rm_native_i(&mut s, rest, v) }
            _ => { let mut s = BufferSliceMut::new($b, rng_of(r)); rm_plain_i(&mut s, rest, v) }
        } } } }
    match buf {
        Buf::V(b) => inter!(b),
        Buf::E(b) => inter!(b),
        Buf::H(b) => match path {
            [] => v.col(b),
            [r] if style == 0 => { let s = b.slice(rng_of(r)); v.col(&s) }
            [r] if style == 2 => { let s = b.slice_mut(rng_of(r)); v.col(&s) }
            [r, rest @ ..] if style < 2 => { let s = BufferSlice::new(&*b, rng_of(r)); r_plain_c(&s, rest, v) }
            [r, rest @ ..] => { let mut s = BufferSliceMut::new(b, rng_of(r)); rm_plain_c(&mut s, rest, v) }
        },
    }
}

pub fn visit_write<V: WVis>(buf: &mut Buf, path: &[(usize, usize)], style: u8, v: V) -> V::Out {
    macro_rules! inter { ($b:expr) => { match path.split_first() {
        None => v.inter($b),
        Some((r, rest)) => match style {
            0 | 2 => { let mut s = $b.slice_mut(rng_of(r)); w_native_i(&mut s, rest, v) }
            _ => { let mut s = BufferSliceMut::new($b, rng_of(r)); w_plain_i(&mut s, rest, v) }
        } } } }
    match buf {
        Buf::V(b) => inter!(b),
        Buf::E(b) => inter!(b),
        Buf::H(b) => match path {
            [] => v.col(b),
            [r] if style % 2 == 0 => { let mut s = b.slice_mut(rng_of(r)); v.col(&mut s) }
            [r, rest @ ..] => { let mut s = BufferSliceMut::new(b, rng_of(r)); w_plain_c(&mut s, rest, v) }
        },
    }
}

struct RowsV<'l> { l: &'l Lay, how: &'l str, lo: usize, hi: usize }
impl<'l> RVis for RowsV<'l> {
    type Out = Rows;
    fn inter<'a, B: InterleavedBuffer<'a> + 'a>(self, b: &B) -> Rows { read_rows_inter(b, self.l, self.how, self.lo, self.hi) }
    fn col<'a, B: ColumnarBuffer<'a> + 'a>(self, b: &B) -> Rows { read_rows(b, self.l, self.how, self.lo, self.hi) }
}
struct AttrV<'l> { l: &'l Lay, how: &'l str, at: usize, lo: usize, hi: usize }
impl<'l> RVis for AttrV<'l> {
    type Out = Vec<i64>;
    fn inter<'a, B: InterleavedBuffer<'a> + 'a>(self, b: &B) -> Vec<i64> { read_attr_inter(b, self.l, self.how, self.at, self.lo, self.hi) }
    fn col<'a, B: ColumnarBuffer<'a> + 'a>(self, b: &B) -> Vec<i64> { read_attr_col(b, self.l, self.how, self.at, self.lo, self.hi) }
}
struct LenV;
impl RVis for LenV {
    type Out = (usize, bool);
    fn inter<'a, B: InterleavedBuffer<'a> + 'a>(self, b: &B) -> (usize, bool) { (b.len(), b.is_empty()) }
    fn col<'a, B: ColumnarBuffer<'a> + 'a>(self, b: &B) -> (usize, bool) { (b.len(), b.is_empty()) }
}
struct WriteV<'l> { l: &'l Lay, how: &'l str, w: &'l Wr }
impl<'l> WVis for WriteV<'l> {
    type Out = ();
    fn inter<'a, B: InterleavedBufferMut<'a> + 'a>(self, b: &mut B) { write_inter(b, self.l, self.how, self.w) }
    fn col<'a, B: ColumnarBufferMut<'a> + 'a>(self, b: &mut B) { write_col(b, self.l, self.how, self.w) }
}

/// One scenario: a buffer of some kind with a layout.
pub struct Sc<'t> { pub l: Lay, pub buf: Buf, pub tr: &'t mut Trace, pub n_ops: usize }

fn jp(p: &Path) -> Value { json!(p.iter().map(|(a, b)| vec![*a, *b]).collect::<Vec<_>>()) }

impl<'t> Sc<'t> {
    pub fn new(l: Lay, kind: usize, ps: Rows, tr: &'t mut Trace, r: &mut StdRng) -> Self {
        tr.scenario();
        let buf = Buf::make(kind, &l, &ps);
        let mut s = Sc { l, buf, tr, n_ops: 0 };
        let obs = s.obs(r);
        let len = s.len();
        let v = json!({"e": "new", "kind": s.buf.kind(), "na": s.l.na(), "pts": ps, "obs": obs, "len": len,
            "lay": s.l.attrs.iter().map(|a| dt_name(a.datatype())).collect::<Vec<_>>(), "psize": s.l.psize()});
        s.tr.emit(v);
        s
    }
    pub fn len(&mut self) -> i64 { guard(|| self.buf.len() as i64).unwrap_or(PANIC) }
    fn plen(&mut self) -> usize { self.len().clamp(0, 100_000) as usize }
    /// Full read of the base buffer through a random read path.
    pub fn obs(&mut self, r: &mut StdRng) -> Rows {
        let inter = self.buf.inter();
        let how = *pick(r, &row_hows(&self.l, inter, false));
        let n = self.plen();
        let (l, buf) = (&self.l, &mut self.buf);
        guard(|| visit_read(buf, &[], 0, RowsV { l, how, lo: 0, hi: n })).unwrap_or(vec![vec![PANIC]])
    }
    /// A plain style makes the slice type whose as_interleaved/as_columnar are not required.
    pub fn plain(&self, path: &Path, style: u8) -> bool { !path.is_empty() && (style % 2 == 1 || (matches!(self.buf, Buf::H(_)) && path.len() > 1)) }

    pub fn read_rows(&mut self, path: &Path, style: u8, lo: usize, hi: usize, r: &mut StdRng) {
        let mut hows = row_hows(&self.l, self.buf.inter(), self.plain(path, style));
        hows.retain(|h| hi >= lo || !h.starts_with("view"));
        let how = *pick(r, &hows);
        self.read_rows_how(path, style, lo, hi, how)
    }
    pub fn read_rows_how(&mut self, path: &Path, style: u8, lo: usize, hi: usize, how: &str) {
        let (l, buf) = (&self.l, &mut self.buf);
        let res = guard(|| visit_read(buf, path, style, RowsV { l, how, lo, hi }));
        self.tr.emit(json!({"e": "rows", "w": jp(path), "style": style, "how": how, "a": lo, "b": hi, "ok": res.is_some(), "rows": res.unwrap_or_default()}));
    }
    pub fn read_attr(&mut self, path: &Path, style: u8, at: usize, lo: usize, hi: usize, r: &mut StdRng) {
        let how = *pick(r, &attr_hows(&self.l, at, self.buf.inter(), self.plain(path, style)));
        self.read_attr_how(path, style, at, lo, hi, how)
    }
    pub fn read_attr_how(&mut self, path: &Path, style: u8, at: usize, lo: usize, hi: usize, how: &str) {
        let (l, buf) = (&self.l, &mut self.buf);
        let res = guard(|| visit_read(buf, path, style, AttrV { l, how, at, lo, hi }));
        self.tr.emit(json!({"e": "col", "w": jp(path), "style": style, "how": how, "at": at + 1, "a": lo, "b": hi, "ok": res.is_some(), "vs": res.unwrap_or_default()}));
    }
    pub fn read_len(&mut self, path: &Path, style: u8) {
        let buf = &mut self.buf;
        let res = guard(|| visit_read(buf, path, style, LenV));
        self.tr.emit(json!({"e": "len", "w": jp(path), "style": style, "ok": res.is_some(), "n": res.map(|x| x.0).unwrap_or(0), "empty": res.map(|x| x.1).unwrap_or(false)}));
    }
    pub fn write(&mut self, path: &Path, style: u8, w: Wr, r: &mut StdRng) {
        let inter = self.buf.inter();
        let how = *pick(r, &write_hows(&w, &self.l, inter, !inter, self.plain(path, style)));
        let (l, buf) = (&self.l, &mut self.buf);
        let ok = guard(|| visit_write(buf, path, style, WriteV { l, how, w: &w })).is_some();
        self.n_ops += 1;
        let len = self.len();
        let obs = self.obs(r);
        let mut v = match &w {
            Wr::SetPt { i, p } => json!({"e": "setp", "i": i, "p": p}),
            Wr::SetPts { a, b, ps } => json!({"e": "setps", "a": a, "b": b, "ps": ps}),
            Wr::SetAttr { at, i, v } => json!({"e": "seta", "at": at + 1, "i": i, "v": v}),
            Wr::SetAttrs { at, a, b, vs } => json!({"e": "setas", "at": at + 1, "a": a, "b": b, "vs": vs}),
            Wr::Swap { i, j } => json!({"e": "swap", "i": i, "j": j}),
            Wr::Xform { at, mul, add } => json!({"e": "xform", "at": at + 1, "mul": mul, "add": add}),
            Wr::Sort { at, m, desc } => json!({"e": "sort", "at": at + 1, "m": m, "desc": desc}),
        };
        let o = v.as_object_mut().unwrap();
        o.insert("w".into(), jp(path));
        o.insert("style".into(), json!(style));
        o.insert("how".into(), json!(how));
        o.insert("ok".into(), json!(ok));
        o.insert("obs".into(), json!(obs));
        o.insert("len".into(), json!(len));
        self.tr.emit(v);
    }
    fn emit_mut(&mut self, mut v: Value, ok: bool, r: &mut StdRng) {
        self.n_ops += 1;
        let len = self.len();
        let obs = self.obs(r);
        let o = v.as_object_mut().unwrap();
        o.insert("ok".into(), json!(ok));
        o.insert("obs".into(), json!(obs));
        o.insert("len".into(), json!(len));
        self.tr.emit(v);
    }
    // ---- growing and shrinking
    pub fn push(&mut self, ps: Rows, how: &str, r: &mut StdRng) {
        let l = &self.l;
        macro_rules! go { ($b:expr) => { guard(|| match how {
            "push_points" => unsafe { $b.push_points(&l.pts_bytes(&ps)) },
            "push_points1" => for p in &ps { unsafe { $b.push_points(&l.pt_bytes(p)) } },
            _ => with_ty!(l.ty.unwrap(), T => { let mut v = $b.view_mut::<T>(); for p in &ps { v.push_point(from_pt::<T>(&l.pt_bytes(p))) } }),
        }).is_some() } }
        let ok = match &mut self.buf { Buf::V(b) => go!(b), Buf::H(b) => go!(b), Buf::E(_) => unreachable!() };
        self.emit_mut(json!({"e": "push", "how": how, "ps": ps}), ok, r);
    }
    pub fn append(&mut self, ps: Rows, src: usize, how: usize, slice: bool, other: Option<&Lay>, r: &mut StdRng) {
        // `other`: a different layout whose append must be refused
        let sl = other.unwrap_or(&self.l);
        let sps: Rows = if other.is_some() { vec![vec![1; sl.na()]] } else if slice { // the source is the middle of a longer buffer
            let mut x = vec![vec![9; sl.na()]]; x.extend(ps.iter().cloned()); x.push(vec![11; sl.na()]); x } else { ps.clone() };
        let (lo, hi) = if slice && other.is_none() { (1, 1 + ps.len()) } else { (0, sps.len()) };
        let from = Buf::make(src, sl, &sps);
        macro_rules! go { ($dst:expr) => { guard(|| match &from {
            Buf::V(s) => if slice { let s = s.slice(lo..hi); match how { 0 => $dst.append(&s), _ => $dst.append_interleaved(&s) } } else { match how { 0 => $dst.append(s), _ => $dst.append_interleaved(s) } },
            Buf::E(s) => if slice { let s = s.slice(lo..hi); match how { 0 => $dst.append(&s), _ => $dst.append_interleaved(&s) } } else { match how { 0 => $dst.append(s), _ => $dst.append_interleaved(s) } },
            Buf::H(s) => if slice { let s = s.slice(lo..hi); match how { 0 => $dst.append(&s), _ => $dst.append_columnar(&s) } } else { match how { 0 => $dst.append(s), _ => $dst.append_columnar(s) } },
        }).is_some() } }
        let ok = match &mut self.buf { Buf::V(b) => go!(b), Buf::H(b) => go!(b), Buf::E(_) => unreachable!() };
        let same = other.is_none();
        self.emit_mut(json!({"e": "append", "how": how, "src": from.kind(), "slice": slice, "same": same, "ps": ps}), ok, r);
    }
    pub fn resize(&mut self, n: usize, r: &mut StdRng) {
        let ok = match &mut self.buf { Buf::V(b) => guard(|| b.resize(n)).is_some(), Buf::H(b) => guard(|| b.resize(n)).is_some(), _ => unreachable!() };
        self.emit_mut(json!({"e": "resize", "n": n}), ok, r);
    }
    pub fn clone_buf(&mut self, r: &mut StdRng) {
        let new = match &self.buf { Buf::V(b) => guard(|| Buf::V(b.clone())), Buf::H(b) => guard(|| Buf::H(b.clone())), _ => unreachable!() };
        let ok = new.is_some();
        if let Some(n) = new { self.buf = n; }
        self.emit_mut(json!({"e": "clone"}), ok, r);
    }
    pub fn clear(&mut self, r: &mut StdRng) {
        let ok = match &mut self.buf { Buf::V(b) => guard(|| b.clear()).is_some(), Buf::H(b) => guard(|| b.clear()).is_some(), _ => unreachable!() };
        self.emit_mut(json!({"e": "clear"}), ok, r);
    }
    /// Replace the buffer by one collected from an iterator over typed points with a given size_hint shape.
    pub fn collect(&mut self, ps: Rows, shape: usize, r: &mut StdRng) {
        let l = &self.l;
        let vec_kind = matches!(self.buf, Buf::V(_));
        let new = with_ty!(l.ty.unwrap(), T => {
            let items: Vec<T> = ps.iter().map(|p| from_pt(&l.pt_bytes(p))).collect();
            // extra items that the adapters drop again
            let noisy: Vec<(bool, T)> = items.iter().flat_map(|t| [(true, *t), (false, *t)]).collect();
            let n = items.len();
            macro_rules! col { ($it:expr) => { if vec_kind { Buf::V($it.collect::<VectorBuffer>()) } else { Buf::H($it.collect::<HashMapBuffer>()) } } }
            guard(|| match shape {
                0 => col!(items.into_iter()),                                                             // exact
                1 => col!(noisy.into_iter().filter(|x| x.0).map(|x| x.1)),                                // (0, Some(2n))
                2 => { let mut it = items.into_iter(); col!(std::iter::from_fn(move || it.next())) }       // (0, None)
                3 => col!(items.into_iter().chain(std::iter::repeat(T::default())).take(n)),               // exact via take
                4 => col!(noisy.chunks(2).flat_map(|c| c[..1].iter().map(|x| x.1)).collect::<Vec<T>>().into_iter().rev().rev()), // exact, double ended
                5 => col!(items.iter().copied().take_while(|_| true)),                                    // (0, Some(n))
                6 => col!(items[..n / 2].iter().copied().chain(noisy[n / 2 * 2..].iter().filter(|x| x.0).map(|x| x.1))), // (n/2, more than n)
                7 => { let mut it = items[n / 2..].iter().copied(); col!(items[..n / 2].iter().copied().chain(std::iter::from_fn(move || it.next()))) } // (n/2, None)
                8 => col!(items.iter().copied().chain(noisy.iter().filter(|x| x.0 && n > usize::MAX / 2).map(|x| x.1))),                 // (n, more than n)
                _ => col!(noisy.iter().flat_map(|x| if x.0 { Some(x.1) } else { None })),                  // (0, Some(2n)) or None
            })
        });
        let ok = new.is_some();
        if let Some(b) = new { self.buf = b; }
        self.emit_mut(json!({"e": "collect", "shape": shape, "ps": ps}), ok, r);
    }
    // ---- comparing
    /// Compares the buffer with another one through typed views. `ps` are the other buffer's points.
    pub fn eq_views(&mut self, ps: Rows, kind: usize, at: Option<usize>, mode: usize, r: &mut StdRng) {
        let _ = r;
        let l = &self.l;
        let mut other = Buf::make(kind, l, &ps);
        let a = at.unwrap_or(0);
        let buf = &mut self.buf;
        macro_rules! cmp { ($x:expr, $y:expr) => { match at {
            None => with_ty!(l.ty.unwrap(), T => guard(|| if mode == 0 { $x.view::<T>() == $y.view::<T>() } else { $x.view_mut::<T>() == $y.view_mut::<T>() })),
            Some(_) => with_prim!(l.attrs[a].datatype(), T => guard(|| match mode {
                0 => $x.view_attribute::<T>(&l.attrs[a]) == $y.view_attribute::<T>(&l.attrs[a]),
                1 => $x.view_attribute_mut::<T>(&l.attrs[a]) == $y.view_attribute_mut::<T>(&l.attrs[a]),
                _ => $x.view_attribute_with_conversion::<T>(&l.attrs[a]).unwrap() == $y.view_attribute_with_conversion::<T>(&l.attrs[a]).unwrap(),
            }), None)
        } } }
        let res: Option<bool> = match (buf, &mut other) {
            (Buf::V(x), Buf::V(y)) => cmp!(x, y), (Buf::V(x), Buf::H(y)) => cmp!(x, y), (Buf::V(x), Buf::E(y)) => cmp!(x, y),
            (Buf::H(x), Buf::V(y)) => cmp!(x, y), (Buf::H(x), Buf::H(y)) => cmp!(x, y), (Buf::H(x), Buf::E(y)) => cmp!(x, y),
            (Buf::E(x), Buf::V(y)) => cmp!(x, y), (Buf::E(x), Buf::H(y)) => cmp!(x, y), (Buf::E(x), Buf::E(y)) => cmp!(x, y),
        };
        self.tr.emit(json!({"e": "eq", "ps": ps, "at": at.map(|x| x + 1).unwrap_or(0), "mode": mode, "ok": res.is_some(), "res": res.unwrap_or(false)}));
    }
    // ---- iterators
    pub fn iter(&mut self, path: &Path, style: u8, how: &str, at: usize, script: &[(String, usize)]) {
        let (l, buf) = (&self.l, &mut self.buf);
        let mut res: Vec<Vec<i64>> = vec![];
        let ok = {
            let res = &mut res;
            guard(|| if how.contains("mut") { visit_write(buf, path, style, IterW { l, how, at, script, res }) } else { visit_read(buf, path, style, IterR { l, how, at, script, res }) }).is_some()
        };
        self.tr.emit(json!({"e": "iter", "w": jp(path), "style": style, "how": how, "at": if how.starts_with('p') { 0 } else { at + 1 },
            "script": script.iter().map(|(c, n)| json!({"c": c, "n": if *n > 1_000_000_000 { 1_000_000_000 } else { *n }})).collect::<Vec<_>>(), "ok": ok, "res": res}));
    }
    // ---- filter
    pub fn filter(&mut self, pred: Vec<bool>, dst: usize, r: &mut StdRng) {
        let l = &self.l;
        let Buf::H(b) = &self.buf else { return };
        let p = |i: usize| pred[i];
        let out = guard(|| if dst == 0 { Buf::V(b.filter::<VectorBuffer, _>(p)) } else { Buf::H(b.filter::<HashMapBuffer, _>(p)) });
        let ok = out.is_some();
        let rows = out.map(|mut o| { let n = guard(|| o.len()).unwrap_or(0); let how = *pick(r, &row_hows(l, o.inter(), false)); guard(|| visit_read(&mut o, &[], 0, RowsV { l, how, lo: 0, hi: n })).unwrap_or(vec![vec![PANIC]]) }).unwrap_or_default();
        self.tr.emit(json!({"e": "filter", "pred": pred, "dst": dst, "ok": ok, "rows": rows}));
    }
    pub fn filter_into(&mut self, pred: Vec<bool>, dst: usize, pre: Rows, other: Option<&Lay>, hint: bool, slice: Option<(usize, usize)>, r: &mut StdRng) {
        let l = &self.l;
        let Buf::H(b) = &self.buf else { return };
        let p = |i: usize| pred[i];
        let h = if hint { Some(pred.iter().filter(|x| **x).count()) } else { None };
        let dl = other.unwrap_or(l);
        let pre: Rows = if other.is_some() { pre.iter().map(|_| vec![1; dl.na()]).collect() } else { pre };
        let mut d = Buf::make(dst, dl, &pre);
        let ok = guard(|| match (&mut d, slice) {
            // NB: filter_into requires a destination type valid for every lifetime, so slices cannot be destinations
            (Buf::V(x), _) => b.filter_into(x, p, h),
            (Buf::H(x), _) => b.filter_into(x, p, h),
            (Buf::E(x), _) => b.filter_into(x, p, h),
        }).is_some();
        let n = guard(|| d.len()).unwrap_or(0);
        let how = *pick(r, &row_hows(dl, d.inter(), false));
        let rows = guard(|| visit_read(&mut d, &[], 0, RowsV { l: dl, how, lo: 0, hi: n })).unwrap_or(vec![vec![PANIC]]);
        self.tr.emit(json!({"e": "filter_into", "pred": pred, "dst": dst, "pre": pre, "same": other.is_none(), "hint": hint, "ok": ok, "rows": rows}));
    }
}

struct IterR<'l> { l: &'l Lay, how: &'l str, at: usize, script: &'l [(String, usize)], res: &'l mut Rows }
struct IterW<'l> { l: &'l Lay, how: &'l str, at: usize, script: &'l [(String, usize)], res: &'l mut Rows }

/// Runs the calls of a script on an iterator; each result is a row of tokens ([] = none).
fn drive<I: Iterator>(it: I, script: &[(String, usize)], res: &mut Rows, f: impl Fn(I::Item) -> Vec<i64>) {
    let mut it = it;
    for (k, (c, n)) in script.iter().enumerate() {
        match c.as_str() {
            "next" => res.push(it.next().map(&f).unwrap_or_default()),
            "nth" => res.push(it.nth(*n).map(&f).unwrap_or_default()),
            // by_ref adapters built on next/nth
            "skip" => res.push(it.by_ref().skip(*n).next().map(&f).unwrap_or_default()),
            "step" => { let v: Vec<i64> = it.by_ref().step_by((*n).max(1)).take(3).flat_map(|x| f(x)).collect(); res.push(v) }
            "hint" => { let (a, b) = it.size_hint(); let c = |x: usize| x.min(1_000_000_000) as i64; res.push(vec![c(a), b.map(c).unwrap_or(-1)]) }
            // consuming: only as the last call
            "rest" => { let mut v = vec![]; while let Some(x) = it.next() { v.extend(f(x)); if v.len() > 100_000 { break } } res.push(v) }
            "last" => { res.push(it.last().map(&f).unwrap_or_default()); assert!(k + 1 == script.len()); return }
            "count" => { res.push(vec![it.count() as i64]); assert!(k + 1 == script.len()); return }
            _ => panic!("harness: script"),
        }
    }
}

impl<'l> RVis for IterR<'l> {
    type Out = ();
    fn inter<'a, B: InterleavedBuffer<'a> + 'a>(self, b: &B) {
        let IterR { l, how, at, script, res } = self;
        let fp = |x: &[u8]| l.pt_toks(x);
        let fa = |x: &[u8]| vec![l.tok(at, x)];
        match how {
            "p.val" => with_ty!(l.ty.unwrap(), T => drive(b.view::<T>().into_iter(), script, res, |p| fp(bytemuck::bytes_of(&p)))),
            "p.ref" => with_ty!(l.ty.unwrap(), T => { let v = b.view::<T>(); drive(v.iter(), script, res, |p| fp(bytemuck::bytes_of(p))) }),
            "a.val" => with_prim!(l.attrs[at].datatype(), T => drive(b.view_attribute::<T>(&l.attrs[at]).into_iter(), script, res, |p| fa(bytemuck::bytes_of(&p))), panic!("harness")),
            "a.conv" => with_prim!(l.attrs[at].datatype(), T => drive(b.view_attribute_with_conversion::<T>(&l.attrs[at]).unwrap().into_iter(), script, res, |p| fa(bytemuck::bytes_of(&p))), panic!("harness")),
            _ => panic!("harness: iter {how}"),
        }
    }
    fn col<'a, B: ColumnarBuffer<'a> + 'a>(self, b: &B) {
        let IterR { l, how, at, script, res } = self;
        let fp = |x: &[u8]| l.pt_toks(x);
        let fa = |x: &[u8]| vec![l.tok(at, x)];
        match how {
            "p.val" => with_ty!(l.ty.unwrap(), T => drive(b.view::<T>().into_iter(), script, res, |p| fp(bytemuck::bytes_of(&p)))),
            "a.val" => with_prim!(l.attrs[at].datatype(), T => drive(b.view_attribute::<T>(&l.attrs[at]).into_iter(), script, res, |p| fa(bytemuck::bytes_of(&p))), panic!("harness")),
            "a.conv" => with_prim!(l.attrs[at].datatype(), T => drive(b.view_attribute_with_conversion::<T>(&l.attrs[at]).unwrap().into_iter(), script, res, |p| fa(bytemuck::bytes_of(&p))), panic!("harness")),
            "a.ref" => with_prim!(l.attrs[at].datatype(), T => { let v = b.view_attribute::<T>(&l.attrs[at]); drive(v.iter(), script, res, |p| fa(bytemuck::bytes_of(p))) }, panic!("harness")),
            _ => panic!("harness: iter {how}"),
        }
    }
}
impl<'l> WVis for IterW<'l> {
    type Out = ();
    fn inter<'a, B: InterleavedBufferMut<'a> + 'a>(self, b: &mut B) {
        let IterW { l, how, script, res, .. } = self;
        match how {
            "p.mut" => with_ty!(l.ty.unwrap(), T => { let mut v = b.view_mut::<T>(); drive(v.iter_mut(), script, res, |p| l.pt_toks(bytemuck::bytes_of(p))) }),
            "p.mutref" => with_ty!(l.ty.unwrap(), T => { let v = b.view_mut::<T>(); drive(v.iter(), script, res, |p| l.pt_toks(bytemuck::bytes_of(p))) }),
            _ => panic!("harness: iter {how}"),
        }
    }
    fn col<'a, B: ColumnarBufferMut<'a> + 'a>(self, b: &mut B) {
        let IterW { l, how, at, script, res } = self;
        match how {
            "a.mut" => with_prim!(l.attrs[at].datatype(), T => { let mut v = b.view_attribute_mut::<T>(&l.attrs[at]); drive(v.iter_mut(), script, res, |p| vec![l.tok(at, bytemuck::bytes_of(p))]) }, panic!("harness")),
            "a.mutref" => with_prim!(l.attrs[at].datatype(), T => { let v = b.view_attribute_mut::<T>(&l.attrs[at]); drive(v.iter(), script, res, |p| vec![l.tok(at, bytemuck::bytes_of(p))]) }, panic!("harness")),
            _ => panic!("harness: iter {how}"),
        }
    }
}
