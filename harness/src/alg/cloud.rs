//! Clouds made of columns of raw values, and the storage kinds an algorithm can be given.
use pasture_core::containers::*;
use pasture_core::layout::attributes::POSITION_3D;
use pasture_core::layout::*;
use pv::types::*;
use pv::util::*;

pub type D = PointAttributeDataType;
pub type Def = PointAttributeDefinition;
pub type P = [i64; 3];

pub struct Cloud { pub lay: PointLayout, pub cols: Vec<(Def, Vec<Vec<u8>>)>, pub n: usize, pub pad: Vec<Vec<u8>> }
impl Cloud {
    /// `pad` is the point that surrounds the cloud when it is given to an algorithm as a slice of a larger buffer.
    pub fn new(r: &mut StdRng, cols: Vec<(Def, Vec<Vec<u8>>)>, pad: Vec<Vec<u8>>, n: usize) -> Cloud {
        let defs: Vec<Def> = cols.iter().map(|c| c.0.clone()).collect();
        let lay = match r.gen_range(0..3) {
            0 => PointLayout::from_attributes(&defs),
            1 => PointLayout::from_attributes_packed(&defs, *pick(r, &[1, 2, 4])),
            _ => {
                let mut off = r.gen_range(0..3u64);
                let mut ms: Vec<_> = defs.iter().rev().map(|d| { let m = d.at_offset_in_type(off); off += d.size() + r.gen_range(0..3u64); m }).collect();
                ms.reverse();
                PointLayout::from_members_and_alignment(&ms, *pick(r, &[1, 4, 8]))
            }
        };
        Cloud { lay, cols, n, pad }
    }
    fn row(&self, vals: &[&Vec<u8>]) -> Vec<u8> {
        let mut v = vec![0xEE; self.lay.size_of_point_entry() as usize];
        for (m, x) in self.lay.attributes().zip(vals) { v[m.byte_range_within_point()].copy_from_slice(x); }
        v
    }
    pub fn bytes(&self, padded: bool) -> Vec<u8> {
        let pad = self.row(&self.pad.iter().collect::<Vec<_>>());
        let mut out = if padded { pad.clone() } else { vec![] };
        for i in 0..self.n { out.extend(self.row(&self.cols.iter().map(|c| &c.1[i]).collect::<Vec<_>>())); }
        if padded { out.extend(pad); }
        out
    }
    pub fn v(&self, padded: bool) -> VectorBuffer { let mut b = VectorBuffer::new_from_layout(self.lay.clone()); unsafe { b.push_points(&self.bytes(padded)) }; b }
    pub fn h(&self, padded: bool) -> HashMapBuffer { let mut b = HashMapBuffer::new_from_layout(self.lay.clone()); unsafe { b.push_points(&self.bytes(padded)) }; b }
    pub fn e(&self, padded: bool) -> ExternalMemoryBuffer<Vec<u8>> { ExternalMemoryBuffer::new(self.bytes(padded), self.lay.clone()) }
}
/// The values of attribute `d`, point by point.
pub fn column<'a>(b: &impl BorrowedBuffer<'a>, d: &Def) -> Vec<Vec<u8>> {
    (0..b.len()).map(|i| { let mut v = vec![0; d.size() as usize]; b.get_attribute(d, i, &mut v); v }).collect()
}

pub const KINDS: u32 = 6;
#[macro_export]
macro_rules! with_cloud {
    ($kind:expr, $c:expr, $s:ident => $body:expr) => {{
        let (lo, hi) = (1, 1 + $c.n);
        match $kind {
            0 => { let b = $c.v(false); let $s = &b; $body }
            1 => { let b = $c.h(false); let $s = &b; $body }
            2 => { let b = $c.e(false); let $s = &b; $body }
            3 => { let b = $c.v(true); let x = b.slice(lo..hi); let $s = &x; $body }
            4 => { let b = $c.h(true); let x = b.slice(lo..hi); let $s = &x; $body }
            _ => { let mut b = $c.e(true); let x = b.slice_mut(lo..hi); let $s = &x; $body }
        }
    }};
}

/// Positions as bytes of `d`, scaled by a power of two.
pub fn pos_bytes(d: D, p: &P, scale: f64) -> Vec<u8> {
    p.iter().flat_map(|c| { let x = *c as f64 * scale; match d {
        D::Vec3f64 => x.to_le_bytes().to_vec(), D::Vec3f32 => (x as f32).to_le_bytes().to_vec(), D::Vec3i32 => (x as i32).to_le_bytes().to_vec(),
        D::Vec3u16 => (x as u16).to_le_bytes().to_vec(), _ => vec![x as u8],
    } }).collect()
}
pub fn pos_def(d: D) -> Def { POSITION_3D.with_custom_datatype(d) }
/// A cloud of positions with up to two further attributes around them, in random order.
pub fn positions(r: &mut StdRng, ps: &[P], d: D, scale: f64) -> Cloud {
    let far = [97, 101, 89];
    let mut cols = vec![(pos_def(d), ps.iter().map(|p| pos_bytes(d, p, scale)).collect::<Vec<_>>())];
    let mut pad = vec![pos_bytes(d, &far, scale)];
    for k in 0..r.gen_range(0..3) {
        let t = *pick(r, &PRIMS);
        let at = r.gen_range(0..=cols.len());
        cols.insert(at, (attr(&format!("more{k}"), t), ps.iter().map(|_| (0..t.size()).map(|_| r.gen()).collect()).collect()));
        pad.insert(at, (0..t.size()).map(|_| r.gen()).collect());
    }
    Cloud::new(r, cols, pad, ps.len())
}
pub fn rand_p(r: &mut StdRng, range: i64) -> P { [r.gen_range(-range..=range), r.gen_range(-range..=range), r.gen_range(-range..=range)] }

pub fn sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn cross(a: P, b: P) -> P { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
pub fn dot(a: P, b: P) -> i64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
