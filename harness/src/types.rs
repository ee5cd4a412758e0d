//! Point types, random layouts, and the token encoding that projects raw bytes to the
//! specification's abstract values: attribute value = small integer token (0 = all zero bytes).
use crate::util::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;
use std::borrow::Cow;
use std::collections::HashMap;

pub const MAXTOK: i64 = 250;
pub const BAD: i64 = -1;
pub const PANIC: i64 = -9;

#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct PSmall {
    #[pasture(BUILTIN_POSITION_3D)] pub pos: Vector3<f64>,
    #[pasture(BUILTIN_CLASSIFICATION)] pub class: u8,
}
#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct PC {
    #[pasture(BUILTIN_POSITION_3D)] pub pos: Vector3<f64>,
    #[pasture(BUILTIN_GPS_TIME)] pub gps: f64,
    #[pasture(BUILTIN_COLOR_RGB)] pub rgb: Vector3<u16>,
    #[pasture(BUILTIN_INTENSITY)] pub intensity: u16,
}
#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct POne {
    #[pasture(BUILTIN_USER_DATA)] pub user: u8,
}
#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct PAll {
    #[pasture(attribute = "a_u8")] pub a: u8,
    #[pasture(attribute = "a_i16")] pub b: i16,
    #[pasture(attribute = "a_f64")] pub c: f64,
    #[pasture(attribute = "a_v3u8")] pub d: Vector3<u8>,
    #[pasture(attribute = "a_u32")] pub e: u32,
    #[pasture(attribute = "a_v3f32")] pub f: Vector3<f32>,
    #[pasture(attribute = "a_i8")] pub g: i8,
    #[pasture(attribute = "a_u64")] pub h: u64,
    #[pasture(attribute = "a_v3i32")] pub i: Vector3<i32>,
    #[pasture(attribute = "a_v4u8")] pub j: Vector4<u8>,
    #[pasture(attribute = "a_u16")] pub k: u16,
    #[pasture(attribute = "a_i64")] pub l: i64,
    #[pasture(attribute = "a_f32")] pub m: f32,
    #[pasture(attribute = "a_v3u16")] pub n: Vector3<u16>,
    #[pasture(attribute = "a_i32")] pub o: i32,
    #[pasture(attribute = "a_v3f64")] pub p: Vector3<f64>,
}
#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C)]
pub struct PMix {
    #[pasture(BUILTIN_POINT_ID)] pub id: u64,
    #[pasture(BUILTIN_NORMAL)] pub normal: Vector3<f32>,
    #[pasture(attribute = "k")] pub k: i32,
    #[pasture(attribute = "q")] pub q: Vector4<u8>,
    #[pasture(BUILTIN_RETURN_NUMBER)] pub rn: u8,
    #[pasture(BUILTIN_SCAN_ANGLE_RANK)] pub sar: i8,
    #[pasture(BUILTIN_SCAN_ANGLE)] pub sa: i16,
}
#[derive(PointType, Default, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed(2))]
pub struct PTwo {
    #[pasture(BUILTIN_INTENSITY)] pub i: u16,
    #[pasture(BUILTIN_POSITION_3D)] pub pos: Vector3<f32>,
    #[pasture(attribute = "z")] pub z: i64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Small, C, One, All, Mix, Two }
pub const TYS: [Ty; 6] = [Ty::Small, Ty::C, Ty::One, Ty::All, Ty::Mix, Ty::Two];

/// Run `$body` with `$T` bound to the Rust type of a `Ty`.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $body:expr) => {
        match $ty {
            $crate::types::Ty::Small => { type $T = $crate::types::PSmall; $body }
            $crate::types::Ty::C => { type $T = $crate::types::PC; $body }
            $crate::types::Ty::One => { type $T = $crate::types::POne; $body }
            $crate::types::Ty::All => { type $T = $crate::types::PAll; $body }
            $crate::types::Ty::Mix => { type $T = $crate::types::PMix; $body }
            $crate::types::Ty::Two => { type $T = $crate::types::PTwo; $body }
        }
    };
}

/// Run `$body` with `$T` bound to the primitive type of a data type; `$other` for types without one.
#[macro_export]
macro_rules! with_prim {
    ($dt:expr, $T:ident => $body:expr, $other:expr) => {{
        use pasture_core::layout::PointAttributeDataType as D;
        use pasture_core::nalgebra::{Vector3, Vector4};
        match $dt {
            D::U8 => { type $T = u8; $body }
            D::I8 => { type $T = i8; $body }
            D::U16 => { type $T = u16; $body }
            D::I16 => { type $T = i16; $body }
            D::U32 => { type $T = u32; $body }
            D::I32 => { type $T = i32; $body }
            D::U64 => { type $T = u64; $body }
            D::I64 => { type $T = i64; $body }
            D::F32 => { type $T = f32; $body }
            D::F64 => { type $T = f64; $body }
            D::Vec3u8 => { type $T = Vector3<u8>; $body }
            D::Vec3u16 => { type $T = Vector3<u16>; $body }
            D::Vec3f32 => { type $T = Vector3<f32>; $body }
            D::Vec3i32 => { type $T = Vector3<i32>; $body }
            D::Vec3f64 => { type $T = Vector3<f64>; $body }
            D::Vec4u8 => { type $T = Vector4<u8>; $body }
            _ => $other,
        }
    }};
}

pub const PRIMS: [PointAttributeDataType; 16] = [
    PointAttributeDataType::U8, PointAttributeDataType::I8, PointAttributeDataType::U16, PointAttributeDataType::I16,
    PointAttributeDataType::U32, PointAttributeDataType::I32, PointAttributeDataType::U64, PointAttributeDataType::I64,
    PointAttributeDataType::F32, PointAttributeDataType::F64, PointAttributeDataType::Vec3u8, PointAttributeDataType::Vec3u16,
    PointAttributeDataType::Vec3f32, PointAttributeDataType::Vec3i32, PointAttributeDataType::Vec3f64, PointAttributeDataType::Vec4u8,
];

pub fn dt_name(d: PointAttributeDataType) -> String {
    match d {
        PointAttributeDataType::ByteArray(n) => format!("B{n}"),
        PointAttributeDataType::Custom { size, min_alignment, .. } => format!("X{size}a{min_alignment}"),
        d => format!("{d:?}"),
    }
}

fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F) ^ c.wrapping_mul(0x165667B19E3779F9);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x
}

/// The bytes of token `t` in a column of type `dt`; `salt` makes columns of one type distinguishable.
/// Never a NaN, never a negative zero, injective in `t`.
pub fn enc(dt: PointAttributeDataType, t: i64, salt: u64) -> Vec<u8> {
    let n = dt.size() as usize;
    if t == 0 {
        return vec![0; n];
    }
    let h = |k: u64| mix(t as u64, salt + 1, k + 1);
    let fl = |k: u64| -> f64 {
        let m = ((h(k) >> 12) & 0xFFFF_FFFF) as f64 / 4096.0 + t as f64 * 1048576.0;
        if h(k) & 1 == 1 { -m } else { m }
    };
    use PointAttributeDataType as D;
    match dt {
        D::F32 => ((t as f32) * if salt % 2 == 0 { 0.75 } else { -1.25 }).to_le_bytes().to_vec(),
        D::F64 => fl(0).to_le_bytes().to_vec(),
        D::Vec3f32 => (0..3u64).flat_map(|k| (((t as f32) + 0.25 * k as f32) * if (salt + k) % 2 == 0 { 0.75 } else { -1.25 }).to_le_bytes()).collect(),
        D::Vec3f64 => (0..3u64).flat_map(|k| fl(k).to_le_bytes()).collect(),
        _ => {
            let mut v = vec![0u8; n];
            for (k, b) in v.iter_mut().enumerate() {
                *b = if k == 0 { t as u8 } else { h(k as u64) as u8 };
            }
            v
        }
    }
}

/// A layout together with the token tables of its attributes.
pub struct Lay {
    pub layout: PointLayout,
    pub attrs: Vec<PointAttributeDefinition>,
    pub members: Vec<PointAttributeMember>,
    pub ty: Option<Ty>,
    enc: Vec<Vec<Vec<u8>>>,
    dec: Vec<HashMap<Vec<u8>, i64>>,
}

impl Lay {
    pub fn new(layout: PointLayout, ty: Option<Ty>) -> Self {
        let members: Vec<_> = layout.attributes().cloned().collect();
        let attrs: Vec<_> = members.iter().map(|m| m.attribute_definition().clone()).collect();
        let enc: Vec<Vec<Vec<u8>>> = attrs.iter().enumerate()
            .map(|(i, a)| (0..=MAXTOK).map(|t| enc(a.datatype(), t, i as u64)).collect()).collect();
        let dec = enc.iter().map(|col| col.iter().enumerate().rev().map(|(t, b)| (b.clone(), t as i64)).collect()).collect();
        Lay { layout, attrs, members, ty, enc, dec }
    }
    pub fn of_ty(ty: Ty) -> Self {
        let layout = with_ty!(ty, T => <T as PointType>::layout());
        Lay::new(layout, Some(ty))
    }
    pub fn na(&self) -> usize { self.attrs.len() }
    pub fn psize(&self) -> usize { self.layout.size_of_point_entry() as usize }
    pub fn val(&self, at: usize, t: i64) -> &[u8] { &self.enc[at][t as usize] }
    pub fn vals(&self, at: usize, ts: &[i64]) -> Vec<u8> { ts.iter().flat_map(|t| self.val(at, *t).iter().copied()).collect() }
    pub fn tok(&self, at: usize, b: &[u8]) -> i64 { self.dec[at].get(b).copied().unwrap_or(BAD) }
    pub fn toks(&self, at: usize, b: &[u8]) -> Vec<i64> {
        let n = self.attrs[at].size() as usize;
        if n == 0 || b.len() % n != 0 { return vec![BAD]; }
        b.chunks(n).map(|c| self.tok(at, c)).collect()
    }
    pub fn pt_bytes(&self, p: &[i64]) -> Vec<u8> {
        let mut v = vec![0u8; self.psize()];
        for (i, m) in self.members.iter().enumerate() {
            v[m.byte_range_within_point()].copy_from_slice(self.val(i, p[i]));
        }
        v
    }
    pub fn pts_bytes(&self, ps: &[Vec<i64>]) -> Vec<u8> { ps.iter().flat_map(|p| self.pt_bytes(p)).collect() }
    pub fn pt_toks(&self, b: &[u8]) -> Vec<i64> {
        if b.len() != self.psize() { return vec![BAD]; }
        self.members.iter().enumerate().map(|(i, m)| self.tok(i, &b[m.byte_range_within_point()])).collect()
    }
    pub fn pts_toks(&self, b: &[u8]) -> Vec<Vec<i64>> {
        let n = self.psize();
        if n == 0 || b.len() % n != 0 { return vec![vec![BAD]]; }
        b.chunks(n).map(|c| self.pt_toks(c)).collect()
    }
    pub fn rand_pt(&self, r: &mut StdRng) -> Vec<i64> {
        (0..self.na()).map(|_| if r.gen_bool(0.08) { 0 } else { r.gen_range(1..=MAXTOK) }).collect()
    }
    pub fn rand_pts(&self, r: &mut StdRng, n: usize) -> Vec<Vec<i64>> { (0..n).map(|_| self.rand_pt(r)).collect() }
}

pub fn attr(name: &str, d: PointAttributeDataType) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Owned(name.to_string()), d)
}

pub fn rand_dt(r: &mut StdRng) -> PointAttributeDataType {
    match r.gen_range(0..20) {
        0 => PointAttributeDataType::ByteArray(*pick(r, &[1u64, 2, 3, 5, 8, 17])),
        1 => PointAttributeDataType::Custom { size: *pick(r, &[4u64, 8, 12, 16]), min_alignment: *pick(r, &[1u64, 2, 4]), name: uuid::Uuid::from_u128(7) },
        _ => *pick(r, &PRIMS),
    }
}

pub fn rand_attrs(r: &mut StdRng, n: usize) -> Vec<PointAttributeDefinition> {
    (0..n).map(|i| attr(&format!("at{i}"), rand_dt(r))).collect()
}

/// A random runtime layout (valid by construction of the public API), never of point size 0.
pub fn rand_layout(r: &mut StdRng) -> PointLayout {
    let n = 1 + weighted(r, &[3, 4, 4, 3, 2, 1]);
    let attrs = rand_attrs(r, n);
    match r.gen_range(0..4) {
        0 => PointLayout::from_attributes(&attrs),
        1 => PointLayout::from_attributes_packed(&attrs, *pick(r, &[1, 2, 4, 8])),
        2 => {
            // explicit members in reverse memory order, with gaps
            let mut off = r.gen_range(0..3u64);
            let mut ms: Vec<PointAttributeMember> = vec![];
            for a in attrs.iter().rev() {
                ms.push(a.at_offset_in_type(off));
                off += a.size() + r.gen_range(0..4u64);
            }
            ms.reverse();
            PointLayout::from_members_and_alignment(&ms, *pick(r, &[1, 2, 4, 8]))
        }
        _ => {
            let mut l = PointLayout::default();
            for a in &attrs {
                let fa = if r.gen_bool(0.5) { FieldAlignment::Default } else { FieldAlignment::Packed(*pick(r, &[1, 2, 4, 8])) };
                l.add_attribute(a.clone(), fa);
            }
            l
        }
    }
}

/// Another layout than `l`, most often almost the same: other offsets, another order, size or alignment, another type or name.
pub fn other_lay(r: &mut StdRng, l: &Lay) -> Lay {
    loop {
        let defs = l.attrs.clone();
        let new = match r.gen_range(0..8) {
            0 => rand_layout(r),
            1 => PointLayout::from_attributes(&defs),
            2 => PointLayout::from_attributes_packed(&defs, *pick(r, &[1, 2, 4, 8])),
            3 => PointLayout::from_attributes_packed(&defs.iter().rev().cloned().collect::<Vec<_>>(), *pick(r, &[1, 2, 4, 8])),
            4 => {
                // every attribute further back, or only the last one
                let (d, last) = (r.gen_range(1..9), r.gen_bool(0.5));
                let n = l.members.len();
                let last_off = l.members.iter().map(|m| m.offset()).max().unwrap();
                let ms: Vec<_> = (0..n).map(|i| { let m = &l.members[i]; m.attribute_definition().at_offset_in_type(m.offset() + if !last || m.offset() == last_off { d } else { 0 }) }).collect();
                PointLayout::from_members_and_alignment(&ms, *pick(r, &[1, 2, 4, 8]))
            }
            5 => { let mut ms = l.members.clone(); ms.rotate_left(1); PointLayout::from_members_and_alignment(&ms, 1) }
            6 => PointLayout::from_members_and_alignment(&l.members, *pick(r, &[1, 2, 4, 8, 16, 64])),
            _ => {
                let mut ms = l.members.clone();
                let i = r.gen_range(0..ms.len());
                let (m, o) = (ms[i].attribute_definition().clone(), ms[i].offset());
                let same: Vec<_> = PRIMS.iter().copied().filter(|d| d.size() == m.size() && *d != m.datatype()).collect();
                let d = if same.is_empty() || r.gen_bool(0.5) { attr(&format!("{}2", m.name()), m.datatype()) } else { m.with_custom_datatype(*pick(r, &same)) };
                ms[i] = d.at_offset_in_type(o);
                if ms.len() > 1 && r.gen_bool(0.2) { ms.remove(i); }
                PointLayout::from_members_and_alignment(&ms, 1)
            }
        };
        if new != l.layout { return Lay::new(new, None) }
    }
}
pub fn rand_lay(r: &mut StdRng, typed: f64) -> Lay {
    if r.gen_bool(typed) { Lay::of_ty(*pick(r, &TYS)) } else { Lay::new(rand_layout(r), None) }
}

pub fn from_pt<T: PointType>(b: &[u8]) -> T { bytemuck::pod_read_unaligned(b) }
pub fn from_val<T: PrimitiveType>(b: &[u8]) -> T { bytemuck::pod_read_unaligned(b) }

pub fn vector_of(l: &Lay, ps: &[Vec<i64>]) -> VectorBuffer {
    let mut b = if ps.len() % 3 == 1 { VectorBuffer::with_capacity(ps.len() % 4, l.layout.clone()) } else { VectorBuffer::new_from_layout(l.layout.clone()) };
    unsafe { b.push_points(&l.pts_bytes(ps)) };
    b
}
pub fn hashmap_of(l: &Lay, ps: &[Vec<i64>]) -> HashMapBuffer {
    let mut b = if ps.len() % 3 == 1 { HashMapBuffer::with_capacity(ps.len() % 4, l.layout.clone()) } else { HashMapBuffer::new_from_layout(l.layout.clone()) };
    unsafe { b.push_points(&l.pts_bytes(ps)) };
    b
}
