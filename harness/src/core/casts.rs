//! Value conversion, ordering and bit operations.
use super::layouts::jdt;
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use pasture_core::math::*;
use pasture_core::nalgebra::Vector3;
use pv::types::*;
use pv::util::*;
use pv::with_prim;
use serde_json::{json, Value};

/// (element size, element count)
pub fn shape(d: PointAttributeDataType) -> (usize, usize) {
    use PointAttributeDataType as D;
    match d {
        D::Vec3u8 => (1, 3), D::Vec3u16 => (2, 3), D::Vec3i32 | D::Vec3f32 => (4, 3), D::Vec3f64 => (8, 3), D::Vec4u8 => (1, 4),
        d => (d.size() as usize, 1),
    }
}
fn elem(d: PointAttributeDataType) -> PointAttributeDataType {
    use PointAttributeDataType as D;
    match d { D::Vec3u8 | D::Vec4u8 => D::U8, D::Vec3u16 => D::U16, D::Vec3i32 => D::I32, D::Vec3f32 => D::F32, D::Vec3f64 => D::F64, d => d }
}
fn name(d: PointAttributeDataType) -> String { jdt(d)["t"].as_str().unwrap().to_string() }
pub fn bits(b: &[u8]) -> Value { json!((0..b.len() * 8).map(|i| (b[i / 8] >> (i % 8)) & 1).collect::<Vec<u8>>()) }
fn comps(d: PointAttributeDataType, b: &[u8]) -> Value { let (s, _) = shape(d); json!(b.chunks(s).map(bits).collect::<Vec<_>>()) }

fn int_value(r: &mut StdRng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match r.gen_range(0..if bits == 64 { 10 } else { 8 }) {
        8 | 9 => detour_value(r),
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << r.gen_range(0..bits),
        3 => (1u64 << r.gen_range(0..bits)).wrapping_sub(1),
        4 => (1u64 << r.gen_range(0..bits)).wrapping_add(1),
        5 => (1u64 << r.gen_range(0..bits)).wrapping_neg(),
        6 => {
            // a halfway case of f32 or f64: one bit beyond the mantissa
            let h = r.gen_range(0..bits.min(63) + 1).min(bits - 1);
            let mant = if r.gen_bool(0.5) { 23 } else { 52 };
            let mut v = 1u64 << h;
            if h > mant {
                let g = h - mant - 1;
                v |= 1u64 << g;
                if r.gen_bool(0.5) { v |= 1u64 << (g + 1); }
                if r.gen_bool(0.3) { v |= 1u64 << r.gen_range(0..g + 1); }
                if r.gen_bool(0.3) { v |= ((1u64 << mant) - 1) << (g + 1); }
            } else { v |= r.gen::<u64>() & (v - 1); }
            if r.gen_bool(0.3) { v.wrapping_neg() } else { v }
        }
        _ => r.gen::<u64>() >> r.gen_range(0..64),
    };
    v & m
}
/// 64 bit values that round differently when they take a detour over an f64: an f32 halfway case that is decided by a bit f64 drops
fn detour_value(r: &mut StdRng) -> u64 {
    let h = r.gen_range(54..64u32);
    let g = h - 24;
    let low = (1u64 << (h - 53)) - 1; // what f64 cannot hold
    let mut v = (1u64 << h) | ((r.gen::<u64>() << (g + 1)) & ((1u64 << h) - 1));
    if r.gen() { v &= !(1u64 << (g + 1)) } else { v |= 1u64 << (g + 1) }
    let v = if r.gen() { v + (1u64 << g) + (1 + r.gen::<u64>() % (low / 2).max(1)).min(low) } else { v + (1u64 << g) - 1 - r.gen::<u64>() % (low / 2).max(1) };
    if h < 63 && r.gen_bool(0.5) { v.wrapping_neg() } else { v }
}
fn f64_value(r: &mut StdRng) -> f64 {
    match r.gen_range(0..12) {
        0 => *pick(r, &[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 5e-324, -5e-324, 1.0, -1.0, 0.5, -0.5]),
        1 => f64::from_bits(r.gen()),
        2 => {
            // around the limits of the integer types
            let k = *pick(r, &[7, 8, 15, 16, 31, 32, 63, 64]);
            let b = (2f64).powi(k);
            let b = f64::from_bits((b.to_bits() as i64 + r.gen_range(-2..3i64)) as u64);
            let b = if r.gen_bool(0.3) { b - *pick(r, &[1.0, 0.5, 0.25]) } else { b };
            if r.gen_bool(0.5) { -b } else { b }
        }
        3 => (r.gen_range(-600..600) as f64) / 4.0,
        4 => f64::from_bits((r.gen::<u64>() & 0x800F_FFFF_FFFF_FFFF) | (r.gen_range(1023 - 160..1023 - 120u64) << 52)),
        5 => f64::from_bits((r.gen::<u64>() & 0x800F_FFFF_FFFF_FFFF) | (r.gen_range(1023 + 120..1023 + 132u64) << 52)),
        6 => {
            // halfway between two f32 values, also subnormal ones and at the overflow limit
            let f = f32::from_bits(match r.gen_range(0..4) { 0 => r.gen_range(0..64), 1 => r.gen_range(0x7f7f_fff0..0x7f80_0000), 2 => r.gen_range(0x007f_fff0..0x0080_0010), _ => r.gen::<u32>() & 0x7fff_ffff });
            if !f.is_finite() { return f as f64; }
            let up = f32::from_bits(f.to_bits() + 1);
            let up = if up.is_finite() { up as f64 } else { (2f64).powi(128) };
            let m = (f as f64 + up) / 2.0;
            let m = f64::from_bits((m.to_bits() as i64 + r.gen_range(-1..2i64)) as u64);
            if r.gen_bool(0.5) { -m } else { m }
        }
        7 => f64::from_bits(0x7FF0_0000_0000_0000 | (r.gen::<u64>() >> r.gen_range(11..64)) | if r.gen() { 1 << 63 } else { 0 }),
        _ => f64::from_bits((r.gen::<u64>() & 0x800F_FFFF_FFFF_FFFF) | (r.gen_range(1023 - 3..1023 + 66u64) << 52)),
    }
}
fn f32_value(r: &mut StdRng) -> f32 {
    match r.gen_range(0..8) {
        0 => *pick(r, &[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e-45, 1.0, -1.0, 0.5, -0.5]),
        1 => f32::from_bits(r.gen()),
        2 => {
            let b = (2f32).powi(*pick(r, &[7, 8, 15, 16, 31, 32, 63, 64]));
            let b = f32::from_bits((b.to_bits() as i32 + r.gen_range(-2..3)) as u32);
            if r.gen_bool(0.5) { -b } else { b }
        }
        3 => (r.gen_range(-600..600) as f32) / 4.0,
        4 => f32::from_bits((r.gen::<u32>() & 0x807f_ffff) >> r.gen_range(0..8)),
        5 => f32::from_bits(0x7f80_0000 | (r.gen::<u32>() >> r.gen_range(9..32)) | if r.gen() { 1 << 31 } else { 0 }),
        _ => f32::from_bits((r.gen::<u32>() & 0x807f_ffff) | (r.gen_range(127 - 3..127 + 66u32) << 23)),
    }
}
pub fn value(r: &mut StdRng, d: PointAttributeDataType) -> Vec<u8> {
    let (s, n) = shape(d);
    (0..n).flat_map(|_| match elem(d) {
        PointAttributeDataType::F32 => f32_value(r).to_le_bytes().to_vec(),
        PointAttributeDataType::F64 => f64_value(r).to_le_bytes().to_vec(),
        _ => int_value(r, s as u32 * 8).to_le_bytes()[..s].to_vec(),
    }).collect()
}

const VIAS: [&str; 8] = ["fn", "attrs", "view.v", "view.h", "iter", "slice", "upget", "upset"];

fn cast(via: &str, f: PointAttributeDataType, t: PointAttributeDataType, v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let (a, b) = (attr("x", f), attr("x", t));
    let layout = PointLayout::from_attributes_packed(&[attr("p", PointAttributeDataType::U8), a.clone(), attr("q", PointAttributeDataType::I16)], 1);
    let at = |b: &dyn Fn(&mut VectorBuffer)| -> VectorBuffer {
        let mut buf = VectorBuffer::new_from_layout(layout.clone());
        buf.resize(v.len());
        for (i, x) in v.iter().enumerate() { unsafe { buf.set_attribute(&a, i, x) }; }
        b(&mut buf);
        buf
    };
    match via {
        "fn" | "attrs" => v.iter().map(|x| {
            let cf = if via == "fn" { get_generic_converter(f, t) } else { get_converter_for_attributes(&a, &b) }.unwrap();
            // unaligned on both sides
            let mut src = vec![0xAAu8; x.len() + 1];
            src[1..].copy_from_slice(x);
            let mut dst = vec![0x55u8; t.size() as usize + 2];
            let n = dst.len();
            unsafe { cf(&src[1..], &mut dst[1..n - 1]) };
            assert!(dst[0] == 0x55 && dst[n - 1] == 0x55, "harness: conversion wrote outside the target value");
            dst[1..n - 1].to_vec()
        }).collect(),
        "view.v" => { let buf = at(&|_| ()); with_prim!(t, T => { let w = buf.view_attribute_with_conversion::<T>(&b).unwrap(); (0..v.len()).map(|i| bytemuck::bytes_of(&w.at(i)).to_vec()).collect() }, unreachable!()) }
        "view.h" => {
            let mut buf = HashMapBuffer::new_from_layout(layout.clone());
            buf.resize(v.len());
            for (i, x) in v.iter().enumerate() { unsafe { buf.set_attribute(&a, i, x) }; }
            with_prim!(t, T => { let w = buf.view_attribute_with_conversion::<T>(&b).unwrap(); (0..v.len()).map(|i| bytemuck::bytes_of(&w.at(i)).to_vec()).collect() }, unreachable!())
        }
        "iter" => { let buf = at(&|_| ()); with_prim!(t, T => { buf.view_attribute_with_conversion::<T>(&b).unwrap().into_iter().map(|y| bytemuck::bytes_of(&y).to_vec()).collect() }, unreachable!()) }
        "slice" => {
            let buf = at(&|b| b.resize(v.len() + 2));
            let s = buf.slice(0..v.len());
            with_prim!(t, T => { s.view_attribute_with_conversion::<T>(&b).unwrap().into_iter().map(|y| bytemuck::bytes_of(&y).to_vec()).collect() }, unreachable!())
        }
        "upget" => v.iter().map(|x| {
            let mut p = UntypedPointBuffer::new(&layout);
            p.set_raw_attribute(&a, x).unwrap();
            with_prim!(t, T => bytemuck::bytes_of(&p.get_attribute::<T>(&a).unwrap()).to_vec(), unreachable!())
        }).collect(),
        _ => v.iter().map(|x| {
            let la = PointLayout::from_attributes_packed(&[attr("p", PointAttributeDataType::U8), b.clone()], 1);
            let mut p = UntypedPointBuffer::new(&la);
            with_prim!(f, T => p.set_attribute::<T>(&b, &from_val::<T>(x)).unwrap(), unreachable!());
            p.get_raw_attribute(&b).unwrap().to_vec()
        }).collect(),
    }
}

pub fn run_casts(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(1500), c.rng());
    let vec3 = |d: PointAttributeDataType| shape(d).1 == 3;
    let mut odd: Vec<PointAttributeDataType> = PRIMS.to_vec();
    odd.push(PointAttributeDataType::ByteArray(4));
    odd.push(PointAttributeDataType::Custom { size: 4, min_alignment: 4, name: uuid::Uuid::from_u128(1) });
    for _ in 0..c.k {
        for f in PRIMS {
            tr.scenario();
            tr.emit(json!({"e": "new"}));
            for t in &odd {
                if *t != f {
                    let ok = match r.gen_range(0..2) {
                        0 => guard(|| get_generic_converter(f, *t).is_some()),
                        _ => guard(|| get_converter_for_attributes(&attr("x", f), &attr("x", *t)).is_some()),
                    }.unwrap_or(false);
                    tr.emit(json!({"e": "pair", "f": name(f), "t": name(*t), "ok": ok}));
                    let ok = guard(|| get_generic_converter(*t, f).is_some()).unwrap_or(false);
                    tr.emit(json!({"e": "pair", "f": name(*t), "t": name(f), "ok": ok}));
                } else {
                    tr.emit(json!({"e": "same", "t": name(f), "none": get_converter_for_attributes(&attr("x", f), &attr("x", f)).is_none()}));
                }
            }
            for t in PRIMS {
                if f == t {
                    let v: Vec<_> = (0..4).map(|_| value(&mut r, f)).collect();
                    for via in &VIAS[2..] {
                        let out = guard(|| cast(via, f, t, &v));
                        for (i, x) in v.iter().enumerate() {
                            tr.emit(json!({"e": "cast", "f": name(f), "t": name(t), "via": via, "in": comps(f, x), "ok": out.is_some(), "out": out.as_ref().map(|o| comps(t, &o[i])).unwrap_or(json!([]))}));
                        }
                    }
                    continue;
                }
                let scalar = |d| shape(d).1 == 1;
                if !((scalar(f) && scalar(t)) || (vec3(f) && vec3(t))) { continue; }
                let per = if vec3(f) { 14 } else { 40 };
                let mut left = per;
                while left > 0 {
                    let n = r.gen_range(1..7).min(left);
                    left -= n;
                    let v: Vec<_> = (0..n).map(|_| value(&mut r, f)).collect();
                    let via = if r.gen_bool(0.4) { "fn" } else { *pick(&mut r, &VIAS) };
                    let out = guard(|| cast(via, f, t, &v));
                    for (i, x) in v.iter().enumerate() {
                        tr.emit(json!({"e": "cast", "f": name(f), "t": name(t), "via": via, "in": comps(f, x), "ok": out.is_some(), "out": out.as_ref().map(|o| comps(t, &o[i])).unwrap_or(json!([]))}));
                    }
                }
            }
        }
    }
    // every value of the small types
    let small = |d: &&PointAttributeDataType| shape(**d).1 == 1 && shape(**d).0 <= if c.thorough { 2 } else { 1 };
    for f in PRIMS.iter().filter(small) {
        let all: Vec<Vec<u8>> = (0..1usize << (8 * shape(*f).0)).map(|x| x.to_le_bytes()[..shape(*f).0].to_vec()).collect();
        for t in PRIMS.iter().filter(|t| shape(**t).1 == 1 && *t != f) {
            tr.scenario();
            tr.emit(json!({"e": "new"}));
            for (k, v) in all.chunks(64).enumerate() {
                let via = VIAS[k % VIAS.len()];
                let out = guard(|| cast(via, *f, *t, v));
                let ok = out.is_some();
                tr.emit(json!({"e": "casts", "f": name(*f), "t": name(*t), "via": via, "in": v.iter().map(|x| bits(x)).collect::<Vec<_>>(), "ok": ok, "out": out.unwrap_or_default().iter().map(|x| bits(x)).collect::<Vec<_>>()}));
            }
        }
    }
    tr.summary()
}

fn big(mut x: u128) -> Value {
    let mut v = vec![];
    while x > 0 { v.push((x % 1000) as u64); x /= 1000; }
    json!(v)
}

fn no_nan(r: &mut StdRng, d: PointAttributeDataType) -> Vec<u8> {
    loop {
        let v = value(r, d);
        let (s, _) = shape(d);
        let nan = v.chunks(s).any(|b| match elem(d) {
            PointAttributeDataType::F32 => f32::from_le_bytes(b.try_into().unwrap()).is_nan(),
            PointAttributeDataType::F64 => f64::from_le_bytes(b.try_into().unwrap()).is_nan(),
            _ => false,
        });
        if !nan { return v; }
    }
}

pub fn run_math(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(1500), c.rng());
    for sc in 0..40 * c.k {
        tr.scenario();
        tr.emit(json!({"e": "new"}));
        for _ in 0..70 {
            // infimum and supremum: equal, close and unrelated operands
            let d = PRIMS[r.gen_range(0..15)];
            let (a, mut b) = (no_nan(&mut r, d), no_nan(&mut r, d));
            let (s, n) = shape(d);
            match r.gen_range(0..4) {
                0 => b = a.clone(),
                1 => { let k = r.gen_range(0..n) * s; b[k..k + s].copy_from_slice(&a[k..k + s]); }
                2 if !matches!(elem(d), PointAttributeDataType::F32 | PointAttributeDataType::F64) => { b = a.clone(); let k = r.gen_range(0..b.len()); b[k] ^= 1 << r.gen_range(0..8); }
                _ => (),
            }
            let (i, u) = minmax(d, &a, &b);
            for (e, x) in [("inf", i), ("sup", u)] {
                tr.emit(json!({"e": e, "t": name(d), "a": comps(d, &a), "b": comps(d, &b), "r": x.map(|x| comps(d, &x)).unwrap_or(json!([]))}));
            }
        }
        for _ in 0..40 {
            macro_rules! al { ($t:ty) => {{
                let w = std::mem::size_of::<$t>() as u32 * 8;
                let small = r.gen_bool(0.4);
                let mut g = |z: bool| -> $t {
                    let x: u128 = if w == 128 { ((int_value(&mut r, 64) as u128) << 64 | int_value(&mut r, 64) as u128) >> r.gen_range(0..128) } else { int_value(&mut r, w) as u128 };
                    if small && z { (x % 100) as $t } else { x as $t }
                };
                let x = g(false);
                let a = g(true);
                let res = guard(|| x.align_to(a));
                let q = if a == 0 { 0 } else { (x as u128).div_ceil(a as u128) };
                tr.emit(json!({"e": "align", "w": w, "x": big(x as u128), "a": big(a as u128), "q": big(q), "ok": res.is_some(), "r": res.map(|y| big(y as u128)).unwrap_or(json!([]))}));
            }} }
            match r.gen_range(0..6) { 0 => al!(u8), 1 => al!(u16), 2 => al!(u32), 3 => al!(u64), 4 => al!(u128), _ => al!(usize) }
        }
        for k in 0..12 {
            let x: u64 = match k { 0 => 1u64 << r.gen_range(0..64), 1 => !(1u64 << r.gen_range(0..64)), 2 => 0x1FFFFF & r.gen::<u64>(), _ => r.gen() };
            tr.emit(json!({"e": "expand", "x": bits(&x.to_le_bytes()), "r": bits(&expand_bits_by_3(x).to_le_bytes())}));
            tr.emit(json!({"e": "reverse", "x": bits(&x.to_le_bytes()), "r": bits(&reverse_bits(x).to_le_bytes())}));
        }
        if sc == 0 {
            for i in 0..64 {
                let x = 1u64 << i;
                tr.emit(json!({"e": "expand", "x": bits(&x.to_le_bytes()), "r": bits(&expand_bits_by_3(x).to_le_bytes())}));
                tr.emit(json!({"e": "reverse", "x": bits(&x.to_le_bytes()), "r": bits(&reverse_bits(x).to_le_bytes())}));
            }
            for i in 0..2048u64 {
                // every byte value at every position
                let x = (i / 8) << (8 * (i % 8));
                tr.emit(json!({"e": "reverse", "x": bits(&x.to_le_bytes()), "r": bits(&reverse_bits(x).to_le_bytes())}));
            }
            for a in [false, true] { for b in [false, true] { tr.emit(json!({"e": "minmaxbool", "a": a, "b": b, "inf": a.infimum(&b), "sup": a.supremum(&b)})); } }
        }
    }
    tr.summary()
}

fn minmax(d: PointAttributeDataType, a: &[u8], b: &[u8]) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    macro_rules! mm { ($t:ty) => {{ let (x, y) = (from_val::<$t>(a), from_val::<$t>(b));
        (guard(|| bytemuck::bytes_of(&x.infimum(&y)).to_vec()), guard(|| bytemuck::bytes_of(&x.supremum(&y)).to_vec())) }} }
    use PointAttributeDataType as D;
    match d {
        D::U8 => mm!(u8), D::I8 => mm!(i8), D::U16 => mm!(u16), D::I16 => mm!(i16), D::U32 => mm!(u32), D::I32 => mm!(i32), D::U64 => mm!(u64), D::I64 => mm!(i64),
        D::F32 => mm!(f32), D::F64 => mm!(f64), D::Vec3u8 => mm!(Vector3<u8>), D::Vec3u16 => mm!(Vector3<u16>), D::Vec3i32 => mm!(Vector3<i32>),
        D::Vec3f32 => mm!(Vector3<f32>), D::Vec3f64 => mm!(Vector3<f64>), _ => (None, None),
    }
}
