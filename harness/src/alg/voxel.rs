//! Voxel grid downsampling.
use super::cloud::*;
use crate::with_cloud;
use pasture_algorithms::voxel_grid::voxelgrid_filter;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pv::types::*;
use pv::util::*;
use serde_json::{json, Value};

/// The attributes the filter knows, and how it reduces them.
fn known() -> Vec<(Def, &'static str)> {
    use attributes::*;
    vec![(INTENSITY, "mean"), (NIR, "mean"), (COLOR_RGB, "mean3"), (NORMAL, "meanf"), (RETURN_NUMBER, "common"), (NUMBER_OF_RETURNS, "common"),
        (SCANNER_CHANNEL, "common"), (SCAN_DIRECTION_FLAG, "common"), (EDGE_OF_FLIGHT_LINE, "common"), (CLASSIFICATION, "common"), (SCAN_ANGLE_RANK, "common"),
        (SCAN_ANGLE, "common"), (USER_DATA, "common"), (POINT_SOURCE_ID, "common"), (CLASSIFICATION_FLAGS, "max"), (GPS_TIME, "max"), (POINT_ID, "max")]
}
fn rand(r: &mut StdRng, d: &Def, few: bool) -> Vec<i64> {
    let n = d.name();
    let one = |r: &mut StdRng| match d.datatype() {
        _ if n == attributes::SCAN_DIRECTION_FLAG.name() || n == attributes::EDGE_OF_FLIGHT_LINE.name() => r.gen_range(0..2),
        D::F64 if !few => *pick(r, &[1, 100, 20_000_000]) * r.gen_range(-100..100) + r.gen_range(-3..4), // quarters
        D::I16 if !few => r.gen_range(-32_768..32_768),
        D::I8 | D::I16 | D::F64 | D::Vec3f32 => if few { r.gen_range(-1..2) } else { r.gen_range(-100..100) },
        D::U16 | D::Vec3u16 => if few { r.gen_range(0..3) } else { r.gen_range(0..65_536) },
        D::U64 => if r.gen_bool(0.5) { r.gen_range(0..100_000) } else { r.gen_range(1_999_999_000..2_000_000_000) },
        _ => if few { r.gen_range(0..3) } else { r.gen_range(0..256) },
    };
    (0..if matches!(d.datatype(), D::Vec3u16 | D::Vec3f32) { 3 } else { 1 }).map(|_| one(r)).collect()
}
fn put(d: D, v: &[i64]) -> Vec<u8> {
    v.iter().flat_map(|x| match d {
        D::U8 => vec![*x as u8], D::I8 => vec![*x as i8 as u8], D::U16 | D::Vec3u16 => (*x as u16).to_le_bytes().to_vec(), D::I16 => (*x as i16).to_le_bytes().to_vec(),
        D::U64 => (*x as u64).to_le_bytes().to_vec(), D::F64 => (*x as f64 / 4.0).to_le_bytes().to_vec(), D::Vec3f32 => (*x as f32).to_le_bytes().to_vec(), _ => unreachable!(),
    }).collect()
}
/// The value of an attribute of a result; averages of floats in thousandths.
fn get(d: D, b: &[u8], scale: f64) -> Vec<i64> {
    let cl = |x: f64| if x.is_finite() { (x * scale).round().clamp(-2e9, 2e9) as i64 } else { -2_000_000_001 };
    macro_rules! g { ($t:ty) => { b.chunks(std::mem::size_of::<$t>()).map(|c| bytemuck::pod_read_unaligned::<$t>(c) as f64).map(cl).collect() } }
    match d { D::U8 => g!(u8), D::I8 => g!(i8), D::U16 | D::Vec3u16 => g!(u16), D::I16 => g!(i16), D::U64 => g!(u64), D::Vec3f32 => g!(f32), D::F64 => b.chunks(8).map(|c| cl(bytemuck::pod_read_unaligned::<f64>(c) * 4.0)).collect(), _ => g!(f64) }
}
fn v1(v: Vec<i64>) -> Value { if v.len() == 1 { json!(v[0]) } else { json!(v) } }

pub fn run(c: &Ctx) -> Value {
    let (mut tr, mut r) = (c.trace(60), c.rng());
    for case in c.cases() {
        tr.scenario();
        scenario(&mut tr, &mut r, Some(&case));
    }
    for _ in 0..330 * c.k {
        tr.scenario();
        scenario(&mut tr, &mut r, None);
    }
    tr.summary()
}
fn scenario(tr: &mut Trace, r: &mut StdRng, case: Option<&Value>) {
    // now and then a cloud of many points, or one that spans very many cells
    let (large, wide) = (r.gen_bool(0.01), r.gen_bool(0.06));
    let n = if large { *pick(r, &[70, 140, 300]) } else { r.gen_range(1..16) };
    // positions and leaf sizes in halves, or in other units that floats represent exactly
    let unit = *pick(r, &[0.5, 0.5, 1.0, 64.0, 1.0 / 256.0]);
    let range = if wide { *pick(r, &[600, 1500, 5000, 20_000]) } else { *pick(r, &[1, 3, 8, 20]) };
    let off = rand_p(r, 10);
    let mut n = n;
    let mut ps: Vec<P> = (0..n).map(|_| { let p = rand_p(r, range); [p[0] + off[0], p[1] + off[1], p[2] + off[2]] }).collect();
    // some pairs of near points in a wide cloud
    if wide { for i in 1..n { if r.gen_bool(0.5) { let d = rand_p(r, 1); let q = ps[i - 1]; ps[i] = [q[0] + d[0], q[1] + d[1], q[2] + d[2]]; } } }
    let mut leaf: Vec<i64> = (0..3).map(|_| *pick(r, &[1, 2, 3, 4, 5, 8, 15, 60])).collect();
    // pairs that are as many cells apart as a narrow counter wraps at
    if wide && n < 16 {
        for i in 1..n {
            let (ax, k) = (r.gen_range(0..3), *pick(r, &[255, 256, 1024, 4096, 32_768, 65_536]));
            if r.gen_bool(0.5) && k * leaf[ax] < 100_000 {
                ps[i] = ps[0];
                if r.gen_bool(0.3) { ps[i][r.gen_range(0..3)] += 1; }
                ps[i][ax] += k * leaf[ax];
            }
        }
    }
    match r.gen_range(0..5) { 0 => { let ax = r.gen_range(0..3); for p in &mut ps { p[ax] = 4; } } 1 => for p in ps.iter_mut() { p[0] = p[1]; }, _ => () }
    if let Some(c) = case {
        let (ax, flip) = (r.gen_range(0..3), r.gen_bool(0.3));
        ps = serde_json::from_value::<Vec<P>>(c["ps"].clone()).unwrap();
        leaf = serde_json::from_value(c["leaf"].clone()).unwrap();
        n = ps.len();
        leaf.rotate_left(ax);
        for p in &mut ps { p.rotate_left(ax); for k in 0..3 { p[k] = off[k] + if flip { -p[k] } else { p[k] }; } }
    }
    let few = r.gen_bool(0.7);
    let mut ks = known();
    for i in (1..ks.len()).rev() { let j = r.gen_range(0..=i); ks.swap(i, j); }
    ks.truncate(match r.gen_range(0..4) { 0 => 0, 1 => 17, _ => r.gen_range(1..6) });
    let vals: Vec<Vec<Vec<i64>>> = (0..n).map(|_| ks.iter().map(|k| rand(r, &k.0, few)).collect()).collect();
    let pos = |p: &P| p.iter().flat_map(|c| (*c as f64 * unit).to_le_bytes()).collect::<Vec<u8>>();
    let mut cols = vec![(attributes::POSITION_3D, ps.iter().map(pos).collect::<Vec<_>>())];
    let mut pad = vec![pos(&[500, -500, 300])];
    for (k, (d, _)) in ks.iter().enumerate() {
        let at = r.gen_range(0..=cols.len());
        cols.insert(at, (d.clone(), vals.iter().map(|v| put(d.datatype(), &v[k])).collect()));
        pad.insert(at, put(d.datatype(), &rand(r, d, few)));
    }
    // an attribute that the target does not have
    if r.gen_bool(0.3) { cols.push((attr("more", D::U8), vec![vec![7]; n])); pad.push(vec![9]); }
    let cl = Cloud::new(r, cols.clone(), pad, n);
    // the target has some of the attributes, in another order
    let mut hs: Vec<usize> = (0..ks.len()).collect();
    if r.gen_bool(0.5) { hs.retain(|_| r.gen_bool(0.8)); }
    for i in (1..hs.len()).rev() { let j = r.gen_range(0..=i); hs.swap(i, j); }
    let mut tdefs: Vec<Def> = hs.iter().map(|k| ks[*k].0.clone()).collect();
    tdefs.insert(r.gen_range(0..=tdefs.len()), attributes::POSITION_3D);
    let refuse = r.gen_bool(0.06);
    if refuse { tdefs.push(match r.gen_range(0..3) { 0 => attributes::WAVEFORM_PACKET_SIZE, 1 => attr("odd", D::F64), _ => attributes::WAVE_PACKET_DESCRIPTOR_INDEX }); }
    let tl = if r.gen_bool(0.6) { PointLayout::from_attributes(&tdefs) } else { PointLayout::from_attributes_packed(&tdefs, *pick(r, &[1, 2])) };
    let hows: Vec<&str> = hs.iter().map(|k| ks[*k].1).collect();
    let th = r.gen_bool(0.5);
    let pre = weighted(r, &[3, 1, 1]);
    let (mut tv, mut tm) = (VectorBuffer::new_from_layout(tl.clone()), HashMapBuffer::new_from_layout(tl.clone()));
    tv.resize(pre); tm.resize(pre);
    macro_rules! rows { ($b:expr) => { (0..$b.len()).map(|i| {
        let f = |d: &Def, s: f64| { let mut v = vec![0; d.size() as usize]; $b.get_attribute(d, i, &mut v); get(d.datatype(), &v, s) };
        json!({"pos": f(&attributes::POSITION_3D, 1000.0 / unit), "at": hs.iter().map(|k| v1(f(&ks[*k].0, if ks[*k].1 == "meanf" { 1000.0 } else { 1.0 }))).collect::<Vec<_>>()})
    }).collect::<Vec<_>>() } }
    macro_rules! out { () => { if th { rows!(tm) } else { rows!(tv) } } }
    tr.emit(json!({"e": "new", "ps": ps.iter().zip(&vals).map(|(p, v)| json!({"pos": p, "at": hs.iter().map(|k| v1(v[*k].clone())).collect::<Vec<_>>()})).collect::<Vec<_>>(), "out": out!()}));
    for _ in 0..if r.gen_bool(0.2) { 2 } else { 1 } {
        let kind = r.gen_range(0..KINDS);
        let l: Vec<f64> = leaf.iter().map(|x| *x as f64 * unit).collect();
        let ok = with_cloud!(kind, cl, s => guard(|| if th { voxelgrid_filter(s, l[0], l[1], l[2], &mut tm) } else { voxelgrid_filter(s, l[0], l[1], l[2], &mut tv) })).is_some();
        tr.emit(json!({"e": if refuse { "refused" } else { "filter" }, "kind": kind, "th": th, "leaf": leaf, "hows": hows, "ok": ok, "out": out!()}));
    }
}
