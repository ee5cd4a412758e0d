//! Driver of the derived layouts: the structs are generated from the seed (lib/gen.py).
#![allow(dead_code)]
#[path = "../../harness/src/show.rs"]
mod show;
#[path = "../../harness/src/util.rs"]
mod util;
use show::{jdef, jlay};
use pasture_core::containers::*;
use pasture_core::layout::PointAttributeDataType as D;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;
use util::*;
use serde_json::json;

trait Probe: PointType {
    fn make(r: &mut StdRng) -> Self;
    fn defs() -> Vec<PointAttributeDefinition>;
    fn offsets() -> Vec<usize>;
    fn fields(p: &Self) -> Vec<Vec<u8>>;
    fn columns<'a, B: BorrowedBuffer<'a>>(b: &'a B) -> Vec<Vec<Vec<u8>>>;
}
fn attr(name: &'static str, d: D) -> PointAttributeDefinition { PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(name), d) }
fn mk<T: bytemuck::AnyBitPattern>(r: &mut StdRng) -> T {
    let b: Vec<u8> = (0..std::mem::size_of::<T>()).map(|_| r.gen_range(1..120)).collect();
    bytemuck::pod_read_unaligned(&b)
}
fn bytes<T: PrimitiveType>(it: impl Iterator<Item = T>) -> Vec<Vec<u8>> { it.map(|v| bytemuck::bytes_of(&v).to_vec()).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
/// Columns of hexadecimal values as rows.
fn rows(c: Vec<Vec<Vec<u8>>>, n: usize) -> Vec<Vec<String>> { (0..n).map(|i| c.iter().map(|x| x.get(i).map(|b| hex(b)).unwrap_or_default()).collect()).collect() }

fn probe<T: Probe>(tr: &mut Trace, r: &mut StdRng, packing: i64, repr: &str) {
    tr.scenario();
    tr.emit(json!({"e": "new", "k": 0, "lays": []}));
    let lay = guard(T::layout);
    let defs = T::defs();
    tr.emit(json!({"e": "derive", "repr": repr, "p": packing, "defs": defs.iter().map(jdef).collect::<Vec<_>>(), "offs": T::offsets(), "size": std::mem::size_of::<T>(), "align": std::mem::align_of::<T>(),
        "ok": lay.is_some(), "lay": lay.as_ref().map(jlay).unwrap_or(json!({}))}));
    let pts: Vec<T> = (0..3).map(|_| T::make(r)).collect();
    let want: Vec<Vec<String>> = pts.iter().map(|p| T::fields(p).iter().map(|b| hex(b)).collect()).collect();
    let back = |it: Vec<T>| it.iter().map(|p| T::fields(p).iter().map(|b| hex(b)).collect::<Vec<_>>()).collect::<Vec<_>>();
    let seen = guard(|| {
        let (mut v, mut m) = (VectorBuffer::new_from_layout(T::layout()), HashMapBuffer::new_from_layout(T::layout()));
        for p in &pts {
            v.view_mut::<T>().push_point(*p);
            m.view_mut::<T>().push_point(*p);
        }
        [("interleaved", T::columns(&v), v.view::<T>().into_iter().collect::<Vec<T>>()), ("columnar", T::columns(&m), m.view::<T>().into_iter().collect())]
    });
    match seen {
        Some(s) => for (kind, cols, pts) in s { tr.emit(json!({"e": "fields", "kind": kind, "ok": true, "want": want, "cols": rows(cols, 3), "back": back(pts)})); },
        None => tr.emit(json!({"e": "fields", "kind": "", "ok": false, "want": want, "cols": [], "back": []})),
    }
}

include!(env!("PV_DERIVE"));

fn main() {
    util::driver_main(|_, c| {
        let (mut tr, mut r) = (c.trace(300), c.rng());
        all(&mut tr, &mut r);
        tr.summary()
    });
}
