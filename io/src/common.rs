//! Files in memory, and buffers of any storage.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pv::util::*;
use std::io::*;
use std::sync::{Arc, Mutex};

/// A file in memory that the test can look at while a writer owns it.
#[derive(Clone, Default)]
pub struct Shared(pub Arc<Mutex<Cursor<Vec<u8>>>>, pub usize);
impl Shared {
    /// A file of which at most `max` bytes are written (or read) at once; 0: any number.
    pub fn new(max: usize) -> Self { Shared(Default::default(), max) }
    pub fn of(b: Vec<u8>, max: usize) -> Self { Shared(Arc::new(Mutex::new(Cursor::new(b))), max) }
    pub fn bytes(&self) -> Vec<u8> { self.0.lock().unwrap().get_ref().clone() }
}
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = if self.1 == 0 { b.len() } else { b.len().min(self.1) };
        self.0.lock().unwrap().write(&b[..n])
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = if self.1 == 0 { b.len() } else { b.len().min(self.1) };
        self.0.lock().unwrap().read(&mut b[..n])
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.lock().unwrap().seek(p) }
}

/// Attributes in any order.
pub fn shuffle<T>(r: &mut StdRng, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = r.gen_range(0..=i); v.swap(i, j); } }

/// A layout of these attributes: as a struct, packed, or with gaps.
pub fn any_layout(r: &mut StdRng, defs: &[PointAttributeDefinition]) -> PointLayout {
    match r.gen_range(0..4) {
        0 | 1 => PointLayout::from_attributes(defs),
        2 => PointLayout::from_attributes_packed(defs, *pick(r, &[1, 2, 4])),
        _ => {
            let mut off = r.gen_range(0..3u64);
            let ms: Vec<_> = defs.iter().map(|d| { let m = d.at_offset_in_type(off); off += d.size() + r.gen_range(0..3u64); m }).collect();
            PointLayout::from_members_and_alignment(&ms, 1)
        }
    }
}

/// The bytes of an attribute of a point.
pub fn attr_bytes<'a, B: BorrowedBuffer<'a>>(b: &'a B, d: &PointAttributeDefinition, i: usize) -> Vec<u8> {
    let mut v = vec![0u8; d.size() as usize];
    b.get_attribute(d, i, &mut v);
    v
}

/// Runs `$body` with `$b` bound to a buffer of one of the storages with the points of `$src` (a VectorBuffer).
#[macro_export]
macro_rules! in_storage {
    ($kind:expr, $src:expr, $b:ident => $body:expr) => {
        match $kind % 5 {
            0 => { let $b = &$src; $body }
            1 => { let mut h = HashMapBuffer::new_from_layout($src.point_layout().clone()); h.resize($src.len()); { use pasture_core::containers::*; for i in 0..$src.len() { let mut v = vec![0u8; $src.point_layout().size_of_point_entry() as usize]; $src.get_point(i, &mut v); unsafe { h.set_point(i, &v); } } } let $b = &h; $body }
            2 => { let n = $src.len() * $src.point_layout().size_of_point_entry() as usize; let mut v = vec![0u8; n]; if n > 0 { $src.get_point_range(0..$src.len(), &mut v); } let e = ExternalMemoryBuffer::new(&v, $src.point_layout().clone()); let $b = &e; $body }
            3 => { let mut big = VectorBuffer::new_from_layout($src.point_layout().clone()); big.resize($src.len() + 3); for i in 0..$src.len() { let mut v = vec![0u8; $src.point_layout().size_of_point_entry() as usize]; $src.get_point(i, &mut v); unsafe { big.set_point(i + 2, &v); } } let s = big.slice(2..2 + $src.len()); let $b = &s; $body }
            _ => { let mut big = HashMapBuffer::new_from_layout($src.point_layout().clone()); big.resize($src.len() + 3); for i in 0..$src.len() { let mut v = vec![0u8; $src.point_layout().size_of_point_entry() as usize]; $src.get_point(i, &mut v); unsafe { big.set_point(i + 1, &v); } } let s = big.slice(1..1 + $src.len()); let $b = &s; $body }
        }
    };
}
