//! Stand-in for the `laz` crate (not available offline).  It keeps the interface and the framing - an 8 byte offset
//! of the chunk table, the points, the chunk table - but the "compressed" points are the points themselves.
use std::io::{Read, Result as IoResult, Seek, SeekFrom, Write};

#[derive(Debug)]
pub enum LasZipError { UnsupportedPointFormat(u8), Vlr, Io(std::io::Error) }
impl std::fmt::Display for LasZipError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            LasZipError::UnsupportedPointFormat(n) => write!(f, "point format {n} is not supported"),
            LasZipError::Vlr => write!(f, "not a LASzip VLR"),
            LasZipError::Io(e) => write!(f, "io error: {e}"),
        }
    }
}
impl From<std::io::Error> for LasZipError { fn from(e: std::io::Error) -> Self { LasZipError::Io(e) } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct LazItem { kind: u16, size: u16, version: u16 }

pub struct LazItemRecordBuilder;
impl LazItemRecordBuilder {
    pub fn default_for_point_format_id(n: u8, extra: u16) -> Result<Vec<LazItem>, LasZipError> {
        let it = |kind, size, version| LazItem { kind, size, version };
        let (p10, gps, rgb, wave, p14, rgb14, rgbnir) = (it(6, 20, 2), it(7, 8, 2), it(8, 6, 2), it(9, 29, 1), it(10, 30, 3), it(11, 6, 3), it(12, 8, 3));
        let mut v = match n {
            0 => vec![p10], 1 => vec![p10, gps], 2 => vec![p10, rgb], 3 => vec![p10, gps, rgb], 4 => vec![p10, gps, wave], 5 => vec![p10, gps, rgb, wave],
            6 => vec![p14], 7 => vec![p14, rgb14], 8 => vec![p14, rgbnir],
            n => return Err(LasZipError::UnsupportedPointFormat(n)),
        };
        if extra > 0 { v.push(it(if n < 6 { 0 } else { 14 }, extra, if n < 6 { 2 } else { 3 })) }
        Ok(v)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct LazVlr { items: Vec<LazItem> }
impl LazVlr {
    pub const USER_ID: &'static str = "laszip encoded";
    pub const RECORD_ID: u16 = 22204;
    pub const DESCRIPTION: &'static str = "http://laszip.org";
    pub fn from_laz_items(items: Vec<LazItem>) -> Self { LazVlr { items } }
    pub fn items_size(&self) -> u64 { self.items.iter().map(|i| i.size as u64).sum() }
    pub fn write_to<W: Write>(&self, w: &mut W) -> IoResult<()> {
        let mut v = vec![2, 0, 0, 0, 2, 2, 0, 0];
        v.extend(0u32.to_le_bytes());
        v.extend(50_000u32.to_le_bytes());
        v.extend((-1i64).to_le_bytes());
        v.extend((-1i64).to_le_bytes());
        v.extend((self.items.len() as u16).to_le_bytes());
        for i in &self.items { for x in [i.kind, i.size, i.version] { v.extend(x.to_le_bytes()) } }
        w.write_all(&v)
    }
    pub fn from_buffer(b: &[u8]) -> Result<Self, LasZipError> {
        if b.len() < 34 { return Err(LasZipError::Vlr) }
        let u = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
        let n = u(32) as usize;
        if b.len() < 34 + 6 * n { return Err(LasZipError::Vlr) }
        Ok(LazVlr { items: (0..n).map(|i| LazItem { kind: u(34 + 6 * i), size: u(36 + 6 * i), version: u(38 + 6 * i) }).collect() })
    }
}
pub mod las { pub mod laszip { pub use crate::*; } }

pub struct LasZipCompressor<'a, W: Write + Seek + Send + 'a> { dst: W, start: Option<u64>, end: u64, size: u64, _l: std::marker::PhantomData<&'a ()> }
impl<'a, W: Write + Seek + Send + 'a> LasZipCompressor<'a, W> {
    pub fn new(dst: W, vlr: LazVlr) -> Result<Self, LasZipError> { Ok(Self { dst, start: None, end: 0, size: vlr.items_size(), _l: Default::default() }) }
    fn begin(&mut self) -> IoResult<()> {
        if self.start.is_none() {
            self.start = Some(self.dst.stream_position()?);
            self.dst.write_all(&(-1i64).to_le_bytes())?;
            self.end = self.dst.stream_position()?;
        }
        Ok(())
    }
    pub fn compress_many(&mut self, points: &[u8]) -> IoResult<()> {
        assert_eq!(points.len() as u64 % self.size, 0);
        self.begin()?;
        self.dst.seek(SeekFrom::Start(self.end))?;
        self.dst.write_all(points)?;
        self.end += points.len() as u64;
        Ok(())
    }
    pub fn compress_one(&mut self, point: &[u8]) -> IoResult<()> { self.compress_many(point) }
    pub fn done(&mut self) -> IoResult<()> {
        self.begin()?;
        self.dst.seek(SeekFrom::Start(self.start.unwrap()))?;
        self.dst.write_all(&self.end.to_le_bytes())?;
        self.dst.seek(SeekFrom::Start(self.end))?;
        self.dst.write_all(&[0; 8])
    }
    pub fn get_mut(&mut self) -> &mut W { &mut self.dst }
    pub fn get(&self) -> &W { &self.dst }
    pub fn into_inner(self) -> W { self.dst }
}

pub struct LasZipDecompressor<'a, R: Read + Seek + Send + 'a> { src: R, start: u64, size: u64, _l: std::marker::PhantomData<&'a ()> }
impl<'a, R: Read + Seek + Send + 'a> LasZipDecompressor<'a, R> {
    pub fn new(mut src: R, vlr: LazVlr) -> Result<Self, LasZipError> {
        let mut table = [0; 8];
        src.read_exact(&mut table)?;
        let start = src.stream_position()?;
        Ok(Self { src, start, size: vlr.items_size(), _l: Default::default() })
    }
    pub fn decompress_many(&mut self, out: &mut [u8]) -> IoResult<()> { assert_eq!(out.len() as u64 % self.size, 0); self.src.read_exact(out) }
    pub fn decompress_one(&mut self, out: &mut [u8]) -> IoResult<()> { self.decompress_many(out) }
    pub fn seek(&mut self, point: u64) -> IoResult<()> { self.src.seek(SeekFrom::Start(self.start + point * self.size)).map(|_| ()) }
    pub fn into_inner(self) -> R { self.src }
}
