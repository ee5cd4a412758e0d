//! Stand-in for the `las` crate 0.8 (not available offline): headers, VLRs and point formats as the LAS 1.0 - 1.4
//! specification has them, with the part of the crate's interface that pasture-io uses.
use std::io::{Read, Write};

#[derive(Debug)]
pub enum Error { Io(std::io::Error), InvalidFormat(u8), UnsupportedFormat, RecordLength(u16), FileSignature([u8; 4]), TooLarge, Utf8, VersionFormat }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error::Io(e) } }
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Vector<T> { pub x: T, pub y: T, pub z: T }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Transform { pub scale: f64, pub offset: f64 }
impl Default for Transform { fn default() -> Self { Transform { scale: 0.001, offset: 0.0 } } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bounds { pub min: Vector<f64>, pub max: Vector<f64> }
impl Default for Bounds { fn default() -> Self { let (a, b) = (f64::INFINITY, f64::NEG_INFINITY); Bounds { min: Vector { x: a, y: a, z: a }, max: Vector { x: b, y: b, z: b } } } }
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq)]
pub struct Version { pub major: u8, pub minor: u8 }
impl Version { pub fn new(major: u8, minor: u8) -> Self { Version { major, minor } } }
impl From<(u8, u8)> for Version { fn from((a, b): (u8, u8)) -> Self { Version::new(a, b) } }
impl std::fmt::Display for Version { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}.{}", self.major, self.minor) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GpsTimeType { Week, Standard }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Color { pub red: u16, pub green: u16, pub blue: u16 }

pub mod point {
    use super::*;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum ScanDirection { #[default] RightToLeft, LeftToRight }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Classification(pub u8);
    impl From<Classification> for u8 { fn from(c: Classification) -> u8 { c.0 } }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Format { pub has_gps_time: bool, pub has_color: bool, pub is_extended: bool, pub has_waveform: bool, pub has_nir: bool, pub extra_bytes: u16, pub is_compressed: bool }
    impl Format {
        pub fn new(n: u8) -> Result<Format> {
            let is_compressed = n & 0xc0 != 0;
            let n = n & 0x3f;
            if n > 10 { return Err(Error::InvalidFormat(n)) }
            Ok(Format { has_gps_time: n == 1 || n >= 3, has_color: [2, 3, 5, 7, 8, 10].contains(&n), is_extended: n > 5, has_waveform: [4, 5, 9, 10].contains(&n), has_nir: [8, 10].contains(&n), extra_bytes: 0, is_compressed })
        }
        pub fn to_u8(&self) -> Result<u8> {
            match (self.is_extended, self.has_gps_time, self.has_color, self.has_waveform, self.has_nir) {
                (true, false, ..) => Err(Error::UnsupportedFormat),
                (true, _, c, w, n) => match (c, w, n) { (false, false, false) => Ok(6), (true, false, false) => Ok(7), (true, false, true) => Ok(8), (false, true, false) => Ok(9), (true, true, true) => Ok(10), _ => Err(Error::UnsupportedFormat) },
                (.., true) => Err(Error::UnsupportedFormat),
                (false, g, c, true, _) => if g { Ok(if c { 5 } else { 4 }) } else { Err(Error::UnsupportedFormat) },
                (false, g, c, false, _) => Ok(match (g, c) { (false, false) => 0, (true, false) => 1, (false, true) => 2, (true, true) => 3 }),
            }
        }
        pub fn len(&self) -> u16 {
            let gps = if self.has_gps_time && !self.is_extended { 8 } else { 0 };
            (if self.is_extended { 30 } else { 20 }) + gps + if self.has_color { 6 } else { 0 } + if self.has_nir { 2 } else { 0 } + if self.has_waveform { 29 } else { 0 } + self.extra_bytes
        }
    }
    impl std::fmt::Display for Format {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self.to_u8() { Ok(n) => write!(f, "point format {n}"), Err(_) => write!(f, "point format that does not map onto a code: {self:?}") } }
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct Waveform { pub wave_packet_descriptor_index: u8, pub byte_offset_to_waveform_data: u64, pub waveform_packet_size_in_bytes: u32, pub return_point_waveform_location: f32, pub x_t: f32, pub y_t: f32, pub z_t: f32 }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Point {
    pub x: f64, pub y: f64, pub z: f64, pub intensity: u16, pub return_number: u8, pub number_of_returns: u8, pub scan_direction: point::ScanDirection, pub is_edge_of_flight_line: bool,
    pub classification: point::Classification, pub is_synthetic: bool, pub is_key_point: bool, pub is_withheld: bool, pub is_overlap: bool, pub scanner_channel: u8, pub scan_angle: f32,
    pub user_data: u8, pub point_source_id: u16, pub gps_time: Option<f64>, pub color: Option<Color>, pub waveform: Option<raw::point::Waveform>, pub nir: Option<u16>, pub extra_bytes: Vec<u8>,
}

fn text<const N: usize>(s: &str) -> Result<[u8; N]> {
    let mut a = [0; N];
    if s.len() > N { return Err(Error::TooLarge) }
    a[..s.len()].copy_from_slice(s.as_bytes());
    Ok(a)
}
fn string(b: &[u8]) -> Result<String> {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8(b[..n].to_vec()).map_err(|_| Error::Utf8)
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Vlr { pub user_id: String, pub record_id: u16, pub description: String, pub data: Vec<u8> }
impl Vlr {
    pub fn new(v: raw::Vlr) -> Vlr {
        let s = |b: &[u8]| String::from_utf8_lossy(b).trim_end_matches('\0').to_string();
        Vlr { user_id: s(&v.user_id), record_id: v.record_id, description: s(&v.description), data: v.data }
    }
    pub fn has_large_data(&self) -> bool { self.data.len() > u16::MAX as usize }
    pub fn len(&self, evlr: bool) -> usize { self.data.len() + if evlr { 60 } else { 54 } }
    pub fn into_raw(self, evlr: bool) -> Result<raw::Vlr> {
        let n = if evlr { raw::vlr::RecordLength::Evlr(self.data.len() as u64) } else { raw::vlr::RecordLength::Vlr(self.data.len().try_into().map_err(|_| Error::TooLarge)?) };
        Ok(raw::Vlr { reserved: 0, user_id: text(&self.user_id)?, record_id: self.record_id, record_length_after_header: n, description: text(&self.description)?, data: self.data })
    }
}

pub mod raw {
    use super::*;
    pub mod vlr {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum RecordLength { Vlr(u16), Evlr(u64) }
    }
    pub mod point {
        #[derive(Clone, Copy, Debug, Default, PartialEq)]
        pub struct Waveform { pub wave_packet_descriptor_index: u8, pub byte_offset_to_waveform_data: u64, pub waveform_packet_size_in_bytes: u32, pub return_point_waveform_location: f32, pub x_t: f32, pub y_t: f32, pub z_t: f32 }
    }
    fn get<const N: usize>(r: &mut impl Read) -> Result<[u8; N]> { let mut a = [0; N]; r.read_exact(&mut a)?; Ok(a) }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Vlr { pub reserved: u16, pub user_id: [u8; 16], pub record_id: u16, pub record_length_after_header: vlr::RecordLength, pub description: [u8; 32], pub data: Vec<u8> }
    impl Default for Vlr { fn default() -> Self { Vlr { reserved: 0, user_id: [0; 16], record_id: 0, record_length_after_header: vlr::RecordLength::Vlr(0), description: [0; 32], data: vec![] } } }
    impl Vlr {
        pub fn read_from<R: Read>(mut r: R, extended: bool) -> Result<Vlr> {
            let r = &mut r;
            let (reserved, user_id, record_id) = (u16::from_le_bytes(get(r)?), get(r)?, u16::from_le_bytes(get(r)?));
            let n = if extended { vlr::RecordLength::Evlr(u64::from_le_bytes(get(r)?)) } else { vlr::RecordLength::Vlr(u16::from_le_bytes(get(r)?)) };
            let description = get(r)?;
            let mut data = vec![0; match n { vlr::RecordLength::Vlr(n) => n as usize, vlr::RecordLength::Evlr(n) => n as usize }];
            r.read_exact(&mut data)?;
            Ok(Vlr { reserved, user_id, record_id, record_length_after_header: n, description, data })
        }
        pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
            w.write_all(&self.reserved.to_le_bytes())?;
            w.write_all(&self.user_id)?;
            w.write_all(&self.record_id.to_le_bytes())?;
            match self.record_length_after_header { vlr::RecordLength::Vlr(n) => w.write_all(&n.to_le_bytes())?, vlr::RecordLength::Evlr(n) => w.write_all(&n.to_le_bytes())? }
            w.write_all(&self.description)?;
            w.write_all(&self.data)?;
            Ok(())
        }
    }

    pub mod header {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct LargeFile { pub number_of_point_records: u64, pub number_of_points_by_return: [u64; 15] }
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct Evlr { pub start_of_first_evlr: u64, pub number_of_evlrs: u32 }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct Header {
        pub file_signature: [u8; 4], pub file_source_id: u16, pub global_encoding: u16, pub guid: [u8; 16], pub version: Version, pub system_identifier: [u8; 32], pub generating_software: [u8; 32],
        pub file_creation_day_of_year: u16, pub file_creation_year: u16, pub header_size: u16, pub offset_to_point_data: u32, pub number_of_variable_length_records: u32,
        pub point_data_record_format: u8, pub point_data_record_length: u16, pub number_of_point_records: u32, pub number_of_points_by_return: [u32; 5],
        pub x_scale_factor: f64, pub y_scale_factor: f64, pub z_scale_factor: f64, pub x_offset: f64, pub y_offset: f64, pub z_offset: f64,
        pub max_x: f64, pub min_x: f64, pub max_y: f64, pub min_y: f64, pub max_z: f64, pub min_z: f64,
        pub start_of_waveform_data_packet_record: Option<u64>, pub evlr: Option<header::Evlr>, pub large_file: Option<header::LargeFile>, pub padding: Vec<u8>,
    }
    pub const fn header_size(v: Version) -> u16 { match v.minor { 0..=2 => 227, 3 => 235, _ => 375 } }
    impl Header {
        pub fn read_from<R: Read>(mut r: R) -> Result<Header> {
            let r = &mut r;
            let file_signature = get(r)?;
            if &file_signature != b"LASF" { return Err(Error::FileSignature(file_signature)) }
            macro_rules! n { ($t:ty) => { <$t>::from_le_bytes(get(r)?) } }
            let (file_source_id, global_encoding, guid) = (n!(u16), n!(u16), get(r)?);
            let version = Version::new(n!(u8), n!(u8));
            let (system_identifier, generating_software) = (get(r)?, get(r)?);
            let (file_creation_day_of_year, file_creation_year, header_size, offset_to_point_data, number_of_variable_length_records) = (n!(u16), n!(u16), n!(u16), n!(u32), n!(u32));
            let (point_data_record_format, point_data_record_length, number_of_point_records) = (n!(u8), n!(u16), n!(u32));
            let mut number_of_points_by_return = [0; 5];
            for c in &mut number_of_points_by_return { *c = n!(u32) }
            let mut f = [0.0; 12];
            for x in &mut f { *x = n!(f64) }
            let start_of_waveform_data_packet_record = if version.minor >= 3 { Some(n!(u64)) } else { None };
            let (mut evlr, mut large_file) = (None, None);
            if version.minor >= 4 {
                evlr = Some(header::Evlr { start_of_first_evlr: n!(u64), number_of_evlrs: n!(u32) });
                let mut l = header::LargeFile { number_of_point_records: n!(u64), ..Default::default() };
                for c in &mut l.number_of_points_by_return { *c = n!(u64) }
                large_file = Some(l);
            }
            let mut padding = vec![0; header_size.saturating_sub(super::raw::header_size(version)) as usize];
            r.read_exact(&mut padding)?;
            Ok(Header { file_signature, file_source_id, global_encoding, guid, version, system_identifier, generating_software, file_creation_day_of_year, file_creation_year, header_size, offset_to_point_data,
                number_of_variable_length_records, point_data_record_format, point_data_record_length, number_of_point_records, number_of_points_by_return,
                x_scale_factor: f[0], y_scale_factor: f[1], z_scale_factor: f[2], x_offset: f[3], y_offset: f[4], z_offset: f[5], max_x: f[6], min_x: f[7], max_y: f[8], min_y: f[9], max_z: f[10], min_z: f[11],
                start_of_waveform_data_packet_record, evlr, large_file, padding })
        }
        pub fn write_to<W: Write>(&self, mut w: W) -> Result<()> {
            let mut v = vec![];
            macro_rules! p { ($($x:expr),*) => {{ $( v.extend_from_slice(&$x.to_le_bytes()); )* }} }
            v.extend(self.file_signature);
            p!(self.file_source_id, self.global_encoding);
            v.extend(self.guid);
            v.extend([self.version.major, self.version.minor]);
            v.extend(self.system_identifier);
            v.extend(self.generating_software);
            p!(self.file_creation_day_of_year, self.file_creation_year, self.header_size, self.offset_to_point_data, self.number_of_variable_length_records, self.point_data_record_format, self.point_data_record_length, self.number_of_point_records);
            for c in self.number_of_points_by_return { p!(c) }
            p!(self.x_scale_factor, self.y_scale_factor, self.z_scale_factor, self.x_offset, self.y_offset, self.z_offset, self.max_x, self.min_x, self.max_y, self.min_y, self.max_z, self.min_z);
            if self.version.minor >= 3 { p!(self.start_of_waveform_data_packet_record.unwrap_or(0)) }
            if self.version.minor >= 4 {
                let (e, l) = (self.evlr.unwrap_or_default(), self.large_file.unwrap_or_default());
                p!(e.start_of_first_evlr, e.number_of_evlrs, l.number_of_point_records);
                for c in l.number_of_points_by_return { p!(c) }
            }
            v.extend(&self.padding);
            w.write_all(&v)?;
            Ok(())
        }
    }
}

#[derive(Clone, Debug)]
pub struct Builder {
    pub date: Option<chrono::NaiveDate>, pub evlrs: Vec<Vlr>, pub file_source_id: u16, pub generating_software: String, pub gps_time_type: GpsTimeType, pub guid: uuid::Uuid,
    pub has_synthetic_return_numbers: bool, pub has_wkt_crs: bool, pub padding: Vec<u8>, pub point_format: point::Format, pub point_padding: Vec<u8>, pub system_identifier: String,
    pub transforms: Vector<Transform>, pub version: Version, pub vlr_padding: Vec<u8>, pub vlrs: Vec<Vlr>,
    bounds: Bounds, number_of_points: u64, number_of_points_by_return: [u64; 15],
}
impl Default for Builder {
    fn default() -> Self {
        Builder { date: None, evlrs: vec![], file_source_id: 0, generating_software: "las stand-in".into(), gps_time_type: GpsTimeType::Week, guid: uuid::Uuid::nil(), has_synthetic_return_numbers: false,
            has_wkt_crs: false, padding: vec![], point_format: Default::default(), point_padding: vec![], system_identifier: "pasture".into(), transforms: Default::default(), version: Version::new(1, 2),
            vlr_padding: vec![], vlrs: vec![], bounds: Default::default(), number_of_points: 0, number_of_points_by_return: [0; 15] }
    }
}
impl<V: Into<Version>> From<V> for Builder { fn from(v: V) -> Self { Builder { version: v.into(), ..Default::default() } } }
impl From<Header> for Builder { fn from(h: Header) -> Self { h.0 } }
impl Builder {
    pub fn new(h: raw::Header) -> Result<Builder> {
        let mut f = point::Format::new(h.point_data_record_format)?;
        if h.point_data_record_length < f.len() { return Err(Error::RecordLength(h.point_data_record_length)) }
        f.extra_bytes = h.point_data_record_length - f.len();
        let large = h.large_file.unwrap_or_default();
        let mut by_return = large.number_of_points_by_return;
        if h.number_of_points_by_return.iter().any(|&c| c > 0) {
            by_return = [0; 15];
            for (a, &b) in by_return.iter_mut().zip(&h.number_of_points_by_return) { *a = b as u64 }
        }
        let t = |scale, offset| Transform { scale, offset };
        Ok(Builder {
            date: chrono::NaiveDate::from_yo_opt(h.file_creation_year as i32, h.file_creation_day_of_year as u32), evlrs: vec![], file_source_id: h.file_source_id,
            generating_software: string(&h.generating_software)?, gps_time_type: if h.global_encoding & 1 == 1 { GpsTimeType::Standard } else { GpsTimeType::Week }, guid: uuid::Uuid::from_bytes(h.guid),
            has_synthetic_return_numbers: h.global_encoding & 8 != 0, has_wkt_crs: h.global_encoding & 16 != 0, padding: h.padding.clone(), point_format: f, point_padding: vec![],
            system_identifier: string(&h.system_identifier)?,
            transforms: Vector { x: t(h.x_scale_factor, h.x_offset), y: t(h.y_scale_factor, h.y_offset), z: t(h.z_scale_factor, h.z_offset) }, version: h.version, vlr_padding: vec![], vlrs: vec![],
            bounds: Bounds { min: Vector { x: h.min_x, y: h.min_y, z: h.min_z }, max: Vector { x: h.max_x, y: h.max_y, z: h.max_z } },
            number_of_points: if h.number_of_point_records > 0 { h.number_of_point_records as u64 } else { large.number_of_point_records }, number_of_points_by_return: by_return,
        })
    }
    pub fn minimum_supported_version(&self) -> Version {
        let f = &self.point_format;
        Version::new(1, if f.is_extended || !self.evlrs.is_empty() { 4 } else if f.has_waveform { 3 } else if f.has_color { 2 } else { 0 })
    }
    pub fn into_header(mut self) -> Result<Header> {
        let n = self.point_format.to_u8()?;
        if self.version.minor < match n { 0 | 1 => 0, 2 | 3 => 2, 4 | 5 => 3, _ => 4 } { return Err(Error::VersionFormat) }
        if self.vlrs.iter().any(|v| v.has_large_data()) { return Err(Error::TooLarge) }
        self.point_format.is_compressed |= self.vlrs.iter().any(|v| v.user_id == "laszip encoded" && v.record_id == 22204);
        Ok(Header(self))
    }
}

#[derive(Clone, Debug)]
pub struct Header(Builder);
impl Header {
    pub fn file_source_id(&self) -> u16 { self.0.file_source_id }
    pub fn guid(&self) -> uuid::Uuid { self.0.guid }
    pub fn version(&self) -> Version { self.0.version }
    pub fn system_identifier(&self) -> &str { &self.0.system_identifier }
    pub fn generating_software(&self) -> &str { &self.0.generating_software }
    pub fn date(&self) -> Option<chrono::NaiveDate> { self.0.date }
    pub fn padding(&self) -> &Vec<u8> { &self.0.padding }
    pub fn point_format(&self) -> &point::Format { &self.0.point_format }
    pub fn transforms(&self) -> &Vector<Transform> { &self.0.transforms }
    pub fn bounds(&self) -> Bounds { self.0.bounds }
    pub fn number_of_points(&self) -> u64 { self.0.number_of_points }
    pub fn number_of_points_by_return(&self, n: u8) -> Option<u64> { if n > 0 { self.0.number_of_points_by_return.get(n as usize - 1).copied() } else { None } }
    pub fn vlr_padding(&self) -> &Vec<u8> { &self.0.vlr_padding }
    pub fn vlrs(&self) -> &Vec<Vlr> { &self.0.vlrs }
    pub fn evlrs(&self) -> &Vec<Vlr> { &self.0.evlrs }
    pub fn into_raw(self) -> Result<raw::Header> {
        use chrono::Datelike;
        let b = self.0;
        let size = raw::header_size(b.version) as usize + b.padding.len();
        let offset = size + b.vlrs.iter().map(|v| v.len(false)).sum::<usize>() + b.vlr_padding.len();
        let legacy = |n: u64| u32::try_from(n).unwrap_or(0);
        let mut by_return = [0; 5];
        if !b.point_format.is_extended { for (a, &n) in by_return.iter_mut().zip(&b.number_of_points_by_return) { *a = legacy(n) } }
        let end = offset as u64 + b.number_of_points * b.point_format.len() as u64;
        Ok(raw::Header {
            file_signature: *b"LASF", file_source_id: b.file_source_id,
            global_encoding: (b.gps_time_type == GpsTimeType::Standard) as u16 | (b.has_synthetic_return_numbers as u16) << 3 | (b.has_wkt_crs as u16) << 4,
            guid: *b.guid.as_bytes(), version: b.version, system_identifier: text(&b.system_identifier)?, generating_software: text(&b.generating_software)?,
            file_creation_day_of_year: b.date.map_or(0, |d| d.ordinal() as u16), file_creation_year: b.date.map_or(0, |d| d.year() as u16),
            header_size: size as u16, offset_to_point_data: offset as u32, number_of_variable_length_records: b.vlrs.len() as u32,
            point_data_record_format: b.point_format.to_u8()? | if b.point_format.is_compressed { 0x80 } else { 0 }, point_data_record_length: b.point_format.len(),
            number_of_point_records: if b.point_format.is_extended { 0 } else { legacy(b.number_of_points) }, number_of_points_by_return: by_return,
            x_scale_factor: b.transforms.x.scale, y_scale_factor: b.transforms.y.scale, z_scale_factor: b.transforms.z.scale,
            x_offset: b.transforms.x.offset, y_offset: b.transforms.y.offset, z_offset: b.transforms.z.offset,
            max_x: b.bounds.max.x, min_x: b.bounds.min.x, max_y: b.bounds.max.y, min_y: b.bounds.min.y, max_z: b.bounds.max.z, min_z: b.bounds.min.z,
            start_of_waveform_data_packet_record: if b.version.minor >= 3 { Some(0) } else { None },
            evlr: if b.version.minor >= 4 { Some(raw::header::Evlr { start_of_first_evlr: if b.evlrs.is_empty() { 0 } else { end }, number_of_evlrs: b.evlrs.len() as u32 }) } else { None },
            large_file: if b.version.minor >= 4 { Some(raw::header::LargeFile { number_of_point_records: b.number_of_points, number_of_points_by_return: b.number_of_points_by_return }) } else { None },
            padding: b.padding,
        })
    }
}
impl Default for Header { fn default() -> Self { Header(Builder::default()) } }
