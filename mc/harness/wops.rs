//! Writer operations as data, their execution on the real writer, and what they must produce.
use crate::panel::{comp, dos_parts, Meta, Txt};
use crate::refzip::{self as rz, PEntry};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{DeflateOption, StringEncoding, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipString};
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use std::io::IoSlice;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Whole,
    WholePre,
    Stream,
    StreamPre,
}
pub const KINDS: [Kind; 4] = [Kind::Whole, Kind::Stream, Kind::WholePre, Kind::StreamPre];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Auto,
    Force,
    Never,
}
pub const MODES: [Mode; 3] = [Mode::Auto, Mode::Force, Mode::Never];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Utf8(String),
    Raw(Vec<u8>),
    Alt(String, Vec<u8>),
}
impl T {
    pub fn zs(&self) -> ZipString {
        match self {
            T::Utf8(s) => s.clone().into(),
            T::Raw(b) => ZipString::new(b.clone(), StringEncoding::Raw),
            T::Alt(s, a) => ZipString::new_with_alternative(s.clone(), a.clone()),
        }
    }
    /// The bytes that go into the name or comment field.
    pub fn basic(&self) -> &[u8] {
        match self {
            T::Utf8(s) => s.as_bytes(),
            T::Raw(b) => b,
            T::Alt(_, a) => a,
        }
    }
    /// Does a reported text keep what was given?
    pub fn check(&self, got: &Txt) -> Result<(), String> {
        let ok = match self {
            T::Utf8(s) => got.utf8 && got.bytes == s.as_bytes(),
            T::Raw(b) => got.bytes == *b && (!got.utf8 || std::str::from_utf8(b).is_ok()),
            T::Alt(s, a) => got.utf8 && got.bytes == s.as_bytes() && (s.is_empty() || got.alt.as_deref() == Some(a)),
        };
        if ok {
            Ok(())
        } else {
            Err(format!("wrote text {self:?}, read {got:?}"))
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cut {
    /// One write call.
    One,
    /// No write call for empty data, else one.
    Lazy,
    /// Writes of k bytes.
    By(usize),
    /// Cut positions, duplicates give zero-length writes.
    At(Vec<usize>),
    /// Vectored writes of slices of 0, k, 0 and 2k bytes and all that is left.
    Vec(usize),
}
impl Cut {
    pub fn ranges(&self, len: usize) -> Vec<(usize, usize)> {
        match self {
            Cut::One | Cut::Vec(_) => vec![(0, len)],
            Cut::Lazy => {
                if len == 0 {
                    vec![]
                } else {
                    vec![(0, len)]
                }
            }
            Cut::By(k) => {
                let mut v = vec![];
                let mut p = 0;
                while p < len {
                    let e = (p + k).min(len);
                    v.push((p, e));
                    p = e;
                }
                v
            }
            Cut::At(c) => {
                let mut v = vec![];
                let mut p = 0;
                for &x in c {
                    let x = x.min(len).max(p);
                    v.push((p, x));
                    p = x;
                }
                v.push((p, len));
                v
            }
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct WOp {
    pub kind: Kind,
    pub method: u16,
    pub data: Arc<Vec<u8>>,
    pub cut: Cut,
    /// bit i: flush after the i-th write
    pub flush: u32,
    /// Close the entry writer through AsyncWrite before closing the entry.
    pub close_first: bool,
    pub name: T,
    pub comment: T,
    pub date: u16,
    pub time: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub perms: Option<u16>,
    pub level: Option<i32>,
    /// Precompress with the library's `compress` instead of the reference codec.
    pub lib_compress: bool,
    /// Give the builder sizes and a CRC that the writer has to replace (not for precompressed kinds).
    pub preset: bool,
}
impl WOp {
    pub fn new(kind: Kind, method: u16, name: &str, data: &[u8]) -> WOp {
        WOp {
            kind,
            method,
            data: Arc::new(data.to_vec()),
            cut: Cut::One,
            flush: 0,
            close_first: false,
            name: T::Utf8(name.into()),
            comment: T::Utf8(String::new()),
            date: 0x5A21,
            time: 0x6B3D,
            iattr: 0,
            eattr: 0,
            perms: None,
            level: None,
            lib_compress: false,
            preset: false,
        }
    }
    pub fn builder(&self) -> ZipEntryBuilder {
        let p = dos_parts(self.date, self.time);
        let d = ZipDateTimeBuilder::new().year(p.0).month(p.1).day(p.2).hour(p.3).minute(p.4).second(p.5).build();
        let mut b = ZipEntryBuilder::new(self.name.zs(), comp(self.method))
            .comment(self.comment.zs())
            .last_modification_date(d)
            .internal_file_attribute(self.iattr)
            .external_file_attribute(self.eattr);
        if let Some(p) = self.perms {
            b = b.unix_permissions(p);
        }
        if let Some(l) = self.level {
            b = b.deflate_option(DeflateOption::Other(l));
        }
        if self.preset && matches!(self.kind, Kind::Whole | Kind::Stream) {
            b = b.crc32(0xDEADBEEFu32).uncompressed_size(77u64).compressed_size(99u64);
        }
        if matches!(self.kind, Kind::WholePre | Kind::StreamPre) {
            b = b.crc32(rz::crc(&self.data)).uncompressed_size(self.data.len() as u64);
        }
        b
    }
    pub fn want_eattr(&self) -> u32 {
        match self.perms {
            Some(p) => (self.eattr & 0xFFFF) | (p as u32) << 16,
            None => self.eattr,
        }
    }
    /// Compares everything the seekable reader reports about this entry.
    pub fn check_meta(&self, m: &Meta) -> Result<(), String> {
        self.name.check(&m.name).map_err(|e| format!("name: {e}"))?;
        self.comment.check(&m.comment).map_err(|e| format!("comment: {e}"))?;
        let mut bad = vec![];
        if m.method != self.method {
            bad.push(format!("method {} read as {}", self.method, m.method));
        }
        if m.crc != rz::crc(&self.data) {
            bad.push(format!("CRC {:#x} read as {:#x}", rz::crc(&self.data), m.crc));
        }
        if m.usize_ != self.data.len() as u64 {
            bad.push(format!("uncompressed size {} read as {}", self.data.len(), m.usize_));
        }
        if m.date != dos_parts(self.date, self.time) {
            bad.push(format!("date {:?} read as {:?}", dos_parts(self.date, self.time), m.date));
        }
        if m.iattr != self.iattr {
            bad.push(format!("internal attributes {:#x} read as {:#x}", self.iattr, m.iattr));
        }
        if m.eattr != self.want_eattr() {
            bad.push(format!("external attributes {:#x} read as {:#x}", self.want_eattr(), m.eattr));
        }
        if m.perms != Some((self.want_eattr() >> 16) as u16) {
            bad.push(format!("permissions {:#x} read as {:?}", self.want_eattr() >> 16, m.perms));
        }
        if self.method == rz::STORED && m.csize != self.data.len() as u64 {
            bad.push(format!("compressed size of stored data {} read as {}", self.data.len(), m.csize));
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(bad.join("; "))
        }
    }
    /// Compares with an independent parse.
    pub fn check_parsed(&self, p: &PEntry, bytes: &[u8]) -> Result<(), String> {
        if p.name != self.name.basic() {
            return Err(format!("name field {:?}, wrote {:?}", p.name, self.name));
        }
        if p.comment != self.comment.basic() {
            return Err(format!("comment field {:?}, wrote {:?}", p.comment, self.comment));
        }
        if p.method != self.method
            || p.crc != rz::crc(&self.data)
            || p.usize_ != self.data.len() as u64
            || p.date != self.date
            || p.time != self.time
            || p.iattr != self.iattr
            || p.eattr != self.want_eattr()
        {
            return Err(format!("header fields {p:?} do not describe {self:?}"));
        }
        let d = &bytes[p.data as usize..(p.data + p.csize) as usize];
        let plain = rz::decode(p.method, d).map_err(|e| format!("independent decoder: {e}"))?;
        if plain != *self.data {
            return Err("independently decoded contents differ".into());
        }
        Ok(())
    }
}

pub async fn precompressed(op: &WOp) -> Vec<u8> {
    if op.lib_compress {
        let e: ZipEntry = op.builder().build();
        async_zip::base::write::compress(&e, &op.data).await
    } else {
        cached_encode(op.method, &op.data)
    }
}
/// Reference compression with a per-thread cache (the slow codecs are used with few payloads).
pub fn cached_encode(method: u16, data: &Arc<Vec<u8>>) -> Vec<u8> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        static CACHE: RefCell<HashMap<(u16, Vec<u8>), Vec<u8>>> = RefCell::new(HashMap::new());
    }
    if method == rz::STORED {
        return data.to_vec();
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 500 {
            c.clear();
        }
        c.entry((method, data.to_vec())).or_insert_with(|| rz::encode(method, data)).clone()
    })
}

pub async fn apply<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, op: &WOp) -> Result<(), ZipError> {
    let b = op.builder();
    match op.kind {
        Kind::Whole => w.write_entry_whole(b, &op.data).await,
        Kind::WholePre => {
            let c = precompressed(op).await;
            w.write_entry_whole_precompressed(b, &c).await
        }
        Kind::Stream | Kind::StreamPre => {
            let pre;
            let data: &[u8] = if op.kind == Kind::StreamPre {
                pre = precompressed(op).await;
                &pre
            } else {
                &op.data
            };
            let mut s = if op.kind == Kind::StreamPre { w.write_entry_stream_precompressed(b).await? } else { w.write_entry_stream(b).await? };
            for (i, (a, z)) in op.cut.ranges(data.len()).into_iter().enumerate() {
                if let Cut::Vec(k) = op.cut {
                    let mut rest = &data[a..z];
                    while !rest.is_empty() {
                        let (x, y) = rest.split_at(k.min(rest.len()));
                        let (y, t) = y.split_at((2 * k).min(y.len()));
                        let v: Vec<IoSlice> = [&[], x, &[], y, t].into_iter().map(IoSlice::new).collect();
                        let n = s.write_vectored(&v).await?;
                        if n == 0 || n > rest.len() {
                            return Err(ZipError::FeatureNotSupported("harness: a vectored write made no progress"));
                        }
                        rest = &rest[n..];
                    }
                } else if a == z {
                    // A zero-length write.
                    let n = s.write(&data[a..z]).await?;
                    if n != 0 {
                        return Err(ZipError::FeatureNotSupported("harness: zero-length write returned nonzero"));
                    }
                } else {
                    s.write_all(&data[a..z]).await?;
                }
                if op.flush & (1 << (i % 32)) != 0 {
                    s.flush().await?;
                }
            }
            if op.close_first {
                AsyncWriteExt::close(&mut s).await?;
            }
            s.close().await
        }
    }
}
pub fn writer<W: AsyncWrite + Unpin>(w: W, mode: Mode) -> ZipFileWriter<W> {
    let z = ZipFileWriter::new(w);
    match mode {
        Mode::Auto => z,
        Mode::Force => z.force_zip64(),
        Mode::Never => z.force_no_zip64(),
    }
}
/// Runs a whole history on a Vec.
pub async fn archive(ops: &[WOp], mode: Mode, comment: Option<&str>) -> Result<Vec<u8>, ZipError> {
    let mut z = writer(Vec::new(), mode);
    for op in ops {
        apply(&mut z, op).await?;
    }
    if let Some(c) = comment {
        z.comment(c.into());
    }
    z.close().await
}

// ---------------------------------------------------------------- payloads

pub fn pattern(kind: usize, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => (0..n).map(|i| (i * 7 + i / 251) as u8).collect(),
        2 => {
            let mut x: u32 = 0x12345678 ^ n as u32;
            (0..n)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 17;
                    x ^= x << 5;
                    x as u8
                })
                .collect()
        }
        3 => {
            let t = b"the quick brown fox jumps over the lazy dog. ";
            (0..n).map(|i| t[i % t.len()]).collect()
        }
        4 => {
            // look-alikes of every signature
            let t = b"PK\x03\x04PK\x01\x02PK\x05\x06PK\x06\x06PK\x06\x07PK\x07\x08PPKPK\x05";
            (0..n).map(|i| t[i % t.len()]).collect()
        }
        _ => vec![0xFF; n],
    }
}
