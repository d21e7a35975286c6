//! An independent, deliberately plain ZIP encoder, strict parser and set of codecs: the oracle.
use crate::dev::Sparse;
use std::io::{Read, Write};

pub const LFH: u32 = 0x04034b50;
pub const CDH: u32 = 0x02014b50;
pub const EOCD: u32 = 0x06054b50;
pub const Z64E: u32 = 0x06064b50;
pub const Z64L: u32 = 0x07064b50;
pub const DDSIG: u32 = 0x08074b50;

pub const STORED: u16 = 0;
pub const DEFLATE: u16 = 8;
pub const DEFLATE64: u16 = 9;
pub const BZ: u16 = 12;
pub const LZMA: u16 = 14;
pub const ZSTD: u16 = 93;
pub const XZ: u16 = 95;

pub fn crc(d: &[u8]) -> u32 {
    // Table-driven, independent of crc32fast.
    static T: std::sync::OnceLock<[[u32; 256]; 8]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [[0u32; 256]; 8];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for k in 1..8 {
            for i in 0..256 {
                t[k][i] = (t[k - 1][i] >> 8) ^ t[0][(t[k - 1][i] & 0xff) as usize];
            }
        }
        t
    });
    let mut c = !0u32;
    let mut ch = d.chunks_exact(8);
    for b in &mut ch {
        let x = c ^ u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        c = t[7][(x & 0xff) as usize]
            ^ t[6][((x >> 8) & 0xff) as usize]
            ^ t[5][((x >> 16) & 0xff) as usize]
            ^ t[4][(x >> 24) as usize]
            ^ t[3][b[4] as usize]
            ^ t[2][b[5] as usize]
            ^ t[1][b[6] as usize]
            ^ t[0][b[7] as usize];
    }
    for b in ch.remainder() {
        c = t[0][((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// Reference compression (synchronous crates, not the code under test).
pub fn encode(method: u16, d: &[u8]) -> Vec<u8> {
    match method {
        STORED => d.to_vec(),
        DEFLATE => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(6));
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        DEFLATE64 => deflate64_stored(d),
        BZ => {
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(1));
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        LZMA => {
            let o = liblzma::stream::LzmaOptions::new_preset(0).unwrap();
            let s = liblzma::stream::Stream::new_lzma_encoder(&o).unwrap();
            let mut e = liblzma::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        XZ => {
            let mut e = liblzma::write::XzEncoder::new(Vec::new(), 0);
            e.write_all(d).unwrap();
            e.finish().unwrap()
        }
        ZSTD => zstd::encode_all(d, 1).unwrap(),
        _ => panic!("no reference codec for {method}"),
    }
}
/// Stored blocks followed by one literal-only fixed-Huffman block: valid Deflate and Deflate64.
pub fn deflate64_stored(d: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let split = d.len() / 2;
    for c in d[..split].chunks(65535) {
        out.push(0); // not final, stored
        out.extend((c.len() as u16).to_le_bytes());
        out.extend((!(c.len() as u16)).to_le_bytes());
        out.extend_from_slice(c);
    }
    let (mut acc, mut n) = (0u64, 0u32);
    let mut put = |v: u32, bits: u32, out: &mut Vec<u8>| {
        acc |= (v as u64) << n;
        n += bits;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    let rev = |v: u32, bits: u32| v.reverse_bits() >> (32 - bits);
    put(1, 1, &mut out);
    put(1, 2, &mut out);
    for &b in &d[split..] {
        if b < 144 {
            put(rev(0x30 + b as u32, 8), 8, &mut out);
        } else {
            put(rev(0x190 + (b as u32 - 144), 9), 9, &mut out);
        }
    }
    put(0, 7, &mut out);
    put(0, 7, &mut out); // flush to a byte boundary
    out
}
/// Reference decompression. Err if the stream is damaged or has trailing bytes.
pub fn decode(method: u16, d: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let e = |x: std::io::Error| x.to_string();
    match method {
        STORED => out = d.to_vec(),
        DEFLATE => {
            let mut r = flate2::bufread::DeflateDecoder::new(d);
            r.read_to_end(&mut out).map_err(e)?;
            if r.total_in() != d.len() as u64 {
                return Err("trailing bytes after deflate stream".into());
            }
        }
        BZ => {
            bzip2::bufread::BzDecoder::new(d).read_to_end(&mut out).map_err(e)?;
        }
        LZMA => {
            let s = liblzma::stream::Stream::new_lzma_decoder(u64::MAX).unwrap();
            liblzma::bufread::XzDecoder::new_stream(d, s).read_to_end(&mut out).map_err(e)?;
        }
        XZ => {
            liblzma::bufread::XzDecoder::new(d).read_to_end(&mut out).map_err(e)?;
        }
        ZSTD => out = zstd::decode_all(d).map_err(e)?,
        _ => return Err(format!("no reference codec for {method}")),
    }
    Ok(out)
}

// ---------------------------------------------------------------- encoder

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dd {
    None,
    Sig,
    NoSig,
    Sig64,
    NoSig64,
}
pub const U: u8 = 1;
pub const C: u8 = 2;
pub const O: u8 = 4;
pub const K: u8 = 8;

#[derive(Clone, Debug)]
pub struct E {
    pub name: Vec<u8>,
    pub method: u16,
    /// Without bit 3, which follows `dd`.
    pub flags: u16,
    pub data: Vec<u8>,
    /// Stored bytes, if not `encode(method, data)`.
    pub comp: Option<Vec<u8>>,
    pub crc: Option<u32>,
    pub dd: Dd,
    pub lx: Vec<(u16, Vec<u8>)>,
    pub cx: Vec<(u16, Vec<u8>)>,
    pub comment: Vec<u8>,
    pub date: u16,
    pub time: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub made: u16,
    pub need: u16,
    pub disk: u16,
    pub gap: Vec<u8>,
    /// Saturated fields in the local header (U, C), values in a ZIP64 field.
    pub l64: u8,
    /// Saturated fields in the central header (U, C, O, K), values in a ZIP64 field.
    pub c64: u8,
    /// ZIP64 field after the other extra fields instead of before.
    pub z_last: bool,
    /// Further bytes at the end of the ZIP64 fields, behind the values that are needed.
    pub z_tail: Vec<u8>,
    /// Overrides of the recorded sizes.
    pub rec_u: Option<u64>,
    pub rec_c: Option<u64>,
    /// Local method/flags overrides.
    pub lmethod: Option<u16>,
    pub lflags: Option<u16>,
    /// Keep sizes and CRC in the local header although a descriptor follows.
    pub dd_keep: bool,
    /// CRC and sizes (uncompressed, compressed) of the local header although a descriptor follows.
    pub dd_local: Option<(u32, u64, u64)>,
}
impl E {
    pub fn new(name: &[u8], method: u16, data: &[u8]) -> E {
        E {
            name: name.to_vec(),
            method,
            flags: 0,
            data: data.to_vec(),
            comp: None,
            crc: None,
            dd: Dd::None,
            lx: vec![],
            cx: vec![],
            comment: vec![],
            date: 0x5A21,
            time: 0x6B3D,
            iattr: 0,
            eattr: 0,
            made: 0x031E,
            need: 20,
            disk: 0,
            gap: vec![],
            l64: 0,
            c64: 0,
            z_last: false,
            z_tail: vec![],
            rec_u: None,
            rec_c: None,
            lmethod: None,
            lflags: None,
            dd_keep: false,
            dd_local: None,
        }
    }
    pub fn dd(mut self, d: Dd) -> E {
        self.dd = d;
        self
    }
    pub fn comp_bytes(&self) -> Vec<u8> {
        self.comp.clone().unwrap_or_else(|| encode(self.method, &self.data))
    }
}
#[derive(Clone, Debug)]
pub struct End64 {
    /// Saturated fields of the classic record: bit 0 disk, 1 cd disk, 2 count on disk, 3 count, 4 size, 5 offset.
    pub mask: u8,
    /// Extensible data after the ZIP64 end record.
    pub ext: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct A {
    pub entries: Vec<E>,
    pub comment: Vec<u8>,
    pub gap_cd: Vec<u8>,
    pub end64: Option<End64>,
    /// (disk, cd disk, entries on disk delta, trailing) overrides
    pub disk: u32,
    pub cd_disk: u32,
    pub count_disk: Option<u64>,
    pub count: Option<u64>,
    /// Order of the central directory (indices into entries).
    pub cd_order: Option<Vec<usize>>,
}
#[derive(Clone, Debug, Default)]
pub struct Loc {
    pub lfh: u64,
    pub data: u64,
    pub csize: u64,
    /// First byte after the entry, descriptor included.
    pub end: u64,
    pub cdh: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Built {
    pub bytes: Vec<u8>,
    pub locs: Vec<Loc>,
    pub cd: u64,
    pub cd_size: u64,
    pub z64: Option<u64>,
    pub eocd: u64,
}
fn p16(o: &mut Vec<u8>, v: u16) {
    o.extend(v.to_le_bytes())
}
fn p32(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_le_bytes())
}
fn p64(o: &mut Vec<u8>, v: u64) {
    o.extend(v.to_le_bytes())
}
pub fn tlv(x: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (id, d) in x {
        p16(&mut o, *id);
        p16(&mut o, d.len() as u16);
        o.extend_from_slice(d);
    }
    o
}
fn with_z64(x: &[(u16, Vec<u8>)], z: Vec<u8>, last: bool) -> Vec<(u16, Vec<u8>)> {
    let mut v = x.to_vec();
    if !z.is_empty() {
        if last {
            v.push((1, z));
        } else {
            v.insert(0, (1, z));
        }
    }
    v
}
pub fn lfh_bytes(e: &E, comp_len: u64) -> Vec<u8> {
    let has_dd = e.dd != Dd::None;
    let crc = e.crc.unwrap_or_else(|| crc(&e.data));
    let us = e.rec_u.unwrap_or(e.data.len() as u64);
    let cs = e.rec_c.unwrap_or(comp_len);
    let (lcrc, lu, lc) = if has_dd && !e.dd_keep { e.dd_local.unwrap_or((0, 0, 0)) } else { (crc, us, cs) };
    let mut z = vec![];
    if e.l64 & U != 0 {
        p64(&mut z, lu);
    }
    if e.l64 & C != 0 {
        p64(&mut z, lc);
    }
    z.extend_from_slice(&e.z_tail);
    let x = tlv(&with_z64(&e.lx, z, e.z_last));
    let mut b = vec![];
    p32(&mut b, LFH);
    p16(&mut b, e.need);
    p16(&mut b, e.lflags.unwrap_or(e.flags | if has_dd { 8 } else { 0 }));
    p16(&mut b, e.lmethod.unwrap_or(e.method));
    p16(&mut b, e.time);
    p16(&mut b, e.date);
    p32(&mut b, lcrc);
    p32(&mut b, if e.l64 & C != 0 { !0 } else { lc as u32 });
    p32(&mut b, if e.l64 & U != 0 { !0 } else { lu as u32 });
    p16(&mut b, e.name.len() as u16);
    p16(&mut b, x.len() as u16);
    b.extend_from_slice(&e.name);
    b.extend_from_slice(&x);
    b
}
pub fn cdh_bytes(e: &E, comp_len: u64, off: u64) -> Vec<u8> {
    let has_dd = e.dd != Dd::None;
    let crc = e.crc.unwrap_or_else(|| crc(&e.data));
    let us = e.rec_u.unwrap_or(e.data.len() as u64);
    let cs = e.rec_c.unwrap_or(comp_len);
    let mut z = vec![];
    if e.c64 & U != 0 {
        p64(&mut z, us);
    }
    if e.c64 & C != 0 {
        p64(&mut z, cs);
    }
    if e.c64 & O != 0 {
        p64(&mut z, off);
    }
    if e.c64 & K != 0 {
        p32(&mut z, e.disk as u32);
    }
    z.extend_from_slice(&e.z_tail);
    let x = tlv(&with_z64(&e.cx, z, e.z_last));
    let mut b = vec![];
    p32(&mut b, CDH);
    p16(&mut b, e.made);
    p16(&mut b, e.need);
    p16(&mut b, e.flags | if has_dd { 8 } else { 0 });
    p16(&mut b, e.method);
    p16(&mut b, e.time);
    p16(&mut b, e.date);
    p32(&mut b, crc);
    p32(&mut b, if e.c64 & C != 0 { !0 } else { cs as u32 });
    p32(&mut b, if e.c64 & U != 0 { !0 } else { us as u32 });
    p16(&mut b, e.name.len() as u16);
    p16(&mut b, x.len() as u16);
    p16(&mut b, e.comment.len() as u16);
    p16(&mut b, if e.c64 & K != 0 { !0 } else { e.disk });
    p16(&mut b, e.iattr);
    p32(&mut b, e.eattr);
    p32(&mut b, if e.c64 & O != 0 { !0 } else { off as u32 });
    b.extend_from_slice(&e.name);
    b.extend_from_slice(&x);
    b.extend_from_slice(&e.comment);
    b
}
pub fn end_bytes(a: &A, n: u64, cd: u64, cd_size: u64, here: u64) -> (Vec<u8>, Option<u64>, u64) {
    let mut b = vec![];
    let count = a.count.unwrap_or(n);
    let count_disk = a.count_disk.unwrap_or(count);
    let mut z64 = None;
    let mut mask = 0;
    if let Some(e) = &a.end64 {
        mask = e.mask;
        z64 = Some(here);
        p32(&mut b, Z64E);
        p64(&mut b, 44 + e.ext.len() as u64);
        p16(&mut b, 0x031E);
        p16(&mut b, 45);
        p32(&mut b, a.disk);
        p32(&mut b, a.cd_disk);
        p64(&mut b, count_disk);
        p64(&mut b, count);
        p64(&mut b, cd_size);
        p64(&mut b, cd);
        b.extend_from_slice(&e.ext);
        p32(&mut b, Z64L);
        p32(&mut b, 0);
        p64(&mut b, here);
        p32(&mut b, 1);
    }
    let eocd = here + b.len() as u64;
    let s16 = |bit: u8, v: u64| if mask & bit != 0 { !0u16 } else { v as u16 };
    let s32 = |bit: u8, v: u64| if mask & bit != 0 { !0u32 } else { v as u32 };
    p32(&mut b, EOCD);
    p16(&mut b, s16(1, a.disk as u64));
    p16(&mut b, s16(2, a.cd_disk as u64));
    p16(&mut b, s16(4, count_disk));
    p16(&mut b, s16(8, count));
    p32(&mut b, s32(16, cd_size));
    p32(&mut b, s32(32, cd));
    p16(&mut b, a.comment.len() as u16);
    b.extend_from_slice(&a.comment);
    (b, z64, eocd)
}
pub fn dd_bytes(e: &E, comp_len: u64) -> Vec<u8> {
    let mut b = vec![];
    let crc = e.crc.unwrap_or_else(|| crc(&e.data));
    let us = e.rec_u.unwrap_or(e.data.len() as u64);
    let cs = e.rec_c.unwrap_or(comp_len);
    if e.dd == Dd::None {
        return b;
    }
    if matches!(e.dd, Dd::Sig | Dd::Sig64) {
        p32(&mut b, DDSIG);
    }
    p32(&mut b, crc);
    if matches!(e.dd, Dd::Sig64 | Dd::NoSig64) {
        p64(&mut b, cs);
        p64(&mut b, us);
    } else {
        p32(&mut b, cs as u32);
        p32(&mut b, us as u32);
    }
    b
}
/// `data` and four more bytes that give the whole the CRC `want`.
pub fn forge(data: &[u8], want: u32) -> Vec<u8> {
    let t: Vec<u32> = (0..256u32).map(|i| (0..8).fold(i, |c, _| if c & 1 > 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 })).collect();
    let mut r = !want;
    for _ in 0..4 {
        let i = t.iter().position(|v| v >> 24 == r >> 24).expect("the high bytes of the table are a permutation");
        r = (r ^ t[i]) << 8 | i as u32;
    }
    let mut d = data.to_vec();
    d.extend((r ^ !crc(data)).to_le_bytes());
    assert_eq!(crc(&d), want);
    d
}
pub fn build(a: &A) -> Built {
    let mut o = Built::default();
    let b = &mut o.bytes;
    for e in &a.entries {
        b.extend_from_slice(&e.gap);
        let comp = e.comp_bytes();
        let lfh = b.len() as u64;
        b.extend(lfh_bytes(e, comp.len() as u64));
        let data = b.len() as u64;
        b.extend_from_slice(&comp);
        b.extend(dd_bytes(e, comp.len() as u64));
        o.locs.push(Loc { lfh, data, csize: comp.len() as u64, end: b.len() as u64, cdh: 0 });
    }
    b.extend_from_slice(&a.gap_cd);
    o.cd = b.len() as u64;
    let order: Vec<usize> = a.cd_order.clone().unwrap_or_else(|| (0..a.entries.len()).collect());
    for &i in &order {
        o.locs[i].cdh = b.len() as u64;
        b.extend(cdh_bytes(&a.entries[i], o.locs[i].csize, o.locs[i].lfh));
    }
    o.cd_size = b.len() as u64 - o.cd;
    let (e, z, eo) = end_bytes(a, order.len() as u64, o.cd, o.cd_size, b.len() as u64);
    b.extend(e);
    o.z64 = z;
    o.eocd = eo;
    o
}

// ---------------------------------------------------------------- strict parser

pub trait View {
    fn size(&self) -> u64;
    fn get(&self, off: u64, n: usize) -> Result<Vec<u8>, String>;
}
impl View for [u8] {
    fn size(&self) -> u64 {
        self.len() as u64
    }
    fn get(&self, off: u64, n: usize) -> Result<Vec<u8>, String> {
        let end = off.checked_add(n as u64).ok_or("offset overflow")?;
        if end > self.len() as u64 {
            return Err(format!("structure at {off}+{n} lies beyond the archive end {}", self.len()));
        }
        Ok(self[off as usize..end as usize].to_vec())
    }
}
impl View for Sparse {
    fn size(&self) -> u64 {
        self.len
    }
    fn get(&self, off: u64, n: usize) -> Result<Vec<u8>, String> {
        let mut b = vec![0; n];
        if self.read_at(off, &mut b) != n {
            return Err(format!("structure at {off}+{n} lies beyond the archive end {}", self.len));
        }
        Ok(b)
    }
}
pub fn g16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn g64(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
pub fn parse_tlv(b: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        if p + 4 > b.len() {
            return Err(format!("{} stray bytes at the end of the extra fields", b.len() - p));
        }
        let (id, n) = (g16(b, p), g16(b, p + 2) as usize);
        if p + 4 + n > b.len() {
            return Err(format!("extra field {id:#x} of size {n} exceeds the extra data"));
        }
        v.push((id, b[p + 4..p + 4 + n].to_vec()));
        p += 4 + n;
    }
    Ok(v)
}
#[derive(Clone, Debug, PartialEq)]
pub struct PEntry {
    pub name: Vec<u8>,
    pub comment: Vec<u8>,
    pub method: u16,
    pub flags: u16,
    pub crc: u32,
    pub csize: u64,
    pub usize_: u64,
    pub off: u64,
    pub data: u64,
    pub end: u64,
    pub lx: Vec<(u16, Vec<u8>)>,
    pub cx: Vec<(u16, Vec<u8>)>,
    pub date: u16,
    pub time: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub need: u16,
    pub made: u16,
    pub has_z64: bool,
    /// Descriptor has 32-bit saturated sizes although the entry uses ZIP64.
    pub dd_short: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub entries: Vec<PEntry>,
    pub zip64: bool,
    pub cd: u64,
    pub cd_size: u64,
}
fn chk(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
/// Parses an archive that must follow the layout exactly; `comment` is the expected archive comment.
/// With `tiled`, entries must lie one after another without gaps from byte 0 to the directory.
pub fn parse<V: View + ?Sized>(v: &V, comment: &[u8], tiled: bool) -> Result<Parsed, String> {
    let len = v.size();
    let eo = len.checked_sub(22 + comment.len() as u64).ok_or("archive shorter than its end record")?;
    let e = v.get(eo, 22)?;
    chk(g32(&e, 0) == EOCD, || format!("no end record at {eo}"))?;
    chk(g16(&e, 20) as usize == comment.len(), || format!("comment length field {} for {} bytes", g16(&e, 20), comment.len()))?;
    chk(v.get(eo + 22, comment.len())? == comment, || "archive comment differs".into())?;
    chk(g16(&e, 4) == 0 && g16(&e, 6) == 0, || "disk numbers not zero".into())?;
    chk(g16(&e, 8) == g16(&e, 10), || "entry counts differ".into())?;
    let mut count = g16(&e, 10) as u64;
    let mut cd_size = g32(&e, 12) as u64;
    let mut cd = g32(&e, 16) as u64;
    let mut cd_end = eo;
    let mut zip64 = false;
    if eo >= 20 {
        let l = v.get(eo - 20, 20)?;
        if g32(&l, 0) == Z64L {
            zip64 = true;
            chk(g32(&l, 4) == 0, || "locator disk not zero".into())?;
            chk(g32(&l, 16) == 1, || format!("locator says {} disks", g32(&l, 16)))?;
            let zo = g64(&l, 8);
            chk(zo + 56 == eo - 20, || format!("ZIP64 end record at {zo}, locator at {}", eo - 20))?;
            let z = v.get(zo, 56)?;
            chk(g32(&z, 0) == Z64E, || "no ZIP64 end record where the locator points".into())?;
            chk(g64(&z, 4) == 44, || format!("ZIP64 end record size {}", g64(&z, 4)))?;
            chk(g32(&z, 16) == 0 && g32(&z, 20) == 0, || "ZIP64 disk numbers not zero".into())?;
            chk(g64(&z, 24) == g64(&z, 32), || "ZIP64 entry counts differ".into())?;
            let (zc, zs, zf) = (g64(&z, 32), g64(&z, 40), g64(&z, 48));
            chk(count == 0xFFFF || count == zc, || format!("entry count {count} in the end record, {zc} in ZIP64"))?;
            chk(cd_size == 0xFFFFFFFF || cd_size == zs, || format!("directory size {cd_size} in the end record, {zs} in ZIP64"))?;
            chk(cd == 0xFFFFFFFF || cd == zf, || format!("directory offset {cd} in the end record, {zf} in ZIP64"))?;
            chk(count == zc.min(0xFFFF) && cd_size == zs.min(0xFFFFFFFF) && cd == zf.min(0xFFFFFFFF), || "classic end fields saturated needlessly".into())?;
            count = zc;
            cd_size = zs;
            cd = zf;
            cd_end = zo;
        }
    }
    chk(cd + cd_size == cd_end, || format!("directory {cd}+{cd_size} does not end at {cd_end}"))?;
    let cdb = v.get(cd, usize::try_from(cd_size).map_err(|_| "huge directory")?)?;
    let mut p = 0usize;
    let mut entries = Vec::new();
    let mut expect_off = 0u64;
    for i in 0..count {
        chk(p + 46 <= cdb.len(), || format!("directory ends before entry {i} of {count}"))?;
        let h = &cdb[p..];
        chk(g32(h, 0) == CDH, || format!("no central header for entry {i} at {}", cd + p as u64))?;
        let (nl, xl, cl) = (g16(h, 28) as usize, g16(h, 30) as usize, g16(h, 32) as usize);
        chk(h.len() >= 46 + nl + xl + cl, || format!("central header {i} exceeds the directory"))?;
        let name = h[46..46 + nl].to_vec();
        let cx = parse_tlv(&h[46 + nl..46 + nl + xl]).map_err(|e| format!("central header {i}: {e}"))?;
        let comment = h[46 + nl + xl..46 + nl + xl + cl].to_vec();
        let (mut cs, mut us, mut off) = (g32(h, 20) as u64, g32(h, 24) as u64, g32(h, 42) as u64);
        let classic_cs = g32(h, 20);
        let classic_us = g32(h, 24);
        chk(g16(h, 34) == 0, || format!("central header {i}: disk {}", g16(h, 34)))?;
        let z: Vec<&(u16, Vec<u8>)> = cx.iter().filter(|x| x.0 == 1).collect();
        chk(z.len() <= 1, || format!("central header {i}: {} ZIP64 fields", z.len()))?;
        if let Some((_, z)) = z.first() {
            let mut q = 0;
            for f in [&mut us, &mut cs, &mut off] {
                if *f == 0xFFFFFFFF {
                    chk(q + 8 <= z.len(), || format!("central header {i}: ZIP64 field too short ({})", z.len()))?;
                    *f = g64(z, q);
                    q += 8;
                }
            }
            chk(q == z.len(), || format!("central header {i}: ZIP64 field has {} bytes, {q} used", z.len()))?;
        }
        if tiled {
            chk(off == expect_off, || format!("entry {i} at {off}, previous entry ends at {expect_off}"))?;
        }
        // local header
        let l = v.get(off, 30).map_err(|e| format!("entry {i}: {e}"))?;
        chk(g32(&l, 0) == LFH, || format!("entry {i}: no local header at {off}"))?;
        let (lnl, lxl) = (g16(&l, 26) as usize, g16(&l, 28) as usize);
        chk(v.get(off + 30, lnl)? == name, || format!("entry {i}: local and central names differ"))?;
        let lx = parse_tlv(&v.get(off + 30 + lnl as u64, lxl)?).map_err(|e| format!("local header {i}: {e}"))?;
        let flags = g16(h, 8);
        chk(g16(&l, 4) == g16(h, 6), || format!("entry {i}: versions differ"))?;
        chk(g16(&l, 6) == flags, || format!("entry {i}: local flags {:#x}, central {:#x}", g16(&l, 6), flags))?;
        chk(g16(&l, 8) == g16(h, 10), || format!("entry {i}: methods differ"))?;
        chk(g16(&l, 10) == g16(h, 12) && g16(&l, 12) == g16(h, 14), || format!("entry {i}: dates differ"))?;
        let crc = g32(h, 16);
        let data = off + 30 + lnl as u64 + lxl as u64;
        let mut end = data + cs;
        let lz: Vec<&(u16, Vec<u8>)> = lx.iter().filter(|x| x.0 == 1).collect();
        chk(lz.len() <= 1, || format!("local header {i}: {} ZIP64 fields", lz.len()))?;
        let mut dd_short = false;
        if flags & 8 == 0 {
            let (mut lc, mut lu) = (g32(&l, 18) as u64, g32(&l, 22) as u64);
            if let Some((_, z)) = lz.first() {
                let mut q = 0;
                for f in [&mut lu, &mut lc] {
                    if *f == 0xFFFFFFFF {
                        chk(q + 8 <= z.len(), || format!("local header {i}: ZIP64 field too short"))?;
                        *f = g64(z, q);
                        q += 8;
                    }
                }
            }
            chk(g32(&l, 14) == crc, || format!("entry {i}: local CRC differs"))?;
            chk(lc == cs && lu == us, || format!("entry {i}: local sizes {lc}/{lu}, central {cs}/{us}"))?;
        } else {
            let d = v.get(end, 16).map_err(|e| format!("entry {i} descriptor: {e}"))?;
            chk(g32(&d, 0) == DDSIG, || format!("entry {i}: no descriptor at {end}"))?;
            chk(g32(&d, 4) == crc, || format!("entry {i}: descriptor CRC differs"))?;
            chk(g32(&d, 8) == classic_cs, || format!("entry {i}: descriptor compressed size {} vs {}", g32(&d, 8), classic_cs))?;
            chk(g32(&d, 12) == classic_us, || format!("entry {i}: descriptor uncompressed size {} vs {}", g32(&d, 12), classic_us))?;
            dd_short = !z.is_empty();
            end += 16;
        }
        chk(end <= cd, || format!("entry {i} ends at {end}, inside the directory at {cd}"))?;
        expect_off = end;
        entries.push(PEntry {
            name,
            comment,
            method: g16(h, 10),
            flags,
            crc,
            csize: cs,
            usize_: us,
            off,
            data,
            end,
            has_z64: !z.is_empty() || !lz.is_empty(),
            lx,
            cx: cx.clone(),
            date: g16(h, 14),
            time: g16(h, 12),
            iattr: g16(h, 36),
            eattr: g32(h, 38),
            need: g16(h, 6),
            made: g16(h, 4),
            dd_short,
        });
        p += 46 + nl + xl + cl;
    }
    chk(p == cdb.len(), || format!("{} bytes after the last central header", cdb.len() - p))?;
    if tiled {
        chk(expect_off == cd, || format!("entries end at {expect_off}, directory starts at {cd}"))?;
    }
    Ok(Parsed { entries, zip64, cd, cd_size })
}
