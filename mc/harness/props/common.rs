//! Expectations shared by the property checks.
use crate::engine::*;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, E};
use crate::wops::*;
use std::sync::Arc;

pub const FULL: [u16; 6] = [rz::STORED, rz::DEFLATE, rz::ZSTD, rz::BZ, rz::LZMA, rz::XZ];
pub const FAST: [u16; 4] = [rz::STORED, rz::DEFLATE, rz::ZSTD, rz::BZ];

/// The text a reader must report for stored bytes.
pub fn want_text(basic: &[u8], flag: bool, id: u16, extra: &[(u16, Vec<u8>)]) -> Txt {
    let valid = std::str::from_utf8(basic).is_ok();
    if flag {
        return Txt { utf8: valid, bytes: basic.to_vec(), alt: None };
    }
    for (i, d) in extra {
        if *i == id && d.len() >= 5 && d[0] == 1 && rz::g32(d, 1) == rz::crc(basic) && std::str::from_utf8(&d[5..]).is_ok() {
            return Txt { utf8: true, bytes: d[5..].to_vec(), alt: Some(basic.to_vec()) };
        }
    }
    Txt { utf8: basic.is_ascii(), bytes: basic.to_vec(), alt: None }
}
pub const UPATH: u16 = 0x7075;
pub const UCOMM: u16 = 0x6375;
pub fn ufield(basic: &[u8], unicode: &[u8]) -> Vec<u8> {
    let mut d = vec![1];
    d.extend(rz::crc(basic).to_le_bytes());
    d.extend_from_slice(unicode);
    d
}
/// What a reader with access to the central directory reports for a reference entry.
pub fn want_meta(e: &E, csize: u64, off: u64) -> Meta {
    let flag = e.flags & 0x800 != 0;
    Meta {
        name: want_text(&e.name, flag, UPATH, &e.cx),
        comment: want_text(&e.comment, flag, UCOMM, &e.cx),
        method: e.method,
        crc: e.crc.unwrap_or_else(|| rz::crc(&e.data)),
        csize: e.rec_c.unwrap_or(csize),
        usize_: e.rec_u.unwrap_or(e.data.len() as u64),
        date: dos_parts(e.date, e.time),
        iattr: e.iattr,
        eattr: e.eattr,
        perms: Some((e.eattr >> 16) as u16),
        // Header, name and central extra fields.
        off: Some((off, 30 + (rz::cdh_bytes(e, csize, off).len() - 46 - e.comment.len()) as u64)),
    }
}
/// Compares what a streaming reader reports with the local header.
pub fn check_stream_meta(e: &E, csize: u64, m: &Meta) -> Result<(), String> {
    let flag = e.lflags.unwrap_or(e.flags) & 0x800 != 0;
    let name = want_text(&e.name, flag, UPATH, &e.lx);
    if m.name != name {
        return Err(format!("streamed name {:?}, expected {:?}", m.name, name));
    }
    if m.method != e.method || m.date != dos_parts(e.date, e.time) {
        return Err(format!("streamed method/date {}/{:?}", m.method, m.date));
    }
    if e.dd == Dd::None || e.dd_keep {
        let crc = e.crc.unwrap_or_else(|| rz::crc(&e.data));
        if m.crc != crc || m.csize != csize || m.usize_ != e.data.len() as u64 {
            return Err(format!("streamed crc/sizes {:#x}/{}/{}, expected {:#x}/{}/{}", m.crc, m.csize, m.usize_, crc, csize, e.data.len()));
        }
    }
    Ok(())
}
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let p = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("expected {} bytes, got {}, first difference at {}", a.len(), b.len(), p)
}

/// All interesting payload sizes: small ones exhaustively, then around every buffer size in play.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for b in [64usize, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072] {
        v.extend([b - 1, b, b + 1]);
    }
    v.push(70000);
    v.retain(|n| *n <= max);
    v
}

/// Contents of every entry as seen through a random-access front end, read with a checked read or not.
pub fn expect_contents(bytes: &Arc<Vec<u8>>, ops: &[&WOp], front: Front, attach: Attach, style: Style) -> R {
    let o = observe(front, attach, style, bytes).map_err(|e| format!("{front:?}: open failed: {e}"))?;
    ensure!(o.entries.len() == ops.len(), "{front:?}: {} entries written, {} found", ops.len(), o.entries.len());
    for (i, (e, op)) in o.entries.iter().zip(ops).enumerate() {
        match &e.data {
            Err(x) => bail!("{front:?}/{attach:?}/{style:?}: entry {i} ({:?}): {x}", op.kind),
            Ok(d) => {
                ensure!(*d == *op.data, "{front:?}/{attach:?}/{style:?}: entry {i} ({:?}): {}", op.kind, diff(&op.data, d))
            }
        }
        if let Some(h) = e.hash {
            ensure!(h == rz::crc(&op.data), "entry {i}: hash {h:#x} of contents with CRC {:#x}", rz::crc(&op.data));
        }
    }
    Ok(())
}

/// Every sequence over `alpha` of length 0..=depth, by index.
pub struct Seqs {
    pub n: u64,
    pub depth: usize,
}
impl Seqs {
    pub fn total(&self) -> u64 {
        (0..=self.depth).map(|d| self.n.pow(d as u32)).sum()
    }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut d = 0;
        loop {
            let c = self.n.pow(d);
            if i < c {
                break;
            }
            i -= c;
            d += 1;
        }
        let mut v = vec![];
        for _ in 0..d {
            v.push((i % self.n) as usize);
            i /= self.n;
        }
        v
    }
}

/// The alphabet of entry writes used for histories.
pub fn alphabet() -> Vec<WOp> {
    use Kind::*;
    let p = |k, n| pattern(k, n);
    let mut v = vec![
        WOp::new(Whole, rz::STORED, "a.txt", b"alpha"),
        WOp::new(Whole, rz::DEFLATE, "b/b.txt", &p(3, 300)),
        WOp::new(Whole, rz::STORED, "empty", b""),
        WOp::new(Stream, rz::STORED, "s.bin", &p(2, 70)),
        WOp::new(Stream, rz::DEFLATE, "d.bin", &p(3, 5000)),
        WOp::new(Stream, rz::ZSTD, "z.bin", &p(1, 900)),
        WOp::new(Stream, rz::DEFLATE, "e", b""),
        WOp::new(WholePre, rz::DEFLATE, "pw", &p(3, 120)),
        WOp::new(WholePre, rz::STORED, "ps", &p(4, 60)),
        WOp::new(StreamPre, rz::DEFLATE, "sp", &p(1, 200)),
        WOp::new(StreamPre, rz::STORED, "ss", &p(4, 33)),
        WOp::new(Whole, rz::BZ, "bz", &p(3, 64)),
    ];
    v[4].cut = Cut::By(777);
    v[3].cut = Cut::At(vec![0, 1, 1, 69]);
    v[3].flush = 0b101;
    v[9].cut = Cut::By(5);
    v[6].cut = Cut::Lazy;
    v[5].cut = Cut::Vec(100);
    v[10].cut = Cut::Vec(5);
    // texts that need extra fields
    let mut t = WOp::new(Whole, rz::STORED, "", b"name with an alternative");
    t.name = T::Alt("naïve.txt".into(), b"na\xEFve.txt".to_vec());
    t.comment = T::Utf8("c".into());
    v.push(t);
    let mut t = WOp::new(Stream, rz::DEFLATE, "", b"raw name, UTF-8 comment");
    t.name = T::Raw(vec![0x82, 0xA0, b'/', b'x']);
    t.comment = T::Utf8("комментарий".into());
    v.push(t);
    v
}

fn retext(e: &mut E, name: &[u8], data: &[u8]) {
    e.name = name.to_vec();
    set_data(e, data);
}
/// Replaces the contents, and the stored bytes with them.
pub fn set_data(e: &mut E, data: &[u8]) {
    e.data = data.to_vec();
    if !super::c03::METHODS.contains(&e.method) {
        e.comp = Some(data.to_vec());
        return;
    }
    e.comp = Some(cached_encode(e.method, &Arc::new(data.to_vec())));
}
pub type Guise<X> = (&'static str, fn(&mut X));
/// Ways for an entry to look unusual in everything but its contents' encoding.
pub const GUISES: [Guise<E>; 50] = [
    ("plain", |_| ()),
    ("directory", |e| e.name = b"d/".to_vec()),
    ("directory with attributes", |e| {
        e.name = b"some/dir/".to_vec();
        e.eattr = (0o040755 << 16) | 0x10;
    }),
    ("empty directory", |e| retext(e, b"d/", b"")),
    ("root", |e| e.name = b"/".to_vec()),
    ("no name", |e| e.name = vec![]),
    ("parent", |e| e.name = b"../up".to_vec()),
    ("absolute", |e| e.name = b"/abs".to_vec()),
    ("dots", |e| e.name = b"..".to_vec()),
    ("backslash", |e| e.name = b"a\\b\\".to_vec()),
    ("mimetype", |e| e.name = b"mimetype".to_vec()),
    ("manifest", |e| e.name = b"META-INF/MANIFEST.MF".to_vec()),
    ("archive in an archive", |e| e.name = b"inner.zip".to_vec()),
    ("long directory", |e| e.name = [&[b'n'; 300][..], b"/"].concat()),
    ("longest name", |e| e.name = vec![b'n'; 65535]),
    ("raw directory", |e| e.name = vec![0xFF, b'/']),
    ("raw", |e| e.name = vec![0x82, 0xA0, 0x80]),
    ("flagged directory", |e| {
        e.name = "ü/".as_bytes().to_vec();
        e.flags |= 0x800;
    }),
    ("flagged ASCII", |e| e.flags |= 0x800),
    ("signature name", |e| e.name = b"PK\x03\x04PK\x01\x02".to_vec()),
    ("descriptor name", |e| e.name = b"PK\x07\x08".to_vec()),
    ("NUL", |e| e.name = b"a\0b".to_vec()),
    ("DOS directory", |e| e.eattr = 0x10),
    ("link", |e| e.eattr = 0o120777 << 16),
    ("all attributes", |e| {
        e.eattr = !0;
        e.iattr = !0;
    }),
    ("text", |e| e.iattr = 1),
    ("no date", |e| {
        e.date = 0;
        e.time = 0;
    }),
    ("last date", |e| {
        e.date = !0;
        e.time = !0;
    }),
    ("DOS", |e| e.made = 0),
    ("NTFS", |e| e.made = 0x0A3F),
    ("needs 10", |e| e.need = 10),
    ("needs 45", |e| e.need = 45),
    ("needs 63", |e| e.need = 63),
    ("level bits", |e| e.flags |= 6),
    ("comment", |e| e.comment = b"comment PK\x05\x06".to_vec()),
    ("long comment", |e| e.comment = vec![b'c'; 40000]),
    ("raw comment", |e| e.comment = vec![0xFF, 0x80]),
    ("local field", |e| e.lx = vec![(0x5455, vec![3; 9])]),
    ("central field", |e| e.cx = vec![(0x5455, vec![3; 5])]),
    ("fields", |e| {
        e.lx = vec![(0x5455, vec![3; 13]), (0x7875, vec![1; 11])];
        e.cx = vec![(0x7875, vec![1; 11]), (0x5455, vec![3; 5]), (0xCAFE, vec![])];
    }),
    ("long field", |e| {
        e.lx = vec![(0x9999, vec![0x50; 60000])];
        e.cx = vec![(0x9999, vec![0x4B; 50000])];
    }),
    ("other name", |e| {
        e.name = b"na\xEFve".to_vec();
        e.lx = vec![(UPATH, ufield(&e.name, "naïve/".as_bytes()))];
        e.cx = e.lx.clone();
    }),
    ("other comment", |e| {
        e.comment = b"na\xEFve".to_vec();
        e.cx = vec![(UCOMM, ufield(&e.comment, "naïve".as_bytes()))];
    }),
    ("stale other name", |e| {
        e.lx = vec![(UPATH, ufield(b"renamed", b"old/"))];
        e.cx = e.lx.clone();
    }),
    ("local ZIP64", |e| {
        e.l64 = rz::U | rz::C;
        e.need = 45;
    }),
    ("central ZIP64", |e| {
        e.c64 = rz::U | rz::C | rz::O;
        e.need = 45;
    }),
    ("ZIP64", |e| {
        e.l64 = rz::U | rz::C;
        e.c64 = rz::U | rz::C;
        e.z_last = true;
        e.lx = vec![(0x5455, vec![3; 9])];
        e.cx = vec![(0x5455, vec![3; 5])];
    }),
    ("ZIP64 offset", |e| e.c64 = rz::O),
    ("empty", |e| set_data(e, b"")),
    ("signatures", |e| set_data(e, b"PK\x03\x04PK\x07\x08PK\x01\x02PK\x05\x06PK\x06\x06PK\x06\x07")),
];
/// The same for entries to be written.
pub const WGUISES: [Guise<WOp>; 38] = [
    ("plain", |_| ()),
    ("directory", |o| o.name = T::Utf8("d/".into())),
    ("directory with attributes", |o| {
        o.name = T::Utf8("some/dir/".into());
        o.eattr = 0x10;
        o.perms = Some(0o040755);
    }),
    ("empty directory", |o| {
        o.name = T::Utf8("d/".into());
        o.data = Arc::new(vec![]);
    }),
    ("root", |o| o.name = T::Utf8("/".into())),
    ("no name", |o| o.name = T::Utf8(String::new())),
    ("parent", |o| o.name = T::Utf8("../up".into())),
    ("absolute", |o| o.name = T::Utf8("/abs".into())),
    ("backslash", |o| o.name = T::Utf8("a\\b\\".into())),
    ("mimetype", |o| o.name = T::Utf8("mimetype".into())),
    ("long directory", |o| o.name = T::Utf8("n".repeat(300) + "/")),
    ("longest name", |o| o.name = T::Utf8("n".repeat(65535))),
    ("raw", |o| o.name = T::Raw(vec![0x82, 0xA0, 0x80])),
    ("raw directory", |o| o.name = T::Raw(vec![0xFF, b'/'])),
    ("other name", |o| o.name = T::Alt("naïve".into(), b"na\xEFve".to_vec())),
    ("other directory", |o| o.name = T::Alt("naïve/".into(), b"na\xEFve/".to_vec())),
    ("same other name", |o| o.name = T::Alt("same".into(), b"same".to_vec())),
    ("accented", |o| o.name = T::Utf8("ü/é".into())),
    ("signature name", |o| o.name = T::Utf8("PK\x03\x04PK\x01\x02".into())),
    ("NUL", |o| o.name = T::Utf8("a\0b".into())),
    ("comment", |o| o.comment = T::Utf8("comment PK\x05\x06".into())),
    ("long comment", |o| o.comment = T::Utf8("c".repeat(40000))),
    ("longest comment", |o| o.comment = T::Utf8("c".repeat(65535))),
    ("raw comment", |o| o.comment = T::Raw(vec![0xFF, 0x80])),
    ("other comment", |o| o.comment = T::Alt("naïve".into(), b"na\xEFve".to_vec())),
    ("raw texts", |o| {
        o.name = T::Raw(vec![0xFE]);
        o.comment = T::Raw(vec![0xFF]);
    }),
    ("other texts", |o| {
        o.name = T::Alt("naïve".into(), b"na\xEFve".to_vec());
        o.comment = T::Alt("ça".into(), b"\xE7a".to_vec());
    }),
    ("first date", |o| {
        o.date = 0x21;
        o.time = 0;
    }),
    ("last date", |o| {
        o.date = 0xFF9F;
        o.time = 0xBF7D;
    }),
    ("text", |o| o.iattr = 1),
    ("link", |o| o.eattr = 0o120777 << 16),
    ("all attributes", |o| {
        o.eattr = !0;
        o.iattr = !0;
    }),
    ("no permissions", |o| {
        o.eattr = !0;
        o.perms = Some(0);
    }),
    ("lowest level", |o| o.level = (o.method != rz::BZ).then_some(0)),
    ("other level", |o| o.level = Some(1)),
    ("preset", |o| o.preset = true),
    ("empty", |o| o.data = Arc::new(vec![])),
    ("signatures", |o| o.data = Arc::new(b"PK\x03\x04PK\x07\x08PK\x01\x02PK\x05\x06PK\x06\x06PK\x06\x07".to_vec())),
];
/// Do the texts and the fields they need fit into the headers?
pub fn fits(o: &WOp) -> bool {
    let flag = matches!(o.name, T::Utf8(_)) && matches!(o.comment, T::Utf8(_));
    let field = |t: &T| match t {
        T::Utf8(s) | T::Alt(s, _) if !s.is_empty() && !flag => 9 + s.len(),
        _ => 0,
    };
    let (n, c) = (o.name.basic().len(), o.comment.basic().len());
    n <= 65535 && c <= 65535 && field(&o.name) + field(&o.comment) + 28 <= 65535
}
pub fn guised(mut e: E, g: usize) -> E {
    GUISES[g].1(&mut e);
    e
}
pub fn wguised(mut o: WOp, g: usize) -> WOp {
    WGUISES[g].1(&mut o);
    o
}
