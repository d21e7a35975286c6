//! Copying entries keeps extra fields and never damages the archive.
use super::c03::ent;
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, PEntry, A, C, E, U};
use crate::wops::*;
use async_zip::base::read::{mem, stream};
use async_zip::{ZipEntry, ZipEntryBuilder};
use futures_lite::io::AsyncWriteExt;
use std::sync::Arc;

/// One copy of an entry into a new archive.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
struct Step {
    kind: Kind,
    mode: Mode,
    /// Take the entry from the streaming reader instead of the central directory.
    streamed: bool,
    rename: usize,
    recomment: usize,
    /// Recompress with the other method.
    other: bool,
}
const OLD: &[u8] = b"old\xE9name";
fn texts(k: usize) -> Option<T> {
    match k {
        0 => None,
        1 => Some(T::Utf8("neu/ü".into())),
        2 => Some(T::Raw(vec![0xFF, 0x80, b'r'])),
        3 => Some(T::Alt("alternativ-é".into(), b"alternativ-\xE9".to_vec())),
        4 => Some(T::Utf8(String::new())),
        // The bytes that an earlier name had in the name field.
        5 => Some(T::Raw(OLD.to_vec())),
        6 => Some(T::Raw(b"alternativ-\xE9".to_vec())),
        _ => Some(T::Utf8("ascii".into())),
    }
}
/// What is known about the entry in the current archive.
#[derive(Clone)]
struct Cur {
    bytes: Arc<Vec<u8>>,
    index: usize,
    method: u16,
    data: Arc<Vec<u8>>,
    /// Extra fields that must survive, in local and central header.
    lx: Vec<(u16, Vec<u8>)>,
    cx: Vec<(u16, Vec<u8>)>,
    comp: Vec<u8>,
    /// The streaming reader can reach and pass the entry.
    streamable: bool,
    meta: Meta,
}
fn kept(x: &[(u16, Vec<u8>)]) -> Vec<(u16, Vec<u8>)> {
    x.iter().filter(|(id, d)| *id != 1 && !d.is_empty() && !((*id == UPATH || *id == UCOMM) && d[0] == 1)).cloned().collect()
}
fn source(e: &E) -> Result<Cur, Fail> {
    let mut e = e.clone();
    e.comp = Some(if e.method == rz::DEFLATE64 { rz::encode(rz::DEFLATE64, &e.data) } else { cached_encode(e.method, &Arc::new(e.data.clone())) });
    let a = A { entries: vec![ent(b"before", rz::STORED, b"0123456789"), e.clone()], ..Default::default() };
    let b = rz::build(&a);
    let bytes = Arc::new(b.bytes);
    let meta = want_meta(&e, b.locs[1].csize, b.locs[1].lfh);
    Ok(Cur {
        bytes,
        index: 1,
        method: e.method,
        data: Arc::new(e.data.clone()),
        lx: kept(&e.lx),
        cx: kept(&e.cx),
        comp: e.comp.clone().unwrap_or_default(),
        streamable: e.dd == Dd::None || (e.method == rz::DEFLATE && !matches!(e.dd, Dd::Sig64 | Dd::NoSig64)),
        meta,
    })
}
async fn from_seek(c: &Cur) -> Result<ZipEntry, Fail> {
    let z = mem::ZipFileReader::new(c.bytes.to_vec()).await.map_err(|e| format!("opening the source: {}", ek(&e)))?;
    let e: &ZipEntry = z.file().entries().get(c.index).ok_or("entry missing")?;
    Ok(e.clone())
}
async fn from_stream(c: &Cur) -> Result<ZipEntry, Fail> {
    let mut z = stream::ZipFileReader::new(c.bytes.as_slice());
    for _ in 0..c.index {
        let r = z.next_without_entry().await.map_err(|e| format!("streaming the source: {}", ek(&e)))?.ok_or("stream ended")?;
        z = r.skip().await.map_err(|e| format!("streaming the source: {}", ek(&e)))?;
    }
    let r = z.next_with_entry().await.map_err(|e| format!("streaming the source: {}", ek(&e)))?.ok_or("stream ended")?;
    let e: ZipEntry = r.reader().entry().clone();
    Ok(e)
}
fn same_text(was: &Txt, got: &Txt) -> bool {
    was.utf8 == got.utf8 && was.bytes == got.bytes && (was.alt.is_none() || was.alt == got.alt)
}
/// Executes one copy and checks the new archive.
fn copy(c: &Cur, s: Step, l: &mut Local) -> Result<Cur, Fail> {
    let streamed = s.streamed && c.streamable;
    let entry = now(async {
        if streamed {
            from_stream(c).await
        } else {
            from_seek(c).await
        }
    })?;
    let mut want = meta(&entry);
    if streamed {
        // The entry itself is judged by C03; what the copy has to keep is what the reader reported.
        ensure!(same_text(&c.meta.name, &want.name) || c.lx != c.cx, "streamed name {:?}, expected {:?}", want.name, c.meta.name);
    }
    let mut extra = if streamed { c.lx.clone() } else { c.cx.clone() };
    let pre = matches!(s.kind, Kind::WholePre | Kind::StreamPre);
    let mut b = ZipEntryBuilder::from(entry);
    let name = texts(s.rename);
    let comment = texts(s.recomment);
    if let Some(t) = &name {
        b = b.filename(t.zs());
    }
    if let Some(t) = &comment {
        b = b.comment(t.zs());
    }
    let mut method = c.method;
    if s.other && !pre {
        method = if method == rz::STORED { rz::DEFLATE } else { rz::STORED };
        b = b.compression(comp(method));
    }
    if pre && streamed {
        b = b.crc32(rz::crc(&c.data)).uncompressed_size(c.data.len() as u64);
    }
    // Another entry before and after.
    let (first, last) = (WOp::new(Kind::Whole, rz::STORED, "first", b"123"), WOp::new(Kind::Whole, rz::STORED, "last", b"4567"));
    let bytes = now(async {
        let mut w = writer(Vec::new(), s.mode);
        apply(&mut w, &first).await?;
        match s.kind {
            Kind::Whole => w.write_entry_whole(b, &c.data).await?,
            Kind::WholePre => w.write_entry_whole_precompressed(b, &c.comp).await?,
            Kind::Stream => {
                let mut x = w.write_entry_stream(b).await?;
                x.write_all(&c.data).await?;
                x.close().await?
            }
            Kind::StreamPre => {
                let mut x = w.write_entry_stream_precompressed(b).await?;
                x.write_all(&c.comp).await?;
                x.close().await?
            }
        }
        apply(&mut w, &last).await?;
        w.close().await
    })
    .map_err(|e| format!("writing the copy: {}", ek(&e)))?;
    l.step(5);
    let p = rz::parse(bytes.as_slice(), b"", true).map_err(|e| format!("the copy is no sound archive: {e}"))?;
    ensure!(p.entries.len() == 3, "{} entries in the copy", p.entries.len());
    let q: &PEntry = &p.entries[1];
    let stored = bytes[q.data as usize..(q.data + q.csize) as usize].to_vec();
    if pre {
        ensure!(stored == c.comp, "raw data changed");
    } else if method != rz::DEFLATE64 {
        let plain = rz::decode(method, &stored).map_err(|e| format!("independent decoder: {e}"))?;
        ensure!(plain == *c.data, "recompressed data differ");
    }
    for (side, x) in [("local", &q.lx), ("central", &q.cx)] {
        ensure!(kept(x) == extra, "{side} extra fields {:x?}, expected {:x?}", kept(x), extra);
    }
    if s.mode == Mode::Never {
        ensure!(!q.has_z64, "ZIP64 field although forbidden");
    }
    // Names, sizes, offsets and contents through the reader.
    let bytes = Arc::new(bytes);
    let o = observe(Front::Mem, Attach::With, Style::Checked(0), &bytes).map_err(|e| format!("opening the copy: {e}"))?;
    ensure!(o.entries.len() == 3, "{} entries read from the copy", o.entries.len());
    for (i, d) in [(0, &b"123"[..]), (1, &c.data), (2, &b"4567"[..])] {
        match &o.entries[i].data {
            Ok(x) => ensure!(x == d, "entry {i} of the copy: {}", diff(d, x)),
            Err(e) => bail!("entry {i} of the copy: {e}"),
        }
        let m = o.entries[i].meta.as_ref().ok_or("no metadata")?;
        ensure!(
            m.usize_ == d.len() as u64 && m.csize == p.entries[i].csize && m.off.map(|o| o.0) == Some(p.entries[i].off) && m.crc == rz::crc(d),
            "entry {i} of the copy: {m:?}, parsed {:?}",
            p.entries[i]
        );
    }
    let m = o.entries[1].meta.clone().ok_or("no metadata")?;
    match &name {
        Some(t) => t.check(&m.name).map_err(|e| format!("name: {e}"))?,
        None => ensure!(same_text(&want.name, &m.name), "name {:?} copied as {:?}", want.name, m.name),
    }
    match &comment {
        Some(t) => t.check(&m.comment).map_err(|e| format!("comment: {e}"))?,
        None => ensure!(same_text(&want.comment, &m.comment), "comment {:?} copied as {:?}", want.comment, m.comment),
    }
    want.method = method;
    ensure!(m.method == method && m.date == want.date && m.iattr == want.iattr && m.eattr == want.eattr, "copied {want:?} as {m:?}");
    l.state(&(&m, &q.lx, &q.cx));
    extra = kept(&q.cx);
    Ok(Cur {
        bytes,
        index: 1,
        method,
        data: c.data.clone(),
        lx: extra.clone(),
        cx: extra,
        comp: stored,
        streamable: matches!(s.kind, Kind::Whole | Kind::WholePre) || method == rz::DEFLATE,
        meta: m,
    })
}
fn chain(e: &E, steps: &[Step], l: &mut Local) -> R {
    let mut c = source(e)?;
    for (k, s) in steps.iter().enumerate() {
        c = copy(&c, *s, l).map_err(|f| Fail { key: f.key, msg: format!("generation {} ({s:?}): {}", k + 1, f.msg) })?;
    }
    l.hit();
    Ok(())
}
const RENAMES: [usize; 4] = [0, 1, 2, 3];
fn core(i: usize) -> Step {
    let mut m = Mix(i as u64);
    Step {
        kind: *m.of(&KINDS),
        mode: if m.take(2) == 0 { Mode::Auto } else { Mode::Never },
        streamed: m.take(2) == 1,
        rename: *m.of(&RENAMES),
        recomment: 0,
        other: false,
    }
}
const CORE: usize = 64;
fn full(m: &mut Mix) -> Step {
    Step { kind: *m.of(&KINDS), mode: *m.of(&MODES), streamed: m.take(2) == 1, rename: m.take(8), recomment: m.take(8), other: m.take(2) == 1 }
}
const FULLN: u64 = 4 * 3 * 2 * 8 * 8 * 2;

fn unknown(k: usize) -> Vec<(u16, Vec<u8>)> {
    match k {
        0 => vec![],
        1 => vec![(0x5455, vec![1, 2, 3, 4, 5])],
        2 => vec![(0x9901, vec![7; 11]), (0x000A, vec![0; 8])],
        3 => vec![(0x7855, vec![9]), (0x7855, vec![8, 8])],
        4 => vec![(0, vec![1]), (0xFFFF, (0..=255).collect())],
        _ => vec![(0xCAFE, vec![]), (0x5855, b"PK\x01\x02".to_vec())],
    }
}
fn upath(k: usize, basic: &[u8]) -> Vec<(u16, Vec<u8>)> {
    let good = ufield(basic, "älter/名".as_bytes());
    let mut bad = good.clone();
    bad[2] ^= 0x10;
    let mut v2 = good.clone();
    v2[0] = 2;
    match k {
        0 => vec![],
        1 => vec![(UPATH, good)],
        2 => vec![(UPATH, bad)],
        3 => vec![(UPATH, v2)],
        4 => vec![(UPATH, v2), (UPATH, good)],
        _ => vec![(UPATH, vec![2])],
    }
}
fn ucomm(k: usize, basic: &[u8]) -> Vec<(u16, Vec<u8>)> {
    let good = ufield(basic, "Bemerkung ß".as_bytes());
    let mut v2 = good.clone();
    v2[0] = 3;
    match k {
        0 => vec![],
        1 => vec![(UCOMM, good)],
        _ => vec![(UCOMM, v2)],
    }
}
/// A source entry, described by independent dimensions.
#[derive(Clone, Copy, Debug)]
struct Dim {
    method: u16,
    unknown: usize,
    upath: usize,
    ucomm: usize,
    c64: u8,
    l64: u8,
    z_last: bool,
    name: usize,
    dd: Dd,
}
fn src(d: Dim) -> E {
    let mut e = ent(b"", d.method, b"some contents to be copied");
    (e.name, e.flags) = match d.name {
        0 => (b"plain.txt".to_vec(), 0),
        1 => ("ümläut".as_bytes().to_vec(), 0x800),
        _ => (OLD.to_vec(), 0),
    };
    e.comment = if d.name == 0 { b"remark".to_vec() } else { "re\u{301}mark".as_bytes().to_vec() };
    let mut x = upath(d.upath, &e.name);
    x.extend(unknown(d.unknown));
    x.extend(ucomm(d.ucomm, &e.comment));
    e.cx = x.clone();
    // A zero-length field at the very end is not required to survive, so it never is last.
    e.lx = x;
    (e.c64, e.l64, e.z_last, e.dd) = (d.c64, d.l64, d.z_last, d.dd);
    e.iattr = 1;
    e.eattr = 0x81A4_0020;
    e
}
fn sources() -> Vec<E> {
    let d = Dim { method: rz::DEFLATE, unknown: 1, upath: 0, ucomm: 0, c64: 0, l64: 0, z_last: false, name: 0, dd: Dd::None };
    let mut v = vec![
        src(Dim { c64: 7, l64: U | C, ..d }),
        src(Dim { upath: 1, ucomm: 1, name: 2, c64: 15, ..d }),
        src(Dim { method: rz::STORED, unknown: 2, ..d }),
        src(Dim { unknown: 3, upath: 2, name: 2, ..d }),
        src(Dim { unknown: 4, upath: 3, name: 2, ucomm: 2, ..d }),
        src(Dim { unknown: 5, upath: 4, name: 2, c64: 3, z_last: true, l64: U | C, ..d }),
        src(Dim { upath: 5, ucomm: 1, name: 1, c64: 4, ..d }),
        src(Dim { method: rz::ZSTD, c64: 8, name: 1, ..d }),
        src(Dim { method: rz::STORED, upath: 1, name: 0, c64: 2, l64: 0, z_last: true, ..d }),
        src(Dim { dd: Dd::Sig, unknown: 2, upath: 1, ucomm: 1, name: 2, ..d }),
        src(Dim { dd: Dd::NoSig, c64: 7, l64: 0, ..d }),
    ];
    // Local and central fields that differ.
    let mut e = src(d);
    e.lx = vec![(0x5455, vec![7, 1, 1, 1, 1, 2, 2, 2, 2]), (0x7875, vec![1, 4, 1, 1, 1, 1])];
    e.cx = vec![(0x5455, vec![7, 1, 1, 1, 1])];
    v.push(e);
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    let methods = [rz::STORED, rz::DEFLATE, rz::ZSTD];
    // One generation from every combination of source features.
    ctx.each("sources", 3 * 6 * 6 * 3 * 16 * 3 * 4 * 4, |i, l| {
        let mut m = Mix(i);
        let d = Dim {
            method: rz::DEFLATE,
            unknown: m.take(6),
            upath: m.take(6),
            ucomm: m.take(3),
            c64: m.take(16) as u8,
            l64: 0,
            z_last: false,
            name: m.take(3),
            dd: Dd::None,
        };
        // Four field layouts times four ways to copy.
        let lay = m.take(4);
        let d = Dim { l64: [0, U | C, 0, U | C][lay], z_last: lay >= 2, ..d };
        let way = m.take(4);
        let rest = m.take(3);
        let s = Step {
            kind: KINDS[way],
            mode: if (lay + way) % 2 == 0 { Mode::Auto } else { Mode::Never },
            streamed: rest == 1,
            rename: if rest == 2 { 2 } else { 0 },
            recomment: 0,
            other: false,
        };
        l.sample(|| format!("{d:?} {s:?}"));
        chain(&src(Dim { method: methods[(d.unknown + way) % 3], ..d }), &[s], l)
    });
    // Every way to copy, from selected sources.
    let srcs = sources();
    let n = srcs.len() as u64;
    ctx.each("steps", n * FULLN, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&srcs).clone();
        let s = full(&mut m);
        l.sample(|| format!("{s:?}"));
        chain(&e, &[s], l)
    });
    // Every kind of extra field the library does not interpret.
    ctx.each("ids", 65536 * 4 * 2, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let size = [5, 1][m.take(2)];
        let id = m.0 as u16;
        if id == 1 || id == UPATH || id == UCOMM {
            return Ok(());
        }
        let mut e = src(Dim { method: rz::STORED, unknown: 0, upath: 0, ucomm: 0, c64: 0, l64: 0, z_last: false, name: 0, dd: Dd::None });
        e.cx = vec![(id, vec![7; size]), (id ^ 0x8000, vec![1, 2])];
        e.cx.retain(|(k, _)| *k != 1 && *k != UPATH && *k != UCOMM);
        e.lx = e.cx.clone();
        chain(&e, &[Step { kind, mode: MODES[(i / 8 % 3) as usize], streamed: i / 8 % 2 == 1, rename: 0, recomment: 0, other: false }], l)
    });
    // Entries of every look, one and two generations.
    ctx.each("guises", (GUISES.len() * 3 * 2 * CORE * 3 * 4) as u64, |i, l| {
        let mut m = Mix(i);
        let g = m.take(GUISES.len());
        let method = *m.of(&methods);
        let dd = m.take(2) == 1 && method == rz::DEFLATE;
        let s = core(m.take(CORE));
        let s = Step { recomment: [0, 2, 3][m.take(3)], ..s };
        if GUISES[g].0 == "longest name" && s.recomment != 0 {
            // A name of that length leaves no room for the field a comment in another encoding makes necessary.
            return Ok(());
        }
        let mut e = ent(b"look", method, b"some contents to be copied");
        if dd {
            e = e.dd(Dd::Sig);
        }
        let e = guised(e, g);
        let t = Step { kind: *m.of(&KINDS), rename: 0, recomment: 0, ..s };
        chain(&e, &[s, t], l).map_err(|f| Fail { key: f.key, msg: format!("{}: {}", GUISES[g].0, f.msg) })
    });
    // Fields of every length.
    ctx.each("field-lengths", 700 * 4 * 2, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let streamed = m.take(2) == 1;
        let n = 1 + m.take(700);
        let n = if n > 680 { [1023, 1024, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 60000, 65000, 65300, 65400, 65490, 65495][(n - 681) % 15] } else { n };
        let mut e = src(Dim { method: rz::STORED, unknown: 0, upath: 0, ucomm: 0, c64: 0, l64: 0, z_last: false, name: 0, dd: Dd::None });
        e.cx = vec![(0x4242, pattern(3, n)), (0x4243, vec![1])];
        e.lx = e.cx.clone();
        chain(&e, &[Step { kind, mode: MODES[n % 3], streamed, rename: 0, recomment: 0, other: false }], l)
    });
    // Many fields, each with its own identifier or all alike.
    let many: Vec<usize> = (0..70).chain([100, 127, 128, 255, 256, 257, 1000, 4000, 10000]).collect();
    ctx.each("field-counts", (many.len() * 4 * 2 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let streamed = m.take(2) == 1;
        let alike = m.take(3);
        let n = *m.of(&many);
        let mut e = src(Dim { method: rz::STORED, unknown: 0, upath: 0, ucomm: 0, c64: 0, l64: 0, z_last: false, name: 0, dd: Dd::None });
        e.cx = (0..n).map(|k| (if alike == 1 { 0x4242 } else { 0x8000 + k as u16 }, if alike == 2 { vec![1] } else { vec![k as u8, 9] })).collect();
        e.lx = e.cx.clone();
        let st = |mode| Step { kind, mode, streamed, rename: 0, recomment: 0, other: false };
        l.sample(|| format!("{n} fields"));
        chain(&e, &[st(MODES[n % 3]), st(Mode::Auto)], l)
    });
    // Contents of every size.
    let sizes: Vec<usize> = super::common::sizes(200_000).into_iter().chain([200_000, 300_001, (1 << 20) + 3, 3 << 20]).collect();
    let sms = [rz::STORED, rz::DEFLATE, rz::ZSTD, rz::BZ];
    ctx.each("sizes", (sizes.len() * 4 * 4 * 2 * 2 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let n = *m.of(&sizes);
        let method = *m.of(&sms);
        let kind = *m.of(&KINDS);
        if method == rz::BZ && n > 200_000 {
            return Ok(());
        }
        let d = Dim { method, unknown: 2, upath: 1, ucomm: 1, c64: 0, l64: 0, z_last: false, name: 2, dd: Dd::None };
        let mut e = src(if m.take(2) == 1 { Dim { c64: 7, l64: U | C, ..d } } else { d });
        e.data = pattern(2, n);
        let (streamed, other) = (m.take(2) == 1, m.take(2) == 1);
        let mode = if n % 2 == 0 { Mode::Auto } else { Mode::Never };
        let st = Step { kind, mode, streamed, rename: 0, recomment: 0, other };
        l.sample(|| format!("{n} bytes, method {method}, {st:?}"));
        chain(&e, &[st, Step { other: false, ..st }], l)
    });
    // Deflate64 entries can only be copied raw.
    ctx.each("deflate64", 4 * 2 * 3 * 8 * 2, |i, l| {
        let mut m = Mix(i);
        let d = Dim {
            method: rz::DEFLATE64,
            unknown: m.take(4),
            upath: 0,
            ucomm: 0,
            c64: if m.take(2) == 1 { 7 } else { 0 },
            l64: 0,
            z_last: false,
            name: 0,
            dd: Dd::None,
        };
        let s = Step { kind: Kind::WholePre, mode: *m.of(&MODES), streamed: false, rename: m.take(8), recomment: 0, other: false };
        let s = if m.take(2) == 1 { Step { kind: Kind::StreamPre, ..s } } else { s };
        chain(&src(d), &[s, Step { rename: 0, mode: Mode::Auto, ..s }], l)
    });
    // Generations.
    ctx.each("two", n * (CORE * CORE) as u64, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&srcs).clone();
        let s = [core(m.take(CORE)), core(m.take(CORE))];
        l.sample(|| format!("{s:?}"));
        chain(&e, &s, l)
    });
    // Renames over generations, including names whose bytes an earlier name had.
    ctx.each("renames", n * 16 * 8 * 8 * 8, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&srcs).clone();
        let (ka, kb) = (*m.of(&KINDS), *m.of(&KINDS));
        let st = |kind, rename, recomment| Step { kind, mode: Mode::Auto, streamed: false, rename, recomment, other: false };
        let s = [st(ka, m.take(8), 0), st(kb, m.take(8), 2), st(ka, m.take(8), 0)];
        chain(&e, &s, l)
    });
    let deep: Vec<E> = if ctx.thorough { srcs.clone() } else { srcs[1..2].to_vec() };
    ctx.each("three", deep.len() as u64 * (CORE * CORE * CORE) as u64, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&deep).clone();
        let s = [core(m.take(CORE)), core(m.take(CORE)), core(m.take(CORE))];
        chain(&e, &s, l)
    });
    // The same way of copying, many generations: nothing piles up.
    ctx.each("many", n * CORE as u64 * 4, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&srcs).clone();
        let s = Step { recomment: [0, 1, 2, 3][m.take(4)], ..core(m.take(CORE)) };
        chain(&e, &[s; 12], l)
    });
    ctx.finish(
        "after every generation the archive parses strictly, names, contents, sizes and offsets are right, and fields the library does not interpret are unchanged in both headers",
        &["extra fields without data are not required to survive", "entries taken from the streaming reader carry the local header's fields and no comment"],
    )
}
