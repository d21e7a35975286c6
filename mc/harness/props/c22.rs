//! Descriptions of entries and archives change exactly as their builders are told.
use super::c03::ent;
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, A, C, O, U};
use crate::wops::T;
use async_zip::base::read::mem;
use async_zip::error::ZipError;
use async_zip::{
    AttributeCompatibility, Compression, DeflateOption, StringEncoding, ZipDateTime, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipFile, ZipFileBuilder,
    ZipString,
};

/// Everything an entry reports.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Rec {
    m: Meta,
    extra: Vec<String>,
    dir: Option<bool>,
}
fn rec(e: &ZipEntry) -> Result<Rec, String> {
    let dir = match e.dir() {
        Ok(d) => Some(d),
        Err(ZipError::StringNotUtf8) => None,
        Err(x) => return Err(format!("dir(): {}", ek(&x))),
    };
    if e.attribute_compatibility() != AttributeCompatibility::Unix {
        return Err("attribute compatibility changed".into());
    }
    Ok(Rec { m: meta(e), extra: e.extra_fields().iter().map(|f| format!("{f:?}")).collect(), dir })
}
fn txt(t: &T) -> Txt {
    match t {
        T::Utf8(s) => Txt { utf8: true, bytes: s.as_bytes().to_vec(), alt: None },
        T::Raw(b) => Txt { utf8: false, bytes: b.clone(), alt: None },
        T::Alt(s, a) => Txt { utf8: true, bytes: s.as_bytes().to_vec(), alt: Some(a.clone()) },
    }
}
#[derive(Clone, Debug, Hash)]
enum Set {
    Name(T),
    Comment(T),
    Method(u16),
    Crc(u32),
    CrcSmall(u8),
    Csize(u64),
    CsizeSmall(u32),
    Usize(u64),
    UsizeSmall(u16),
    Level(u8),
    Compat,
    Date((i32, u32, u32, u32, u32, u32)),
    /// The date that stands for none.
    NoDate,
    Iattr(u16),
    Eattr(u32),
    Perms(u16),
    /// Take over the extra fields of donor k, or none.
    Extra(Option<usize>),
    /// Build the entry and go on from it.
    Rebuild,
    /// Go on from a clone of the current entry.
    FromCurrent,
}
fn alphabet() -> Vec<Set> {
    use Set::*;
    vec![
        Name(T::Utf8("dir/".into())),
        Name(T::Utf8("".into())),
        Name(T::Raw(vec![0xFF, b'/'])),
        Name(T::Alt("ü/x".into(), vec![0x81, b'/'])),
        Comment(T::Utf8("a comment".into())),
        Comment(T::Raw(b"ascii".to_vec())),
        Comment(T::Alt("".into(), vec![1])),
        Comment(T::Utf8("".into())),
        Method(rz::STORED),
        Method(rz::ZSTD),
        Crc(0xFFFF_FFFF),
        CrcSmall(7),
        Crc(0),
        Csize(u64::MAX),
        CsizeSmall(9),
        CsizeSmall(0),
        Usize(0x1_0000_0000),
        UsizeSmall(11),
        Usize(0),
        Level(0),
        Compat,
        Date((2107, 12, 31, 23, 59, 58)),
        Date((1980, 1, 1, 0, 0, 0)),
        NoDate,
        Iattr(0xFFFF),
        Iattr(0),
        Eattr(0xFFFF_FFFF),
        Eattr(0x0000_0010),
        Perms(0),
        Perms(0o100644),
        Perms(0xFFFF),
        Extra(None),
        Extra(Some(0)),
        Extra(Some(1)),
        Rebuild,
        FromCurrent,
    ]
}
fn is_dir(t: &Txt) -> Option<bool> {
    t.utf8.then(|| t.bytes.last() == Some(&b'/'))
}
fn apply(s: &Set, b: ZipEntryBuilder, donors: &[ZipEntry], m: &mut Rec) -> ZipEntryBuilder {
    match s {
        Set::Name(t) => {
            m.m.name = txt(t);
            m.dir = is_dir(&m.m.name);
            b.filename(t.zs())
        }
        Set::Comment(t) => {
            m.m.comment = txt(t);
            b.comment(t.zs())
        }
        Set::Method(k) => {
            m.m.method = *k;
            b.compression(comp(*k))
        }
        Set::Crc(c) => {
            m.m.crc = *c;
            b.crc32(*c)
        }
        Set::CrcSmall(c) => {
            m.m.crc = *c as u32;
            b.crc32(*c)
        }
        Set::Csize(n) => {
            m.m.csize = *n;
            b.compressed_size(*n)
        }
        Set::CsizeSmall(n) => {
            m.m.csize = *n as u64;
            b.compressed_size(*n)
        }
        Set::Usize(n) => {
            m.m.usize_ = *n;
            b.uncompressed_size(*n)
        }
        Set::UsizeSmall(n) => {
            m.m.usize_ = *n as u64;
            b.uncompressed_size(*n)
        }
        Set::Level(_) => b.deflate_option(DeflateOption::Maximum),
        Set::Compat => b.attribute_compatibility(AttributeCompatibility::Unix),
        Set::Date(d) => {
            m.m.date = *d;
            b.last_modification_date(ZipDateTimeBuilder::new().year(d.0).month(d.1).day(d.2).hour(d.3).minute(d.4).second(d.5).build())
        }
        Set::NoDate => {
            // Month and day zero, which stand for no date, are reported as they are.
            m.m.date = (1980, 0, 0, 0, 0, 0);
            b.last_modification_date(ZipDateTime::default())
        }
        Set::Iattr(a) => {
            m.m.iattr = *a;
            b.internal_file_attribute(*a)
        }
        Set::Eattr(a) => {
            m.m.eattr = *a;
            m.m.perms = Some((*a >> 16) as u16);
            b.external_file_attribute(*a)
        }
        Set::Perms(p) => {
            m.m.perms = Some(*p);
            m.m.eattr = m.m.eattr & 0xFFFF | (*p as u32) << 16;
            b.unix_permissions(*p)
        }
        Set::Extra(None) => {
            m.extra = vec![];
            b.extra_fields(vec![])
        }
        Set::Extra(Some(k)) => {
            m.extra = donors[*k].extra_fields().iter().map(|f| format!("{f:?}")).collect();
            b.extra_fields(donors[*k].extra_fields().to_vec())
        }
        Set::Rebuild => {
            let e: ZipEntry = b.into();
            e.into()
        }
        Set::FromCurrent => b.current().clone().into(),
    }
}
fn same(what: &str, e: &ZipEntry, want: &Rec) -> R {
    let got = rec(e)?;
    ensure!(got == *want, "{what} reports {got:?}, expected {want:?}");
    Ok(())
}
fn donors() -> (A, Vec<u8>) {
    let mut a = A { comment: b"archive".to_vec(), ..Default::default() };
    let mut e = ent(b"first.txt", rz::DEFLATE, b"some data some data");
    e.cx = vec![(0x9999, b"nine".to_vec()), (0xCAFE, vec![])];
    e.cx.push((0xBEEF, vec![1; 40]));
    e.comment = b"the first".to_vec();
    e.iattr = 1;
    e.eattr = 0o100600 << 16 | 0x20;
    a.entries.push(e);
    let mut e = ent(&[0x81, b'/'], rz::STORED, b"");
    e.cx = vec![(UPATH, ufield(&[0x81, b'/'], "ü/".as_bytes()))];
    e.c64 = U | C | O;
    e.date = 0;
    e.time = 0xBF7D;
    e.eattr = 0o40755 << 16 | 0x10;
    a.entries.push(e);
    let b = rz::build(&a);
    (a, b.bytes)
}

pub fn run(ctx: &Ctx) -> i32 {
    let (a, bytes) = donors();
    let open = || now(mem::ZipFileReader::new(bytes.clone())).expect("donor archive");
    let alpha = alphabet();
    let starts = 4usize;
    let seqs = Seqs { n: alpha.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    // Every sequence of builder calls from entries made anew and entries read from an archive.
    let (new0, new1) = (T::Utf8("plain".into()), T::Raw(vec![0x80]));
    let ds: Vec<ZipEntry> = open().file().entries().iter().map(|e| (**e).clone()).collect();
    ctx.each("builder", seqs.total() * starts as u64, |i, l| {
        let mut mx = Mix(i);
        let start = mx.take(starts);
        let seq = seqs.get(mx.0);
        let (mut b, mut m): (ZipEntryBuilder, Rec) = match start {
            0 | 1 => {
                let t = if start == 0 { &new0 } else { &new1 };
                let k = if start == 0 { rz::DEFLATE } else { rz::STORED };
                let b = ZipEntryBuilder::new(t.zs(), comp(k));
                let z = ZipEntryBuilder::new("x".into(), Compression::Stored).build();
                let z = meta(&z).date;
                let m = Meta {
                    name: txt(t),
                    comment: Txt { utf8: true, bytes: vec![], alt: None },
                    method: k,
                    crc: 0,
                    csize: 0,
                    usize_: 0,
                    date: z,
                    iattr: 0,
                    eattr: 0,
                    perms: Some(0),
                    off: None,
                };
                (b, Rec { dir: is_dir(&m.name), m, extra: vec![] })
            }
            k => {
                let e = &ds[k - 2];
                let r = &a.entries[k - 2];
                let m = Meta { off: None, ..want_meta(r, e.compressed_size(), 0) };
                let extra = e.extra_fields().iter().map(|f| format!("{f:?}")).collect();
                (e.clone().into(), Rec { dir: is_dir(&m.name), m, extra })
            }
        };
        for &s in &seq {
            b = apply(&alpha[s], b, &ds, &mut m);
        }
        l.step(seq.len() as u64 + 1);
        let name = || format!("start {start}, {:?}", seq.iter().map(|k| &alpha[*k]).collect::<Vec<_>>());
        same("current()", b.current(), &m).map_err(|f| format!("{}: {}", name(), f.msg))?;
        let e = if i % 2 == 0 { b.build() } else { b.into() };
        same("the built entry", &e, &m).map_err(|f| format!("{}: {}", name(), f.msg))?;
        let c = e.clone();
        drop(e);
        same("a clone", &c, &m).map_err(|f| format!("{}: {}", name(), f.msg))?;
        l.outcome(&m);
        if seq.len() < 4 {
            l.state(&(start, &seq));
        }
        l.sample(name);
        l.hit();
        Ok(())
    });
    // Every short text is a name and a comment as it is.
    const CHARS: &[char] = &['a', '/', '\\', '.', ' ', '\0', ':', 'ü', '\u{FEFF}', '\n', 'A'];
    let ns = Seqs { n: CHARS.len() as u64, depth: if ctx.thorough { 6 } else { 5 } };
    ctx.each("texts", ns.total(), |i, l| {
        let t: String = ns.get(i).into_iter().map(|k| CHARS[k]).collect();
        let raw = T::Raw(t.as_bytes().to_vec());
        let alt = T::Alt(t.clone(), t.chars().rev().map(|c| c as u8).collect());
        for x in [T::Utf8(t.clone()), raw, alt] {
            let made = ZipEntryBuilder::new(x.zs(), Compression::Stored).comment(x.zs()).build();
            let set = ZipEntryBuilder::new("x".into(), Compression::Stored).filename(x.zs()).comment(x.zs()).build();
            for e in [&made, &set] {
                let m = meta(e);
                ensure!(m.name == txt(&x) && m.comment == txt(&x), "given {x:?}, the entry reports {m:?}");
                ensure!(e.dir().ok() == is_dir(&m.name), "{x:?}: dir() is {:?}", e.dir());
            }
            let f = ZipFileBuilder::new().comment(x.zs()).build();
            ensure!(Txt::of(f.comment()) == txt(&x), "given {x:?}, the archive's comment is {:?}", f.comment());
        }
        l.step(5);
        l.state(&t);
        Ok(())
    });
    // The compression level shows in what `compress` makes of the entry.
    let text: Vec<u8> = (0..900u32).flat_map(|k| format!("{} ", k * k % 97).into_bytes()).collect();
    let opts: [Option<i32>; 4] = [None, Some(0), Some(1), Some(9)];
    let option = |o: Option<i32>| o.map_or(DeflateOption::Normal, DeflateOption::Other);
    let methods = [rz::DEFLATE, rz::ZSTD];
    let squeeze = |e: &ZipEntry| now(async_zip::base::write::compress(e, &text));
    let table: Vec<Vec<Vec<u8>>> = methods
        .iter()
        .map(|&m| {
            let fresh = || ZipEntryBuilder::new("plain".into(), comp(m));
            let at = |o: &Option<i32>| match o {
                None => squeeze(&fresh().build()),
                o => squeeze(&fresh().deflate_option(option(*o)).build()),
            };
            opts.iter().map(at).collect()
        })
        .collect();
    use Set::*;
    let other = [
        Name(T::Utf8("other".into())),
        Comment(T::Utf8("c".into())),
        Method(methods[0]),
        Method(methods[1]),
        Method(rz::STORED),
        Crc(5),
        Usize(3),
        Compat,
        Date((2001, 2, 3, 4, 5, 6)),
        Eattr(7),
        Perms(1),
        Extra(Some(0)),
        Rebuild,
        FromCurrent,
    ];
    let n = opts.len() + other.len();
    let levels = Seqs { n: n as u64, depth: if ctx.thorough { 4 } else { 3 } };
    ctx.each("levels", levels.total() * 2, |i, l| {
        let mut mx = Mix(i);
        let start = mx.take(2);
        let seq = levels.get(mx.0);
        let mut m = Rec { m: meta(&ds[0]), extra: vec![], dir: None };
        let (mut b, mut method, mut level): (ZipEntryBuilder, _, _) = match start {
            0 => (ZipEntryBuilder::new("plain".into(), comp(methods[0])), methods[0], 0),
            _ => (ds[0].clone().into(), rz::DEFLATE, 0),
        };
        for &s in &seq {
            b = match s.checked_sub(opts.len()) {
                None => {
                    level = s;
                    b.deflate_option(option(opts[s]))
                }
                Some(k) => {
                    if let Method(k) = other[k] {
                        method = k;
                    }
                    apply(&other[k], b, &ds, &mut m)
                }
            };
        }
        let got = squeeze(&b.build());
        let want = methods.iter().position(|&k| k == method).map_or(&text, |k| &table[k][level]);
        ensure!(
            got == *want,
            "start {start}, {:?}: method {method} at level {:?} makes {} bytes, {} expected",
            seq.iter().map(|&k| if k < opts.len() { format!("level {:?}", opts[k]) } else { format!("{:?}", other[k - opts.len()]) }).collect::<Vec<_>>(),
            opts[level],
            got.len(),
            want.len()
        );
        l.outcome(&got.len());
        l.state(&(start, &seq));
        l.step(seq.len() as u64 + 1);
        l.hit();
        Ok(())
    });
    ctx.each("levels differ", 1, |_, l| {
        for (m, t) in methods.iter().zip(&table) {
            ensure!(t[1].len() > t[3].len() || *m != rz::DEFLATE, "method {m}: level 0 makes {} bytes, level 9 {}", t[1].len(), t[3].len());
            ensure!(t[2] != t[3], "method {m}: levels 1 and 9 make the same of the data");
            l.state(m);
            l.step(4);
        }
        l.hit();
        Ok(())
    });
    // The values of one setter after every value of another.
    let eattrs: Vec<u32> = (0..32).map(|k| 1u32 << k).chain([0, !0, 0xFFFF, 0xFFFF_0000, 0x81A4_0020]).collect();
    ctx.each("permissions", 65536, |p, l| {
        let p = p as u16;
        for &e in &eattrs {
            let b = ZipEntryBuilder::new("x".into(), Compression::Stored).external_file_attribute(e).unix_permissions(p);
            let c = b.current();
            let want = e & 0xFFFF | (p as u32) << 16;
            ensure!(
                c.external_file_attribute() == want && c.unix_permissions() == Some(p),
                "permissions {p:#o} on attributes {e:#x} give {:#x}/{:?}",
                c.external_file_attribute(),
                c.unix_permissions()
            );
            let c = b.external_file_attribute(e).build();
            ensure!(c.unix_permissions() == Some((e >> 16) as u16) && c.external_file_attribute() == e, "attributes {e:#x} after permissions {p:#o}");
        }
        l.state(&p);
        l.step(eattrs.len() as u64 * 2);
        l.hit();
        Ok(())
    });
    // Which names are directories: all strings over a small alphabet, in every encoding.
    let parts: [&[u8]; 7] = [b"/", b"\\", b"a", b".", "é".as_bytes(), &[0xFF], b"\0"];
    let names = Seqs { n: parts.len() as u64, depth: if ctx.thorough { 6 } else { 5 } };
    ctx.each("directories", names.total() * 4, |i, l| {
        let mut mx = Mix(i);
        let kind = mx.take(4);
        let b: Vec<u8> = names.get(mx.0).into_iter().flat_map(|k| parts[k].to_vec()).collect();
        let text = std::str::from_utf8(&b).ok();
        let z = match kind {
            0 => ZipString::new(b.clone(), StringEncoding::Utf8),
            1 => ZipString::new(b.clone(), StringEncoding::Raw),
            2 => match text {
                Some(t) => t.into(),
                None => return Ok(()),
            },
            _ => match text {
                Some(t) => ZipString::new_with_alternative(t.to_string(), b"alternative/".to_vec()),
                None => return Ok(()),
            },
        };
        let want = if kind == 1 { None } else { text.map(|t| t.ends_with('/')) };
        let e = ZipEntryBuilder::new(z, Compression::Stored).build();
        let got = rec(&e)?.dir;
        ensure!(got == want, "name {b:02x?} (way {kind}): dir() gives {got:?}, expected {want:?}");
        l.state(&(kind, &b));
        l.step(1);
        l.hit();
        Ok(())
    });
    // Archive descriptions.
    let seqs = Seqs { n: 7, depth: if ctx.thorough { 6 } else { 5 } };
    ctx.each("file", seqs.total() * 3, |i, l| {
        let mut mx = Mix(i);
        let start = mx.take(3);
        let seq = seqs.get(mx.0);
        let z = open();
        let (mut f, n, mut c): (ZipFileBuilder, usize, Txt) = match start {
            0 => (ZipFileBuilder::new(), 0, Txt::utf8("")),
            1 => (ZipFileBuilder::default(), 0, Txt::utf8("")),
            _ => (z.file().clone().into(), 2, Txt::utf8("archive")),
        };
        for s in &seq {
            f = match s {
                0 => {
                    c = Txt::utf8("other");
                    f.comment("other".into())
                }
                1 => {
                    c = Txt { utf8: false, bytes: vec![0xFE], alt: None };
                    f.comment(ZipString::new(vec![0xFE], StringEncoding::Utf8))
                }
                2 => {
                    c = Txt::utf8("");
                    f.comment("".into())
                }
                3 => {
                    c = Txt { utf8: false, bytes: vec![], alt: None };
                    f.comment(ZipString::new(vec![], StringEncoding::Raw))
                }
                4 => {
                    let t = T::Alt("é".into(), vec![0x82]);
                    c = txt(&t);
                    f.comment(t.zs())
                }
                5 => f.build().into(),
                _ => {
                    let g: ZipFile = f.into();
                    g.clone().into()
                }
            };
        }
        let f = f.build();
        ensure!(f.entries().len() == n && !f.zip64(), "start {start}, {seq:?}: {} entries, zip64 {}", f.entries().len(), f.zip64());
        ensure!(Txt::of(f.comment()) == c, "start {start}, {seq:?}: comment {:?}, expected {c:?}", Txt::of(f.comment()));
        for (k, e) in f.entries().iter().enumerate() {
            ensure!(rec(e)? == rec(&ds[k])? && e.header_offset() == z.file().entries()[k].header_offset(), "start {start}, {seq:?}: entry {k} changed");
        }
        l.state(&(start, &seq));
        l.step(seq.len() as u64);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "after every sequence of builder calls each attribute has the value set last, or else the one it had, in the builder, the built entry and its clones",
        &["Unix is the only attribute host the library knows"],
    )
}
