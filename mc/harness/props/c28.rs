//! Only what begins with its signature is taken for a header.
use super::c03::ent;
use super::common::*;
use crate::dev::Source;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Built, Dd, End64, A, C, O, U};
use crate::wops::pattern;
use async_zip::base::read::{mem, seek, stream};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncReadExt, BufReader};
use std::sync::Arc;

const SIGS: [u32; 10] = [rz::LFH, rz::CDH, rz::EOCD, rz::Z64E, rz::Z64L, rz::DDSIG, 0x08064b50, 0x05054b50, 0, 0xFFFF_FFFF];

fn at(b: &[u8], o: u64, n: u64) -> Option<&[u8]> {
    let e = o.checked_add(n)?;
    b.get(usize::try_from(o).ok()?..usize::try_from(e).ok()?)
}
/// What must fail, found by walking the bytes. `Unknown`: this oracle makes no claim.
enum Walk {
    Unknown,
    /// Opening the archive must fail.
    Closed(&'static str),
    /// The archive may open; these entries must not.
    Entries(Vec<bool>),
}
fn walk(b: &[u8]) -> Walk {
    let sig = rz::EOCD.to_le_bytes();
    let found: Vec<usize> = b.windows(4).enumerate().filter(|(_, w)| *w == sig).map(|(i, _)| i).collect();
    let p = match found[..] {
        [] => return Walk::Closed("no end record"),
        [p] => p as u64,
        _ => return Walk::Unknown,
    };
    let Some(e) = at(b, p, 22) else { return Walk::Closed("end record cut") };
    if at(b, p + 22, rz::g16(e, 20) as u64).is_none() {
        return Walk::Closed("comment cut");
    }
    let (mut count, mut cd) = (rz::g16(e, 10) as u64, rz::g32(e, 16) as u64);
    if let Some(l) = p.checked_sub(20).and_then(|o| at(b, o, 20)) {
        if rz::g32(l, 0) == rz::Z64L {
            let Some(z) = at(b, rz::g64(l, 8), 56) else { return Walk::Closed("no ZIP64 end record there") };
            if rz::g32(z, 0) != rz::Z64E {
                return Walk::Closed("no ZIP64 end record there");
            }
            if count == 0xFFFF {
                count = rz::g64(z, 32);
            }
            if cd == 0xFFFF_FFFF {
                cd = rz::g64(z, 48);
            }
        }
    }
    let mut o = cd;
    let mut bad = vec![];
    for _ in 0..count {
        let Some(h) = at(b, o, 46) else { return Walk::Closed("central header beyond the end") };
        if rz::g32(h, 0) != rz::CDH {
            return Walk::Closed("no central header there");
        }
        let (n, x, c) = (rz::g16(h, 28) as u64, rz::g16(h, 30) as u64, rz::g16(h, 32) as u64);
        let Some(rest) = at(b, o + 46, n + x + c) else { return Walk::Closed("central header beyond the end") };
        let mut lh = rz::g32(h, 42) as u64;
        let mut known = true;
        if lh == 0xFFFF_FFFF {
            known = false;
            if let Ok(fs) = rz::parse_tlv(&rest[n as usize..(n + x) as usize]) {
                let skip = 8 * ((rz::g32(h, 24) == 0xFFFF_FFFF) as usize + (rz::g32(h, 20) == 0xFFFF_FFFF) as usize);
                let fs: Vec<_> = fs.iter().filter(|f| f.0 == 1).collect();
                if fs.len() == 1 && fs[0].1.len() >= skip + 8 {
                    lh = rz::g64(&fs[0].1, skip);
                    known = true;
                }
            }
        }
        bad.push(known && at(b, lh, 30).is_none_or(|l| rz::g32(l, 0) != rz::LFH));
        o += 46 + n + x + c;
    }
    Walk::Entries(bad)
}
/// How a stream of stored entries of known size goes: entries, and whether it must end with an error afterwards. None: no claim.
fn walk_stream(b: &[u8]) -> Option<(usize, bool)> {
    let (mut o, mut n) = (0, 0);
    loop {
        let Some(s) = at(b, o, 4) else { return Some((n, true)) };
        match rz::g32(s, 0) {
            rz::LFH => {}
            rz::CDH | rz::EOCD | rz::Z64E => return Some((n, false)),
            // Records that may precede the directory.
            0x08064b50 => return None,
            _ => return Some((n, true)),
        }
        let Some(h) = at(b, o, 30) else { return Some((n, true)) };
        let (c, u) = (rz::g32(h, 18), rz::g32(h, 22));
        if rz::g16(h, 6) & 0x2049 != 0 || rz::g16(h, 8) != rz::STORED || c == 0xFFFF_FFFF || u == 0xFFFF_FFFF {
            return None;
        }
        let (name, extra) = (rz::g16(h, 26) as u64, rz::g16(h, 28) as u64);
        let Some(rest) = at(b, o + 30, name + extra) else { return Some((n, true)) };
        if rz::parse_tlv(&rest[name as usize..]).is_err() {
            return None;
        }
        // Contents cut off by the end: what is left is for C06.
        at(b, o + 30 + name + extra, c as u64)?;
        o += 30 + name + extra + c as u64;
        n += 1;
    }
}
fn expect_header<T>(what: &str, r: Result<T, ZipError>) -> R {
    match r {
        Err(_) => Ok(()),
        Ok(_) => bail!("{what}: accepted"),
    }
}
fn open_all(b: &Arc<Vec<u8>>, front: usize, l: &mut Local) -> R {
    let w = walk(b);
    macro_rules! judge {
        ($z:expr, $open:ident) => {{
            let z = $z;
            match (w, z) {
                (Walk::Unknown, _) => {}
                (Walk::Closed(_), Err(_)) => l.hit(),
                (Walk::Closed(why), Ok(z)) => bail!("front {front}: opened with {} entries although there is {why}", z.file().entries().len()),
                // Whether it opens is for other properties.
                (Walk::Entries(_), Err(_)) => {}
                (Walk::Entries(bad), Ok(mut z)) => {
                    ensure!(z.file().entries().len() == bad.len(), "front {front}: {} entries for {} central headers", z.file().entries().len(), bad.len());
                    for (k, bad) in bad.iter().enumerate() {
                        l.step(1);
                        if *bad {
                            l.hit();
                            expect_header(&format!("front {front}: entry {k} without a local header"), $open!(z, k))?;
                        } else {
                            let _ = $open!(z, k);
                        }
                    }
                }
            }
        }};
    }
    macro_rules! with {
        ($z:expr, $k:expr) => {
            now($z.reader_with_entry($k)).map(|_| ())
        };
    }
    macro_rules! without {
        ($z:expr, $k:expr) => {
            now($z.reader_without_entry($k)).map(|_| ())
        };
    }
    macro_rules! into {
        ($z:expr, $k:expr) => {
            now(seek::ZipFileReader::from_raw_parts(Source::new(b), $z.file().clone()).into_entry($k)).map(|_| ())
        };
    }
    match front {
        0 => judge!(now(mem::ZipFileReader::new(b.to_vec())), with),
        1 => judge!(now(mem::ZipFileReader::new(b.to_vec())), without),
        2 => judge!(now(seek::ZipFileReader::new(Source::new(b))), with),
        3 => judge!(now(seek::ZipFileReader::new(BufReader::with_capacity(8, Source::chunked(b, 3, false)))), without),
        4 => judge!(now(seek::ZipFileReader::new(Source::chunked(b, 5, false))), into),
        _ => {
            let Some((n, fails)) = walk_stream(b) else { return Ok(()) };
            let mut z = stream::ZipFileReader::new(Source::new(b));
            let mut k = 0;
            let end = loop {
                l.step(1);
                if front == 5 {
                    match now(z.next_with_entry()) {
                        Ok(None) => break Ok(()),
                        Err(e) => break Err(e),
                        Ok(Some(r)) => match now(r.skip()) {
                            Ok(next) => z = next,
                            Err(e) => bail!("stream: entry {k} cannot be skipped: {e:?}"),
                        },
                    }
                } else {
                    match now(z.next_without_entry()) {
                        Ok(None) => break Ok(()),
                        Err(e) => break Err(e),
                        Ok(Some(mut r)) => {
                            let mut v = vec![];
                            now(r.reader_mut().read_to_end(&mut v)).map_err(|e| format!("stream: entry {k}: {e}"))?;
                            match now(r.done()) {
                                Ok(next) => z = next,
                                Err(e) => bail!("stream: entry {k} cannot be finished: {e:?}"),
                            }
                        }
                    }
                }
                k += 1;
            };
            ensure!(k <= n, "stream: {k} entries, there are {n} local headers in a row");
            if fails {
                ensure!(end.is_err(), "stream: a regular end after {k} entries where there is no directory");
                l.hit();
            }
        }
    }
    Ok(())
}
const FRONTS: usize = 7;

fn seeds() -> Vec<Built> {
    let b = |a: A| rz::build(&a);
    let two = || vec![ent(b"a", rz::STORED, b"first contents"), ent(b"bb", rz::STORED, b"second")];
    let mut v = vec![
        b(A { entries: two(), ..Default::default() }),
        b(A { entries: two(), end64: Some(End64 { mask: 63, ext: vec![] }), comment: b"comment".to_vec(), ..Default::default() }),
        b(A { entries: two(), end64: Some(End64 { mask: 0, ext: vec![7; 9] }), ..Default::default() }),
        b(A { entries: two(), end64: Some(End64 { mask: 8, ext: vec![] }), ..Default::default() }),
        b(A::default()),
        b(A { end64: Some(End64 { mask: 0, ext: vec![] }), ..Default::default() }),
        b(A { entries: two(), gap_cd: b"a gap".to_vec(), comment: b"with PK\x01\x02".to_vec(), cd_order: Some(vec![1, 0]), ..Default::default() }),
        b(A {
            entries: vec![ent(b"d", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig), ent(b"n", rz::DEFLATE, b"no signature").dd(Dd::NoSig)],
            ..Default::default()
        }),
    ];
    let mut e = two();
    e.push(ent(b"", rz::STORED, b""));
    e[0].lx = vec![(0x5455, vec![3, 1, 2, 3, 4])];
    e[1].cx = vec![(0x7875, vec![1, 2])];
    e[1].comment = b"entry comment".to_vec();
    e[1].gap = b"PK\x03".to_vec();
    v.push(b(A { entries: e, ..Default::default() }));
    let mut e = two();
    e[1].c64 = U | C | O;
    e[0].c64 = O;
    e[0].z_last = true;
    e[0].cx = vec![(0x5455, vec![3, 1, 2, 3, 4])];
    v.push(b(A { entries: e, end64: Some(End64 { mask: 63, ext: vec![] }), ..Default::default() }));
    v
}
/// All places where a structure begins.
fn headers(b: &Built) -> Vec<u64> {
    let mut v: Vec<u64> = b.locs.iter().flat_map(|l| [l.lfh, l.cdh]).collect();
    v.push(b.eocd);
    if let Some(z) = b.z64 {
        v.extend([z, b.eocd - 20]);
    }
    v
}
/// All fields that say where, or how many: (place, width).
fn fields(b: &Built) -> Vec<(u64, usize)> {
    let mut v = vec![(b.eocd + 8, 2), (b.eocd + 10, 2), (b.eocd + 16, 4), (b.eocd + 20, 2)];
    for l in &b.locs {
        v.extend([(l.cdh + 28, 2), (l.cdh + 30, 2), (l.cdh + 32, 2), (l.cdh + 42, 4), (l.lfh + 18, 4), (l.lfh + 26, 2), (l.lfh + 28, 2)]);
        if l.csize > 0 && l.data > l.lfh + 30 {
            v.push((l.cdh + 20, 4));
        }
    }
    if let Some(z) = b.z64 {
        v.extend([(z + 24, 8), (z + 32, 8), (z + 48, 8), (b.eocd - 12, 8)]);
    }
    v
}
fn put(b: &mut [u8], (o, w): (u64, usize), v: u64) {
    b[o as usize..o as usize + w].copy_from_slice(&v.to_le_bytes()[..w]);
}

pub fn run(ctx: &Ctx) -> i32 {
    let seeds = seeds();
    // Every byte of every archive has every value.
    let bytes: Vec<(usize, usize)> = seeds.iter().enumerate().flat_map(|(s, b)| (0..b.bytes.len()).map(move |o| (s, o))).collect();
    ctx.each("bytes", (bytes.len() * 256) as u64, |i, l| {
        let mut m = Mix(i);
        let v = m.take(256) as u8;
        let (s, o) = *m.of(&bytes);
        let mut b = seeds[s].bytes.clone();
        b[o] = v;
        let b = Arc::new(b);
        for f in 0..FRONTS {
            open_all(&b, f, l).map_err(|e| format!("archive {s}, byte {o} = {v:#x}: {}", e.msg))?;
        }
        l.state(&(s, o, v));
        Ok(())
    });
    // Every signature replaced by every other, alone and in pairs, and every two of its bytes altered.
    let heads: Vec<(usize, u64)> = seeds.iter().enumerate().flat_map(|(s, b)| headers(b).into_iter().map(move |o| (s, o))).collect();
    let pairs: Vec<(usize, u64, u64)> =
        seeds.iter().enumerate().flat_map(|(s, b)| headers(b).into_iter().flat_map(move |o| headers(b).into_iter().map(move |p| (s, o, p)))).collect();
    ctx.each("signatures", (pairs.len() * SIGS.len() * SIGS.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let (x, y) = (*m.of(&SIGS), *m.of(&SIGS));
        let (s, o, p) = *m.of(&pairs);
        let mut b = seeds[s].bytes.clone();
        put(&mut b, (o, 4), x as u64);
        put(&mut b, (p, 4), y as u64);
        let b = Arc::new(b);
        for f in 0..FRONTS {
            open_all(&b, f, l).map_err(|e| format!("archive {s}, {x:#x} at {o}, {y:#x} at {p}: {}", e.msg))?;
        }
        l.state(&(s, o, p, x, y));
        Ok(())
    });
    let two: Vec<u16> = if ctx.thorough { (0..=u16::MAX).collect() } else { (0..=u16::MAX).step_by(61).collect() };
    ctx.each("signature-bytes", (heads.len() * 6 * two.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let v = *m.of(&two);
        let (x, y) = [(0u64, 1u64), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][m.take(6)];
        let (s, o) = *m.of(&heads);
        let mut b = seeds[s].bytes.clone();
        b[(o + x) as usize] = v as u8;
        b[(o + y) as usize] = (v >> 8) as u8;
        let b = Arc::new(b);
        for f in [0, 2, 5] {
            open_all(&b, f, l).map_err(|e| format!("archive {s}, bytes {x}, {y} of the signature at {o} = {v:#x}: {}", e.msg))?;
        }
        l.state(&(s, o, x, y, v));
        Ok(())
    });
    // Every field that leads to a header, or says how many there are, has every value that stays within the file or nearly so.
    let values = |b: &Built| -> Vec<u64> {
        let n = b.bytes.len() as u64;
        let mut v: Vec<u64> = (0..n + 40).collect();
        v.extend([
            0x7FFF,
            0x8000,
            0xFFFE,
            0xFFFF,
            0x1_0000,
            1 << 31,
            0xFFFF_FFFE,
            0xFFFF_FFFF,
            1 << 32,
            i64::MAX as u64,
            1 << 63,
            u64::MAX - 55,
            u64::MAX - 3,
            u64::MAX,
        ]);
        v
    };
    let leads: Vec<(usize, (u64, usize), u64)> = seeds
        .iter()
        .enumerate()
        .flat_map(|(s, b)| {
            let vs = values(b);
            fields(b).into_iter().flat_map(move |f| vs.clone().into_iter().filter(move |v| f.1 == 8 || *v < 1 << (8 * f.1)).map(move |v| (s, f, v)))
        })
        .collect();
    ctx.each("places", leads.len() as u64, |i, l| {
        let (s, f, v) = leads[i as usize];
        let mut b = seeds[s].bytes.clone();
        put(&mut b, f, v);
        let b = Arc::new(b);
        for k in 0..FRONTS {
            open_all(&b, k, l).map_err(|e| format!("archive {s}, field at {} = {v:#x}: {}", f.0, e.msg))?;
        }
        l.state(&(s, f, v));
        l.sample(|| format!("archive {s}: the field at {} of {} bytes says {v}", f.0, f.1));
        Ok(())
    });
    // Entries of every look: each header's signature altered, each lead off by a little.
    let looks: Vec<Built> = (0..GUISES.len())
        .flat_map(|g| {
            [rz::STORED, rz::DEFLATE].map(|m| {
                let first = guised(ent(b"a", m, b"first contents"), g);
                let second = guised(ent(b"b", rz::STORED, b"second"), (g + 11) % GUISES.len());
                rz::build(&A { entries: vec![first, second], ..Default::default() })
            })
        })
        .collect();
    let mut turns = vec![];
    for (s, b) in looks.iter().enumerate() {
        for o in headers(b) {
            turns.extend(SIGS.iter().map(|x| (s, (o, 4), *x as u64)));
            turns.extend((0..4).flat_map(|k| [0x00, 0x20, 0xFF].map(|x| (s, (o + k, 1), x))));
        }
        for f in fields(b) {
            let was = b.bytes[f.0 as usize..f.0 as usize + f.1].iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
            let top = if f.1 == 8 { u64::MAX } else { (1 << (8 * f.1)) - 1 };
            turns.extend([1, 2, 4, 30, 46].into_iter().flat_map(|d| [was.wrapping_add(d), was.wrapping_sub(d)]).filter(|v| *v <= top).map(|v| (s, f, v)));
        }
    }
    ctx.each("guises", turns.len() as u64, |i, l| {
        let (s, f, v) = turns[i as usize];
        let mut b = looks[s].bytes.clone();
        put(&mut b, f, v);
        let b = Arc::new(b);
        for k in 0..FRONTS {
            open_all(&b, k, l).map_err(|e| format!("{}, {} bytes at {} = {v:#x}: {}", GUISES[s / 2].0, f.1, f.0, e.msg))?;
        }
        l.state(&("guises", s, f, v));
        Ok(())
    });
    // Two such fields together, values around the ends of the structures.
    let mut both = vec![];
    for (s, b) in seeds.iter().enumerate() {
        let mut near: Vec<u64> = headers(b).into_iter().flat_map(|h| [h.saturating_sub(1), h, h + 1, h + 4]).collect();
        near.extend([0, 1, 2, 3, 0xFFFF, 0xFFFF_FFFF, b.bytes.len() as u64]);
        near.sort();
        near.dedup();
        let fs = fields(b);
        for (j, f) in fs.iter().enumerate() {
            for g in &fs[j + 1..] {
                for x in &near {
                    for y in &near {
                        if (f.1 == 8 || *x < 1 << (8 * f.1)) && (g.1 == 8 || *y < 1 << (8 * g.1)) {
                            both.push((s, *f, *g, *x, *y));
                        }
                    }
                }
            }
        }
    }
    ctx.each("two-places", both.len() as u64, |i, l| {
        let (s, f, g, x, y) = both[i as usize];
        let mut b = seeds[s].bytes.clone();
        put(&mut b, f, x);
        put(&mut b, g, y);
        let b = Arc::new(b);
        for k in [0, 3, 6] {
            open_all(&b, k, l).map_err(|e| format!("archive {s}, fields at {} = {x:#x} and {} = {y:#x}: {}", f.0, g.0, e.msg))?;
        }
        l.state(&(s, f, g, x, y));
        Ok(())
    });
    // Archives cut or moved: nothing is where it is said to be.
    ctx.each("moved", (bytes.len() * 2 * 5) as u64, |i, l| {
        let mut m = Mix(i);
        let (s, o) = *m.of(&bytes);
        let out = m.take(2) == 1;
        let n = [1usize, 2, 3, 4, 30][m.take(5)];
        let mut b = seeds[s].bytes.clone();
        if out {
            let e = (o + n).min(b.len());
            b.drain(o..e);
        } else {
            b.splice(o..o, std::iter::repeat_n(0x20, n));
        }
        let b = Arc::new(b);
        for k in 0..FRONTS {
            open_all(&b, k, l).map_err(|e| format!("archive {s}, {n} bytes {} at {o}: {}", if out { "removed" } else { "inserted" }, e.msg))?;
        }
        l.state(&(s, o, out, n));
        Ok(())
    });
    ctx.finish(
        "wherever the directory, a count or an offset leads to a place at which the bytes do not begin with the signature of what is expected, the call that reads it fails; an entry list has as many entries as there are central headers",
        &["archives in which the signature of the end record occurs twice are left out (see C10)", "what an unaltered archive must deliver is for the other properties"],
    )
}
