//! Hostile input causes errors, not panics, hangs or huge allocations.
use super::c03::{ent, METHODS};
use super::common::*;
use crate::dev::Source;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Built, Dd, End64, A, C, E, K, O, U};
use crate::wops::pattern;
use async_zip::base::read::{mem, seek, stream};
use async_zip::{Compression, ZipEntry, ZipString};
use futures_lite::io::{AsyncRead, AsyncReadExt};
use std::sync::Arc;

/// No single request and no total beyond this: inputs here are below 70 KiB, decoders need up to 4 MiB, and
/// a directory of 65535 entries reserved up front needs about 20 MiB.
const MEMORY: usize = 64 << 20;
const CONTENTS: usize = 4 << 20;

fn text(s: &ZipString) -> u64 {
    let a = s.as_str().map(|x| x.len()).unwrap_or(0);
    let b = s.clone().into_string().map(|x| x.len()).unwrap_or(0);
    (a + b + s.as_bytes().len() + s.alternative().map_or(0, |x| x.len())) as u64
}
/// Touches everything that can be asked about an entry.
fn touch(e: &ZipEntry) -> u64 {
    let d = e.last_modification_date();
    let c = d.as_chrono();
    text(e.filename())
        + text(e.comment())
        + (e.dir().is_ok() as u64)
        + e.unix_permissions().unwrap_or(0) as u64
        + (e.compressed_size() ^ e.uncompressed_size()) % 7
        + e.extra_fields().len() as u64
        + (d.year() as u64 + d.month() as u64 + d.day() as u64 + d.hour() as u64 + d.minute() as u64 + d.second() as u64)
        + matches!(c, chrono::LocalResult::None) as u64
}
async fn drain<R: AsyncRead + Unpin>(r: &mut R) -> u64 {
    let mut b = [0u8; 4096];
    let mut n = 0;
    loop {
        match r.read(&mut b).await {
            Ok(0) => return n as u64,
            Ok(k) => {
                n += k;
                if n > CONTENTS {
                    return n as u64;
                }
            }
            Err(_) => return n as u64 | 1 << 63,
        }
    }
}
/// All readers, to the end. What they answer does not matter here; that they answer does.
fn feed(bytes: Vec<u8>, l: &mut Local) -> R {
    crate::alloc::begin(MEMORY);
    let bytes = Arc::new(bytes);
    let mut sum: u64 = 0;
    let mut open = 0u8;
    now(async {
        if let Ok(z) = mem::ZipFileReader::new(bytes.to_vec()).await {
            open |= 1;
            sum ^= text(z.file().comment()) + z.file().zip64() as u64;
            for i in 0..z.file().entries().len().min(6) {
                sum ^= touch(&z.file().entries()[i]) + z.file().entries()[i].header_size();
                if let Ok(mut r) = z.reader_with_entry(i).await {
                    open |= 2;
                    sum ^= drain(&mut r).await + r.compute_hash() as u64;
                }
                // Checked reads keep all they read: only of what cannot grow beyond the limit.
                if bytes.len() < 4096 && matches!(z.file().entries()[i].compression(), Compression::Stored | Compression::Deflate) {
                    let mut v = vec![];
                    if let Ok(mut r) = z.reader_with_entry(i).await {
                        open |= (r.read_to_end_checked(&mut v).await.is_ok() as u8) << 5;
                    }
                    let mut s = String::new();
                    if let Ok(mut r) = z.reader_with_entry(i).await {
                        open |= (r.read_to_string_checked(&mut s).await.is_ok() as u8) << 6;
                    }
                    sum ^= (v.len() + 3 * s.len()) as u64;
                }
            }
        }
        if let Ok(mut z) = seek::ZipFileReader::new(Source::chunked(&bytes, 600, false)).await {
            open |= 4;
            for i in 0..z.file().entries().len().min(6) {
                if let Ok(mut r) = z.reader_without_entry(i).await {
                    sum ^= drain(&mut r).await;
                }
            }
            let n = z.file().entries().len();
            if let Ok(mut r) = z.into_entry(n.saturating_sub(1)).await {
                sum ^= drain(&mut r).await;
            }
        }
        // Streaming, reading everything.
        let mut z = stream::ZipFileReader::new(Source::new(&bytes));
        while let Ok(Some(mut r)) = z.next_with_entry().await {
            open |= 8;
            sum ^= touch(r.reader_mut().entry());
            let n = drain(r.reader_mut()).await;
            sum ^= n;
            match r.done().await {
                Ok(x) => z = x,
                Err(_) => break,
            }
        }
        // Streaming, skipping everything.
        let mut z = stream::ZipFileReader::new(Source::chunked(&bytes, 100, false));
        while let Ok(Some(r)) = z.next_without_entry().await {
            open |= 16;
            match r.skip().await {
                Ok(x) => z = x,
                Err(_) => break,
            }
        }
    });
    let peak = crate::alloc::end();
    l.step(5);
    l.outcome(&(open, sum));
    if open != 0 {
        l.hit();
    }
    ensure!(peak < MEMORY, "{} bytes of input made the readers hold {peak} bytes", bytes.len());
    Ok(())
}
struct Seed {
    b: Built,
    /// Positions that may be changed.
    ok: Vec<bool>,
    /// Header fields: position, width.
    fields: Vec<(usize, usize)>,
}
fn seed(a: A) -> Seed {
    let b = rz::build(&a);
    let mut ok = vec![true; b.bytes.len()];
    let mut fields = vec![];
    for (i, e) in a.entries.iter().enumerate() {
        let l = &b.locs[i];
        if matches!(e.method, rz::LZMA | rz::XZ | rz::ZSTD) {
            // A changed dictionary size makes the C decoders ask for gigabytes; that is theirs.
            ok[l.data as usize..(l.data + l.csize) as usize].fill(false);
        }
        let f = l.lfh as usize;
        fields.extend([(f, 4), (f + 4, 2), (f + 6, 2), (f + 8, 2), (f + 14, 4), (f + 18, 4), (f + 22, 4), (f + 26, 2), (f + 28, 2)]);
        // sizes inside the extra fields
        let mut x = f + 30 + e.name.len();
        while x + 4 <= l.data as usize {
            fields.extend([(x, 2), (x + 2, 2)]);
            let n = rz::g16(&b.bytes, x + 2) as usize;
            if n >= 8 {
                fields.push((x + 4, 8));
            }
            x += 4 + n;
        }
        if l.end > l.data + l.csize {
            fields.push(((l.data + l.csize) as usize, 4));
        }
        let c = l.cdh as usize;
        fields.extend([
            (c, 4),
            (c + 8, 2),
            (c + 10, 2),
            (c + 14, 2),
            (c + 16, 4),
            (c + 20, 4),
            (c + 24, 4),
            (c + 28, 2),
            (c + 30, 2),
            (c + 32, 2),
            (c + 34, 2),
            (c + 38, 4),
            (c + 42, 4),
        ]);
        let mut x = c + 46 + e.name.len();
        let end = x + rz::g16(&b.bytes, c + 30) as usize;
        while x + 4 <= end {
            fields.extend([(x, 2), (x + 2, 2)]);
            let n = rz::g16(&b.bytes, x + 2) as usize;
            for k in 0..n / 8 {
                fields.push((x + 4 + 8 * k, 8));
            }
            x += 4 + n;
        }
    }
    if let Some(z) = b.z64 {
        let z = z as usize;
        fields.extend([(z, 4), (z + 4, 8), (z + 16, 4), (z + 20, 4), (z + 24, 8), (z + 32, 8), (z + 40, 8), (z + 48, 8)]);
        let q = b.eocd as usize - 20;
        fields.extend([(q, 4), (q + 4, 4), (q + 8, 8), (q + 16, 4)]);
    }
    let q = b.eocd as usize;
    fields.extend([(q, 4), (q + 4, 2), (q + 6, 2), (q + 8, 2), (q + 10, 2), (q + 12, 4), (q + 16, 4), (q + 20, 2)]);
    Seed { b, ok, fields }
}
fn seeds() -> Vec<Seed> {
    let mut v = vec![];
    let mut e = ent(b"a/b.txt", rz::STORED, b"some contents");
    e.lx = vec![(0x9999, vec![1, 2, 3]), (UPATH, ufield(b"a/b.txt", b"a/b.txt"))];
    e.cx = vec![(UPATH, ufield(b"a/b.txt", b"a/b.txt")), (UCOMM, ufield(b"cc", b"cc"))];
    e.comment = b"cc".to_vec();
    let f = ent(b"d", rz::DEFLATE, &pattern(3, 40));
    v.push(seed(A { entries: vec![e.clone(), f.clone()], comment: b"archive".to_vec(), ..Default::default() }));
    let mut z = ent(b"z64", rz::DEFLATE, &pattern(1, 20));
    z.l64 = U | C;
    z.c64 = U | C | O | K;
    v.push(seed(A { entries: vec![z.clone(), e], end64: Some(End64 { mask: 63, ext: vec![] }), ..Default::default() }));
    v.push(seed(A {
        entries: vec![ent(b"x", rz::DEFLATE, &pattern(3, 30)).dd(Dd::Sig), ent(b"y", rz::BZ, b"bz data").dd(Dd::NoSig), ent(b"w", rz::STORED, b"last")],
        ..Default::default()
    }));
    for m in METHODS {
        if m != rz::STORED && m != rz::DEFLATE {
            v.push(seed(A { entries: vec![ent(b"m", m, b"payload of the method, payload")], ..Default::default() }));
        }
    }
    v.push(seed(A { end64: Some(End64 { mask: 0, ext: b"ext".to_vec() }), ..Default::default() }));
    v.push(seed(A { comment: b"c".to_vec(), ..Default::default() }));
    v
}
fn values(w: usize, len: u64) -> Vec<u64> {
    let max = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
    let mut v = vec![
        0,
        1,
        2,
        3,
        4,
        5,
        8,
        0x20,
        30,
        46,
        max,
        max - 1,
        max - 3,
        max / 2,
        max / 2 + 1,
        len,
        len - 1,
        len + 1,
        len / 2,
        0xFFFF,
        0x10000,
        0xFFFFFFFF,
        0x100000000,
        0x7FFFFFFFFFFFFFFF,
        u64::MAX - 4,
        1 << 40,
        50_000_000,
    ];
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
fn put(b: &mut [u8], p: usize, w: usize, v: u64) {
    let w = w.min(b.len() - p);
    b[p..p + w].copy_from_slice(&v.to_le_bytes()[..w]);
}

pub fn run(ctx: &Ctx) -> i32 {
    let seeds = seeds();
    // Every substitution of one byte.
    let pts: Vec<(usize, usize)> =
        (0..seeds.len()).flat_map(|s| (0..seeds[s].ok.len()).filter(|p| seeds[s].ok[*p]).map(|p| (s, p)).collect::<Vec<_>>()).collect();
    ctx.each("byte", pts.len() as u64 * 256, |i, l| {
        let mut m = Mix(i);
        let v = m.take(256) as u8;
        let (s, p) = *m.of(&pts);
        let mut b = seeds[s].b.bytes.clone();
        b[p] = v;
        l.state(&(s, p, v));
        feed(b, l)
    });
    // Every boundary value of every width at every position.
    let mut pv = vec![];
    for (s, p) in &pts {
        let n = seeds[*s].ok.len();
        for w in [2usize, 4, 8] {
            if p + w <= n && seeds[*s].ok[*p..p + w].iter().all(|x| *x) {
                for v in values(w, n as u64) {
                    pv.push((*s, *p, w, v));
                }
            }
        }
    }
    ctx.each("wide", pv.len() as u64, |i, l| {
        let (s, p, w, v) = pv[i as usize];
        let mut b = seeds[s].b.bytes.clone();
        put(&mut b, p, w, v);
        l.state(&(s, p, w, v));
        l.sample(|| format!("seed {s}: {w} bytes at {p} set to {v:#x}"));
        feed(b, l)
    });
    // Every pair of header fields with every pair of boundary values.
    let small = |w: usize, n: u64| -> Vec<u64> {
        let max = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        let mut v = vec![0, 1, 5, max, max - 3, max / 2 + 1, n, 0x04034b50, 65535];
        v.retain(|x| *x <= max);
        v
    };
    let mut pairs = vec![];
    for (s, sd) in seeds.iter().enumerate() {
        for a in 0..sd.fields.len() {
            for b in 0..a {
                pairs.push((s, sd.fields[a], sd.fields[b]));
            }
        }
    }
    ctx.each("pairs", pairs.len() as u64, |i, l| {
        let (s, f, g) = pairs[i as usize];
        let n = seeds[s].b.bytes.len() as u64;
        for x in small(f.1, n) {
            for y in small(g.1, n) {
                let mut b = seeds[s].b.bytes.clone();
                put(&mut b, f.0, f.1, x);
                put(&mut b, g.0, g.1, y);
                feed(b, l)?;
            }
        }
        Ok(())
    });
    // Cuts, insertions, deletions, repetitions.
    let mut cuts = vec![];
    for s in 0..seeds.len() {
        let n = seeds[s].b.bytes.len();
        for p in 0..=n {
            for k in 0..26 {
                cuts.push((s, p, k));
            }
        }
    }
    ctx.each("cuts", cuts.len() as u64, |i, l| {
        let (s, p, k) = cuts[i as usize];
        let o = &seeds[s].b.bytes;
        let b: Vec<u8> = match k {
            0 => o[..p].to_vec(),
            1 => o[p..].to_vec(),
            2..=7 => [&o[..p], &[0u8, 255, b'P', 1, 8, 80][k - 2..k - 1], &o[p..]].concat(),
            8..=15 => [&o[..p], &o[(p + [1, 2, 3, 4, 8, 16, 30, 46][k - 8]).min(o.len())..]].concat(),
            16..=19 => {
                let q = (p + [1, 4, 20, 22][k - 16]).min(o.len());
                [&o[..q], &o[p..]].concat()
            }
            20..=24 => [&o[..p], [&b"PK\x05\x06"[..], b"PK\x06\x07", b"PK\x01\x02", b"PK\x03\x04", b"PK\x07\x08"][k - 20], &o[p..]].concat(),
            _ => [&o[..p], &o[..], &o[p..]].concat(),
        };
        // Cutting or shifting must not hand half a payload to a C decoder as a header; it only shortens it.
        l.state(&(s, p, k));
        feed(b, l)
    });
    // Extra fields: every identifier, claimed and actual length, saturation of the sizes, local and central.
    ctx.each("extra", 5 * 45 * 42 * 8 * 2, |i, l| {
        let mut m = Mix(i);
        let id = [1u16, UPATH, UCOMM, 0x9999, 0][m.take(5)];
        let claimed = [m.take(45)].map(|c| if c < 42 { c as u16 } else { [0xFFFF, 0xFFFC, 0x8000][c - 42] })[0];
        let actual = m.take(42);
        let sat = m.take(8) as u8;
        let twice = m.take(2) == 1;
        let mut e = ent(b"n", rz::STORED, b"data");
        let mut raw = vec![];
        for _ in 0..1 + twice as usize {
            raw.extend(id.to_le_bytes());
            raw.extend(claimed.to_le_bytes());
            raw.extend((0..actual).map(|k| if k == 0 { 1 } else { [0u8, 0x80][k % 2] }));
        }
        e.rec_u = Some(if sat & 1 != 0 { 0xFFFFFFFF } else { 4 });
        e.rec_c = Some(if sat & 2 != 0 { 0xFFFFFFFF } else { 4 });
        let b = raw_extra(&e, &raw, sat & 4 != 0);
        l.state(&(id, claimed, actual, sat, twice));
        feed(b, l)
    });
    // Extra data of every short length over a small alphabet.
    let abc = [0u8, 1, 4, 0x75, 0x70, 0xFF];
    let xs = Seqs { n: 6, depth: if ctx.thorough { 9 } else { 7 } };
    ctx.each("extra-bytes", xs.total(), |i, l| {
        let raw: Vec<u8> = xs.get(i).into_iter().map(|k| abc[k]).collect();
        let e = ent(b"n", rz::STORED, b"data");
        feed(raw_extra(&e, &raw, false), l)
    });
    // All sequences of archive fragments.
    let e = ent(b"f", rz::STORED, b"xy");
    let d = ent(b"g", rz::DEFLATE, b"xyxyxyxy").dd(Dd::Sig);
    let dc = d.comp_bytes();
    let one = A { entries: vec![e.clone()], ..Default::default() };
    let cdl = rz::cdh_bytes(&e, 2, 0).len() as u64;
    let zend = A { end64: Some(End64 { mask: 63, ext: vec![] }), ..Default::default() };
    let (zfull, _, _) = rz::end_bytes(&A { count: Some(1 << 40), count_disk: Some(1 << 40), ..zend.clone() }, 0, 0, 0, 0);
    let frags: Vec<Vec<u8>> = vec![
        rz::lfh_bytes(&e, 2),
        b"xy".to_vec(),
        rz::lfh_bytes(&d, 0),
        dc.clone(),
        rz::dd_bytes(&d, dc.len() as u64),
        rz::cdh_bytes(&e, 2, 0),
        rz::end_bytes(&one, 1, 33, cdl, 0).0,
        rz::end_bytes(&A { count: Some(65535), ..Default::default() }, 0, 0, 0, 0).0,
        zfull[..56].to_vec(),
        zfull[56..76].to_vec(),
        zfull[76..].to_vec(),
        b"PK".to_vec(),
        vec![0; 20],
    ];
    let ts = Seqs { n: frags.len() as u64, depth: if ctx.thorough { 7 } else { 6 } };
    ctx.each("fragments", ts.total(), |i, l| {
        let b: Vec<u8> = ts.get(i).into_iter().flat_map(|k| frags[k].clone()).collect();
        feed(b, l)
    });
    // Every short input.
    let abc = [b'P', b'K', 1u8, 2, 3, 4, 5, 6, 7, 0, 255];
    let ss = Seqs { n: 11, depth: if ctx.thorough { 7 } else { 6 } };
    ctx.each("short", ss.total(), |i, l| feed(ss.get(i).into_iter().map(|k| abc[k]).collect(), l));
    // Sizes and counts claimed beyond the input, with entries that repeat.
    ctx.each("claims", 40 * 12, |i, l| {
        let mut m = Mix(i);
        let count = [
            0u64,
            1,
            2,
            3,
            0xFFFE,
            0xFFFF,
            0x10000,
            1 << 20,
            1 << 24,
            1 << 31,
            1 << 32,
            1 << 40,
            1 << 48,
            1 << 56,
            1 << 60,
            1 << 62,
            1 << 63,
            u64::MAX - 1,
            u64::MAX,
            12345678,
        ][m.take(20)];
        let z = m.take(2) == 1;
        let size = [0u64, 1, 100, 0xFFFFFFFF, 1 << 32, 1 << 40, u64::MAX, u64::MAX - 1, 1 << 63, 0x7FFFFFFF, 65536, 1 << 33][m.take(12)];
        let mut e = ent(b"n", rz::STORED, b"data");
        e.rec_c = Some(size);
        e.rec_u = Some(size);
        e.c64 = U | C;
        e.l64 = U | C;
        let a = A {
            entries: vec![e],
            count: Some(count),
            count_disk: Some(count),
            end64: if z { Some(End64 { mask: 63, ext: vec![] }) } else { None },
            ..Default::default()
        };
        feed(rz::build(&a).bytes, l)
    });
    ctx.finish(
        "every reader, given the input, ends with a value or an error; a panic, a future that stalls or never ends, a request above 64 MiB or more than 64 MiB held is a violation",
        &["bytes inside LZMA, XZ and Zstandard streams are not altered (their C decoders size dictionaries from the stream)", "overflow checks are compiled in", "at most 6 entries and 4 MiB of each are read"],
    )
}
/// An archive of one entry with these raw extra bytes in both headers.
fn raw_extra(e: &E, raw: &[u8], off_sat: bool) -> Vec<u8> {
    let comp = e.comp_bytes();
    let mut b = rz::lfh_bytes(e, comp.len() as u64);
    put(&mut b, 28, 2, raw.len() as u64);
    b.extend_from_slice(raw);
    b.extend_from_slice(&comp);
    let cd = b.len() as u64;
    let mut c = rz::cdh_bytes(e, comp.len() as u64, 0);
    put(&mut c, 30, 2, raw.len() as u64);
    if off_sat {
        put(&mut c, 42, 4, 0xFFFFFFFF);
    }
    c.extend_from_slice(raw);
    let cl = c.len() as u64;
    b.extend(c);
    let here = b.len() as u64;
    b.extend(rz::end_bytes(&A::default(), 1, cd, cl, here).0);
    b
}
