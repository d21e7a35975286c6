//! The archive end is found for every comment length and position.
use super::c03::ent;
use super::common::*;
use crate::dev::Source;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, End64, A};
use crate::wops::pattern;
use async_zip::base::read::{mem, seek};
use async_zip::error::ZipError;
use std::sync::Arc;

fn fill(kind: usize, n: usize) -> Vec<u8> {
    let t: &[u8] = match kind {
        0 => b"c",
        1 => b"PK\x05",
        2 => b"K\x05\x06",
        3 => b"PK\x05\x05\x06PPK\x05",
        4 => b"PK\x06\x07PK\x06\x06PK\x01\x02PK\x03\x04",
        _ => b"\x00",
    };
    // Aligned to the end, so that the pattern meets the end of the file in every phase.
    (0..n).map(|i| t[(n - 1 - i) % t.len()]).rev().collect()
}
/// The comment, or its length field and its beginning together, contains the signature (the known finding).
fn shadowed(b: &rz::Built) -> bool {
    b.bytes[b.eocd as usize + 4..].windows(4).any(|w| w == b"PK\x05\x06")
}
fn open(a: &A, bytes: Vec<u8>, off: u64, chunk: usize, memory: bool, l: &mut Local) -> R {
    let what = || format!("comment of {} bytes, file of {} bytes", a.comment.len(), bytes.len());
    let bytes = Arc::new(bytes.clone());
    let f = if memory {
        now(mem::ZipFileReader::new(bytes.to_vec())).map(|z| z.file().clone())
    } else {
        now(seek::ZipFileReader::new(Source::chunked(&bytes, chunk, false))).map(|z| z.file().clone())
    };
    let f = f.map_err(|e| format!("{}: {e:?}", what()))?;
    l.step(1);
    ensure!(
        f.comment().as_bytes() == a.comment,
        "{}: comment read as {} bytes: {}",
        what(),
        f.comment().as_bytes().len(),
        diff(&a.comment, f.comment().as_bytes())
    );
    ensure!(f.entries().len() == a.entries.len(), "{}: {} entries found", what(), f.entries().len());
    for (k, e) in f.entries().iter().enumerate() {
        let t = Txt::of(e.filename());
        ensure!(t.bytes == a.entries[k].name, "{}: entry {k} has name {t:?}", what());
        if k == 0 {
            ensure!(e.header_offset() == off, "{}: entry at {}", what(), e.header_offset());
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    // All comment lengths x contents x archives.
    let shapes: Vec<A> = vec![
        A { entries: vec![ent(b"only", rz::STORED, b"payload")], ..Default::default() },
        A::default(),
        A { entries: vec![ent(b"z", rz::STORED, b"q")], end64: Some(End64 { mask: 63, ext: vec![] }), ..Default::default() },
    ];
    ctx.each("lengths", 65536 * 6 * 3, |i, l| {
        let mut m = Mix(i);
        let k = m.take(6);
        let mut a = m.of(&shapes).clone();
        let n = m.take(65536);
        if !ctx.thorough && (k > 1 && n % 7 > 1 && n > 4200) {
            return Ok(());
        }
        a.comment = fill(k, n);
        let b = rz::build(&a);
        if shadowed(&b) {
            return Ok(());
        }
        l.state(&(k, n));
        l.hit();
        open(&a, b.bytes, 0, usize::MAX, i % 3 == 0, l)
    });
    // Comments of every kind of text and of no kind: all sequences of pieces of characters, alone and at the end of filling.
    const PIECES: &[&[u8]] = &[
        b"a",
        b"\0",
        b" ",
        b"\r\n",
        &[0xC3, 0xA9],
        &[0xC3],
        &[0xA9],
        &[0xED, 0xA0, 0x80],
        &[0xC0, 0x80],
        &[0xF0, 0x9F, 0x98, 0x80],
        &[0xFF],
        &[0xEF, 0xBB, 0xBF],
    ];
    let pieces = Seqs { n: PIECES.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    ctx.each("texts", pieces.total() * 3 * 3, |i, l| {
        let mut m = Mix(i);
        let mut a = m.of(&shapes).clone();
        let long = m.take(3);
        let s: Vec<u8> = pieces.get(m.0).into_iter().flat_map(|k| PIECES[k].to_vec()).collect();
        a.comment = match long {
            0 => s,
            1 => [&vec![b'c'; 2040][..], &s].concat(),
            _ => [&s, &vec![0xE9; 300][..]].concat(),
        };
        let b = rz::build(&a);
        l.state(&(long, &a.comment));
        l.hit();
        open(&a, b.bytes, 0, usize::MAX, i % 3 == 0, l)
    });
    // Short files: the record at every distance from the start and from the end.
    let pre = if ctx.thorough { 4300 } else { 2200 };
    let comments: Vec<usize> = (0..6).chain(2020..2052).chain(4064..4096).chain([65533, 65534, 65535]).collect();
    ctx.each("positions", (pre * comments.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let k = [0, 3][m.take(2)];
        let p = m.take(pre);
        let c = *m.of(&comments);
        if c > 60000 && p > 40 && !ctx.thorough {
            return Ok(());
        }
        let mut e = ent(b"e", rz::STORED, b"d");
        e.gap = pattern(4, p);
        let a = A { entries: vec![e], comment: fill(k, c), ..Default::default() };
        let b = rz::build(&a);
        if shadowed(&b) {
            return Ok(());
        }
        l.state(&(p, c, k));
        l.sample(|| format!("{p} bytes before the archive, comment of {c} bytes"));
        open(&a, b.bytes.clone(), b.locs[0].lfh, [usize::MAX, 1, 100][(i % 3) as usize], false, l)
    });
    // Look-alikes right before the record: tails of the last entry comment, all short strings over the
    // signature's bytes.
    let abc = [b'P', b'K', 5u8, 6u8, b'x'];
    let seqs = Seqs { n: 5, depth: if ctx.thorough { 7 } else { 6 } };
    ctx.each("before", seqs.total() * 2, |i, l| {
        let mut m = Mix(i);
        let where_ = m.take(2);
        let s: Vec<u8> = seqs.get(m.0).into_iter().map(|k| abc[k]).collect();
        let mut e = ent(b"e", rz::STORED, b"d");
        if where_ == 0 {
            e.comment = s;
        } else {
            e.data = s.clone();
            e.comp = Some(s);
        }
        let a = A { entries: vec![e], comment: b"c".to_vec(), ..Default::default() };
        open(&a, rz::build(&a).bytes, 0, usize::MAX, false, l)
    });
    // Near-signatures inside the comment: all short strings without the signature itself, at several depths.
    let depths = [0usize, 1, 2, 3, 2021, 2022, 2023, 2024, 2025, 2026, 2027, 4066, 4067, 4068, 4069, 4070];
    let seqs2 = Seqs { n: 5, depth: if ctx.thorough { 6 } else { 5 } };
    ctx.each("within", seqs2.total() * depths.len() as u64, |i, l| {
        let mut m = Mix(i);
        let d = *m.of(&depths);
        let s: Vec<u8> = seqs2.get(m.0).into_iter().map(|k| abc[k]).collect();
        if s.windows(4).any(|w| w == b"PK\x05\x06") {
            return Ok(());
        }
        let mut c = vec![b'-'; 3];
        c.extend(&s);
        c.resize(c.len() + d, b'-');
        let a = A { entries: vec![ent(b"e", rz::STORED, b"d")], comment: c, ..Default::default() };
        open(&a, rz::build(&a).bytes, 0, usize::MAX, false, l)
    });
    // Complete look-alike records in front of the real one, at every distance.
    ctx.each("decoys", 4200, |i, l| {
        let inner = rz::build(&A { entries: vec![ent(b"inner", rz::STORED, b"i")], ..Default::default() }).bytes;
        let mut e = ent(b"outer", rz::STORED, &inner);
        e.comp = Some(inner.clone());
        let mut f = ent(b"gap", rz::STORED, &vec![b'g'; i as usize]);
        f.comp = Some(vec![b'g'; i as usize]);
        let a = A { entries: vec![e, f], comment: b"outer comment".to_vec(), ..Default::default() };
        open(&a, rz::build(&a).bytes, 0, usize::MAX, i % 2 == 0, l)
    });
    // No record at all.
    let mut lens: Vec<usize> = (0..if ctx.thorough { 6300 } else { 4200 }).collect();
    lens.extend((65500..65700).chain([66000, 67600, 70000, 131072]));
    ctx.each("none", (lens.len() * 6) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(6);
        let n = *m.of(&lens);
        let bytes = Arc::new(fill(k, n));
        l.step(1);
        match now(seek::ZipFileReader::new(Source::new(&bytes))) {
            Err(ZipError::UnableToLocateEOCDR) => Ok(()),
            Err(e) => bail!("{n} bytes without an end record: {e:?}"),
            Ok(_) => bail!("{n} bytes without an end record opened"),
        }
    });
    // A known limit (see known_findings.txt).
    ctx.each("signature-in-comment", 1, |_, l| {
        let a = A { entries: vec![ent(b"n", rz::STORED, b"x")], comment: b"see PK\x05\x06 for details on this matter".to_vec(), ..Default::default() };
        open(&a, rz::build(&a).bytes, 0, usize::MAX, false, l).map_err(|f| Fail { key: Some("eocd-signature-in-archive-comment"), msg: f.msg })
    });
    ctx.finish(
        "the opened archive reports the comment and the entries that the reference encoder wrote; inputs without a record fail with UnableToLocateEOCDR",
        &[
            "the archive comment itself does not contain the signature (known finding)",
            "quick covers all 65536 lengths with two comment contents and every length to 4200 with six",
        ],
    )
}
