//! Source failures and early ends surface as errors, never as data or a clean end.
use super::c03::{ent, variants, METHODS};
use super::common::*;
use crate::dev::*;
use crate::engine::*;
use crate::exec;
use crate::panel::*;
use crate::refzip::{self as rz, Built, Dd, End64, A};
use crate::wops::pattern;
use async_zip::base::read::{seek, stream};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeek, BufReader};
use std::sync::Arc;
use tokio_util::compat::{FuturesAsyncReadCompatExt, TokioAsyncReadCompatExt};

pub struct Truth {
    pub a: A,
    pub b: Built,
    pub bytes: Arc<Vec<u8>>,
}
pub fn truth(a: A) -> Truth {
    let b = rz::build(&a);
    let bytes = Arc::new(b.bytes.clone());
    Truth { a, b, bytes }
}
pub fn truths() -> Vec<Truth> {
    let vs = variants();
    let mut v = vec![
        truth(A {
            entries: vec![ent(b"first name", rz::STORED, b"stored data"), ent(b"second", rz::DEFLATE, &pattern(3, 60))],
            comment: b"archive comment".to_vec(),
            ..Default::default()
        }),
        truth(A {
            entries: vec![
                ent(b"d", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig),
                ent(b"n", rz::DEFLATE, b"no signature").dd(Dd::NoSig),
                ent(b"tail", rz::STORED, b"0123456789"),
            ],
            end64: Some(End64 { mask: 63, ext: vec![] }),
            ..Default::default()
        }),
        truth(A::default()),
    ];
    for k in [17usize, 18] {
        v.push(truth(A { entries: vec![vs[k].clone(), ent(b"z", rz::STORED, b"")], ..Default::default() }));
    }
    let mut e = ent(b"raw\xFFname", rz::STORED, b"plain");
    e.comment = b"entry comment".to_vec();
    e.lx = vec![(0x9999, vec![7; 20])];
    e.cx = vec![(0x9999, vec![7; 20]), (UCOMM, ufield(b"entry comment", "ünicode".as_bytes()))];
    v.push(truth(A { entries: vec![e.clone(), e], ..Default::default() }));
    for m in METHODS {
        v.push(truth(A { entries: vec![ent(b"m1", m, &pattern(3, 90)), ent(b"m2", m, &pattern(2, 40))], ..Default::default() }));
    }
    v
}
/// A call during which the source failed must itself fail.
fn surfaced<T>(src: &Source, before: u64, r: &Result<T, String>, what: &str) -> R {
    if src.errors() > before && r.is_ok() {
        bail!("{what} succeeded although its source failed");
    }
    Ok(())
}
fn prefix(t: &Truth, i: usize, d: &[u8], what: &str) -> R {
    let w = &t.a.entries[i].data;
    ensure!(d.len() <= w.len() && w[..d.len()] == *d, "{what}: delivered bytes of entry {i} are no prefix of its contents: {}", diff(w, d));
    Ok(())
}
fn es(e: ZipError) -> String {
    ek(&e)
}
fn io(e: std::io::Error) -> String {
    format!("{e:?}")
}
/// Reads one entry in one of four ways. `whole` tells whether the source was whole all the time.
async fn read_entry<R: AsyncBufRead + Unpin>(
    t: &Truth,
    i: usize,
    r: &mut async_zip::base::read::ZipEntryReader<'_, R, async_zip::base::read::WithEntry<'_>>,
    src: &Source,
    how: usize,
    whole: bool,
    known_crc: bool,
) -> Result<bool, Fail> {
    let true_len = t.a.entries[i].data.len();
    let e0 = src.errors();
    match how {
        0 => {
            let mut out = vec![];
            let x = r.read_to_end(&mut out).await.map_err(io);
            surfaced(src, e0, &x, "read_to_end")?;
            prefix(t, i, &out, "read_to_end")?;
            if x.is_ok() && whole {
                ensure!(out.len() == true_len, "read_to_end ended after {} of {true_len} bytes of entry {i}", out.len());
            }
            Ok(x.is_ok())
        }
        1 | 2 => {
            // Chunks; in way 2 a checked read follows, also after a failed read.
            let mut out = vec![];
            let mut bad = false;
            loop {
                if how == 2 && out.len() >= 3 {
                    break;
                }
                let mut b = [0u8; 3];
                let e = src.errors();
                let x = r.read(&mut b).await.map_err(io);
                surfaced(src, e, &x, "read")?;
                match x {
                    Ok(0) => break,
                    Ok(n) => out.extend_from_slice(&b[..n]),
                    Err(_) => {
                        bad = true;
                        break;
                    }
                }
            }
            prefix(t, i, &out, "read")?;
            if how == 1 {
                ensure!(bad || !whole || out.len() == true_len, "read reported the end after {} of {true_len} bytes of entry {i}", out.len());
                return Ok(!bad);
            }
            let e = src.errors();
            let x = r.read_to_end_checked(&mut out).await.map_err(es);
            surfaced(src, e, &x, "read_to_end_checked")?;
            if x.is_ok() && known_crc {
                ensure!(out == t.a.entries[i].data, "a checked read succeeded on incomplete contents of entry {i}: {}", diff(&t.a.entries[i].data, &out));
            }
            if !bad {
                prefix(t, i, &out, "read_to_end_checked")?;
            }
            Ok(x.is_ok() && !bad)
        }
        _ => {
            let mut out = String::new();
            let x = r.read_to_string_checked(&mut out).await.map_err(es);
            surfaced(src, e0, &x, "read_to_string_checked")?;
            if x.is_ok() && known_crc {
                ensure!(out.as_bytes() == t.a.entries[i].data, "a checked read succeeded on incomplete contents of entry {i}");
            }
            Ok(x.is_ok())
        }
    }
}
fn check_file(t: &Truth, f: &async_zip::ZipFile) -> R {
    ensure!(f.entries().len() == t.a.entries.len(), "{} entries listed, archive has {}", f.entries().len(), t.a.entries.len());
    for (i, e) in f.entries().iter().enumerate() {
        let mut m = meta(e);
        m.off = Some(place(e));
        let w = want_meta(&t.a.entries[i], t.b.locs[i].csize, t.b.locs[i].lfh);
        ensure!(m == w, "entry {i} listed as {m:?}, archive says {w:?}");
    }
    ensure!(f.comment().as_bytes() == t.a.comment, "archive comment listed as {:?}", f.comment());
    Ok(())
}
/// Opens and reads everything, retrying each failed entry once. `cut` shortens the source after opening.
async fn seek_run<R: AsyncBufRead + AsyncSeek + Unpin>(
    t: &Truth,
    open: Result<seek::ZipFileReader<R>, ZipError>,
    src: &Source,
    how: usize,
    whole: bool,
    cut: Option<usize>,
) -> Result<u64, Fail> {
    let open = open.map_err(es);
    surfaced(src, 0, &open, "open")?;
    let mut z = match open {
        Ok(z) => z,
        Err(e) => {
            ensure!(!whole || src.errors() > 0, "open failed with {e} on a whole source");
            return Ok(1);
        }
    };
    check_file(t, z.file())?;
    if let Some(n) = cut {
        let mut s = src.0.borrow_mut();
        s.limit = n;
    }
    let whole = whole && cut.is_none();
    let mut calls = 1;
    for i in 0..t.a.entries.len() {
        for attempt in 0..2 {
            calls += 2;
            let e0 = src.errors();
            let r = z.reader_with_entry(i).await.map_err(es);
            surfaced(src, e0, &r, "reader_with_entry")?;
            let mut r = match r {
                Ok(r) => r,
                Err(e) => {
                    ensure!(!whole || src.errors() > e0, "attempt {attempt}: opening entry {i} failed with {e} although the source worked");
                    continue;
                }
            };
            let text = std::str::from_utf8(&t.a.entries[i].data).is_ok();
            let ok = read_entry(t, i, &mut r, src, if how == 3 && !text { 0 } else { how }, whole, true).await?;
            ensure!(ok || !whole || src.errors() > e0, "attempt {attempt}: reading entry {i} failed although the source worked");
            if ok {
                break;
            }
        }
    }
    Ok(calls)
}
async fn stream_run<R: AsyncBufRead + Unpin>(t: &Truth, z: stream::ZipFileReader<stream::Ready<R>>, src: &Source, how: usize, cut: usize) -> Result<u64, Fail> {
    let mut z = z;
    let whole = cut == t.bytes.len();
    let mut calls = 0;
    for i in 0..=t.a.entries.len() {
        calls += 3;
        let e0 = src.errors();
        let r = z.next_with_entry().await.map_err(es);
        surfaced(src, e0, &r, "next_with_entry")?;
        let mut r = match r {
            Err(e) => {
                let unsupported = t.a.entries.get(i).is_some_and(|e| e.method == rz::STORED && e.dd != Dd::None);
                ensure!(!whole || src.errors() > e0 || unsupported, "next entry failed with {e} on a whole source");
                return Ok(calls);
            }
            Ok(None) => {
                ensure!(i == t.a.entries.len(), "clean end after {i} of {} entries", t.a.entries.len());
                ensure!(cut >= t.b.cd as usize + 4, "clean end of a stream cut at {cut}, before its directory at {}", t.b.cd);
                return Ok(calls);
            }
            Ok(Some(r)) => r,
        };
        ensure!(i < t.a.entries.len(), "an entry that is not in the archive");
        let m = meta(r.reader().entry());
        check_stream_meta(&t.a.entries[i], t.b.locs[i].csize, &m).map_err(|e| format!("entry {i}: {e}"))?;
        let known = t.a.entries[i].dd == Dd::None || t.a.entries[i].dd_keep;
        let text = std::str::from_utf8(&t.a.entries[i].data).is_ok();
        let mut bad = false;
        if let Some(n) = [0, 3].get(how.wrapping_sub(5)) {
            // Declared done after few bytes or none: true only for the shortest entries.
            let mut b = [0u8; 3];
            let e = src.errors();
            let x = if *n > 0 { r.reader_mut().read(&mut b).await.map_err(io) } else { Ok(0) };
            surfaced(src, e, &x, "read")?;
            let Ok(k) = x else { return Ok(calls) };
            prefix(t, i, &b[..k], "read")?;
            let e = src.errors();
            let x = r.done().await.map_err(es);
            surfaced(src, e, &x, "done")?;
            match x {
                Ok(n) => {
                    ensure!(!whole || k == t.a.entries[i].data.len(), "entry {i} is done after {k} bytes");
                    z = n;
                    continue;
                }
                Err(e) => {
                    let left = k < t.a.entries[i].data.len();
                    ensure!(!whole || src.errors() > e0 || (left && e == "EOFNotReached"), "done after {k} bytes of entry {i} failed with {e}");
                    return Ok(calls);
                }
            }
        }
        match how {
            4 => {}
            _ => {
                let how = if (how == 3 && !text) || (how >= 2 && !known) { 0 } else { how };
                let ok = read_entry(t, i, r.reader_mut(), src, how, whole, known).await?;
                bad = !ok;
                ensure!(ok || !whole || src.errors() > e0, "reading entry {i} failed although the source worked");
            }
        }
        if bad {
            // Where a failed entry reader stands is unspecified; only the failure of done/skip matters now.
            let e0 = src.errors();
            let r = r.skip().await.map_err(es);
            surfaced(src, e0, &r, "skip")?;
            return Ok(calls);
        }
        let e0 = src.errors();
        let (r, what) = if how == 4 { (r.skip().await.map_err(es), "skip") } else { (r.done().await.map_err(es), "done") };
        surfaced(src, e0, &r, what)?;
        match r {
            Ok(n) => {
                let end = t.b.locs[i].end;
                ensure!(t.a.entries[i].dd == Dd::None || cut as u64 >= end, "{what} of entry {i} succeeded, its data descriptor was cut off at {cut}");
                z = n
            }
            Err(e) => {
                ensure!(!whole || src.errors() > e0, "{what} of entry {i} failed with {e} although the source worked");
                return Ok(calls);
            }
        }
    }
    bail!("more entries than the archive has")
}
const WAYS: usize = 15;
/// Ways 0..8 seekable (4 readings x bare, tokio), 8..15 streaming.
fn drive(t: &Truth, way: usize, src: Source, whole: bool, after: Option<usize>) -> Result<u64, Fail> {
    let s2 = src.clone();
    let cut = src.0.borrow().limit;
    let r = exec::run(async {
        match way {
            0..=3 => seek_run(t, seek::ZipFileReader::new(src).await, &s2, way, whole, after).await,
            4 | 5 => {
                let r = BufReader::with_capacity(16, src);
                seek_run(t, seek::ZipFileReader::new(r).await, &s2, way - 4, whole, after).await
            }
            6 | 7 => {
                let z = seek::ZipFileReader::with_tokio(FuturesAsyncReadCompatExt::compat(src)).await;
                seek_run(t, z, &s2, way - 5, whole, after).await
            }
            8..=13 => stream_run(t, stream::ZipFileReader::new(src), &s2, [0, 1, 2, 4, 5, 6][way - 8], cut).await,
            _ => {
                let z = stream::ZipFileReader::new(TokioAsyncReadCompatExt::compat(FuturesAsyncReadCompatExt::compat(src)));
                stream_run(t, z, &s2, 1, cut).await
            }
        }
    });
    match r {
        Ok(r) => r,
        Err(_) => bail!("stalled although the source was ready"),
    }
}
fn streamable(t: &Truth) -> bool {
    t.a.entries.iter().all(|e| !(e.method == rz::DEFLATE64 && e.dd != Dd::None))
}

pub fn run(ctx: &Ctx) -> i32 {
    let ts = truths();
    // A failure at every source operation, once or for ever, mixed with short and pending answers.
    ctx.explore("failures", (ts.len() * WAYS * 2) as u64, if ctx.thorough { 4 } else { 3 }, |i, ch, l| {
        let mut m = Mix(i);
        let sticky = m.take(2) == 1;
        let way = m.take(WAYS);
        let t = &ts[m.take(ts.len())];
        if way >= 8 && !streamable(t) {
            return Ok(());
        }
        let src = Source::scripted(&t.bytes, ch, READ_FAULTS, SEEK_FAULTS);
        src.0.borrow_mut().sticky = sticky;
        let s2 = src.clone();
        let calls = drive(t, way, src, true, None)?;
        l.step(calls + s2.ops());
        l.state(&(i, s2.ops(), s2.errors()));
        if s2.errors() > 0 {
            l.hit();
        }
        Ok(())
    });
    // Cut at every byte, delivered at once or in small pieces.
    let mut offs = vec![0u64];
    for t in &ts {
        offs.push(offs.last().unwrap() + t.bytes.len() as u64 + 1);
    }
    let total = *offs.last().unwrap();
    let chunks = [usize::MAX, 1, 7];
    ctx.each("cuts", total * WAYS as u64 * 3, |i, l| {
        let mut m = Mix(i);
        let way = m.take(WAYS);
        let chunk = *m.of(&chunks);
        let k = offs.partition_point(|o| *o <= m.0) - 1;
        let (t, n) = (&ts[k], (m.0 - offs[k]) as usize);
        if way >= 8 && !streamable(t) {
            return Ok(());
        }
        let src = Source::chunked(&t.bytes, chunk, false).limit(n);
        let s2 = src.clone();
        let calls =
            drive(t, way, src, n == t.bytes.len(), None).map_err(|f| Fail { msg: format!("archive {k} cut at {n} of {}: {}", t.bytes.len(), f.msg), ..f })?;
        l.step(calls + s2.ops());
        l.state(&(k, n, way));
        l.sample(|| format!("archive {k} cut at byte {n}, way {way}, chunks of {chunk}"));
        l.hit();
        Ok(())
    });
    // A failure at every byte, once or for ever.
    ctx.each("failure-bytes", total * WAYS as u64 * 6, |i, l| {
        let mut m = Mix(i);
        let way = m.take(WAYS);
        let chunk = *m.of(&chunks);
        let sticky = m.take(2) == 1;
        let k = offs.partition_point(|o| *o <= m.0) - 1;
        let (t, n) = (&ts[k], m.0 - offs[k]);
        if way >= 8 && !streamable(t) {
            return Ok(());
        }
        let src = Source::chunked(&t.bytes, chunk, false);
        src.0.borrow_mut().sticky = sticky;
        src.0.borrow_mut().fail_at = Some(n);
        let s2 = src.clone();
        let calls = drive(t, way, src, true, None).map_err(|f| Fail { msg: format!("archive {k} failing at {n} of {}: {}", t.bytes.len(), f.msg), ..f })?;
        l.step(calls + s2.ops());
        l.state(&(k, n, way, sticky));
        l.hit();
        Ok(())
    });
    // Entries that look unusual otherwise: cut at, or failing at, each byte (large headers: near their borders).
    let disguised: Vec<Truth> = (0..GUISES.len())
        .map(|g| {
            truth(A {
                entries: vec![
                    guised(ent(b"first", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig), g),
                    guised(ent(b"second", rz::STORED, b"0123456789"), g),
                    guised(ent(b"third", rz::DEFLATE, b"third"), (g * 7 + 3) % GUISES.len()),
                ],
                ..Default::default()
            })
        })
        .collect();
    let pts: Vec<(usize, usize)> = (0..disguised.len())
        .flat_map(|k| {
            let t = &disguised[k];
            let n = t.bytes.len();
            let mut at: Vec<usize> = (0..=n).collect();
            if n > 2000 {
                let near: Vec<u64> = t.b.locs.iter().flat_map(|x| [x.lfh, x.data, x.data + x.csize, x.end, x.cdh]).chain([t.b.eocd]).collect();
                at.retain(|p| p % 4001 == 0 || near.iter().any(|q| (*p as i64 - *q as i64).abs() < 20));
            }
            at.into_iter().map(move |p| (k, p))
        })
        .collect();
    ctx.each("guises", (pts.len() * WAYS * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let way = m.take(WAYS);
        let how = m.take(3);
        let (k, n) = *m.of(&pts);
        let t = &disguised[k];
        let src = if how == 0 { Source::new(&t.bytes).limit(n) } else { Source::new(&t.bytes) };
        if how > 0 {
            let mut s = src.0.borrow_mut();
            s.fail_at = Some(n as u64);
            s.sticky = how == 2;
        }
        let calls = drive(t, way, src, how > 0 || n == t.bytes.len(), None).map_err(|f| Fail {
            msg: format!("{} {} {n} of {}: {}", GUISES[k].0, ["cut at", "failing once at", "failing from"][how], t.bytes.len(), f.msg),
            ..f
        })?;
        l.step(calls);
        l.state(&(k, n, way, how));
        l.hit();
        Ok(())
    });
    // Larger entries, beyond every buffer in play.
    let large: Vec<Truth> = [rz::STORED, rz::DEFLATE, rz::ZSTD, rz::BZ]
        .iter()
        .map(|m| truth(A { entries: vec![ent(b"large", *m, &pattern(2, 9000)), ent(b"after", rz::STORED, b"x")], ..Default::default() }))
        .collect();
    let step = if ctx.thorough { 1 } else { 13 };
    let pts: Vec<(usize, usize)> = (0..large.len()).flat_map(|k| (0..large[k].bytes.len()).step_by(step).map(move |n| (k, n))).collect();
    ctx.each("cuts-large", (pts.len() * WAYS) as u64, |i, l| {
        let (way, (k, n)) = (i as usize % WAYS, pts[i as usize / WAYS]);
        let src = Source::chunked(&large[k].bytes, 1000, false).limit(n);
        let calls = drive(&large[k], way, src, false, None).map_err(|f| Fail { msg: format!("large archive {k} cut at {n}: {}", f.msg), ..f })?;
        l.step(calls);
        l.hit();
        Ok(())
    });
    // Far larger ones, cut or failing around every multiple of the usual buffer sizes.
    let huge: Vec<Truth> = [rz::STORED, rz::DEFLATE, rz::ZSTD]
        .iter()
        .map(|m| {
            truth(A {
                entries: vec![
                    ent(b"huge", *m, &pattern(2, 150_000)).dd(if *m == rz::STORED { Dd::None } else { Dd::Sig }),
                    ent(b"after", *m, &pattern(3, 70_000)),
                ],
                ..Default::default()
            })
        })
        .collect();
    let pts: Vec<(usize, usize)> = (0..huge.len())
        .flat_map(|k| {
            let t = &huge[k];
            let mut at: Vec<usize> = (1..).map(|n| n * 8192).take_while(|n| *n < t.bytes.len()).flat_map(|n| [n - 1, n, n + 1]).collect();
            for x in &t.b.locs {
                at.extend([x.lfh, x.data, x.data + x.csize, x.end].iter().flat_map(|n| [(*n as usize).saturating_sub(1), *n as usize, *n as usize + 1]));
            }
            at.into_iter().map(move |n| (k, n))
        })
        .collect();
    ctx.each("cuts-huge", (pts.len() * WAYS * 2) as u64, |i, l| {
        let (fail, way, (k, n)) = (i % 2 == 1, i as usize / 2 % WAYS, pts[i as usize / 2 / WAYS]);
        let src = if fail { Source::new(&huge[k].bytes) } else { Source::new(&huge[k].bytes).limit(n) };
        if fail {
            let mut s = src.0.borrow_mut();
            s.fail_at = Some(n as u64);
            s.sticky = true;
        }
        let calls = drive(&huge[k], way, src, fail, None).map_err(|f| Fail { msg: format!("huge archive {k} at {n}: {}", f.msg), ..f })?;
        l.step(calls);
        l.state(&(k, n, way, fail));
        l.hit();
        Ok(())
    });
    // The source shrinks to every length after the archive was opened.
    ctx.each("shrink", total * 8 * 2, |i, l| {
        let mut m = Mix(i);
        let way = m.take(8);
        let chunk = chunks[m.take(2)];
        let k = offs.partition_point(|o| *o <= m.0) - 1;
        let (t, n) = (&ts[k], (m.0 - offs[k]) as usize);
        let src = Source::chunked(&t.bytes, chunk, false);
        let s2 = src.clone();
        let calls = drive(t, way, src, true, Some(n)).map_err(|f| Fail { msg: format!("archive {k} shrunk to {n} of {}: {}", t.bytes.len(), f.msg), ..f })?;
        l.step(calls + s2.ops());
        l.hit();
        Ok(())
    });
    // The same with a file: cut before opening, and truncated or removed after opening.
    let fk: Vec<usize> = if ctx.thorough { (0..ts.len()).collect() } else { vec![0, 1, 5] };
    let fo: Vec<(usize, usize)> = fk.iter().flat_map(|k| (0..=ts[*k].bytes.len()).map(move |n| (*k, n))).collect();
    ctx.each("file", fo.len() as u64 * 2, |i, l| {
        let (k, n) = fo[i as usize / 2];
        let t = &ts[k];
        let after = i % 2 == 1;
        let f = Scratch::new(if after { &t.bytes } else { &t.bytes[..n] });
        l.step(2);
        l.hit();
        rt(async {
            let z = match async_zip::tokio::read::fs::ZipFileReader::new(&f.0).await {
                Ok(z) => z,
                Err(e) => {
                    ensure!(!after && n < t.bytes.len(), "file reader: open failed with {e:?}");
                    return Ok(());
                }
            };
            check_file(t, z.file()).map_err(|f| Fail { msg: format!("file cut at {n}: {}", f.msg), ..f })?;
            if after {
                std::fs::write(&f.0, &t.bytes[..n]).expect("truncate scratch file");
            }
            for j in 0..t.a.entries.len() {
                let Ok(mut r) = z.reader_with_entry(j).await else {
                    ensure!(n < t.bytes.len(), "file reader: entry {j} failed on a whole file");
                    continue;
                };
                let mut out = vec![];
                let x = r.read_to_end_checked(&mut out).await;
                prefix(t, j, &out, "file reader")?;
                ensure!(x.is_err() || out == t.a.entries[j].data, "file reader: checked read of entry {j} accepted {} bytes", out.len());
                ensure!(x.is_ok() || n < t.bytes.len(), "file reader: entry {j}: {x:?}");
            }
            let _ = std::fs::remove_file(&f.0);
            ensure!(t.a.entries.is_empty() || z.reader_with_entry(0).await.is_err(), "opened an entry of a removed file");
            Ok(())
        })
    });
    // The failure is of any kind, at any byte, for ever.
    let some: Vec<&Truth> = [0usize, 1, 5, 6, 7].iter().map(|k| &ts[*k]).collect();
    ctx.each("kinds", (some.len() * WAYS * FAILS) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(FAILS);
        let way = m.take(WAYS);
        let t = some[m.take(some.len())];
        if way >= 8 && !streamable(t) {
            return Ok(());
        }
        let _g = fail_with(k);
        let n = t.bytes.len() as u64;
        // The first kind is what the other domains use.
        for at in (0..n).filter(|at| k > 0 || at % 7 == 0) {
            let src = Source::new(&t.bytes);
            {
                let mut s = src.0.borrow_mut();
                s.fail_at = Some(at);
                s.sticky = true;
            }
            let calls = drive(t, way, src, true, None).map_err(|f| Fail { msg: format!("{} at byte {at} of {n}, way {way}: {}", fail_name(k), f.msg), ..f })?;
            l.step(calls);
            l.state(&(i, at));
        }
        l.hit();
        Ok(())
    });
    // The same at any operation of the source, seeks included.
    ctx.explore("kinds-operations", (some.len() * WAYS * FAILS * 2) as u64, if ctx.thorough { 2 } else { 1 }, |i, ch, l| {
        let mut m = Mix(i);
        let k = m.take(FAILS);
        let sticky = m.take(2) == 1;
        let way = m.take(WAYS);
        let t = some[m.take(some.len())];
        if way >= 8 && !streamable(t) {
            return Ok(());
        }
        let _g = fail_with(k);
        let src = Source::scripted(&t.bytes, ch, READ_FAULTS, SEEK_FAULTS);
        src.0.borrow_mut().sticky = sticky;
        let s2 = src.clone();
        let calls = drive(t, way, src, true, None).map_err(|f| Fail { msg: format!("{}, way {way}: {}", fail_name(k), f.msg), ..f })?;
        l.step(calls + s2.ops());
        l.state(&(i, s2.ops(), s2.errors()));
        if s2.errors() > 0 {
            l.hit();
        }
        Ok(())
    });
    ctx.finish(
        "every call during which the source failed returned an error; listed metadata equals the archive's; delivered bytes are a prefix; checked reads succeed only on complete contents; no clean end before the directory",
        &["the source reports failures as io errors other than Interrupted"],
    )
}
