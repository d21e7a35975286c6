//! Reading goes on correctly after abandoned and failed calls.
use super::c03::{ent, METHODS};
use super::common::*;
use crate::dev::*;
use crate::engine::*;
use crate::exec::{now, run as exec_run};
use crate::panel::*;
use crate::refzip::{self as rz, Dd, A, E};
use crate::wops::pattern;
use async_zip::base::read::{seek, stream};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, BufReader};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// Polls a future up to `polls` times; None if it has not completed by then.
fn poll_some<F: Future>(f: F, polls: usize) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..polls {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}
/// Reads everything; at each pending read the explorer may abandon the call and issue another of another size.
fn read_abandoning<R: AsyncRead + Unpin>(r: &mut R, ch: &Ch, l: &mut Local, sizes: [usize; 4], first: usize) -> Result<Vec<u8>, String> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut out = vec![];
    let mut size = sizes[first];
    let mut polls = 0u64;
    loop {
        let mut b = vec![0xA5; size];
        loop {
            polls += 1;
            if polls > 400_000 {
                return Err("does not end".into());
            }
            l.step(1);
            match Pin::new(&mut *r).poll_read(&mut cx, &mut b) {
                Poll::Ready(Ok(0)) => return Ok(out),
                Poll::Ready(Ok(n)) => {
                    out.extend_from_slice(&b[..n]);
                    break;
                }
                Poll::Ready(Err(e)) => return Err(e.to_string()),
                Poll::Pending => {
                    let c = ch.borrow_mut().choose(1 + sizes.len());
                    if c > 0 {
                        l.state(&(out.len(), c));
                        size = sizes[c - 1];
                        break;
                    }
                }
            }
        }
    }
}
fn entries() -> Vec<E> {
    let mut v: Vec<E> = METHODS.iter().map(|m| ent(b"entry", *m, &pattern(3, 60))).collect();
    v.push(ent(b"described", rz::DEFLATE, &pattern(4, 90)).dd(Dd::Sig));
    v.push(ent(b"long", rz::DEFLATE, &pattern(1, 3000)));
    v.push(ent(b"noise", rz::STORED, &pattern(4, 150)));
    v
}
/// Opens, reads, checks.
async fn read_entry<I: AsyncRead + AsyncBufRead + AsyncSeek + Unpin>(z: &mut seek::ZipFileReader<I>, k: usize, e: &E, with: bool) -> Result<(), String> {
    let mut v = vec![];
    if with {
        let mut r = z.reader_with_entry(k).await.map_err(|x| format!("open {k}: {}", ek(&x)))?;
        r.read_to_end_checked(&mut v).await.map_err(|x| format!("read {k}: {}", ek(&x)))?;
    } else {
        let mut r = z.reader_without_entry(k).await.map_err(|x| format!("open {k}: {}", ek(&x)))?;
        r.read_to_end(&mut v).await.map_err(|x| format!("read {k}: {x}"))?;
    }
    if v != e.data {
        return Err(format!("entry {k}: {}", diff(&e.data, &v)));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let es = entries();
    let chunks = [usize::MAX, 1, 5];
    // Reads of an entry abandoned where they wait, and issued again.
    let singles: Vec<(A, Arc<Vec<u8>>)> = es
        .iter()
        .map(|e| {
            let a = A { entries: vec![e.clone(), ent(b"next", rz::STORED, b"the next one")], ..Default::default() };
            let b = Arc::new(rz::build(&a).bytes);
            (a, b)
        })
        .collect();
    let abandoned = |(a, bytes): &(A, Arc<Vec<u8>>), chunk: usize, way: usize, first: usize, ch: &Ch, l: &mut Local| -> R {
        let e = &a.entries[0];
        // Long entries in single bytes give nothing new.
        if e.data.len() > 200 && chunk != usize::MAX {
            return Ok(());
        }
        let src = Source::chunked(bytes, chunk, true);
        let name = || format!("{:?} bytes per read, way {way}, entry {:?}", chunk, String::from_utf8_lossy(&e.name));
        macro_rules! check {
            ($r:expr) => {{
                let got = read_abandoning(&mut $r, ch, l, [64, 1, 7, 4096], first).map_err(|x| format!("{}: {x}", name()))?;
                ensure!(got == e.data, "{}: {}", name(), diff(&e.data, &got));
                ensure!($r.compute_hash() == rz::crc(&e.data), "{}: hash differs", name());
            }};
        }
        match way {
            0 => {
                let mut z = exec_run(seek::ZipFileReader::new(src)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                let mut r = exec_run(z.reader_with_entry(0)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                check!(r);
            }
            1 => {
                let src = BufReader::with_capacity(16, src);
                let z = exec_run(seek::ZipFileReader::new(src)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                let mut r = exec_run(z.into_entry(0)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                check!(r);
            }
            _ => {
                // And the stream goes on with the next entry.
                if e.method == rz::STORED && e.dd != Dd::None {
                    return Ok(());
                }
                let z = stream::ZipFileReader::new(src);
                let Some(mut r) = exec_run(z.next_with_entry()).map_err(|_| "stalled")?.map_err(|x| ek(&x))? else { bail!("no entry") };
                check!(r.reader_mut());
                let z = if way == 2 { exec_run(r.done()) } else { exec_run(r.skip()) };
                let z = z.map_err(|_| "stalled")?.map_err(|x| format!("{}: {}", name(), ek(&x)))?;
                let Some(mut r) = exec_run(z.next_with_entry()).map_err(|_| "stalled")?.map_err(|x| format!("{}: next: {}", name(), ek(&x)))? else {
                    bail!("{}: no second entry", name())
                };
                let mut v = vec![];
                exec_run(r.reader_mut().read_to_end_checked(&mut v)).map_err(|_| "stalled")?.map_err(|x| format!("{}: next: {}", name(), ek(&x)))?;
                ensure!(v == a.entries[1].data, "{}: the next entry differs", name());
            }
        }
        l.sample(name);
        l.hit();
        Ok(())
    };
    ctx.explore("abandoned-reads", (es.len() * chunks.len() * 4 * 4) as u64, if ctx.thorough { 3 } else { 2 }, |i, ch, l| {
        let mut m = Mix(i);
        let x = m.of(&singles);
        abandoned(x, *m.of(&chunks), m.take(4), m.take(4), ch, l)
    });
    let disguised: Vec<(A, Arc<Vec<u8>>)> = (0..GUISES.len() * 2)
        .map(|k| {
            let e = if k % 2 == 0 { ent(b"entry", rz::STORED, &pattern(3, 30)) } else { ent(b"entry", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig) };
            let a = A { entries: vec![guised(e, k / 2), ent(b"next", rz::STORED, b"the next one")], ..Default::default() };
            let b = Arc::new(rz::build(&a).bytes);
            (a, b)
        })
        .collect();
    ctx.explore("abandoned-guises", disguised.len() as u64 * 2 * 4, 1, |i, ch, l| {
        let mut m = Mix(i);
        let k = m.take(disguised.len());
        let chunk = [1000, 5][m.take(2)];
        let way = m.take(4);
        if disguised[k].1.len() > 20_000 && chunk == 5 {
            return Ok(());
        }
        abandoned(&disguised[k], chunk, way, 1, ch, l).map_err(|f| Fail { msg: format!("{}: {}", GUISES[k / 2].0, f.msg), ..f })
    });
    // The same of large entries.
    let large: Vec<(A, Arc<Vec<u8>>)> = [rz::STORED, rz::DEFLATE, rz::ZSTD]
        .iter()
        .flat_map(|m| [70_000usize, 200_000].map(|n| (*m, n)))
        .map(|(m, n)| {
            let a = A { entries: vec![ent(b"large", m, &pattern(2, n)), ent(b"next", rz::STORED, b"the next one")], ..Default::default() };
            let b = Arc::new(rz::build(&a).bytes);
            (a, b)
        })
        .collect();
    ctx.explore("abandoned-large", (large.len() * 3 * 3 * 4) as u64, if ctx.thorough { 2 } else { 1 }, |i, ch, l| {
        let mut m = Mix(i);
        let (a, bytes) = m.of(&large);
        let chunk = [9000, 40_000, 65_536][m.take(3)];
        let way = m.take(3);
        let first = m.take(4);
        let e = &a.entries[0];
        let src = Source::chunked(bytes, chunk, true);
        let name = || format!("large entry, method {}, {} bytes, {chunk} per read, way {way}", e.method, e.data.len());
        macro_rules! check {
            ($r:expr) => {{
                let got = read_abandoning(&mut $r, ch, l, [100_000, 4096, 30_000, 9_000], first).map_err(|x| format!("{}: {x}", name()))?;
                ensure!(got == e.data, "{}: {}", name(), diff(&e.data, &got));
                ensure!($r.compute_hash() == rz::crc(&e.data), "{}: hash differs", name());
            }};
        }
        match way {
            0 => {
                let mut z = exec_run(seek::ZipFileReader::new(src)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                let mut r = exec_run(z.reader_with_entry(0)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                check!(r);
            }
            1 => {
                let src = BufReader::with_capacity(8192, src);
                let z = exec_run(seek::ZipFileReader::new(src)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                let mut r = exec_run(z.into_entry(0)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
                check!(r);
            }
            _ => {
                let z = stream::ZipFileReader::new(src);
                let Some(mut r) = exec_run(z.next_with_entry()).map_err(|_| "stalled")?.map_err(|x| ek(&x))? else { bail!("no entry") };
                check!(r.reader_mut());
                let z = exec_run(r.done()).map_err(|_| "stalled")?.map_err(|x| format!("{}: {}", name(), ek(&x)))?;
                ensure!(exec_run(z.next_with_entry()).map_err(|_| "stalled")?.map_err(|x| ek(&x))?.is_some(), "{}: no second entry", name());
            }
        }
        l.hit();
        Ok(())
    });
    ctx.each("abandoned-large-checks", (large.len() * 2 * 40 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let (a, bytes) = m.of(&large);
        let (streamed, polls, times) = (m.take(2) == 1, 1 + m.take(40), 1 + m.take(3));
        let e = &a.entries[0];
        let src = Source::chunked(bytes, 8000, true);
        let mut v = vec![9, 9];
        macro_rules! check {
            ($r:expr) => {{
                for k in 0..times + 1 {
                    let before = v.len();
                    let p = if k == times { usize::MAX } else { polls };
                    if let Some(x) = poll_some($r.read_to_end_checked(&mut v), p) {
                        let n = x.map_err(|x| format!("method {} {} bytes, abandoned {k} times after {polls} polls: {}", e.method, e.data.len(), ek(&x)))?;
                        ensure!(n == v.len() - before, "reported {n} bytes, appended {}", v.len() - before);
                        break;
                    }
                }
                ensure!(v[2..] == e.data, "method {}, abandoned {times} times after {polls} polls: {}", e.method, diff(&e.data, &v[2..]));
            }};
        }
        if streamed {
            let z = stream::ZipFileReader::new(src);
            let Some(mut r) = exec_run(z.next_with_entry()).map_err(|_| "stalled")?.map_err(|x| ek(&x))? else { bail!("no entry") };
            check!(r.reader_mut());
        } else {
            let mut z = exec_run(seek::ZipFileReader::new(src)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
            let mut r = exec_run(z.reader_with_entry(0)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
            check!(r);
        }
        l.state(&("large", i));
        l.step(polls as u64);
        l.hit();
        Ok(())
    });
    // A checked read abandoned after any number of polls and called again with the same vector, up to three times.
    ctx.each("abandoned-checks", (es.len() * chunks.len() * 2 * 60 * 8) as u64, |i, l| {
        let mut m = Mix(i);
        let (a, bytes) = m.of(&singles);
        let chunk = *m.of(&chunks);
        let streamed = m.take(2) == 1;
        let polls = 1 + m.take(60);
        let times = m.take(8);
        let e = &a.entries[0];
        let src = Source::chunked(bytes, chunk, true);
        let mut v = vec![9, 9];
        let mut left = vec![polls; times % 4];
        if times >= 4 {
            left.iter_mut().enumerate().for_each(|(k, p)| *p = (*p >> k).max(1));
        }
        macro_rules! check {
            ($r:expr) => {{
                let mut ended = false;
                for p in &left {
                    let before = v.len();
                    if let Some(x) = poll_some($r.read_to_end_checked(&mut v), *p) {
                        let n = x.map_err(|x| format!("entry {:?} after {left:?} polls: {}", e.name, ek(&x)))?;
                        ensure!(n == v.len() - before, "reported {n} bytes, appended {}", v.len() - before);
                        ended = true;
                        break;
                    }
                    l.step(*p as u64);
                }
                if !ended {
                    exec_run($r.read_to_end_checked(&mut v)).map_err(|_| "stalled")?.map_err(|x| {
                        format!("entry {:?}, abandoned after {left:?} polls, {chunk} bytes per read: {}", String::from_utf8_lossy(&e.name), ek(&x))
                    })?;
                }
                ensure!(
                    v[..2] == [9, 9] && v[2..] == e.data,
                    "entry {:?} abandoned after {left:?} polls: {}",
                    String::from_utf8_lossy(&e.name),
                    diff(&e.data, &v[2..])
                );
            }};
        }
        if streamed {
            let z = stream::ZipFileReader::new(src);
            let Some(mut r) = exec_run(z.next_with_entry()).map_err(|_| "stalled")?.map_err(|x| ek(&x))? else { bail!("no entry") };
            if e.dd != Dd::None {
                return Ok(());
            }
            check!(r.reader_mut());
        } else {
            let mut z = exec_run(seek::ZipFileReader::new(src)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
            let mut r = exec_run(z.reader_with_entry(0)).map_err(|_| "stalled")?.map_err(|x| ek(&x))?;
            check!(r);
        }
        l.state(&(i / es.len() as u64, e.method));
        l.hit();
        Ok(())
    });
    // Opening abandoned after any number of polls, then opened again over the same source.
    let three = || vec![ent(b"a", rz::DEFLATE, &pattern(3, 300)), ent(b"b", rz::STORED, b"stored"), ent(b"c", rz::ZSTD, &pattern(1, 200)).dd(Dd::NoSig)];
    let mut archives: Vec<A> = vec![];
    for (comment, z64) in [(0, false), (300, false), (3000, true), (0, true)] {
        let mut a = A { entries: three(), comment: pattern(3, comment), ..Default::default() };
        a.comment.retain(|b| *b != b'P');
        if z64 {
            a.end64 = Some(rz::End64 { mask: 63, ext: vec![1; 5] });
        }
        a.entries[2].comment = b"entry comment".to_vec();
        // Local and central headers of different sizes.
        if comment == 0 {
            a.entries[0].lx = vec![(0x9999, vec![1; 9])];
            a.entries[1].cx = vec![(0x9999, vec![2; 14])];
            a.entries[2].lx = vec![(0x5455, vec![3; 5])];
        }
        archives.push(a);
    }
    let light = archives.len();
    archives.push(A {
        entries: vec![
            ent(b"a", rz::DEFLATE, &pattern(2, 150_000)),
            ent(b"b", rz::STORED, &pattern(2, 70_000)),
            ent(b"c", rz::ZSTD, &pattern(2, 300_000)).dd(Dd::NoSig),
        ],
        ..Default::default()
    });
    let built: Vec<Arc<Vec<u8>>> = archives.iter().map(|a| Arc::new(rz::build(a).bytes)).collect();
    let max_polls = 260u64;
    ctx.each("abandoned-open", light as u64 * 3 * max_polls * 2, |i, l| {
        let mut m = Mix(i);
        let k = m.take(light);
        let chunk = [usize::MAX, 3, 40][m.take(3)];
        let buffered = m.take(2) == 1;
        let polls = m.0 as usize + 1;
        let (a, bytes) = (&archives[k], &built[k]);
        let what = || format!("archive {k}, {chunk} bytes per read, buffered {buffered}, open abandoned after {polls} polls");
        macro_rules! go {
            ($src:expr) => {{
                let mut src = $src;
                let completed = match poll_some(seek::ZipFileReader::new(&mut src), polls) {
                    None => false,
                    Some(Ok(_)) => true,
                    Some(Err(x)) => bail!("{}: {}", what(), ek(&x)),
                };
                let mut z = exec_run(seek::ZipFileReader::new(&mut src)).map_err(|_| "stalled")?.map_err(|x| format!("{}: {}", what(), ek(&x)))?;
                ensure!(z.file().entries().len() == 3 && z.file().comment().as_bytes() == a.comment, "{}: listed differently", what());
                // Openings of entries abandoned as well.
                for j in 0..3 {
                    let _ = poll_some(z.reader_with_entry((j + 1) % 3), polls % 40);
                    exec_run(read_entry(&mut z, j, &a.entries[j], polls % 2 == 0)).map_err(|_| "stalled")?.map_err(|x| format!("{}: {x}", what()))?;
                }
                l.state(&(k, chunk, buffered, polls));
                l.outcome(&completed);
                l.step(polls as u64);
            }};
        }
        if buffered {
            go!(BufReader::with_capacity(32, Source::chunked(bytes, chunk, true)));
        } else {
            go!(Source::chunked(bytes, chunk, true));
        }
        l.sample(what);
        l.hit();
        Ok(())
    });
    // The source fails once, at any operation, during any of: opening the archive, opening an entry, reading it. The failed
    // call reports it; the same call, and any other, succeeds afterwards.
    // Fails once at a place, or wherever the explorer says.
    let failing = |k: usize, base: Source, at: Option<u64>, (chunk, first, buffered, with, kind): (usize, usize, bool, bool, usize), l: &mut Local| -> R {
        let a = &archives[k];
        let _g = fail_with(kind);
        base.0.borrow_mut().chunk = chunk;
        base.0.borrow_mut().fail_at = at;
        let probe = base.clone();
        let what = || format!("archive {k}, {chunk} bytes per read, buffered {buffered}, entry {first} first, {}, {at:?}", fail_name(kind));
        macro_rules! go {
            ($src:expr) => {{
                let mut src = $src;
                let mut tries = 0;
                let file = loop {
                    let before = probe.errors();
                    match now(seek::ZipFileReader::new(&mut src)) {
                        Ok(z) => {
                            ensure!(probe.errors() == before, "{}: opened although the source failed", what());
                            break z.file().clone();
                        }
                        Err(x) => ensure!(is_injected(&x) && probe.errors() > before, "{}: opening gives {}", what(), ek(&x)),
                    }
                    tries += 1;
                    ensure!(tries < 10, "{}: opening never succeeds", what());
                };
                ensure!(file.entries().len() == 3 && file.comment().as_bytes() == a.comment, "{}: listed differently", what());
                let mut z = seek::ZipFileReader::from_raw_parts(&mut src, file);
                for j in [first, first, (first + 1) % 3, (first + 2) % 3] {
                    let mut tries = 0;
                    loop {
                        let before = probe.errors();
                        match now(read_entry(&mut z, j, &a.entries[j], with)) {
                            Ok(()) => {
                                ensure!(probe.errors() == before, "{}: entry {j} was read although the source failed", what());
                                break;
                            }
                            Err(x) => ensure!(kind >= FAILURES.len() || x.contains("Io(") || x.contains(ERR_TEXT), "{}: {x}", what()),
                        }
                        ensure!(probe.errors() > before, "{}: entry {j} fails although the source does not", what());
                        tries += 1;
                        ensure!(tries < 10, "{}: entry {j} never succeeds", what());
                    }
                }
                l.state(&(k, chunk, first, buffered, with, probe.ops(), probe.errors()));
                l.step(probe.ops());
            }};
        }
        if buffered {
            go!(BufReader::with_capacity(if k < light { 32 } else { 8192 }, base));
        } else {
            go!(base);
        }
        l.sample(what);
        l.hit();
        Ok(())
    };
    ctx.explore("failures", light as u64 * 3 * 3 * 2 * 2 * 4, if ctx.thorough { 2 } else { 1 }, |i, ch, l| {
        const FAIL: &[Alt] = &[Alt::Err];
        let mut m = Mix(i);
        let k = m.take(light);
        let chunk = [usize::MAX, 7, 64][m.take(3)];
        let first = m.take(3);
        let buffered = m.take(2) == 1;
        let with = m.take(2) == 1;
        let kind = m.take(4) * (FAILS / 4) + i as usize % (FAILS / 4);
        failing(k, Source::scripted(&built[k], ch, FAIL, FAIL), None, (chunk, first, buffered, with, kind), l)
    });
    // Large entries: failing at and around the multiples of usual buffer sizes, and every place near the ends.
    let len = built[light].len() as u64;
    let marks: Vec<u64> = (0..len).step_by(4096).flat_map(|p| [p.saturating_sub(1), p, p + 1]).chain(0..50).chain(len - 250..len).collect();
    ctx.each("failures-large", (marks.len() * 3 * 3 * 2 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let at = *m.of(&marks);
        let chunk = [usize::MAX, 9000, 50_000][m.take(3)];
        let first = m.take(3);
        let buffered = m.take(2) == 1;
        let with = m.take(2) == 1;
        failing(light, Source::new(&built[light]), Some(at), (chunk, first, buffered, with, i as usize % FAILS), l)
    });
    // A read of a stored entry that failed is issued again. (Decoders may lose what they had already decoded.)
    let plain: Vec<(Vec<u8>, Arc<Vec<u8>>)> = [0usize, 1, 60, 150, 20_000, 70_000]
        .iter()
        .map(|n| {
            let d = pattern(4, *n);
            let a = A { entries: vec![ent(b"plain", rz::STORED, &d), ent(b"next", rz::STORED, b"the next one")], ..Default::default() };
            (d, Arc::new(rz::build(&a).bytes))
        })
        .collect();
    ctx.explore("resumed", (plain.len() * 4 * 5 * 5) as u64, if ctx.thorough { 3 } else { 2 }, |i, ch, l| {
        const FAIL: &[Alt] = &[Alt::Err, Alt::Pend];
        let mut m = Mix(i);
        let (want, bytes) = m.of(&plain);
        let chunk = [usize::MAX, 7, 4096, 30_000][m.take(4)];
        let front = m.take(5);
        let way = m.take(5);
        if want.len() > 200 && chunk == 7 {
            return Ok(());
        }
        let src = Source::scripted(bytes, ch, &[], &[]);
        src.0.borrow_mut().chunk = chunk;
        let probe = src.clone();
        let what = || format!("stored entry of {} bytes, {chunk} per read, front {front}, way {way}", want.len());
        // Repeats a call until it does not fail.
        macro_rules! again {
            ($call:expr, $fails:expr) => {{
                let mut tries = 0;
                loop {
                    let before = probe.errors();
                    match exec_run($call).map_err(|_| format!("{}: stalled", what()))? {
                        Ok(x) => {
                            ensure!(probe.errors() == before, "{}: a failure of the source was lost", what());
                            break x;
                        }
                        Err(x) => {
                            ensure!(probe.errors() > before && $fails(&x), "{}: reading fails with {x:?}", what());
                            l.hit();
                        }
                    }
                    tries += 1;
                    ensure!(tries < 10, "{}: never succeeds", what());
                }
            }};
        }
        let _g = fail_with(i as usize * 7 % FAILS);
        let io = looks_injected;
        macro_rules! read {
            ($r:expr, $checked:ident) => {{
                let r = &mut $r;
                probe.0.borrow_mut().menu = FAIL;
                let mut v: Vec<u8> = vec![];
                let part = match way {
                    0 | 1 => 0,
                    2 => want.len() / 2,
                    3 => usize::MAX,
                    _ => want.len().min(40),
                };
                while v.len() < part {
                    let mut b = vec![0; if way == 3 { [33, 50_000][(want.len() > 200) as usize] } else { part - v.len() }];
                    let n = again!(r.read(&mut b), io);
                    if n == 0 {
                        break;
                    }
                    v.extend_from_slice(&b[..n]);
                }
                let checked = $checked!(r, v);
                probe.0.borrow_mut().menu = &[];
                ensure!(v == *want, "{}: {}", what(), diff(want, &v));
                ensure!(checked || r.compute_hash() == rz::crc(want), "{}: the hash differs", what());
            }};
        }
        macro_rules! with {
            ($r:expr, $v:expr) => {{
                if way % 2 == 0 {
                    again!($r.read_to_end_checked(&mut $v), is_injected);
                } else {
                    again!($r.read_to_end(&mut $v), io);
                }
                way % 2 == 0
            }};
        }
        macro_rules! without {
            ($r:expr, $v:expr) => {{
                again!($r.read_to_end(&mut $v), io);
                false
            }};
        }
        if front < 3 {
            let mut z = now(seek::ZipFileReader::new(src)).map_err(|x| ek(&x))?;
            match front {
                0 => read!(now(z.reader_with_entry(0)).map_err(|x| ek(&x))?, with),
                1 => read!(now(z.reader_without_entry(0)).map_err(|x| ek(&x))?, without),
                _ => read!(now(z.into_entry(0)).map_err(|x| ek(&x))?, without),
            }
        } else {
            let z = stream::ZipFileReader::new(src);
            let Some(mut r) = now(z.next_with_entry()).map_err(|x| ek(&x))? else { bail!("no entry") };
            read!(*r.reader_mut(), with);
            let z = if front == 3 { now(r.done()) } else { now(r.skip()) }.map_err(|x| format!("{}: {}", what(), ek(&x)))?;
            let Some(mut r) = now(z.next_with_entry()).map_err(|x| format!("{}: next: {}", what(), ek(&x)))? else { bail!("{}: no second entry", what()) };
            let mut v = vec![];
            now(r.reader_mut().read_to_end_checked(&mut v)).map_err(|x| format!("{}: next: {}", what(), ek(&x)))?;
            ensure!(v == b"the next one", "{}: the next entry is damaged", what());
        }
        l.state(&(want.len(), chunk, front, way, probe.ops(), probe.errors()));
        l.step(probe.ops());
        Ok(())
    });
    ctx.finish(
        "a read abandoned while it waited loses, repeats and alters nothing; after a failed or abandoned opening or read, opening again delivers the right entries; a failed read of a stored entry goes on where it failed",
        &["a read abandoned by its caller is one that returned no bytes", "the source keeps its position on a failed or pending operation"],
    )
}
