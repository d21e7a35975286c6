//! Reading does not depend on how the source delivers bytes.
use super::c03::{ent, variants, METHODS};
use super::c13;
use super::common::*;
use crate::dev::*;
use crate::engine::*;
use crate::exec;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, End64, A};
use crate::wops::pattern;
use async_zip::base::read::{seek, stream};
use futures_lite::io::{AsyncBufRead, AsyncReadExt, BufReader};
use std::sync::Arc;
use tokio_util::compat::{FuturesAsyncReadCompatExt, TokioAsyncReadCompatExt};

pub const PIPES: usize = 12;
pub const PIPE_NAMES: [&str; PIPES] = [
    "seek/with/checked",
    "seek/without/to-end",
    "seek/into/chunks",
    "stream/with/to-end",
    "stream/without/chunks",
    "stream/skip",
    "seek/tokio",
    "stream/tokio",
    "seek/bufreader16",
    "stream/bufreader16",
    "seek/zero-length reads",
    "stream/checked",
];
async fn skipping<R: AsyncBufRead + Unpin>(src: R, k: usize) -> Obs {
    let mut o = Obs { comment: None, zip64: None, entries: vec![], end: Ok(()) };
    let mut z = stream::ZipFileReader::new(src);
    loop {
        match z.next_with_entry().await {
            Ok(None) => return o,
            Err(e) => {
                o.end = Err(ek(&e));
                return o;
            }
            Ok(Some(mut r)) => {
                let m = meta(r.reader_mut().entry());
                let mut b = vec![0; k];
                let mut got = 0;
                let data = loop {
                    if got == k {
                        break Ok(b);
                    }
                    match r.reader_mut().read(&mut b[got..]).await {
                        Ok(0) => {
                            b.truncate(got);
                            break Ok(b);
                        }
                        Ok(n) => got += n,
                        Err(e) => break Err(ek(&e.into())),
                    }
                };
                // After a failure the position within the entry is unspecified, so the use ends there.
                let bad = data.is_err();
                o.entries.push(Ent { meta: Some(m), data, hash: None });
                if bad {
                    o.end = Err("entry".into());
                    return o;
                }
                match r.skip().await {
                    Ok(n) => z = n,
                    Err(e) => {
                        o.end = Err(format!("skip: {}", ek(&e)));
                        return o;
                    }
                }
            }
        }
    }
}
/// One complete use of a reader over the given source.
pub fn pipe(which: usize, mk: &dyn Fn() -> Source) -> Result<Result<Obs, String>, exec::Stalled> {
    let s = |e| ek(&e);
    let src = mk();
    exec::run(async {
        Ok(match which {
            0 => seek_entries(seek::ZipFileReader::new(src).await.map_err(s)?, Attach::With, Style::Checked(1), mk).await,
            1 => seek_entries(seek::ZipFileReader::new(src).await.map_err(s)?, Attach::Without, Style::ToEnd, mk).await,
            2 => seek_entries(seek::ZipFileReader::new(src).await.map_err(s)?, Attach::Into, Style::Chunk(5), mk).await,
            3 => stream_entries(stream::ZipFileReader::new(src), Attach::With, Style::ToEnd).await,
            4 => stream_entries(stream::ZipFileReader::new(src), Attach::Without, Style::Chunk(5)).await,
            5 => skipping(src, 2).await,
            6 => {
                let z = seek::ZipFileReader::with_tokio(FuturesAsyncReadCompatExt::compat(src)).await.map_err(s)?;
                seek_entries(z, Attach::With, Style::ToEnd, || TokioAsyncReadCompatExt::compat(FuturesAsyncReadCompatExt::compat(mk()))).await
            }
            7 => stream_entries(stream::ZipFileReader::with_tokio(FuturesAsyncReadCompatExt::compat(src)), Attach::With, Style::ToEnd).await,
            8 => {
                let mk2 = || BufReader::with_capacity(16, mk());
                seek_entries(seek::ZipFileReader::new(BufReader::with_capacity(16, src)).await.map_err(s)?, Attach::With, Style::Checked(0), mk2).await
            }
            9 => stream_entries(stream::ZipFileReader::new(BufReader::with_capacity(16, src)), Attach::With, Style::ToEnd).await,
            10 => seek_entries(seek::ZipFileReader::new(src).await.map_err(s)?, Attach::With, Style::Zeros, mk).await,
            _ => stream_entries(stream::ZipFileReader::new(src), Attach::With, Style::Checked(0)).await,
        })
    })
}

/// Archives, good and bad, small enough for deep exploration.
pub fn corpus() -> Vec<Arc<Vec<u8>>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let b = |a: A| rz::build(&a).bytes;
    let one = |e| A { entries: vec![e], ..Default::default() };
    // Two plain entries.
    v.push(b(A {
        entries: vec![ent(b"a", rz::STORED, b"stored data"), ent(b"b", rz::DEFLATE, &pattern(3, 60))],
        comment: b"cmt".to_vec(),
        ..Default::default()
    }));
    // Descriptors, ZIP64 end records.
    v.push(b(A {
        entries: vec![ent(b"d", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig), ent(b"n", rz::DEFLATE, b"no signature").dd(Dd::NoSig)],
        end64: Some(End64 { mask: 63, ext: vec![] }),
        ..Default::default()
    }));
    // No entries.
    v.push(b(A::default()));
    v.push(b(A { end64: Some(End64 { mask: 0, ext: vec![1, 2, 3] }), ..Default::default() }));
    // Extra fields and texts.
    let vs = variants();
    v.push(b(one(vs[17].clone())));
    v.push(b(one(vs[18].clone())));
    // Not an archive, bad signatures, bad CRC, unsupported method, oversized extra field.
    v.push(b"neither fish nor archive, no signature here".to_vec());
    let good = v[0].clone();
    let mut x = good.clone();
    let a = A { entries: vec![ent(b"a", rz::STORED, b"stored data"), ent(b"b", rz::DEFLATE, &pattern(3, 60))], comment: b"cmt".to_vec(), ..Default::default() };
    let bl = rz::build(&a);
    x[bl.locs[1].cdh as usize] ^= 1;
    v.push(x);
    let mut x = good.clone();
    x[bl.locs[0].data as usize] ^= 1;
    v.push(x);
    let mut x = good.clone();
    x[bl.locs[1].data as usize + 1] ^= 0x55;
    v.push(x);
    let mut x = good.clone();
    x[bl.locs[1].lfh as usize + 1] ^= 0x55;
    v.push(x);
    let mut e = ent(b"odd", rz::STORED, b"q");
    e.method = 77;
    v.push(b(one(e)));
    v.into_iter().map(Arc::new).collect()
}
fn same(want: &Result<Obs, String>, got: &Result<Obs, String>, name: &str) -> R {
    if want != got {
        let cut = |x: &Result<Obs, String>| format!("{x:?}").chars().take(600).collect::<String>();
        bail!("{name}: depends on the source's schedule: expected {}, got {}", cut(want), cut(got));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let corpus = corpus();
    let base =
        |which: usize, b: &Arc<Vec<u8>>| -> Result<Obs, String> { pipe(which, &|| Source::new(b)).unwrap_or_else(|_| Err("stalled on a ready source".into())) };
    // Every pattern of up to `bound` deviations on every pipeline and archive.
    let jobs = (corpus.len() * PIPES) as u64;
    let wants: Vec<Result<Obs, String>> = (0..jobs as usize).map(|j| base(j % PIPES, &corpus[j / PIPES])).collect();
    let go = |job: u64, ch: &Ch, l: &mut Local| -> R {
        let (which, b) = (job as usize % PIPES, &corpus[job as usize / PIPES]);
        let used = std::cell::Cell::new(0u64);
        let srcs = std::cell::RefCell::new(vec![]);
        let mk = || {
            let s = Source::scripted(b, ch, READ_MENU, SEEK_MENU);
            srcs.borrow_mut().push(s.clone());
            s
        };
        let got = match pipe(which, &mk) {
            Ok(g) => g,
            Err(_) => bail!("{}: stalled although the source had woken it", PIPE_NAMES[which]),
        };
        for s in srcs.borrow().iter() {
            used.set(used.get() + s.ops());
        }
        l.step(used.get());
        l.hit();
        l.state(&(job, used.get()));
        same(&wants[job as usize], &got, PIPE_NAMES[which])
    };
    ctx.explore("schedules", jobs, if ctx.thorough { 4 } else { 3 }, go);
    // Deeper on the smallest ones.
    let small: Vec<u64> = (0..jobs).filter(|j| [0usize, 1].contains(&(*j as usize / PIPES)) && [0usize, 3, 5].contains(&(*j as usize % PIPES))).collect();
    ctx.explore("schedules-deep", small.len() as u64, if ctx.thorough { 4 } else { 3 }, |j, ch, l| go(small[j as usize], ch, l));
    // Streams whose entries are read in part, exactly or to the end, and then left by `done` or `skip`.
    let kinds = c13::kinds();
    let light = [0usize, 1, 2, 3, 4, 5, 6, 7, 10];
    ctx.explore("leaving", (light.len() * c13::AMOUNTS.len() * 2 * 2 * 2) as u64, if ctx.thorough { 3 } else { 2 }, |i, ch, l| {
        let mut m = Mix(i);
        let e = kinds[light[m.take(light.len())]].clone();
        let s = c13::Step { amount: *m.of(&c13::AMOUNTS), done: m.take(2) == 1, with: m.take(2) == 1, by: [0, 16][m.take(2)] };
        let a = A { entries: vec![e, ent(b"tail", rz::DEFLATE, b"tail")], ..Default::default() };
        let b = rz::build(&a);
        let all = c13::Step { amount: c13::Amount::All, done: true, with: true, by: 0 };
        let src = Source::scripted(&Arc::new(b.bytes.clone()), ch, READ_MENU, SEEK_MENU);
        c13::walk(&a, &b, &[s, all], src, l).map_err(|f| Fail { msg: format!("{s:?}: {}", f.msg), ..f })?;
        l.hit();
        Ok(())
    });
    // Entries that look unusual otherwise.
    let disguised: Vec<Arc<Vec<u8>>> = (0..GUISES.len() * 3)
        .map(|k| {
            let (g, k) = (k / 3, k % 3);
            let e = [ent(b"s", rz::STORED, &pattern(3, 40)), ent(b"d", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig), ent(b"z", rz::DEFLATE, &pattern(3, 60))][k]
                .clone();
            Arc::new(rz::build(&A { entries: vec![guised(e, g), ent(b"t", rz::DEFLATE, b"the next entry")], ..Default::default() }).bytes)
        })
        .collect();
    let dw: Vec<Result<Obs, String>> = (0..disguised.len() * PIPES).map(|j| base(j % PIPES, &disguised[j / PIPES])).collect();
    ctx.each("guises", (disguised.len() * PIPES * 5 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let pend = m.take(2) == 1;
        let chunk = [1usize, 2, 7, 29, 1000][m.take(5)];
        let which = m.take(PIPES);
        let k = m.take(disguised.len());
        let b = &disguised[k];
        if b.len() / chunk > 20_000 {
            return Ok(());
        }
        let got = match pipe(which, &|| Source::chunked(b, chunk, pend)) {
            Ok(g) => g,
            Err(_) => bail!("{}: {}: stalled, chunks of {chunk}, pending {pend}", GUISES[k / 3].0, PIPE_NAMES[which]),
        };
        // (Checked streaming of entries without a known CRC fails by design.)
        if let Ok(o) = &dw[k * PIPES + which] {
            ensure!(which == 11 || k % 3 == 1 || o.end.is_ok() && o.entries.len() == 2, "{}: {}: {:?}", GUISES[k / 3].0, PIPE_NAMES[which], o.end);
        } else {
            bail!("{}: {}: open failed", GUISES[k / 3].0, PIPE_NAMES[which]);
        }
        l.hit();
        l.step(b.len() as u64 / chunk as u64 + 1);
        l.state(&(k, which, chunk, pend));
        same(&dw[k * PIPES + which], &got, PIPE_NAMES[which]).map_err(|f| Fail { msg: format!("{}: {}", GUISES[k / 3].0, f.msg), ..f })
    });
    // The end-record search over all positions relative to its windows.
    let mut lens: Vec<usize> = (0..30).collect();
    for w in [2048usize, 4092, 6136] {
        lens.extend(w.saturating_sub(60)..w + 8);
    }
    lens.push(65535);
    let archives: Vec<Arc<Vec<u8>>> =
        lens.iter().map(|n| Arc::new(rz::build(&A { entries: vec![ent(b"e", 0, b"x")], comment: vec![b'c'; *n], ..Default::default() }).bytes)).collect();
    let wants2: Vec<_> = archives.iter().map(|b| base(1, b)).collect();
    ctx.explore("search", lens.len() as u64, if ctx.thorough { 2 } else { 1 }, |j, ch, l| {
        let b = &archives[j as usize];
        let got = match pipe(1, &|| Source::scripted(b, ch, READ_MENU, SEEK_MENU)) {
            Ok(g) => g,
            Err(_) => bail!("stalled while searching the end record, comment length {}", lens[j as usize]),
        };
        l.hit();
        l.step(1);
        ensure!(wants2[j as usize].is_ok(), "comment length {}: {:?}", lens[j as usize], wants2[j as usize]);
        same(&wants2[j as usize], &got, "search")
    });
    // Uniform chunk sizes, ready at once or pending before every answer, on all methods and sizes.
    let mut big: Vec<Arc<Vec<u8>>> = corpus.clone();
    big.extend(archives.iter().step_by(7).cloned());
    for m in METHODS {
        for n in [0usize, 300, 9000, 20000] {
            big.push(Arc::new(rz::build(&A { entries: vec![ent(b"e", m, &pattern(3, n)), ent(b"f", m, &pattern(2, n / 2))], ..Default::default() }).bytes));
            if m != rz::DEFLATE64 && m != rz::STORED {
                big.push(Arc::new(
                    rz::build(&A { entries: vec![ent(b"e", m, &pattern(2, n)).dd(Dd::Sig), ent(b"f", m, b"tail").dd(Dd::NoSig)], ..Default::default() }).bytes,
                ));
            }
        }
    }
    let mut chunks: Vec<usize> = (1..=if ctx.thorough { 130 } else { 34 }).collect();
    chunks.extend([255, 256, 1000, 2047, 2048, 2049, 4096]);
    let bw: Vec<Result<Obs, String>> = (0..big.len() * PIPES).map(|j| base(j % PIPES, &big[j / PIPES])).collect();
    ctx.each("uniform", (big.len() * PIPES * chunks.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let pend = m.take(2) == 1;
        let chunk = *m.of(&chunks);
        let which = m.take(PIPES);
        let k = m.take(big.len());
        let b = &big[k];
        let got = match pipe(which, &|| Source::chunked(b, chunk, pend)) {
            Ok(g) => g,
            Err(_) => bail!("{}: stalled, chunks of {chunk}, pending {pend}", PIPE_NAMES[which]),
        };
        l.hit();
        l.step(b.len() as u64 / chunk as u64 + 1);
        l.state(&(k, which, chunk));
        l.sample(|| format!("{} in chunks of {chunk}, pending {pend}, archive of {} bytes", PIPE_NAMES[which], b.len()));
        same(&bw[k * PIPES + which], &got, PIPE_NAMES[which])
    });
    // Large entries, also ones that do not compress, from sources that offer much or little at once.
    let sizes: &[usize] = if ctx.thorough { &[65_537, 140_000, 700_000, 2_500_000] } else { &[65_537, 140_000, 700_000] };
    let steps = [1usize, 512, 4096, 8191, 8192, 32_768, 65_535, 65_536, 65_537, 131_072, usize::MAX];
    let mut large: Vec<(u16, usize, usize, bool)> = vec![];
    for m in METHODS {
        for n in sizes {
            for p in [2usize, 3, 4] {
                if *n > 140_000 && p != 2 && !ctx.thorough {
                    continue;
                }
                large.push((m, *n, p, false));
                if m != rz::DEFLATE64 && m != rz::STORED {
                    large.push((m, *n, p, true));
                }
            }
        }
    }
    ctx.each("large", (large.len() * PIPES) as u64, |i, l| {
        let mut m = Mix(i);
        let which = m.take(PIPES);
        let (method, n, p, dd) = large[m.0 as usize];
        if which == 11 && dd {
            // checked streaming of entries without a known CRC fails by design
            return Ok(());
        }
        let datas = [pattern(p, n), pattern(2, n / 3)];
        let mut es = vec![ent(b"e", method, &datas[0]), ent(b"f", method, &datas[1])];
        if dd {
            es = vec![es.remove(0).dd(Dd::Sig), es.remove(0).dd(Dd::NoSig)];
        }
        let b = Arc::new(rz::build(&A { entries: es, ..Default::default() }).bytes);
        for pend in [false, true] {
            for step in steps {
                // Single bytes and waiting at each piece only for the smaller ones.
                if n / step > 70_000 || pend && (n > 140_000 || step < 4096) {
                    continue;
                }
                let mk = || {
                    let s = Source::chunked(&b, step.min(b.len()), pend);
                    s.0.borrow_mut().window = usize::MAX;
                    s
                };
                let got = match pipe(which, &mk) {
                    Ok(g) => g,
                    Err(_) => bail!("{}: stalled, {n} bytes in chunks of {step}, pending {pend}", PIPE_NAMES[which]),
                };
                let got = got.map_err(|e| format!("{}: {n} bytes (method {method}) in chunks of {step}: {e}", PIPE_NAMES[which]))?;
                ensure!(got.entries.len() == 2 && got.end.is_ok(), "{}: {} entries of 2, end {:?}", PIPE_NAMES[which], got.entries.len(), got.end);
                for (e, d) in got.entries.iter().zip(&datas) {
                    let want = if which == 5 { &d[..2] } else { &d[..] };
                    ensure!(
                        e.data.as_ref().is_ok_and(|g| g == want),
                        "{}: {n} bytes (method {method}) in chunks of {step}, pending {pend}: {:?} of {} bytes",
                        PIPE_NAMES[which],
                        e.data.as_ref().map(|g| g.len()),
                        want.len()
                    );
                }
                l.step((n / step) as u64 + 1);
            }
        }
        l.hit();
        l.state(&(method, n, p, dd, which));
        Ok(())
    });
    // The baseline itself: good archives read completely.
    ctx.each("baseline", bw.len() as u64, |i, l| {
        let k = i as usize / PIPES;
        l.step(1);
        if k < 6 || k >= corpus.len() {
            // checked streaming of entries without a known CRC fails by design
            if i as usize % PIPES == 11 {
                return Ok(());
            }
            match &bw[i as usize] {
                Ok(o) => {
                    let all = bw[k * PIPES].as_ref().map_err(|e| format!("{}: {e}", PIPE_NAMES[0]))?;
                    ensure!(
                        o.entries.len() == all.entries.len(),
                        "{}: {} entries, {} by another reader",
                        PIPE_NAMES[i as usize % PIPES],
                        o.entries.len(),
                        all.entries.len()
                    );
                    for (e, a) in o.entries.iter().zip(&all.entries) {
                        ensure!(e.data.is_ok(), "{}: {:?}", PIPE_NAMES[i as usize % PIPES], e.data);
                        // (Checked reads are judged by the recorded CRC; the rest by them. Skipping reads two bytes.)
                        ensure!(
                            i as usize % PIPES == 5 || e.data == a.data,
                            "{}: contents differ from those of a checked read",
                            PIPE_NAMES[i as usize % PIPES]
                        );
                    }
                    ensure!(o.end.is_ok(), "{}: {:?}", PIPE_NAMES[i as usize % PIPES], o.end);
                }
                Err(e) => bail!("{}: open failed: {e}", PIPE_NAMES[i as usize % PIPES]),
            }
        }
        Ok(())
    });
    ctx.finish(
        "the observation (entries, bytes, hashes, errors) under each schedule equals the one with an always-ready source; no stall",
        &["per deviation the source is pending once, delivers one byte, or delivers all but one byte"],
    )
}
