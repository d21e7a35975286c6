//! Writing does not depend on how the sink accepts bytes.
use super::common::*;
use crate::dev::*;
use crate::engine::*;
use crate::exec::{self, now};
use crate::panel::*;
use crate::refzip as rz;
use crate::wops::*;
use async_zip::error::ZipError;
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use std::io::IoSlice;
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncWriteCompatExt;

pub struct Job {
    pub ops: Vec<WOp>,
    pub mode: Mode,
    pub comment: Option<&'static str>,
}
async fn history<W: AsyncWrite + Unpin>(z: async_zip::base::write::ZipFileWriter<W>, j: &Job) -> Result<W, ZipError> {
    let mut z = z;
    for op in &j.ops {
        apply(&mut z, op).await?;
    }
    if let Some(c) = j.comment {
        z.comment(c.into());
    }
    z.close().await
}
/// How the history is run: futures sink, tokio sink, futures BufWriter of a few bytes.
pub const WAYS: usize = 3;
fn run_on(j: &Job, way: usize, sink: &Sink) -> Result<Result<(), ZipError>, exec::Stalled> {
    exec::run(async {
        match way {
            0 => history(writer(sink.clone(), j.mode), j).await.map(|_| ()),
            1 => {
                let z = async_zip::tokio::write::ZipFileWriter::with_tokio(FuturesAsyncWriteCompatExt::compat_write(sink.clone()));
                let z = match j.mode {
                    Mode::Auto => z,
                    Mode::Force => z.force_zip64(),
                    Mode::Never => z.force_no_zip64(),
                };
                history(z, j).await.map(|_| ())
            }
            _ => {
                let w = futures_lite::io::BufWriter::with_capacity(5, sink.clone());
                let mut w = history(writer(w, j.mode), j).await?;
                w.flush().await?;
                Ok(())
            }
        }
    })
}
/// The result must be the baseline archive, or (compressors may frame differently) one that describes the
/// same entries in every respect an independent parser sees.
fn compare(j: &Job, base: &[u8], got: &[u8], what: &str) -> R {
    if base == got {
        return Ok(());
    }
    let c = j.comment.unwrap_or("").as_bytes();
    let p = rz::parse(got, c, true).map_err(|e| format!("{what}: archive damaged: {e}; {}", diff(base, got)))?;
    ensure!(p.entries.len() == j.ops.len(), "{what}: {} entries instead of {}", p.entries.len(), j.ops.len());
    for (e, op) in p.entries.iter().zip(&j.ops) {
        op.check_parsed(e, got).map_err(|e| format!("{what}: {e}"))?;
    }
    let q = rz::parse(base, c, true).map_err(|e| format!("baseline: {e}"))?;
    for (x, y) in p.entries.iter().zip(&q.entries) {
        ensure!(x.lx.len() == y.lx.len() && x.cx.len() == y.cx.len() && x.flags == y.flags && x.need == y.need, "{what}: headers differ from the baseline");
        ensure!(x.method != rz::STORED || x.csize == y.csize, "{what}: stored size differs");
    }
    Ok(())
}
fn check(j: &Job, way: usize, base: &[u8], sink: &Sink, r: Result<Result<(), ZipError>, exec::Stalled>, what: &str) -> R {
    match r {
        Err(_) => bail!("{what}: stalled although the sink had woken it"),
        Ok(Err(e)) => bail!("{what}: failed with {e:?} on a sink that never fails"),
        Ok(Ok(())) => {}
    }
    let s = sink.0.borrow();
    ensure!(s.early_close.is_none_or(|n| n == s.out.len()), "{what}: sink closed after {:?} of {} bytes", s.early_close, s.out.len());
    compare(j, base, &s.out, &format!("{what} (way {way})"))
}

pub fn jobs() -> Vec<Job> {
    let alpha = alphabet();
    let mut v = vec![];
    for (k, op) in alpha.iter().enumerate() {
        v.push(Job { ops: vec![op.clone()], mode: MODES[k % 3], comment: if k % 2 == 0 { Some("comment") } else { None } });
    }
    for (a, b, m) in [(0, 3, Mode::Auto), (3, 9, Mode::Never), (9, 1, Mode::Force), (12, 13, Mode::Auto), (8, 10, Mode::Never), (6, 2, Mode::Force)] {
        v.push(Job { ops: vec![alpha[a].clone(), alpha[b].clone()], mode: m, comment: Some("zwei") });
    }
    // The entry writer closed through AsyncWrite first.
    for (k, m) in [rz::STORED, rz::DEFLATE, rz::ZSTD].into_iter().enumerate() {
        for kind in [Kind::Stream, Kind::StreamPre] {
            let mut a = WOp::new(kind, m, "closed", b"closed twice, closed twice");
            a.close_first = true;
            a.flush = k as u32 & 1;
            v.push(Job { ops: vec![a, alpha[0].clone()], mode: MODES[k], comment: None });
        }
    }
    for m in MODES {
        v.push(Job { ops: vec![], mode: m, comment: Some("none") });
    }
    v.push(Job { ops: vec![alpha[2].clone(), alpha[3].clone(), alpha[7].clone()], mode: Mode::Auto, comment: None });
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    let js = jobs();
    let base: Vec<Vec<u8>> = js.iter().map(|j| now(history(writer(Vec::new(), j.mode), j)).unwrap_or_default()).collect();
    // The baseline itself is a proper archive of these entries.
    ctx.each("baseline", js.len() as u64, |i, l| {
        let (j, b) = (&js[i as usize], &base[i as usize]);
        let refs: Vec<&WOp> = j.ops.iter().collect();
        l.step(1);
        ensure!(!b.is_empty(), "the writer failed on a Vec");
        expect_contents(&Arc::new(b.clone()), &refs, Front::Seek, Attach::With, Style::Checked(0))
    });
    let go = |i: u64, ch: &Ch, l: &mut Local| -> R {
        let (way, k) = (i as usize % WAYS, i as usize / WAYS);
        let sink = Sink::scripted(ch, WRITE_MENU);
        let r = run_on(&js[k], way, &sink);
        l.step(sink.0.borrow().ops);
        l.state(&(i, sink.0.borrow().ops));
        l.hit();
        l.sample(|| format!("history {k} way {way}: {} sink operations", sink.0.borrow().ops));
        check(&js[k], way, &base[k], &sink, r, "scheduled")
    };
    ctx.explore("schedules", (js.len() * WAYS) as u64, if ctx.thorough { 3 } else { 2 }, go);
    let small: Vec<u64> = (0..js.len() as u64).filter(|k| base[*k as usize].len() < 330).map(|k| k * WAYS as u64).collect();
    ctx.explore("schedules-deep", small.len() as u64, if ctx.thorough { 4 } else { 3 }, |i, ch, l| go(small[i as usize], ch, l));
    // Uniform chunk sizes, with and without pending before every answer, on larger payloads and all methods.
    let mut big: Vec<Job> = jobs();
    for m in FAST {
        for n in [0usize, 1, 5000, 70000] {
            for kind in KINDS {
                let mut a = WOp::new(kind, m, "big", &pattern(3, n));
                a.cut = Cut::By(3001);
                a.flush = 0b10;
                let mut b = WOp::new(kind, m, "rnd", &pattern(2, n / 3));
                b.cut = if n == 5000 { Cut::Vec(300) } else { Cut::By(999) };
                big.push(Job { ops: vec![a, b], mode: MODES[n % 3], comment: None });
            }
        }
    }
    for m in [rz::LZMA, rz::XZ] {
        let mut a = WOp::new(Kind::Stream, m, "slow", &pattern(3, 3000));
        a.cut = Cut::By(1000);
        a.level = Some(1);
        big.push(Job { ops: vec![a], mode: Mode::Auto, comment: None });
    }
    for m in FAST {
        let mut a = WOp::new(Kind::Stream, m, "closed", &pattern(2, 5000));
        (a.cut, a.close_first) = (Cut::By(3001), true);
        big.push(Job { ops: vec![a.clone(), a], mode: Mode::Auto, comment: None });
    }
    let bb: Vec<std::sync::OnceLock<Vec<u8>>> = big.iter().map(|_| Default::default()).collect();
    let mut chunks: Vec<usize> = (1..=if ctx.thorough { 100 } else { 20 }).collect();
    chunks.extend([31, 32, 33, 255, 256, 257, 1000, 2048, 4095, 4096, 4097, 8192, usize::MAX]);
    ctx.each("uniform", (big.len() * WAYS * chunks.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let pend = m.take(2) == 1;
        let way = m.take(WAYS);
        let chunk = *m.of(&chunks);
        let k = m.take(big.len());
        let j = &big[k];
        let b = bb[k].get_or_init(|| now(history(writer(Vec::new(), j.mode), j)).unwrap_or_default());
        let sink = Sink::chunked(chunk, pend);
        let r = run_on(j, way, &sink);
        l.step(sink.0.borrow().ops);
        l.state(&(k, way, chunk, pend));
        l.hit();
        check(j, way, b, &sink, r, &format!("history {k}, chunks of {chunk}, pending {pend}"))
    });
    // Entries of every look, on sinks that take a few bytes at a time.
    let looks: Vec<Job> = {
        let mut v = vec![];
        for g in 0..WGUISES.len() {
            for kind in KINDS {
                for m in [rz::STORED, rz::DEFLATE] {
                    let mut a = wguised(WOp::new(kind, m, "look", &pattern(2, 60)), g);
                    a.cut = Cut::By(25);
                    let b = wguised(WOp::new(KINDS[g % 4], m, "second", b"second"), (g + 7) % WGUISES.len());
                    if fits(&a) && fits(&b) {
                        v.push(Job { ops: vec![a, b], mode: MODES[(g + v.len()) % 3], comment: Some("looks") });
                    }
                }
            }
        }
        v
    };
    ctx.each("guises", (looks.len() * WAYS * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let pend = m.take(2) == 1;
        let way = m.take(WAYS);
        let chunk = *m.of(&[1usize, 7, 4096]);
        let k = m.take(looks.len());
        let j = &looks[k];
        let b = now(history(writer(Vec::new(), j.mode), j)).map_err(|e| format!("history {k}: baseline {e:?}"))?;
        let sink = Sink::chunked(chunk, pend);
        let r = run_on(j, way, &sink);
        l.step(sink.0.borrow().ops);
        l.state(&(k, way, chunk, pend));
        l.hit();
        check(j, way, &b, &sink, r, &format!("history {k}, chunks of {chunk}, pending {pend}"))
    });
    // Writes through the entry writer's own AsyncWrite face: short writes are reported to the caller, who
    // resumes after the accepted part (as opposed to write_all inside the library).
    let lens = [1usize, 2, 3, 7, 40];
    ctx.explore("entry-writer", (lens.len() * 2 * 3 * 2) as u64, if ctx.thorough { 4 } else { 3 }, |i, ch, l| {
        let mut m = Mix(i);
        let n = *m.of(&lens);
        let pre = m.take(2) == 1;
        let mode = *m.of(&MODES);
        let vectored = m.take(2) == 1;
        let data = pattern(2, n);
        let sink = Sink::scripted(ch, WRITE_MENU);
        let mut op = WOp::new(if pre { Kind::StreamPre } else { Kind::Stream }, rz::STORED, "w", &data);
        op.cut = Cut::One;
        let r = exec::run(async {
            let mut z = writer(sink.clone(), mode);
            let b = op.builder();
            let mut w = if pre { z.write_entry_stream_precompressed(b).await? } else { z.write_entry_stream(b).await? };
            let mut p = 0;
            while p < data.len() {
                let k = if vectored {
                    let (a, b) = data[p..].split_at((data.len() - p) / 2);
                    w.write_vectored(&[IoSlice::new(&[]), IoSlice::new(a), IoSlice::new(b)]).await?
                } else {
                    w.write(&data[p..]).await?
                };
                if k == 0 || k > data.len() - p {
                    return Err(ZipError::FeatureNotSupported("write returned an impossible count"));
                }
                p += k;
            }
            w.close().await?;
            z.close().await.map(|_| ())
        });
        l.step(sink.0.borrow().ops);
        l.hit();
        let j = Job { ops: vec![op], mode, comment: None };
        let b = now(history(writer(Vec::new(), mode), &j)).map_err(|e| format!("baseline {e:?}"))?;
        check(&j, 0, &b, &sink, r, "entry writer")
    });
    ctx.finish(
        "under each schedule the sink receives the archive it receives when it accepts everything at once, no stall, no close before the last byte",
        &["per deviation the sink is pending once, accepts one byte, or accepts all but one byte"],
    )
}
