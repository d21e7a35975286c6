//! What the writer reported as done can be recovered if it never gets any further.
use super::common::*;
use crate::dev::*;
use crate::engine::*;
use crate::exec::{self, now};
use crate::panel::*;
use crate::refzip as rz;
use crate::wops::*;
use async_zip::error::ZipError;
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use std::io::Read;
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncWriteCompatExt;

/// A streaming reader cannot know where a stored entry without sizes ends.
fn readable(op: &WOp) -> bool {
    op.method != rz::STORED || matches!(op.kind, Kind::Whole | Kind::WholePre)
}
/// The bytes of a finished history and how many there were when each call returned.
fn history(ops: &[&WOp], mode: Mode) -> Result<(Arc<Vec<u8>>, Vec<usize>), String> {
    let sink = Sink::new();
    now(async {
        let mut z = writer(sink.clone(), mode);
        let mut points = vec![];
        for op in ops {
            apply(&mut z, op).await.map_err(|e| format!("{e:?}"))?;
            points.push(sink.0.borrow().out.len());
        }
        z.comment("PK\x05\x06 the end".into());
        z.close().await.map_err(|e| format!("{e:?}"))?;
        Ok((Arc::new(sink.bytes()), points))
    })
}
/// The sink's first `cut` bytes, as a streaming reader sees them.
fn recover(ops: &[&WOp], bytes: &[u8], points: &[usize], cut: usize, front: Front, attach: Attach) -> R {
    let left = Arc::new(bytes[..cut].to_vec());
    let o = observe(front, attach, Style::ToEnd, &left)?;
    let done = points.iter().filter(|p| **p <= cut).count();
    let stop = ops.iter().position(|op| !readable(op)).unwrap_or(ops.len());
    let owed = done.min(stop);
    for i in 0..owed {
        let Some(e) = o.entries.get(i) else { bail!("{cut} bytes were left, {done} entries were complete, only {} found ({:?})", o.entries.len(), o.end) };
        match &e.data {
            Err(x) => bail!("{cut} bytes were left, entry {i} was complete at {}, reading it fails: {x}", points[i]),
            Ok(d) => ensure!(*d == *ops[i].data, "entry {i} recovered with other contents: {}", diff(&ops[i].data, d)),
        }
        if let Some(m) = &e.meta {
            ops[i].name.check(&m.name).map_err(|x| format!("entry {i}: name: {x}"))?;
            ensure!(m.method == ops[i].method, "entry {i}: method {}", m.method);
        }
    }
    let last_fails = matches!(&o.end, Err(e) if e.starts_with("done"));
    ensure!(o.entries.len() > owed || owed == 0 || !last_fails, "the end of entry {} fails: {:?} ({cut} bytes left)", owed - 1, o.end);
    ensure!(o.entries.len() <= ops.len(), "{} entries recovered, {} written", o.entries.len(), ops.len());
    let whole = cut >= points.last().copied().unwrap_or(0) + 4;
    ensure!(o.end.is_err() || whole, "{cut} bytes were left, the central directory was not reached, yet the reader reports a regular end");
    if whole && stop == ops.len() {
        ensure!(o.end.is_ok(), "all entries and the central directory's signature are there: {:?}", o.end);
    }
    Ok(())
}
/// What can be decoded of a compressed stream that was cut off.
fn partial(method: u16, d: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut b = [0u8; 64];
    let mut r: Box<dyn Read + '_> = match method {
        rz::DEFLATE => Box::new(flate2::bufread::DeflateDecoder::new(d)),
        rz::ZSTD => match zstd::stream::read::Decoder::new(d) {
            Ok(r) => Box::new(r),
            Err(_) => return out,
        },
        _ => Box::new(d),
    };
    while let Ok(n) = r.read(&mut b) {
        if n == 0 {
            break;
        }
        out.extend_from_slice(&b[..n]);
    }
    out
}
/// Pieces written, each followed by a flush (or two).
struct Live {
    method: u16,
    pre: bool,
    pieces: Vec<usize>,
    twice: bool,
    before: bool,
    mode: Mode,
}
async fn live<W: AsyncWrite + Unpin>(w: W, j: &Live, sink: &Sink) -> Result<Result<(), String>, ZipError> {
    let mut z = writer(w, j.mode);
    if j.before {
        apply(&mut z, &WOp::new(Kind::Whole, rz::DEFLATE, "before", b"an entry before it")).await?;
    }
    let data = Arc::new(pattern(3, j.pieces.iter().sum()));
    let coded = if j.pre { cached_encode(j.method, &data) } else { data.to_vec() };
    let op = WOp::new(if j.pre { Kind::StreamPre } else { Kind::Stream }, j.method, "live", &data);
    let mut s = if j.pre { z.write_entry_stream_precompressed(op.builder()).await? } else { z.write_entry_stream(op.builder()).await? };
    s.flush().await?;
    let start = sink.0.borrow().out.len();
    let mut p = 0;
    for (i, n) in j.pieces.iter().enumerate() {
        let e = if j.pre && i + 1 == j.pieces.len() { coded.len() } else { (p + n).min(coded.len()) };
        s.write_all(&coded[p..e]).await?;
        p = e;
        for _ in 0..1 + j.twice as usize {
            s.flush().await?;
        }
        let k = sink.0.borrow();
        if k.flushed != k.out.len() {
            return Ok(Err(format!("flush {i} succeeded, the sink was last flushed at {} of {} bytes", k.flushed, k.out.len())));
        }
        let got = if j.pre { k.out[start..].to_vec() } else { partial(j.method, &k.out[start..]) };
        if got != coded[..p] {
            return Ok(Err(format!("after flush {i}: {p} bytes were written, of what the sink got {} can be decoded", got.len())));
        }
    }
    s.close().await?;
    z.close().await?;
    Ok(Ok(()))
}

pub fn run(ctx: &Ctx) -> i32 {
    let alpha = alphabet();
    let fronts = [(Front::Stream, Attach::With), (Front::StreamBuf(7), Attach::Without), (Front::StreamTokio, Attach::With)];
    let d2 = Seqs { n: alpha.len() as u64, depth: 2 };
    // Every byte count the sink may be left with.
    ctx.each("cuts", d2.total() * 3, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let ops: Vec<&WOp> = d2.get(m.0).into_iter().map(|k| &alpha[k]).collect();
        let (bytes, points) = history(&ops, mode)?;
        let (front, attach) = fronts[(i % 7) as usize % 3];
        for cut in 0..=bytes.len() {
            l.step(1);
            recover(&ops, &bytes, &points, cut, front, attach)?;
            l.state(&(i, cut));
        }
        l.hit();
        l.sample(|| format!("{} calls, {} bytes, calls done at {points:?}", ops.len(), bytes.len()));
        Ok(())
    });
    // Longer histories, left around the ends of calls.
    let d = Seqs { n: alpha.len() as u64, depth: if ctx.thorough { 4 } else { 3 } };
    ctx.each("points", d.total(), |i, l| {
        let ops: Vec<&WOp> = d.get(i).into_iter().map(|k| &alpha[k]).collect();
        let mode = MODES[(i % 3) as usize];
        let (bytes, points) = history(&ops, mode)?;
        let (front, attach) = fronts[(i % 5) as usize % 3];
        for p in points.iter().chain([&bytes.len()]) {
            for cut in [*p, p + 3, p + 4, p + 17] {
                if cut <= bytes.len() {
                    l.step(1);
                    recover(&ops, &bytes, &points, cut, front, attach)?;
                }
            }
        }
        l.state(&i);
        l.hit();
        Ok(())
    });
    // Large entries, left around the multiples of usual buffer sizes as well.
    let mut big = vec![];
    for n in [70_000usize, 300_001] {
        for method in [rz::STORED, rz::DEFLATE, rz::ZSTD] {
            for kind in KINDS {
                let mut o = WOp::new(kind, method, "large", &pattern(2, n));
                o.cut = Cut::By(50_000);
                if readable(&o) {
                    big.push(o);
                }
            }
        }
    }
    let tail = WOp::new(Kind::Stream, rz::DEFLATE, "tail", b"the tail");
    ctx.each("large", (big.len() * 3 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let o = m.of(&big);
        let mode = *m.of(&MODES);
        let ops = match m.take(3) {
            0 => vec![o, &tail],
            1 => vec![&tail, o],
            _ => vec![&tail, o, o, &tail],
        };
        let (bytes, points) = history(&ops, mode)?;
        let (front, attach) = fronts[(i % 7) as usize % 3];
        let marks = (0..17).map(|k| k << 16).chain([8192, 1000, 300_000]);
        for cut in points.iter().flat_map(|p| [p.saturating_sub(1), *p, p + 4]).chain(marks).chain([bytes.len()]) {
            if cut <= bytes.len() {
                l.step(1);
                recover(&ops, &bytes, &points, cut, front, attach)?;
            }
        }
        l.state(&("large", i));
        l.hit();
        Ok(())
    });
    // Entries of every look.
    ctx.each("guises", (WGUISES.len() * KINDS.len() * 3 * 3 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let g = m.take(WGUISES.len());
        let kind = *m.of(&KINDS);
        let method = *m.of(&[rz::STORED, rz::DEFLATE, rz::ZSTD]);
        let mode = *m.of(&MODES);
        let (front, attach) = fronts[m.take(3)];
        let a = wguised(WOp::new(kind, method, "look", b"the contents of this"), g);
        let b = wguised(WOp::new(KINDS[i as usize % 4], rz::DEFLATE, "next", b"next"), (g + 5) % WGUISES.len());
        if !fits(&a) || !fits(&b) {
            return Ok(());
        }
        let ops = vec![&a, &b, &tail];
        let (bytes, points) = history(&ops, mode)?;
        let near = |cut: usize| bytes.len() < 700 || points.iter().any(|p| cut + 25 > *p && cut < p + 25);
        for cut in (0..=bytes.len()).filter(|c| near(*c)) {
            l.step(1);
            recover(&ops, &bytes, &points, cut, front, attach)?;
        }
        l.state(&("guises", i));
        l.hit();
        Ok(())
    });
    // Many entries.
    ctx.each("crowd", 4 * 3 * 3, |i, l| {
        let mut m = Mix(i);
        let n = [40usize, 300, 1000, 66_000][m.take(4)];
        let mode = *m.of(&MODES);
        let (front, attach) = fronts[m.take(3)];
        if n > 65_534 && mode == Mode::Never {
            return Ok(());
        }
        let all: Vec<WOp> = (0..n.min(50))
            .map(|k| WOp::new(KINDS[k % 4], [rz::DEFLATE, rz::DEFLATE, rz::ZSTD][k % 3], &format!("{k}"), format!("entry {k}").as_bytes()))
            .collect();
        let ops: Vec<&WOp> = (0..n).map(|k| &all[k % all.len()]).collect();
        let (bytes, points) = history(&ops, mode)?;
        for k in [0, 1, 15, 16, 39, 127, 128, 255, 256, 257, 999, 65_534, 65_535, 65_536, n - 1] {
            if k < n {
                for cut in [points[k] - 1, points[k], points[k] + 4] {
                    l.step(1);
                    recover(&ops, &bytes, &points, cut, front, attach)?;
                }
            }
        }
        recover(&ops, &bytes, &points, bytes.len(), front, attach)?;
        l.state(&("crowd", i));
        l.hit();
        Ok(())
    });
    // Flushed data of an entry that is still being written.
    let mut lives = vec![];
    for method in [rz::STORED, rz::DEFLATE, rz::ZSTD] {
        for pieces in [vec![1], vec![0, 5], vec![3, 40], vec![200, 1, 300], vec![5000, 20000], vec![70000, 1], vec![1; 12]] {
            for mode in MODES {
                for f in 0..4 {
                    lives.push(Live { method, pre: f & 1 == 1, pieces: pieces.clone(), twice: f & 2 == 2, before: (f + pieces.len()) % 2 == 0, mode });
                }
            }
        }
    }
    let mut longs = vec![];
    for method in [rz::STORED, rz::DEFLATE, rz::ZSTD] {
        for pieces in [vec![300_000, 1, 65_536], vec![1 << 20, 10], vec![1; 40], vec![30; 300], vec![8192; 9], vec![65_535, 1, 65_536, 1]] {
            for mode in MODES {
                for f in 0..4 {
                    longs.push(Live { method, pre: f & 1 == 1, pieces: pieces.clone(), twice: f & 2 == 2, before: (f + pieces.len()) % 2 == 0, mode });
                }
            }
        }
    }
    let live_on = |i: u64, sink: Sink, lives: &[Live], l: &mut Local| -> R {
        let (way, k) = (i % 3, i as usize / 3);
        let j = &lives[k];
        let r = exec::run(async {
            match way {
                0 => live(sink.clone(), j, &sink).await,
                1 => live(tokio_util::compat::TokioAsyncWriteCompatExt::compat_write(FuturesAsyncWriteCompatExt::compat_write(sink.clone())), j, &sink).await,
                _ => live(futures_lite::io::BufWriter::with_capacity(50, sink.clone()), j, &sink).await,
            }
        });
        l.step(sink.0.borrow().ops);
        l.state(&(i, sink.0.borrow().ops));
        l.hit();
        match r {
            Err(_) => bail!("stalled although the sink had woken it"),
            Ok(Err(e)) => bail!("failed with {e:?} on a sink that never fails"),
            Ok(Ok(Err(e))) => bail!("method {} precompressed {} pieces {:?}: {e}", j.method, j.pre, j.pieces),
            Ok(Ok(Ok(()))) => Ok(()),
        }
    };
    let go = |i: u64, ch: &Ch, l: &mut Local| live_on(i, Sink::scripted(ch, WRITE_MENU), &lives, l);
    ctx.each("flushes-long", longs.len() as u64 * 3 * 3, |i, l| {
        let sink = match i / (longs.len() as u64 * 3) {
            0 => Sink::new(),
            1 => Sink::chunked(5000, true),
            _ => Sink::chunked(100, false),
        };
        live_on(i % (longs.len() as u64 * 3), sink, &longs, l)
    });
    ctx.explore("flushes", lives.len() as u64 * 3, if ctx.thorough { 2 } else { 1 }, go);
    let small: Vec<u64> = (0..lives.len() as u64 * 3).filter(|i| lives[*i as usize / 3].pieces.iter().sum::<usize>() < 100).collect();
    ctx.explore("flushes-deep", small.len() as u64, if ctx.thorough { 3 } else { 2 }, |i, ch, l| go(small[i as usize], ch, l));
    ctx.finish(
        "from whatever prefix of the sink's bytes is left, a streaming reader recovers every entry whose call had returned, and reports a regular end only at the central directory; a flush that succeeded left all data written so far decodable and flushed",
        &["stored entries of unknown size are outside (no streaming reader can find their end), and so is what follows them", "flushing is claimed for stored, deflate and zstd data (what a flush means to the other encoders is their business)"],
    )
}
