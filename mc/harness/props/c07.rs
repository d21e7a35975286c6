//! A failed or abandoned entry never harms the other entries.
use super::common::*;
use crate::dev::*;
use crate::engine::*;
use crate::exec;
use crate::panel::*;
use crate::refzip as rz;
use crate::wops::*;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncWriteCompatExt;

/// One step of a caller: a complete entry, or a streamed entry given up without closing it.
#[derive(Clone)]
enum Act {
    Entry(WOp),
    /// Streamed entry dropped after this many bytes; flushed before that if set.
    GiveUp(WOp, usize, bool),
}
async fn act<W: AsyncWrite + Unpin>(z: &mut ZipFileWriter<W>, a: &Act) -> Result<bool, ZipError> {
    match a {
        Act::Entry(op) => apply(z, op).await.map(|_| true),
        Act::GiveUp(op, n, flush) => {
            let b = op.builder();
            let mut s = if op.kind == Kind::StreamPre { z.write_entry_stream_precompressed(b).await? } else { z.write_entry_stream(b).await? };
            s.write_all(&op.data[..*n]).await?;
            if *flush {
                s.flush().await?;
            }
            drop(s);
            Ok(false)
        }
    }
}
/// Runs the history; a call that is stopped by the sink is dropped and the caller goes on.
fn history<W: AsyncWrite + Unpin>(z: ZipFileWriter<W>, acts: &[Act], sink: &Sink, l: &mut Local) -> Result<Option<Vec<usize>>, Fail> {
    let mut z = z;
    let mut done = vec![];
    for (i, a) in acts.iter().enumerate() {
        let e0 = sink.0.borrow().errors;
        sink.0.borrow_mut().abandon = false;
        let r = exec::run(act(&mut z, a));
        l.step(1);
        let (e1, abandoned) = (sink.0.borrow().errors, sink.0.borrow().abandon);
        match r {
            Err(_) => ensure!(abandoned, "entry {i}: stalled although the sink had woken it"),
            Ok(Ok(complete)) => {
                ensure!(e1 == e0, "entry {i}: reported success although the sink failed");
                if complete {
                    done.push(i);
                }
            }
            Ok(Err(e)) => ensure!(e1 > e0, "entry {i}: failed with {e:?} although the sink worked"),
        }
    }
    z.comment("the end".into());
    let e0 = sink.0.borrow().errors;
    sink.0.borrow_mut().abandon = false;
    let r = exec::run(z.close());
    let (e1, abandoned) = (sink.0.borrow().errors, sink.0.borrow().abandon);
    l.step(1);
    match r {
        Err(_) => {
            ensure!(abandoned, "close stalled although the sink had woken it");
            Ok(None)
        }
        Ok(Ok(_)) => {
            ensure!(e1 == e0, "close reported success although the sink failed");
            Ok(Some(done))
        }
        Ok(Err(e)) => {
            ensure!(e1 > e0, "close failed with {e:?} although the sink worked");
            Ok(None)
        }
    }
}
fn verify(acts: &[Act], done: &[usize], bytes: Vec<u8>) -> R {
    let ops: Vec<&WOp> = done
        .iter()
        .map(|i| match &acts[*i] {
            Act::Entry(o) => o,
            Act::GiveUp(o, ..) => o,
        })
        .collect();
    let bytes = Arc::new(bytes);
    let o = observe(Front::Seek, Attach::With, Style::Checked(0), &bytes).map_err(|e| format!("archive does not open: {e}"))?;
    ensure!(o.entries.len() == ops.len(), "{} entries reported written (calls {done:?}), {} found", ops.len(), o.entries.len());
    for (k, (e, op)) in o.entries.iter().zip(&ops).enumerate() {
        let d = e.data.as_ref().map_err(|x| format!("entry {k} (call {}): {x}", done[k]))?;
        ensure!(*d == *op.data, "entry {k} (call {}): {}", done[k], diff(&op.data, d));
        op.check_meta(e.meta.as_ref().ok_or("no metadata")?).map_err(|x| format!("entry {k} (call {}): {x}", done[k]))?;
    }
    ensure!(o.comment.is_some_and(|c| c.bytes == b"the end"), "archive comment changed");
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut alpha: Vec<Act> = alphabet()
        .into_iter()
        .enumerate()
        .map(|(k, mut o)| {
            if o.data.len() > 1000 {
                o.data = Arc::new(pattern(3, 400));
                o.cut = Cut::By(150);
            }
            o.comment = if k % 2 == 0 { T::Utf8(format!("c{k}")) } else { o.comment };
            Act::Entry(o)
        })
        .collect();
    for (kind, m) in [(Kind::Stream, rz::STORED), (Kind::Stream, rz::DEFLATE), (Kind::Stream, rz::ZSTD), (Kind::StreamPre, rz::STORED)] {
        for n in [0usize, 1, 30] {
            for flush in [false, true] {
                alpha.push(Act::GiveUp(WOp::new(kind, m, "abandoned", &pattern(2, 30)), n, flush));
            }
        }
    }
    let n = alpha.len();
    let go = |acts: &[Act], mode: Mode, tokio: bool, menu: &'static [Alt], ch: &Ch, l: &mut Local| -> R {
        let sink = Sink::scripted(ch, menu);
        let r = if tokio {
            let z = async_zip::tokio::write::ZipFileWriter::with_tokio(FuturesAsyncWriteCompatExt::compat_write(sink.clone()));
            let z = match mode {
                Mode::Auto => z,
                Mode::Force => z.force_zip64(),
                Mode::Never => z.force_no_zip64(),
            };
            history(z, acts, &sink, l)?
        } else {
            history(writer(sink.clone(), mode), acts, &sink, l)?
        };
        l.step(sink.0.borrow().ops);
        if let Some(done) = r {
            if done.len() < acts.len() {
                l.hit();
            }
            l.state(&(sink.0.borrow().out.len(), done.clone(), sink.0.borrow().ops));
            verify(acts, &done, sink.bytes())?;
        }
        Ok(())
    };
    // All pairs of steps, every single fault.
    ctx.explore("pairs", (n * n * 3) as u64, if ctx.thorough { 2 } else { 1 }, |i, ch, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let acts = [m.of(&alpha).clone(), m.of(&alpha).clone()];
        go(&acts, mode, i % 5 == 4, WRITE_FAULTS, ch, l)
    });
    // The sink fails, accepts nothing or stops after every number of bytes, in all pairs and a third step.
    let third = Act::Entry(WOp::new(Kind::Whole, rz::DEFLATE, "third", &pattern(3, 30)));
    let sub: Vec<usize> = if ctx.thorough { (0..n).collect() } else { (0..n).filter(|k| *k < 14 || k % 3 == 0).collect() };
    let spans: Vec<(usize, usize)> = sub.iter().flat_map(|a| sub.iter().map(move |b| (*a, *b))).collect();
    ctx.each("bytes", spans.len() as u64 * 3, |i, l| {
        let mut m = Mix(i);
        let how = *m.of(&[Alt::Err, Alt::Drop, Alt::Zero]);
        let (a, b) = *m.of(&spans);
        let acts = [alpha[a].clone(), alpha[b].clone(), third.clone()];
        let mode = MODES[(a + b) % 3];
        let mut at = 0;
        loop {
            let sink = Sink::new();
            sink.0.borrow_mut().fail_at = Some((at, how));
            let r = history(writer(sink.clone(), mode), &acts, &sink, l)?;
            let more = sink.0.borrow().fail_at.is_none();
            l.state(&(i, at));
            if let Some(done) = r {
                ensure!(done.len() < acts.len() || acts.iter().any(|a| matches!(a, Act::GiveUp(..))) || !more, "a failure after {at} bytes stopped no call");
                verify(&acts, &done, sink.bytes()).map_err(|f| Fail { msg: format!("{how:?} after {at} bytes: {}", f.msg), ..f })?;
            }
            if !more {
                break;
            }
            at += 1;
        }
        l.hit();
        Ok(())
    });
    // Unusual entries fail, or are given up, at every byte (large headers: at some).
    let nw = WGUISES.len();
    ctx.each("guises", (nw * 5 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let g = m.take(nw);
        let (kind, method) =
            [(Kind::Whole, rz::STORED), (Kind::Whole, rz::DEFLATE), (Kind::Stream, rz::STORED), (Kind::Stream, rz::DEFLATE), (Kind::StreamPre, rz::STORED)]
                [m.take(5)];
        let how = *m.of(&[Alt::Err, Alt::Drop, Alt::Zero]);
        let op = wguised(WOp::new(kind, method, "entry", b"contents of the entry"), g);
        let give = if m.take(2) == 1 { Act::GiveUp(op.clone(), op.data.len() / 2, true) } else { Act::Entry(op.clone()) };
        if matches!((&give, kind), (Act::GiveUp(..), Kind::Whole)) {
            return Ok(());
        }
        let acts = [give, third.clone(), Act::Entry(wguised(op, (g + 1) % nw)), third.clone()];
        if acts.iter().any(|a| matches!(a, Act::Entry(o) if !fits(o))) {
            return Ok(());
        }
        let mode = MODES[(g + i as usize) % 3];
        let mut at = 0;
        loop {
            let sink = Sink::new();
            sink.0.borrow_mut().fail_at = Some((at, how));
            let r = history(writer(sink.clone(), mode), &acts, &sink, l)
                .map_err(|f| Fail { msg: format!("{}: {how:?} after {at} bytes: {}", WGUISES[g].0, f.msg), ..f })?;
            let more = sink.0.borrow().fail_at.is_none();
            l.state(&(i, at));
            if let Some(done) = r {
                verify(&acts, &done, sink.bytes()).map_err(|f| Fail { msg: format!("{}: {how:?} after {at} bytes: {}", WGUISES[g].0, f.msg), ..f })?;
            }
            if !more {
                break;
            }
            // Within the texts of large headers one byte is like another.
            at += if sink.bytes().len() > 20_000 && at > 400 { 1511 } else { 1 };
        }
        l.hit();
        Ok(())
    });
    // Large contents: a fault around every multiple of the usual buffer sizes.
    let large: Vec<Act> = {
        let data = pattern(2, 150_000);
        let mut v = vec![];
        for (kind, m) in
            [(Kind::Whole, rz::STORED), (Kind::Stream, rz::STORED), (Kind::Stream, rz::DEFLATE), (Kind::StreamPre, rz::STORED), (Kind::Whole, rz::DEFLATE)]
        {
            let mut o = WOp::new(kind, m, "large", &data);
            o.cut = Cut::By(50_000);
            v.push(Act::Entry(o.clone()));
            if matches!(kind, Kind::Stream | Kind::StreamPre) {
                v.push(Act::GiveUp(o.clone(), 70_000, false));
                v.push(Act::GiveUp(o, 150_000, true));
            }
        }
        v
    };
    let marks: Vec<usize> =
        (1..20).map(|k| k * 8192).chain([150_000, 65_535, 40_000, 300_000, 220_000]).flat_map(|n| [n - 1, n, n + 1, n + 40]).chain([1, 20, 31, 45]).collect();
    ctx.each("large", (large.len() * marks.len() * 3 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let how = *m.of(&[Alt::Err, Alt::Drop, Alt::Zero]);
        let at = *m.of(&marks);
        let a = m.of(&large).clone();
        let small = Act::Entry(WOp::new(Kind::Stream, rz::DEFLATE, "small", &pattern(3, 30)));
        let acts = match m.take(3) {
            0 => vec![a, small],
            1 => vec![small.clone(), a, small],
            _ => vec![a.clone(), a, small],
        };
        let sink = Sink::new();
        sink.0.borrow_mut().fail_at = Some((at, how));
        let r = history(writer(sink.clone(), MODES[at % 3]), &acts, &sink, l)?;
        l.state(&i);
        if let Some(done) = r {
            verify(&acts, &done, sink.bytes()).map_err(|f| Fail { msg: format!("{how:?} after {at} bytes: {}", f.msg), ..f })?;
            l.hit();
        }
        Ok(())
    });
    // Long histories: one entry among many fails or is given up.
    ctx.each("long", 40 * 40 * 6, |i, l| {
        let mut m = Mix(i);
        let (n, k) = (1 + m.take(40), m.take(40));
        let how = m.take(6);
        let plain = Act::Entry(WOp::new([Kind::Whole, Kind::Stream, Kind::WholePre][n % 3], rz::STORED, "plain", b"some data"));
        let mut acts: Vec<Act> = vec![plain.clone(); n];
        let bad = WOp::new(Kind::Stream, [rz::STORED, rz::DEFLATE][how % 2], "bad", &pattern(3, 100));
        let at = k % n;
        let sink = Sink::new();
        if how < 4 {
            acts[at] = Act::GiveUp(bad, 60, how >= 2);
        } else {
            // Every entry occupies the same number of bytes.
            sink.0.borrow_mut().fail_at = Some((60 * at + 25, if how == 4 { Alt::Err } else { Alt::Drop }));
        }
        let r = history(writer(sink.clone(), MODES[k % 3]), &acts, &sink, l)?;
        l.state(&(n, at, how));
        if let Some(done) = r {
            verify(&acts, &done, sink.bytes())?;
            l.hit();
        }
        Ok(())
    });
    // The failure is of any kind.
    let few: Vec<usize> = sub.iter().copied().step_by(3).collect();
    ctx.each("kinds", (few.len() * few.len() * FAILS) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(FAILS);
        let (a, b) = (*m.of(&few), *m.of(&few));
        let acts = [alpha[a].clone(), alpha[b].clone()];
        let _g = fail_with(k);
        let mut at = 0;
        loop {
            let sink = Sink::new();
            sink.0.borrow_mut().fail_at = Some((at, Alt::Err));
            let r = history(writer(sink.clone(), MODES[(a + b) % 3]), &acts, &sink, l)
                .map_err(|f| Fail { msg: format!("{} after {at} bytes: {}", fail_name(k), f.msg), ..f })?;
            let more = sink.0.borrow().fail_at.is_none();
            l.state(&(i, at));
            if let Some(done) = r {
                verify(&acts, &done, sink.bytes()).map_err(|f| Fail { msg: format!("{} after {at} bytes: {}", fail_name(k), f.msg), ..f })?;
            }
            if !more {
                break;
            }
            at += 1;
        }
        l.hit();
        Ok(())
    });
    // The same at any operation of the sink.
    ctx.explore("kinds-operations", (few.len() * few.len() * FAILS) as u64, if ctx.thorough { 2 } else { 1 }, |i, ch, l| {
        let mut m = Mix(i);
        let k = m.take(FAILS);
        let (a, b) = (*m.of(&few), *m.of(&few));
        let acts = [alpha[a].clone(), alpha[b].clone()];
        let _g = fail_with(k);
        go(&acts, MODES[(a + b) % 3], k % 2 == 1, WRITE_FAULTS, ch, l).map_err(|f| Fail { msg: format!("{}: {}", fail_name(k), f.msg), ..f })
    });
    // Chosen histories, several faults.
    let pick: Vec<Vec<usize>> = vec![
        vec![0, 3],
        vec![3, 0],
        vec![1, 7, 2],
        vec![9, 10],
        vec![4, 8],
        vec![5, 0],
        vec![12, 13],
        vec![14, 0, 3],
        vec![21, 3, 9],
        vec![0, 0, 0],
        vec![3, 3],
        vec![6, 6, 6],
        vec![37, 36, 35, 34, 0],
    ];
    ctx.explore("several-faults", (pick.len() * 3) as u64, if ctx.thorough { 3 } else { 2 }, |i, ch, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let acts: Vec<Act> = m.of(&pick).iter().map(|k| alpha[*k].clone()).collect();
        l.sample(|| format!("history {i} {mode:?}"));
        go(&acts, mode, false, WRITE_FAULTS, ch, l)
    });
    // Deep histories of abandonment alone (no sink faults): all sequences.
    let seqs = Seqs { n: n as u64, depth: if ctx.thorough { 4 } else { 3 } };
    let idle: &'static [Alt] = &[];
    ctx.each("abandon", seqs.total(), |i, l| {
        let acts: Vec<Act> = seqs.get(i).into_iter().map(|k| alpha[k].clone()).collect();
        let ch: Ch = Default::default();
        go(&acts, MODES[(i % 3) as usize], false, idle, &ch, l)
    });
    ctx.finish(
        "after every fault pattern the closed archive holds exactly the entries whose calls reported success; a call during which the sink failed reports an error",
        &["a failing write accepts nothing; a dropped call is dropped at a point where the sink is not ready"],
    )
}
