//! Entry contents survive a write-read round trip.
use super::common::*;
use crate::dev::{zeros, Sparse, SparseSink, SparseSource};
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip as rz;
use crate::wops::*;
use async_zip::base::read::seek;
use async_zip::error::ZipError;
use async_zip::ZipEntryBuilder;
use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncWriteExt, BufReader};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncReadCompatExt;

const FRONTS: [(Front, Attach, Style); 6] = [
    (Front::Mem, Attach::With, Style::Checked(0)),
    (Front::Seek, Attach::Without, Style::ToEnd),
    (Front::Seek, Attach::With, Style::Checked(3)),
    (Front::Seek, Attach::Into, Style::Chunk(13)),
    (Front::MemClone, Attach::Without, Style::Zeros),
    (Front::SeekTokio, Attach::With, Style::Checked(1)),
];

fn round(ops: &[WOp], mode: Mode, comment: Option<&str>, nfronts: usize, l: &mut Local) -> R {
    let bytes = now(archive(ops, mode, comment)).map_err(|e| format!("writer refused {mode:?} {ops:?}: {e:?}"))?;
    let bytes = Arc::new(bytes);
    let refs: Vec<&WOp> = ops.iter().collect();
    for (f, a, s) in &FRONTS[..nfronts] {
        expect_contents(&bytes, &refs, *f, *a, *s)?;
        l.step(ops.len() as u64 + 1);
    }
    l.state(&(bytes.len(), h(&*bytes)));
    l.outcome(&(ops.len(), mode, bytes.len()));
    if !ops.is_empty() {
        l.hit();
    }
    Ok(())
}

/// Reads to the end: how many bytes, and those that are not zero.
pub async fn drain<S: AsyncRead + Unpin>(r: &mut S) -> Result<(u64, Vec<u8>), Fail> {
    let mut b = vec![0u8; 1 << 20];
    let (mut n, mut odd) = (0u64, vec![]);
    loop {
        let k = r.read(&mut b).await.map_err(|e| format!("after {n} bytes: {e}"))?;
        if k == 0 {
            return Ok((n, odd));
        }
        n += k as u64;
        if b[..k].iter().fold(0, |a, x| a | x) != 0 && odd.len() < 100 {
            odd.extend(b[..k].iter().copied().filter(|x| *x != 0));
        }
    }
}
fn beyond_4g(thorough: bool) -> Vec<(Kind, u16)> {
    let mut v = vec![(Kind::Whole, rz::STORED), (Kind::Stream, rz::STORED), (Kind::Stream, rz::ZSTD), (Kind::Stream, rz::DEFLATE)];
    if thorough {
        v.extend([(Kind::Whole, rz::ZSTD), (Kind::Whole, rz::DEFLATE), (Kind::Stream, rz::BZ), (Kind::Stream, rz::XZ)]);
    }
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    // Every single entry: kind x method x size x pattern x cut x mode.
    let sz = sizes(if ctx.thorough { 200_000 } else { 140_000 });
    let cuts: Vec<(Kind, u8)> = vec![
        (Kind::Whole, 0),
        (Kind::WholePre, 0),
        (Kind::StreamPre, 0),
        (Kind::StreamPre, 2),
        (Kind::Stream, 0),
        (Kind::Stream, 1),
        (Kind::Stream, 2),
        (Kind::Stream, 3),
        (Kind::Stream, 4),
        (Kind::Stream, 5),
        (Kind::StreamPre, 5),
    ];
    let pats = [2usize, 3, 0];
    let mk = |kind, c: u8, method, n: usize, pat| {
        let mut op = WOp::new(kind, method, "entry.bin", &pattern(pat, n));
        op.cut = match c {
            0 => Cut::One,
            1 => Cut::Lazy,
            2 => Cut::By(if n < 3000 { 1 } else { 1021 }),
            3 => Cut::By(4096),
            5 => Cut::Vec(n / 7 + 1),
            _ => Cut::At(vec![0, n / 2, n / 2, n.saturating_sub(1)]),
        };
        if c == 3 || c == 4 {
            op.flush = 0b1011;
        }
        op
    };
    let total = (cuts.len() * FAST.len() * pats.len() * MODES.len() * sz.len()) as u64;
    ctx.each("single", total, |i, l| {
        let mut m = Mix(i);
        let (kind, c) = *m.of(&cuts);
        let method = *m.of(&FAST);
        let mode = *m.of(&MODES);
        let pat = *m.of(&pats);
        let n = *m.of(&sz);
        let op = mk(kind, c, method, n, pat);
        l.sample(|| format!("{kind:?} method {method} {n} bytes pattern {pat} cut {:?} {mode:?}", op.cut));
        round(&[op], mode, None, if n < 5000 { 6 } else { 2 }, l)
    });
    // Whatever else the entry looks like, in two respects at once.
    let nw = WGUISES.len();
    ctx.each("guises", (nw * nw * 4 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let (g, h) = (m.take(nw), m.take(nw));
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let method = [rz::STORED, rz::DEFLATE][m.take(2)];
        let op = wguised(wguised(WOp::new(kind, method, "entry", b"contents of the entry"), g), h);
        if !fits(&op) {
            return Ok(());
        }
        let next = wguised(WOp::new(Kind::Stream, rz::DEFLATE, "next", b"contents of the next one"), h);
        round(&[op, next, WOp::new(Kind::Whole, rz::STORED, "last", b"last")], mode, Some("c"), 3, l)
            .map_err(|f| Fail { msg: format!("{} and {}: {}", WGUISES[g].0, WGUISES[h].0, f.msg), ..f })
    });
    // The slow encoders on fewer payloads.
    let slow = [rz::LZMA, rz::XZ];
    let ssz: Vec<usize> = if ctx.thorough { sizes(70000) } else { vec![0, 1, 2, 3, 17, 100, 4096, 8193, 70000] };
    ctx.each("single-slow", (cuts.len() * slow.len() * ssz.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let (kind, c) = *m.of(&cuts);
        let method = *m.of(&slow);
        let n = *m.of(&ssz);
        let mut op = mk(kind, c, method, n, 3);
        op.level = Some(1);
        round(&[op], MODES[(i % 3) as usize], None, 3, l)
    });
    // Entries of a megabyte and more.
    let mut big = vec![(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (3 << 20) + 77];
    big.extend(if ctx.thorough { vec![(16 << 20) + 3, (50 << 20) + 1] } else { vec![(9 << 20) + 3] });
    let bcuts = [(Kind::Whole, 0u8), (Kind::WholePre, 0), (Kind::StreamPre, 0), (Kind::Stream, 0), (Kind::Stream, 3), (Kind::Stream, 4), (Kind::Stream, 5)];
    ctx.each("large", (bcuts.len() * FAST.len() * 2 * big.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let (kind, c) = *m.of(&bcuts);
        let method = *m.of(&FAST);
        let pat = [2usize, 3][m.take(2)];
        let n = *m.of(&big);
        if method == rz::BZ && n > 4 << 20 {
            return Ok(());
        }
        let op = mk(kind, c, method, n, pat);
        round(&[op, WOp::new(Kind::Whole, rz::STORED, "next", b"next")], Mode::Auto, None, 2, l)
    });
    // Around 16, 32 and 64 MiB: every way of writing, contents that are not periodic.
    let mib: Vec<usize> = [16usize, 32, 64].iter().flat_map(|k| [k << 20, (k << 20) + 1, (k << 20) + 70_001]).collect();
    let mib = if ctx.thorough { mib } else { vec![(16 << 20) + 1, (33 << 20) + 70_001, (64 << 20) + 1] };
    let ways = [(Kind::Whole, 0u8), (Kind::Stream, 0), (Kind::Stream, 3), (Kind::StreamPre, 0)];
    ctx.each("very-large", (ways.len() * 3 * mib.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let (kind, c) = *m.of(&ways);
        let method = FAST[m.take(3)];
        let n = *m.of(&mib);
        let mut op = mk(kind, c, method, n, 1);
        op.level = (method == rz::DEFLATE).then_some(1);
        round(&[op, WOp::new(Kind::Whole, rz::STORED, "next", b"next")], MODES[(i % 3) as usize], None, 2, l)
    });
    // All compositions of a short payload into writes, all flush patterns, explicit close.
    let len = if ctx.thorough { 6 } else { 5 };
    let kinds = [Kind::Stream, Kind::StreamPre];
    let parts = 1u64 << (len - 1);
    ctx.each("cuts", parts * (1 << len) * 2 * 2 * 4, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&kinds);
        let close_first = m.take(2) == 1;
        let method = *m.of(&FAST);
        let mask = m.take(parts as usize);
        let flush = m.take(1 << len) as u32;
        let at: Vec<usize> = (1..len).filter(|k| mask & (1 << (k - 1)) != 0).collect();
        if flush >> (at.len() + 1) != 0 {
            return Ok(()); // same as a smaller flush pattern
        }
        let mut op = WOp::new(kind, method, "c", &pattern(1, len));
        op.cut = Cut::At(at);
        op.flush = flush;
        op.close_first = close_first;
        round(&[op.clone(), op], if i % 2 == 0 { Mode::Auto } else { Mode::Never }, None, 1, l)
    });
    // All histories up to a depth.
    let alpha = alphabet();
    let seqs = Seqs { n: alpha.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    let comments = [None, Some("archive comment")];
    ctx.each("histories", seqs.total() * 6, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let comment = *m.of(&comments);
        let ops: Vec<WOp> = seqs.get(m.0).into_iter().map(|k| alpha[k].clone()).collect();
        round(&ops, mode, comment, if ops.len() < 3 { 6 } else { 1 }, l)
    });
    // Every compression level, preset sizes, the public compress and crc32 helpers.
    let levels: Vec<Option<i32>> = std::iter::once(None).chain((0..=9).map(Some)).collect();
    let lsz = [0usize, 1, 300, 9000];
    ctx.each("levels", (levels.len() * 4 * lsz.len() * 4 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let level = *m.of(&levels);
        let kind = *m.of(&KINDS);
        let n = *m.of(&lsz);
        let method = *m.of(&FAST);
        if method == rz::BZ && level == Some(0) {
            return Ok(()); // bzip2 has no level 0
        }
        let mut op = WOp::new(kind, method, "lv", &pattern(3, n));
        op.level = level;
        op.lib_compress = true;
        op.preset = m.take(2) == 1;
        ensure!(async_zip::base::write::crc32(&op.data) == rz::crc(&op.data), "crc32 helper");
        round(&[op], Mode::Auto, None, 2, l)
    });
    ctx.each("compress-helper", (FULL.len() * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&FULL);
        let data = pattern(3, [0, 5, 3000][m.take(3)]);
        let op = WOp::new(Kind::Whole, method, "x", &data);
        let c = now(async_zip::base::write::compress(&op.builder().build(), &data));
        let d = rz::decode(method, &c)?;
        l.step(1);
        ensure!(d == data, "compress() with method {method}: {}", diff(&data, &d));
        Ok(())
    });
    // Many entries.
    let mut counts = vec![255usize, 256, 257, 4096];
    counts.extend(if ctx.thorough { vec![65533, 65534, 65535, 65536, 65537, 70000] } else { vec![65535, 65536] });
    ctx.each("counts", (counts.len() * 2 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let kind = [Kind::Whole, Kind::Stream][m.take(2)];
        let mode = [Mode::Auto, Mode::Never][m.take(2)];
        let n = counts[counts.len() - 1 - m.take(counts.len())];
        if mode == Mode::Never && n > 65535 {
            return Ok(());
        }
        let bytes = now(async {
            let mut w = writer(Vec::new(), mode);
            for k in 0..n {
                let op = WOp::new(kind, rz::STORED, "n", &(k as u32).to_le_bytes());
                apply(&mut w, &op).await?;
            }
            w.close().await
        })
        .map_err(|e| format!("{n} entries {mode:?}: {e:?}"))?;
        let o = observe(Front::Seek, Attach::With, Style::Checked(0), &Arc::new(bytes)).map_err(|e| format!("{n} entries: {e}"))?;
        ensure!(o.entries.len() == n, "{n} entries written, {} found", o.entries.len());
        for (k, e) in o.entries.iter().enumerate() {
            ensure!(e.data.as_deref() == Ok(&(k as u32).to_le_bytes()[..]), "entry {k} of {n}: {:?}", e.data);
        }
        l.step(2 * n as u64);
        l.hit();
        Ok(())
    });
    // The tokio front end of the writer.
    ctx.each("tokio", (alpha.len() * alpha.len() * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let ops = [m.of(&alpha).clone(), m.of(&alpha).clone()];
        let mode = *m.of(&MODES);
        let bytes = now(async {
            let z = async_zip::tokio::write::ZipFileWriter::with_tokio(Vec::<u8>::new());
            let mut z = match mode {
                Mode::Auto => z,
                Mode::Force => z.force_zip64(),
                Mode::Never => z.force_no_zip64(),
            };
            for op in &ops {
                apply(&mut z, op).await?;
            }
            z.close().await
        })
        .map_err(|e| format!("tokio writer: {e:?}"))?
        .into_inner();
        l.hit();
        expect_contents(&Arc::new(bytes), &[&ops[0], &ops[1]], Front::SeekTokio, Attach::With, Style::Checked(0))
    });
    // Contents of more than 4 GiB, read back to the end.
    let huge = beyond_4g(ctx.thorough);
    ctx.each("beyond-4g", huge.len() as u64 * 2, |i, l| {
        let mut m = Mix(i);
        let tokio = m.take(2) == 1;
        let (kind, method) = *m.of(&huge);
        let n = (1u64 << 32) + 5;
        let tail = b"not zeros";
        let k = SparseSink(Rc::new(RefCell::new(Sparse::default())));
        let mut w = writer(k.clone(), Mode::Auto);
        now(async {
            let e = ZipEntryBuilder::new("huge".into(), comp(method));
            if kind == Kind::Whole {
                w.write_entry_whole(e, zeros(n)).await?;
            } else {
                let mut s = w.write_entry_stream(e).await?;
                s.write_all(zeros(n)).await?;
                s.write_all(tail).await?;
                s.close().await?;
            }
            w.write_entry_whole(ZipEntryBuilder::new("next".into(), comp(method)), b"what follows").await?;
            w.close().await.map(|_| ())
        })
        .map_err(|e: ZipError| format!("{kind:?} {method}: {e:?}"))?;
        let data = Rc::new(k.0.borrow().clone());
        let src = BufReader::with_capacity(1 << 20, SparseSource { data, pos: 0 });
        macro_rules! check {
            ($z:expr) => {{
                let mut z = $z.map_err(|e| format!("{kind:?} {method}: {e:?}"))?;
                ensure!(z.file().entries().len() == 2, "{kind:?} {method}: {} entries", z.file().entries().len());
                let crc = z.file().entries()[0].crc32();
                let mut r = now(z.reader_without_entry(0)).map_err(|e| format!("{kind:?} {method}: {e:?}"))?;
                let (sum, end) = now(drain(&mut r)).map_err(|e| format!("{kind:?} {method}: {}", e.msg))?;
                let want = if kind == Kind::Whole { (n, vec![]) } else { (n + tail.len() as u64, tail.to_vec()) };
                ensure!((sum, &end) == (want.0, &want.1), "{kind:?} {method}: {sum} bytes of {}, not zero: {end:?}", want.0);
                ensure!(r.compute_hash() == crc, "{kind:?} {method}: the CRC differs");
                drop(r);
                let mut v = vec![];
                let mut r = now(z.reader_with_entry(1)).map_err(|e| format!("{kind:?} {method}, entry behind: {e:?}"))?;
                now(r.read_to_end_checked(&mut v)).map_err(|e| format!("{kind:?} {method}, entry behind: {e:?}"))?;
                ensure!(v == b"what follows", "{kind:?} {method}, entry behind: {v:?}");
            }};
        }
        if tokio {
            check!(now(async_zip::tokio::read::seek::ZipFileReader::with_tokio(src.compat())));
        } else {
            check!(now(seek::ZipFileReader::new(src)));
        }
        l.step(4);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "every entry accepted by the writer is found again, in order, with exactly its bytes, by every random-access reader and its checked reads succeed",
        &["payload sizes and patterns as enumerated; histories up to the stated depth over a 14-letter alphabet of entry writes"],
    )
}
