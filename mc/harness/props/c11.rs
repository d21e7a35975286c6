//! Written sizes, offsets and counts are exact or refused at the 32/16-bit limits.
use super::common::*;
use crate::dev::{zeros, Sparse, SparseSink, SparseSource};
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, View};
use crate::wops::{Kind, Mode, MODES};
use async_zip::base::read::seek;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::ZipEntryBuilder;
use futures_lite::io::{AsyncReadExt, AsyncWrite, AsyncWriteExt, BufReader};
use std::cell::RefCell;
use std::rc::Rc;
use tokio_util::compat::FuturesAsyncWriteCompatExt;

const MAX: u64 = 0xFFFF_FFFF;
const CRC: u32 = 0x1234_5678;

/// One entry: c bytes of (claimed) compressed data, u claimed uncompressed bytes.
#[derive(Clone, Debug, Hash)]
struct S {
    kind: Kind,
    method: u16,
    c: u64,
    u: u64,
    comment: usize,
}
fn s(kind: Kind, c: u64, u: u64) -> S {
    S { kind, method: rz::STORED, c, u, comment: 0 }
}
fn writer(mode: Mode) -> (SparseSink, ZipFileWriter<SparseSink>) {
    let k = SparseSink(Rc::new(RefCell::new(Sparse::default())));
    (k.clone(), crate::wops::writer(k, mode))
}
async fn put<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, e: &S) -> Result<(), ZipError> {
    let mut b = ZipEntryBuilder::new("n".into(), comp(e.method));
    if e.comment > 0 {
        b = b.comment("\0".repeat(e.comment).into());
    }
    match e.kind {
        Kind::Whole => w.write_entry_whole(b, zeros(e.u)).await,
        Kind::WholePre => w.write_entry_whole_precompressed(b.crc32(CRC).uncompressed_size(e.u), zeros(e.c)).await,
        Kind::Stream | Kind::StreamPre => {
            let mut t = if e.kind == Kind::Stream {
                w.write_entry_stream(b).await?
            } else {
                w.write_entry_stream_precompressed(b.crc32(CRC).uncompressed_size(e.u)).await?
            };
            let n = if e.kind == Kind::Stream { e.u } else { e.c };
            // Several writes, the last one short.
            let cut = n.saturating_sub(5);
            t.write_all(&zeros(n)[..cut as usize / 2]).await?;
            t.write_all(&zeros(n)[cut as usize / 2..cut as usize]).await?;
            t.write_all(&zeros(n)[cut as usize..]).await?;
            t.close().await
        }
    }
}
/// What is known about an accepted entry.
struct Acc {
    off: u64,
    e: S,
}
fn pos(k: &SparseSink) -> u64 {
    k.0.borrow().len
}
fn needs(e: &Result<(), ZipError>) -> bool {
    matches!(e, Err(ZipError::Zip64Needed(_)))
}
/// Runs a history of writes, closes, reads back.
fn history(mode: Mode, hist: &[S], l: &mut Local) -> R {
    let (k, w) = writer(mode);
    history_on(mode, k, w, hist, l)
}
/// The same with a writer over a tokio sink.
fn history_tokio(mode: Mode, hist: &[S], l: &mut Local) -> R {
    let k = SparseSink(Rc::new(RefCell::new(Sparse::default())));
    let w = async_zip::tokio::write::ZipFileWriter::with_tokio(FuturesAsyncWriteCompatExt::compat_write(k.clone()));
    let w = match mode {
        Mode::Auto => w,
        Mode::Force => w.force_zip64(),
        Mode::Never => w.force_no_zip64(),
    };
    history_on(mode, k, w, hist, l)
}
fn history_on<W: AsyncWrite + Unpin>(mode: Mode, k: SparseSink, mut w: ZipFileWriter<W>, hist: &[S], l: &mut Local) -> R {
    let mut acc: Vec<Acc> = vec![];
    let mut clean = true;
    for (i, e) in hist.iter().enumerate() {
        let off = pos(&k);
        let r = now(put(&mut w, e));
        l.step(1);
        let over = |v: u64| v > MAX;
        let known_c = !(e.method != rz::STORED && matches!(e.kind, Kind::Whole | Kind::Stream));
        let too_big = over(off) || over(e.u) || (known_c && over(e.c)) || acc.len() + 1 > 65535;
        let edge = off == MAX || e.u == MAX || (known_c && e.c == MAX);
        match r {
            Ok(()) => {
                ensure!(!(mode == Mode::Never && too_big), "entry {i} {e:?} at {off} accepted although ZIP64 is forbidden");
                acc.push(Acc { off, e: e.clone() });
            }
            r if needs(&r) => {
                ensure!(mode == Mode::Never, "entry {i} {e:?} at {off} refused: {r:?}");
                ensure!(too_big || edge, "entry {i} {e:?} at {off} fits but was refused: {r:?}");
                l.hit();
                if pos(&k) != off {
                    clean = false;
                }
            }
            r => bail!("entry {i} {e:?} at {off}: {r:?}"),
        }
    }
    l.state(&(mode as u8, hist));
    finish(mode, k, w, acc, clean, l)
}
fn finish<W: AsyncWrite + Unpin>(mode: Mode, k: SparseSink, w: ZipFileWriter<W>, acc: Vec<Acc>, clean: bool, l: &mut Local) -> R {
    let cd = pos(&k);
    let r = now(w.close());
    l.step(1);
    match r {
        Ok(_) => ensure!(!(mode == Mode::Never && cd > MAX), "directory at {cd} closed although ZIP64 is forbidden"),
        Err(ZipError::Zip64Needed(_)) => {
            ensure!(mode == Mode::Never && cd >= MAX, "close refused with the directory at {cd}, mode {mode:?}");
            l.hit();
            return Ok(());
        }
        Err(e) => bail!("close: {e:?}"),
    }
    let bytes = Rc::new(k.0.borrow().clone());
    // The library's own reader.
    let src = BufReader::new(SparseSource { data: bytes.clone(), pos: 0 });
    let mut z = now(seek::ZipFileReader::new(src)).map_err(|e| format!("reopen: {e:?}"))?;
    ensure!(z.file().entries().len() == acc.len(), "{} entries accepted, {} reported", acc.len(), z.file().entries().len());
    for (i, a) in acc.iter().enumerate() {
        let g = &z.file().entries()[i];
        ensure!(g.header_offset() == a.off, "entry {i} {:?}: header at {}, reported at {}", a.e, a.off, g.header_offset());
        ensure!(g.uncompressed_size() == a.e.u, "entry {i}: uncompressed size {}, reported {}", a.e.u, g.uncompressed_size());
        if a.e.method == rz::STORED || matches!(a.e.kind, Kind::WholePre | Kind::StreamPre) {
            ensure!(g.compressed_size() == a.e.c, "entry {i} at {}: compressed size {}, reported {}", a.off, a.e.c, g.compressed_size());
        }
    }
    if acc.len() < 10 {
        for i in 0..acc.len() {
            let small = acc[i].e.c < 100 && acc[i].e.method == rz::STORED;
            let mut r = now(z.reader_without_entry(i)).map_err(|e| format!("open entry {i}: {e:?}"))?;
            if small {
                let mut v = vec![];
                now(r.read_to_end(&mut v)).map_err(|e| format!("read entry {i}: {e:?}"))?;
                ensure!(v.len() as u64 == acc[i].e.c, "entry {i}: {} bytes of {}", v.len(), acc[i].e.c);
            }
            l.step(1);
        }
    }
    // The layout.
    let p = rz::parse(&*bytes, b"", clean).map_err(|e| format!("layout: {e}"))?;
    ensure!(p.entries.len() == acc.len(), "layout: {} entries for {}", p.entries.len(), acc.len());
    if mode == Mode::Never {
        ensure!(!p.zip64 && p.entries.iter().all(|e| !e.has_z64), "ZIP64 structures written although forbidden");
    }
    if mode == Mode::Force {
        ensure!(p.zip64, "no ZIP64 end records although forced");
    }
    for (i, (a, g)) in acc.iter().zip(&p.entries).enumerate() {
        ensure!(g.off == a.off && g.usize_ == a.e.u, "layout: entry {i} at {} with {} bytes, wrote {:?} at {}", g.off, g.usize_, a.e, a.off);
    }
    l.outcome(&(p.zip64, p.entries.len(), p.cd > MAX));
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    use Kind::*;
    let v7 = [0u64, 3, (1 << 31) - 1, 1 << 31, MAX - 1, MAX, MAX + 1, MAX + 2, 1 << 33];
    // Sizes that are only claimed have no limit.
    let claimed: Vec<u64> = v7.iter().copied().chain([1 << 40, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]).collect();
    let hdr = 30 + 1;
    // The entry under test at every interesting offset; the filler is one precompressed entry.
    let offs: Vec<u64> = vec![0, 100, (1 << 31) - 1, 1 << 31, MAX - 1, MAX, MAX + 1, MAX + 40, (1 << 33) + 7];
    let filler = |off: u64, never: bool| -> Vec<S> {
        match off {
            0 => vec![],
            // A filler must itself be acceptable with ZIP64 forbidden: two halves.
            o if o < 1000 || !never && o < MAX => vec![s(WholePre, o - hdr, o - hdr)],
            o => {
                let n = 3u64;
                let body = o - n * hdr;
                (0..n).map(|i| if i < n - 1 { body / n } else { body - body / n * (n - 1) }).map(|c| s(WholePre, c, c)).collect()
            }
        }
    };
    // Precompressed entries cost nothing: the full product.
    ctx.each("whole-precompressed", (3 * offs.len() * v7.len() * claimed.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let off = *m.of(&offs);
        let (c, u) = (*m.of(&v7), *m.of(&claimed));
        let mut h = filler(off, mode == Mode::Never);
        h.push(s(WholePre, c, u));
        h.push(s(WholePre, 4, 4));
        l.sample(|| format!("{mode:?}: {h:?}"));
        history(mode, &h, l)?;
        history_tokio(mode, &h, l)
    });
    // Followed by an entry of each other kind; compressed size and offset of the last entry decide.
    ctx.each("then", (3 * offs.len() * 3 * claimed.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let off = *m.of(&offs);
        let k = [Whole, Stream, StreamPre][m.take(3)];
        let u = *m.of(&claimed);
        let mut h = filler(off, mode == Mode::Never);
        let (c, u) = match k {
            StreamPre => (5, u),
            _ => (7.min(u), 7.min(u)),
        };
        h.push(s(k, c, u));
        h.push(s(Stream, 2, 2));
        h.push(s(Whole, 2, 2));
        history(mode, &h, l)?;
        history_tokio(mode, &h, l)
    });
    // Contents of that size really written (CRC computed over 4 GiB).
    let mut big = vec![];
    for mode in MODES {
        for kind in [Whole, Stream, StreamPre] {
            for n in [MAX - 1, MAX, MAX + 1, MAX + 2] {
                for off in [0u64, 100] {
                    if off == 0 || ctx.thorough || n == MAX + 1 {
                        let mut h = filler(off, true);
                        h.push(s(kind, n, if kind == StreamPre { 9 } else { n }));
                        h.push(s(Stream, 3, 3));
                        h.push(s(Whole, 3, 3));
                        big.push((mode, h));
                    }
                }
            }
            let mut h = filler(MAX + 1, true);
            h.push(s(kind, MAX, MAX));
            h.push(s(Whole, 1, 1));
            big.push((mode, h));
        }
        // really compressed
        for kind in [Whole, Stream] {
            for n in [MAX, MAX + 1] {
                if ctx.thorough || n > MAX {
                    let mut e = s(kind, 0, n);
                    e.method = rz::ZSTD;
                    big.push((mode, vec![e, s(WholePre, 3, 3)]));
                }
            }
        }
    }
    ctx.each("large-contents", big.len() as u64, |i, l| {
        let (mode, h) = &big[i as usize];
        history(*mode, h, l)
    });
    // All histories of two and three entries whose sizes straddle the limit together.
    let abc: Vec<S> = vec![
        s(WholePre, 1 << 31, 1 << 31),
        s(WholePre, MAX, 5),
        s(WholePre, 5, MAX + 1),
        s(WholePre, MAX - 31 - 31, 8),
        s(Stream, 2, 2),
        s(Whole, 2, 2),
        s(StreamPre, 3, MAX),
        s(WholePre, 1, 1),
    ];
    let hs = Seqs { n: abc.len() as u64, depth: if ctx.thorough { 7 } else { 6 } };
    ctx.each("histories", hs.total() * 3, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let h: Vec<S> = hs.get(m.0).into_iter().map(|k| abc[k].clone()).collect();
        history(mode, &h, l)
    });
    // The number of entries.
    let mut counts = vec![];
    for mode in MODES {
        for n in [255u64, 256, 257, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65600] {
            for (body, last) in [(Whole, Whole), (Whole, Stream), (WholePre, WholePre), (Whole, StreamPre), (StreamPre, Whole)] {
                counts.push((mode, n, body, last));
            }
        }
    }
    ctx.each("counts", counts.len() as u64, |i, l| {
        let (mode, n, body, last) = counts[i as usize];
        let mut h: Vec<S> = (0..n - 2).map(|_| s(body, 1, 1)).collect();
        h.extend((0..2).map(|_| s(last, 2, 2)));
        if body == Whole && last == Stream {
            history_tokio(mode, &h, l)?;
        }
        history(mode, &h, l)
    });
    // A directory larger than 4 GiB although there are no more than 65535 entries.
    ctx.each_t("directory-size", if ctx.thorough { 3 } else { 2 }, 3, |i, l| {
        let mode = [Mode::Auto, Mode::Never, Mode::Force][i as usize];
        let (k, mut w) = writer(mode);
        let mut e = s(Whole, 0, 0);
        e.comment = 65535;
        for _ in 0..65535 {
            now(put(&mut w, &e)).map_err(|e| format!("{e:?}"))?;
        }
        l.step(65535);
        let cd = pos(&k);
        match now(w.close()) {
            Err(ZipError::Zip64Needed(_)) if mode == Mode::Never => {
                l.hit();
                return Ok(());
            }
            Err(e) => bail!("{mode:?}: {e:?}"),
            Ok(_) => {}
        }
        ensure!(mode != Mode::Never, "a directory of more than 4 GiB was closed although ZIP64 is forbidden");
        let b = k.0.borrow();
        let n = b.size();
        let q = b.get(n - 22 - 20 - 56, 98)?;
        ensure!(rz::g32(&q, 0) == rz::Z64E && rz::g32(&q, 56) == rz::Z64L, "{mode:?}: a directory of more than 4 GiB without ZIP64 end records");
        ensure!(rz::g64(&q, 40) == n - 98 - cd && rz::g64(&q, 48) == cd && rz::g64(&q, 32) == 65535, "{mode:?}: ZIP64 end record {q:?}");
        l.hit();
        Ok(())
    });
    ctx.finish(
        "each accepted entry is reported with its true sizes and header position by the library's reader and by the reference parser; with ZIP64 forbidden exactly the entries and directories that do not fit are refused with Zip64Needed (a value of exactly 0xFFFFFFFF may go either way) and no ZIP64 structure appears",
        &["data beyond a few bytes is zeros; the sink keeps runs of zeros as counts", "uncompressed sizes of precompressed entries are claimed by the caller"],
    )
}
