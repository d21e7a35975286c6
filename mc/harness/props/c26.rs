//! Memory and input used do not grow with what is only passed through or not asked for.
use super::c03::METHODS;
use crate::alloc;
use crate::dev::zeros;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, A, E};
use crate::wops::{pattern, writer, Kind, WOp, MODES};
use async_zip::base::read::{mem, seek, stream};
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt, BufReader, SeekFrom};
use std::cell::Cell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

/// What two executions may differ by for reasons other than the amount of data.
const SLACK: usize = 512 << 10;

struct Count(u64);
impl AsyncWrite for Count {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.0 += b.len() as u64;
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// A source that counts what is read from it.
#[derive(Clone)]
struct Src {
    data: Arc<Vec<u8>>,
    pos: u64,
    read: Rc<Cell<u64>>,
}
impl Src {
    fn new(data: &Arc<Vec<u8>>) -> Src {
        Src { data: data.clone(), pos: 0, read: Rc::default() }
    }
}
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let at = (self.pos as usize).min(self.data.len());
        let n = b.len().min(self.data.len() - at);
        b[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        self.read.set(self.read.get() + n as u64);
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Src {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let s = self.get_mut();
        let at = (s.pos as usize).min(s.data.len());
        Poll::Ready(Ok(&s.data[at..(at + 4096).min(s.data.len())]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.pos += n as u64;
        self.read.set(self.read.get() + n as u64);
    }
}
impl AsyncSeek for Src {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        let new = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match new {
            None => Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start"))),
            Some(n) => {
                self.pos = n;
                Poll::Ready(Ok(n))
            }
        }
    }
}
fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    alloc::begin(usize::MAX);
    let t = f();
    (t, alloc::end())
}
/// Compares the peaks at growing sizes.
fn flat(what: &str, small: (usize, usize), large: (usize, usize)) -> R {
    ensure!(large.1 <= small.1 + SLACK, "{what}: {} bytes of memory for {} bytes, {} for {}", small.1, small.0, large.1, large.0);
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let (base, large) = if ctx.thorough { (2 << 20, 24 << 20) } else { (2 << 20, 6 << 20) };
    // Writing streamed entries.
    let chunks = [700usize, 8192, 65536, 1 << 20];
    let data = [0usize, 3].map(|k| pattern(k, large));
    let full = [rz::STORED, rz::DEFLATE, rz::BZ, rz::LZMA, rz::ZSTD, rz::XZ];
    ctx.each("write", (full.len() * chunks.len() * 2 * 3 * 2 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let chunk = *m.of(&chunks);
        let mode = *m.of(&MODES);
        let flush = m.take(2) == 1;
        let pre = m.take(2) == 1;
        let d = &data[m.take(2)];
        let method = *m.of(&full);
        // Flushing small pieces through slow encoders shows nothing new.
        if flush && chunk < 65536 || pre && method > rz::DEFLATE || (method >= rz::BZ && (chunk == 700 || mode != MODES[0]) && !ctx.thorough) {
            return Ok(());
        }
        let go = |n: usize| -> Result<usize, Fail> {
            let mut op = WOp::new(if pre { Kind::StreamPre } else { Kind::Stream }, method, "large", b"");
            op.level = Some(1);
            let b = op.builder();
            let mut z = writer(Count(0), mode);
            let (r, peak) = measure(|| {
                now(async {
                    let mut s = if pre { z.write_entry_stream_precompressed(b).await? } else { z.write_entry_stream(b).await? };
                    for c in d[..n].chunks(chunk) {
                        s.write_all(c).await?;
                        if flush {
                            s.flush().await?;
                        }
                    }
                    s.close().await
                })
            });
            r.map_err(|x| format!("writing: {}", ek(&x)))?;
            Ok(peak)
        };
        let p = [base, large].map(|n| go(n).map(|p| (n, p)));
        let [a, b] = p;
        let what = format!("method {method}, streamed in pieces of {chunk}, flushed {flush}, precompressed {pre}, {mode:?}");
        flat(&what, a?, b?)?;
        l.state(&(chunk, flush, pre, method));
        l.step((base / chunk + large / chunk) as u64);
        l.sample(|| what);
        l.hit();
        Ok(())
    });
    // A stored entry given as a whole is written from where it is.
    ctx.each("write-whole", 3 * 2, |i, l| {
        let mode = MODES[i as usize % 3];
        let pre = i >= 3;
        let go = |n: u64| -> Result<(usize, usize), Fail> {
            let op = WOp::new(Kind::Whole, rz::STORED, "large", b"");
            let b = op.builder().crc32(7u32).uncompressed_size(n);
            let mut z = writer(Count(0), mode);
            let (r, peak) = measure(|| {
                now(async {
                    match pre {
                        true => z.write_entry_whole_precompressed(b, zeros(n)).await,
                        false => z.write_entry_whole(b, zeros(n)).await,
                    }
                })
            });
            r.map_err(|x| format!("writing: {}", ek(&x)))?;
            Ok((n as usize, peak))
        };
        flat(&format!("stored whole entry, precompressed {pre}, {mode:?}"), go(base as u64)?, go(large as u64)?)?;
        l.state(&i);
        l.step(2);
        l.hit();
        Ok(())
    });
    // Reading and skipping.
    let make = |method: u16, n: usize, dd: Dd| -> (Arc<Vec<u8>>, u64) {
        let mut e = E::new(b"large", method, &pattern(if method == rz::STORED { 3 } else { 1 }, n)).dd(dd);
        e.comp = Some(if method == rz::STORED { e.data.clone() } else { rz::encode(method, &e.data) });
        let before = E::new(b"before", rz::STORED, b"small");
        let after = E::new(b"after", rz::STORED, b"small too");
        let b = rz::build(&A { entries: vec![before, e, after], ..Default::default() });
        let c = b.locs[1].csize;
        (Arc::new(b.bytes), c)
    };
    let cache: Vec<[(Arc<Vec<u8>>, u64); 4]> =
        METHODS.iter().map(|m| [make(*m, base, Dd::None), make(*m, large, Dd::None), make(*m, base, Dd::Sig), make(*m, large, Dd::Sig)]).collect();
    const WAYS: usize = 9;
    let steps = [100usize, 8192, 1 << 18];
    ctx.each("read", (METHODS.len() * WAYS * steps.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(METHODS.len());
        let way = m.take(WAYS);
        let step = *m.of(&steps);
        let dd = m.take(2);
        let method = METHODS[k];
        if dd == 1 && (way < 4 || [rz::STORED, rz::DEFLATE64].contains(&method)) {
            return Ok(());
        }
        let what = format!("method {method}, way {way}, {step} bytes per read, descriptor {dd}");
        let go = |n: usize, big: usize| -> Result<(usize, usize), Fail> {
            let (bytes, csize) = &cache[k][dd * 2 + big];
            let mut buf = vec![0u8; step];
            let src = Src::new(bytes);
            let counter = src.read.clone();
            let (r, peak): (Result<u64, String>, usize) = measure(|| {
                now(async {
                    macro_rules! drain {
                        ($r:expr, $limit:expr) => {{
                            let mut n = 0u64;
                            loop {
                                let k = $r.read(&mut buf).await.map_err(|x| x.to_string())?;
                                n += k as u64;
                                if k == 0 || n > $limit {
                                    break n;
                                }
                            }
                        }};
                    }
                    Ok(match way {
                        0 | 1 => {
                            let mut z =
                                seek::ZipFileReader::new(BufReader::with_capacity(if way == 0 { 1024 } else { 65536 }, src)).await.map_err(|x| ek(&x))?;
                            let mut r = z.reader_with_entry(1).await.map_err(|x| ek(&x))?;
                            drain!(r, u64::MAX)
                        }
                        2 => {
                            let z = seek::ZipFileReader::new(src).await.map_err(|x| ek(&x))?;
                            let mut r = z.into_entry(1).await.map_err(|x| ek(&x))?;
                            drain!(r, u64::MAX)
                        }
                        3 => {
                            let mut z = seek::ZipFileReader::new(src).await.map_err(|x| ek(&x))?;
                            for _ in 0..3 {
                                let mut r = z.reader_without_entry(1).await.map_err(|x| ek(&x))?;
                                drain!(r, 300_000);
                            }
                            n as u64
                        }
                        _ => {
                            let mut z = stream::ZipFileReader::new(src);
                            let mut total = 0;
                            let mut first = true;
                            loop {
                                let Some(mut r) = z.next_without_entry().await.map_err(|x| ek(&x))? else {
                                    break;
                                };
                                let limit = match way {
                                    4 => u64::MAX,
                                    5 => 0,
                                    6 => 300_000,
                                    _ => u64::MAX,
                                };
                                if way != 7 || first {
                                    total = drain!(r.reader_mut(), limit).max(total);
                                }
                                first = false;
                                z = match way {
                                    4 | 8 => r.done().await.map_err(|x| ek(&x))?,
                                    _ => r.skip().await.map_err(|x| ek(&x))?,
                                };
                            }
                            if way == 4 || way == 8 {
                                total
                            } else {
                                n as u64
                            }
                        }
                    })
                })
            });
            let got = r.map_err(|x| format!("{what}: {x}"))?;
            ensure!(got == n as u64, "{what}: {got} bytes, expected {n}");
            if way < 4 {
                // Directory, headers and the entry asked for (three times at most), never the whole archive again and again.
                let may = csize * if way == 3 { 3 } else { 1 } + (SLACK + 65536) as u64;
                ensure!(counter.get() <= may, "{what}: {} bytes read from a source with an entry of {csize} bytes", counter.get());
            }
            Ok((n, peak))
        };
        flat(&what, go(base, 0)?, go(large, 1)?)?;
        l.state(&(k, way, step, dd));
        l.step((base / step + large / step) as u64);
        l.sample(|| what.clone());
        l.hit();
        Ok(())
    });
    // The file-system reader and the in-memory reader (whose data are given) over the same archives.
    let files: Vec<[[Scratch; 2]; 2]> =
        cache.iter().map(|c| [[Scratch::new(&c[0].0), Scratch::new(&c[1].0)], [Scratch::new(&c[2].0), Scratch::new(&c[3].0)]]).collect();
    ctx.each("other-readers", (METHODS.len() * 4 * steps.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(METHODS.len());
        let way = m.take(4);
        let step = *m.of(&steps);
        let dd = m.take(2);
        let what = format!("method {}, way {way}, {step} bytes per read, descriptor {dd}", METHODS[k]);
        let go = |n: usize, big: usize| -> Result<(usize, usize), Fail> {
            let mut buf = vec![0u8; step];
            let held = (way >= 2).then(|| now(mem::ZipFileReader::new(cache[k][dd * 2 + big].0.to_vec()))).transpose().map_err(|x| ek(&x))?;
            let path = files[k][dd][big].0.as_path();
            let (r, peak): (Result<u64, String>, usize) = measure(|| {
                rt(async {
                    macro_rules! drain {
                        ($r:expr) => {{
                            let mut r = $r.map_err(|x: async_zip::error::ZipError| ek(&x))?;
                            let mut n = 0u64;
                            loop {
                                let k = r.read(&mut buf).await.map_err(|x| x.to_string())?;
                                n += k as u64;
                                if k == 0 {
                                    break n;
                                }
                            }
                        }};
                    }
                    Ok(match &held {
                        None => {
                            let z = fs::ZipFileReader::new(path).await.map_err(|x| ek(&x))?;
                            match way {
                                0 => drain!(z.reader_with_entry(1).await),
                                _ => drain!(z.reader_without_entry(1).await),
                            }
                        }
                        Some(z) => match way {
                            2 => drain!(z.reader_with_entry(1).await),
                            _ => {
                                let z = z.clone();
                                drain!(z.reader_without_entry(1).await)
                            }
                        },
                    })
                })
            });
            let got = r.map_err(|x| format!("{what}: {x}"))?;
            ensure!(got == n as u64, "{what}: {got} bytes, expected {n}");
            Ok((n, peak))
        };
        flat(&what, go(base, 0)?, go(large, 1)?)?;
        l.state(&(k, way, step, dd));
        l.step((base / step + large / step) as u64);
        l.hit();
        Ok(())
    });
    drop(files);
    // Opening reads the end and the directory; opening and reading an entry nothing but that entry.
    let small = E::new(b"small", rz::STORED, b"small");
    let sizes = [0usize, 1, 100_000, large];
    ctx.each("input", (sizes.len() * sizes.len() * 3 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let (before, after) = (*m.of(&sizes), *m.of(&sizes));
        let comment = [0usize, 500, 65535][m.take(3)];
        let which = m.take(3);
        let mut a = A::default();
        for n in [before, after] {
            a.entries.push(E::new(b"neighbour", rz::STORED, &data[0][..n]));
            a.entries.push(small.clone());
        }
        a.entries.truncate(3);
        a.comment = vec![b'c'; comment];
        let bytes = Arc::new(rz::build(&a).bytes);
        let src = Src::new(&bytes);
        let read = src.read.clone();
        let (r, peak) = measure(|| {
            now(async {
                let mut z = seek::ZipFileReader::new(src).await?;
                let opened = read.get();
                let mut r = z.reader_with_entry(1).await?;
                let mut v = vec![];
                match which {
                    0 => _ = r.read_to_end(&mut v).await?,
                    1 => _ = r.read_to_end_checked(&mut v).await?,
                    _ => _ = r.read(&mut [0; 3]).await?,
                }
                Ok::<_, async_zip::error::ZipError>(opened)
            })
        });
        let opened = r.map_err(|x| format!("before {before}, after {after}: {}", ek(&x)))?;
        // Windows of the search may overlap and read ahead; the directory is short.
        let may = 3 * comment + SLACK;
        ensure!(opened <= may as u64, "{before}+{after} bytes of neighbours, comment {comment}: {opened} bytes read to open the archive");
        let entry = read.get() - opened;
        ensure!(entry <= SLACK as u64, "{before}+{after} bytes of neighbours: {entry} bytes read for an entry of 5");
        ensure!(peak <= 4 * comment + SLACK, "{before}+{after} bytes of neighbours, comment {comment}: {peak} bytes of memory");
        l.state(&(before, after, comment, which));
        l.step(read.get() / 1000 + 1);
        l.hit();
        Ok(())
    });
    // Streaming over many entries.
    ctx.each("many", 3 * 2, |i, l| {
        let dd = i % 2 == 1;
        let way = i / 2;
        let go = |n: usize| -> Result<(usize, usize), Fail> {
            let e =
                E::new(b"a name of some length", if dd { rz::DEFLATE } else { rz::STORED }, b"contents of an entry").dd(if dd { Dd::Sig } else { Dd::None });
            let bytes = Arc::new(rz::build(&A { entries: vec![e; n], ..Default::default() }).bytes);
            let mut v = Vec::with_capacity(1000);
            let (r, peak) = measure(|| {
                now(async {
                    let mut z = stream::ZipFileReader::new(Src::new(&bytes));
                    let mut k = 0;
                    while let Some(mut r) = z.next_with_entry().await? {
                        if way > 0 {
                            v.clear();
                            r.reader_mut().read_to_end(&mut v).await?;
                        }
                        z = if way == 2 { r.done().await? } else { r.skip().await? };
                        k += 1;
                    }
                    Ok::<usize, async_zip::error::ZipError>(k)
                })
            });
            let k = r.map_err(|x| ek(&x))?;
            ensure!(k == n, "{k} entries, expected {n}");
            Ok((n, peak))
        };
        flat(&format!("streaming over entries, way {way}, described {dd}"), go(100)?, go(20_000)?)?;
        l.state(&i);
        l.step(20_100);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "the peak of the memory allocated for the larger amount of data exceeds that for the smaller by no more than a constant; the input read is bounded by what was asked for",
        &["memory allocated by C codecs (liblzma, zstd) is not seen by the allocator, what the library allocates is", "whole entries are compressed in memory by design"],
    )
}
