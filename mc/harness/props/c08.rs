//! Checked reads never accept altered contents.
use super::c03::{ent, METHODS};
use super::common::*;
use crate::dev::Source;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Built, Dd, A};
use crate::wops::pattern;
use async_zip::base::read::{mem, seek, stream, WithEntry, ZipEntryReader};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use std::io::IoSliceMut;
use std::sync::Arc;

/// What a checked read gave: the bytes delivered for the entry and the verdict.
struct Got {
    crc: u32,
    delivered: Vec<u8>,
    res: Result<(), String>,
}
/// Added to a step: read it as several slices.
const VECTORED: usize = 1 << 20;
/// Reads `part` bytes plainly (in steps of `step`), then checks, into a vector or a string.
async fn checked<R: AsyncBufRead + Unpin>(r: &mut ZipEntryReader<'_, R, WithEntry<'_>>, part: usize, step: usize, text: bool) -> Result<Got, Fail> {
    let crc = r.entry().crc32();
    let mut d = vec![];
    while d.len() < part {
        let mut b = vec![0; (step % VECTORED).min(part - d.len())];
        let res = if step > VECTORED {
            let (x, y) = b.split_at_mut(1);
            r.read_vectored(&mut [IoSliceMut::new(&mut []), IoSliceMut::new(x), IoSliceMut::new(y)]).await
        } else {
            r.read(&mut b).await
        };
        match res {
            Ok(0) => break,
            Ok(n) => d.extend_from_slice(&b[..n]),
            Err(e) => return Ok(Got { crc, delivered: d, res: Err(format!("{e:?}")) }),
        }
    }
    // (futures_lite's read_to_string wants an empty string.)
    let before: &[u8] = if text { b"" } else { b"kept" };
    let (out, res) = if text {
        let mut s = String::new();
        let x = r.read_to_string_checked(&mut s).await;
        (s.into_bytes(), x)
    } else {
        let mut v = before.to_vec();
        let x = r.read_to_end_checked(&mut v).await;
        (v, x)
    };
    let res = match res {
        Ok(n) => {
            ensure!(out.starts_with(before), "a checked read destroyed what the buffer held");
            ensure!(n == out.len() - before.len(), "a checked read returned {n}, appended {}", out.len() - before.len());
            d.extend_from_slice(&out[before.len()..]);
            Ok(())
        }
        Err(e) => Err(ek(&e)),
    };
    Ok(Got { crc, delivered: d, res })
}
const FRONTS: usize = 5;
fn read(bytes: &Arc<Vec<u8>>, front: usize, index: usize, part: usize, step: usize, text: bool) -> Result<Result<Got, ZipError>, Fail> {
    now(async {
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => return Ok(Err(e)),
                }
            };
        }
        match front {
            0 => {
                let z = ok!(mem::ZipFileReader::new(bytes.to_vec()).await);
                let mut r = ok!(z.reader_with_entry(index).await);
                checked(&mut r, part, step, text).await.map(Ok)
            }
            1 | 2 => {
                let s = if front == 1 { Source::new(bytes) } else { Source::chunked(bytes, 3, true) };
                let mut z = ok!(seek::ZipFileReader::new(s).await);
                let mut r = ok!(z.reader_with_entry(index).await);
                checked(&mut r, part, step, text).await.map(Ok)
            }
            3 | 4 => {
                let s = if front == 3 { Source::new(bytes) } else { Source::chunked(bytes, 3, true) };
                let mut z = stream::ZipFileReader::new(s);
                let mut i = 0;
                loop {
                    match ok!(z.next_with_entry().await) {
                        None => return Ok(Err(ZipError::EntryIndexOutOfBounds)),
                        Some(mut r) => {
                            if i == index {
                                return checked(r.reader_mut(), part, step, text).await.map(Ok);
                            }
                            z = ok!(r.skip().await);
                            i += 1;
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    })
}
/// The verdict must be right whatever happened to the bytes.
fn judge(bytes: &Arc<Vec<u8>>, front: usize, index: usize, part: usize, step: usize, text: bool, intact: Option<&[u8]>, l: &mut Local) -> R {
    let what = || format!("front {front}, {part} bytes read before in steps of {step}, text {text}");
    l.step(2);
    match read(bytes, front, index, part, step, text)? {
        Err(e) => ensure!(intact.is_none(), "{}: intact entry refused: {e:?}", what()),
        Ok(g) => {
            l.outcome(&(g.res.is_ok(), g.delivered.len()));
            match g.res {
                Ok(()) => {
                    let c = rz::crc(&g.delivered);
                    ensure!(c == g.crc, "{}: accepted {} bytes with CRC {c:#x}, recorded {:#x}", what(), g.delivered.len(), g.crc);
                    if let Some(w) = intact {
                        ensure!(g.delivered == w, "{}: intact entry: {}", what(), diff(w, &g.delivered));
                    }
                }
                Err(e) => {
                    l.hit();
                    ensure!(intact.is_none(), "{}: intact entry failed its check: {e}", what())
                }
            }
        }
    }
    Ok(())
}
struct Seed {
    data: Vec<u8>,
    method: u16,
    b: Built,
    /// Index of the entry under test (it lies between two others).
    i: usize,
    text: bool,
}
fn seed(method: u16, data: &[u8]) -> Seed {
    let a = A { entries: vec![ent(b"before", rz::STORED, b"xx"), ent(b"entry", method, data), ent(b"after", rz::STORED, b"yy")], ..Default::default() };
    Seed { data: data.to_vec(), method, b: rz::build(&a), i: 1, text: std::str::from_utf8(data).is_ok() }
}
/// Bytes of the compressed data whose change would only ask a C decoder for another dictionary size.
fn skip_byte(s: &Seed, off: usize) -> bool {
    s.method == rz::LZMA && (1..5).contains(&off)
}

pub fn run(ctx: &Ctx) -> i32 {
    let text = "naïve text of an entry, ok".as_bytes();
    let mut seeds = vec![];
    for m in METHODS {
        seeds.push(seed(m, text));
        seeds.push(seed(m, &pattern(2, 23)));
    }
    seeds.push(seed(rz::STORED, b""));
    seeds.push(seed(rz::DEFLATE, b""));
    seeds.push(seed(rz::STORED, b"a"));
    // Contents whose CRC is zero, and all-ones.
    seeds.push(seed(rz::STORED, &[0x9D, 0x0A, 0xD9, 0x6D]));
    seeds.push(seed(rz::STORED, &[0xFF, 0xFF, 0xFF, 0xFF]));
    // Intact: every split, step, front.
    ctx.each("intact", seeds.len() as u64 * FRONTS as u64 * 30 * 5 * 2, |i, l| {
        let mut m = Mix(i);
        let front = m.take(FRONTS);
        let part = m.take(30);
        let step = [1, 4, 100, VECTORED + 3, VECTORED + 50][m.take(5)];
        let txt = m.take(2) == 1;
        let s = &seeds[m.take(seeds.len())];
        // A string read must not start within a character.
        if txt && !(s.text && std::str::from_utf8(&s.data[part.min(s.data.len())..]).is_ok()) {
            return Ok(());
        }
        l.hit();
        judge(&Arc::new(s.b.bytes.clone()), front, s.i, part, step, txt, Some(&s.data), l)
    });
    // Contents that are text and that are not, read to a string: all sequences of pieces of characters.
    const PIECES: &[&[u8]] = &[
        b"a",
        b"\0",
        &[0xC3],
        &[0xA9],
        &[0xE9],
        &[0xED, 0xA0, 0x80],
        &[0xC0, 0x80],
        &[0xE2, 0x82],
        &[0xAC],
        &[0xF0, 0x9F, 0x98, 0x80],
        &[0xF5],
        &[0xFF],
        &[0xEF, 0xBB, 0xBF],
        b"\r\n",
    ];
    let seqs = Seqs { n: PIECES.len() as u64, depth: if ctx.thorough { 4 } else { 3 } };
    ctx.each("text", seqs.total() * 2, |i, l| {
        let mut m = Mix(i);
        let method = [rz::STORED, rz::DEFLATE][m.take(2)];
        let data: Vec<u8> = seqs.get(m.0).into_iter().flat_map(|k| PIECES[k].to_vec()).collect();
        let s = seed(method, &data);
        let b = Arc::new(s.b.bytes.clone());
        l.state(&(method, &data));
        for front in 0..FRONTS {
            // The same after one byte was read plainly.
            for part in [0usize, 1] {
                let text = std::str::from_utf8(&data[part.min(data.len())..]).is_ok();
                let g = read(&b, front, s.i, part, 1, true)?.map_err(|e| format!("front {front}: does not open: {e:?}"))?;
                l.step(1);
                match g.res {
                    Ok(()) => ensure!(text && g.delivered == data, "front {front}: {data:02x?} read as the text {:?}", String::from_utf8_lossy(&g.delivered)),
                    Err(e) => {
                        l.hit();
                        ensure!(!text, "front {front}: {data:02x?} is text from byte {part}, reading it to a string fails with {e}");
                    }
                }
                judge(&b, front, s.i, part, 1, false, Some(&data), l)?;
            }
        }
        Ok(())
    });
    // Every single-byte substitution in the stored data.
    let mut pts = vec![];
    for (k, s) in seeds.iter().enumerate() {
        for o in 0..s.b.locs[s.i].csize as usize {
            if !skip_byte(s, o) {
                pts.push((k, o));
            }
        }
    }
    let parts = [0usize, 1, 9, 200];
    ctx.each("substitute", pts.len() as u64 * 255, |i, l| {
        let mut m = Mix(i);
        let x = 1 + m.take(255) as u8;
        let (k, o) = *m.of(&pts);
        let s = &seeds[k];
        let mut b = s.b.bytes.clone();
        b[s.b.locs[s.i].data as usize + o] ^= x;
        let b = Arc::new(b);
        l.state(&(k, o, x));
        for front in 0..FRONTS {
            for part in parts {
                judge(&b, front, s.i, part, 4, false, None, l)?;
                if s.text {
                    judge(&b, front, s.i, part, 100, true, None, l)?;
                }
            }
        }
        Ok(())
    });
    // Entries that look unusual otherwise: intact, with any byte of the contents changed, with another CRC recorded.
    ctx.each("guises", (GUISES.len() * 3 * 40) as u64, |i, l| {
        let mut m = Mix(i);
        let o = m.take(40);
        let g = m.take(GUISES.len());
        let method = [rz::STORED, rz::DEFLATE, rz::ZSTD][m.take(3)];
        let e = guised(ent(b"entry", method, text), g);
        let data = e.data.clone();
        let a = A { entries: vec![guised(ent(b"before", rz::STORED, b"xx"), g), e, ent(b"after", rz::STORED, b"yy")], ..Default::default() };
        let s = Seed { data, method, b: rz::build(&a), i: 1, text: true };
        let name = |f: Fail| Fail { msg: format!("{}: {}", GUISES[g].0, f.msg), ..f };
        l.state(&(o, g, method));
        let (from, n) = (s.b.locs[1].data as usize, s.b.locs[1].csize as usize);
        if o < 4 {
            let mut b = s.b.bytes.clone();
            for at in [s.b.locs[1].lfh as usize + 14, s.b.locs[1].cdh as usize + 16] {
                b[at + o] ^= 0x40;
            }
            let b = Arc::new(b);
            for front in 0..FRONTS {
                for txt in [false, true] {
                    let r = read(&b, front, 1, 0, 3, txt)?.map_err(|e| format!("{}: front {front}: does not open: {e:?}", GUISES[g].0))?;
                    ensure!(r.res.is_err(), "{}: front {front}, text {txt}: contents with a wrong CRC pass", GUISES[g].0);
                }
            }
            l.hit();
        } else if o == 39 {
            let b = Arc::new(s.b.bytes.clone());
            for front in 0..FRONTS {
                for part in [0usize, 1, 200] {
                    judge(&b, front, 1, part, 4, false, Some(&s.data), l).map_err(name)?;
                }
                judge(&b, front, 1, 0, 4, true, Some(&s.data), l).map_err(name)?;
            }
        } else if o - 4 < n {
            for x in [1u8, 0x20, 0x80, 0xFF] {
                let mut b = s.b.bytes.clone();
                b[from + o - 4] ^= x;
                let b = Arc::new(b);
                for front in 0..FRONTS {
                    judge(&b, front, 1, 0, 4, x == 1, None, l).map_err(name)?;
                    judge(&b, front, 1, 2, 4, false, None, l).map_err(name)?;
                }
            }
        }
        Ok(())
    });
    // Every pair of flipped bits, every transposition and every shift in the data.
    let few: Vec<usize> = vec![0, 1, 2, 3];
    ctx.each("pairs", few.len() as u64 * 300 * 300, |i, l| {
        let mut m = Mix(i);
        let (x, y) = (m.take(300), m.take(300));
        let s = &seeds[few[m.take(few.len())]];
        let (at, n) = (s.b.locs[s.i].data as usize, s.b.locs[s.i].csize as usize * 8);
        if x >= y || y >= n {
            return Ok(());
        }
        let mut b = s.b.bytes.clone();
        b[at + x / 8] ^= 1 << (x % 8);
        b[at + y / 8] ^= 1 << (y % 8);
        let b = Arc::new(b);
        judge(&b, 1, s.i, 0, 1, s.text, None, l)?;
        judge(&b, 0, s.i, 2, 1, false, None, l)
    });
    ctx.each("moves", few.len() as u64 * 40 * 40 * 3, |i, l| {
        let mut m = Mix(i);
        let (x, y, kind) = (m.take(40), m.take(40), m.take(3));
        let s = &seeds[few[m.take(few.len())]];
        let (at, n) = (s.b.locs[s.i].data as usize, s.b.locs[s.i].csize as usize);
        if x >= y || y >= n {
            return Ok(());
        }
        let mut b = s.b.bytes.clone();
        let r = &mut b[at + x..=at + y];
        match kind {
            0 => r.swap(0, y - x),
            1 => r.rotate_left(1),
            _ => r.fill(0),
        }
        let b = Arc::new(b);
        judge(&b, 1, s.i, x, 3, false, None, l)?;
        judge(&b, 3, s.i, 0, 1, s.text, None, l)
    });
    // Every single-byte substitution and special value of the recorded CRC (directory and local header).
    let mut crcs: Vec<Box<dyn Fn(u32) -> u32 + Sync>> = vec![];
    for byte in 0..4 {
        for v in 1..256u32 {
            crcs.push(Box::new(move |c| c ^ (v << (8 * byte))));
        }
    }
    for v in [0u32, !0, 1, 0x80000000] {
        crcs.push(Box::new(move |_| v));
    }
    crcs.push(Box::new(|c| c.swap_bytes()));
    crcs.push(Box::new(|c| !c));
    crcs.push(Box::new(|c| c));
    ctx.each("crc", (crcs.len() * seeds.len()) as u64, |i, l| {
        let mut m = Mix(i);
        let f = m.of(&crcs);
        let s = &seeds[m.take(seeds.len())];
        let true_crc = rz::crc(&s.data);
        let c = f(true_crc);
        let mut b = s.b.bytes.clone();
        let (lo, co) = (s.b.locs[s.i].lfh as usize + 14, s.b.locs[s.i].cdh as usize + 16);
        b[lo..lo + 4].copy_from_slice(&c.to_le_bytes());
        b[co..co + 4].copy_from_slice(&c.to_le_bytes());
        let b = Arc::new(b);
        let intact = if c == true_crc { Some(&s.data[..]) } else { None };
        for front in 0..FRONTS {
            for part in parts {
                for text in [false, true] {
                    if text && std::str::from_utf8(&s.data[part.min(s.data.len())..]).is_err() {
                        continue;
                    }
                    judge(&b, front, s.i, part, 3, text, intact, l)?;
                    judge(&b, front, s.i, part, VECTORED + 4, text, intact, l)?;
                    // and with certainty: a different CRC never passes
                    if let Ok(g) = read(&b, front, s.i, part, 3, text)? {
                        ensure!(
                            g.res.is_ok() == (c == true_crc),
                            "front {front}, text {text}: recorded CRC {c:#x}, contents have {true_crc:#x}, verdict {:?}",
                            g.res
                        );
                    }
                }
            }
        }
        Ok(())
    });
    // A size recorded too small or too large: the checked read must not accept a different text.
    ctx.each("sizes", seeds.len() as u64 * 60, |i, l| {
        let mut m = Mix(i);
        let n = m.take(60) as u32;
        let s = &seeds[m.take(seeds.len())];
        let mut b = s.b.bytes.clone();
        let (lo, co) = (s.b.locs[s.i].lfh as usize + 18, s.b.locs[s.i].cdh as usize + 20);
        b[lo..lo + 4].copy_from_slice(&n.to_le_bytes());
        b[co..co + 4].copy_from_slice(&n.to_le_bytes());
        let intact = if n as u64 == s.b.locs[s.i].csize { Some(&s.data[..]) } else { None };
        let b = Arc::new(b);
        for front in 0..FRONTS {
            judge(&b, front, s.i, 2, 2, false, intact, l)?;
            if s.text {
                judge(&b, front, s.i, 0, 2, true, intact, l)?;
            }
        }
        Ok(())
    });
    // Larger entries: a change at every position.
    let large: Vec<Seed> = [rz::STORED, rz::DEFLATE, rz::ZSTD].iter().map(|m| seed(*m, &pattern(2, 20000))).collect();
    let step = if ctx.thorough { 1 } else { 7 };
    let pts: Vec<(usize, usize)> = (0..large.len()).flat_map(|k| (0..large[k].b.locs[1].csize as usize).step_by(step).map(move |o| (k, o))).collect();
    ctx.each("large", pts.len() as u64, |i, l| {
        let (k, o) = pts[i as usize];
        let s = &large[k];
        let mut b = s.b.bytes.clone();
        b[s.b.locs[s.i].data as usize + o] ^= 0x10;
        let b = Arc::new(b);
        l.state(&(k, o));
        judge(&b, [0, 1, 3][(i % 3) as usize], s.i, [0, 5000][(i % 2) as usize], 3000, false, None, l)
    });
    // Far larger ones: a change at and around every power of two, and the last byte; intact ones as well.
    let sizes = [65_535usize, 65_536, 65_537, 131_072, 262_145, 1_048_575, 1_048_576, 1_048_577, 3_000_000];
    let far: Vec<Seed> = [rz::STORED, rz::DEFLATE, rz::ZSTD].iter().flat_map(|m| sizes.iter().map(|n| seed(*m, &pattern(2, *n)))).collect();
    let marks: Vec<usize> = (0..23).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, 3 << k]).collect();
    ctx.each("larger", (far.len() * (marks.len() + 2)) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(marks.len() + 2);
        let s = m.of(&far);
        let n = s.b.locs[s.i].csize as usize;
        let at = *marks.get(k).unwrap_or(&(n - 1));
        if at >= n {
            return Ok(());
        }
        let mut b = s.b.bytes.clone();
        let intact = k == marks.len() + 1;
        if !intact {
            b[s.b.locs[s.i].data as usize + at] ^= 1 << (k % 8);
        }
        let b = Arc::new(b);
        l.state(&(s.method, n, at, intact));
        judge(&b, [0, 1, 3][(i % 3) as usize], s.i, [0, 70_000][k % 2], 50_000, false, intact.then_some(&s.data[..]), l)
    });
    // One altered entry among many.
    let count = 520;
    let crowd = A {
        entries: (0..count).map(|k| ent(format!("{k}").as_bytes(), [rz::STORED, rz::DEFLATE][k % 2], &pattern(2, 5 + k % 7))).collect(),
        ..Default::default()
    };
    let cb = rz::build(&crowd);
    ctx.each("crowd", count as u64 * 2, |i, l| {
        let k = (i / 2) as usize;
        let mut b = cb.bytes.clone();
        if i % 2 == 1 {
            b[(cb.locs[k].data + cb.locs[k].csize) as usize - 1] ^= 0x41;
        }
        let b = Arc::new(b);
        for front in 0..FRONTS {
            judge(&b, front, k, 0, 9, false, (i % 2 == 0).then_some(&crowd.entries[k].data[..]), l)?;
        }
        Ok(())
    });
    // Entries whose local header keeps sizes and CRC although a descriptor follows are checkable in a stream too.
    ctx.each("kept-crc", 256, |i, l| {
        let mut e = ent(b"k", rz::DEFLATE, text).dd(Dd::Sig);
        e.dd_keep = true;
        let t = rz::build(&A { entries: vec![e], ..Default::default() });
        let mut b = t.bytes.clone();
        b[t.locs[0].data as usize + 5] ^= i as u8;
        let intact = if i == 0 { Some(text) } else { None };
        judge(&Arc::new(b), 3, 0, 3, 3, false, intact, l)
    });
    ctx.finish(
        "a checked read succeeds only if an independent CRC of everything delivered for the entry equals the recorded one, reports the number of bytes appended, and always succeeds on intact entries",
        &["streamed entries whose CRC is only in the data descriptor are outside the property"],
    )
}
