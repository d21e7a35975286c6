//! Random access to entries does not depend on what was read before.
use super::c03::ent;
use super::c13::Amount;
use super::common::*;
use crate::dev::Source;
use crate::engine::*;
use crate::exec::run as exec_run;
use crate::panel::{ek, rt, Scratch};
use crate::refzip::{self as rz, Dd, A, C, E, O, U};
use crate::wops::pattern;
use async_zip::base::read::{mem, seek, ZipEntryReader};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, BufReader, SeekFrom};
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    /// Open entry i, read some of it, drop the reader.
    Open { i: usize, amount: Amount, with: bool },
    /// Open an entry that does not exist.
    Oob { far: bool, with: bool },
    /// Move the source.
    Move(usize),
    /// Start opening and give up after so many polls.
    Cancel { i: usize, polls: usize },
    /// Open, start reading and give up.
    CancelRead { i: usize, polls: usize },
}
fn archive() -> Vec<E> {
    let mut v = vec![
        ent(b"a", rz::STORED, &pattern(4, 90)),
        ent(b"b", rz::DEFLATE, &pattern(3, 400)).dd(Dd::Sig),
        ent(b"c", rz::ZSTD, &pattern(1, 200)),
        ent(b"a", rz::STORED, b""),
        ent(b"e", rz::STORED, &pattern(2, 33)).dd(Dd::Sig),
    ];
    // Local header longer, or shorter, than the central one.
    v[2].lx = vec![(0x9999, vec![7; 50])];
    v[4].cx = vec![(0x9999, vec![7; 50])];
    v[4].gap = b"PK\x03\x04".to_vec();
    v[0].c64 = U | C | O;
    v
}
async fn read_some<I: AsyncBufRead + Unpin, S>(r: &mut ZipEntryReader<'_, I, S>, e: &E, amount: Amount) -> R {
    let want = amount.of(e.data.len());
    let mut got = vec![0; want];
    r.read_exact(&mut got).await.map_err(|x| format!("reading {want} of {} bytes: {x}", e.data.len()))?;
    ensure!(got == e.data[..want], "contents differ: {}", diff(&e.data[..want], &got));
    if amount == Amount::Eof {
        let mut b = [0; 5];
        let n = r.read(&mut b).await.map_err(|x| format!("at the end: {x}"))?;
        ensure!(n == 0, "{n} bytes beyond the end");
        ensure!(r.compute_hash() == rz::crc(&e.data), "hash differs");
    }
    Ok(())
}
/// Polls a future a number of times, then drops it.
fn poll_some<F: Future>(f: F, polls: usize) {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..polls {
        if let Poll::Ready(_) = f.as_mut().poll(&mut cx) {
            return;
        }
    }
}
/// Indices that no entry of n has.
fn beyond(far: bool, n: usize) -> Vec<usize> {
    match far {
        false => vec![n],
        true => {
            (8..64).map(|b| 1usize << b).chain((16..64).step_by(16).map(|b| (1 << b) + n - 1)).chain([usize::MAX, usize::MAX - 1, usize::MAX >> 1]).collect()
        }
    }
}
fn oob<T>(r: Result<T, ZipError>, what: &str) -> R {
    match r {
        Err(ZipError::EntryIndexOutOfBounds) => Ok(()),
        Err(x) => bail!("{what}: index out of bounds gives {}", ek(&x)),
        Ok(_) => bail!("{what}: an entry that does not exist was opened"),
    }
}
async fn act_seek<I: AsyncRead + AsyncBufRead + AsyncSeek + Unpin>(z: &mut seek::ZipFileReader<I>, es: &[E], a: Act) -> R {
    match a {
        Act::Open { i, amount, with } => {
            if with {
                let mut r = z.reader_with_entry(i).await.map_err(|x| format!("open {i}: {}", ek(&x)))?;
                ensure!(r.entry().filename().as_bytes() == es[i].name && r.entry().crc32() == rz::crc(&es[i].data), "entry {i} carries another entry's data");
                read_some(&mut r, &es[i], amount).await
            } else {
                let mut r = z.reader_without_entry(i).await.map_err(|x| format!("open {i}: {}", ek(&x)))?;
                read_some(&mut r, &es[i], amount).await
            }
        }
        Act::Oob { far, with } => {
            for i in beyond(far, es.len()) {
                if with {
                    oob(z.reader_with_entry(i).await.map(|_| ()), "seek")?
                } else {
                    oob(z.reader_without_entry(i).await.map(|_| ()), "seek")?
                }
            }
            Ok(())
        }
        Act::Move(k) => {
            let s = z.inner_mut();
            match k {
                0 => {
                    s.seek(SeekFrom::Start(0)).await.map_err(|x| x.to_string())?;
                }
                1 => {
                    s.seek(SeekFrom::End(0)).await.map_err(|x| x.to_string())?;
                }
                2 => {
                    s.seek(SeekFrom::Start(77)).await.map_err(|x| x.to_string())?;
                    let mut b = [0; 9];
                    s.read_exact(&mut b).await.map_err(|x| x.to_string())?;
                }
                _ => {
                    s.seek(SeekFrom::Start(1 << 40)).await.map_err(|x| x.to_string())?;
                }
            }
            Ok(())
        }
        Act::Cancel { i, polls } => {
            poll_some(z.reader_with_entry(i), polls);
            Ok(())
        }
        Act::CancelRead { i, polls } => {
            let mut r = z.reader_without_entry(i).await.map_err(|x| format!("open {i}: {}", ek(&x)))?;
            let mut b = [0; 50];
            poll_some(r.read(&mut b), polls);
            Ok(())
        }
    }
}
async fn seek_history<I: AsyncRead + AsyncBufRead + AsyncSeek + Unpin>(src: I, es: &[E], acts: &[Act]) -> R {
    let mut z = seek::ZipFileReader::new(src).await.map_err(|x| ek(&x))?;
    for (k, a) in acts.iter().enumerate() {
        act_seek(&mut z, es, *a).await.map_err(|f| Fail { key: f.key, msg: format!("step {k} of {acts:?}: {}", f.msg) })?;
    }
    ensure!(z.file().entries().len() == es.len(), "the entry list changed");
    Ok(())
}

async fn crowd_file(bytes: &Arc<Vec<u8>>, n: usize) -> Result<async_zip::ZipFile, Fail> {
    thread_local!(static KNOWN: std::cell::RefCell<std::collections::HashMap<usize, async_zip::ZipFile>> = Default::default());
    if let Some(f) = KNOWN.with(|k| k.borrow().get(&n).cloned()) {
        return Ok(f);
    }
    let f = seek::ZipFileReader::new(Source::new(bytes)).await.map_err(|x| ek(&x))?.file().clone();
    KNOWN.with(|k| k.borrow_mut().insert(n, f.clone()));
    Ok(f)
}
const AMOUNTS5: [Amount; 5] = [Amount::None, Amount::One, Amount::Half, Amount::AllButOne, Amount::Eof];

pub fn run(ctx: &Ctx) -> i32 {
    let es = archive();
    let a = A { entries: es.clone(), ..Default::default() };
    let b = rz::build(&a);
    let bytes = Arc::new(b.bytes.clone());
    let amounts = AMOUNTS5;
    let mut acts = vec![];
    for i in 0..es.len() {
        for amount in amounts {
            for with in [false, true] {
                if es[i].data.is_empty() && amount != Amount::None && amount != Amount::Eof {
                    continue;
                }
                acts.push(Act::Open { i, amount, with });
            }
        }
        acts.push(Act::Cancel { i, polls: 1 });
        acts.push(Act::Cancel { i, polls: 3 });
        acts.push(Act::CancelRead { i, polls: 1 });
    }
    for far in [false, true] {
        for with in [false, true] {
            acts.push(Act::Oob { far, with });
        }
    }
    acts.extend((0..4).map(Act::Move));
    let na = acts.len() as u64;
    let seqs = Seqs { n: na, depth: if ctx.thorough { 4 } else { 3 } };
    let last: Vec<Act> = (0..es.len()).map(|i| Act::Open { i, amount: Amount::Eof, with: i % 2 == 0 }).collect();
    // Directly on the source, with or without delays; and through buffering readers.
    ctx.each("histories", seqs.total(), |i, l| {
        let s: Vec<Act> = seqs.get(i).into_iter().map(|k| acts[k]).collect();
        l.state(&s);
        l.step(s.len() as u64 + 1);
        // Ends with one more full read of some entry.
        let mut t = s.clone();
        t.push(last[i as usize % es.len()]);
        l.sample(|| format!("{t:?}"));
        let src = Source::chunked(&bytes, if i % 2 == 0 { usize::MAX } else { 5 }, i % 3 == 0);
        exec_run(seek_history(src, &es, &t)).unwrap_or_else(|_| Err("stalled".into()))?;
        l.hit();
        Ok(())
    });
    let seqs2 = Seqs { n: na, depth: if ctx.thorough { 3 } else { 2 } };
    let caps = [1usize, 16, 64, 8192];
    ctx.each("buffered", seqs.total() * caps.len() as u64 * 2, |i, l| {
        let mut m = Mix(i);
        let cap = *m.of(&caps);
        let pend = m.take(2) == 1;
        let fin = last[m.0 as usize % es.len()];
        let mut t: Vec<Act> = seqs.get(m.0).into_iter().map(|k| acts[k]).collect();
        t.push(fin);
        l.state(&(cap, &t));
        l.step(t.len() as u64);
        let src = BufReader::with_capacity(cap, Source::chunked(&bytes, usize::MAX, pend));
        exec_run(seek_history(src, &es, &t)).unwrap_or_else(|_| Err("stalled".into()))?;
        l.hit();
        Ok(())
    });
    ctx.each("tokio", seqs2.total() * 2, |i, l| {
        let mut m = Mix(i);
        let cap = [7usize, 8192][m.take(2)];
        let mut t: Vec<Act> = seqs2.get(m.0).into_iter().map(|k| acts[k]).collect();
        t.push(last[i as usize % es.len()]);
        l.state(&(cap, "tokio", &t));
        l.step(t.len() as u64);
        exec_run(async {
            let src = tokio::io::BufReader::with_capacity(cap, std::io::Cursor::new(bytes.as_slice()));
            let mut z = seek::ZipFileReader::with_tokio(src).await.map_err(|x| ek(&x))?;
            for (k, a) in t.iter().enumerate() {
                act_seek(&mut z, &es, *a).await.map_err(|f| format!("step {k} of {t:?}: {}", f.msg))?;
            }
            Ok::<(), Fail>(())
        })
        .unwrap_or_else(|_| Err("stalled".into()))?;
        l.hit();
        Ok(())
    });
    // The consuming open, after any history of one or two steps.
    ctx.each("into-entry", Seqs { n: na, depth: 2 }.total() * (es.len() as u64 + 5), |i, l| {
        let mut m = Mix(i);
        let k = m.take(es.len() + 5);
        let t: Vec<Act> = Seqs { n: na, depth: 2 }.get(m.0).into_iter().map(|k| acts[k]).collect();
        l.state(&(k, "into", &t));
        l.step(t.len() as u64 + 1);
        exec_run(async {
            let mut z = seek::ZipFileReader::new(Source::chunked(&bytes, 11, false)).await.map_err(|x| ek(&x))?;
            for a in &t {
                act_seek(&mut z, &es, *a).await.map_err(|f| format!("{t:?}: {}", f.msg))?;
            }
            if k >= es.len() {
                let j = [k, usize::MAX, 1 << 32, (1 << 16) + 1, 256][k - es.len()];
                return oob(z.into_entry(j).await.map(|_| ()), "into_entry");
            }
            let mut r = z.into_entry(k).await.map_err(|x| format!("{t:?}, into_entry {k}: {}", ek(&x)))?;
            read_some(&mut r, &es[k], Amount::Eof).await
        })
        .unwrap_or_else(|_| Err("stalled".into()))?;
        l.hit();
        Ok(())
    });
    // In-memory and file readers.
    ctx.each("mem", seqs2.total(), |i, l| {
        let t: Vec<Act> = seqs2.get(i).into_iter().map(|k| acts[k]).collect();
        l.state(&("mem", &t));
        l.step(t.len() as u64);
        exec_run(async {
            let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
            for a in t.iter().chain(&last) {
                match *a {
                    Act::Open { i, amount, with: true } => {
                        let mut r = z.reader_with_entry(i).await.map_err(|x| ek(&x))?;
                        ensure!(r.entry().crc32() == rz::crc(&es[i].data), "entry {i} carries another entry's data");
                        read_some(&mut r, &es[i], amount).await?
                    }
                    Act::Open { i, amount, .. } => read_some(&mut z.reader_without_entry(i).await.map_err(|x| ek(&x))?, &es[i], amount).await?,
                    Act::Oob { far, with } => {
                        for i in beyond(far, es.len()) {
                            if with {
                                oob(z.reader_with_entry(i).await.map(|_| ()), "mem")?
                            } else {
                                oob(z.reader_without_entry(i).await.map(|_| ()), "mem")?
                            }
                        }
                    }
                    Act::Cancel { i, polls } => poll_some(z.reader_with_entry(i), polls),
                    Act::CancelRead { i, .. } => drop(z.reader_without_entry(i).await.map_err(|x| ek(&x))?),
                    Act::Move(_) => {}
                }
            }
            Ok::<(), Fail>(())
        })
        .unwrap_or_else(|_| Err("stalled".into()))?;
        l.hit();
        Ok(())
    });
    let seqs1 = Seqs { n: na, depth: 2 };
    ctx.each("fs", seqs1.total(), |i, l| {
        let t: Vec<Act> = seqs1.get(i).into_iter().map(|k| acts[k]).collect();
        let f = Scratch::new(&bytes);
        l.step(t.len() as u64 + es.len() as u64);
        let r: R = rt(async {
            let z = async_zip::tokio::read::fs::ZipFileReader::new(&f.0).await.map_err(|x| ek(&x))?;
            for a in t.iter().chain(&last) {
                match *a {
                    Act::Open { i, amount, with: true } => {
                        let mut r = z.reader_with_entry(i).await.map_err(|x| ek(&x))?;
                        ensure!(r.entry().crc32() == rz::crc(&es[i].data), "entry {i} carries another entry's data");
                        read_some(&mut r, &es[i], amount).await?
                    }
                    Act::Open { i, amount, .. } => read_some(&mut z.reader_without_entry(i).await.map_err(|x| ek(&x))?, &es[i], amount).await?,
                    Act::Oob { far, with } => {
                        for i in beyond(far, es.len()) {
                            if with {
                                oob(z.reader_with_entry(i).await.map(|_| ()), "fs")?
                            } else {
                                oob(z.reader_without_entry(i).await.map(|_| ()), "fs")?
                            }
                        }
                    }
                    Act::CancelRead { i, .. } => drop(z.reader_without_entry(i).await.map_err(|x| ek(&x))?),
                    _ => {}
                }
            }
            Ok(())
        });
        r?;
        l.state(&("fs", &t));
        l.hit();
        Ok(())
    });
    // The directory lists the entries in any order, independent of where their data lies.
    let perms: Vec<Vec<usize>> = {
        let mut v = vec![vec![]];
        for k in 0..es.len() {
            v = v.into_iter().flat_map(|p: Vec<usize>| (0..=p.len()).map(move |at| [&p[..at], &[k], &p[at..]].concat())).collect();
        }
        v
    };
    ctx.each("listed", perms.len() as u64 * 5 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let order = m.of(&perms).clone();
        let front = m.take(5);
        let with = m.take(2) == 1;
        let back = m.take(2) == 1;
        l.state(&(&order, front, with, back, "listed"));
        l.step(es.len() as u64 + 1);
        let bytes = Arc::new(rz::build(&A { entries: es.clone(), cd_order: Some(order.clone()), ..Default::default() }).bytes);
        let listed: Vec<E> = order.iter().map(|k| es[*k].clone()).collect();
        let visits: Vec<usize> = if back { (0..es.len()).rev().collect() } else { (0..es.len()).collect() };
        macro_rules! each {
            ($z:expr) => {{
                for i in &visits {
                    if with {
                        let mut r = $z.reader_with_entry(*i).await.map_err(|x| format!("order {order:?}: open {i}: {}", ek(&x)))?;
                        let same = r.entry().filename().as_bytes() == listed[*i].name && r.entry().crc32() == rz::crc(&listed[*i].data);
                        ensure!(same, "order {order:?}: entry {i} carries another entry's data");
                        read_some(&mut r, &listed[*i], Amount::Eof).await.map_err(|f| format!("order {order:?}, {i}: {}", f.msg))?;
                    } else {
                        let mut r = $z.reader_without_entry(*i).await.map_err(|x| format!("order {order:?}: open {i}: {}", ek(&x)))?;
                        read_some(&mut r, &listed[*i], Amount::Eof).await.map_err(|f| format!("order {order:?}, {i}: {}", f.msg))?;
                    }
                }
                Ok::<(), Fail>(())
            }};
        }
        match front {
            0 => exec_run(async {
                let mut z = seek::ZipFileReader::new(Source::new(&bytes)).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            1 => exec_run(async {
                let mut z = seek::ZipFileReader::new(BufReader::with_capacity(100, Source::new(&bytes))).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            2 => exec_run(async {
                let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            3 => {
                let f = Scratch::new(&bytes);
                rt(async {
                    let z = async_zip::tokio::read::fs::ZipFileReader::new(&f.0).await.map_err(|x| ek(&x))?;
                    each!(z)
                })?
            }
            _ => {
                for k in &visits {
                    exec_run(async {
                        let z = seek::ZipFileReader::new(Source::new(&bytes)).await.map_err(|x| ek(&x))?;
                        let mut r = z.into_entry(*k).await.map_err(|x| format!("order {order:?}: into_entry {k}: {}", ek(&x)))?;
                        read_some(&mut r, &listed[*k], Amount::Eof).await.map_err(|f| Fail { key: f.key, msg: format!("order {order:?}, {k}: {}", f.msg) })
                    })
                    .map_err(|_| "stalled")??
                }
            }
        }
        l.hit();
        Ok(())
    });
    // Whatever else the entries look like: two unusual ones, opened in any order, each twice.
    let ng = GUISES.len();
    ctx.each("guises", (ng * ng * 3 * 4) as u64, |i, l| {
        let mut m = Mix(i);
        let front = m.take(4);
        let k = m.take(3);
        let (g, h) = (m.take(ng), m.take(ng));
        let kinds = [ent(b"a", rz::STORED, &pattern(4, 90)), ent(b"b", rz::DEFLATE, &pattern(3, 400)).dd(Dd::Sig), ent(b"c", rz::ZSTD, &pattern(1, 200))];
        let es = vec![guised(kinds[k].clone(), g), guised(kinds[(k + 1) % 3].clone(), h), ent(b"last", rz::DEFLATE, b"last")];
        let bytes = Arc::new(rz::build(&A { entries: es.clone(), ..Default::default() }).bytes);
        if bytes.len() > 20_000 && i % 8 != front as u64 {
            return Ok(());
        }
        l.state(&(front, k, g, h, "guises"));
        l.step(8);
        macro_rules! each {
            ($z:expr) => {{
                for (i, amount) in
                    [(1, Amount::One), (0, Amount::Eof), (2, Amount::Half), (1, Amount::Eof), (0, Amount::None), (2, Amount::Eof), (0, Amount::Eof)]
                {
                    let what = || format!("{} / {}: entry {i}", GUISES[g].0, GUISES[h].0);
                    if i == 0 || amount == Amount::Half {
                        let mut r = $z.reader_with_entry(i).await.map_err(|x| format!("{}: {}", what(), ek(&x)))?;
                        ensure!(r.entry().crc32() == rz::crc(&es[i].data), "{} carries another entry's data", what());
                        read_some(&mut r, &es[i], amount).await.map_err(|f| format!("{}: {}", what(), f.msg))?;
                    } else {
                        let mut r = $z.reader_without_entry(i).await.map_err(|x| format!("{}: {}", what(), ek(&x)))?;
                        read_some(&mut r, &es[i], amount).await.map_err(|f| format!("{}: {}", what(), f.msg))?;
                    }
                }
                Ok::<(), Fail>(())
            }};
        }
        match front {
            0 => exec_run(async {
                let mut z = seek::ZipFileReader::new(Source::chunked(&bytes, if i % 2 == 0 { 1000 } else { 33 }, true)).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            1 => exec_run(async {
                let mut z = seek::ZipFileReader::new(BufReader::with_capacity(100, Source::new(&bytes))).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            2 => exec_run(async {
                let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            _ => {
                let f = Scratch::new(&bytes);
                rt(async {
                    let z = async_zip::tokio::read::fs::ZipFileReader::new(&f.0).await.map_err(|x| ek(&x))?;
                    each!(z)
                })?
            }
        }
        l.hit();
        Ok(())
    });
    // Archives of many entries: indices that share their low bits are different entries. One reader opens the whole list.
    let counts = [16usize, 40, 130, 257, 300, 1100, 66_000];
    let crowds: Vec<(Vec<E>, Arc<Vec<u8>>)> = counts
        .iter()
        .map(|n| {
            let entries: Vec<E> =
                (0..*n).map(|k| ent(format!("{k}").as_bytes(), [rz::STORED, rz::DEFLATE][k % 2], format!("the contents of {k}").as_bytes())).collect();
            let a = A { entries, end64: (*n > 65_534).then(|| rz::End64 { mask: 63, ext: vec![] }), ..Default::default() };
            let b = rz::build(&a);
            (a.entries, Arc::new(b.bytes))
        })
        .collect();
    ctx.each("crowd", (counts.len() * 4 * 5 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let (es, bytes) = m.of(&crowds);
        let n = es.len();
        let how = m.take(4);
        let front = m.take(5);
        let with = m.take(2) == 1;
        let order: Vec<usize> = match how {
            // Forwards, backwards, and in steps.
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => [1usize, 255, 256, 257, 127, 128, 0, 65_535, 65_536, 65_537, 15, 16, 31, 32, n - 1, 511, 512, 1023, 1024, 0]
                .into_iter()
                .filter(|k| *k < n)
                .collect(),
            _ => (0..n).map(|k| k * 7919 % n).collect(),
        };
        l.state(&(n, how, front, with));
        l.step(order.len() as u64);
        let amount = if how == 0 { Amount::Half } else { Amount::Eof };
        macro_rules! each {
            ($z:expr) => {{
                for i in &order {
                    if with {
                        let mut r = $z.reader_with_entry(*i).await.map_err(|x| format!("{n} entries: open {i}: {}", ek(&x)))?;
                        ensure!(r.entry().filename().as_bytes() == es[*i].name, "{n} entries: entry {i} carries the name {:?}", r.entry().filename());
                        read_some(&mut r, &es[*i], amount).await.map_err(|f| format!("{n} entries, {i}: {}", f.msg))?;
                    } else {
                        let mut r = $z.reader_without_entry(*i).await.map_err(|x| format!("{n} entries: open {i}: {}", ek(&x)))?;
                        read_some(&mut r, &es[*i], amount).await.map_err(|f| format!("{n} entries, {i}: {}", f.msg))?;
                    }
                }
                for i in beyond(false, n).into_iter().chain(beyond(true, n)).filter(|i| *i >= n) {
                    oob($z.reader_without_entry(i).await.map(|_| ()), "crowd")?;
                    oob($z.reader_with_entry(i).await.map(|_| ()), "crowd")?;
                }
                Ok::<(), Fail>(())
            }};
        }
        match front {
            0 => exec_run(async {
                let mut z = seek::ZipFileReader::new(Source::new(bytes)).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            1 => exec_run(async {
                let mut z = seek::ZipFileReader::new(BufReader::with_capacity(100, Source::new(bytes))).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            2 => exec_run(async {
                let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
                each!(z)
            })
            .map_err(|_| "stalled")??,
            3 if n < 1000 => {
                let f = Scratch::new(bytes);
                rt(async {
                    let z = async_zip::tokio::read::fs::ZipFileReader::new(&f.0).await.map_err(|x| ek(&x))?;
                    each!(z)
                })?
            }
            _ => {
                for k in order.iter().take(300) {
                    exec_run(async {
                        let z = seek::ZipFileReader::from_raw_parts(Source::new(bytes), crowd_file(bytes, n).await?);
                        let mut r = z.into_entry(*k).await.map_err(|x| format!("{n} entries: into_entry {k}: {}", ek(&x)))?;
                        read_some(&mut r, &es[*k], amount).await
                    })
                    .map_err(|_| "stalled")??
                }
            }
        }
        l.hit();
        Ok(())
    });
    // Entries larger than any buffer.
    let sizes = [65_535usize, 65_536, 70_000, 300_000, (1 << 20) + 7, 3 << 20];
    let large: Vec<(Vec<E>, Arc<Vec<u8>>)> = sizes
        .iter()
        .map(|n| {
            let mut entries: Vec<E> =
                [rz::STORED, rz::DEFLATE, rz::ZSTD].iter().enumerate().map(|(k, m)| ent(format!("{k}").as_bytes(), *m, &pattern(2, n + k))).collect();
            entries.push(ent(b"small", rz::STORED, b"small"));
            let a = A { entries, ..Default::default() };
            let b = rz::build(&a);
            (a.entries, Arc::new(b.bytes))
        })
        .collect();
    let lacts: Vec<Act> = (0..4)
        .flat_map(|i| AMOUNTS5.map(|amount| Act::Open { i, amount, with: i % 2 == 0 }))
        .chain([Act::Move(0), Act::CancelRead { i: 0, polls: 1 }])
        .collect();
    ctx.each("large", (sizes.len() * lacts.len() * 4 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let (es, bytes) = m.of(&large);
        let t = [*m.of(&lacts), Act::Open { i: m.take(4), amount: Amount::Eof, with: true }];
        l.state(&i);
        l.step(2);
        match m.take(3) {
            0 => exec_run(seek_history(Source::new(bytes), es, &t)).map_err(|_| "stalled")??,
            1 => exec_run(seek_history(BufReader::with_capacity(8192, Source::new(bytes)), es, &t)).map_err(|_| "stalled")??,
            _ => exec_run(seek_history(Source::chunked(bytes, 4000, true), es, &t)).map_err(|_| "stalled")??,
        }
        l.hit();
        Ok(())
    });
    ctx.finish(
        "each opened entry delivers its own contents from the first byte, whatever happened before; indices no entry has are refused with EntryIndexOutOfBounds and change nothing",
        &["the source itself is not replaced behind the reader's back"],
    )
}
