//! The streaming reader visits every entry in order, whatever is read of each.
use super::c03::ent;
use super::common::*;
use crate::dev::{Source, Sparse, SparseSource};
use crate::engine::*;
use crate::exec::run as exec_run;
use crate::panel::ek;
use crate::refzip::{self as rz, Built, Dd, A, C, E, U};
use crate::wops::pattern;
use async_zip::base::read::stream::ZipFileReader;
use async_zip::error::ZipError;
use futures_lite::io::{AsyncReadExt, BufReader};
use std::rc::Rc;
use std::sync::Arc;

/// How much of an entry is read.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Amount {
    None,
    One,
    Half,
    AllButOne,
    /// Exactly the contents, the end not yet seen.
    All,
    /// The contents and the end.
    Eof,
}
pub const AMOUNTS: [Amount; 6] = [Amount::None, Amount::One, Amount::Half, Amount::AllButOne, Amount::All, Amount::Eof];
impl Amount {
    pub fn of(self, len: usize) -> usize {
        match self {
            Amount::None => 0,
            Amount::One => len.min(1),
            Amount::Half => len / 2,
            Amount::AllButOne => len.saturating_sub(1),
            Amount::All | Amount::Eof => len,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Step {
    pub amount: Amount,
    pub done: bool,
    pub with: bool,
    /// Size of the single reads (0: as much as possible).
    pub by: usize,
}

pub fn kinds() -> Vec<E> {
    let mut v = vec![
        ent(b"a", rz::STORED, &pattern(4, 70)),
        ent(b"empty", rz::STORED, b""),
        ent(b"d", rz::DEFLATE, &pattern(3, 300)),
        ent(b"dd", rz::DEFLATE, &pattern(3, 300)).dd(Dd::Sig),
        ent(b"dn", rz::DEFLATE, &pattern(1, 90)).dd(Dd::NoSig),
        ent(b"de", rz::DEFLATE, b"").dd(Dd::Sig),
        ent(b"zd", rz::ZSTD, &pattern(1, 400)).dd(Dd::Sig),
        ent(b"z", rz::ZSTD, b"x"),
        ent(b"long", rz::STORED, &pattern(2, 5000)),
        ent(b"longd", rz::DEFLATE, &pattern(2, 9000)).dd(Dd::NoSig),
        ent(b"bz", rz::BZ, &pattern(3, 100)).dd(Dd::Sig),
        ent(b"xz", rz::XZ, &pattern(3, 100)).dd(Dd::NoSig),
        ent(b"lz", rz::LZMA, &pattern(3, 100)),
        ent(b"d64", rz::DEFLATE64, &pattern(3, 100)),
        ent(b"bz1", rz::BZ, &pattern(3, 2049)),
        ent(b"xz1", rz::XZ, b"x"),
    ];
    let mut e = ent(b"64", rz::STORED, &pattern(4, 40));
    e.l64 = U | C;
    e.lx = vec![(0x9999, vec![1; 30])];
    v.push(e);
    let mut e = ent(b"64d", rz::DEFLATE, &pattern(4, 40)).dd(Dd::Sig);
    e.dd_keep = true;
    e.l64 = U | C;
    v.push(e);
    v
}

pub fn walk(a: &A, b: &Built, steps: &[Step], src: Source, l: &mut Local) -> R {
    let bytes = b;
    let mut z = ZipFileReader::new(src.clone());
    let mut expect = 0u64;
    let res = exec_run(async {
        for (k, (e, s)) in a.entries.iter().zip(steps).enumerate() {
            ensure!(src.pos() == expect, "before entry {k} the source is at {}, the entry starts at {expect}", src.pos());
            macro_rules! step {
                ($next:ident, $with:expr) => {{
                    let mut r = match z.$next().await {
                        Ok(Some(r)) => r,
                        Ok(None) => bail!("the stream ended before entry {k}"),
                        Err(x) => bail!("entry {k}: {}", ek(&x)),
                    };
                    $with(&r);
                    let want = s.amount.of(e.data.len());
                    let mut got = vec![];
                    let mut buf = vec![0u8; if s.by == 0 { want.max(1) } else { s.by }];
                    while got.len() < want {
                        let n = (want - got.len()).min(buf.len());
                        let n = r.reader_mut().read(&mut buf[..n]).await.map_err(|x| format!("entry {k}: {x}"))?;
                        ensure!(n > 0, "entry {k} ended after {} of {} bytes", got.len(), e.data.len());
                        got.extend_from_slice(&buf[..n]);
                    }
                    ensure!(got == e.data[..want], "entry {k}: contents differ: {}", diff(&e.data[..want], &got));
                    if s.amount == Amount::Eof {
                        for _ in 0..2 {
                            let n = r.reader_mut().read(&mut buf).await.map_err(|x| format!("entry {k}: {x}"))?;
                            ensure!(n == 0, "entry {k}: {n} bytes beyond its end");
                        }
                    }
                    l.state(&(bytes.bytes.len(), k, want, s.amount == Amount::Eof, src.pos()));
                    if s.done {
                        match r.done().await {
                            Ok(n) => {
                                ensure!(want == e.data.len(), "done after {want} of {} bytes of entry {k} succeeded", e.data.len());
                                n
                            }
                            Err(ZipError::EOFNotReached) if want < e.data.len() => {
                                l.outcome(&(k, "refused"));
                                return Ok(());
                            }
                            Err(x) => bail!("done after {want} of {} bytes of entry {k}: {}", e.data.len(), ek(&x)),
                        }
                    } else {
                        match r.skip().await {
                            Ok(n) => n,
                            Err(x) => bail!("skip after {want} of {} bytes of entry {k}: {}", e.data.len(), ek(&x)),
                        }
                    }
                }};
            }
            z = if s.with {
                let mut name = None;
                let n = step!(next_with_entry, |r: &ZipFileReader<
                    async_zip::base::read::stream::Reading<'_, Source, async_zip::base::read::WithEntry<'_>>,
                >| { name = Some(r.reader().entry().filename().as_bytes().to_vec()) });
                let want = want_text(&e.name, e.flags & 0x800 != 0, UPATH, &e.lx).bytes;
                ensure!(name.as_ref() == Some(&want), "entry {k} is called {name:?}");
                n
            } else {
                step!(next_without_entry, |_: &_| ())
            };
            expect = bytes.locs[k].end;
            l.step(3);
        }
        ensure!(src.pos() == expect, "after the last entry the source is at {}, the entry ends at {expect}", src.pos());
        if steps.len() == a.entries.len() {
            match z.next_without_entry().await {
                Ok(None) => Ok(()),
                Ok(Some(_)) => bail!("an entry after the last one"),
                Err(x) => bail!("after the last entry: {}", ek(&x)),
            }
        } else {
            // Handing the source back in the middle of the archive.
            let s = z.into_inner().await;
            ensure!(s.pos() == expect, "into_inner: source at {}, expected {expect}", s.pos());
            Ok(())
        }
    });
    match res {
        Ok(r) => r,
        Err(_) => bail!("stalled"),
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let v = kinds();
    // Everything about one entry, followed by another.
    let bys = [0usize, 1, 7, 3000];
    let chunks = [(usize::MAX, false), (1, false), (13, true)];
    let n = (v.len() * 6 * 2 * 2 * bys.len() * chunks.len() * 2) as u64;
    ctx.each("one", n, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&v).clone();
        let s = Step { amount: *m.of(&AMOUNTS), done: m.take(2) == 1, with: m.take(2) == 1, by: *m.of(&bys) };
        let (chunk, pend) = *m.of(&chunks);
        let a = A { entries: vec![e, ent(b"tail", rz::STORED, b"tail")], ..Default::default() };
        let b = rz::build(&a);
        let mut steps = vec![s];
        if m.take(2) == 1 {
            steps.push(Step { amount: Amount::All, done: true, with: true, by: 0 });
        }
        l.sample(|| format!("{} {s:?} chunk {chunk}", String::from_utf8_lossy(&a.entries[0].name)));
        walk(&a, &b, &steps, Source::chunked(&Arc::new(b.bytes.clone()), chunk, pend), l)?;
        l.hit();
        Ok(())
    });
    // Whatever else the entries look like.
    let guisable = [0usize, 1, 2, 3, 4, 5, 6, 7, 10, 12, 16, 17];
    ctx.each("guises", (GUISES.len() * guisable.len() * 8 * 2 * chunks.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let g = m.take(GUISES.len());
        let k = m.take(guisable.len());
        let (amount, done) = [
            (Amount::None, false),
            (Amount::One, false),
            (Amount::AllButOne, false),
            (Amount::Eof, false),
            (Amount::None, true),
            (Amount::Half, true),
            (Amount::All, true),
            (Amount::Eof, true),
        ][m.take(8)];
        let s = Step { amount, done, with: m.take(2) == 1, by: 0 };
        let (chunk, pend) = *m.of(&chunks);
        let first = m.take(2) == 1;
        // The guised entry before or behind another guised one of another kind.
        let e = guised(v[guisable[k]].clone(), g);
        let other = guised(v[guisable[(k + 1 + g) % guisable.len()]].clone(), (g + 1 + k) % GUISES.len());
        let entries = if first { vec![e, other, ent(b"tail", rz::STORED, b"tail")] } else { vec![other, e, ent(b"tail", rz::STORED, b"tail")] };
        let a = A { entries, ..Default::default() };
        let b = rz::build(&a);
        if b.bytes.len() > 20_000 && chunk == 1 {
            return Ok(());
        }
        let all = Step { amount: Amount::All, done: true, with: true, by: 0 };
        let steps = if first { vec![s, all, all] } else { vec![all, s, all] };
        walk(&a, &b, &steps, Source::chunked(&Arc::new(b.bytes.clone()), chunk, pend), l)
            .map_err(|f| Fail { msg: format!("{} {s:?}: {}", GUISES[g].0, f.msg), ..f })?;
        l.hit();
        Ok(())
    });
    // Every prefix length of small contents, done and skip.
    ctx.each("prefix", (v.len() * 2 * 402) as u64, |i, l| {
        let mut m = Mix(i);
        let e = m.of(&v).clone();
        let done = m.take(2) == 1;
        let k = m.take(402);
        if k > e.data.len() {
            return Ok(());
        }
        let a = A { entries: vec![e.clone(), ent(b"tail", rz::DEFLATE, b"tail")], ..Default::default() };
        let b = rz::build(&a);
        let src = Source::new(&Arc::new(b.bytes.clone()));
        let r: R = exec_run(async {
            let z = ZipFileReader::new(src.clone());
            let Some(mut r) = z.next_with_entry().await.map_err(|x| ek(&x))? else { bail!("no entry") };
            let mut buf = vec![0; k];
            r.reader_mut().read_exact(&mut buf).await.map_err(|x| x.to_string())?;
            ensure!(buf == e.data[..k], "contents differ");
            let z = if done {
                match r.done().await {
                    Ok(z) => {
                        ensure!(k == e.data.len(), "done after {k} of {} bytes succeeded", e.data.len());
                        z
                    }
                    Err(ZipError::EOFNotReached) if k < e.data.len() => return Ok(()),
                    Err(x) => bail!("done after {k} of {}: {}", e.data.len(), ek(&x)),
                }
            } else {
                r.skip().await.map_err(|x| format!("skip after {k}: {}", ek(&x)))?
            };
            ensure!(src.pos() == b.locs[0].end, "source at {}, entry ends at {}", src.pos(), b.locs[0].end);
            let Some(mut r) = z.next_with_entry().await.map_err(|x| format!("after {k} bytes: {}", ek(&x)))? else { bail!("no second entry") };
            ensure!(r.reader().entry().filename().as_bytes() == b"tail", "wrong second entry");
            let mut t = vec![];
            r.reader_mut().read_to_end(&mut t).await.map_err(|x| x.to_string())?;
            ensure!(t == b"tail", "second entry's contents differ");
            Ok(())
        })
        .unwrap_or_else(|_| Err("stalled".into()));
        r?;
        l.state(&(i, src.pos()));
        l.step(4);
        l.hit();
        Ok(())
    });
    // Histories over two and three entries.
    let acts: Vec<(Amount, bool)> = vec![
        (Amount::None, false),
        (Amount::One, false),
        (Amount::AllButOne, false),
        (Amount::All, false),
        (Amount::Eof, false),
        (Amount::All, true),
        (Amount::Eof, true),
        (Amount::Half, true),
    ];
    let na = acts.len();
    let nv = v.len();
    ctx.each("two", (nv * nv * na * na * 4 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let entries: Vec<E> = (0..2).map(|_| m.of(&v).clone()).collect();
        let steps: Vec<Step> = (0..2)
            .map(|_| {
                let (amount, done) = *m.of(&acts);
                Step { amount, done, with: m.take(2) == 1, by: 0 }
            })
            .collect();
        let (chunk, pend) = *m.of(&chunks);
        let a = A { entries, comment: b"the end".to_vec(), ..Default::default() };
        let b = rz::build(&a);
        walk(&a, &b, &steps, Source::chunked(&Arc::new(b.bytes.clone()), chunk, pend), l)?;
        l.hit();
        Ok(())
    });
    let light: Vec<E> = v[..if ctx.thorough { 12 } else { 9 }].to_vec();
    let nl = light.len();
    ctx.each("three", (nl * nl * nl * na * na * na) as u64, |i, l| {
        let mut m = Mix(i);
        let entries: Vec<E> = (0..3).map(|_| m.of(&light).clone()).collect();
        let steps: Vec<Step> = (0..3)
            .map(|k| {
                let (amount, done) = *m.of(&acts);
                Step { amount, done, with: (i + k) % 2 == 1, by: 0 }
            })
            .collect();
        let a = A { entries, ..Default::default() };
        let b = rz::build(&a);
        walk(&a, &b, &steps, Source::new(&Arc::new(b.bytes.clone())), l)?;
        l.hit();
        Ok(())
    });
    // Contents whose CRC begins like a signature, in descriptors with and without one.
    let marks: Vec<u32> = {
        let mut v = vec![0, 1, !0, 0x7FFF_FFFF, 0x8000_0000, 0x30304B50];
        for s in [0x08074B50u32, 0x04034B50, 0x02014B50, 0x06054B50, 0x06064B50, 0x07064B50] {
            v.extend([s ^ 0x0100_0000, s ^ 0x8000_0000, s ^ 0x0001_0000, s ^ 0x0100, s ^ 1, s & 0xFFFF, s & 0xFF_FFFF, s.swap_bytes()]);
            if s != 0x08074B50 {
                v.push(s);
            }
        }
        v.sort();
        v.dedup();
        v
    };
    ctx.each("marks", (marks.len() * 5 * 3 * 3 * na * 2 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let want = *m.of(&marks);
        let method = [rz::DEFLATE, rz::ZSTD, rz::BZ, rz::STORED, rz::XZ][m.take(5)];
        // A descriptor without signature that begins with all of it cannot be told from one with it.
        let dd = [Dd::Sig, Dd::NoSig, Dd::None][m.take(3)];
        let prefix: &[u8] = [&b""[..], b"PK", b"some text before"][m.take(3)];
        let (amount, done) = acts[m.take(na)];
        let with = m.take(2) == 1;
        let (chunk, pend) = *m.of(&chunks);
        if method == rz::STORED && dd != Dd::None {
            return Ok(());
        }
        let e = ent(b"marked", method, &rz::forge(prefix, want)).dd(dd);
        let a = A { entries: vec![e.clone(), ent(b"between", rz::STORED, b"x"), e], ..Default::default() };
        let b = rz::build(&a);
        let steps = vec![Step { amount, done, with, by: 0 }; 3];
        walk(&a, &b, &steps, Source::chunked(&Arc::new(b.bytes.clone()), chunk, pend), l)
            .map_err(|f| Fail { msg: format!("CRC {want:08x}, {dd:?}: {}", f.msg), ..f })?;
        l.hit();
        Ok(())
    });
    // In place of an entry: the stream ends where the directory, or the end record of an archive without entries, begins;
    // anything else that is no entry is an error.
    let list = [ent(b"a", rz::STORED, b"some contents"), ent(b"b", rz::DEFLATE, &pattern(3, 60)).dd(Dd::Sig), ent(b"c", rz::ZSTD, b"")];
    let mut values: Vec<u32> = vec![0, !0, 1, 0x50, 0x4B50, 0x08074B50, 0x07064B50, 0x08064B50, 0x05054B50, 0x30304B50, 0x504B0304, 0x504B0102];
    for good in [0x04034B50u32, 0x02014B50, 0x06054B50, 0x06064B50] {
        values.push(good);
        for byte in 0..4 {
            values.extend((1..256u32).map(|x| good ^ x << (8 * byte)));
        }
    }
    ctx.each("signatures", values.len() as u64 * 4 * 2 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let (at, with, skip, chunked) = (m.take(4), m.take(2) == 1, m.take(2) == 1, m.take(2) == 1);
        let v = *m.of(&values);
        let b = rz::build(&A { entries: list.to_vec(), ..Default::default() });
        let mut bytes = b.bytes.clone();
        let pos = if at < 3 { b.locs[at].lfh } else { b.cd } as usize;
        bytes[pos..pos + 4].copy_from_slice(&v.to_le_bytes());
        let bytes = Arc::new(bytes);
        let src = if chunked { Source::chunked(&bytes, 3, false) } else { Source::new(&bytes) };
        l.step(at as u64 + 1);
        l.state(&(at, v));
        let r: Result<Option<usize>, String> = exec_run(async {
            let mut z = ZipFileReader::new(src);
            for k in 0.. {
                macro_rules! next {
                    ($next:ident) => {{
                        let Some(mut r) = z.$next().await.map_err(|x| format!("entry {k}: {}", ek(&x)))? else { return Ok(Some(k)) };
                        if k == at {
                            return Ok(None);
                        }
                        if skip {
                            z = r.skip().await.map_err(|x| ek(&x))?;
                        } else {
                            r.reader_mut().read_to_end(&mut vec![]).await.map_err(|x| x.to_string())?;
                            z = r.done().await.map_err(|x| ek(&x))?;
                        }
                    }};
                }
                if with {
                    next!(next_with_entry)
                } else {
                    next!(next_without_entry)
                }
            }
            unreachable!()
        })
        .map_err(|_| "stalled")?;
        let what = || format!("{v:#010x} in place of {}", if at < 3 { format!("the signature of entry {at}") } else { "that of the directory".into() });
        match v {
            0x04034B50 => ensure!(r.is_err() && at == 3 || r == Ok(None), "{}: {r:?}", what()),
            0x02014B50 => ensure!(r == Ok(Some(at)), "{}: {r:?}", what()),
            // The end records stand in the place of the directory if there is none: either answer will do here.
            0x06054B50 | 0x06064B50 => ensure!(r == Ok(Some(at)) || r.is_err(), "{}: {r:?}", what()),
            _ => {
                l.hit();
                ensure!(r.as_ref().is_err_and(|x| x.starts_with(&format!("entry {at}:"))), "{}: {r:?}", what())
            }
        }
        Ok(())
    });
    // Entries larger than any buffer, and archives of many entries.
    let mut large = vec![];
    for size in [70_000usize, 300_001, (1 << 20) + 5, 3 << 20] {
        for (method, dd) in
            [(rz::STORED, Dd::None), (rz::DEFLATE, Dd::None), (rz::DEFLATE, Dd::Sig), (rz::ZSTD, Dd::NoSig), (rz::BZ, Dd::None), (rz::DEFLATE64, Dd::None)]
        {
            if method == rz::BZ && size > 300_001 {
                continue;
            }
            let entries =
                vec![ent(b"large", method, &pattern(2, size)).dd(dd), ent(b"next", rz::DEFLATE, &pattern(3, 66_000)), ent(b"tail", rz::STORED, b"tail")];
            let a = A { entries, ..Default::default() };
            let b = rz::build(&a);
            let bytes = Arc::new(b.bytes.clone());
            large.push((a, b, bytes));
        }
    }
    let bys = [0usize, 1000, 8192, 65_536];
    ctx.each("large", (large.len() * 6 * 2 * 2 * bys.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let (a, b, bytes) = m.of(&large);
        let s = Step { amount: *m.of(&AMOUNTS), done: m.take(2) == 1, with: m.take(2) == 1, by: *m.of(&bys) };
        let src = if m.take(2) == 1 { Source::chunked(bytes, 5000, true) } else { Source::new(bytes) };
        let all = Step { amount: Amount::All, done: true, with: true, by: 0 };
        walk(a, b, &[s, Step { amount: s.amount, done: false, ..all }, all], src, l)?;
        l.hit();
        Ok(())
    });
    let crowds: Vec<(A, Built, Arc<Vec<u8>>)> = [20usize, 129, 300, 1100, 66_000]
        .iter()
        .map(|n| {
            let a = A {
                entries: (0..*n)
                    .map(|k| {
                        let e = ent(format!("{k}").as_bytes(), [rz::STORED, rz::DEFLATE, rz::DEFLATE][k % 3], &pattern(2, k % 9));
                        if k % 3 == 2 {
                            e.dd([Dd::Sig, Dd::NoSig][k % 2])
                        } else {
                            e
                        }
                    })
                    .collect(),
                ..Default::default()
            };
            let b = rz::build(&a);
            let bytes = Arc::new(b.bytes.clone());
            (a, b, bytes)
        })
        .collect();
    let plain: Vec<(Amount, bool)> = acts.iter().copied().filter(|(a, done)| !done || *a != Amount::Half).collect();
    ctx.each("crowd", (crowds.len() * (plain.len() + 1) * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let (a, b, bytes) = m.of(&crowds);
        let (k, with) = (m.take(plain.len() + 1), m.take(3));
        let steps: Vec<Step> = (0..a.entries.len())
            .map(|j| {
                let (amount, done) = if k < plain.len() { plain[k] } else { plain[j % plain.len()] };
                Step { amount, done, with: with == 0 || with == 2 && j % 2 == 0, by: 0 }
            })
            .collect();
        walk(a, b, &steps, Source::new(bytes), l)?;
        l.hit();
        Ok(())
    });
    // An entry of more than 4 GiB whose end only its data tell.
    ctx.each("beyond-4g", 4, |i, l| {
        let mut e = ent(b"huge", rz::DEFLATE, b"").dd(Dd::Sig);
        e.l64 = U | C;
        let t = ent(b"tail", rz::STORED, b"tail");
        let mut s = Sparse::default();
        s.push_bytes(&rz::lfh_bytes(&e, 0));
        // Deflate blocks that are stored.
        let (blocks, per) = (65_600u64, 65_535u64);
        for k in 0..blocks {
            s.push_bytes(&[(k + 1 == blocks) as u8, 0xFF, 0xFF, 0, 0]);
            s.push_zeros(per);
        }
        s.push_bytes(&rz::DDSIG.to_le_bytes());
        s.push_bytes(&[0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255]);
        s.push_bytes(&rz::lfh_bytes(&t, 4));
        s.push_bytes(b"tail");
        s.push_bytes(&rz::cdh_bytes(&t, 4, 0));
        let z = ZipFileReader::new(BufReader::with_capacity(1 << 20, SparseSource { data: Rc::new(s), pos: 0 }));
        macro_rules! one {
            ($next:ident) => {{
                let Some(mut r) = z.$next().await.map_err(|e| format!("{e:?}"))? else { bail!("no entry") };
                if i < 2 {
                    r.skip().await.map_err(|e| format!("skip: {e:?}"))?
                } else {
                    let (n, odd) = super::c01::drain(r.reader_mut()).await?;
                    ensure!(n == blocks * per && odd.is_empty(), "{n} bytes of {}, not zero: {odd:?}", blocks * per);
                    r.done().await.map_err(|e| format!("done: {e:?}"))?
                }
            }};
        }
        crate::exec::now(async {
            let z = if i % 2 == 0 { one!(next_with_entry) } else { one!(next_without_entry) };
            let Some(mut r) = z.next_without_entry().await.map_err(|e| format!("after the large entry: {e:?}"))? else { bail!("no second entry") };
            let mut v = vec![];
            r.reader_mut().read_to_end(&mut v).await.map_err(|e| format!("{e:?}"))?;
            ensure!(v == b"tail", "second entry {v:?}");
            let z = r.done().await.map_err(|e| format!("{e:?}"))?;
            ensure!(z.next_with_entry().await.map_err(|e| format!("{e:?}"))?.is_none(), "no end");
            Ok::<(), Fail>(())
        })?;
        l.step(4);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "the entries come in order with their own contents, done succeeds exactly when all contents were read (else EOFNotReached), and after each entry the source stands at its end",
        &["entries are those the streaming reader supports: no stored entries with descriptors, no 64-bit descriptors, no Deflate64 with descriptors (C03 findings)"],
    )
}
