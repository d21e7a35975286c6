//! A parsed archive description can be kept, copied and used again.
use super::c03::{ent, variants};
use super::common::*;
use crate::dev::Source;
use crate::engine::*;
use crate::exec::run as exec_run;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, End64, A};
use crate::wops::pattern;
use async_zip::base::read::{mem, seek};
use async_zip::tokio::read::fs;
use async_zip::{ZipFile, ZipFileBuilder};
use futures_lite::io::{AsyncReadExt, AsyncSeekExt, Cursor, SeekFrom};
use std::sync::Arc;

/// What is done with the description before it is used.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Op {
    Mem,
    MemClone,
    Fs,
    FsClone,
    Seek,
    SeekElsewhere,
    Clone,
    Rebuild,
    Recomment,
    ReadAllMem,
}
const OPS: [Op; 10] = [Op::Mem, Op::MemClone, Op::Fs, Op::FsClone, Op::Seek, Op::SeekElsewhere, Op::Clone, Op::Rebuild, Op::Recomment, Op::ReadAllMem];

fn archives() -> Vec<A> {
    let mut v = vec![
        A::default(),
        A { entries: vec![ent(b"one", rz::STORED, b"stored")], comment: b"c".to_vec(), ..Default::default() },
        A {
            entries: vec![ent(b"a", rz::DEFLATE, &pattern(3, 500)), ent(b"b", rz::ZSTD, &pattern(1, 90)).dd(Dd::Sig), ent(b"a", rz::STORED, b"")],
            end64: Some(End64 { mask: 63, ext: vec![] }),
            ..Default::default()
        },
    ];
    let mut shuffled = A {
        entries: vec![ent(b"first", rz::STORED, b"first in the file"), ent(b"second", rz::DEFLATE, b"second in the file"), ent(b"third", rz::STORED, b"third")],
        ..Default::default()
    };
    shuffled.cd_order = Some(vec![2, 0, 1]);
    v.push(shuffled);
    for e in variants() {
        v.push(A { entries: vec![e, ent(b"last", rz::STORED, b"tail")], comment: vec![0xFF], ..Default::default() });
    }
    v
}
fn check_file(f: &ZipFile, a: &A, b: &rz::Built, comment: &Txt, what: &str) -> R {
    ensure!(f.entries().len() == a.entries.len(), "{what}: {} entries, expected {}", f.entries().len(), a.entries.len());
    ensure!(Txt::of(f.comment()) == *comment, "{what}: comment {:?}", Txt::of(f.comment()));
    ensure!(f.zip64() == a.end64.is_some(), "{what}: zip64() is {}", f.zip64());
    for (k, e) in f.entries().iter().enumerate() {
        let got = Meta { off: Some(place(e)), ..meta(e) };
        let want = want_meta(&a.entries[k], b.locs[k].csize, b.locs[k].lfh);
        ensure!(got == want, "{what}: entry {k} {got:?}, expected {want:?}");
    }
    Ok(())
}
macro_rules! read_all {
    ($z:expr, $a:expr, $what:expr, $with:expr) => {{
        for (k, e) in $a.entries.iter().enumerate() {
            let mut v = vec![];
            if $with {
                let mut r = $z.reader_with_entry(k).await.map_err(|x| format!("{}: entry {k}: {}", $what, ek(&x)))?;
                r.read_to_end_checked(&mut v).await.map_err(|x| format!("{}: entry {k}: {}", $what, ek(&x)))?;
            } else {
                let mut r = $z.reader_without_entry(k).await.map_err(|x| format!("{}: entry {k}: {}", $what, ek(&x)))?;
                r.read_to_end(&mut v).await.map_err(|x| format!("{}: entry {k}: {x}", $what))?;
            }
            ensure!(v == e.data, "{}: entry {k}: {}", $what, diff(&e.data, &v));
        }
    }};
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut archives = archives();
    let seqs = Seqs { n: OPS.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    let depth_fs = 2;
    let na = archives.len();
    // Many entries and large ones.
    for n in [40usize, 300, 1500] {
        let entries = (0..n).map(|k| ent(format!("{k}").as_bytes(), [rz::STORED, rz::DEFLATE][k % 2], format!("contents of {k}").as_bytes())).collect();
        archives.push(A { entries, comment: vec![b'c'; n], ..Default::default() });
    }
    archives.push(A {
        entries: (0..66_000).map(|k| ent(b"n", rz::STORED, &[k as u8])).collect(),
        end64: Some(End64 { mask: 63, ext: vec![] }),
        ..Default::default()
    });
    let mut large = A {
        entries: vec![
            ent(b"1", rz::STORED, &pattern(2, 1 << 20)),
            ent(b"2", rz::DEFLATE, &pattern(2, 300_000)).dd(Dd::Sig),
            ent(b"3", rz::ZSTD, &pattern(2, 70_000)),
        ],
        comment: vec![b'x'; 65_535],
        ..Default::default()
    };
    large.entries[1].name = vec![b'n'; 65_535];
    large.entries[0].comment = vec![b'c'; 40_000];
    large.entries[2].cx = vec![(0x4242, vec![7; 50_000])];
    archives.push(large);
    for g in 1..GUISES.len() {
        let entries = vec![
            guised(ent(b"one", rz::STORED, b"stored"), g),
            guised(ent(b"two", rz::DEFLATE, &pattern(3, 500)).dd(Dd::Sig), (g * 7) % GUISES.len()),
            ent(b"last", rz::STORED, b"tail"),
        ];
        archives.push(A { entries, comment: b"c".to_vec(), ..Default::default() });
    }
    let nscale = archives.len() - na;
    let built: Vec<(rz::Built, Arc<Vec<u8>>)> = archives
        .iter_mut()
        .map(|a| {
            let mut b = rz::build(a);
            // From here on in the order of the central directory.
            if let Some(order) = a.cd_order.take() {
                a.entries = order.iter().map(|&k| a.entries[k].clone()).collect();
                b.locs = order.iter().map(|&k| b.locs[k].clone()).collect();
            }
            let y = Arc::new(b.bytes.clone());
            (b, y)
        })
        .collect();
    let go = |k: usize, first: usize, seq: Vec<Op>, l: &mut Local| -> R {
        let uses_fs = first == 1 || seq.iter().any(|o| matches!(o, Op::Fs | Op::FsClone));
        if uses_fs && seq.len() > depth_fs {
            return Ok(());
        }
        let (a, (b, bytes)) = (&archives[k], &built[k]);
        let mut comment = want_text(&a.comment, false, 0, &[]);
        let path = if uses_fs { Some(Scratch::new(bytes)) } else { None };
        let p = || path.as_ref().unwrap().0.clone();
        let job = async {
            let mut f: ZipFile = match first {
                0 => mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?.file().clone(),
                1 => fs::ZipFileReader::new(p()).await.map_err(|x| ek(&x))?.file().clone(),
                _ => seek::ZipFileReader::new(Cursor::new(bytes.as_slice())).await.map_err(|x| ek(&x))?.file().clone(),
            };
            check_file(&f, a, b, &comment, "opened")?;
            for (n, o) in seq.iter().enumerate() {
                let what = format!("step {n} of {seq:?} (first {first})");
                let with = (n + first) % 2 == 0;
                f = match o {
                    Op::Mem => {
                        let z = mem::ZipFileReader::from_raw_parts(bytes.to_vec(), f);
                        ensure!(z.data() == bytes.as_slice(), "{what}: data() differs");
                        read_all!(z, a, what, with);
                        z.file().clone()
                    }
                    Op::MemClone => {
                        let z = mem::ZipFileReader::from_raw_parts(bytes.to_vec(), f);
                        let y = z.clone();
                        drop(z);
                        ensure!(y.data() == bytes.as_slice(), "{what}: data() of a clone differs");
                        read_all!(y, a, what, with);
                        y.file().clone()
                    }
                    Op::Fs => {
                        let z = fs::ZipFileReader::from_raw_parts(p(), f);
                        ensure!(z.path() == p(), "{what}: path() differs");
                        read_all!(z, a, what, with);
                        z.file().clone()
                    }
                    Op::FsClone => {
                        let z = fs::ZipFileReader::from_raw_parts(p(), f);
                        let y = z.clone();
                        drop(z);
                        ensure!(y.path() == p(), "{what}: path() of a clone differs");
                        read_all!(y, a, what, with);
                        y.file().clone()
                    }
                    Op::Seek => {
                        let mut z = seek::ZipFileReader::from_raw_parts(Cursor::new(bytes.as_slice()), f);
                        read_all!(z, a, what, with);
                        let f = z.file().clone();
                        // The source comes back and can be opened again.
                        let src = z.into_inner();
                        ensure!(src.get_ref().len() == bytes.len(), "{what}: into_inner gives another source");
                        let z = seek::ZipFileReader::new(src).await.map_err(|x| format!("{what}: opened again: {}", ek(&x)))?;
                        check_file(z.file(), a, b, &want_text(&a.comment, false, 0, &[]), &what)?;
                        f
                    }
                    Op::SeekElsewhere => {
                        // The source is not at its start.
                        let mut src = Source::chunked(bytes, 3, false);
                        src.seek(SeekFrom::Start(bytes.len() as u64 / 2)).await.map_err(|x| x.to_string())?;
                        let mut z = seek::ZipFileReader::from_raw_parts(src, f);
                        read_all!(z, a, what, with);
                        z.file().clone()
                    }
                    Op::Clone => {
                        let g = f.clone();
                        drop(f);
                        g
                    }
                    Op::Rebuild => ZipFileBuilder::from(f).build(),
                    Op::Recomment => {
                        comment = Txt::utf8("changed");
                        ZipFileBuilder::from(f).comment("changed".into()).build()
                    }
                    Op::ReadAllMem => {
                        let z = mem::ZipFileReader::from_raw_parts(bytes.to_vec(), f.clone());
                        read_all!(z, a, what, !with);
                        f
                    }
                };
                check_file(&f, a, b, &comment, &what)?;
                l.step(1 + a.entries.len() as u64);
            }
            Ok::<(), Fail>(())
        };
        if uses_fs {
            rt(job)?;
        } else {
            exec_run(job).unwrap_or_else(|_| Err("stalled".into()))?;
        }
        l.state(&(k, first, &seq));
        l.sample(|| format!("archive {k}, first opened by reader {first}, then {seq:?}"));
        l.hit();
        Ok(())
    };
    ctx.each("reuse", seqs.total() * (na * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let (k, first) = (m.take(na), m.take(3));
        go(k, first, seqs.get(m.0).into_iter().map(|k| OPS[k]).collect(), l)
    });
    let two = Seqs { n: OPS.len() as u64, depth: 2 };
    ctx.each("scale", two.total() * (nscale * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let (k, first) = (na + m.take(nscale), m.take(3));
        let seq: Vec<Op> = two.get(m.0).into_iter().map(|k| OPS[k]).collect();
        // Files are opened once per entry.
        if archives[k].entries.len() > 10_000 && (seq.len() > 1 || matches!(seq.first(), Some(Op::Fs | Op::FsClone))) {
            return Ok(());
        }
        go(k, first, seq, l)
    });
    // The description of one copy of an archive used with every other reader while others are still alive.
    ctx.each("into-entry", (na * 4) as u64, |i, l| {
        let mut m = Mix(i);
        let k = m.take(na);
        let way = m.take(4);
        let (a, (_, bytes)) = (&archives[k], &built[k]);
        exec_run(async {
            let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
            for j in 0..a.entries.len() {
                let src = Source::chunked(bytes, [usize::MAX, 1, 7, 64][way], way % 2 == 1);
                let y = seek::ZipFileReader::from_raw_parts(src, z.file().clone());
                let mut r = y.into_entry(j).await.map_err(|x| format!("entry {j}: {}", ek(&x)))?;
                let mut v = vec![];
                r.read_to_end(&mut v).await.map_err(|x| format!("entry {j}: {x}"))?;
                ensure!(v == a.entries[j].data && r.compute_hash() == rz::crc(&v), "entry {j}: {}", diff(&a.entries[j].data, &v));
                l.step(2);
            }
            Ok::<(), Fail>(())
        })
        .unwrap_or_else(|_| Err("stalled".into()))?;
        l.state(&(k, way));
        l.hit();
        Ok(())
    });
    ctx.finish(
        "a description, however it was copied, rebuilt or moved between readers, lists the entries of the archive and opens each with its contents",
        &["the description is used with the bytes it was parsed from"],
    )
}
