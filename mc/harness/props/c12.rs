//! ZIP64 fields are resolved exactly where classic fields are saturated.
use super::c03::{check_random, check_stream, ent};
use super::common::*;
use crate::dev::{Sparse, SparseSource};
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, End64, A, C, E, K, O, U};
use async_zip::base::read::{seek, stream};
use futures_lite::io::{AsyncReadExt, BufReader};
use std::rc::Rc;
use std::sync::Arc;

/// The archive with everything not saturated in the classic end record replaced by other values in the ZIP64 one.
fn junk_end(a: &A, junk: u64) -> rz::Built {
    let mut b = rz::build(a);
    let (z, mask) = (b.z64.unwrap() as usize, a.end64.as_ref().unwrap().mask);
    // (bit, offset in the record, width)
    for (bit, o, w) in [(1u8, 16, 4), (2, 20, 4), (4, 24, 8), (8, 32, 8), (16, 40, 8), (32, 48, 8)] {
        if mask & bit == 0 {
            let mut v = [0u8; 8];
            v[..w].copy_from_slice(&b.bytes[z + o..z + o + w]);
            let v = u64::from_le_bytes(v).wrapping_add(junk);
            b.bytes[z + o..z + o + w].copy_from_slice(&v.to_le_bytes()[..w]);
        }
    }
    b
}
const RANDOM: [(Front, Attach, Style); 4] = [
    (Front::Mem, Attach::With, Style::Checked(0)),
    (Front::Seek, Attach::Without, Style::ToEnd),
    (Front::SeekBuf(50), Attach::Into, Style::ToEnd),
    (Front::SeekTokio, Attach::With, Style::Checked(1)),
];

/// An archive behind `gap` zeros, offsets included.
struct Far {
    data: Rc<Sparse>,
    offs: Vec<u64>,
}
fn far(a: &A, gap: u64, gap_cd: u64) -> Far {
    let mut s = Sparse::default();
    s.push_zeros(gap);
    let mut offs = vec![];
    let mut lens = vec![];
    for e in &a.entries {
        offs.push(s.len);
        let c = e.comp_bytes();
        s.push_bytes(&rz::lfh_bytes(e, c.len() as u64));
        s.push_bytes(&c);
        s.push_bytes(&rz::dd_bytes(e, c.len() as u64));
        lens.push(c.len() as u64);
    }
    s.push_zeros(gap_cd);
    let cd = s.len;
    for (i, e) in a.entries.iter().enumerate() {
        s.push_bytes(&rz::cdh_bytes(e, lens[i], offs[i]));
    }
    let size = s.len - cd;
    let (e, _, _) = rz::end_bytes(a, a.entries.len() as u64, cd, size, s.len);
    s.push_bytes(&e);
    Far { data: Rc::new(s), offs }
}

pub fn run(ctx: &Ctx) -> i32 {
    let two = || vec![ent(b"one", rz::STORED, b"first"), ent(b"two", rz::DEFLATE, b"second second")];
    // End records: every combination of saturated fields, whatever the other ZIP64 fields say.
    let junks = [0u64, 1, 0x10000, 0x1_0000_0000, u64::MAX, 0x8000_0000_0000_0000, 7];
    let disks = [0u32, 1, 0xFFFE];
    ctx.each("end", (64 * junks.len() * disks.len() * 4 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let mask = m.take(64) as u8;
        let junk = *m.of(&junks);
        let disk = *m.of(&disks);
        let ext = vec![b'e'; [0, 1, 20, 300][m.take(4)]];
        let mut a = A { entries: two(), comment: b"c".to_vec(), ..Default::default() };
        a.entries.truncate(m.take(3));
        a.end64 = Some(End64 { mask, ext });
        a.disk = disk;
        a.cd_disk = disk;
        // A disk number beyond 16 bits needs saturation in both places.
        if mask & 3 == 3 && disk == 0xFFFE {
            a.disk = 0x12345678;
            a.cd_disk = 0x12345678;
        }
        let b = junk_end(&a, junk);
        let bytes = Arc::new(b.bytes.clone());
        l.state(&h(&*bytes));
        l.sample(|| format!("mask {mask:06b}, other ZIP64 fields off by {junk:#x}, disk {disk}"));
        for (f, at, st) in RANDOM {
            check_random(&a, &b, &bytes, f, at, st, l)?;
        }
        l.hit();
        Ok(())
    });
    // Whatever the other fields of the ZIP64 structures say: the disks the locator counts, the versions of the record.
    let totals = [1u32, 0, 2, 0xFFFF, u32::MAX];
    let versions = [0x031Eu16, 0, 20, 45, 46, 62, 63, 0x0314, 0xFFFF];
    ctx.each("unused", (64 * totals.len() * versions.len() * versions.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let mask = m.take(64) as u8;
        let total = *m.of(&totals);
        let (made, need) = (*m.of(&versions), *m.of(&versions));
        let mut a = A { entries: two(), comment: b"c".to_vec(), ..Default::default() };
        a.entries.truncate(m.take(2) * 2);
        a.end64 = Some(End64 { mask, ext: vec![] });
        let mut b = rz::build(&a);
        let (z, at) = (b.z64.ok_or("no ZIP64 record")? as usize, b.eocd as usize);
        b.bytes[z + 12..z + 14].copy_from_slice(&made.to_le_bytes());
        b.bytes[z + 14..z + 16].copy_from_slice(&need.to_le_bytes());
        b.bytes[at - 4..at].copy_from_slice(&total.to_le_bytes());
        let bytes = Arc::new(b.bytes.clone());
        l.state(&h(&*bytes));
        for (f, at, st) in &RANDOM[..2] {
            check_random(&a, &b, &bytes, *f, *at, *st, l)
                .map_err(|x| Fail { msg: format!("{total} disks, made by {made:#x}, needs {need:#x}: {}", x.msg), ..x })?;
        }
        l.hit();
        Ok(())
    });
    // Central headers: every combination in two entries, the ZIP64 field before or after other fields.
    ctx.each("central", 16 * 16 * 4 * 3 * 2, |i, l| {
        let mut m = Mix(i);
        let mut a = A { entries: two(), ..Default::default() };
        for e in &mut a.entries {
            e.c64 = m.take(16) as u8;
        }
        let place = m.take(4);
        let claim = m.take(3);
        for e in &mut a.entries {
            e.z_last = place & 1 != 0;
            if place & 2 != 0 {
                e.cx = vec![(0x9999, b"other".to_vec()), (0x5455, vec![0; 9])];
            }
            // Sizes are only reported, so the uncompressed one can be anything that fits its field.
            match claim {
                0 => {}
                1 => e.rec_u = Some(if e.c64 & U != 0 { 0x1_2345_6789_ABCD } else { 0xFFFF_FFFE }),
                _ => e.rec_u = Some(if e.c64 & U != 0 { 0 } else { 1 }),
            }
            e.disk = 0;
        }
        if m.take(2) == 1 {
            a.end64 = Some(End64 { mask: 63, ext: vec![] });
        }
        let b = rz::build(&a);
        let bytes = Arc::new(b.bytes.clone());
        l.state(&h(&*bytes));
        for (f, at, st) in RANDOM {
            check_random(&a, &b, &bytes, f, at, st, l)?;
        }
        l.hit();
        Ok(())
    });
    // Values that are not needed behind those that are: an offset and a disk number of another place are not taken.
    let tails: [Vec<u8>; 8] = [vec![0], vec![1, 2, 3, 4], vec![0; 8], vec![1, 0, 0, 0, 0, 0, 0, 0], vec![0xFF; 8], vec![7; 12], vec![0; 12], vec![9; 33]];
    ctx.each("tails", (16 * 16 * tails.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let mut a = A { entries: two(), ..Default::default() };
        for e in &mut a.entries {
            e.c64 = m.take(16) as u8;
            e.l64 = e.c64 & (U | C);
        }
        for e in &mut a.entries {
            e.z_tail = tails[i as usize / 256 % tails.len()].clone();
        }
        m.take(tails.len());
        let last = m.take(2) == 1;
        for e in &mut a.entries {
            e.z_last = last;
            e.lx = vec![(0x9999, b"other".to_vec())];
            e.cx = e.lx.clone();
        }
        let b = rz::build(&a);
        let bytes = Arc::new(b.bytes.clone());
        l.state(&h(&*bytes));
        l.sample(|| format!("saturated {:04b} and {:04b}, {} further bytes", a.entries[0].c64, a.entries[1].c64, a.entries[0].z_tail.len()));
        for (f, at, st) in RANDOM {
            check_random(&a, &b, &bytes, f, at, st, l)?;
        }
        check_stream(&a, &b, &bytes, Front::Stream, Attach::With, Style::ToEnd, l)?;
        l.hit();
        Ok(())
    });
    // Values beyond 32 bits, metadata only: sizes, and an offset that no file has.
    let vals = [0u64, 5, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 1 << 40, u64::MAX - 1, u64::MAX];
    ctx.each("values", 16 * 9 * 9 * 9, |i, l| {
        let mut m = Mix(i);
        let c64 = m.take(16) as u8;
        let (u, c, o) = (*m.of(&vals), *m.of(&vals), *m.of(&vals));
        if (c64 & U == 0 && u > 0xFFFF_FFFE) || (c64 & C == 0 && c > 0xFFFF_FFFE) || (c64 & O == 0 && o > 0xFFFF_FFFE) {
            return Ok(());
        }
        let mut e = ent(b"n", rz::STORED, b"xyz");
        e.c64 = c64;
        e.rec_u = Some(u);
        e.rec_c = Some(c);
        e.disk = 3;
        let mut b = rz::lfh_bytes(&e, 3);
        b.extend(b"xyz");
        let cd = b.len() as u64;
        let h1 = rz::cdh_bytes(&e, 3, o);
        let n = h1.len() as u64;
        b.extend(h1);
        b.extend(rz::end_bytes(&A::default(), 1, cd, n, cd + n).0);
        let z = now(seek::ZipFileReader::new(futures_lite::io::Cursor::new(b))).map_err(|e| format!("{e:?}"))?;
        let g = &z.file().entries()[0];
        ensure!(
            (g.uncompressed_size(), g.compressed_size(), g.header_offset()) == (u, c, o),
            "saturated {c64:04b}: sizes {u:#x}/{c:#x} offset {o:#x} reported as {:#x}/{:#x}/{:#x}",
            g.uncompressed_size(),
            g.compressed_size(),
            g.header_offset()
        );
        ensure!(!z.file().zip64(), "zip64() without ZIP64 end records");
        l.state(&(c64, u, c, o));
        l.step(1);
        l.hit();
        Ok(())
    });
    // Local headers, streamed: every combination in two entries; claimed uncompressed sizes.
    ctx.each("local", 4 * 4 * 4 * 3 * 3, |i, l| {
        let mut m = Mix(i);
        let mut a = A { entries: two(), ..Default::default() };
        for e in &mut a.entries {
            e.l64 = m.take(4) as u8;
        }
        let place = m.take(4);
        let dd = [Dd::None, Dd::Sig, Dd::NoSig][m.take(3)];
        let claim = m.take(3);
        for e in &mut a.entries {
            e.z_last = place & 1 != 0;
            if place & 2 != 0 {
                e.lx = vec![(0x9999, b"other".to_vec())];
            }
        }
        a.entries[1].dd = dd;
        a.entries.push(ent(b"three", rz::STORED, b"3"));
        let b = rz::build(&a);
        let bytes = Arc::new(b.bytes.clone());
        l.state(&h(&*bytes));
        if claim == 0 {
            for (f, at, st) in [
                (Front::Stream, Attach::With, Style::ToEnd),
                (Front::StreamBuf(3), Attach::Without, Style::Chunk(3)),
                (Front::StreamTokio, Attach::With, Style::ToEnd),
            ] {
                check_stream(&a, &b, &bytes, f, at, st, l)?;
            }
        } else {
            // The same archive, uncompressed sizes claimed otherwise in the local headers.
            let mut c = a.clone();
            for e in &mut c.entries {
                e.rec_u = Some(if e.l64 & U != 0 { [0x1_2345_6789_ABCD, 0][claim - 1] } else { [0xFFFF_FFFE, 1][claim - 1] });
            }
            let b = rz::build(&c);
            let bytes = Arc::new(b.bytes.clone());
            let o = observe(Front::Stream, Attach::With, Style::ToEnd, &bytes)?;
            ensure!(o.entries.len() == 3 && o.end.is_ok(), "{} entries, {:?}", o.entries.len(), o.end);
            for (k, e) in c.entries.iter().enumerate() {
                let g = &o.entries[k];
                ensure!(g.data.as_ref().is_ok_and(|d| *d == e.data), "entry {k}: {:?}", g.data);
                if e.dd == Dd::None {
                    let gm = g.meta.as_ref().unwrap();
                    ensure!(
                        Some(gm.usize_) == e.rec_u && gm.csize == b.locs[k].csize,
                        "entry {k}: sizes {}/{}, recorded {:?}/{}",
                        gm.usize_,
                        gm.csize,
                        e.rec_u,
                        b.locs[k].csize
                    );
                }
            }
            l.step(3);
        }
        l.hit();
        Ok(())
    });
    // Positions beyond 4 GiB, really read from there.
    let gaps = [0u64, 0xFFFF_FF00, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 0x7_0000_0003];
    ctx.each("far", (gaps.len() * gaps.len() * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let (gap, gap_cd) = (*m.of(&gaps), *m.of(&gaps));
        let always = m.take(2) == 1;
        let mut a = A { entries: two(), ..Default::default() };
        // Saturate where needed, or everything.
        let mut off = gap;
        for e in &mut a.entries {
            e.c64 = if always {
                U | C | O | K
            } else if off >= 0xFFFF_FFFF {
                O
            } else {
                0
            };
            off += 200;
        }
        if gap == 0xFFFF_FF00 {
            // second entry may cross
            a.entries[1].c64 |= O;
        }
        a.end64 = Some(End64 { mask: if always { 63 } else { 32 }, ext: vec![] });
        let f = far(&a, gap, gap_cd);
        let mut z = now(seek::ZipFileReader::new(BufReader::new(SparseSource { data: f.data.clone(), pos: 0 }))).map_err(|e| format!("{e:?}"))?;
        ensure!(z.file().zip64() && z.file().entries().len() == 2, "{} entries", z.file().entries().len());
        for k in 0..2 {
            ensure!(z.file().entries()[k].header_offset() == f.offs[k], "entry {k} at {}, reported {}", f.offs[k], z.file().entries()[k].header_offset());
            let mut v = vec![];
            now(async {
                let mut r = z.reader_with_entry(k).await?;
                r.read_to_end_checked(&mut v).await
            })
            .map_err(|e| format!("entry {k}: {e:?}"))?;
            ensure!(v == a.entries[k].data, "entry {k}: {}", diff(&a.entries[k].data, &v));
        }
        l.state(&(gap, gap_cd, always));
        l.step(5);
        l.hit();
        Ok(())
    });
    // Sizes beyond 4 GiB in a stream.
    let lens = [0xFFFF_FFFFu64, 0x1_0000_0005];
    ctx.each("long-stream", lens.len() as u64 * 2, |i, l| {
        let mut m = Mix(i);
        let n = *m.of(&lens);
        let l64 = [U | C, C][m.take(2)];
        let mut e: E = ent(b"long", rz::STORED, b"");
        e.l64 = l64;
        e.rec_c = Some(n);
        e.rec_u = Some(if l64 & U != 0 { n } else { 77 });
        let t = ent(b"tail", rz::STORED, b"tail");
        let mut s = Sparse::default();
        s.push_bytes(&rz::lfh_bytes(&e, n));
        s.push_zeros(n);
        s.push_bytes(&rz::lfh_bytes(&t, 4));
        s.push_bytes(b"tail");
        s.push_bytes(&rz::cdh_bytes(&t, 4, 0));
        let z = stream::ZipFileReader::new(BufReader::with_capacity(1 << 16, SparseSource { data: Rc::new(s), pos: 0 }));
        now(async {
            let Some(mut r) = z.next_with_entry().await.map_err(|e| format!("{e:?}"))? else { bail!("no entry") };
            let g = r.reader_mut().entry();
            ensure!((g.compressed_size(), Some(g.uncompressed_size())) == (n, e.rec_u), "sizes {}/{}", g.compressed_size(), g.uncompressed_size());
            let z = r.skip().await.map_err(|e| format!("skip: {e:?}"))?;
            let Some(mut r) = z.next_without_entry().await.map_err(|e| format!("after {n} bytes: {e:?}"))? else { bail!("no second entry") };
            let mut v = vec![];
            r.reader_mut().read_to_end(&mut v).await.map_err(|e| format!("{e:?}"))?;
            ensure!(v == b"tail", "second entry {v:?}");
            Ok::<(), Fail>(())
        })?;
        l.step(4);
        l.hit();
        Ok(())
    });
    // Counts beyond 16 bits, and exactly 65535 entries with and without ZIP64.
    ctx.each("counts", 5, |i, l| {
        let (n, z) = [(65535u64, None), (65535, Some(63)), (65535, Some(0)), (65536, Some(12)), (65540, Some(63))][i as usize];
        let mut e = ent(b"", rz::STORED, b"");
        e.cx = vec![];
        let lf = rz::lfh_bytes(&e, 0);
        let ch = rz::cdh_bytes(&e, 0, 0);
        let mut b = lf.clone();
        for _ in 0..n {
            b.extend_from_slice(&ch);
        }
        let cd = lf.len() as u64;
        let here = b.len() as u64;
        let a = A { end64: z.map(|mask| End64 { mask, ext: vec![] }), ..Default::default() };
        b.extend(rz::end_bytes(&a, n, cd, here - cd, here).0);
        let f = now(seek::ZipFileReader::new(futures_lite::io::Cursor::new(b))).map_err(|e| format!("{e:?}"))?;
        ensure!(f.file().entries().len() as u64 == n, "{n} entries, {} found", f.file().entries().len());
        ensure!(f.file().zip64() == z.is_some(), "zip64()");
        l.step(n);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "reported values equal those the reference encoder put into the ZIP64 structure for saturated fields and into the classic field otherwise; entries are read from the resolved positions",
        &["a ZIP64 extra field starts with exactly the saturated values, in the order of the format"],
    )
}
