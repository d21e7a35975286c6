//! Archives that need an unsupported feature are refused, not misread.
use super::c03::METHODS;
use super::common::*;
use crate::engine::*;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, End64, A, E};
use crate::wops::{cached_encode, pattern};
use std::sync::Arc;

const RANDOM: [(Front, Attach, Style); 6] = [
    (Front::Mem, Attach::With, Style::Checked(0)),
    (Front::Mem, Attach::Without, Style::Chunk(7)),
    (Front::Seek, Attach::With, Style::ToEnd),
    (Front::Seek, Attach::Into, Style::ToEnd),
    (Front::Seek, Attach::Without, Style::Checked(0)),
    (Front::SeekTokio, Attach::With, Style::Checked(1)),
];
const STREAM: [(Front, Attach, Style); 3] =
    [(Front::Stream, Attach::With, Style::ToEnd), (Front::Stream, Attach::Without, Style::Chunk(5)), (Front::StreamTokio, Attach::With, Style::ToEnd)];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Want {
    Read,
    /// The entry cannot be opened: unsupported feature.
    Feature,
    /// The archive cannot be opened (streaming: the entry cannot be): unsupported compression.
    Method,
}
fn is(e: &str, w: Want) -> bool {
    match w {
        Want::Read => false,
        Want::Feature => e.starts_with("FeatureNotSupported"),
        Want::Method => e.starts_with("CompressionNotSupported"),
    }
}
/// Every reader on an archive whose entry i is to be treated as `want[i]`.
fn judge(es: &[E], want: &[Want], fs: bool, l: &mut Local) -> R {
    let a = A { entries: es.to_vec(), ..Default::default() };
    let bytes = Arc::new(rz::build(&a).bytes);
    let mut fronts = RANDOM.to_vec();
    if fs {
        fronts.push((Front::Fs, Attach::With, Style::Checked(0)));
        fronts.push((Front::Fs, Attach::Without, Style::ToEnd));
    }
    for (f, at, st) in fronts {
        let o = match observe(f, at, st, &bytes) {
            Err(e) => {
                ensure!(want.contains(&Want::Method) && is(&e, Want::Method), "{f:?}: open: {e}, expected {want:?}");
                continue;
            }
            Ok(o) => o,
        };
        ensure!(!want.contains(&Want::Method), "{f:?}: archive with method {:?} was opened", es.iter().map(|e| e.method).collect::<Vec<_>>());
        ensure!(o.entries.len() == es.len(), "{f:?}: {} entries", o.entries.len());
        for (i, (e, w)) in es.iter().zip(want).enumerate() {
            let got = &o.entries[i];
            match (&got.data, w) {
                (Ok(d), Want::Read) => {
                    ensure!(*d == e.data, "{f:?}/{at:?}: entry {i} (method {}, flags {:#x}): {}", e.method, e.flags, diff(&e.data, d));
                    let m = got.meta.as_ref().ok_or("no metadata")?;
                    ensure!(m.method == e.method, "{f:?}: method {} reported as {}", e.method, m.method);
                }
                (Ok(_), _) => bail!("{f:?}/{at:?}: entry {i} (method {}, flags {:#x}) was read", e.method, e.flags),
                (Err(x), w) => ensure!(is(x, *w), "{f:?}/{at:?}: entry {i} (method {}, flags {:#x}): {x}, expected {w:?}", e.method, e.flags),
            }
        }
        l.step(1 + es.len() as u64);
    }
    for (f, at, st) in STREAM {
        let o = observe(f, at, st, &bytes)?;
        for (i, (e, w)) in es.iter().zip(want).enumerate() {
            let w = if *w == Want::Read && e.method == rz::STORED && e.dd != Dd::None { Want::Feature } else { *w };
            if w == Want::Read {
                let got = o.entries.get(i).ok_or(format!("{f:?}: entry {i} (flags {:#x}) not reached: {:?}", e.flags, o.end))?;
                match &got.data {
                    Ok(d) => ensure!(*d == e.data, "{f:?}: entry {i} (method {}, flags {:#x}): {}", e.method, e.flags, diff(&e.data, d)),
                    Err(x) => bail!("{f:?}: entry {i} (method {}, flags {:#x}): {x}", e.method, e.flags),
                }
            } else {
                ensure!(o.entries.len() == i, "{f:?}/{at:?}: entry {i} (method {}, flags {:#x}) was read", e.method, e.flags);
                let x = o.end.as_ref().err().ok_or(format!("{f:?}: clean end at entry {i}"))?;
                ensure!(is(x, w), "{f:?}: entry {i} (method {}, flags {:#x}): {x}, expected {w:?}", e.method, e.flags);
                break;
            }
        }
        l.step(1 + o.entries.len() as u64);
    }
    l.state(&(es.iter().map(|e| (e.method, e.flags)).collect::<Vec<_>>(), es.len()));
    l.hit();
    Ok(())
}
fn entry(name: &[u8], method: u16, flags: u16, data: &[u8]) -> E {
    let mut e = E::new(name, method, data);
    e.comp = Some(if METHODS.contains(&method) {
        if method == rz::DEFLATE64 {
            rz::encode(method, data)
        } else {
            cached_encode(method, &Arc::new(data.to_vec()))
        }
    } else {
        data.to_vec()
    });
    e.flags = flags & !8;
    if flags & 8 != 0 {
        e.dd = Dd::Sig;
    }
    e
}
fn want(method: u16, flags: u16) -> Want {
    if !METHODS.contains(&method) {
        Want::Method
    } else if flags & 1 != 0 {
        Want::Feature
    } else {
        Want::Read
    }
}
pub fn run(ctx: &Ctx) -> i32 {
    let text = pattern(3, 200);
    let other = || entry(b"other", rz::DEFLATE, 0, b"other contents");
    // Every value of the method field, alone and as second entry.
    ctx.each("methods", 65536 * 2, |i, l| {
        let mut m = Mix(i);
        let second = m.take(2) == 1;
        let method = m.0 as u16;
        let e = entry(b"m", method, 0, &text);
        l.sample(|| format!("method {method} -> {:?}", want(method, 0)));
        let w = want(method, 0);
        if second {
            judge(&[other(), e, other()], &[Want::Read, w, Want::Read], method < 100, l)
        } else {
            judge(&[e], &[w], method < 100, l)
        }
    });
    // Every value of the flags, stored and compressed.
    ctx.each("flags", 65536 * 2, |i, l| {
        let mut m = Mix(i);
        let method = if m.take(2) == 1 { rz::STORED } else { rz::DEFLATE };
        let flags = m.0 as u16;
        let data: &[u8] = if flags & 0x8000 == 0 { &text } else { b"" };
        judge(&[entry(b"f", method, flags, data), other()], &[want(method, flags), Want::Read], flags % 64 < 2, l)
    });
    // Each method with the flags that mean something, at every position.
    let bits = [0u16, 1, 8, 9, 0x800, 0x801, 2, 3, 6, 0x40, 0x41, 0x2000, 0x2001, 0x10, 0x20, 0xFFF6, 0xFFF7];
    ctx.each("both", 7 * 17 * 3 * 17, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&METHODS);
        let flags = *m.of(&bits);
        let at = m.take(3);
        let f2 = *m.of(&bits);
        // The streaming reader cannot pass a Deflate64 entry with a descriptor (known finding of C03).
        let flags = if method == rz::DEFLATE64 { flags & !8 } else { flags };
        let mut es = vec![entry(b"1", rz::DEFLATE, f2, b"first"), entry(b"2", rz::STORED, 0, b"second")];
        let mut ws = vec![want(rz::DEFLATE, f2), Want::Read];
        es.insert(at, entry(b"x", method, flags, &text));
        ws.insert(at, want(method, flags));
        judge(&es, &ws, false, l)
    });
    // Whatever else the entry looks like: without contents, a directory, without a name, with other fields and texts.
    let datas: [&[u8]; 4] = [b"", b"1", &text, &pattern(2, 70000)];
    let names: [&[u8]; 5] = [b"x", b"", b"d/", b"d/\xff", b"META-INF/MANIFEST.MF"];
    let fields: [Vec<(u16, Vec<u8>)>; 4] =
        [vec![], vec![(0x9901, vec![2, 0, b'A', b'E', 3, 8, 0])], vec![(0x0017, vec![2, 0, 1, 0x66, 0, 1, 0, 0])], vec![(0x5455, vec![1, 1, 2, 3, 4])]];
    let mut strange = METHODS.to_vec();
    strange.extend([1u16, 6, 10, 98, 99, 0xFFFF]);
    let sb = [0u16, 1, 8, 9, 0x800, 0x801, 0x41, 0x2041];
    ctx.each("shapes", strange.len() as u64 * 8 * 4 * 5 * 4 * 3 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&strange);
        let flags = *m.of(&sb);
        let data = *m.of(&datas);
        let name = *m.of(&names);
        let f = m.of(&fields);
        let at = m.take(3);
        let comment = m.take(2) == 1;
        let zip64 = m.take(2) == 1;
        if (method == rz::DEFLATE64 && flags & 8 != 0) || (flags & 0x800 != 0 && name.contains(&0xff)) {
            return Ok(());
        }
        if flags & 1 != 0 && !METHODS.contains(&method) {
            return Ok(());
        }
        let mut e = entry(name, method, flags, data);
        e.lx = f.clone();
        e.cx = f.clone();
        if comment {
            e.comment = b"a comment".to_vec();
        }
        if zip64 && flags & 8 == 0 {
            e.l64 = 3;
            e.c64 = 3;
            e.need = 45;
        }
        if name.ends_with(b"/") {
            e.eattr = 0x10 | 0o40755 << 16;
        }
        let mut es = vec![entry(b"1", rz::DEFLATE, 0, b"first"), entry(b"2", rz::STORED, 0, b"")];
        let mut ws = vec![Want::Read; 2];
        es.insert(at, e);
        ws.insert(at, want(method, flags));
        judge(&es, &ws, false, l)
    });
    let gm = [rz::STORED, rz::DEFLATE, rz::ZSTD, 1, 6, 97, 99, 0x100, 0xFFFF];
    let gf = [0u16, 1, 8, 9, 0x41];
    ctx.each("guises", (GUISES.len() * gm.len() * gf.len() * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let g = m.take(GUISES.len());
        let method = *m.of(&gm);
        let flags = *m.of(&gf);
        let at = m.take(3);
        if flags & 1 != 0 && !METHODS.contains(&method) {
            return Ok(());
        }
        let mut es = vec![guised(entry(b"1", rz::DEFLATE, 0, b"first"), (g + 1) % GUISES.len()), entry(b"2", rz::STORED, 0, b"")];
        let mut ws = vec![Want::Read; 2];
        es.insert(at, guised(entry(b"x", method, flags, &text), g));
        ws.insert(at, want(method, flags));
        judge(&es, &ws, true, l).map_err(|f| Fail { msg: format!("{}: {}", GUISES[g].0, f.msg), ..f })
    });
    // Two entries with any pair of methods, one of them unsupported.
    let some: Vec<u16> = (0..=20).chain(92..=99).chain([0xFF, 0x100, 0x108, 0x0800, 0x5D00, 0x8008, 0xFFFF]).collect();
    let ns = some.len() as u64;
    ctx.each("pairs", ns * ns * 4, |i, l| {
        let mut m = Mix(i);
        let (a, b) = (*m.of(&some), *m.of(&some));
        let f = [0u16, 1][m.take(2)];
        let g = [0u16, 1][m.take(2)];
        let (wa, wb) = (want(a, f), want(b, g));
        // An unsupported method may be reported before or instead of encryption: both are refusals.
        if (f == 1 && wa == Want::Method) || (g == 1 && wb == Want::Method) {
            return Ok(());
        }
        judge(&[entry(b"a", a, f, &text), entry(b"b", b, g, b"bb")], &[wa, wb], false, l)
    });
    // Disk numbers and counts of the end record.
    let disks: [u32; 8] = [0, 1, 2, 7, 0x7FFF, 0xFFFE, 0xFFFF, 0x10000];
    let counts: [Option<i64>; 7] = [None, Some(-1), Some(1), Some(-3), Some(255), Some(65533 - 3), Some(60000)];
    ctx.each("disks", 8 * 8 * 7 * 7 * 3 * 65, |i, l| {
        let mut m = Mix(i);
        let (disk, cd_disk) = (*m.of(&disks), *m.of(&disks));
        let (cd, ct) = (*m.of(&counts), *m.of(&counts));
        let n = [0usize, 1, 3][m.take(3)];
        let mask = m.take(65);
        let count = |c: Option<i64>| c.map(|d| (n as i64 + d).max(0) as u64);
        let es: Vec<E> = (0..n).map(|k| entry(format!("{k}").as_bytes(), rz::STORED, 0, b"contents")).collect();
        let mut a =
            A { entries: es, disk, cd_disk, count_disk: Some(count(cd).unwrap_or(n as u64)), count: Some(count(ct).unwrap_or(n as u64)), ..Default::default() };
        if mask < 64 {
            a.end64 = Some(End64 { mask: mask as u8, ext: vec![] });
        }
        // Values that the classic fields cannot hold need the ZIP64 record.
        let classic = |bit: usize, v: u64| mask == 64 || mask & bit == 0 || v > 0xFFFF && mask == 64;
        if (classic(1, 0) && disk > 0xFFFE) || (classic(2, 0) && cd_disk > 0xFFFE) {
            return Ok(());
        }
        let split = disk != cd_disk || a.count_disk != a.count;
        if !split && a.count != Some(n as u64) {
            // A wrong count is no unsupported feature.
            return Ok(());
        }
        let bytes = Arc::new(rz::build(&a).bytes);
        for f in [Front::Mem, Front::Seek] {
            match observe(f, Attach::With, Style::Checked(0), &bytes) {
                Ok(o) => {
                    ensure!(
                        !split,
                        "{f:?}: split archive opened: disk {disk}, directory on {cd_disk}, {:?} of {:?} entries, ZIP64 {mask:#x}",
                        a.count_disk,
                        a.count
                    );
                    ensure!(o.entries.len() == n && o.entries.iter().all(|e| e.data.as_deref() == Ok(b"contents".as_slice())), "{f:?}: entries differ");
                }
                Err(e) => ensure!(
                    split && is(&e, Want::Feature),
                    "{f:?}: disk {disk}, directory on {cd_disk}, {:?} of {:?} entries, ZIP64 {mask:#x}: {e}",
                    a.count_disk,
                    a.count
                ),
            }
        }
        l.state(&("disks", disk, cd_disk, a.count_disk, a.count, mask));
        l.step(2);
        l.hit();
        Ok(())
    });
    // Numbers and counts that differ in a single bit, or far beyond what an archive can have.
    let wide = |bits: u32| -> Vec<u64> {
        let mut v: Vec<u64> =
            (0..bits).flat_map(|b| [1u64 << b, (1 << b) - 1, (1 << b) + 1, u64::MAX >> (64 - bits) ^ 1 << b]).chain([u64::MAX >> (64 - bits)]).collect();
        v.sort();
        v.dedup();
        v
    };
    let (counts, disks) = (wide(64), wide(32));
    let (nc, nd) = (counts.len() as u64, disks.len() as u64);
    let single = vec![entry(b"a", rz::STORED, 0, b"contents")];
    ctx.each("wide", nc * nc + nd * nd, |i, l| {
        let (disk, cd_disk, cd, ct) = if i < nc * nc {
            (0, 0, counts[(i / nc) as usize], counts[(i % nc) as usize])
        } else {
            (disks[((i - nc * nc) / nd) as usize] as u32, disks[((i - nc * nc) % nd) as usize] as u32, 1, 1)
        };
        let split = disk != cd_disk || cd != ct;
        if !split && ct != 1 {
            return Ok(());
        }
        let a = A {
            entries: single.clone(),
            disk,
            cd_disk,
            count_disk: Some(cd),
            count: Some(ct),
            end64: Some(End64 { mask: 63, ext: vec![] }),
            ..Default::default()
        };
        let bytes = Arc::new(rz::build(&a).bytes);
        for f in [Front::Mem, Front::Seek] {
            match observe(f, Attach::With, Style::Checked(0), &bytes) {
                Ok(o) => {
                    ensure!(!split, "{f:?}: split archive opened: disk {disk}, directory on {cd_disk}, {cd} of {ct} entries");
                    ensure!(o.entries.len() == 1 && o.entries[0].data.as_deref() == Ok(b"contents".as_slice()), "{f:?}: entries differ");
                }
                Err(e) => ensure!(split && is(&e, Want::Feature), "{f:?}: disk {disk}, directory on {cd_disk}, {cd} of {ct} entries: {e}"),
            }
        }
        l.state(&("wide", disk, cd_disk, cd, ct));
        l.step(2);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "every value of the method field, of the flags, and combinations of disk numbers and counts: accepted with the right contents exactly when supported, else refused with the error for unsupported compression or features",
        &["local and central header agree on method and flags; bit 3 comes with a descriptor", "equal non-zero disk numbers are not refused by the library and not required to be"],
    )
}
