//! All readers agree on every well-formed archive, whoever wrote it.
use super::common::*;
use crate::engine::*;
use crate::panel::*;
use crate::refzip::{self as rz, Built, Dd, End64, A, C, E, O, U};
use crate::wops::{cached_encode, pattern};
use std::sync::Arc;

pub fn check_random(a: &A, b: &Built, bytes: &Arc<Vec<u8>>, f: Front, at: Attach, st: Style, l: &mut Local) -> R {
    check_obs(a, b, observe(f, at, st, bytes), f, at, st, l)
}
/// What a random-access reader said about an archive.
pub fn check_obs(a: &A, b: &Built, o: Result<Obs, String>, f: Front, at: Attach, st: Style, l: &mut Local) -> R {
    let o = o.map_err(|e| format!("{f:?}: open failed: {e}"))?;
    let order: Vec<usize> = a.cd_order.clone().unwrap_or_else(|| (0..a.entries.len()).collect());
    ensure!(o.entries.len() == order.len(), "{f:?}: {} entries in the archive, {} found", order.len(), o.entries.len());
    for (k, &i) in order.iter().enumerate() {
        let (e, got) = (&a.entries[i], &o.entries[k]);
        let want = want_meta(e, b.locs[i].csize, b.locs[i].lfh);
        ensure!(got.meta.as_ref() == Some(&want), "{f:?}: entry {k}: metadata {:?}, expected {want:?}", got.meta);
        match &got.data {
            Err(x) => bail!("{f:?}/{at:?}/{st:?}: entry {k} (method {}): {x}", e.method),
            Ok(d) => ensure!(*d == e.data, "{f:?}/{at:?}/{st:?}: entry {k} (method {}): {}", e.method, diff(&e.data, d)),
        }
        if let Some(h) = got.hash {
            ensure!(h == want.crc, "{f:?}: entry {k}: hash {h:#x}, CRC {:#x}", want.crc);
        }
    }
    let c = Txt { utf8: std::str::from_utf8(&a.comment).is_ok(), bytes: a.comment.clone(), alt: None };
    ensure!(o.comment.as_ref() == Some(&c), "{f:?}: archive comment {:?}", o.comment);
    ensure!(o.zip64 == Some(a.end64.is_some()), "{f:?}: zip64() is {:?}", o.zip64);
    l.step(order.len() as u64 + 1);
    Ok(())
}
pub fn check_stream(a: &A, b: &Built, bytes: &Arc<Vec<u8>>, f: Front, at: Attach, st: Style, l: &mut Local) -> R {
    let o = observe(f, at, st, bytes)?;
    for (k, e) in a.entries.iter().enumerate() {
        if e.dd != Dd::None && e.method == rz::STORED {
            // Documented as unsupported.
            ensure!(o.entries.len() == k, "{f:?}: {} entries before an unsupported one at {k}", o.entries.len());
            ensure!(o.end.as_ref().is_err_and(|e| e.contains("FeatureNotSupported")), "{f:?}: stored entry with descriptor: {:?}", o.end);
            return Ok(());
        }
        let Some(got) = o.entries.get(k) else {
            bail!("{f:?}/{at:?}/{st:?}: entry {k} not reached: {:?}", o.end);
        };
        match &got.data {
            Err(x) => bail!("{f:?}/{at:?}/{st:?}: entry {k} (method {}): {x}", e.method),
            Ok(d) => ensure!(*d == e.data, "{f:?}/{at:?}/{st:?}: entry {k} (method {}): {}", e.method, diff(&e.data, d)),
        }
        if at == Attach::With {
            let m = got.meta.as_ref().ok_or("no metadata")?;
            check_stream_meta(e, b.locs[k].csize, m).map_err(|x| format!("{f:?}: entry {k}: {x}"))?;
        }
        if let Some(h) = got.hash {
            ensure!(h == rz::crc(&e.data), "{f:?}: entry {k}: hash {h:#x}");
        }
        l.step(2);
    }
    ensure!(o.entries.len() == a.entries.len(), "{f:?}: {} entries, expected {}", o.entries.len(), a.entries.len());
    ensure!(o.end.is_ok(), "{f:?}/{at:?}/{st:?}: stream ended with {:?}", o.end);
    Ok(())
}
/// Streaming of these is a known finding with a case of its own.
fn d64dd(e: &E) -> bool {
    e.method == rz::DEFLATE64 && e.dd != Dd::None
}
const RANDOM: [(Front, Attach, Style); 9] = [
    (Front::Mem, Attach::With, Style::Checked(0)),
    (Front::Mem, Attach::Without, Style::Chunk(7)),
    (Front::MemClone, Attach::With, Style::Zeros),
    (Front::Seek, Attach::With, Style::Checked(2)),
    (Front::Seek, Attach::Into, Style::ToEnd),
    (Front::Seek, Attach::Without, Style::Chunk(1)),
    (Front::SeekBuf(3), Attach::With, Style::Checked(1)),
    (Front::SeekBuf(64), Attach::Into, Style::Chunk(64)),
    (Front::SeekTokio, Attach::Without, Style::ToEnd),
];
const STREAM: [(Front, Attach, Style); 5] = [
    (Front::Stream, Attach::With, Style::ToEnd),
    (Front::Stream, Attach::Without, Style::Chunk(5)),
    (Front::StreamBuf(1), Attach::With, Style::Chunk(64)),
    (Front::StreamBuf(7), Attach::Without, Style::Zeros),
    (Front::StreamTokio, Attach::With, Style::ToEnd),
];
fn all(a: &A, fs: bool, l: &mut Local) -> R {
    let b = rz::build(a);
    let bytes = Arc::new(b.bytes.clone());
    l.state(&h(&*bytes));
    for (f, at, st) in RANDOM {
        check_random(a, &b, &bytes, f, at, st, l)?;
    }
    if fs {
        check_random(a, &b, &bytes, Front::Fs, Attach::With, Style::Checked(0), l)?;
        check_random(a, &b, &bytes, Front::Fs, Attach::Without, Style::ToEnd, l)?;
    }
    if a.entries.iter().all(|e| e.gap.is_empty() && !d64dd(e)) && a.gap_cd.is_empty() {
        for (f, at, st) in STREAM {
            check_stream(a, &b, &bytes, f, at, st, l)?;
        }
        if a.entries.iter().all(|e| e.dd == Dd::None || e.dd_keep) {
            check_stream(a, &b, &bytes, Front::Stream, Attach::With, Style::Checked(0), l)?;
            check_stream(a, &b, &bytes, Front::StreamBuf(2), Attach::With, Style::Checked(1), l)?;
        }
    }
    l.hit();
    Ok(())
}
pub const METHODS: [u16; 7] = [rz::STORED, rz::DEFLATE, rz::DEFLATE64, rz::BZ, rz::LZMA, rz::ZSTD, rz::XZ];
pub fn ent(name: &[u8], method: u16, data: &[u8]) -> E {
    let mut e = E::new(name, method, data);
    e.comp = Some(cached_encode(method, &Arc::new(data.to_vec())));
    e
}
fn extras(k: usize, name: &[u8], comment: &[u8]) -> Vec<(u16, Vec<u8>)> {
    match k {
        0 => vec![],
        1 => vec![(0x9999, vec![1, 2, 3, 4, 5])],
        2 => vec![(0x5455, vec![3; 9]), (UPATH, ufield(name, "ünicode/名前.bin".as_bytes()))],
        3 => vec![(UCOMM, ufield(comment, "cömment".as_bytes())), (0x7875, vec![0x5A; 300])],
        _ => vec![(0x4444, vec![]), (0x4445, vec![9])],
    }
}
/// The variants of entries combined into multi-entry archives.
pub fn variants() -> Vec<E> {
    let mut v = vec![];
    let text = pattern(3, 700);
    for m in METHODS {
        v.push(ent(b"plain", m, &text));
    }
    for (m, d) in [
        (rz::DEFLATE, Dd::Sig),
        (rz::DEFLATE, Dd::NoSig),
        (rz::ZSTD, Dd::Sig),
        (rz::BZ, Dd::NoSig),
        (rz::DEFLATE64, Dd::Sig),
        (rz::XZ, Dd::Sig),
        (rz::LZMA, Dd::NoSig),
    ] {
        v.push(ent(b"described", m, &pattern(1, 333)).dd(d));
    }
    v.push(ent(b"stored-dd", rz::STORED, b"stored with descriptor").dd(Dd::Sig));
    v.push(ent(b"", rz::STORED, b""));
    v.push(ent(b"empty-deflate", rz::DEFLATE, b"").dd(Dd::Sig));
    let mut e = ent(b"extras", rz::DEFLATE, &pattern(4, 90));
    e.lx = extras(1, b"", b"");
    e.cx = extras(3, b"", b"com");
    e.comment = b"com".to_vec();
    v.push(e);
    let mut e = ent(b"z64", rz::STORED, &pattern(4, 64));
    e.l64 = U | C;
    e.c64 = U | C | O;
    v.push(e);
    let mut e = ent("übung".as_bytes(), rz::STORED, b"utf8 flag");
    e.flags = 0x800;
    e.comment = "ü".as_bytes().to_vec();
    e.eattr = 0o100755 << 16;
    v.push(e);
    let mut e = ent(&[0xFF, 0x80], rz::DEFLATE, b"raw name");
    e.made = 0x0014;
    e.gap = b"PK\x03\x04 gap".to_vec();
    v.push(e);
    let mut e = ent(b"keep", rz::DEFLATE, &pattern(2, 50)).dd(Dd::Sig);
    e.dd_keep = true;
    v.push(e);
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    // One entry, all combinations of layout options.
    let dds = [Dd::None, Dd::Sig, Dd::NoSig];
    let datas = [0usize, 1, 200, 9000];
    let z64 = [(0u8, 0u8), (U | C, 0), (0, U | C), (U | C, U | C | O), (0, O), (U, C), (C, U | O)];
    let n = (7 * 3 * 5 * 5 * 2 * 4 * 7 * 2) as u64;
    ctx.each("single", n, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&METHODS);
        let dd = *m.of(&dds);
        let (lx, cx) = (m.take(5), m.take(5));
        let flag = m.take(2) == 1;
        let data = pattern(3, *m.of(&datas));
        let (l64, c64) = *m.of(&z64);
        let mut e = ent(b"dir/name.bin", method, &data).dd(dd);
        e.comment = if m.take(2) == 1 { b"comment".to_vec() } else { vec![] };
        if !ctx.thorough && data.len() == 9000 && (lx > 1 || cx > 1) {
            return Ok(());
        }
        e.lx = extras(lx, &e.name, &e.comment);
        e.cx = extras(cx, &e.name, &e.comment);
        if cx == 3 {
            e.cx.insert(0, (0x0a0a, vec![7]));
        }
        e.flags = if flag { 0x800 } else { 0 };
        (e.l64, e.c64) = (l64, c64);
        e.z_last = i % 2 == 1;
        l.sample(|| format!("method {method} {dd:?} extras {lx}/{cx} zip64 {l64:#x}/{c64:#x} {} bytes", data.len()));
        all(&A { entries: vec![e], ..Default::default() }, false, l)
    });
    // Two (thorough: three) entries of every kind, with all archive-level options.
    let v = variants();
    let ends = [None, Some(End64 { mask: 0, ext: vec![] }), Some(End64 { mask: 0b111100, ext: vec![0; 5] })];
    let comments: [Vec<u8>; 4] = [vec![], b"zip comment".to_vec(), pattern(3, 3000), vec![0xFF, 0xFE]];
    let nv = v.len();
    let depth = if ctx.thorough { 3 } else { 2 };
    let seqs = Seqs { n: nv as u64, depth };
    ctx.each("multi", seqs.total() * 3 * 4 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let end64 = m.of(&ends).clone();
        let comment = m.of(&comments).clone();
        let gap = m.take(2) == 1;
        let rev = m.take(2) == 1;
        let s = seqs.get(m.0);
        if s.len() == 3 && (gap || comment.len() > 100) {
            return Ok(());
        }
        let mut entries: Vec<E> = s.iter().map(|k| v[*k].clone()).collect();
        for (k, e) in entries.iter_mut().enumerate() {
            e.name.extend(format!("{k}").as_bytes());
            e.date = e.date.wrapping_add(k as u16);
        }
        let cd_order = if rev { Some((0..entries.len()).rev().collect()) } else { None };
        let a = A { entries, comment, end64, gap_cd: if gap { vec![0x50; 9] } else { vec![] }, cd_order, ..Default::default() };
        all(&a, i % 37 == 0, l)
    });
    // Every data size around the buffers in play, every method, descriptor or not.
    let sz = sizes(140_000);
    ctx.each("sizes", (sz.len() * 7 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&METHODS);
        let dd = *m.of(&dds);
        let n = *m.of(&sz);
        let e = ent(b"s", method, &pattern(if n > 2000 { 2 } else { 3 }, n)).dd(dd);
        let t = ent(b"tail", rz::DEFLATE, b"the next entry");
        all(&A { entries: vec![e, t], ..Default::default() }, n > 8000 && n < 9000, l)
    });
    // Entries of a megabyte and more, every method but the slow ones.
    let big = [(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) + 77, if ctx.thorough { (33 << 20) + 5 } else { (5 << 20) + 5 }];
    ctx.each("large", (big.len() * 4 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let method = [rz::STORED, rz::DEFLATE, rz::DEFLATE64, rz::ZSTD][m.take(4)];
        let dd = *m.of(&dds);
        let n = *m.of(&big);
        let e = ent(b"s", method, &pattern([2, 3][m.take(2)], n)).dd(dd);
        if method == rz::DEFLATE64 && dd != Dd::None {
            return Ok(());
        }
        let a = A { entries: vec![e, ent(b"tail", rz::DEFLATE, b"the next entry")], ..Default::default() };
        let b = rz::build(&a);
        let bytes = Arc::new(b.bytes.clone());
        for f in [Front::Mem, Front::Seek, Front::SeekTokio, Front::Fs] {
            check_random(&a, &b, &bytes, f, Attach::With, Style::Checked(0), l)?;
        }
        for (f, at, st) in [(Front::Stream, Attach::With, Style::ToEnd), (Front::StreamTokio, Attach::Without, Style::Chunk(100_000))] {
            check_stream(&a, &b, &bytes, f, at, st, l)?;
        }
        Ok(())
    });
    // Decoded names and comments shorter, as long as and longer than the stored ones, in either or both headers.
    ctx.each("texts", 5 * 5 * 5 * 4 * 3 * 3, |i, l| {
        let mut m = Mix(i);
        let (basic, name, comment) = (m.take(5), m.take(5), m.take(5));
        let place = m.take(4);
        let (dd, method) = (*m.of(&dds), [rz::STORED, rz::DEFLATE, rz::ZSTD][m.take(3)]);
        let mut e = ent(&[0x81, b'a', 0x82, b'b', 0x83, b'c', 0x84][..[1, 2, 3, 4, 7][basic]], method, b"data of the entry").dd(dd);
        e.comment = vec![0x94; [0, 1, 3, 4, 9][basic]];
        let x = |b: &[u8], k: usize| ufield(b, ["", "ä", "äx", "äö", "äöüßé/name"][k].as_bytes());
        let (n, c) = ((UPATH, x(&e.name, name)), (UCOMM, x(&e.comment, comment)));
        if place & 1 != 0 {
            e.cx = vec![n.clone(), c.clone()];
        }
        if place & 2 != 0 {
            e.lx = vec![c, n];
        }
        all(&A { entries: vec![e.clone(), ent(b"next", rz::DEFLATE, b"the next entry"), e], ..Default::default() }, i % 101 == 0, l)
    });
    // Unusual values of each header field, alone, twice and between other entries.
    let long = pattern(3, 65535).iter().map(|b| b'a' + b % 26).collect::<Vec<u8>>();
    let names: [&[u8]; 22] = [
        b"",
        b"a",
        b"plain",
        b"/",
        b"dir/",
        b"//",
        b"..",
        b"../up",
        b"/abs",
        b"\\",
        b"C:\\x",
        b".",
        b" ",
        b"\0",
        b"nul\0in",
        b"PK\x03\x04",
        b"PK\x01\x02",
        b"PK\x05\x06",
        b"\xFF",
        &long[..255],
        &long[..257],
        &long,
    ];
    let words = [0u16, 1, 10, 20, 45, 63, 255, 256, 0x031E, 0x0314, 0x7FFF, 0xFFFF];
    let dwords = [0u32, 1, 0x10, 0x20, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0o100644 << 16, 0o40755 << 16 | 0x10];
    ctx.each("values", (22 + 5 * 12 + 9) * 4 * 3 * 4 * 2, |i, l| {
        let mut m = Mix(i);
        let k = m.take(22 + 5 * 12 + 9);
        let (place, dd, method) = (m.take(4), *m.of(&dds), [rz::STORED, rz::DEFLATE, rz::ZSTD, rz::BZ][m.take(4)]);
        let data: &[u8] = [&b""[..], b"data of the entry"][m.take(2)];
        let mut e = ent(if k < 22 { names[k] } else { b"plain" }, method, data).dd(dd);
        match k {
            0..=21 => (),
            22..=33 => e.need = words[k - 22],
            34..=45 => e.made = words[k - 34],
            46..=57 => e.iattr = words[k - 46],
            58..=69 => e.date = words[k - 58],
            70..=81 => e.time = words[k - 70],
            _ => e.eattr = dwords[k - 82],
        }
        let p = ent(b"plain", rz::DEFLATE, b"another entry");
        let entries = match place {
            0 => vec![e],
            1 => vec![e.clone(), e],
            2 => vec![p.clone(), e, p],
            _ => vec![e.clone(), p.clone(), e, p],
        };
        all(&A { entries, ..Default::default() }, i % 50 == 0, l)
    });
    // Many entries.
    let counts: &[usize] = if ctx.thorough { &[10, 255, 256, 257, 1000, 65535] } else { &[10, 257, 1000] };
    ctx.each("counts", counts.len() as u64 * 2, |i, l| {
        let mut m = Mix(i);
        let z = m.take(2) == 1;
        let n = *m.of(counts);
        let entries: Vec<E> = (0..n).map(|k| ent(format!("e{k}").as_bytes(), if k % 2 == 0 { 0 } else { 8 }, &(k as u64).to_le_bytes())).collect();
        let end64 = if z { Some(End64 { mask: 63, ext: vec![] }) } else { None };
        all(&A { entries, end64, ..Default::default() }, n == 10, l)
    });
    // Values in the local header that only the descriptor and the central header correct.
    let wrong = [0u64, 1, 2, 5, 90, 0xFFFF_FFFE];
    ctx.each("local-sizes", 6 * 6 * 3 * 7 * 2 * 3 * 2, |i, l| {
        let mut m = Mix(i);
        let (lu, lc) = (*m.of(&wrong), *m.of(&wrong));
        let lcrc = [0, 1, 0xFFFF_FFFF][m.take(3)];
        let method = *m.of(&METHODS);
        let dd = [Dd::Sig, Dd::NoSig][m.take(2)];
        let data = pattern(3, [0, 5, 600][m.take(3)]);
        let mut e = ent(b"wrong", method, &data).dd(dd);
        e.dd_local = Some((lcrc, lu, lc));
        if m.take(2) == 1 {
            e.l64 = U | C;
        }
        all(&A { entries: vec![e.clone(), ent(b"next", rz::DEFLATE, b"the next entry"), e], ..Default::default() }, false, l)
    });
    // One archive after the other, in the same file, at the same address, of the same length: nothing of the last remains.
    let variants: Vec<A> = {
        let one = |name: &[u8], method: u16, data: &[u8]| A { entries: vec![ent(name, method, data)], ..Default::default() };
        let mut v =
            vec![one(b"a", rz::STORED, b"first"), one(b"b", rz::STORED, b"first"), one(b"a", rz::STORED, b"other"), one(b"a", rz::DEFLATE, b"deflated")];
        let mut forged = one(b"a", rz::STORED, &rz::forge(b"f", rz::crc(b"first")));
        forged.comment = b"".to_vec();
        v.push(forged);
        let two = [ent(b"a", rz::STORED, b"first"), ent(b"b", rz::DEFLATE, b"second")];
        v.push(A { entries: two.to_vec(), ..Default::default() });
        v.push(A { entries: two.to_vec(), cd_order: Some(vec![1, 0]), ..Default::default() });
        v.push(A { entries: vec![two[1].clone(), two[0].clone()], ..Default::default() });
        v.push(A { entries: two.to_vec(), comment: b"c".to_vec(), ..Default::default() });
        v.push(A { entries: two.to_vec(), end64: Some(End64 { mask: 63, ext: vec![] }), ..Default::default() });
        v.push(A::default());
        v
    };
    let nv = variants.len() as u64;
    ctx.each("succession", nv * nv * nv * 3, |i, l| {
        let mut m = Mix(i);
        let how = m.take(3);
        let path = Scratch::new(b"");
        for _ in 0..3 {
            let a = m.of(&variants);
            let b = rz::build(a);
            match how {
                // Overwritten, replaced by a new file, or kept in memory.
                0 => std::fs::write(&path.0, &b.bytes).expect("scratch file"),
                1 => {
                    let n = Scratch::new(&b.bytes).keep();
                    std::fs::rename(n, &path.0).expect("scratch file");
                }
                _ => {
                    let bytes = Arc::new(b.bytes.clone());
                    for (f, at, st) in RANDOM {
                        check_random(a, &b, &bytes, f, at, st, l)?;
                    }
                    if a.cd_order.is_none() {
                        for (f, at, st) in STREAM {
                            check_stream(a, &b, &bytes, f, at, st, l)?;
                        }
                    }
                    continue;
                }
            }
            let (at, st) = (Attach::With, Style::Checked(0));
            check_obs(a, &b, observe_file(&path.0, at, st), Front::Fs, at, st, l)?;
        }
        l.state(&i);
        l.hit();
        Ok(())
    });
    // Descriptors with 64-bit sizes: random access must work; streaming is a known finding.
    ctx.each("descriptor64", 2 * 6, |i, l| {
        let mut m = Mix(i);
        let dd = [Dd::Sig64, Dd::NoSig64][m.take(2)];
        let method = METHODS[1 + m.take(6)];
        let mut e = ent(b"d64", method, &pattern(3, 100)).dd(dd);
        e.l64 = U | C;
        e.c64 = U | C;
        let a = A { entries: vec![e, ent(b"t", rz::DEFLATE, b"tail")], ..Default::default() };
        let b = rz::build(&a);
        let bytes = Arc::new(b.bytes.clone());
        for (f, at, st) in RANDOM {
            check_random(&a, &b, &bytes, f, at, st, l)?;
        }
        check_stream(&a, &b, &bytes, Front::Stream, Attach::With, Style::ToEnd, l).map_err(|f| Fail { key: Some("stream-descriptor-64bit"), msg: f.msg })
    });
    ctx.each("deflate64-descriptor", 1, |_, l| {
        let a = A { entries: vec![ent(b"d64", rz::DEFLATE64, &pattern(3, 200)).dd(Dd::Sig), ent(b"t", rz::DEFLATE, b"tail")], ..Default::default() };
        let b = rz::build(&a);
        let bytes = Arc::new(b.bytes.clone());
        check_stream(&a, &b, &bytes, Front::Stream, Attach::With, Style::ToEnd, l).map_err(|f| Fail { key: Some("stream-deflate64-descriptor"), msg: f.msg })
    });
    ctx.finish(
        "metadata, contents and hash reported by each front end equal what the reference encoder put into the archive; streaming ends cleanly after the last entry",
        &["archives come from an independent encoder; gaps are outside the streaming reader's input language"],
    )
}
