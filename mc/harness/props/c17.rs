//! Names and comments are decoded as their encoding declares.
use super::c03::ent;
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::{ek, Txt};
use crate::refzip::{self as rz, A, E};
use async_zip::base::read::{mem, seek, stream};
use async_zip::error::ZipError;
use async_zip::{StringEncoding, ZipString};
use futures_lite::io::Cursor;

/// Is this valid UTF-8? Written out, independent of the standard library.
fn valid(mut b: &[u8]) -> bool {
    let cont = |x: u8| (0x80..=0xBF).contains(&x);
    while let Some(&c) = b.first() {
        let n = match c {
            0..=0x7F => 1,
            0xC2..=0xDF => 2,
            0xE0..=0xEF => 3,
            0xF0..=0xF4 => 4,
            _ => return false,
        };
        if b.len() < n || !b[1..n].iter().all(|x| cont(*x)) {
            return false;
        }
        let bad = match c {
            0xE0 => b[1] < 0xA0,
            0xED => b[1] > 0x9F,
            0xF0 => b[1] < 0x90,
            0xF4 => b[1] > 0x8F,
            _ => false,
        };
        if bad {
            return false;
        }
        b = &b[n..];
    }
    true
}
const ALPHA: [u8; 16] = [b'A', b'/', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xFF];

/// The accessors of one string agree with each other and with `want`.
fn check_string(z: &ZipString, want: &Txt) -> R {
    let got = Txt::of(z);
    ensure!(got == *want, "reported as {got:?}, expected {want:?}");
    if want.utf8 {
        ensure!(valid(&want.bytes), "reported as text although it is not UTF-8: {:x?}", want.bytes);
        match z.as_str() {
            Ok(s) => ensure!(s.as_bytes() == want.bytes, "as_str gives other bytes"),
            Err(e) => bail!("as_str of text fails: {}", ek(&e)),
        }
        match z.clone().into_string() {
            Ok(s) => ensure!(s.as_bytes() == want.bytes, "into_string gives other bytes"),
            Err(e) => bail!("into_string of text fails: {}", ek(&e)),
        }
    } else {
        ensure!(matches!(z.as_str(), Err(ZipError::StringNotUtf8)), "as_str of raw bytes {:x?} gives {:?}", want.bytes, z.as_str());
        ensure!(matches!(z.clone().into_string(), Err(ZipError::StringNotUtf8)), "into_string of raw bytes succeeds");
    }
    ensure!(z.is_utf8_without_alternative() == (want.utf8 && want.alt.is_none()), "is_utf8_without_alternative");
    ensure!(z.clone().into_alternative() == want.alt, "into_alternative");
    Ok(())
}
/// What the statement of the property says, with the validator above.
fn decode(basic: &[u8], flag: bool, id: u16, extra: &[(u16, Vec<u8>)]) -> Txt {
    if flag {
        return Txt { utf8: valid(basic), bytes: basic.to_vec(), alt: None };
    }
    for (i, d) in extra {
        if *i == id && d[0] == 1 && rz::g32(d, 1) == rz::crc(basic) && valid(&d[5..]) {
            return Txt { utf8: true, bytes: d[5..].to_vec(), alt: Some(basic.to_vec()) };
        }
    }
    Txt { utf8: basic.iter().all(|b| *b < 0x80), bytes: basic.to_vec(), alt: None }
}
fn check_entry(e: E, l: &mut Local) -> R {
    let flag = e.flags & 0x800 != 0;
    let name = decode(&e.name, flag, UPATH, &e.cx);
    let comment = decode(&e.comment, flag, UCOMM, &e.cx);
    let lname = decode(&e.name, e.lflags.unwrap_or(e.flags) & 0x800 != 0, UPATH, &e.lx);
    let what = format!("name {:x?}, comment {:x?}, flag {flag}, fields {:x?}", e.name, e.comment, e.cx);
    let bytes = rz::build(&A { entries: vec![e], ..Default::default() }).bytes;
    now(async {
        let z = seek::ZipFileReader::new(Cursor::new(bytes.as_slice())).await.map_err(|x| format!("{what}: {}", ek(&x)))?;
        let g = &z.file().entries()[0];
        check_string(g.filename(), &name).map_err(|f| format!("name of {what}: {}", f.msg))?;
        check_string(g.comment(), &comment).map_err(|f| format!("comment of {what}: {}", f.msg))?;
        match g.dir() {
            Ok(d) => ensure!(name.utf8 && d == (name.bytes.last() == Some(&b'/')), "{what}: dir() is {d}"),
            Err(ZipError::StringNotUtf8) => ensure!(!name.utf8, "{what}: dir() fails for text"),
            Err(x) => bail!("{what}: dir() gives {}", ek(&x)),
        }
        let s = stream::ZipFileReader::new(bytes.as_slice());
        let r = s.next_with_entry().await.map_err(|x| format!("{what}: {}", ek(&x)))?.ok_or("no entry")?;
        check_string(r.reader().entry().filename(), &lname).map_err(|f| format!("streamed name of {what}: {}", f.msg))?;
        Ok::<(), Fail>(())
    })?;
    l.state(&(name, comment, lname));
    l.step(3);
    l.hit();
    Ok(())
}
/// Variants of the Unicode field for stored bytes `basic`.
const FIELDS: usize = 14;
fn field(k: usize, id: u16, other: u16, basic: &[u8], text: &[u8]) -> Vec<(u16, Vec<u8>)> {
    let good = ufield(basic, text);
    let mut off = good.clone();
    off[1] ^= 1;
    let mut v2 = good.clone();
    v2[0] = 2;
    let mut v0 = good.clone();
    v0[0] = 0;
    let mut hi = good.clone();
    hi[4] ^= 0x80;
    match k {
        0 => vec![],
        1 => vec![(id, good)],
        2 => vec![(id, off)],
        3 => vec![(id, v2)],
        4 => vec![(other, good)],
        5 => vec![(id, off), (id, good)],
        6 => vec![(0x9999, vec![1, 2]), (id, good), (0x9998, vec![3])],
        7 => vec![(id, v0)],
        8 => vec![(id, hi)],
        // CRC of the text instead of the stored bytes
        9 => vec![(id, ufield(text, text))],
        10 => vec![(id, ufield(basic, &[text, b"\xC3"].concat()))],
        11 => vec![(id, good), (other, ufield(basic, b"other"))],
        12 => vec![(other, ufield(b"x", b"other")), (id, good)],
        _ => vec![(id, v2), (id, good)],
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    // Stored bytes: all short strings over the alphabet.
    let seqs = Seqs { n: ALPHA.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    let bytes_of = |s: Vec<usize>| -> Vec<u8> { s.into_iter().map(|k| ALPHA[k]).collect() };
    ctx.each("stored", seqs.total() * 2 * FIELDS as u64 * 2, |i, l| {
        let mut m = Mix(i);
        let flag = m.take(2) == 1;
        let k = m.take(FIELDS);
        let name = m.take(2) == 1;
        let b = bytes_of(seqs.get(m.0));
        let mut e = ent(b"", rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        let (id, other) = if name { (UPATH, UCOMM) } else { (UCOMM, UPATH) };
        let x = field(k, id, other, &b, "ü/名".as_bytes());
        if name {
            (e.name, e.comment) = (b, b"plain".to_vec());
        } else {
            (e.comment, e.name) = (b, b"plain".to_vec());
        }
        e.cx = x.clone();
        e.lx = x;
        l.sample(|| format!("{:x?} flag {flag} field variant {k}", if name { &e.name } else { &e.comment }));
        check_entry(e, l)
    });
    // Unicode text: all short strings over the alphabet, in name and comment, local and central.
    let base: [&[u8]; 3] = [b"", b"ascii", &[0xFF, 0x82]];
    ctx.each("unicode", seqs.total() * 3 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let basic = *m.of(&base);
        let name = m.take(2) == 1;
        let flag = m.take(2) == 1;
        let text = bytes_of(seqs.get(m.0));
        let mut e = ent(b"", rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        if name {
            e.name = basic.to_vec();
            e.cx = vec![(UPATH, ufield(basic, &text))];
        } else {
            e.name = b"n".to_vec();
            e.comment = basic.to_vec();
            e.cx = vec![(UCOMM, ufield(basic, &text))];
        }
        e.lx = e.cx.clone();
        check_entry(e, l)
    });
    // Name and comment together, local header different from the central one.
    let texts: [&[u8]; 8] = [b"", b"a", b"dir/", "ü".as_bytes(), &[0xC3], &[0x80], b"\x00\x7f", "名前/".as_bytes()];
    let uni: [&[u8]; 3] = [b"", "é/".as_bytes(), &[0xC3, 0x28]];
    ctx.each("both", 8 * 8 * 2 * 2 * 5 * 5 * 5 * 3, |i, l| {
        let mut m = Mix(i);
        let ks = [0usize, 1, 2, 4, 6];
        let mut e = ent(*m.of(&texts), rz::STORED, b"");
        e.comment = m.of(&texts).to_vec();
        e.flags = if m.take(2) == 1 { 0x800 } else { 0 };
        let lflag = m.take(2) == 1;
        e.lflags = Some(if lflag { 0x800 } else { 0 });
        let (kn, kc, kl) = (*m.of(&ks), *m.of(&ks), *m.of(&ks));
        let u = *m.of(&uni);
        // Fields of the other kind are for the other text, so they only match if both texts are equal: allowed, decided by the oracle.
        e.cx = field(kn, UPATH, 0x9999, &e.name, u);
        e.cx.extend(field(kc, UCOMM, 0x9999, &e.comment, u));
        e.lx = field(kl, UPATH, UCOMM, &e.name, u);
        check_entry(e, l)
    });
    // All strings of two bytes.
    ctx.each("pairs", 65536 * 2 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let (flag, name, with) = (m.take(2) == 1, m.take(2) == 1, m.take(2) == 1);
        let b = (m.0 as u16).to_le_bytes().to_vec();
        let mut e = ent(b"", rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        if with {
            // The text is the two bytes, too.
            e.cx = vec![(if name { UPATH } else { UCOMM }, ufield(&b, &b))];
            e.lx = e.cx.clone();
        }
        if name {
            e.name = b;
        } else {
            e.comment = b;
        }
        check_entry(e, l)
    });
    // Bytes that could be taken for a marker or be normalised away, around the stored text.
    let ends: [&[u8]; 16] =
        [b"", b"\xEF\xBB\xBF", b"\xFF\xFE", b"\xFE\xFF", b"\0", b" ", b"\n", b"\r\n", b".", b"./", b"../", b"\\", b"//", b"C:", b"\x1B(B", b"\xC2\xA0"];
    let mids: [&[u8]; 6] = [b"", b"a", b"dir/x", b"e\xCC\x81", b"\x81\x82", b"\xE9"];
    let ks = [0usize, 1, 2, 4, 9];
    ctx.each("marks", 16 * 16 * 6 * 2 * 2 * 5 * 3, |i, l| {
        let mut m = Mix(i);
        let b = [*m.of(&ends), *m.of(&mids), *m.of(&ends)].concat();
        let (flag, name) = (m.take(2) == 1, m.take(2) == 1);
        let k = *m.of(&ks);
        let text = match m.take(3) {
            0 => "ü/名".as_bytes().to_vec(),
            1 => b"\xEF\xBB\xBFplain ".to_vec(),
            _ => b.clone(),
        };
        let mut e = ent(b"", rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        let (id, other) = if name { (UPATH, UCOMM) } else { (UCOMM, UPATH) };
        e.cx = field(k, id, other, &b, &text);
        e.lx = e.cx.clone();
        if name {
            (e.name, e.comment) = (b, b"plain".to_vec());
        } else {
            (e.comment, e.name) = (b, b"plain".to_vec());
        }
        check_entry(e, l)
    });
    // One unusual sequence at every position of longer text.
    let odd: [&[u8]; 8] = [b"\x80", b"\xFF", "é".as_bytes(), "名".as_bytes(), "😀".as_bytes(), b"\xED\xA0\x80", b"\0", b"\xE5\x90"];
    const LONG: usize = 72;
    ctx.each("positions", (LONG * LONG) as u64 * 8 * 2 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let (n, at) = (m.take(LONG), m.take(LONG));
        if at > n {
            return Ok(());
        }
        let mut b = vec![b'x'; n];
        b.splice(at..at, m.of(&odd).iter().copied());
        let (flag, name, with) = (m.take(2) == 1, m.take(2) == 1, m.take(2) == 1);
        let mut e = ent(b"", rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        if with {
            e.cx = vec![(if name { UPATH } else { UCOMM }, ufield(&b, &b))];
            e.lx = e.cx.clone();
        }
        if name {
            e.name = b;
        } else {
            e.comment = b;
        }
        check_entry(e, l)
    });
    // Long names and comments, up to the longest a header can hold.
    let lens: Vec<usize> =
        (72..270).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16_384, 32_767, 32_768, 65_000, 65_500, 65_534, 65_535]).collect();
    ctx.each("long", lens.len() as u64 * 8 * 3 * 2 * 2 * 3, |i, l| {
        let mut m = Mix(i);
        let n = *m.of(&lens);
        let what = *m.of(&odd);
        let at = [0, n / 2, n - what.len()][m.take(3)];
        let mut b = vec![b'y'; n];
        b[at..at + what.len()].copy_from_slice(what);
        let (flag, name) = (m.take(2) == 1, m.take(2) == 1);
        let mut e = ent(b"", rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        let id = if name { UPATH } else { UCOMM };
        match m.take(3) {
            0 => {}
            // A text as long as the stored one.
            1 if n < 65_500 => e.cx = vec![(id, ufield(&b, &b))],
            // A short stored text with a long alternative.
            2 if n < 65_500 => {
                e.cx = vec![(id, ufield(b"short", &b))];
                b = b"short".to_vec();
            }
            _ => return Ok(()),
        }
        e.lx = e.cx.clone();
        if name {
            e.name = b;
        } else {
            e.comment = b;
        }
        check_entry(e, l)
    });
    // Every code point, surrogates included, in marked and unmarked names.
    ctx.each("points", 0x110000 * 2, |i, l| {
        let mut m = Mix(i);
        let flag = m.take(2) == 1;
        let c = m.0 as u32;
        let b = match c {
            0..=0x7F => vec![c as u8],
            0x80..=0x7FF => vec![0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
            0x800..=0xFFFF => vec![0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
            _ => vec![0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
        };
        let mut e = ent(&b, rz::STORED, b"");
        e.flags = if flag { 0x800 } else { 0 };
        e.cx = vec![(UCOMM, ufield(b"", &b))];
        check_entry(e, l)
    });
    // Strings built by the caller.
    let deep = Seqs { n: ALPHA.len() as u64, depth: if ctx.thorough { 6 } else { 5 } };
    ctx.each("built", deep.total() * 2, |i, l| {
        let mut m = Mix(i);
        let utf8 = m.take(2) == 1;
        let b = bytes_of(deep.get(m.0));
        let ok = valid(&b);
        ensure!(ok == std::str::from_utf8(&b).is_ok(), "harness: validators disagree on {b:x?}");
        let z = ZipString::new(b.clone(), if utf8 { StringEncoding::Utf8 } else { StringEncoding::Raw });
        check_string(&z, &Txt { utf8: utf8 && ok, bytes: b.clone(), alt: None })?;
        if utf8 && ok {
            let s = String::from_utf8(b.clone()).map_err(|_| "harness")?;
            check_string(&ZipString::from(s.as_str()), &Txt { utf8: true, bytes: b.clone(), alt: None })?;
            check_string(&ZipString::from(s.clone()), &Txt { utf8: true, bytes: b.clone(), alt: None })?;
            check_string(&ZipString::new_with_alternative(s, vec![0xFF, 1]), &Txt { utf8: true, bytes: b.clone(), alt: Some(vec![0xFF, 1]) })?;
        }
        check_string(&ZipString::new_with_alternative("t".into(), b.clone()), &Txt { utf8: true, bytes: b"t".to_vec(), alt: Some(b.clone()) })?;
        l.state(&(utf8, &b));
        l.step(1);
        l.hit();
        Ok(())
    });
    // The archive's own comment.
    let marked = 16 * 16 * 6;
    ctx.each("archive-comment", marked + seqs.total() + lens.len() as u64 * 24, |i, l| {
        let b = if i >= marked + seqs.total() {
            let mut m = Mix(i - marked - seqs.total());
            let what = *m.of(&odd);
            let k = m.take(3);
            let mut b = vec![b'z'; *m.of(&lens)];
            let at = [0, b.len() / 2, b.len() - what.len()][k];
            b[at..at + what.len()].copy_from_slice(what);
            b
        } else if i < marked {
            let mut m = Mix(i);
            [*m.of(&ends), *m.of(&mids), *m.of(&ends)].concat()
        } else {
            bytes_of(seqs.get(i - marked))
        };
        let bytes = rz::build(&A { comment: b.clone(), ..Default::default() }).bytes;
        let z = now(mem::ZipFileReader::new(bytes)).map_err(|x| ek(&x))?;
        let c = z.file().comment();
        ensure!(c.as_bytes() == b, "comment {b:x?} read as {:x?}", c.as_bytes());
        match c.as_str() {
            Ok(s) => ensure!(valid(s.as_bytes()) && s.as_bytes() == b, "comment {b:x?} as text"),
            Err(_) => ensure!(!matches!(c.encoding(), StringEncoding::Utf8), "text access to {b:x?} fails"),
        }
        l.state(&("ac", &b));
        l.step(1);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "each reported name and comment equals what the decoding rules give, and its accessors agree; text access never yields invalid UTF-8",
        &["duplicate Unicode fields whose first CRC match is invalid UTF-8 are left open"],
    )
}
