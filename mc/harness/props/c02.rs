//! Entry and archive metadata survive a write-read round trip.
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip as rz;
use crate::wops::*;
use async_zip::error::ZipError;
use std::sync::Arc;

/// What every random-access reader reports about a written archive.
fn check(ops: &[WOp], comment: Option<&str>, bytes: Vec<u8>, fronts: &[Front], l: &mut Local) -> R {
    let bytes = Arc::new(bytes);
    for f in fronts {
        let o = observe(*f, Attach::With, Style::Checked(0), &bytes).map_err(|e| format!("{f:?}: open failed: {e}"))?;
        ensure!(o.entries.len() == ops.len(), "{f:?}: {} entries written, {} found", ops.len(), o.entries.len());
        for (i, (e, op)) in o.entries.iter().zip(ops).enumerate() {
            let m = e.meta.as_ref().ok_or("no metadata")?;
            op.check_meta(m).map_err(|x| format!("{f:?}: entry {i} ({:?}): {x}", op.kind))?;
            let off = m.off.unwrap_or((0, 0)).0 as usize;
            // The compressed size delimits the stored bytes, checked with an independent decoder.
            let nl = rz::g16(&bytes, off + 26) as usize + rz::g16(&bytes, off + 28) as usize;
            let at = off + 30 + nl;
            let stored = bytes.get(at..at + m.csize as usize).ok_or("compressed size beyond the archive")?;
            if op.method != rz::BZ {
                let d = rz::decode(op.method, stored).map_err(|x| format!("entry {i}: compressed size {}: {x}", m.csize))?;
                ensure!(d == *op.data, "entry {i}: the {} stored bytes decode to something else", m.csize);
            }
        }
        let c = o.comment.ok_or("no comment")?;
        let want = comment.unwrap_or("");
        ensure!(c.utf8 && c.bytes == want.as_bytes(), "archive comment {:?} read as {:?}", want, c);
        l.step(ops.len() as u64 + 1);
    }
    l.state(&h(&*bytes));
    Ok(())
}
fn round(ops: &[WOp], mode: Mode, comment: Option<&str>, fronts: &[Front], l: &mut Local) -> R {
    let b = now(archive(ops, mode, comment)).map_err(|e| format!("writer refused {mode:?} {ops:?}: {e:?}"))?;
    l.outcome(&b.len());
    l.hit();
    check(ops, comment, b, fronts, l)
}
const TWO: [Front; 2] = [Front::Mem, Front::Seek];

fn texts() -> Vec<T> {
    vec![
        T::Utf8("plain.txt".into()),
        T::Utf8("".into()),
        T::Utf8("ünï/日本語.txt".into()),
        T::Utf8("\u{10FFFF}\u{0}\n\\".into()),
        T::Utf8("x".repeat(300)),
        T::Utf8("a directory/".into()),
        T::Utf8("\u{FEFF}marked\u{FEFF}".into()),
        T::Utf8(" ./../spaces \t\r\n\0".into()),
        T::Utf8("C:\\dir\\".into()),
        T::Raw(b"\xEF\xBB\xBFraw/".to_vec()),
        T::Raw(b" \0/\0 ".to_vec()),
        T::Alt("é/".into(), b"\x82 \0".to_vec()),
        T::Raw(b"ascii raw".to_vec()),
        T::Raw(vec![]),
        T::Raw(vec![0x82, 0xA0, 0xFF, 0x00, 0x80]),
        T::Raw("é valid UTF-8 given as raw".as_bytes().to_vec()),
        T::Alt("naïve".into(), b"na\xEFve".to_vec()),
        T::Alt("ascii".into(), b"other".to_vec()),
        T::Alt("日本".into(), vec![]),
        T::Alt("same".into(), b"same".to_vec()),
        T::Alt("é".into(), "é".as_bytes().to_vec()),
        T::Alt("z".repeat(500), b"Z".repeat(200)),
    ]
}

pub fn run(ctx: &Ctx) -> i32 {
    // All 16-bit attribute, permission, date and time values, 1024 per archive.
    const PER: u64 = 1024;
    ctx.each("fields", 64 * 6 * 4, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let field = m.take(6);
        let base = m.take(64) as u64 * PER;
        let mut ops = vec![];
        for v in base..base + PER {
            let mut op = WOp::new(kind, rz::STORED, "f", &(v as u16).to_le_bytes());
            let v = v as u16;
            match field {
                0 => op.iattr = v,
                1 => op.eattr = v as u32,
                2 => op.eattr = (v as u32) << 16 | 0x5A5A,
                3 => {
                    op.eattr = 0x12345678;
                    op.perms = Some(v)
                }
                4 => op.date = v,
                _ => op.time = v,
            }
            // Neighbouring fields hold different values.
            if field != 0 {
                op.iattr = 0xA5C3;
            }
            ops.push(op);
        }
        round(&ops, MODES[(i % 3) as usize], None, &TWO[..1], l)
    });
    // Every bit and boundary of the wide fields.
    let wide: Vec<u32> = (0..32).map(|b| 1u32 << b).chain([0, !0, 0x7FFFFFFF, 0xFFFF, 0xFFFF0000]).collect();
    ctx.each("wide", (wide.len() * 4 * 3 * 3 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let name = ["w", "w/", "w.exe"][m.take(3)];
        let mut op = WOp::new(kind, rz::DEFLATE, name, if m.take(2) == 1 { b"" } else { b"wide" });
        op.perms = [None, Some(0o100644), Some(0)][m.take(3)];
        op.eattr = *m.of(&wide);
        round(&[op], mode, None, &TWO, l)
    });
    // All pairs of encodings of name and comment, alone and followed by another entry.
    let tx = texts();
    let n = tx.len();
    ctx.each("texts", (n * n * 4 * 3 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let name = m.of(&tx).clone();
        let comment = m.of(&tx).clone();
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let mut op = WOp::new(kind, rz::STORED, "", b"text");
        op.name = name;
        op.comment = comment;
        l.sample(|| format!("{kind:?} {mode:?} name {:?} comment {:?}", op.name, op.comment));
        let other = WOp::new(Kind::Whole, rz::DEFLATE, "other", b"other entry");
        let ops = match m.take(3) {
            0 => vec![op],
            1 => vec![op, other],
            _ => vec![other, op],
        };
        round(&ops, mode, Some("cömment"), &TWO, l)
    });
    // What the contents are says nothing about the metadata.
    let contents: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = [
            &b""[..],
            b"x",
            b"#!/bin/sh\nexit 0\n",
            b"MZ\x90\0",
            b"\x7fELF\x02\x01\x01",
            b"PK\x03\x04",
            b"<html>",
            b"../target",
            b"\xEF\xBB\xBFtext",
            b"\x1F\x8B\x08",
            b"line\r\nline\r\n",
        ]
        .iter()
        .map(|d| d.to_vec())
        .collect();
        for n in [16usize, 64, 65, 127, 255, 256, 300, 1024, 5000, 70_000] {
            v.extend((0..5).map(|k| pattern(k, n)));
            v.push((0..n).map(|k| b"plain text, ASCII only. "[k % 24]).collect());
        }
        v
    };
    let named = ["n", "n.txt", "n/", "n.exe", "n.sh", "n.zip", "n.tar.gz"];
    ctx.each("contents", (contents.len() * named.len() * 4 * 4 * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let mut op = WOp::new(kind, *m.of(&FAST), m.of(&named), b"");
        op.data = Arc::new(m.of(&contents).clone());
        (op.iattr, op.eattr) = [(0, 0), (1, 0o100644 << 16), (0, 0x20)][m.take(3)];
        if op.method == rz::BZ && op.data.len() > 5000 {
            return Ok(());
        }
        round(&[op, WOp::new(Kind::Whole, rz::STORED, "next", b"next")], MODES[(i % 3) as usize], None, &TWO[..1], l)
    });
    // Unusual in two respects at once, next to another unusual entry.
    let nw = WGUISES.len();
    ctx.each("guises", (nw * nw * 4 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let (g, h) = (m.take(nw), m.take(nw));
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let method = [rz::STORED, rz::DEFLATE][m.take(2)];
        let op = wguised(wguised(WOp::new(kind, method, "entry", b"contents of the entry"), g), h);
        let next = wguised(WOp::new(KINDS[(g + h) % 4], rz::STORED, "next", b"contents of the next one"), (g * 5 + h + 1) % nw);
        if !fits(&op) {
            return Ok(());
        }
        round(&[op, next], mode, Some("cömment"), &TWO, l).map_err(|f| Fail { msg: format!("{} and {}: {}", WGUISES[g].0, WGUISES[h].0, f.msg), ..f })
    });
    // Two entries, all pairs of texts as names: nothing leaks from one entry to the next.
    ctx.each("text-pairs", (n * n * 16) as u64, |i, l| {
        let mut m = Mix(i);
        let (a, b) = (m.of(&tx).clone(), m.of(&tx).clone());
        let mut x = WOp::new(*m.of(&KINDS), rz::STORED, "", b"first");
        let mut y = WOp::new(*m.of(&KINDS), rz::DEFLATE, "", b"second");
        x.comment = b.clone();
        x.name = a.clone();
        y.name = b;
        y.comment = a;
        x.perms = Some(0o755);
        y.date = 0x21;
        x.iattr = 1;
        round(&[x, y], Mode::Auto, None, &TWO[..1], l)
    });
    // Entries that leave any of their attributes at the default, behind and before such that do not: no attribute is inherited.
    ctx.each("defaults", 64 * 64 * 16 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let (ka, kb) = (*m.of(&KINDS), *m.of(&KINDS));
        let same = m.take(2) == 1;
        let method = [rz::STORED, rz::DEFLATE][m.take(2)];
        let (a, b) = (m.take(64), m.take(64));
        let make = |kind: Kind, set: usize, second: bool| {
            let v = if second && !same { 2u32 } else { 1 };
            let mut o = WOp::new(kind, method, if second { "b" } else { "a" }, b"default");
            (o.date, o.time) = (0, 0);
            if set & 1 > 0 {
                o.date = 0x2A21 + v as u16;
            }
            if set & 2 > 0 {
                o.time = 0x5A21 + v as u16;
            }
            if set & 4 > 0 {
                o.iattr = v as u16;
            }
            if set & 8 > 0 {
                o.eattr = 0x10 * v;
            }
            if set & 16 > 0 {
                o.perms = Some(0o640 + v as u16);
            }
            if set & 32 > 0 {
                o.comment = T::Utf8(format!("comment {v}"));
            }
            o
        };
        let ops = [make(ka, a, false), make(kb, b, true), make(ka, b, false)];
        round(&ops, MODES[(i / 7 % 3) as usize], None, &TWO[..1], l)
    });
    // Every short text of characters that could be given a meaning.
    const CHARS: &[char] = &['a', '/', '\\', '.', ' ', '\0', ':', 'ü', '\u{FEFF}', '\n', 'A', '~'];
    let shorts = Seqs { n: CHARS.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    ctx.each("short-texts", shorts.total() * 4, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let t: String = shorts.get(m.0).into_iter().map(|k| CHARS[k]).collect();
        let mut a = WOp::new(kind, rz::STORED, &t, b"contents");
        a.comment = T::Raw(t.as_bytes().to_vec());
        let mut b = WOp::new(kind, rz::DEFLATE, "other", b"contents of the other");
        b.name = T::Alt(t.clone(), t.chars().rev().map(|c| c as u8).collect());
        b.comment = T::Utf8(t.clone());
        l.state(&(kind, &t));
        round(&[a, b], MODES[(i / 4 % 3) as usize], Some(&t), if t.len() < 3 { &TWO } else { &TWO[..1] }, l)
    });
    // Name and comment lengths.
    let mut lens: Vec<usize> = (0..=if ctx.thorough { 3000 } else { 300 }).collect();
    lens.extend([511, 512, 513, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 32767, 32768, 65534, 65535]);
    ctx.each("lengths", (lens.len() * 4 * 4) as u64, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let which = m.take(4);
        let len = *m.of(&lens);
        let s: String = (0..len).map(|k| (b'a' + (k % 26) as u8) as char).collect();
        let raw: Vec<u8> = (0..len).map(|k| 0x80 | k as u8).collect();
        let mut op = WOp::new(kind, rz::STORED, "n", b"lengths");
        match which {
            0 => op.name = T::Utf8(s),
            1 => op.comment = T::Utf8(s),
            2 => op.name = T::Raw(raw),
            _ => op.comment = T::Raw(raw),
        }
        round(&[op, WOp::new(Kind::Whole, rz::STORED, "after", b"after")], MODES[(i % 3) as usize], None, &TWO[..1], l)
    });
    // Archive comments: all short ones over an alphabet, all lengths to 300, boundary lengths.
    let abc = ['a', 'é', '日', '\u{0}', 'P', 'K', ' ', '\n', '\u{FEFF}'];
    let seqs = Seqs { n: abc.len() as u64, depth: 4 };
    ctx.each("archive-comment-short", seqs.total() * 3, |i, l| {
        let mut m = Mix(i);
        let k = m.take(3);
        let c: String = seqs.get(m.0).into_iter().map(|j| abc[j]).collect();
        let ops = vec![WOp::new(Kind::Whole, rz::STORED, "n", b"x"); k];
        round(&ops, MODES[(i % 3) as usize], Some(&c), &TWO[..1], l)
    });
    ctx.each("archive-comment-length", (lens.len() * 3) as u64, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let len = *m.of(&lens);
        let s: String = (0..len).map(|k| (b'A' + (k % 26) as u8) as char).collect();
        let ops = [WOp::new(Kind::Whole, rz::STORED, "n", b"x"), WOp::new(Kind::Stream, rz::DEFLATE, "m", b"y")];
        round(&ops, mode, Some(&s), &TWO, l)
    });
    // The comment set last wins, and can be set at any time.
    ctx.each("archive-comment-time", 5 * 3, |i, l| {
        let mut m = Mix(i);
        let at = m.take(5);
        let mode = *m.of(&MODES);
        let ops = [WOp::new(Kind::Whole, rz::STORED, "n", b"x"), WOp::new(Kind::Stream, rz::DEFLATE, "m", b"y")];
        let b = now(async {
            let mut w = writer(Vec::new(), mode);
            for (k, op) in ops.iter().enumerate() {
                if at == k || at == 3 {
                    w.comment(if at == 3 && k == 0 { "replaced".into() } else { "kept".into() });
                }
                apply(&mut w, op).await?;
            }
            if at == 2 {
                w.comment("kept".into());
            }
            w.close().await
        })
        .map_err(|e: ZipError| format!("{e:?}"))?;
        check(&ops, if at == 4 { None } else { Some("kept") }, b, &TWO, l)
    });
    // Methods, sizes and CRCs of every kind of entry, with presets that must be replaced.
    let sz = sizes(70000);
    ctx.each("sizes", (sz.len() * 4 * 4 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let method = *m.of(&FAST);
        let mode = *m.of(&MODES);
        let preset = m.take(2) == 1;
        let n = *m.of(&sz);
        let mut op = WOp::new(kind, method, "s", &pattern(2, n));
        op.preset = preset;
        if n > 0 {
            op.cut = Cut::By(n / 2 + 1);
        }
        round(&[op], mode, None, &TWO[..1], l)
    });
    ctx.each("methods", (FULL.len() * 4) as u64, |i, l| {
        let mut m = Mix(i);
        let op = WOp::new(KINDS[m.take(4)], FULL[m.take(FULL.len())], "m", b"method");
        round(&[op], Mode::Auto, None, &TWO, l)
    });
    // Directories, and histories of entries with all different metadata.
    let alpha: Vec<WOp> = alphabet()
        .into_iter()
        .enumerate()
        .map(|(k, mut o)| {
            o.date = 0x21 + 37 * k as u16;
            o.time = 0x55 + 1021 * k as u16;
            o.iattr = k as u16;
            o.eattr = 0x01010101 * k as u32;
            o.perms = if k % 2 == 0 { Some(0o100600 + k as u16) } else { None };
            if k % 3 == 0 {
                o.comment = T::Utf8(format!("comment {k}"));
            }
            o
        })
        .collect();
    let seqs = Seqs { n: alpha.len() as u64, depth: if ctx.thorough { 4 } else { 3 } };
    ctx.each("histories", seqs.total() * 3, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let ops: Vec<WOp> = seqs.get(m.0).into_iter().map(|k| alpha[k].clone()).collect();
        round(&ops, mode, Some("h"), &TWO[..1], l)
    });
    ctx.each("dir", 4 * 4, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let (name, want) = [("d/", true), ("d", false), ("a/b/", true), ("/x", false)][m.take(4)];
        let b = now(archive(&[WOp::new(kind, rz::STORED, name, b"")], Mode::Auto, None)).map_err(|e| format!("{e:?}"))?;
        let z = now(async_zip::base::read::mem::ZipFileReader::new(b)).map_err(|e| format!("{e:?}"))?;
        l.step(1);
        ensure!(z.file().entries()[0].dir().ok() == Some(want), "dir() of {name:?}");
        Ok(())
    });
    // Texts that imitate the records which end an archive (see known_findings.txt).
    ctx.each("imitations", 2, |i, l| {
        let r = if i == 0 {
            round(&[WOp::new(Kind::Whole, rz::STORED, "n", b"x")], Mode::Auto, Some("see PK\u{5}\u{6} for details on this matter"), &TWO[..1], l)
        } else {
            let mut op = WOp::new(Kind::Whole, rz::STORED, "n", b"x");
            op.comment = T::Utf8("PK\u{6}\u{7}0123456789abcdef".into());
            round(&[op], Mode::Never, None, &TWO[..1], l)
        };
        r.map_err(|f| Fail { key: Some(if i == 0 { "eocd-signature-in-archive-comment" } else { "locator-lookalike-in-last-comment" }), msg: f.msg })
    });
    ctx.finish(
        "every field reported by the random-access readers equals the field given to the writer, for all values enumerated",
        &["an empty text with an alternative encoding is outside the property"],
    )
}
