//! Every completed archive is structurally sound for independent parsers.
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::comp;
use crate::refzip as rz;
use crate::wops::*;
use async_zip::base::write::ZipFileWriter;
use async_zip::ZipEntryBuilder;
use futures_lite::io::AsyncWriteExt;

/// Strict parse of the archive, and every entry against what was written.
fn sound(ops: &[&WOp], mode: Mode, comment: &[u8], bytes: &[u8], l: &mut Local) -> R {
    let p = rz::parse(bytes, comment, true)?;
    ensure!(p.entries.len() == ops.len(), "{} entries written, {} in the directory", ops.len(), p.entries.len());
    for (i, (e, op)) in p.entries.iter().zip(ops).enumerate() {
        op.check_parsed(e, bytes).map_err(|x| format!("entry {i} ({:?}): {x}", op.kind))?;
        let streamed = matches!(op.kind, Kind::Stream | Kind::StreamPre);
        ensure!((e.flags & 8 != 0) == streamed, "entry {i} ({:?}): flags {:#x}", op.kind, e.flags);
        ensure!(e.flags & !0x808 == 0, "entry {i}: flags {:#x}", e.flags);
        if e.flags & 0x800 != 0 {
            for t in [&e.name, &e.comment] {
                ensure!(std::str::from_utf8(t).is_ok(), "entry {i}: marked as UTF-8 but {t:x?}");
            }
        }
        for (t, id, basic) in [(&op.name, UPATH, &e.name), (&op.comment, UCOMM, &e.comment)] {
            for (side, x) in [("local", &e.lx), ("central", &e.cx)] {
                let f: Vec<&Vec<u8>> = x.iter().filter(|f| f.0 == id).map(|f| &f.1).collect();
                ensure!(f.len() <= 1, "entry {i}: {side} Unicode field repeated");
                if let Some(d) = f.first() {
                    let want = match t {
                        T::Utf8(s) | T::Alt(s, _) => s.as_bytes(),
                        T::Raw(b) => {
                            bail!("entry {i}: {side} Unicode field {d:x?} for raw text {b:x?}")
                        }
                    };
                    ensure!(**d == ufield(basic, want), "entry {i}: {side} Unicode field {d:x?}");
                }
            }
        }
        // The attributes are Unix ones; a parser must neither be told too little nor a version that does not exist.
        ensure!(e.made >> 8 == 3, "entry {i}: attributes of host {}", e.made >> 8);
        let least = match e.method {
            rz::DEFLATE => 20,
            rz::BZ => 46,
            rz::LZMA => 63,
            _ if e.name.ends_with(b"/") && matches!(op.name, T::Utf8(_)) => 20,
            _ => 10,
        };
        ensure!((least..=63).contains(&e.need), "entry {i}: method {} needs version {least}, the header says {}", e.method, e.need);
        if mode == Mode::Never {
            ensure!(!e.has_z64, "entry {i}: ZIP64 field although forbidden");
        }
        // Extra fields: nothing but what the library writes itself.
        for x in e.lx.iter().chain(e.cx.iter()) {
            ensure!([1, UPATH, UCOMM].contains(&x.0), "entry {i}: extra field {:#x}", x.0);
        }
    }
    match mode {
        Mode::Never => ensure!(!p.zip64, "ZIP64 end records although forbidden"),
        Mode::Force => ensure!(p.zip64, "no ZIP64 end records although forced"),
        // An entry with a ZIP64 field needs a ZIP64-capable parser anyway.
        Mode::Auto => {}
    }
    l.state(&h(&bytes));
    l.step(ops.len() as u64 + 1);
    l.hit();
    Ok(())
}
fn check(ops: &[&WOp], mode: Mode, comment: Option<&str>, l: &mut Local) -> R {
    let owned: Vec<WOp> = ops.iter().map(|o| (*o).clone()).collect();
    let b = now(archive(&owned, mode, comment)).map_err(|e| format!("writer refused: {e:?}"))?;
    sound(ops, mode, comment.unwrap_or("").as_bytes(), &b, l)
}

pub fn run(ctx: &Ctx) -> i32 {
    let ab = alphabet();
    let long = "comment ".repeat(40);
    let comments = [None, Some(""), Some("c"), Some(long.as_str())];
    // Histories.
    let seqs = Seqs { n: ab.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    ctx.each("histories", seqs.total() * 3, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let s = seqs.get(m.0);
        let ops: Vec<&WOp> = s.iter().map(|k| &ab[*k]).collect();
        l.sample(|| format!("{mode:?} {:?}", ops.iter().map(|o| (o.kind, o.method)).collect::<Vec<_>>()));
        check(&ops, mode, comments[s.len() % 4], l)
    });
    let short = Seqs { n: ab.len() as u64, depth: 2 };
    ctx.each("comments", short.total() * 3 * 4, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let c = *m.of(&comments);
        let s = short.get(m.0);
        let ops: Vec<&WOp> = s.iter().map(|k| &ab[*k]).collect();
        check(&ops, mode, c, l)
    });
    // The mode changed between entries.
    let three = Seqs { n: ab.len() as u64, depth: 3 };
    ctx.each("switches", three.total() * 81, |i, l| {
        let mut m = Mix(i);
        let at: Vec<usize> = (0..4).map(|_| m.take(3)).collect();
        let s = three.get(m.0);
        let ops: Vec<&WOp> = s.iter().map(|k| &ab[*k]).collect();
        if at[ops.len() + 1..].iter().any(|k| *k != 0) {
            return Ok(());
        }
        let b = now(async {
            let mut w = ZipFileWriter::new(Vec::new());
            for k in 0..=ops.len() {
                w = match at[k] {
                    0 => w,
                    1 => w.force_zip64(),
                    _ => w.force_no_zip64(),
                };
                if let Some(op) = ops.get(k) {
                    apply(&mut w, op).await?;
                }
            }
            w.close().await
        })
        .map_err(|e| format!("modes {at:?}: writer refused: {e:?}"))?;
        sound(&ops, Mode::Auto, b"", &b, l).map_err(|e| Fail { msg: format!("modes {at:?}: {}", e.msg), ..e })?;
        expect_contents(&std::sync::Arc::new(b), &ops, crate::panel::Front::Seek, crate::panel::Attach::With, crate::panel::Style::Checked(0))
    });
    // Every payload size and method, between two other entries.
    let sz = sizes(if ctx.thorough { 140_000 } else { 70_000 });
    let around = (WOp::new(Kind::Whole, rz::STORED, "p", b"p"), WOp::new(Kind::Stream, rz::DEFLATE, "q", b"qq"));
    ctx.each("sizes", sz.len() as u64 * FAST.len() as u64 * 4 * 3 * 4, |i, l| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let method = *m.of(&FAST);
        let n = *m.of(&sz);
        let mut op = WOp::new(kind, method, "e", &pattern(m.take(4), n));
        op.preset = n % 2 == 1;
        op.cut = if n % 3 == 0 { Cut::One } else { Cut::By(1000) };
        check(&[&around.0, &op, &around.1], mode, None, l)
    });
    let few = [0usize, 1, 100, 5000];
    ctx.each("methods", 6 * 4 * 3 * few.len() as u64, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&FULL);
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let op = WOp::new(kind, method, "e", &pattern(3, *m.of(&few)));
        check(&[&around.0, &op, &around.1], mode, None, l)
    });
    // Texts, dates and attributes.
    let texts = [
        T::Utf8("plain".into()),
        T::Utf8("".into()),
        T::Utf8("ü/日本".into()),
        T::Raw(vec![0xFF, 0x82]),
        T::Raw(vec![]),
        T::Raw(b"ascii".to_vec()),
        T::Alt("né".into(), b"n\xE9".to_vec()),
        T::Alt("same".into(), b"same".to_vec()),
        T::Alt("日本".into(), vec![]),
        T::Utf8("x".repeat(30000)),
    ];
    ctx.each("texts", 100 * 4 * 3 * 2 * 4, |i, l| {
        let mut m = Mix(i);
        let mut op = WOp::new(*m.of(&KINDS), rz::STORED, "", b"contents");
        let mode = *m.of(&MODES);
        op.name = m.of(&texts).clone();
        op.comment = m.of(&texts).clone();
        if m.take(2) == 1 {
            op.method = rz::DEFLATE;
        }
        let v = m.take(4);
        (op.date, op.time, op.iattr, op.eattr) = [(0, 0, 0, 0), (0xFFFF, 0xFFFF, 0xFFFF, 0xFFFF_FFFF), (0x1234, 0x5678, 0x9ABC, 0xDEF0_1234), (1, 2, 3, 4)][v];
        op.perms = if v == 3 { Some(0o100755) } else { None };
        check(&[&op, &around.0, &op], mode, None, l)
    });
    // Unusual in two respects at once, between other unusual entries.
    let nw = WGUISES.len();
    ctx.each("guises", (nw * nw * 4 * 3 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let (g, h) = (m.take(nw), m.take(nw));
        let kind = *m.of(&KINDS);
        let mode = *m.of(&MODES);
        let method = [rz::STORED, rz::DEFLATE][m.take(2)];
        let op = wguised(wguised(WOp::new(kind, method, "entry", b"contents of the entry"), g), h);
        let next = wguised(WOp::new(KINDS[(g + h) % 4], rz::STORED, "next", b"contents of the next one"), (g * 5 + h + 1) % nw);
        if !fits(&op) {
            return Ok(());
        }
        check(&[&op, &next, &op], mode, comments[g % 4], l).map_err(|f| Fail { msg: format!("{} and {}: {}", WGUISES[g].0, WGUISES[h].0, f.msg), ..f })
    });
    // How the contents of a streamed entry are cut and flushed.
    ctx.each("cuts", 9 * 9 * 16 * 2 * 4 * 2, |i, l| {
        let mut m = Mix(i);
        let (a, b) = (m.take(9), m.take(9));
        let flush = m.take(16) as u32;
        let close = m.take(2) == 1;
        let method = *m.of(&FAST);
        let kind = if m.take(2) == 1 { Kind::StreamPre } else { Kind::Stream };
        let mut op = WOp::new(kind, method, "cut", b"cut up??");
        op.cut = Cut::At(vec![a.min(b), a.max(b)]);
        op.flush = flush;
        op.close_first = close;
        check(&[&op, &around.1], Mode::Auto, Some("x"), l)?;
        check(&[&op, &around.0], Mode::Never, None, l)
    });
    // Many entries.
    let counts = [65534u64, 65535, 65536, 65537, 70000];
    ctx.each("counts", 5 * 2 * 2, |i, l| {
        let mut m = Mix(i);
        let n = *m.of(&counts);
        let stream = m.take(2) == 1;
        let mode = if m.take(2) == 1 { Mode::Force } else { Mode::Auto };
        let op = WOp::new(if stream { Kind::Stream } else { Kind::Whole }, rz::STORED, "n", b"x");
        let bytes = now(async {
            let mut w = writer(Vec::new(), mode);
            for _ in 0..n {
                apply(&mut w, &op).await?;
            }
            w.close().await
        })
        .map_err(|e| format!("{n} entries: {e:?}"))?;
        let ops: Vec<&WOp> = (0..n).map(|_| &op).collect();
        sound(&ops, mode, b"", &bytes, l)
    });
    // The tokio writer.
    ctx.each("tokio", ab.len() as u64 * ab.len() as u64 * 3, |i, l| {
        let mut m = Mix(i);
        let ops = [m.of(&ab).clone(), m.of(&ab).clone()];
        let mode = *m.of(&MODES);
        let bytes = now(async {
            let w = ZipFileWriter::with_tokio(Vec::<u8>::new());
            let mut w = match mode {
                Mode::Auto => w,
                Mode::Force => w.force_zip64(),
                Mode::Never => w.force_no_zip64(),
            };
            for op in &ops {
                apply(&mut w, op).await?;
            }
            w.comment("tokio".into());
            w.close().await
        })
        .map_err(|e| format!("tokio writer: {e:?}"))?
        .into_inner();
        sound(&[&ops[0], &ops[1]], mode, b"tokio", &bytes, l)
    });
    // The form of the descriptor of an entry that uses ZIP64.
    ctx.each("descriptor", 1, |_, l| {
        l.hit();
        let bytes = now(async {
            let mut w = ZipFileWriter::new(Vec::new());
            let mut s = w.write_entry_stream(ZipEntryBuilder::new("a".into(), comp(rz::DEFLATE))).await?;
            s.write_all(b"a").await?;
            s.close().await?;
            w.close().await
        })
        .map_err(|e| format!("{e:?}"))?;
        let p = rz::parse(bytes.as_slice(), b"", true)?;
        if p.entries[0].dd_short {
            return Err(Fail {
                key: Some("stream-zip64-descriptor-32bit"),
                msg: "an entry with a ZIP64 field has a data descriptor with 32-bit sizes, both saturated".into(),
            });
        }
        Ok(())
    });
    // The parser and the encoder of the harness against each other.
    ctx.each("parser", 7 * 2 * 2 * 3 * 3 * 2 * 3 * 2, |i, l| {
        let mut m = Mix(i);
        let method = *m.of(&super::c03::METHODS);
        let (dd, z64, end64) = (m.take(2) == 1, m.take(2) == 1, m.take(2) == 1);
        let data = pattern(3, [0, 10, 300][m.take(3)]);
        let text: &[u8] = [b"".as_slice(), b"some text", &[0xFF, 0]][m.take(3)];
        let n = [1, 3, 300][m.take(3)];
        let fields = if m.take(2) == 1 { vec![(0x9999, vec![1, 2, 3]), (0xCAFE, vec![])] } else { vec![] };
        if (z64 && dd) || (n == 300 && data.len() > 10) {
            return Ok(());
        }
        let mut e = super::c03::ent(b"name", method, &data).dd(if dd { rz::Dd::Sig } else { rz::Dd::None });
        e.comment = text.to_vec();
        e.cx = fields.clone();
        e.lx = fields;
        e.flags = 0x800;
        (e.date, e.time, e.iattr, e.eattr) = (0x5A21, 0x1234, 7, 0x81A4_0020);
        if z64 {
            (e.l64, e.c64) = (rz::U | rz::C, rz::U | rz::C | rz::O);
        }
        let a = rz::A {
            entries: (0..n)
                .map(|k| {
                    let mut e = e.clone();
                    e.name.extend(format!("{k}").as_bytes());
                    e
                })
                .collect(),
            comment: text.to_vec(),
            end64: end64.then(|| rz::End64 { mask: 0, ext: vec![] }),
            ..Default::default()
        };
        let b = rz::build(&a);
        let p = rz::parse(b.bytes.as_slice(), text, true).map_err(|x| format!("parser: {x}"))?;
        ensure!(p.zip64 == end64 && p.entries.len() == n, "parser: {} entries", p.entries.len());
        for ((q, e), at) in p.entries.iter().zip(&a.entries).zip(&b.locs) {
            let plain = |x: &[(u16, Vec<u8>)]| x.iter().filter(|f| f.0 != 1).cloned().collect::<Vec<_>>();
            ensure!(q.name == e.name && q.comment == e.comment && q.method == e.method && q.crc == rz::crc(&data), "parser: {q:?}");
            ensure!((q.csize, q.usize_, q.off, q.data, q.end) == (at.csize, data.len() as u64, at.lfh, at.data, at.end), "parser: {q:?}, {at:?}");
            ensure!((q.date, q.time, q.iattr, q.eattr) == (e.date, e.time, e.iattr, e.eattr), "parser: {q:?}");
            ensure!(plain(&q.lx) == e.lx && plain(&q.cx) == e.cx && q.has_z64 == z64, "parser: {q:?}");
            let stored = &b.bytes[at.data as usize..(at.data + at.csize) as usize];
            ensure!(method == rz::DEFLATE64 || rz::decode(method, stored)? == data, "parser: contents");
        }
        l.step(1);
        Ok(())
    });
    ctx.finish(
        "the archive parses with the strict independent parser: entries tile the file up to the directory, all lengths exact, local header, descriptor, central header and end records agree with each other and with what was written",
        &["histories without refused or abandoned entries", "descriptors of ZIP64 entries are accepted in the 32-bit saturated form the library writes (known finding)"],
    )
}
