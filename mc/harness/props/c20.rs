//! Texts and fields that do not fit are refused, not truncated.
use super::c03::ent;
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, A};
use crate::wops::*;
use async_zip::base::read::mem;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::ZipEntryBuilder;
use futures_lite::io::AsyncWriteExt;
use std::sync::Arc;

const MAX: usize = 65535;
const DATA: &[u8] = b"the contents of the entry in question";

/// An entry whose texts or fields may not fit.
#[derive(Clone, Debug)]
struct X {
    kind: Kind,
    name: T,
    comment: T,
    /// Lengths of unknown extra fields' data.
    extra: Vec<usize>,
    /// What else is unusual about it (texts and contents aside).
    guise: usize,
}
fn text(k: usize, n: usize) -> T {
    match k {
        // n bytes in the header
        0 => T::Utf8("t".repeat(n)),
        1 => {
            // Multi-byte characters, so that a cut would show.
            let mut s = "é".repeat(n / 2);
            if n % 2 == 1 {
                s.push('x');
            }
            T::Utf8(s)
        }
        2 => T::Raw(vec![0xE9; n]),
        // n bytes as the alternative, text in a field
        3 => T::Alt("ü".into(), vec![0xFC; n]),
        // n bytes in a field
        _ => T::Alt("u".repeat(n.max(1)), b"short".to_vec()),
    }
}
/// Bytes of the Unicode field that a text needs.
fn field(t: &T, flag: bool) -> usize {
    match t {
        _ if flag => 0,
        T::Utf8(s) | T::Alt(s, _) if !s.is_empty() => 9 + s.len(),
        _ => 0,
    }
}
impl X {
    /// The errors that would be right; none if the entry has to be accepted.
    fn want(&self, mode: Mode) -> Vec<&'static str> {
        let flag = matches!(self.name, T::Utf8(_)) && matches!(self.comment, T::Utf8(_));
        let mut x = field(&self.name, flag) + field(&self.comment, flag) + self.extra.iter().map(|n| 4 + n).sum::<usize>();
        if matches!(self.kind, Kind::Stream | Kind::StreamPre) && mode != Mode::Never {
            // sizes and offset in the central header
            x += 28;
        }
        let mut v = vec![];
        if self.name.basic().len() > MAX {
            v.push("FileNameTooLarge");
        }
        if self.comment.basic().len() > MAX {
            v.push("CommentTooLarge");
        }
        if x > MAX {
            v.push("ExtraFieldTooLarge");
        }
        v
    }
    fn fields(&self) -> Vec<(u16, Vec<u8>)> {
        self.extra.iter().enumerate().map(|(i, n)| (0x9000 + i as u16, vec![i as u8 + 1; *n])).collect()
    }
    async fn write(&self, w: &mut ZipFileWriter<Vec<u8>>) -> Result<(), ZipError> {
        let mut look = wguised(WOp::new(self.kind, rz::STORED, "", DATA), self.guise);
        (look.name, look.comment, look.data) = (self.name.clone(), self.comment.clone(), Arc::new(DATA.to_vec()));
        let mut b = look.builder();
        if !self.extra.is_empty() {
            // Extra fields can only come from entries that were read: one source entry per field.
            let mut all = vec![];
            for f in self.fields() {
                let mut e = ent(b"s", rz::STORED, b"");
                e.cx = vec![f];
                let z = mem::ZipFileReader::new(rz::build(&A { entries: vec![e], ..Default::default() }).bytes).await?;
                all.extend(z.file().entries()[0].extra_fields().iter().cloned());
            }
            b = b.extra_fields(all);
        }
        match self.kind {
            Kind::Whole => w.write_entry_whole(b, DATA).await,
            Kind::WholePre => w.write_entry_whole_precompressed(b, DATA).await,
            Kind::Stream | Kind::StreamPre => {
                let mut s = if self.kind == Kind::Stream { w.write_entry_stream(b).await? } else { w.write_entry_stream_precompressed(b).await? };
                s.write_all(DATA).await?;
                s.close().await
            }
        }
    }
}
/// Writes `xs` with plain entries around them, and checks what became of each.
fn history(xs: &[X], mode: Mode, l: &mut Local) -> R {
    let plain =
        |k: usize| WOp::new(if k % 2 == 0 { Kind::Whole } else { Kind::Stream }, rz::STORED, &format!("plain-{k}"), format!("plain contents {k}").as_bytes());
    let mut w = writer(Vec::new(), mode);
    let mut want: Vec<Result<WOp, &X>> = vec![];
    let mut refused = false;
    now(apply(&mut w, &plain(0))).map_err(|e| format!("plain entry: {}", ek(&e)))?;
    want.push(Ok(plain(0)));
    for (i, x) in xs.iter().enumerate() {
        let errs = x.want(mode);
        let size = || format!("{:?} name {} comment {} fields {:?}", x.kind, x.name.basic().len(), x.comment.basic().len(), x.extra);
        let r = now(x.write(&mut w));
        l.step(1);
        match r {
            Ok(()) => {
                ensure!(errs.is_empty(), "entry {i} ({}) was accepted, expected {errs:?}", size());
                want.push(Err(x));
            }
            Err(e) => {
                let e = ek(&e);
                ensure!(errs.contains(&e.as_str()), "entry {i} ({}): {e}, expected {errs:?}", size());
                refused = true;
                l.hit();
            }
        }
        now(apply(&mut w, &plain(i + 1))).map_err(|e| format!("plain entry after {i}: {}", ek(&e)))?;
        want.push(Ok(plain(i + 1)));
    }
    let bytes = Arc::new(now(w.close()).map_err(|e| format!("close: {}", ek(&e)))?);
    let p = rz::parse(bytes.as_slice(), b"", true).map_err(|e| format!("archive unsound: {e}"))?;
    let o = observe(Front::Mem, Attach::With, Style::Checked(0), &bytes).map_err(|e| format!("open: {e}"))?;
    ensure!(o.entries.len() == want.len() && p.entries.len() == want.len(), "{} entries accepted, {} read", want.len(), o.entries.len());
    for (i, (w, e)) in want.iter().zip(&o.entries).enumerate() {
        let m = e.meta.as_ref().ok_or("no metadata")?;
        let d = e.data.as_ref().map_err(|x| format!("entry {i}: {x}"))?;
        let q = &p.entries[i];
        ensure!(m.off.map(|o| o.0) == Some(q.off) && m.csize == q.csize && m.usize_ == d.len() as u64, "entry {i}: {m:?}");
        match w {
            Ok(op) => {
                ensure!(*d == *op.data, "entry {i}: {}", diff(&op.data, d));
                op.check_meta(m).map_err(|x| format!("entry {i}: {x}"))?;
            }
            Err(x) => {
                ensure!(d == DATA, "entry {i}: {}", diff(DATA, d));
                ensure!(
                    q.name == x.name.basic() && q.comment == x.comment.basic(),
                    "entry {i}: stored texts of {} and {} bytes",
                    q.name.len(),
                    q.comment.len()
                );
                x.name.check(&m.name).map_err(|_| format!("entry {i}: name of {} bytes read as {}", x.name.basic().len(), m.name.bytes.len()))?;
                x.comment
                    .check(&m.comment)
                    .map_err(|_| format!("entry {i}: comment of {} bytes read as {}", x.comment.basic().len(), m.comment.bytes.len()))?;
                for (side, f) in [("local", &q.lx), ("central", &q.cx)] {
                    let f: Vec<_> = f.iter().filter(|f| f.0 >= 0x9000).cloned().collect();
                    ensure!(f == x.fields(), "entry {i}: {side} extra fields changed");
                }
            }
        }
    }
    l.state(&(mode as u8, p.entries.iter().map(|e| (e.name.len(), e.comment.len(), e.lx.len(), e.flags)).collect::<Vec<_>>(), refused));
    Ok(())
}
fn x(kind: Kind) -> X {
    X { kind, name: T::Utf8("name".into()), comment: T::Utf8(String::new()), extra: vec![], guise: 0 }
}
/// n bytes of text made of a unit, with padding before it.
fn fill(n: usize, unit: &str) -> String {
    "x".repeat(n % unit.len()) + &unit.repeat(n / unit.len())
}
/// Texts that something might trim, split or count by characters.
const UNITS: [&str; 10] = ["é", " ", "\0", "\n", "\r\n", "€", "😀", "a\u{301}", "/", "\u{FEFF}"];
fn close_comment(n: usize, unit: &str, ops: usize, mode: Mode, l: &mut Local) -> R {
    let c = fill(n, unit);
    let op = WOp::new(Kind::Whole, rz::STORED, "a", b"contents");
    let ops: Vec<WOp> = (0..ops).map(|_| op.clone()).collect();
    let r = now(archive(&ops, mode, Some(&c)));
    l.step(1);
    if n > MAX {
        l.hit();
        return match r {
            Err(ZipError::CommentTooLarge) => Ok(()),
            Err(e) => Err(format!("archive comment of {n} bytes: {}", ek(&e)).into()),
            Ok(_) => Err(format!("archive comment of {n} bytes accepted").into()),
        };
    }
    let bytes = r.map_err(|e| format!("archive comment of {n} bytes: {}", ek(&e)))?;
    let p = rz::parse(bytes.as_slice(), c.as_bytes(), true).map_err(|e| format!("archive comment of {n} bytes: {e}"))?;
    ensure!(p.entries.len() == ops.len(), "{} entries", p.entries.len());
    let o = observe(Front::Mem, Attach::With, Style::Checked(0), &Arc::new(bytes)).map_err(|e| format!("open: {e}"))?;
    let got = o.comment.ok_or("no comment")?;
    ensure!(got.bytes == c.as_bytes(), "archive comment of {n} bytes read as {}", got.bytes.len());
    ensure!(o.entries.len() == ops.len() && o.entries.iter().all(|e| e.data.as_deref() == Ok(b"contents".as_slice())), "entries differ");
    l.state(&("ac", n, unit));
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let top = 65538u64;
    // Every length of a name, a comment and an extra field.
    let stride = if ctx.thorough { 1 } else { 3 };
    let lens: Vec<usize> = (0..=top as usize).filter(|n| *n < 520 || *n > 65100 || n % stride == 0).collect();
    let nl = lens.len() as u64;
    ctx.each("lengths", nl * 3 * 4, |i, l| {
        let mut m = Mix(i);
        let mut e = x(*m.of(&KINDS));
        let n = lens[m.take(lens.len())];
        match m.take(3) {
            0 => e.name = text(0, n),
            1 => e.comment = text(0, n),
            _ if n > MAX => e.extra = vec![100, n - 108],
            _ => e.extra = vec![n.saturating_sub(4).max(1)],
        }
        history(&[e], Mode::Auto, l)
    });
    ctx.each("archive-comments", nl * 2, |i, l| {
        let mut m = Mix(i);
        let (n, k) = (*m.of(&lens), m.take(2));
        close_comment(n, if n % 2 == 0 { "é" } else { "c" }, k, Mode::Auto, l)
    });
    // Around the limit, with every encoding, in every mode.
    let mut near: Vec<usize> = vec![0, 1, 32767, 32768, 65536, 65537, 65540, 70000, 131070, 131071, 131072, 131073, 196608];
    near.extend(65490..=65535);
    let nn = near.len() as u64;
    ctx.each("encodings", nn * 4 * 3 * 2 * 5 * 5, |i, l| {
        let mut m = Mix(i);
        let mut e = x(*m.of(&KINDS));
        let mode = *m.of(&MODES);
        let n = *m.of(&near);
        let long_name = m.take(2) == 1;
        let k = m.take(5);
        let other = text(m.take(5), 3);
        if long_name {
            e.name = text(k, n);
            e.comment = other;
        } else {
            e.comment = text(k, n);
            e.name = other;
        }
        l.sample(|| format!("{:?} {mode:?} length {n} encoding {k}", e.kind));
        history(&[e], mode, l)
    });
    // Extra fields that only together do not fit.
    let parts: [usize; 6] = [1, 20, 28, 32750, 32763, 65000];
    let rest: Vec<usize> = (0..=40).collect();
    ctx.each("fields", 6 * 41 * 4 * 3 * 3, |i, l| {
        let mut m = Mix(i);
        let mut e = x(*m.of(&KINDS));
        let mode = *m.of(&MODES);
        let a = *m.of(&parts);
        let total = MAX + 4 - *m.of(&rest);
        // Two or three fields with `total` bytes including their headers.
        let b = (total - 8 - a).min(MAX - 4);
        e.extra = vec![a, b];
        match m.take(3) {
            1 => e.extra = vec![a, b - 10, 6],
            2 => e.name = T::Alt("ü".into(), b"u".to_vec()),
            _ => {}
        }
        history(&[e], mode, l)
    });
    // Archive comments around the limit with every mode and number of entries.
    ctx.each("archive-modes", nn * 3 * 4 * 10, |i, l| {
        let mut m = Mix(i);
        let n = *m.of(&near);
        let mode = *m.of(&MODES);
        let k = m.take(4);
        close_comment(n, m.of(&UNITS), k, mode, l)
    });
    // Names and comments made of such texts, and short ones ending in them.
    let mut sizes: Vec<usize> = vec![1, 2, 3, 4, 9, 255, 256, 257, 65536, 65537, 65539, 65540, 131070, 131072, 196605];
    sizes.extend(65530..=65535);
    let nz = sizes.len() as u64;
    ctx.each("texts", nz * 4 * 3 * 2 * 10 * 3, |i, l| {
        let mut m = Mix(i);
        let mut e = x(*m.of(&KINDS));
        let mode = *m.of(&MODES);
        let n = *m.of(&sizes);
        let name = m.take(2) == 1;
        let t = fill(n, m.of(&UNITS));
        let t = match m.take(3) {
            0 => T::Utf8(t),
            1 => T::Raw(t.into_bytes()),
            _ => T::Alt("ü".into(), t.into_bytes()),
        };
        if name {
            e.name = t;
        } else {
            e.comment = t;
        }
        history(&[e], mode, l)
    });
    // Whatever else the entry looks like.
    ctx.each("guises", (WGUISES.len() * 4 * 3 * 8) as u64, |i, l| {
        let mut m = Mix(i);
        let g = m.take(WGUISES.len());
        let mut e = x(*m.of(&KINDS));
        let mode = *m.of(&MODES);
        let o = wguised(WOp::new(e.kind, rz::STORED, "name", DATA), g);
        (e.guise, e.name, e.comment) = (g, o.name, o.comment);
        match m.take(8) {
            0 => e.comment = text(0, MAX),
            1 => e.comment = text(0, MAX + 1),
            2 => e.comment = text(2, MAX + 1),
            3 => e.name = text(0, MAX),
            4 => e.name = text(2, MAX + 1),
            5 => e.comment = text(0, MAX + 2000),
            6 => e.extra = vec![40000, 40000],
            _ => e.extra = vec![MAX - 4],
        }
        history(&[e], mode, l).map_err(|f| Fail { msg: format!("{}: {}", WGUISES[g].0, f.msg), ..f })
    });
    // Sequences of fitting and unfitting entries.
    let mut ab = vec![];
    for kind in KINDS {
        ab.push(x(kind));
        ab.push(X { name: text(0, MAX + 1), ..x(kind) });
        ab.push(X { comment: text(2, MAX + 1), ..x(kind) });
        ab.push(X { name: text(4, MAX - 8), ..x(kind) });
        ab.push(X { extra: vec![40000, 40000], ..x(kind) });
    }
    let seqs = Seqs { n: ab.len() as u64, depth: if ctx.thorough { 4 } else { 3 } };
    ctx.each("sequences", seqs.total() * 3, |i, l| {
        let mut m = Mix(i);
        let mode = *m.of(&MODES);
        let xs: Vec<X> = seqs.get(m.0).into_iter().map(|k| ab[k].clone()).collect();
        history(&xs, mode, l)
    });
    ctx.finish(
        "an entry or archive comment is refused with the error of the kind exactly when a length exceeds 65535, otherwise every byte of it is stored and read back; entries around a refused one are unaffected",
        &["the ZIP64 field that the writer adds to streamed entries counts against the extra fields", "a refused archive comment ends the writer, as close consumes it"],
    )
}
