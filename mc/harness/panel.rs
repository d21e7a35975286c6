//! Every reader front end of the library, reduced to one kind of observation.
use crate::exec::now;
use async_zip::base::read::{WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::error::ZipError;
use async_zip::{Compression, StringEncoding, ZipEntry, ZipFile, ZipString};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek, Cursor};
use std::io::IoSliceMut;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Txt {
    pub utf8: bool,
    pub bytes: Vec<u8>,
    pub alt: Option<Vec<u8>>,
}
impl Txt {
    pub fn of(z: &ZipString) -> Txt {
        Txt { utf8: matches!(z.encoding(), StringEncoding::Utf8), bytes: z.as_bytes().to_vec(), alt: z.alternative().map(|a| a.to_vec()) }
    }
    pub fn utf8(s: &str) -> Txt {
        Txt { utf8: true, bytes: s.as_bytes().to_vec(), alt: None }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Meta {
    pub name: Txt,
    pub comment: Txt,
    pub method: u16,
    pub crc: u32,
    pub csize: u64,
    pub usize_: u64,
    pub date: (i32, u32, u32, u32, u32, u32),
    pub iattr: u16,
    pub eattr: u32,
    pub perms: Option<u16>,
    /// Position and size of the header, as listed.
    pub off: Option<(u64, u64)>,
}
pub fn meta(e: &ZipEntry) -> Meta {
    let d = e.last_modification_date();
    Meta {
        name: Txt::of(e.filename()),
        comment: Txt::of(e.comment()),
        method: e.compression().into(),
        crc: e.crc32(),
        csize: e.compressed_size(),
        usize_: e.uncompressed_size(),
        date: (d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second()),
        iattr: e.internal_file_attribute(),
        eattr: e.external_file_attribute(),
        perms: e.unix_permissions(),
        off: None,
    }
}
pub fn dos_parts(date: u16, time: u16) -> (i32, u32, u32, u32, u32, u32) {
    (1980 + (date >> 9) as i32, (date >> 5 & 15) as u32, (date & 31) as u32, (time >> 11) as u32, (time >> 5 & 63) as u32, (time & 31) as u32 * 2)
}
/// A short name for an error, without text that may legitimately vary.
pub fn ek(e: &ZipError) -> String {
    match e {
        ZipError::UpstreamReadError(i) => format!("Io({:?})", i.kind()),
        e => {
            let s = format!("{e:?}");
            s
        }
    }
}
pub fn is_injected(e: &ZipError) -> bool {
    matches!(e, ZipError::UpstreamReadError(i) if is_injected_io(i))
}
pub fn is_injected_io(e: &std::io::Error) -> bool {
    crate::dev::looks_injected(e)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    ToEnd,
    Chunk(usize),
    /// read_to_end_checked after k bytes were read plainly
    Checked(usize),
    /// zero-length and vectored reads in between
    Zeros,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Attach {
    With,
    Without,
    Into,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Front {
    Mem,
    MemClone,
    Seek,
    /// futures BufReader of this capacity
    SeekBuf(usize),
    SeekTokio,
    Fs,
    Stream,
    StreamBuf(usize),
    StreamTokio,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub meta: Option<Meta>,
    pub data: Result<Vec<u8>, String>,
    pub hash: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub comment: Option<Txt>,
    pub zip64: Option<bool>,
    pub entries: Vec<Ent>,
    /// How the enumeration ended (streaming readers).
    pub end: Result<(), String>,
}

pub async fn read_plain<R: AsyncRead + Unpin>(r: &mut R, style: Style) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let err = |e: std::io::Error| ek(&ZipError::UpstreamReadError(e));
    match style {
        Style::ToEnd | Style::Checked(_) => {
            r.read_to_end(&mut out).await.map_err(err)?;
        }
        Style::Chunk(k) => {
            let mut b = vec![0xA5u8; k];
            loop {
                let n = r.read(&mut b).await.map_err(err)?;
                if n == 0 {
                    break;
                }
                out.extend_from_slice(&b[..n]);
            }
        }
        Style::Zeros => {
            let mut b = [0u8; 7];
            loop {
                if r.read(&mut b[..0]).await.map_err(err)? != 0 {
                    return Err("zero-length read returned data".into());
                }
                let n = r.read(&mut b).await.map_err(err)?;
                out.extend_from_slice(&b[..n]);
                if n == 0 {
                    break;
                }
                let (x, y) = b.split_at_mut(3);
                let n = r.read_vectored(&mut [IoSliceMut::new(&mut []), IoSliceMut::new(x), IoSliceMut::new(y)]).await.map_err(err)?;
                out.extend_from_slice(&b[..n]);
                if n == 0 {
                    break;
                }
            }
        }
    }
    // The end is stable.
    let mut b = [0u8; 3];
    if r.read(&mut b).await.map_err(err)? != 0 {
        return Err("data after the end of the entry".into());
    }
    Ok(out)
}
pub async fn read_without<R: AsyncBufRead + Unpin>(r: &mut ZipEntryReader<'_, R, WithoutEntry>, style: Style) -> Ent {
    let data = read_plain(r, style).await;
    Ent { meta: None, data, hash: Some(r.compute_hash()) }
}
pub async fn read_with<R: AsyncBufRead + Unpin>(r: &mut ZipEntryReader<'_, R, WithEntry<'_>>, style: Style) -> Ent {
    let m = meta(r.entry());
    if let Style::Checked(k) = style {
        let mut out = vec![0u8; k];
        let mut got = 0;
        while got < k {
            match r.read(&mut out[got..]).await {
                Ok(0) => break,
                Ok(n) => got += n,
                Err(e) => return Ent { meta: Some(m), data: Err(ek(&e.into())), hash: None },
            }
        }
        out.truncate(got);
        let before = out.len();
        let data = match r.read_to_end_checked(&mut out).await {
            Ok(n) if n + before == out.len() => Ok(out),
            Ok(n) => Err(format!("checked read reported {n} bytes, appended {}", out.len() - before)),
            Err(e) => Err(ek(&e)),
        };
        return Ent { meta: Some(m), data, hash: None };
    }
    let data = read_plain(r, style).await;
    Ent { meta: Some(m), data, hash: Some(r.compute_hash()) }
}
fn file_obs(f: &ZipFile) -> Obs {
    Obs { comment: Some(Txt::of(f.comment())), zip64: Some(f.zip64()), entries: vec![], end: Ok(()) }
}

thread_local! {
    static RT: tokio::runtime::Runtime =
        tokio::runtime::Builder::new_current_thread().max_blocking_threads(4).build().expect("runtime");
}
pub fn rt<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|r| r.block_on(f))
}

/// A file of this thread, in memory-backed scratch space, holding `bytes`.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(bytes: &[u8]) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::path::Path::new("/dev/shm");
        let base = if base.is_dir() { base.to_path_buf() } else { std::env::temp_dir() };
        let p = base.join(format!("mc-{}-{}.zip", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::write(&p, bytes).expect("scratch file");
        Scratch(p)
    }
    /// Leaves the file to the caller.
    pub fn keep(mut self) -> std::path::PathBuf {
        std::mem::take(&mut self.0)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if !self.0.as_os_str().is_empty() {
            let _ = std::fs::remove_file(&self.0);
        }
    }
}

pub async fn seek_entries<R>(z: async_zip::base::read::seek::ZipFileReader<R>, attach: Attach, style: Style, reopen: impl Fn() -> R) -> Obs
where
    R: AsyncBufRead + AsyncSeek + Unpin,
{
    let mut z = z;
    let mut o = file_obs(z.file());
    for i in 0..z.file().entries().len() {
        let off = place(&z.file().entries()[i]);
        let m0 = meta(&z.file().entries()[i]);
        let mut e = match attach {
            Attach::With => match z.reader_with_entry(i).await {
                Ok(mut r) => read_with(&mut r, style).await,
                Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
            },
            Attach::Without => match z.reader_without_entry(i).await {
                Ok(mut r) => read_without(&mut r, style).await,
                Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
            },
            Attach::Into => {
                let f = z.file().clone();
                let z2 = async_zip::base::read::seek::ZipFileReader::from_raw_parts(reopen(), f);
                match z2.into_entry(i).await {
                    Ok(mut r) => read_without(&mut r, style).await,
                    Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
                }
            }
        };
        fix_meta(&mut e, m0, off);
        o.entries.push(e);
    }
    o
}
pub fn place(e: &async_zip::StoredZipEntry) -> (u64, u64) {
    (e.header_offset(), e.header_size())
}
fn fix_meta(e: &mut Ent, m0: Meta, off: (u64, u64)) {
    if let Some(m) = &e.meta {
        if *m != m0 {
            e.data = Err(format!("entry attached to the reader differs from the list: {m:?} vs {m0:?}"));
        }
    }
    e.meta = Some(Meta { off: Some(off), ..m0 });
}

pub async fn stream_entries<R>(z: async_zip::base::read::stream::ZipFileReader<async_zip::base::read::stream::Ready<R>>, attach: Attach, style: Style) -> Obs
where
    R: AsyncBufRead + Unpin,
{
    let mut o = Obs { comment: None, zip64: None, entries: vec![], end: Ok(()) };
    let mut z = z;
    loop {
        if attach == Attach::With {
            match z.next_with_entry().await {
                Ok(None) => return o,
                Err(e) => {
                    o.end = Err(ek(&e));
                    return o;
                }
                Ok(Some(mut r)) => {
                    let e = read_with(r.reader_mut(), style).await;
                    let bad = e.data.is_err();
                    o.entries.push(e);
                    if bad {
                        o.end = Err("entry".into());
                        return o;
                    }
                    match r.done().await {
                        Ok(n) => z = n,
                        Err(e) => {
                            o.end = Err(format!("done: {}", ek(&e)));
                            return o;
                        }
                    }
                }
            }
        } else {
            match z.next_without_entry().await {
                Ok(None) => return o,
                Err(e) => {
                    o.end = Err(ek(&e));
                    return o;
                }
                Ok(Some(mut r)) => {
                    let e = read_without(r.reader_mut(), style).await;
                    let bad = e.data.is_err();
                    o.entries.push(e);
                    if bad {
                        o.end = Err("entry".into());
                        return o;
                    }
                    match r.done().await {
                        Ok(n) => z = n,
                        Err(e) => {
                            o.end = Err(format!("done: {}", ek(&e)));
                            return o;
                        }
                    }
                }
            }
        }
    }
}

pub fn observe(front: Front, attach: Attach, style: Style, bytes: &Arc<Vec<u8>>) -> Result<Obs, String> {
    use async_zip::base::read::{mem, seek, stream};
    let s = |e: ZipError| ek(&e);
    match front {
        Front::Mem | Front::MemClone => now(async {
            let mut z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(s)?;
            if front == Front::MemClone {
                z = z.clone();
            }
            let mut o = file_obs(z.file());
            for i in 0..z.file().entries().len() {
                let off = place(&z.file().entries()[i]);
                let m0 = meta(&z.file().entries()[i]);
                let mut e = if attach == Attach::With {
                    match z.reader_with_entry(i).await {
                        Ok(mut r) => read_with(&mut r, style).await,
                        Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
                    }
                } else {
                    match z.reader_without_entry(i).await {
                        Ok(mut r) => read_without(&mut r, style).await,
                        Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
                    }
                };
                fix_meta(&mut e, m0, off);
                o.entries.push(e);
            }
            Ok(o)
        }),
        Front::Seek => now(async {
            let z = seek::ZipFileReader::new(Cursor::new(bytes.as_slice())).await.map_err(s)?;
            Ok(seek_entries(z, attach, style, || Cursor::new(bytes.as_slice())).await)
        }),
        Front::SeekBuf(k) => now(async {
            let mk = || futures_lite::io::BufReader::with_capacity(k, Cursor::new(bytes.as_slice()));
            let z = seek::ZipFileReader::new(mk()).await.map_err(s)?;
            Ok(seek_entries(z, attach, style, mk).await)
        }),
        Front::SeekTokio => now(async {
            let mk = || tokio::io::BufReader::new(std::io::Cursor::new(bytes.as_slice()));
            let z = seek::ZipFileReader::with_tokio(mk()).await.map_err(s)?;
            Ok(seek_entries(z, attach, style, || tokio_util::compat::TokioAsyncReadCompatExt::compat(mk())).await)
        }),
        Front::Fs => observe_file(&Scratch::new(bytes).0, attach, style),
        Front::Stream => now(async { Ok(stream_entries(stream::ZipFileReader::new(Cursor::new(bytes.as_slice())), attach, style).await) }),
        Front::StreamBuf(k) => now(async {
            let r = futures_lite::io::BufReader::with_capacity(k, Cursor::new(bytes.as_slice()));
            Ok(stream_entries(stream::ZipFileReader::new(r), attach, style).await)
        }),
        Front::StreamTokio => now(async {
            let r = tokio::io::BufReader::with_capacity(16, std::io::Cursor::new(bytes.as_slice()));
            Ok(stream_entries(stream::ZipFileReader::with_tokio(r), attach, style).await)
        }),
    }
}

pub fn observe_file(path: &std::path::Path, attach: Attach, style: Style) -> Result<Obs, String> {
    let s = |e: ZipError| ek(&e);
    rt(async {
        let z = async_zip::tokio::read::fs::ZipFileReader::new(path).await.map_err(s)?;
        let mut o = file_obs(z.file());
        for i in 0..z.file().entries().len() {
            let off = place(&z.file().entries()[i]);
            let m0 = meta(&z.file().entries()[i]);
            let mut e = if attach == Attach::With {
                match z.reader_with_entry(i).await {
                    Ok(mut r) => read_with(&mut r, style).await,
                    Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
                }
            } else {
                match z.reader_without_entry(i).await {
                    Ok(mut r) => read_without(&mut r, style).await,
                    Err(e) => Ent { meta: None, data: Err(ek(&e)), hash: None },
                }
            };
            fix_meta(&mut e, m0, off);
            o.entries.push(e);
        }
        Ok(o)
    })
}

pub fn comp(m: u16) -> Compression {
    Compression::try_from(m).expect("supported method")
}
