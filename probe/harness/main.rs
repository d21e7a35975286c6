//! Reads and writes archives with whatever the crate was built with, and prints what it observed.
//! The checker (mc, property C25) builds this in many configurations and judges the output.
mod alike;
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, ZipDateTimeBuilder, ZipEntryBuilder};
use futures_lite::future::block_on;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt, Cursor};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn head(e: &async_zip::ZipEntry) -> String {
    let m: u16 = e.compression().into();
    format!("{},{m},{:08x},{}", hex(e.filename().as_bytes()), e.crc32(), e.uncompressed_size())
}
/// Entries through a random-access reader.
macro_rules! random {
    ($z:expr) => {{
        match $z {
            Err(e) => format!("open-error {e:?}"),
            #[allow(unused_mut)]
            Ok(mut z) => {
                let mut s = String::new();
                for i in 0..z.file().entries().len() {
                    s += &head(&z.file().entries()[i]);
                    let mut v = vec![];
                    match z.reader_with_entry(i).await {
                        Err(e) => s += &format!(",refused {e:?}"),
                        Ok(mut r) => match r.read_to_end_checked(&mut v).await {
                            Err(e) => s += &format!(",failed {e:?}"),
                            Ok(_) => s += &format!(",{}", hex(&v)),
                        },
                    }
                    s += ";";
                }
                s
            }
        }
    }};
}
macro_rules! streamed {
    ($z:expr) => {{
        let mut z = $z;
        let mut s = String::new();
        loop {
            match z.next_with_entry().await {
                Err(e) => break s + &format!("error {e:?}"),
                Ok(None) => break s + "end",
                Ok(Some(mut r)) => {
                    let e = r.reader().entry();
                    let m: u16 = e.compression().into();
                    s += &format!("{},{m}", hex(e.filename().as_bytes()));
                    let mut v = vec![];
                    match r.reader_mut().read_to_end(&mut v).await {
                        Err(e) => break s + &format!(",failed {e:?}"),
                        Ok(_) => s += &format!(",{};", hex(&v)),
                    }
                    match r.skip().await {
                        Err(e) => break s + &format!("skip {e:?}"),
                        Ok(y) => z = y,
                    }
                }
            }
        }
    }};
}

fn main() {
    let dir = std::env::args().nth(1).expect("directory");
    // Methods.
    let mut on = vec![];
    for v in 0..=u16::MAX {
        match Compression::try_from(v) {
            Ok(c) => {
                let (a, b): (u16, u16) = (c.into(), (&c).into());
                println!("method {v} {a} {b}");
                on.push(c);
            }
            Err(ZipError::CompressionNotSupported(x)) if x == v => {}
            Err(e) => println!("method {v} {e:?}"),
        }
    }
    // Dates.
    for year in 1980..=2107 {
        let mut s = format!("dates {year}");
        for month in 0..16 {
            for day in 0..32 {
                let n = (month * 31 + day) as u32;
                let d = ZipDateTimeBuilder::new().year(year).month(month).day(day).hour(n % 24).minute(n % 60).second(n % 60).build();
                s += &format!(" {},{},{},{},{},{}", d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second());
                #[cfg(feature = "chrono")]
                match d.as_chrono().single() {
                    Some(c) => s += &format!("={}", c.timestamp()),
                    None => s += "=none",
                }
            }
        }
        println!("{s}");
    }
    // Reading.
    let mut files: Vec<_> = std::fs::read_dir(&dir).expect("directory").map(|e| e.unwrap().path()).collect();
    files.sort();
    for p in &files {
        let k = p.file_stem().unwrap().to_str().unwrap().to_string();
        let b = std::fs::read(p).unwrap();
        block_on(async {
            println!("read {k} mem {}", random!(mem::ZipFileReader::new(b.clone()).await));
            println!("read {k} seek {}", random!(seek::ZipFileReader::new(Cursor::new(&b[..])).await));
            println!("read {k} stream {}", streamed!(stream::ZipFileReader::new(&b[..])));
        });
        #[cfg(any(feature = "tokio", feature = "tokio-fs"))]
        tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
            println!("read {k} tokio-seek {}", random!(seek::ZipFileReader::with_tokio(std::io::Cursor::new(&b[..])).await));
            println!("read {k} tokio-stream {}", streamed!(stream::ZipFileReader::with_tokio(&b[..])));
        });
        #[cfg(feature = "tokio-fs")]
        tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
            println!("read {k} fs {}", random!(async_zip::tokio::read::fs::ZipFileReader::new(p).await));
        });
    }
    // Writing: all methods that can be written, one after another, each whole and streamed.
    for mode in 0..3 {
        for kind in 0..4 {
            let bytes = block_on(async {
                let mut out = vec![];
                let mut w = ZipFileWriter::new(&mut out);
                w = match mode {
                    0 => w,
                    1 => w.force_no_zip64(),
                    _ => w.force_zip64(),
                };
                for (n, c) in on.iter().enumerate() {
                    let v: u16 = c.into();
                    if v == 9 {
                        continue;
                    }
                    let name = format!("method {v}");
                    #[allow(unused_mut)]
                    let mut b = ZipEntryBuilder::new(name.into(), *c);
                    #[cfg(any(feature = "deflate", feature = "bzip2", feature = "zstd", feature = "lzma", feature = "xz"))]
                    {
                        // The largest encoders reserve much memory at their default level.
                        b = b.deflate_option(async_zip::DeflateOption::Other(1));
                    }
                    let data = data(n, kind);
                    if (kind + n) % 2 == 0 {
                        w.write_entry_whole(b, &data).await.expect("whole");
                    } else {
                        let mut e = w.write_entry_stream(b).await.expect("stream");
                        for c in data.chunks(37) {
                            e.write_all(c).await.expect("write");
                        }
                        if kind > 1 {
                            e.flush().await.expect("flush");
                        }
                        e.close().await.expect("close entry");
                    }
                }
                w.close().await.expect("close");
                out
            });
            println!("written {mode} {kind} {}", hex(&bytes));
        }
        #[cfg(any(feature = "tokio", feature = "tokio-fs"))]
        {
            let out = tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
                let mut out = std::io::Cursor::new(Vec::<u8>::new());
                let mut w = ZipFileWriter::with_tokio(&mut out);
                for (n, c) in on.iter().enumerate() {
                    let v: u16 = c.into();
                    if v != 9 {
                        let b = ZipEntryBuilder::new(format!("method {v}").into(), *c);
                        w.write_entry_whole(b, &data(n, 0)).await.expect("whole");
                    }
                }
                w.close().await.expect("close");
                out.into_inner()
            });
            println!("written {mode} tokio {}", hex(&out));
        }
    }
    // The rest.
    let mut files: Vec<_> = std::fs::read_dir(format!("{dir}-alike")).expect("directory").map(|e| e.unwrap().path()).collect();
    files.sort();
    let archives: Vec<Vec<u8>> = files.iter().map(|p| std::fs::read(p).unwrap()).collect();
    for s in alike::lines(&archives) {
        println!("{s}");
    }
    println!("done");
}
fn data(n: usize, kind: usize) -> Vec<u8> {
    (0..[0, 1, 100, 3000][kind] + n).map(|i| (i * 7 / 3 % 251) as u8).collect()
}
