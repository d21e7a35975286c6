//! What must not depend on the features of the crate. The probe runs this in every configuration, the checker with all
//! features, and the lines are compared.
use async_zip::base::read::{mem, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::{AttributeCompatibility, Compression, StringEncoding, ZipDateTime, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipFileBuilder, ZipString};
use futures_lite::future::block_on;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};

fn date(d: &ZipDateTime) -> String {
    format!("{}-{}-{}T{}:{}:{}", d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second())
}
fn text(z: &ZipString) -> String {
    format!("{:?}/{:?}/{:02x?}/{:?}/{}", z.as_str().is_ok(), z.encoding(), z.as_bytes(), z.alternative(), z.is_utf8_without_alternative())
}
fn entry(e: &ZipEntry) -> String {
    let m: u16 = e.compression().into();
    format!(
        "{} {} {m} {:x} {} {} {} {:x} {:x} {:?} {:?} {:?} {:?}",
        text(e.filename()),
        text(e.comment()),
        e.crc32(),
        e.compressed_size(),
        e.uncompressed_size(),
        date(e.last_modification_date()),
        e.internal_file_attribute(),
        e.external_file_attribute(),
        e.unix_permissions(),
        e.attribute_compatibility(),
        e.extra_fields(),
        e.dir().ok(),
    )
}
/// A panic is an observation, too.
fn tried(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}
fn read(b: &[u8]) -> String {
    tried(|| read_now(b))
}
fn streamed(b: &[u8]) -> String {
    tried(|| streamed_now(b))
}
fn read_now(b: &[u8]) -> String {
    block_on(async {
        let z = match mem::ZipFileReader::new(b.to_vec()).await {
            Ok(z) => z,
            Err(e) => return format!("{e:?}"),
        };
        let mut s = format!("{} {} ", text(z.file().comment()), z.file().zip64());
        for (i, e) in z.file().entries().iter().enumerate() {
            s += &format!("[{} @{} ", entry(e), e.header_offset());
            let mut v = vec![];
            match z.reader_with_entry(i).await {
                Err(e) => s += &format!("{e:?}"),
                Ok(mut r) => s += &format!("{:?} {v:02x?}", r.read_to_end_checked(&mut v).await),
            }
            s += "]";
        }
        s
    })
}
fn streamed_now(b: &[u8]) -> String {
    block_on(async {
        let mut z = stream::ZipFileReader::new(b);
        let mut s = String::new();
        for n in 0.. {
            match z.next_with_entry().await {
                Err(e) => return s + &format!("{e:?}"),
                Ok(None) => break,
                Ok(Some(mut r)) => {
                    s += &format!("[{} ", entry(r.reader().entry()));
                    let mut v = vec![0; [1000, 3][n % 2]];
                    match r.reader_mut().read(&mut v).await {
                        Err(e) => return s + &format!("{e:?}"),
                        Ok(n) => s += &format!("{:02x?}] ", &v[..n]),
                    }
                    match r.skip().await {
                        Err(e) => return s + &format!("{e:?}"),
                        Ok(y) => z = y,
                    }
                }
            }
        }
        s + "end"
    })
}
/// FNV, to keep the lines short.
fn short(s: &str) -> String {
    let h = s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    format!("{h:016x}/{}", s.len())
}
fn written(mode: usize, n: u32) -> String {
    let bytes = block_on(async {
        let mut w = ZipFileWriter::new(Vec::new());
        w = match mode {
            0 => w,
            1 => w.force_no_zip64(),
            _ => w.force_zip64(),
        };
        if n & 1 != 0 {
            w.comment("archive comment".into());
        }
        for k in 0..3u32 {
            let name: ZipString = match n >> 1 & 3 {
                0 => "plain".into(),
                1 => "\u{fc}nicode/".into(),
                2 => ZipString::new(vec![0xFF, b'r'], StringEncoding::Raw),
                _ => ZipString::new_with_alternative("\u{e4}".into(), vec![0x84]),
            };
            let mut b = ZipEntryBuilder::new(name, Compression::Stored)
                .comment(if n & 8 != 0 { "comment".into() } else { "".into() })
                .last_modification_date(ZipDateTimeBuilder::new().year(1980 + n as i32).month(2).day(29).hour(23).minute(59).second(60).build())
                .attribute_compatibility(AttributeCompatibility::Unix)
                .internal_file_attribute(n as u16)
                .external_file_attribute(0x8000_0001u32.wrapping_mul(n));
            if n & 16 != 0 {
                b = b.unix_permissions(0o100644);
            }
            if n & 32 != 0 {
                b = b.crc32(77u32).uncompressed_size(5u64).compressed_size(4u64);
            }
            let data = vec![b'd'; (k * 100) as usize];
            let r = match (n + k) % 3 {
                0 => w.write_entry_whole(b, &data).await,
                1 => w.write_entry_whole_precompressed(b, &data).await,
                _ => match w.write_entry_stream(b).await {
                    Err(e) => Err(e),
                    Ok(mut s) => match s.write_all(&data).await {
                        Err(e) => Err(e.into()),
                        Ok(()) => s.close().await,
                    },
                },
            };
            r?;
        }
        w.close().await
    });
    match bytes {
        Err(e) => format!("{e:?}"),
        Ok(b) => {
            let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
            format!("{} {}", short(&hex), read(&b))
        }
    }
}
pub fn lines(archives: &[Vec<u8>]) -> Vec<String> {
    let mut out = vec![];
    // Every time and every date.
    for hour in 0..24 {
        for minute in 0..60 {
            let mut s = format!("alike time {hour}:{minute}");
            for second in 0..=60 {
                let d = || ZipDateTimeBuilder::new().year(1999).month(1).day(2).hour(hour).minute(minute).second(second).build();
                s += &format!(" {}", tried(|| date(&d())));
            }
            out.push(s);
        }
    }
    for year in 1980..=2107 {
        let mut s = format!("alike day {year}");
        for month in 0..16 {
            for day in 0..32 {
                s += &format!(" {}", tried(|| date(&ZipDateTimeBuilder::new().second(60).day(day).year(year).month(month).build())));
            }
        }
        out.push(s);
    }
    // Archives, whole, cut at every byte and with every byte changed.
    for (k, b) in archives.iter().enumerate() {
        out.push(format!("alike read {k} {}", read(b)));
        out.push(format!("alike stream {k} {}", streamed(b)));
        let mut s = String::new();
        for n in 0..b.len().min(400) {
            s += &format!("{n}: {} {}\n", read(&b[..n]), streamed(&b[..n]));
        }
        out.push(format!("alike cut {k} {}", short(&s)));
        let mut s = String::new();
        for n in 0..b.len().min(400) {
            for x in [0x01, 0x80, 0xFF] {
                let mut c = b.clone();
                c[n] ^= x;
                // Only what every configuration knows: a method is one of the features.
                let m = |v: &str| {
                    if v.contains("CompressionNotSupported") {
                        "?".to_string()
                    } else {
                        v.to_string()
                    }
                };
                if !methods(&c) {
                    continue;
                }
                s += &format!("{n}^{x}: {} {}\n", m(&read(&c)), m(&streamed(&c)));
            }
        }
        out.push(format!("alike changed {k} {}", short(&s)));
    }
    // Texts.
    let parts: [&[u8]; 8] = [b"", b"a", b"/", b"\\", "\u{e9}".as_bytes(), &[0xFF], &[0], b"\xEF\xBB\xBF"];
    for n in 0..512usize {
        let b = [parts[n % 8], parts[n / 8 % 8], parts[n / 64]].concat();
        let mut s = format!("alike text {n}");
        for enc in [StringEncoding::Utf8, StringEncoding::Raw] {
            s += &tried(|| {
                let z = ZipString::new(b.clone(), enc);
                format!(" {} {:?}", text(&z), ZipEntryBuilder::new(z.clone(), Compression::Stored).build().dir().ok())
            });
        }
        out.push(s);
    }
    // Writing.
    for mode in 0..3 {
        for n in 0..64u32 {
            out.push(format!("alike write {mode} {n} {}", tried(|| written(mode, n))));
        }
    }

    let f = ZipFileBuilder::new().comment("c".into()).build();
    out.push(format!("alike file {} {} {}", f.entries().len(), text(f.comment()), f.zip64()));
    out
}
/// Every method field in the archive says stored (or there is none left to be found).
fn methods(b: &[u8]) -> bool {
    b.windows(12).all(|w| {
        let at = match &w[..4] {
            b"PK\x03\x04" => 8,
            b"PK\x01\x02" => 10,
            _ => return true,
        };
        w[at..at + 2] == [0, 0]
    })
}
