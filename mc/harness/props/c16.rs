//! Dates convert exactly within the MS-DOS range.
use super::c03::ent;
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::dos_parts;
use crate::refzip::{self as rz, A};
use async_zip::base::read::{mem, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::{Compression, ZipDateTime, ZipDateTimeBuilder, ZipEntryBuilder};
use chrono::{DateTime, Datelike, LocalResult, TimeZone, Timelike, Utc};

type Parts = (i32, u32, u32, u32, u32, u32);
fn parts(d: &ZipDateTime) -> Parts {
    (d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second())
}
fn make(p: Parts) -> ZipDateTime {
    ZipDateTimeBuilder::new().year(p.0).month(p.1).day(p.2).hour(p.3).minute(p.4).second(p.5).build()
}
/// Is this a real date and time? Written out, independent of chrono.
fn real(p: Parts) -> bool {
    let leap = p.0 % 4 == 0 && (p.0 % 100 != 0 || p.0 % 400 == 0);
    let days = match p.1 {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap as u32,
        _ => 0,
    };
    p.2 >= 1 && p.2 <= days && p.3 < 24 && p.4 < 60 && p.5 < 60
}
fn chrono_parts(c: &DateTime<Utc>) -> Parts {
    (c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second())
}
fn check_chrono(z: &ZipDateTime, p: Parts) -> R {
    for (what, r) in [("as_chrono", z.as_chrono()), ("into", LocalResult::from(*z)), ("from ref", LocalResult::from(z))] {
        match (r, real(p)) {
            (LocalResult::Single(c), true) => {
                ensure!(chrono_parts(&c) == p && c.nanosecond() == 0, "{what}: {p:?} converts to {c}");
                for back in [ZipDateTime::from_chrono(&c), ZipDateTime::from(&c), ZipDateTime::from(c)] {
                    ensure!(back == *z && parts(&back) == p, "{c} converts back to {:?}", parts(&back));
                }
            }
            (LocalResult::None, false) => {}
            (r, _) => bail!("{what}: {p:?} (real: {}) converts to {r:?}", real(p)),
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug, Hash)]
enum Set {
    Y(i32),
    Mo(u32),
    D(u32),
    H(u32),
    Mi(u32),
    S(u32),
}
impl Set {
    fn apply(self, b: ZipDateTimeBuilder) -> ZipDateTimeBuilder {
        match self {
            Set::Y(v) => b.year(v),
            Set::Mo(v) => b.month(v),
            Set::D(v) => b.day(v),
            Set::H(v) => b.hour(v),
            Set::Mi(v) => b.minute(v),
            Set::S(v) => b.second(v),
        }
    }
    fn model(self, p: &mut Parts) {
        match self {
            Set::Y(v) => p.0 = v,
            Set::Mo(v) => p.1 = v,
            Set::D(v) => p.2 = v,
            Set::H(v) => p.3 = v,
            Set::Mi(v) => p.4 = v,
            Set::S(v) => p.5 = v & !1,
        }
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let times: [u16; 8] = [0, 0xBF7D, 0x6B3D, 0xFFFF, 0x0001, 0x0020, 0x0800, 0xC000];
    let dates: [u16; 8] = [0x0021, 0xFF9F, 0x5A21, 0x0000, 0xFFFF, 0x285D, 0x2A5D, 0x505D];
    // Every date with some times, every time with some dates.
    ctx.each("all", 65536 * 16, |i, l| {
        let mut m = Mix(i);
        let k = m.take(16);
        let (date, time) = if k < 8 { (m.0 as u16, times[k]) } else { (dates[k - 8], m.0 as u16) };
        let p = dos_parts(date, time);
        let z = make(p);
        ensure!(parts(&z) == p, "parts {p:?} read back as {:?}", parts(&z));
        if p.5 < 63 {
            let odd = ZipDateTimeBuilder::from(z).second(p.5 + 1).build();
            ensure!(parts(&odd) == p, "second {} reads back as {:?}", p.5 + 1, parts(&odd));
            let odd = make((p.0, p.1, p.2, p.3, p.4, p.5 + 1));
            ensure!(parts(&odd) == p && odd == z, "second {} reads back as {:?}", p.5 + 1, parts(&odd));
        }
        check_chrono(&z, p)?;
        l.state(&(date, time));
        l.step(4);
        l.hit();
        Ok(())
    });
    // Every real day, and every second of a day, from chrono.
    ctx.each("chrono-days", 46751, |i, l| {
        let first = Utc.with_ymd_and_hms(1980, 1, 1, 0, 0, 0).single().ok_or("chrono")?;
        let day = first + chrono::Duration::days(i as i64);
        ensure!(day.year() <= 2107, "harness: {day}");
        for s in [0i64, 1, 43199, 43200, 86398, 86399] {
            let c = day + chrono::Duration::seconds(s) + chrono::Duration::nanoseconds(s * 7);
            let z = ZipDateTime::from_chrono(&c);
            let mut p = chrono_parts(&c);
            p.5 &= !1;
            ensure!(parts(&z) == p, "{c} converts to {:?}", parts(&z));
            check_chrono(&z, p)?;
            l.step(1);
        }
        l.state(&i);
        l.hit();
        Ok(())
    });
    ctx.each("chrono-seconds", 86400, |i, l| {
        for (y, mo, d) in [(1980, 1, 1), (2000, 2, 29), (2107, 12, 31)] {
            let c = Utc.with_ymd_and_hms(y, mo, d, 0, 0, 0).single().ok_or("chrono")? + chrono::Duration::seconds(i as i64);
            let s = i as u32;
            // Fractions are cut off; a leap second is written as the 59th second and a fraction beyond one.
            for n in [0u32, 1, 499_999_999, 500_000_000, 999_999_999, 1_000_000_000, 1_999_999_999] {
                if n >= 1_000_000_000 && s % 60 != 59 {
                    continue;
                }
                let c = c.with_nanosecond(n).ok_or("chrono")?;
                for z in [ZipDateTime::from_chrono(&c), ZipDateTime::from(&c), ZipDateTime::from(c)] {
                    ensure!(parts(&z) == (y, mo, d, s / 3600, s / 60 % 60, s % 60 & !1), "{c} converts to {:?}", parts(&z));
                }
                l.step(1);
            }
        }
        l.state(&("s", i));
        l.hit();
        Ok(())
    });
    // Setters in any order and repetition, from any start.
    let mut sets = vec![];
    for y in [1980, 1981, 2016, 2024, 2107] {
        sets.push(Set::Y(y));
    }
    for v in [0, 1, 2, 6, 12, 15] {
        sets.push(Set::Mo(v));
    }
    for v in [0, 1, 2, 16, 30, 31] {
        sets.push(Set::D(v));
    }
    for v in [0, 1, 12, 16, 23] {
        sets.push(Set::H(v));
    }
    for v in [0, 1, 30, 32, 59] {
        sets.push(Set::Mi(v));
    }
    for v in [0, 1, 2, 31, 32, 58, 59] {
        sets.push(Set::S(v));
    }
    let starts: [Option<(u16, u16)>; 6] = [None, Some((0, 0)), Some((0xFFFF, 0xFFFF)), Some((0x5555, 0xAAAA)), Some((0xAAAA, 0x5555)), Some((0x5A21, 0x6B3D))];
    let seqs = Seqs { n: sets.len() as u64, depth: if ctx.thorough { 5 } else { 4 } };
    ctx.each("setters", seqs.total() * if ctx.thorough { 2 } else { starts.len() as u64 }, |i, l| {
        let mut m = Mix(i);
        let start = starts[m.take(if ctx.thorough { 2 } else { starts.len() }) + if ctx.thorough { 1 } else { 0 }];
        let seq = seqs.get(m.0);
        let mut p = dos_parts(0, 0);
        let mut b = ZipDateTimeBuilder::new();
        if let Some((d, t)) = start {
            p = dos_parts(d, t);
            b = ZipDateTimeBuilder::from(make(p));
        }
        for k in &seq {
            b = sets[*k].apply(b);
            sets[*k].model(&mut p);
        }
        let z = b.build();
        ensure!(parts(&z) == p, "from {start:?}, {:?} gives {:?}", seq.iter().map(|k| sets[*k]).collect::<Vec<_>>(), parts(&z));
        l.sample(|| format!("from {start:?}: {:?}", seq.iter().map(|k| sets[*k]).collect::<Vec<_>>()));
        l.state(&p);
        l.step(seq.len() as u64);
        l.hit();
        Ok(())
    });
    // Through archives: stored fields become these parts, and parts become these stored fields.
    ctx.each("archives", 65536 * 2, |i, l| {
        let (date, time) = if i % 2 == 0 { ((i / 2) as u16, times[i as usize / 2 % 8]) } else { (dates[i as usize / 2 % 8], (i / 2) as u16) };
        let mut e = ent(b"d", rz::STORED, b"");
        (e.date, e.time) = (date, time);
        let b = rz::build(&A { entries: vec![e], ..Default::default() }).bytes;
        let want = dos_parts(date, time);
        now(async {
            let z = mem::ZipFileReader::new(b.clone()).await.map_err(|x| format!("{x:?}"))?;
            let d = *z.file().entries()[0].last_modification_date();
            ensure!(parts(&d) == want, "fields {date:#x}/{time:#x} read as {:?}", parts(&d));
            let s = stream::ZipFileReader::new(b.as_slice());
            let r = s.next_with_entry().await.map_err(|x| format!("{x:?}"))?.ok_or("no entry")?;
            let d2 = *r.reader().entry().last_modification_date();
            ensure!(d2 == d, "streamed date differs: {:?}", parts(&d2));
            let mut w = ZipFileWriter::new(Vec::new());
            let eb = ZipEntryBuilder::new("d".into(), Compression::Stored).last_modification_date(make(want));
            if i % 4 < 2 {
                w.write_entry_whole(eb, b"").await.map_err(|x| format!("{x:?}"))?;
            } else {
                w.write_entry_stream(eb).await.map_err(|x| format!("{x:?}"))?.close().await.map_err(|x| format!("{x:?}"))?;
            }
            let out = w.close().await.map_err(|x| format!("{x:?}"))?;
            ensure!((rz::g16(&out, 12), rz::g16(&out, 10)) == (date, time), "local fields {:#x}/{:#x} for {want:?}", rz::g16(&out, 12), rz::g16(&out, 10));
            let p = rz::parse(out.as_slice(), b"", true).map_err(|x| format!("written archive: {x}"))?;
            ensure!((p.entries[0].date, p.entries[0].time) == (date, time), "central fields for {want:?}");
            Ok::<(), Fail>(())
        })?;
        l.state(&("a", date, time));
        l.step(3);
        l.hit();
        Ok(())
    });
    ctx.finish(
        "getters return the parts last set (seconds rounded down to even), chrono conversion gives exactly the same parts for real dates and none otherwise, and back",
        &["years 1980 to 2107, parts within their fields"],
    )
}
