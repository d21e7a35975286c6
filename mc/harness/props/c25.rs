//! Every build configuration supports exactly the methods it enables, and otherwise behaves alike.
use super::c03::{ent, METHODS};
use super::common::diff;
use crate::engine::*;
use crate::exec::now;
use crate::panel::*;
use crate::refzip::{self as rz, Dd, End64, A, E};
#[path = "../../../probe/harness/alike.rs"]
mod alike;
use async_zip::base::read::mem;
use chrono::{TimeZone, Utc};
use std::path::PathBuf;
use std::process::Command;
use std::sync::Mutex;

const CODECS: [(&str, u16); 6] =
    [("deflate", rz::DEFLATE), ("deflate64", rz::DEFLATE64), ("bzip2", rz::BZ), ("lzma", rz::LZMA), ("zstd", rz::ZSTD), ("xz", rz::XZ)];
const SHARDS: usize = 4;

#[derive(Clone, Debug, Hash)]
struct Conf {
    features: String,
    methods: Vec<u16>,
    chrono: bool,
    tokio: bool,
    fs: bool,
}
fn conf(mask: usize, extra: usize) -> Conf {
    let on: Vec<_> = CODECS.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, c)| *c).collect();
    let mut f: Vec<&str> = on.iter().map(|c| c.0).collect();
    let extras: &[&str] = [&[][..], &["chrono"], &["tokio"], &["tokio-fs"], &["chrono", "tokio-fs"]][extra];
    f.extend(extras);
    let mut methods: Vec<u16> = std::iter::once(0).chain(on.iter().map(|c| c.1)).collect();
    methods.sort();
    Conf {
        features: f.join(","),
        methods,
        chrono: extras.contains(&"chrono"),
        tokio: extras.iter().any(|e| e.starts_with("tokio")),
        fs: extras.contains(&"tokio-fs"),
    }
}
fn confs(thorough: bool) -> Vec<Conf> {
    let mut v = vec![];
    for mask in 0..64usize {
        for extra in 0..5 {
            let n = mask.count_ones();
            // Quick: none with each extra, each codec alone, all but each, all; the extras take turns.
            let quick = match n {
                0 => true,
                1 | 5 => extra == (mask.trailing_zeros() + mask.trailing_ones() + n / 5) as usize % 5,
                6 => extra == 4 || extra == 0,
                _ => false,
            };
            if thorough || quick {
                v.push(conf(mask, extra));
            }
        }
    }
    v.push(Conf {
        features: "full".into(),
        methods: {
            let mut m = METHODS.to_vec();
            m.sort();
            m
        },
        chrono: false,
        tokio: false,
        fs: false,
    });
    v.push(Conf { features: "full-wasm".into(), methods: vec![rz::STORED, rz::DEFLATE, rz::ZSTD], chrono: false, tokio: false, fs: false });
    v
}
/// Builds the probe in a configuration; Err is the compiler's complaint about the crate.
fn build(root: &std::path::Path, shard: usize, c: &Conf, k: usize) -> Result<PathBuf, String> {
    let target = root.join(format!("target/probe{shard}"));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--features", &c.features])
        .current_dir(root.join("probe"))
        .env("CARGO_TARGET_DIR", &target)
        .env_remove("RUSTFLAGS")
        .output()
        .unwrap_or_else(|e| engine_error(format!("cargo: {e}")));
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        if err.contains("could not compile `async_zip`") && err.contains("error[E") {
            let at = err.find("error[E").unwrap_or(0);
            return Err(err[at..].lines().take(6).collect::<Vec<_>>().join(" | "));
        }
        engine_error(format!("probe does not build with [{}]: {err}", c.features));
    }
    let bin = root.join(format!("target/probes/{k}"));
    std::fs::copy(target.join("debug/probe"), &bin).unwrap_or_else(|e| engine_error(format!("probe binary: {e}")));
    Ok(bin)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn archives() -> Vec<A> {
    let mut v = vec![A::default()];
    let all = |entries| A { entries, ..Default::default() };
    let text = b"some text, some text and some more of the same text, again and again";
    for m in METHODS {
        v.push(all(vec![ent(b"one", m, text)]));
        v.push(all(vec![ent(b"before", rz::STORED, b"before"), ent(b"it", m, text), ent(b"after", rz::STORED, b"after")]));
        v.push(all(vec![ent(b"first", m, text), ent(b"empty", m, b""), ent(b"last", m, b"last")]));
        if m != rz::STORED && m != rz::DEFLATE64 {
            v.push(all(vec![ent(b"described", m, text).dd(Dd::Sig), ent(b"next", m, text).dd(Dd::NoSig)]));
        }
        // Pairs of methods.
        for n in METHODS {
            v.push(all(vec![ent(b"x", m, text), ent(b"y", n, b"other text, other text, other text")]));
        }
    }
    for m in [1u16, 6, 10, 13, 94, 96, 99] {
        let mut e = E::new(b"unknown", rz::STORED, text);
        e.comp = Some(text.to_vec());
        e.method = m;
        v.push(all(vec![ent(b"before", rz::STORED, b"before"), e]));
    }
    let mut a = all(vec![ent(b"z", rz::ZSTD, text), ent(b"d", rz::DEFLATE, text)]);
    a.comment = b"comment".to_vec();
    a.end64 = Some(End64 { mask: 63, ext: vec![] });
    v.push(a);
    v
}
/// Archives whose entries are all stored, which every configuration has to read alike.
fn plain() -> Vec<Vec<u8>> {
    let mut v: Vec<A> = super::c03::variants()
        .into_iter()
        .filter(|e| e.method == rz::STORED)
        .map(|e| A { entries: vec![e.clone(), ent(b"next", rz::STORED, b"next"), e], comment: b"comment".to_vec(), ..Default::default() })
        .collect();
    let mut e = ent(&[0x81, b'/'], rz::STORED, b"contents");
    e.comment = b"\xE9".to_vec();
    e.cx = vec![(super::common::UPATH, super::common::ufield(&e.name, "ü/".as_bytes())), (0x5455, vec![1; 5])];
    e.lx = e.cx.clone();
    (e.c64, e.l64) = (rz::U | rz::C | rz::O, rz::U | rz::C);
    (e.date, e.time, e.eattr, e.iattr) = (0xFFFF, 0xBF7F, 0x81A4_0010, 9);
    v.push(A { entries: vec![e], end64: Some(End64 { mask: 63, ext: vec![1] }), comment: vec![0xFF, 0], ..Default::default() });
    v.push(A::default());
    v.iter().map(|a| rz::build(a).bytes).collect()
}
fn want_random(a: &A, on: &[u16]) -> String {
    if let Some(e) = a.entries.iter().find(|e| !on.contains(&e.method)) {
        return format!("open-error CompressionNotSupported({})", e.method);
    }
    a.entries.iter().map(|e| format!("{},{},{:08x},{},{};", hex(&e.name), e.method, rz::crc(&e.data), e.data.len(), hex(&e.data))).collect()
}
fn want_stream(a: &A, on: &[u16]) -> String {
    let mut s = String::new();
    for e in &a.entries {
        if !on.contains(&e.method) {
            return s + &format!("error CompressionNotSupported({})", e.method);
        }
        s += &format!("{},{},{};", hex(&e.name), e.method, hex(&e.data));
    }
    s + "end"
}
fn probe_data(n: usize, kind: usize) -> Vec<u8> {
    (0..[0, 1, 100, 3000][kind] + n).map(|i| (i * 7 / 3 % 251) as u8).collect()
}
/// `needs`: the version an entry of each method needs, from an archive written with all methods enabled.
fn judge(c: &Conf, out: &str, archives: &[A], needs: &[(u16, u16)], alike: &[String], l: &mut Local) -> R {
    let name = &c.features;
    let mut lines = out.lines();
    let mut next = |what: &str| -> Result<String, String> {
        let s = lines.next().ok_or(format!("[{name}]: ended before {what}"))?;
        s.strip_prefix(what).map(|r| r.trim().to_string()).ok_or(format!("[{name}]: expected {what}, got {:.200}", s))
    };
    for m in &c.methods {
        let got = next("method")?;
        ensure!(got == format!("{m} {m} {m}"), "[{name}]: method {got}, expected {m} to be the next supported one");
    }
    for year in 1980..=2107 {
        let got = next(&format!("dates {year}"))?;
        let mut want = vec![];
        for month in 0..16u32 {
            for day in 0..32u32 {
                let n = month * 31 + day;
                let (h, m, s) = (n % 24, n % 60, n % 60 / 2 * 2);
                let mut w = format!("{year},{month},{day},{h},{m},{s}");
                if c.chrono {
                    w += &match Utc.with_ymd_and_hms(year, month, day, h, m, s).single() {
                        Some(c) => format!("={}", c.timestamp()),
                        None => "=none".into(),
                    };
                }
                want.push(w);
            }
        }
        ensure!(got == want.join(" "), "[{name}]: dates of {year} differ");
    }
    for (k, a) in archives.iter().enumerate() {
        for front in ["mem", "seek", "stream", "tokio-seek", "tokio-stream", "fs"] {
            if (front.starts_with("tokio") && !c.tokio) || (front == "fs" && !c.fs) {
                continue;
            }
            let got = next(&format!("read {k:03} {front}"))?;
            let want = if front.ends_with("stream") { want_stream(a, &c.methods) } else { want_random(a, &c.methods) };
            ensure!(got == want, "[{name}]: archive {k} through {front}: {got:.300}, expected {want:.300}");
            l.outcome(&(k, front, got));
        }
    }
    for mode in 0..3 {
        for kind in ["0", "1", "2", "3", "tokio"] {
            if kind == "tokio" && !c.tokio {
                continue;
            }
            let bytes = unhex(&next(&format!("written {mode} {kind}"))?);
            let p = rz::parse(&bytes[..], b"", true).map_err(|x| format!("[{name}]: mode {mode} kind {kind}: {x}"))?;
            let kinds = kind.parse().unwrap_or(0usize);
            let forced = if kind == "tokio" { None } else { [None, Some(false), Some(true)][mode] };
            ensure!(forced.map_or(true, |f| p.zip64 == f), "[{name}]: mode {mode} kind {kind}: zip64 {}", p.zip64);
            let wrote: Vec<(usize, u16)> = c.methods.iter().copied().enumerate().filter(|(_, m)| *m != rz::DEFLATE64).collect();
            ensure!(p.entries.len() == wrote.len(), "[{name}]: {} entries, expected {}", p.entries.len(), wrote.len());
            let z = now(mem::ZipFileReader::new(bytes.clone())).map_err(|x| format!("[{name}]: {}", ek(&x)))?;
            for (i, (n, m)) in wrote.iter().enumerate() {
                let (e, data) = (&p.entries[i], probe_data(*n, kinds));
                let streamed = kind != "tokio" && (kinds + n) % 2 == 1;
                ensure!(
                    e.method == *m && e.name == format!("method {m}").as_bytes() && e.crc == rz::crc(&data) && e.usize_ == data.len() as u64,
                    "[{name}]: mode {mode} kind {kind}: entry {i} is {e:?}"
                );
                ensure!((e.flags & 8 != 0) == streamed, "[{name}]: entry {i} has flags {:#x}", e.flags);
                ensure!(mode != 1 || !e.has_z64, "[{name}]: entry {i} has a ZIP64 field");
                let need = needs.iter().find(|x| x.0 == *m).map(|x| x.1);
                ensure!(Some(e.need) == need, "[{name}]: method {m} needs version {}, with all methods enabled {need:?}", e.need);
                let got = now(async {
                    let mut v = vec![];
                    let mut r = z.reader_with_entry(i).await?;
                    r.read_to_end_checked(&mut v).await?;
                    Ok::<_, async_zip::error::ZipError>(v)
                })
                .map_err(|x| format!("[{name}]: mode {mode} kind {kind}: entry {i}: {}", ek(&x)))?;
                ensure!(got == data, "[{name}]: mode {mode} kind {kind}: entry {i}: {}", diff(&data, &got));
            }
        }
    }
    for want in alike {
        let got = next("alike")?;
        let want = want.strip_prefix("alike").unwrap_or(want).trim();
        ensure!(got == want, "[{name}]: {got:.400}, with all features {want:.400}");
    }
    next("done")?;
    l.step(out.lines().count() as u64);
    Ok(())
}
fn needs() -> Vec<(u16, u16)> {
    use crate::wops::{Kind, Mode, WOp};
    let ops: Vec<WOp> = METHODS.iter().filter(|m| **m != rz::DEFLATE64).map(|m| WOp::new(Kind::Whole, *m, "x", b"data")).collect();
    let bytes = now(crate::wops::archive(&ops, Mode::Never, None)).unwrap_or_else(|e| engine_error(format!("cannot write: {e}")));
    let p = rz::parse(&bytes[..], b"", true).unwrap_or_else(|e| engine_error(e));
    p.entries.iter().map(|e| (e.method, e.need)).collect()
}

pub fn run(ctx: &Ctx) -> i32 {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let all = confs(ctx.thorough);
    let archives = archives();
    let needs = needs();
    let dir = root.join("target/probe-in");
    let _ = std::fs::remove_dir_all(&dir);
    let ok = std::fs::create_dir_all(&dir).and_then(|_| std::fs::create_dir_all(root.join("target/probes")));
    ok.unwrap_or_else(|e| engine_error(format!("{}: {e}", dir.display())));
    for (k, a) in archives.iter().enumerate() {
        std::fs::write(dir.join(format!("{k:03}.zip")), rz::build(a).bytes).unwrap_or_else(|e| engine_error(e.to_string()));
    }
    let dir2 = root.join("target/probe-in-alike");
    let _ = std::fs::remove_dir_all(&dir2);
    std::fs::create_dir_all(&dir2).unwrap_or_else(|e| engine_error(format!("{}: {e}", dir2.display())));
    let plain = plain();
    for (k, b) in plain.iter().enumerate() {
        std::fs::write(dir2.join(format!("{k:03}.zip")), b).unwrap_or_else(|e| engine_error(e.to_string()));
    }
    let same = alike::lines(&plain);
    // Build first: one queue, one target directory per worker.
    let queue = Mutex::new((0..all.len()).filter(|k| ctx.wanted("configurations", *k as u64)).collect::<Vec<_>>());
    let bins: Vec<Mutex<Option<Result<PathBuf, String>>>> = all.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for shard in 0..SHARDS {
            let (queue, bins, all, root) = (&queue, &bins, &all, &root);
            s.spawn(move || loop {
                let Some(k) = queue.lock().unwrap().pop() else {
                    break;
                };
                let r = std::panic::catch_unwind(|| build(root, shard, &all[k], k));
                match r {
                    Ok(r) => *bins[k].lock().unwrap() = Some(r),
                    Err(p) => {
                        let m = p.downcast_ref::<EngineError>().map(|e| e.0.clone()).unwrap_or_default();
                        eprintln!("{m}");
                        break;
                    }
                }
            });
        }
    });
    ctx.each("configurations", all.len() as u64, |i, l| {
        let c = &all[i as usize];
        let bin = match bins[i as usize].lock().unwrap().clone() {
            Some(Ok(b)) => b,
            Some(Err(e)) => bail!("[{}] does not compile: {e}", c.features),
            None => engine_error(format!("[{}] was not built", c.features)),
        };
        let out = Command::new(&bin).arg(&dir).output().unwrap_or_else(|e| engine_error(format!("probe: {e}")));
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if !out.status.success() {
            let err = String::from_utf8_lossy(&out.stderr).to_string();
            bail!("[{}]: the probe fails: {:.400}", c.features, err);
        }
        judge(c, &text, &archives, &needs, &same, l)?;
        l.state(&c.features);
        l.sample(|| format!("[{}]: {} lines of observations", c.features, text.lines().count()));
        l.hit();
        Ok(())
    });
    ctx.finish(
        "in each configuration exactly the enabled methods are accepted, archives of enabled methods are read and written with the right contents by every reader, others refused",
        &["third-party codecs are compiled with the features cargo unifies for the configuration"],
    )
}
