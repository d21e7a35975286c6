//! Concurrent entry readers of one archive do not affect each other.
use super::c03::ent;
use super::common::*;
use crate::engine::*;
use crate::exec::now;
use crate::panel::{ek, rt, Scratch};
use crate::refzip::{self as rz, Dd, A, E};
use crate::wops::pattern;
use async_zip::base::read::mem;
use async_zip::tokio::read::fs;
use futures_lite::io::AsyncReadExt;
use std::cell::Cell;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::task::Poll;

/// Drives `f` in two scheduler turns: one poll, then to its end; each turn is counted.
async fn two<F: Future>(turn: &Cell<u32>, f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut stash = None;
    let mut first = true;
    poll_fn(|cx| {
        if first {
            first = false;
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                stash = Some(v);
            }
            turn.set(turn.get() + 1);
            return Poll::Pending;
        }
        if let Some(v) = stash.take() {
            return Poll::Ready(v);
        }
        f.as_mut().poll(cx)
    })
    .await
}
/// The end of a scheduler turn.
async fn turn_end(turn: &Cell<u32>) {
    let mut first = true;
    poll_fn(|_| {
        if first {
            first = false;
            turn.set(turn.get() + 1);
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
async fn op<F: Future>(turn: &Cell<u32>, split: bool, f: F) -> F::Output {
    let v = if split { two(turn, f).await } else { f.await };
    turn_end(turn).await;
    v
}
/// What one reader does.
#[derive(Clone, Copy, Debug)]
struct Plan {
    entry: usize,
    with: bool,
    reads: usize,
    /// Drop it after the reads instead of reading to the end.
    drop: bool,
    split: bool,
}
macro_rules! reader_task {
    ($z:expr, $p:expr, $es:expr, $turn:expr) => {{
        let (p, e, turn): (Plan, &E, &Cell<u32>) = ($p, &$es[$p.entry], $turn);
        macro_rules! go {
            ($r:expr) => {{
                let mut r = $r;
                let step = e.data.len().div_ceil(p.reads.max(1));
                let mut at = 0;
                for _ in 0..p.reads {
                    let n = step.min(e.data.len() - at);
                    let mut buf = vec![0; n];
                    op(turn, p.split, r.read_exact(&mut buf)).await.map_err(|x| format!("entry {} at {at}: {x}", p.entry))?;
                    ensure!(buf == e.data[at..at + n], "entry {} at {at}: {}", p.entry, diff(&e.data[at..at + n], &buf));
                    at += n;
                    if p.drop && at * 2 >= e.data.len() {
                        return Ok(());
                    }
                }
                let mut b = [0; 16];
                let n = op(turn, p.split, r.read(&mut b)).await.map_err(|x| format!("entry {} at its end: {x}", p.entry))?;
                ensure!(n == 0, "entry {}: {n} bytes beyond its end", p.entry);
                ensure!(r.compute_hash() == rz::crc(&e.data), "entry {}: hash differs", p.entry);
                Ok(())
            }};
        }
        async move {
            if p.with {
                let r = op(turn, p.split, $z.reader_with_entry(p.entry)).await.map_err(|x| format!("open {}: {}", p.entry, ek(&x)))?;
                ensure!(r.entry().crc32() == rz::crc(&e.data) && r.entry().filename().as_bytes() == e.name, "entry {} carries another entry's data", p.entry);
                go!(r)
            } else {
                let r = op(turn, p.split, $z.reader_without_entry(p.entry)).await.map_err(|x| format!("open {}: {}", p.entry, ek(&x)))?;
                go!(r)
            }
        }
    }};
}
type Task<'a> = Pin<Box<dyn Future<Output = R> + 'a>>;
/// Runs the tasks turn by turn in the order the chooser gives.
async fn schedule(mut tasks: Vec<(Task<'_>, &Cell<u32>)>, ch: &Ch, l: &mut Local) -> R {
    let mut order: Vec<u8> = vec![];
    let mut ids: Vec<u8> = (0..tasks.len() as u8).collect();
    while !tasks.is_empty() {
        let k = if tasks.len() == 1 { 0 } else { ch.borrow_mut().choose_free(tasks.len()) };
        let (t, turn) = &mut tasks[k];
        let before = turn.get();
        let fin = poll_fn(|cx| match t.as_mut().poll(cx) {
            Poll::Ready(r) => Poll::Ready(Some(r)),
            Poll::Pending if turn.get() != before => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        })
        .await;
        l.step(1);
        order.push(ids[k]);
        l.state(&order);
        if let Some(r) = fin {
            r.map_err(|f| format!("under the schedule {order:?}: {}", f.msg))?;
            drop(tasks.remove(k));
            ids.remove(k);
        }
    }
    Ok(())
}
fn archive(k: usize) -> Vec<E> {
    let mut v = vec![
        ent(b"first", rz::STORED, &pattern(2, k + 1)),
        ent(b"second", rz::DEFLATE, &pattern(2, k + 7)).dd(Dd::Sig),
        ent(b"third", rz::STORED, &pattern(1, k / 2)),
    ];
    v[1].lx = vec![(0x9999, vec![1; 40])];
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    let es = archive(60);
    let bytes = rz::build(&A { entries: es.clone(), ..Default::default() }).bytes;
    let big = archive(30_000);
    let big_bytes = rz::build(&A { entries: big.clone(), ..Default::default() }).bytes;
    let huge = archive(300_000);
    let huge_bytes = rz::build(&A { entries: huge.clone(), ..Default::default() }).bytes;
    let pairs: Vec<(usize, usize)> = (0..3).flat_map(|a| (a..3).map(move |b| (a, b))).collect();

    // Two in-memory readers: opening and each read split into start and finish.
    let mem_go = |plans: &[Plan], clones: usize, es: &[E], bytes: &[u8], ch: &Ch, l: &mut Local| -> R {
        now(async {
            let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
            let zs: Vec<mem::ZipFileReader> = match clones {
                0 => vec![],
                _ => plans.iter().map(|_| z.clone()).collect(),
            };
            let z = if clones == 2 {
                // The original is gone.
                drop(z);
                zs[0].clone()
            } else {
                z
            };
            let turns: Vec<Cell<u32>> = plans.iter().map(|_| Cell::new(0)).collect();
            let tasks: Vec<(Task<'_>, &Cell<u32>)> = plans
                .iter()
                .enumerate()
                .map(|(k, p)| {
                    let src = zs.get(k).unwrap_or(&z);
                    (Box::pin(reader_task!(src, *p, es, &turns[k])) as Task<'_>, &turns[k])
                })
                .collect();
            schedule(tasks, ch, l).await
        })?;
        l.hit();
        Ok(())
    };
    let reads = if ctx.thorough { 3 } else { 2 };
    ctx.explore("mem-two", (pairs.len() * 2 * 3 * 2) as u64, 0, |i, ch, l| {
        let mut m = Mix(i);
        let (a, b) = *m.of(&pairs);
        let with = m.take(2) == 1;
        let other = m.take(2) == 1;
        let clones = m.take(3);
        let plans = [Plan { entry: a, with, reads, drop: false, split: true }, Plan { entry: b, with: other, reads, drop: false, split: true }];
        mem_go(&plans, clones, &es, &bytes, ch, l)
    });
    // One of the two is dropped half way; different numbers of reads; entries larger than any buffer.
    ctx.explore("mem-uneven", (9 * 3 * 2 * 3) as u64, 0, |i, ch, l| {
        let mut m = Mix(i);
        let (a, b) = (m.take(3), m.take(3));
        let reads = 1 + m.take(3);
        let drop = m.take(2) == 1;
        let large = m.take(3);
        let plans = [Plan { entry: a, with: true, reads: 4, drop, split: false }, Plan { entry: b, with: false, reads, drop: false, split: false }];
        match large {
            0 => mem_go(&plans, 0, &es, &bytes, ch, l),
            1 => mem_go(&plans, 1, &big, &big_bytes, ch, l),
            _ => mem_go(&plans, reads % 3, &huge, &huge_bytes, ch, l),
        }
    });
    // Three readers.
    ctx.explore("mem-three", 27 * 2, 0, |i, ch, l| {
        let mut m = Mix(i);
        let e: Vec<usize> = (0..3).map(|_| m.take(3)).collect();
        let clones = m.take(2);
        let plans: Vec<Plan> =
            e.iter().enumerate().map(|(k, e)| Plan { entry: *e, with: (i as usize + k) % 3 == 1, reads: 1, drop: false, split: false }).collect();
        mem_go(&plans, clones, &es, &bytes, ch, l)
    });
    // Readers of a file.
    let fs_go = |plans: &[Plan], clone: bool, ch: &Ch, l: &mut Local| -> R {
        // Created once per worker, removed by the engine.
        let path = l.scratch.get_or_insert_with(|| Scratch::new(&big_bytes).keep()).clone();
        {
            rt(async {
                let z = fs::ZipFileReader::new(&path).await.map_err(|x| ek(&x))?;
                let z2 = if clone { z.clone() } else { fs::ZipFileReader::from_raw_parts(z.path(), z.file().clone()) };
                let turns: Vec<Cell<u32>> = plans.iter().map(|_| Cell::new(0)).collect();
                let tasks: Vec<(Task<'_>, &Cell<u32>)> = plans
                    .iter()
                    .enumerate()
                    .map(|(k, p)| {
                        let src = if k == 1 && clone { &z2 } else { &z };
                        (Box::pin(reader_task!(src, *p, &big, &turns[k])) as Task<'_>, &turns[k])
                    })
                    .collect();
                schedule(tasks, ch, l).await
            })
        }?;
        l.hit();
        Ok(())
    };
    ctx.explore("fs-two", (pairs.len() * 2 * 4) as u64, 0, |i, ch, l| {
        let mut m = Mix(i);
        let (a, b) = *m.of(&pairs);
        let clone = m.take(2) == 1;
        let (w0, w1) = (m.take(2) == 1, m.take(2) == 1);
        let reads = if w0 != w1 { 3 } else { 2 };
        let plans = [Plan { entry: a, with: w0, reads, drop: false, split: false }, Plan { entry: b, with: w1, reads, drop: i % 5 == 0, split: false }];
        fs_go(&plans, clone, ch, l)
    });
    ctx.explore("fs-two-split", if ctx.thorough { 6 } else { 3 }, 0, |i, ch, l| {
        let (a, b) = [(0, 1), (0, 0), (2, 1), (1, 1), (0, 2), (2, 2)][i as usize];
        let plans = [Plan { entry: a, with: false, reads: 1, drop: false, split: true }, Plan { entry: b, with: true, reads: 1, drop: false, split: true }];
        fs_go(&plans, i % 2 == 0, ch, l)
    });
    ctx.explore("fs-three", if ctx.thorough { 8 } else { 2 }, 0, |i, ch, l| {
        let e = [[0, 1, 2], [1, 1, 0], [0, 0, 0], [2, 1, 0], [2, 2, 1], [0, 2, 0], [1, 2, 1], [1, 1, 1]][i as usize];
        let plans: Vec<Plan> =
            e.iter().enumerate().map(|(k, e)| Plan { entry: *e, with: (i as usize / 2 + k) % 2 == 0, reads: 1, drop: false, split: false }).collect();
        fs_go(&plans, true, ch, l)
    });
    // Many readers open at the same time, each at another place of its entry.
    let counts = [4usize, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 130, 257, 400];
    ctx.each("crowd", (counts.len() * 3 * 3 * 2 * 2 * 2) as u64, |i, l| {
        let mut m = Mix(i);
        let n = *m.of(&counts);
        let (order, pick) = (m.take(3), m.take(3));
        let (file, large, dropping) = (m.take(2) == 1, m.take(2) == 1, m.take(2) == 1);
        // Each open file needs a descriptor.
        let n = if file { n.min(200) } else { n };
        let (es, bytes) = if large || file { (&big, &big_bytes) } else { (&es, &bytes) };
        let rounds = 4;
        l.state(&i);
        l.step((n * rounds) as u64);
        macro_rules! go {
            ($z:expr) => {{
                let mut rs = vec![];
                for k in 0..n {
                    let e = [k % 3, 1, (k * k) % 3][pick];
                    rs.push((e, 0usize, $z.reader_with_entry(e).await.map_err(|x| format!("reader {k} of {n}: {}", ek(&x)))?));
                }
                for round in 0..rounds {
                    for j in 0..rs.len() {
                        let k = [j, rs.len() - 1 - j, (j * 7 + round) % rs.len()][order];
                        let (e, at, r) = &mut rs[k];
                        let data = &es[*e].data;
                        let len = (data.len() / 5 + k % 7).min(data.len() - *at);
                        let mut buf = vec![0; len];
                        r.read_exact(&mut buf).await.map_err(|x| format!("reader {k} of {n} at {at}: {x}"))?;
                        ensure!(buf == data[*at..*at + len], "reader {k} of {n} at {at}: {}", diff(&data[*at..*at + len], &buf));
                        *at += len;
                    }
                    if dropping && rs.len() > 3 {
                        // Some go away.
                        rs.truncate(rs.len() - rs.len() / 4);
                        drop(rs.remove(0));
                    }
                }
                for (k, (e, at, mut r)) in rs.into_iter().enumerate() {
                    let mut rest = vec![];
                    r.read_to_end(&mut rest).await.map_err(|x| format!("reader {k} of {n} at {at}: {x}"))?;
                    ensure!(
                        rest == es[e].data[at..] && r.compute_hash() == rz::crc(&es[e].data),
                        "reader {k} of {n}, the rest from {at}: {}",
                        diff(&es[e].data[at..], &rest)
                    );
                }
                Ok::<(), Fail>(())
            }};
        }
        if file {
            let path = l.scratch.get_or_insert_with(|| Scratch::new(&big_bytes).keep()).clone();
            rt(async {
                let z = fs::ZipFileReader::new(&path).await.map_err(|x| ek(&x))?;
                go!(z)
            })?
        } else {
            now(async {
                let z = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|x| ek(&x))?;
                go!(z)
            })?
        }
        l.hit();
        Ok(())
    });
    ctx.finish(
        "every reader delivers exactly its own entry's bytes and hash under every interleaving of opens and reads",
        &["the file is not changed while it is read", "scheduling granularity: each open or read, optionally split into its start and its completion"],
    )
}
