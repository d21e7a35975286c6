//! Exploration engine: enumerates finite spaces of executions of the real code, records what was
//! covered, and turns the first failing execution into a replayable artefact.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A failed execution. `key` identifies a specific known finding, if the failure is one.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: Option<&'static str>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: None, msg: msg.to_string() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(From::from(format!($($arg)*))); } };
}
#[macro_export]
macro_rules! bail {
    ($($arg:tt)*) => { return Err(From::from(format!($($arg)*))) };
}

/// Payload of a panic that means "the harness is broken", never a verdict about the code.
pub struct EngineError(pub String);
pub fn engine_error(msg: impl Into<String>) -> ! {
    std::panic::panic_any(EngineError(msg.into()))
}
/// Payload of a panic by which the environment stops an execution that does not terminate.
pub struct Livelock(pub String);

// ---------------------------------------------------------------- choices

#[derive(Clone, Copy)]
struct Point {
    c: u16,
    n: u16,
    cost: bool,
}
#[derive(Default)]
pub struct Chooser {
    prefix: Vec<u16>,
    trace: Vec<Point>,
}
impl Chooser {
    fn new(prefix: Vec<u16>) -> Self {
        Chooser { prefix, trace: Vec::new() }
    }
    fn pick(&mut self, n: usize, cost: bool) -> usize {
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            engine_error(format!("replay diverged at point {i}: choice {c} of {n}"));
        }
        self.trace.push(Point { c, n: n as u16, cost });
        c as usize
    }
    /// A choice whose non-default answers count as deviations.
    pub fn choose(&mut self, n: usize) -> usize {
        self.pick(n, true)
    }
    /// A choice all of whose answers are explored.
    pub fn choose_free(&mut self, n: usize) -> usize {
        self.pick(n, false)
    }
}
pub type Ch = Rc<RefCell<Chooser>>;

// ---------------------------------------------------------------- coverage

#[derive(Default)]
pub struct Local {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub executions: u64,
    pub nontrivial: u64,
    pub tree_nodes: u64,
    pub samples: Vec<String>,
    pub slot: usize,
    pub scratch: Option<std::path::PathBuf>,
}
const MAX_STATES: usize = 4_000_000;
pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
impl Local {
    /// One observable state reached (identified by its hash).
    pub fn state<T: Hash>(&mut self, t: &T) {
        if self.states.len() < MAX_STATES {
            self.states.insert(h(t));
        }
    }
    /// n operations or environment answers executed against the real code.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < MAX_STATES {
            self.outcomes.insert(h(t));
        }
    }
    /// This execution exercised the property non-trivially.
    pub fn hit(&mut self) {
        self.nontrivial += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
}

#[derive(Clone)]
pub struct Replay {
    pub space: String,
    pub index: u64,
    pub choices: Vec<u16>,
}
pub struct Violation {
    pub replay: Replay,
    pub msg: String,
}
struct SpaceReport {
    name: String,
    cases: u64,
    executions: u64,
    nodes: u64,
    bound: Option<usize>,
    complete: bool,
    wall: f64,
}
struct Slot {
    start_ms: AtomicU64,
    what: Mutex<Option<Replay>>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub threads: usize,
    pub hang_s: u64,
    filter: Option<Replay>,
    found: Mutex<Vec<Violation>>,
    engine: Mutex<Option<String>>,
    known: Vec<(String, String)>,
    known_seen: Mutex<BTreeMap<String, String>>,
    stop: AtomicBool,
    total: Mutex<Local>,
    spaces: Mutex<Vec<SpaceReport>>,
    slots: Arc<Vec<Slot>>,
    pub t0: Instant,
    deadline: Instant,
    pub replay_ran: AtomicBool,
}

thread_local! {
    static MY_SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC_LOC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC_LOC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

enum Outcome {
    Ok,
    Fail(Fail),
    Engine(String),
}
fn guarded(f: impl FnOnce() -> R) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(p) => {
            if let Some(e) = p.downcast_ref::<EngineError>() {
                return Outcome::Engine(e.0.clone());
            }
            if let Some(l) = p.downcast_ref::<Livelock>() {
                return Outcome::Fail(Fail::from(format!("{}", l.0)));
            }
            let (loc, msg) = PANIC_LOC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("harness/") {
                Outcome::Engine(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Fail(Fail::from(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

/// An execution's choices up to a point, with another alternative there.
#[derive(Clone)]
struct Branch {
    taken: Arc<[u16]>,
    at: u32,
    alt: u16,
}
impl Branch {
    fn prefix(&self) -> Vec<u16> {
        let mut v = Vec::with_capacity(self.at as usize + 1);
        v.extend_from_slice(&self.taken[..self.at as usize]);
        v.push(self.alt);
        v
    }
}
impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, filter: Option<Replay>) -> Arc<Ctx> {
        let known = load_known(id);
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
        let slots: Vec<Slot> = (0..threads + 1).map(|_| Slot { start_ms: AtomicU64::new(0), what: Mutex::new(None) }).collect();
        let ctx = Arc::new(Ctx {
            id: id.to_string(),
            thorough,
            seed,
            level: "model_checking",
            rule: "",
            assumptions: vec![],
            threads,
            hang_s: 150,
            filter,
            found: Mutex::new(vec![]),
            engine: Mutex::new(None),
            known,
            known_seen: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            total: Mutex::new(Local::default()),
            spaces: Mutex::new(vec![]),
            slots: Arc::new(slots),
            t0: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(if thorough { 3000 } else { 600 }),
            replay_ran: AtomicBool::new(false),
        });
        let c2 = ctx.clone();
        std::thread::spawn(move || c2.watchdog());
        ctx
    }

    fn watchdog(self: Arc<Ctx>) {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = self.t0.elapsed().as_millis() as u64 + 1;
            for s in self.slots.iter() {
                let st = s.start_ms.load(SeqCst);
                if st != 0 && now.saturating_sub(st) > self.hang_s * 1000 {
                    let what = s.what.lock().unwrap().clone();
                    if let Some(r) = what {
                        let v = Violation { replay: r, msg: format!("execution did not end within {} s", self.hang_s) };
                        self.report_and_exit(v);
                    }
                }
            }
        }
    }

    fn report_and_exit(&self, v: Violation) -> ! {
        self.found.lock().unwrap().push(v);
        let code = self.finish("", &[]);
        std::process::exit(code);
    }

    /// Called by the allocator on a request beyond the limit.
    pub fn oversize(&self, size: usize) {
        let slot = MY_SLOT.with(|s| s.get());
        let what = self.slots[slot].what.lock().unwrap().clone();
        if let Some(replay) = what {
            self.report_and_exit(Violation { replay, msg: format!("one allocation of {size} bytes requested") });
        }
    }

    fn begin(&self, slot: usize, space: &str, index: u64, choices: &[u16]) {
        MY_SLOT.with(|m| m.set(slot));
        let s = &self.slots[slot];
        *s.what.lock().unwrap() = Some(Replay { space: space.into(), index, choices: choices.to_vec() });
        s.start_ms.store(self.t0.elapsed().as_millis() as u64 + 1, SeqCst);
    }
    fn end(&self, slot: usize) {
        self.slots[slot].start_ms.store(0, SeqCst);
    }

    fn violate(&self, replay: Replay, f: Fail) {
        if let Some(k) = f.key {
            if let Some((_, text)) = self.known.iter().find(|(kk, _)| kk == k) {
                self.known_seen.lock().unwrap().insert(k.to_string(), text.clone());
                return;
            }
        }
        let mut found = self.found.lock().unwrap();
        if found.len() < 20 {
            found.push(Violation { replay, msg: f.msg });
        }
        self.stop.store(true, SeqCst);
    }
    fn engine(&self, msg: String) {
        self.engine.lock().unwrap().get_or_insert(msg);
        self.stop.store(true, SeqCst);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    /// Whether this run covers an element of a space (a replay covers only one).
    pub fn wanted(&self, space: &str, index: u64) -> bool {
        self.filter.as_ref().map_or(true, |f| f.space == space && f.index == index)
    }
    fn selected(&self, space: &str) -> bool {
        self.filter.as_ref().map_or(true, |f| f.space == space)
    }

    fn merge(&self, mut l: Local) {
        if let Some(p) = l.scratch.take() {
            let _ = std::fs::remove_file(p);
        }
        let mut t = self.total.lock().unwrap();
        t.transitions += l.transitions;
        t.executions += l.executions;
        t.nontrivial += l.nontrivial;
        t.tree_nodes += l.tree_nodes;
        for s in l.states {
            if t.states.len() < 4 * MAX_STATES {
                t.states.insert(s);
            }
        }
        for s in l.outcomes {
            if t.outcomes.len() < MAX_STATES {
                t.outcomes.insert(s);
            }
        }
        if t.samples.len() < 12 {
            t.samples.extend(l.samples);
        }
    }

    /// Executes `f(i)` for every i in 0..n.
    pub fn each<F>(&self, space: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Local) -> R + Sync,
    {
        self.each_t(space, n, self.threads, f)
    }
    pub fn each_t<F>(&self, space: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(u64, &mut Local) -> R + Sync,
    {
        if !self.selected(space) || self.stopped() {
            return;
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let execs = AtomicU64::new(0);
        let capped = AtomicBool::new(false);
        let chunk = (n / (threads as u64 * 16)).clamp(1, 512);
        std::thread::scope(|sc| {
            for w in 0..threads.min(n.max(1) as usize) {
                let (next, execs, capped, f) = (&next, &execs, &capped, &f);
                sc.spawn(move || {
                    let mut l = Local { slot: w, ..Default::default() };
                    let mut done = 0;
                    'outer: loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            if self.stopped() {
                                break 'outer;
                            }
                            if Instant::now() > self.deadline {
                                capped.store(true, SeqCst);
                                break 'outer;
                            }
                            if let Some(fl) = &self.filter {
                                if fl.index != i {
                                    continue;
                                }
                                self.replay_ran.store(true, SeqCst);
                            }
                            self.begin(w, space, i, &[]);
                            let o = guarded(|| f(i, &mut l));
                            self.end(w);
                            done += 1;
                            match o {
                                Outcome::Ok => {}
                                Outcome::Fail(e) => self.violate(Replay { space: space.into(), index: i, choices: vec![] }, e),
                                Outcome::Engine(e) => self.engine(format!("{space}[{i}]: {e}")),
                            }
                        }
                    }
                    l.executions += done;
                    execs.fetch_add(done, SeqCst);
                    self.merge(l);
                });
            }
        });
        let e = execs.load(SeqCst);
        self.spaces.lock().unwrap().push(SpaceReport {
            name: space.into(),
            cases: n,
            executions: e,
            nodes: e,
            bound: None,
            complete: e == n && !capped.load(SeqCst),
            wall: t.elapsed().as_secs_f64(),
        });
    }

    /// For each job in 0..njobs: executes `f(job, chooser)` for every choice sequence with at most
    /// `bound` deviations.
    pub fn explore<F>(&self, space: &str, njobs: u64, bound: usize, f: F)
    where
        F: Fn(u64, &Ch, &mut Local) -> R + Sync,
    {
        if !self.selected(space) || self.stopped() {
            return;
        }
        let t = Instant::now();
        let execs = AtomicU64::new(0);
        let nodes = AtomicU64::new(0);
        let capped = AtomicBool::new(false);

        let run_one = |l: &mut Local, job: u64, prefix: &[u16]| -> Option<Vec<Point>> {
            if self.stopped() {
                return None;
            }
            if Instant::now() > self.deadline {
                capped.store(true, SeqCst);
                return None;
            }
            if let Some(fl) = &self.filter {
                if fl.index != job {
                    return None;
                }
                self.replay_ran.store(true, SeqCst);
            }
            let ch: Ch = Rc::new(RefCell::new(Chooser::new(prefix.to_vec())));
            self.begin(l.slot, space, job, prefix);
            let o = guarded(|| f(job, &ch, l));
            self.end(l.slot);
            l.executions += 1;
            let trace = std::mem::take(&mut ch.borrow_mut().trace);
            let fresh = (trace.len() + 1).saturating_sub(prefix.len()) as u64;
            l.tree_nodes += fresh;
            match o {
                Outcome::Ok => {}
                Outcome::Fail(e) => {
                    let mut choices: Vec<u16> = trace.iter().map(|p| p.c).collect();
                    while choices.last() == Some(&0) {
                        choices.pop();
                    }
                    self.violate(Replay { space: space.into(), index: job, choices }, e);
                    return None;
                }
                Outcome::Engine(e) => {
                    self.engine(format!("{space}[{job}]: {e}"));
                    return None;
                }
            }
            if trace.len() < prefix.len() {
                self.engine(format!("{space}[{job}]: replay ended before its prefix"));
                return None;
            }
            Some(trace)
        };
        let children = |trace: &[Point], plen: usize| -> Vec<Branch> {
            let mut out = Vec::new();
            let taken: Arc<[u16]> = trace.iter().map(|p| p.c).collect();
            let mut cost = trace[..plen].iter().filter(|p| p.cost && p.c != 0).count();
            for i in plen..trace.len() {
                let p = trace[i];
                if !p.cost || cost < bound {
                    for alt in 1..p.n {
                        out.push(Branch { taken: taken.clone(), at: i as u32, alt });
                    }
                }
                if p.cost && p.c != 0 {
                    cost += 1;
                }
            }
            out
        };

        if let Some(fl) = self.filter.clone() {
            let mut l = Local::default();
            run_one(&mut l, fl.index, &fl.choices);
            self.merge(l);
            return;
        }

        // Phase 1: the deviation-free execution of each job, twice, and its first-level branches.
        let work: Mutex<Vec<(u64, Branch)>> = Mutex::new(Vec::new());
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..self.threads.min(njobs.max(1) as usize) {
                let (next, work, execs, nodes, run_one, children) = (&next, &work, &execs, &nodes, &run_one, &children);
                sc.spawn(move || {
                    let mut l = Local { slot: w, ..Default::default() };
                    loop {
                        let job = next.fetch_add(1, SeqCst);
                        if job >= njobs {
                            break;
                        }
                        let Some(t1) = run_one(&mut l, job, &[]) else {
                            continue;
                        };
                        let mut l2 = Local { slot: w, ..Default::default() };
                        let t2 = run_one(&mut l2, job, &[]);
                        if let Some(p) = l2.scratch.take() {
                            let _ = std::fs::remove_file(p);
                        }
                        let Some(t2) = t2 else { continue };
                        if t1.len() != t2.len() || t1.iter().zip(&t2).any(|(a, b)| a.n != b.n || a.c != b.c) {
                            self.engine(format!("{space}[{job}]: two identical runs diverged"));
                            continue;
                        }
                        let ch = children(&t1, 0);
                        work.lock().unwrap().extend(ch.into_iter().map(|c| (job, c)));
                    }
                    execs.fetch_add(l.executions, SeqCst);
                    nodes.fetch_add(l.tree_nodes, SeqCst);
                    self.merge(l);
                });
            }
        });
        // Phase 2: the subtrees.
        let work = work.into_inner().unwrap();
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..self.threads {
                let (next, work, execs, nodes, run_one, children) = (&next, &work, &execs, &nodes, &run_one, &children);
                sc.spawn(move || {
                    let mut l = Local { slot: w, ..Default::default() };
                    loop {
                        let i = next.fetch_add(1, SeqCst) as usize;
                        if i >= work.len() || self.stopped() {
                            break;
                        }
                        let (job, first) = &work[i];
                        let mut stack = vec![first.clone()];
                        while let Some(p) = stack.pop() {
                            let p = p.prefix();
                            let Some(tr) = run_one(&mut l, *job, &p) else {
                                if self.stopped() {
                                    break;
                                }
                                continue;
                            };
                            stack.extend(children(&tr, p.len()));
                        }
                    }
                    execs.fetch_add(l.executions, SeqCst);
                    nodes.fetch_add(l.tree_nodes, SeqCst);
                    self.merge(l);
                });
            }
        });
        let complete = !capped.load(SeqCst) && !self.stopped();
        self.spaces.lock().unwrap().push(SpaceReport {
            name: space.into(),
            cases: njobs,
            executions: execs.load(SeqCst),
            nodes: nodes.load(SeqCst),
            bound: Some(bound),
            complete,
            wall: t.elapsed().as_secs_f64(),
        });
    }

    /// Prints the verdict, writes the evidence, returns the exit code.
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        let t = self.total.lock().unwrap();
        let found = self.found.lock().unwrap();
        let spaces = self.spaces.lock().unwrap();
        let wall = self.t0.elapsed().as_secs_f64();
        let exhaustive = spaces.iter().all(|s| s.complete) && found.is_empty();
        let nodes: u64 = spaces.iter().filter(|s| s.bound.is_some()).map(|s| s.nodes).sum();
        let states = nodes + t.states.len() as u64;
        let mut cov = String::new();
        cov += &format!("\"states\": {}, ", states);
        cov += &format!("\"transitions\": {}, ", t.transitions);
        cov += &format!("\"traces_validated_against_impl\": {}, ", t.executions);
        cov += &format!("\"evaluations\": {}, ", t.executions);
        cov += &format!("\"distinct_nontrivial\": {}, ", t.nontrivial);
        cov += &format!("\"decision_tree_nodes\": {}, ", nodes);
        cov += &format!("\"distinct_observed_states\": {}, ", t.states.len());
        cov += &format!("\"distinct_outcomes\": {}, ", t.outcomes.len());
        cov += &format!("\"exhaustive\": {}, ", exhaustive);
        cov += &format!("\"rule\": {}, ", js(rule));
        let sp: Vec<String> = spaces
            .iter()
            .map(|s| {
                format!(
                    "{{\"space\": {}, \"cases\": {}, \"executions\": {}, \"deviation_bound\": {}, \"complete\": {}, \"wall_s\": {:.2}}}",
                    js(&s.name),
                    s.cases,
                    s.executions,
                    s.bound.map_or("null".into(), |b| b.to_string()),
                    s.complete,
                    s.wall
                )
            })
            .collect();
        cov += &format!("\"spaces\": [{}], ", sp.join(", "));
        let samples: Vec<String> = if t.samples.is_empty() {
            spaces.iter().take(3).map(|s| js(&format!("{}[0]", s.name))).collect()
        } else {
            t.samples.iter().map(|s| js(s)).collect()
        };
        cov += &format!("\"samples\": [{}]", samples.join(", "));
        let asm: Vec<String> = assumptions.iter().map(|s| js(s)).collect();
        let ev = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            js(&self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(crate::level(&self.id)),
            cov,
            asm.join(", "),
            wall,
            found.len()
        );
        if self.filter.is_none() {
            let dir = root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), ev) {
                eprintln!("cannot write evidence: {e}");
                return 2;
            }
            for s in spaces.iter() {
                println!(
                    "{:28} cases={:<9} executions={:<10} nodes={:<11} bound={:?} complete={} {:.2}s",
                    s.name, s.cases, s.executions, s.nodes, s.bound, s.complete, s.wall
                );
            }
            println!(
                "{}: states={} transitions={} executions={} nontrivial={} outcomes={} exhaustive={} wall={:.1}s",
                self.id,
                states,
                t.transitions,
                t.executions,
                t.nontrivial,
                t.outcomes.len(),
                exhaustive,
                wall
            );
        }
        for (_, text) in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, text);
        }
        if !found.is_empty() {
            // Fewest deviations first.
            let mut v: Vec<&Violation> = found.iter().collect();
            v.sort_by_key(|v| (v.replay.choices.iter().filter(|c| **c != 0).count(), v.replay.choices.len()));
            for v in v.iter().take(3) {
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{:016x}.replay", self.id, h(&(&v.replay.space, v.replay.index, &v.replay.choices))));
                let body = format!(
                    "property={}\ntier={}\nspace={}\nindex={}\nchoices={}\nmessage={}\n# replay with: /verif/check.sh replay {}\n",
                    self.id,
                    if self.thorough { "thorough" } else { "quick" },
                    v.replay.space,
                    v.replay.index,
                    v.replay.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
                    v.msg.replace('\n', " "),
                    p.display()
                );
                let _ = std::fs::write(&p, body);
                println!("violation: {} [{}] {}", v.replay.space, v.replay.index, v.msg);
                println!("VIOLATION property={} replay={}", self.id, p.display());
            }
            return 1;
        }
        if let Some(e) = self.engine.lock().unwrap().as_ref() {
            eprintln!("engine error: {e}");
            return 2;
        }
        if self.filter.is_some() {
            if !self.replay_ran.load(SeqCst) {
                eprintln!("replay: no such execution");
                return 2;
            }
            println!("replay: property held on this execution");
        }
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
                let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                if p == id && !k.is_empty() {
                    out.push((k.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    out
}

/// Mixed-radix decoding of an index into a product space.
pub struct Mix(pub u64);
impl Mix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len())]
    }
}
