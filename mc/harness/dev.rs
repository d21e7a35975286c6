//! Scripted sources and sinks: every answer they give is a choice of the explorer.
use crate::engine::{Ch, Livelock};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, SeekFrom};
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alt {
    /// Not ready now; wakes the task at once.
    Pend,
    /// One byte only.
    One,
    /// All but one byte.
    AllButOne,
    /// Fails with an error.
    Err,
    /// Accepts nothing (`Ok(0)`, writes only).
    Zero,
    /// Never becomes ready: the caller gives up and drops the call (writes only).
    Drop,
}
pub const ERR_TEXT: &str = "injected device failure";
/// What a device failure may be. (`Interrupted` asks for a retry and is no failure.)
pub const FAILURES: &[io::ErrorKind] = {
    use io::ErrorKind::*;
    &[
        Other,
        TimedOut,
        BrokenPipe,
        ConnectionReset,
        UnexpectedEof,
        InvalidData,
        WouldBlock,
        PermissionDenied,
        NotFound,
        WriteZero,
        InvalidInput,
        OutOfMemory,
        Unsupported,
        NotConnected,
        ConnectionAborted,
        ConnectionRefused,
        AlreadyExists,
        AddrInUse,
        HostUnreachable,
        NetworkUnreachable,
        NetworkDown,
        StaleNetworkFileHandle,
        StorageFull,
        NotSeekable,
        QuotaExceeded,
        FileTooLarge,
        ResourceBusy,
        Deadlock,
        IsADirectory,
        NotADirectory,
        ReadOnlyFilesystem,
    ]
};
thread_local! {
    static KIND: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Failures injected while this is alive have the given kind.
pub struct KindGuard(());
impl Drop for KindGuard {
    fn drop(&mut self) {
        KIND.with(|k| k.set(0));
    }
}
pub fn fail_with(k: usize) -> KindGuard {
    KIND.with(|c| c.set(k));
    KindGuard(())
}
/// Errors of the operating system (Linux numbers).
const CODES: &[i32] = &[1, 5, 6, 9, 11, 13, 19, 22, 27, 28, 29, 32, 61, 71, 75, 103, 104, 107, 110, 112, 116, 121, 122, 125];
/// A failure is of a kind with a text, of a kind alone, or an error of the operating system.
pub const FAILS: usize = 2 * FAILURES.len() + CODES.len();
fn failure(k: usize) -> io::Error {
    let n = FAILURES.len();
    match k {
        k if k < n => io::Error::new(FAILURES[k], ERR_TEXT),
        k if k < 2 * n => FAILURES[k - n].into(),
        k => io::Error::from_raw_os_error(CODES[k - 2 * n]),
    }
}
pub fn fail_name(k: usize) -> String {
    format!("{:?}", failure(k))
}
pub fn injected() -> io::Error {
    failure(KIND.with(|k| k.get()))
}
/// Whether this may be the failure that is injected at present.
pub fn looks_injected(e: &io::Error) -> bool {
    let want = injected();
    e.to_string().contains(ERR_TEXT)
        || (want.get_ref().is_none() && e.get_ref().is_none() && want.kind() == e.kind() && want.raw_os_error() == e.raw_os_error())
}
const OP_CAP: u64 = 2_000_000;

// ---------------------------------------------------------------- source

pub struct SrcState {
    pub data: Arc<Vec<u8>>,
    /// The source ends here (<= data.len()).
    pub limit: usize,
    pub pos: u64,
    window_end: u64,
    /// Most that a fill offers at once.
    pub window: usize,
    /// Size of the default answer.
    pub chunk: usize,
    /// Return Pending before every answer.
    pub pend_always: bool,
    pend_flip: bool,
    pub menu: &'static [Alt],
    pub seek_menu: &'static [Alt],
    pub ch: Option<Ch>,
    pub ops: u64,
    /// Number of failures handed out.
    pub errors: u64,
    /// After a failure, fail forever.
    pub sticky: bool,
    pub broken: bool,
    /// Nothing is delivered beyond this position, reading there is a failure.
    pub fail_at: Option<u64>,
    /// Total bytes handed out by reads (not fills).
    pub high: u64,
}
/// A seekable, buffered source.
#[derive(Clone)]
pub struct Source(pub Rc<RefCell<SrcState>>);

pub const READ_MENU: &[Alt] = &[Alt::Pend, Alt::One, Alt::AllButOne];
pub const SEEK_MENU: &[Alt] = &[Alt::Pend];
pub const READ_FAULTS: &[Alt] = &[Alt::Err, Alt::One, Alt::Pend];
pub const SEEK_FAULTS: &[Alt] = &[Alt::Err, Alt::Pend];

impl Source {
    pub fn new(data: &Arc<Vec<u8>>) -> Source {
        Source(Rc::new(RefCell::new(SrcState {
            limit: data.len(),
            data: data.clone(),
            pos: 0,
            window_end: 0,
            window: 8192,
            chunk: usize::MAX,
            pend_always: false,
            pend_flip: false,
            menu: &[],
            seek_menu: &[],
            ch: None,
            ops: 0,
            errors: 0,
            sticky: false,
            broken: false,
            fail_at: None,
            high: 0,
        })))
    }
    pub fn scripted(data: &Arc<Vec<u8>>, ch: &Ch, menu: &'static [Alt], seek_menu: &'static [Alt]) -> Source {
        let s = Source::new(data);
        {
            let mut st = s.0.borrow_mut();
            st.ch = Some(ch.clone());
            st.menu = menu;
            st.seek_menu = seek_menu;
        }
        s
    }
    pub fn chunked(data: &Arc<Vec<u8>>, chunk: usize, pend_always: bool) -> Source {
        let s = Source::new(data);
        {
            let mut st = s.0.borrow_mut();
            st.chunk = chunk;
            st.pend_always = pend_always;
        }
        s
    }
    pub fn limit(self, n: usize) -> Source {
        self.0.borrow_mut().limit = n;
        self
    }
    pub fn pos(&self) -> u64 {
        self.0.borrow().pos
    }
    pub fn errors(&self) -> u64 {
        self.0.borrow().errors
    }
    pub fn ops(&self) -> u64 {
        self.0.borrow().ops
    }
}
impl SrcState {
    fn tick(&mut self) {
        self.ops += 1;
        if self.ops > OP_CAP {
            std::panic::panic_any(Livelock(format!("source used {OP_CAP} times")));
        }
    }
    fn decide(&mut self, menu: &'static [Alt], cx: &mut Context<'_>) -> Option<Alt> {
        self.tick();
        if self.broken {
            self.errors += 1;
            return Some(Alt::Err);
        }
        if self.pend_always {
            self.pend_flip = !self.pend_flip;
            if self.pend_flip {
                cx.waker().wake_by_ref();
                return Some(Alt::Pend);
            }
        }
        let ch = self.ch.as_ref()?;
        if menu.is_empty() {
            return None;
        }
        let c = ch.borrow_mut().choose(1 + menu.len());
        if c == 0 {
            return None;
        }
        let a = menu[c - 1];
        match a {
            Alt::Pend => cx.waker().wake_by_ref(),
            Alt::Err => {
                self.errors += 1;
                if self.sticky {
                    self.broken = true;
                }
            }
            _ => {}
        }
        Some(a)
    }
    /// The failure placed at `fail_at`, if that is reached.
    fn placed(&mut self) -> bool {
        let hit = self.fail_at.is_some_and(|n| self.pos >= n);
        if hit {
            self.errors += 1;
            if !self.sticky {
                self.fail_at = None;
            }
        }
        hit
    }
    fn amount(&self, alt: Option<Alt>, want: usize) -> usize {
        let want = self.fail_at.map_or(want, |n| want.min(n.saturating_sub(self.pos).min(usize::MAX as u64) as usize));
        let n = want.min(self.chunk);
        match alt {
            Some(Alt::One) => n.min(1),
            Some(Alt::AllButOne) => {
                if n > 1 {
                    n - 1
                } else {
                    n
                }
            }
            _ => n,
        }
    }
}
impl AsyncRead for Source {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.borrow_mut();
        let avail = |s: &SrcState| (s.limit as u64).saturating_sub(s.pos);
        let n;
        if s.pos < s.window_end {
            s.tick();
            n = ((s.window_end - s.pos) as usize).min(buf.len());
        } else {
            let menu = s.menu;
            let alt = s.decide(menu, cx);
            match alt {
                Some(Alt::Pend) => return Poll::Pending,
                Some(Alt::Err) => return Poll::Ready(Err(injected())),
                _ => {}
            }
            if !buf.is_empty() && s.placed() {
                return Poll::Ready(Err(injected()));
            }
            let want = (avail(&s).min(usize::MAX as u64) as usize).min(buf.len());
            n = s.amount(alt, want);
        }
        let p = s.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&s.data[p..p + n]);
        }
        s.pos += n as u64;
        s.high = s.high.max(s.pos);
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Source {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let (p, e);
        {
            let mut s = self.0.borrow_mut();
            if s.pos >= s.window_end {
                let menu = s.menu;
                let alt = s.decide(menu, cx);
                match alt {
                    Some(Alt::Pend) => return Poll::Pending,
                    Some(Alt::Err) => return Poll::Ready(Err(injected())),
                    _ => {}
                }
                if s.placed() {
                    return Poll::Ready(Err(injected()));
                }
                let avail = (s.limit as u64).saturating_sub(s.pos).min(s.window as u64) as usize;
                let n = s.amount(alt, avail);
                s.window_end = s.pos + n as u64;
            } else {
                s.tick();
            }
            p = s.pos.min(s.limit as u64) as usize;
            e = s.window_end.max(s.pos).min(s.limit as u64) as usize;
        }
        let e = e.max(p);
        // The data is immutable and outlives the source.
        let this = self.get_mut();
        let ptr = this.0.borrow().data.as_ptr();
        Poll::Ready(Ok(unsafe { std::slice::from_raw_parts(ptr.add(p), e - p) }))
    }
    fn consume(self: Pin<&mut Self>, amt: usize) {
        let mut s = self.0.borrow_mut();
        if amt as u64 > s.window_end.saturating_sub(s.pos) {
            panic_consume(amt);
        }
        s.pos += amt as u64;
        s.high = s.high.max(s.pos);
    }
}
fn panic_consume(amt: usize) -> ! {
    std::panic::panic_any(Livelock(format!("consumed {amt} bytes more than the source had filled")))
}
impl AsyncSeek for Source {
    fn poll_seek(self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        let mut s = self.0.borrow_mut();
        let menu = s.seek_menu;
        match s.decide(menu, cx) {
            Some(Alt::Pend) => return Poll::Pending,
            Some(Alt::Err) => return Poll::Ready(Err(injected())),
            _ => {}
        }
        let new = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => (s.limit as u64).checked_add_signed(d),
            SeekFrom::Current(d) => s.pos.checked_add_signed(d),
        };
        match new {
            None => Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start"))),
            Some(n) => {
                s.pos = n;
                s.window_end = n;
                Poll::Ready(Ok(n))
            }
        }
    }
}

// ---------------------------------------------------------------- sink

pub struct SinkState {
    pub out: Vec<u8>,
    pub chunk: usize,
    pub pend_always: bool,
    pend_flip: bool,
    pub menu: &'static [Alt],
    pub ch: Option<Ch>,
    pub ops: u64,
    pub closes: u64,
    pub flushes: u64,
    /// Failures handed out (errors, zero writes).
    pub errors: u64,
    /// The current call is to be dropped by its caller.
    pub abandon: bool,
    /// No faults (only delays) while set.
    pub calm: bool,
    pub vectored: bool,
    /// Length at the first close.
    pub early_close: Option<usize>,
    /// Length at the last flush that succeeded.
    pub flushed: usize,
    /// Up to here everything is accepted, then a write fails once, in this manner (Err, Zero, Drop).
    pub fail_at: Option<(usize, Alt)>,
}
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkState>>);
pub const WRITE_MENU: &[Alt] = &[Alt::Pend, Alt::One, Alt::AllButOne];
pub const WRITE_FAULTS: &[Alt] = &[Alt::Err, Alt::Drop, Alt::Zero, Alt::One, Alt::Pend];

impl Sink {
    pub fn new() -> Sink {
        Sink(Rc::new(RefCell::new(SinkState {
            out: vec![],
            chunk: usize::MAX,
            pend_always: false,
            pend_flip: false,
            menu: &[],
            ch: None,
            ops: 0,
            closes: 0,
            flushes: 0,
            errors: 0,
            abandon: false,
            calm: false,
            vectored: false,
            early_close: None,
            flushed: 0,
            fail_at: None,
        })))
    }
    pub fn scripted(ch: &Ch, menu: &'static [Alt]) -> Sink {
        let s = Sink::new();
        s.0.borrow_mut().ch = Some(ch.clone());
        s.0.borrow_mut().menu = menu;
        s
    }
    pub fn chunked(chunk: usize, pend: bool) -> Sink {
        let s = Sink::new();
        s.0.borrow_mut().chunk = chunk;
        s.0.borrow_mut().pend_always = pend;
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().out.clone()
    }
}
impl SinkState {
    fn decide(&mut self, write: bool, cx: &mut Context<'_>) -> Option<Alt> {
        self.ops += 1;
        if self.ops > OP_CAP {
            std::panic::panic_any(Livelock(format!("sink used {OP_CAP} times")));
        }
        if self.pend_always {
            self.pend_flip = !self.pend_flip;
            if self.pend_flip {
                cx.waker().wake_by_ref();
                return Some(Alt::Pend);
            }
        }
        let ch = self.ch.as_ref()?;
        if self.menu.is_empty() {
            return None;
        }
        let menu: Vec<Alt> = self
            .menu
            .iter()
            .copied()
            .filter(|a| write || matches!(a, Alt::Pend | Alt::Err | Alt::Drop))
            .filter(|a| !self.calm || matches!(a, Alt::Pend | Alt::One | Alt::AllButOne))
            .collect();
        let c = ch.borrow_mut().choose(1 + menu.len());
        if c == 0 {
            return None;
        }
        let a = menu[c - 1];
        match a {
            Alt::Pend => cx.waker().wake_by_ref(),
            Alt::Err | Alt::Zero => self.errors += 1,
            Alt::Drop => self.abandon = true,
            _ => {}
        }
        Some(a)
    }
}
impl AsyncWrite for Sink {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            s.ops += 1;
            return Poll::Ready(Ok(0));
        }
        let mut alt = s.decide(true, cx);
        let mut n = buf.len().min(s.chunk);
        if let Some((at, how)) = s.fail_at {
            if s.out.len() < at {
                n = n.min(at - s.out.len());
            } else {
                s.fail_at = None;
                alt = Some(how);
                match how {
                    Alt::Drop => s.abandon = true,
                    _ => s.errors += 1,
                }
            }
        }
        let n = match alt {
            Some(Alt::Pend) | Some(Alt::Drop) => return Poll::Pending,
            Some(Alt::Err) => return Poll::Ready(Err(injected())),
            Some(Alt::Zero) => return Poll::Ready(Ok(0)),
            Some(Alt::One) => 1,
            Some(Alt::AllButOne) if n > 1 => n - 1,
            _ => n,
        };
        s.out.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.borrow_mut();
        s.flushes += 1;
        match s.decide(false, cx) {
            Some(Alt::Pend) | Some(Alt::Drop) => Poll::Pending,
            Some(Alt::Err) => Poll::Ready(Err(injected())),
            _ => {
                s.flushed = s.out.len();
                Poll::Ready(Ok(()))
            }
        }
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.borrow_mut();
        s.closes += 1;
        let n = s.out.len();
        s.early_close.get_or_insert(n);
        match s.decide(false, cx) {
            Some(Alt::Pend) | Some(Alt::Drop) => Poll::Pending,
            Some(Alt::Err) => Poll::Ready(Err(injected())),
            _ => Poll::Ready(Ok(())),
        }
    }
}

// ---------------------------------------------------------------- sparse device (beyond 4 GiB)

#[derive(Clone, Debug)]
pub enum Seg {
    Bytes(Vec<u8>),
    Zeros(u64),
}
impl Seg {
    fn len(&self) -> u64 {
        match self {
            Seg::Bytes(b) => b.len() as u64,
            Seg::Zeros(n) => *n,
        }
    }
}
/// Bytes with long runs of zeros kept as counts.
#[derive(Clone, Debug, Default)]
pub struct Sparse {
    pub segs: Vec<(u64, Seg)>,
    pub len: u64,
}
/// A slice of n zeros that costs no memory.
pub fn zeros(n: u64) -> &'static [u8] {
    let n = n as usize;
    assert!(n <= ZERO_MAX);
    unsafe { std::slice::from_raw_parts(zero_base(), n) }
}
const ZERO_MAX: usize = 9 << 30;
fn zero_base() -> *const u8 {
    static P: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *P.get_or_init(|| unsafe {
        let p = libc::mmap(std::ptr::null_mut(), ZERO_MAX, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED, "cannot map the zero region");
        p as usize
    });
    p as *const u8
}
fn in_zeros(b: &[u8]) -> bool {
    let (a, z) = (b.as_ptr() as usize, zero_base() as usize);
    a >= z && a < z + ZERO_MAX
}
impl Sparse {
    pub fn push_bytes(&mut self, b: &[u8]) {
        if b.len() >= 4096 && (in_zeros(b) || b.iter().all(|x| *x == 0)) {
            return self.push_zeros(b.len() as u64);
        }
        if let Some((_, Seg::Bytes(v))) = self.segs.last_mut() {
            v.extend_from_slice(b);
        } else if !b.is_empty() {
            self.segs.push((self.len, Seg::Bytes(b.to_vec())));
        }
        self.len += b.len() as u64;
    }
    pub fn push_zeros(&mut self, n: u64) {
        if n == 0 {
            return;
        }
        if let Some((_, Seg::Zeros(m))) = self.segs.last_mut() {
            *m += n;
        } else {
            self.segs.push((self.len, Seg::Zeros(n)));
        }
        self.len += n;
    }
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        let mut done = 0;
        let mut off = off;
        let mut i = self.segs.partition_point(|(o, s)| o + s.len() <= off);
        while done < buf.len() && i < self.segs.len() {
            let (o, s) = &self.segs[i];
            let rel = (off - o) as usize;
            let n = ((s.len() - rel as u64) as usize).min(buf.len() - done);
            match s {
                Seg::Bytes(b) => buf[done..done + n].copy_from_slice(&b[rel..rel + n]),
                Seg::Zeros(_) => buf[done..done + n].fill(0),
            }
            done += n;
            off += n as u64;
            i += 1;
        }
        done
    }
}
#[derive(Clone)]
pub struct SparseSink(pub Rc<RefCell<Sparse>>);
impl AsyncWrite for SparseSink {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.borrow_mut().push_bytes(buf);
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
/// A seekable source over sparse data; wrap in a BufReader.
#[derive(Clone)]
pub struct SparseSource {
    pub data: Rc<Sparse>,
    pub pos: u64,
}
impl AsyncRead for SparseSource {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let n = self.data.read_at(self.pos, buf);
        self.pos += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncSeek for SparseSource {
    fn poll_seek(mut self: Pin<&mut Self>, _: &mut Context<'_>, to: SeekFrom) -> Poll<io::Result<u64>> {
        let new = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(d) => self.data.len.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match new {
            None => Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start"))),
            Some(n) => {
                self.pos = n;
                Poll::Ready(Ok(n))
            }
        }
    }
}
