//! The simulated world: byte sources and sinks whose every chunk size, delay,
//! error and end is decided by the tape.

use crate::core::*;
use crate::ensure;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, SeekFrom};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

// ---------------------------------------------------------------- stores

/// Random-access bytes.
pub trait Blob {
    fn len(&self) -> u64;
    /// Fills as much of `buf` as exists at `off`.
    fn read_at(&self, off: u64, buf: &mut [u8]) -> usize;
    fn slice(&self, off: u64, len: u64) -> Vec<u8> {
        let mut v = vec![0; len as usize];
        let n = self.read_at(off, &mut v);
        v.truncate(n);
        v
    }
}

impl Blob for Vec<u8> {
    fn len(&self) -> u64 {
        Vec::len(self) as u64
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= Vec::len(self) as u64 {
            return 0;
        }
        let s = &self[off as usize..];
        let n = s.len().min(buf.len());
        buf[..n].copy_from_slice(&s[..n]);
        n
    }
}

/// Bytes stored as literal runs and runs of one repeated byte, so archives of
/// many GiB cost almost nothing.
#[derive(Default, Clone)]
pub struct Sparse {
    segs: Vec<(u64, Seg)>,
    len: u64,
}
#[derive(Clone)]
enum Seg {
    Lit(Vec<u8>),
    Fill(u8, u64),
}

impl Sparse {
    pub fn push(&mut self, buf: &[u8]) {
        if in_zeros(buf) && (buf.len() >= 4096 || matches!(self.segs.last(), Some((_, Seg::Fill(0, _))))) {
            return self.push_fill(0, buf.len() as u64);
        }
        let mut i = 0;
        while i < buf.len() {
            let run = if buf.len() - i >= 4096 { uniform_prefix(&buf[i..]) } else { 0 };
            if run >= 4096 {
                let b = buf[i];
                match self.segs.last_mut() {
                    Some((_, Seg::Fill(fb, n))) if *fb == b => *n += run as u64,
                    _ => self.segs.push((self.len, Seg::Fill(b, run as u64))),
                }
                self.len += run as u64;
                i += run;
            } else {
                let end = (i + 4096).min(buf.len());
                match self.segs.last_mut() {
                    Some((_, Seg::Fill(fb, n))) if buf[i..end].iter().all(|x| x == fb) => *n += (end - i) as u64,
                    Some((_, Seg::Lit(v))) => v.extend_from_slice(&buf[i..end]),
                    _ => self.segs.push((self.len, Seg::Lit(buf[i..end].to_vec()))),
                }
                self.len += (end - i) as u64;
                i = end;
            }
        }
    }
    pub fn push_fill(&mut self, b: u8, n: u64) {
        if n > 0 {
            match self.segs.last_mut() {
                Some((_, Seg::Fill(fb, m))) if *fb == b => *m += n,
                _ => self.segs.push((self.len, Seg::Fill(b, n))),
            }
            self.len += n;
        }
    }
}

const ZEROS: usize = 20 << 30;

fn zero_map() -> usize {
    static MAP: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *MAP.get_or_init(|| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ZEROS,
            libc::PROT_READ,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "cannot map {ZEROS} bytes of zeros");
        p as usize
    })
}

/// Many GiB of zeros that exist only as address space.
pub fn zeros(n: u64) -> &'static [u8] {
    assert!(n as usize <= ZEROS);
    unsafe { std::slice::from_raw_parts(zero_map() as *const u8, n as usize) }
}

fn in_zeros(b: &[u8]) -> bool {
    let p = b.as_ptr() as usize;
    let m = zero_map();
    p >= m && p + b.len() <= m + ZEROS
}

fn uniform_prefix(buf: &[u8]) -> usize {
    let b = buf[0];
    let pat = [b; 4096];
    let mut n = 0;
    while n + 4096 <= buf.len() && buf[n..n + 4096] == pat {
        n += 4096;
    }
    while n < buf.len() && buf[n] == b {
        n += 1;
        if n % 4096 == 0 {
            break;
        }
    }
    n
}

impl Blob for Sparse {
    fn len(&self) -> u64 {
        self.len
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.len || buf.is_empty() {
            return 0;
        }
        let mut i = match self.segs.binary_search_by(|s| s.0.cmp(&off)) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        let mut done = 0;
        let mut off = off;
        while done < buf.len() && i < self.segs.len() {
            let (start, seg) = &self.segs[i];
            let rel = off - start;
            let n = match seg {
                Seg::Lit(v) => {
                    let s = &v[rel as usize..];
                    let n = s.len().min(buf.len() - done);
                    buf[done..done + n].copy_from_slice(&s[..n]);
                    n
                }
                Seg::Fill(b, len) => {
                    let n = ((len - rel) as usize).min(buf.len() - done);
                    buf[done..done + n].fill(*b);
                    n
                }
            };
            done += n;
            off += n as u64;
            i += 1;
        }
        done
    }
}

// ---------------------------------------------------------------- config

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Full,
    Max(u32),
    Random,
}

#[derive(Clone, Copy, Debug)]
pub struct IoCfg {
    pub chunk: Chunk,
    pub pend: u32,      // permille per operation
    pub delay: u32,     // max virtual delay
    pub err: u32,       // permille per operation
    pub err_budget: u32,
    pub sticky: bool,   // after the first error every later operation fails
    pub zero: u32,      // permille: zero-length write (sink only)
}

impl IoCfg {
    pub const PERFECT: IoCfg =
        IoCfg { chunk: Chunk::Full, pend: 0, delay: 0, err: 0, err_budget: 0, sticky: false, zero: 0 };

    /// A fault-free schedule: chunking and delays only.
    pub fn gen_benign() -> IoCfg {
        let mut c = IoCfg::PERFECT;
        c.chunk = match weighted(&[20, 20, 15, 25, 20]) {
            0 => Chunk::Full,
            1 => Chunk::Random,
            2 => Chunk::Max(1),
            3 => Chunk::Max(1 + draw(40)),
            _ => Chunk::Max([64, 127, 512, 1000, 2047, 2048, 4096, 8191][draw(8) as usize]),
        };
        c.pend = [0, 30, 150, 500, 1000][weighted(&[25, 20, 25, 20, 10])];
        c.delay = [0, 1, 5, 1000][draw(4) as usize];
        c
    }

    pub fn gen_faulty(err_budget: u32) -> IoCfg {
        let mut c = IoCfg::gen_benign();
        c.err = [3, 15, 60, 200][weighted(&[3, 4, 3, 1])];
        c.err_budget = err_budget;
        c
    }
}

pub const ERR_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::Interrupted,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
];

fn make_err(op: &str) -> Error {
    let k = ERR_KINDS[draw(ERR_KINDS.len() as u32) as usize];
    trace(|| format!("FAULT {op} error {k:?}"));
    Error::new(k, "injected")
}

// ---------------------------------------------------------------- pend gate

#[derive(Default)]
struct Gate {
    ticket: Option<u64>,
    last_pending_poll: u64,
    repolls: u32,
}

enum GateState {
    Idle,
    Waiting,
    Released,
}

impl Gate {
    fn check(&mut self, cx: &mut Context<'_>, id: u32) -> GateState {
        match self.ticket {
            None => GateState::Idle,
            Some(t) => {
                if reregister(t, cx.waker().clone()) {
                    io_event(id, 9, 0, false);
                    let p = with(|s| s.polls);
                    if p == self.last_pending_poll {
                        self.repolls += 1;
                        ensure!(
                            self.repolls < 3_000_000,
                            "spin",
                            "an operation kept polling an I/O object that had returned pending, within a single poll"
                        );
                    } else {
                        self.last_pending_poll = p;
                        self.repolls = 0;
                    }
                    io_pending(self.repolls);
                    GateState::Waiting
                } else {
                    self.ticket = None;
                    GateState::Released
                }
            }
        }
    }
    fn arm(&mut self, cx: &mut Context<'_>, id: u32, cfg: &IoCfg) {
        let d = if cfg.delay == 0 { 0 } else { draw(cfg.delay + 1) as u64 };
        if d == 0 {
            // Immediate self-wake: a "yield".
            self.ticket = None;
            cx.waker().wake_by_ref();
        } else {
            self.ticket = Some(schedule(d, cx.waker().clone()));
        }
        self.last_pending_poll = with(|s| s.polls);
        self.repolls = 0;
        io_event(id, 8, d, false);
        io_pending(0);
        with(|s| s.perturbed = true);
    }
}

impl Drop for Gate {
    fn drop(&mut self) {
        if let Some(t) = self.ticket {
            unschedule(t);
        }
    }
}

// ---------------------------------------------------------------- source

pub struct SrcCtl {
    pub cfg: IoCfg,
    pub pos: u64,
    pub max_pos: u64,
    pub errors: u32,
    pub failed: bool,
    /// Bytes at and past this offset never arrive (the peer is gone): EOF.
    pub cut: Option<u64>,
    pub ops: u64,
    pub bytes: u64,
    pub huge_seek: bool,
    /// Force an error once this many more operations have run.
    pub err_at_op: Option<u64>,
    /// Seeks never fail.
    pub seeks_safe: bool,
}

pub struct SimSource {
    pub id: u32,
    data: Rc<dyn Blob>,
    ctl: Rc<RefCell<SrcCtl>>,
    win: Vec<u8>,
    wpos: usize,
    gate: Gate,
    released: bool,
    tokio_seek: Option<SeekFrom>,
}

impl SimSource {
    pub fn new(id: u32, data: Rc<dyn Blob>, cfg: IoCfg) -> (SimSource, Rc<RefCell<SrcCtl>>) {
        let ctl = Rc::new(RefCell::new(SrcCtl {
            cfg,
            pos: 0,
            max_pos: 0,
            errors: 0,
            failed: false,
            cut: None,
            ops: 0,
            bytes: 0,
            huge_seek: false,
            err_at_op: None,
            seeks_safe: false,
        }));
        (
            SimSource {
                id,
                data,
                ctl: ctl.clone(),
                win: Vec::new(),
                wpos: 0,
                gate: Gate::default(),
                released: false,
                tokio_seek: None,
            },
            ctl,
        )
    }

    /// Decides the fate of one operation. Ok(n): proceed with at most n bytes.
    fn decide(&mut self, cx: &mut Context<'_>, op: &'static str, opn: u32, want: usize) -> Poll<Result<usize>> {
        let cfg = self.ctl.borrow().cfg;
        match self.gate.check(cx, self.id) {
            GateState::Waiting => return Poll::Pending,
            GateState::Released => self.released = true,
            GateState::Idle => {}
        }
        if !self.released && cfg.pend > 0 && chance(cfg.pend) {
            self.gate.arm(cx, self.id, &cfg);
            if self.gate.ticket.is_none() {
                self.released = true;
            }
            fault(match opn {
                3 => "seek_pending",
                _ => "read_pending",
            });
            trace(|| format!("src{} {op} -> Pending", self.id));
            return Poll::Pending;
        }
        self.released = false;
        let mut ctl = self.ctl.borrow_mut();
        ctl.ops += 1;
        let due = matches!(ctl.err_at_op, Some(k) if ctl.ops >= k);
        if (ctl.failed && cfg.sticky && !(opn == 3 && ctl.seeks_safe))
            || (!(opn == 3 && ctl.seeks_safe) && ctl.errors < cfg.err_budget && (due || (cfg.err > 0 && chance(cfg.err))))
        {
            ctl.errors += 1;
            ctl.failed = true;
            ctl.err_at_op = None;
            let e = make_err(op);
            fault(if opn == 3 { "seek_error" } else { "read_error" });
            io_event(self.id, opn, 0xE000_0000, false);
            return Poll::Ready(Err(e));
        }
        let n = match cfg.chunk {
            Chunk::Full => want,
            Chunk::Max(k) => want.min(k as usize),
            Chunk::Random => {
                if want <= 1 {
                    want
                } else {
                    // outcome 0 = everything
                    want - draw(want.min(1 << 20) as u32) as usize
                }
            }
        };
        if n < want {
            drop(ctl);
            fault("short_read");
        }
        Poll::Ready(Ok(n.max(1)))
    }

    fn avail_len(&self) -> u64 {
        let l = self.data.len();
        match self.ctl.borrow().cut {
            Some(c) => l.min(c),
            None => l,
        }
    }

    fn do_read(&mut self, buf: &mut [u8]) -> usize {
        let pos = self.ctl.borrow().pos;
        let lim = self.avail_len();
        let n = if pos >= lim {
            0
        } else {
            let max = ((lim - pos).min(buf.len() as u64)) as usize;
            self.data.read_at(pos, &mut buf[..max])
        };
        if n == 0 && self.data.len() > lim {
            fault("premature_eof");
        }
        n
    }

    fn advance(&mut self, n: usize) {
        let mut c = self.ctl.borrow_mut();
        c.pos += n as u64;
        c.bytes += n as u64;
        c.max_pos = c.max_pos.max(c.pos);
    }

    fn inner_read(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if self.wpos < self.win.len() {
            let n = (self.win.len() - self.wpos).min(buf.len());
            buf[..n].copy_from_slice(&self.win[self.wpos..self.wpos + n]);
            self.wpos += n;
            self.advance(n);
            io_event(self.id, 1, n as u64, true);
            return Poll::Ready(Ok(n));
        }
        let n = match self.decide(cx, "read", 1, buf.len()) {
            Poll::Ready(Ok(n)) => n,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        let n = n.min(buf.len());
        let got = self.do_read(&mut buf[..n]);
        self.advance(got);
        io_event(self.id, 1, got as u64, true);
        trace(|| format!("src{} read({}) -> {}", self.id, buf.len(), got));
        Poll::Ready(Ok(got))
    }

    fn inner_fill(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        if self.wpos < self.win.len() {
            return Poll::Ready(Ok(()));
        }
        let n = match self.decide(cx, "fill_buf", 2, 8192) {
            Poll::Ready(Ok(n)) => n,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        let mut win = std::mem::take(&mut self.win);
        win.resize(n, 0);
        let got = self.do_read(&mut win);
        win.truncate(got);
        self.win = win;
        self.wpos = 0;
        io_event(self.id, 2, got as u64, true);
        trace(|| format!("src{} fill_buf -> {}", self.id, got));
        Poll::Ready(Ok(()))
    }

    fn inner_consume(&mut self, amt: usize) {
        ensure!(
            self.wpos + amt <= self.win.len(),
            "contract",
            "consumed {} bytes of a buffer holding {}",
            amt,
            self.win.len() - self.wpos
        );
        self.wpos += amt;
        self.advance(amt);
    }

    fn inner_seek(&mut self, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
        match self.decide(cx, "seek", 3, 1) {
            Poll::Ready(Ok(_)) => {}
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        }
        let cur = self.ctl.borrow().pos;
        let target: i128 = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => cur as i128 + d as i128,
            SeekFrom::End(d) => self.avail_len() as i128 + d as i128,
        };
        if target > i64::MAX as i128 {
            self.ctl.borrow_mut().huge_seek = true;
        }
        if target < 0 || target > i64::MAX as i128 {
            io_event(self.id, 3, 0xEE, false);
            return Poll::Ready(Err(Error::new(ErrorKind::InvalidInput, "seek out of range")));
        }
        self.win.clear();
        self.wpos = 0;
        let mut c = self.ctl.borrow_mut();
        c.pos = target as u64;
        io_event(self.id, 3, target as u64, true);
        drop(c);
        trace(|| format!("src{} seek({:?}) -> {}", self.id, to, target));
        Poll::Ready(Ok(target as u64))
    }
}

impl AsyncRead for SimSource {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        self.inner_read(cx, buf)
    }
}
impl AsyncBufRead for SimSource {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        let this = self.get_mut();
        match this.inner_fill(cx) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(&this.win[this.wpos..])),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.inner_consume(amt)
    }
}
impl AsyncSeek for SimSource {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<Result<u64>> {
        self.inner_seek(cx, pos)
    }
}

/// The same source behind tokio's I/O traits.
pub struct TokioSource(pub SimSource);

impl tokio::io::AsyncRead for TokioSource {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<Result<()>> {
        let b = buf.initialize_unfilled();
        match self.0.inner_read(cx, b) {
            Poll::Ready(Ok(n)) => {
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl tokio::io::AsyncBufRead for TokioSource {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<&[u8]>> {
        let this = self.get_mut();
        match this.0.inner_fill(cx) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(&this.0.win[this.0.wpos..])),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.0.inner_consume(amt)
    }
}
impl tokio::io::AsyncSeek for TokioSource {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> Result<()> {
        self.0.tokio_seek = Some(position);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        match self.0.tokio_seek {
            None => Poll::Ready(Ok(self.0.ctl.borrow().pos)),
            Some(p) => match self.0.inner_seek(cx, p) {
                Poll::Pending => Poll::Pending,
                r => {
                    self.0.tokio_seek = None;
                    r
                }
            },
        }
    }
}

// ---------------------------------------------------------------- sink

pub enum SinkData {
    Dense(Vec<u8>),
    Sparse(Sparse),
}

impl SinkData {
    pub fn len(&self) -> u64 {
        match self {
            SinkData::Dense(v) => v.len() as u64,
            SinkData::Sparse(s) => Blob::len(s),
        }
    }
}

pub struct SinkCtl {
    pub cfg: IoCfg,
    pub data: SinkData,
    pub durable: u64,
    pub flushes: u64,
    pub closed: bool,
    pub errors: u32,
    pub failed: bool,
    pub quota: Option<u64>,
    pub ops: u64,
    pub err_at_op: Option<u64>,
    /// (offset, is_write) of failures reported to the library, for accounting.
    pub reported_failures: u64,
    /// Bytes offered in writes of modest size (sparse sinks).
    pub bulk: u64,
}

pub struct SimSink {
    pub id: u32,
    ctl: Rc<RefCell<SinkCtl>>,
    gate: Gate,
    released: bool,
}

impl SimSink {
    pub fn new(id: u32, cfg: IoCfg, sparse: bool) -> (SimSink, Rc<RefCell<SinkCtl>>) {
        let ctl = Rc::new(RefCell::new(SinkCtl {
            cfg,
            data: if sparse { SinkData::Sparse(Sparse::default()) } else { SinkData::Dense(Vec::new()) },
            durable: 0,
            flushes: 0,
            closed: false,
            errors: 0,
            failed: false,
            quota: None,
            ops: 0,
            err_at_op: None,
            reported_failures: 0,
            bulk: 0,
        }));
        (SimSink { id, ctl: ctl.clone(), gate: Gate::default(), released: false }, ctl)
    }

    fn decide(&mut self, cx: &mut Context<'_>, op: &'static str, opn: u32, want: usize) -> Poll<Result<usize>> {
        let cfg = self.ctl.borrow().cfg;
        match self.gate.check(cx, self.id) {
            GateState::Waiting => return Poll::Pending,
            GateState::Released => self.released = true,
            GateState::Idle => {}
        }
        if !self.released && cfg.pend > 0 && chance(cfg.pend) {
            self.gate.arm(cx, self.id, &cfg);
            if self.gate.ticket.is_none() {
                self.released = true;
            }
            fault(match opn {
                4 => "write_pending",
                _ => "flush_pending",
            });
            trace(|| format!("sink{} {op} -> Pending", self.id));
            return Poll::Pending;
        }
        self.released = false;
        let mut ctl = self.ctl.borrow_mut();
        ctl.ops += 1;
        let due = matches!(ctl.err_at_op, Some(k) if ctl.ops >= k);
        if (ctl.failed && cfg.sticky)
            || (ctl.errors < cfg.err_budget && (due || (cfg.err > 0 && chance(cfg.err))))
        {
            ctl.errors += 1;
            ctl.failed = true;
            ctl.err_at_op = None;
            ctl.reported_failures += 1;
            let e = make_err(op);
            fault(if opn == 4 { "write_error" } else { "flush_error" });
            io_event(self.id, opn, 0xE000_0000, false);
            return Poll::Ready(Err(e));
        }
        if opn == 4 {
            if ctl.errors < cfg.err_budget && cfg.zero > 0 && chance(cfg.zero) {
                ctl.errors += 1;
                ctl.reported_failures += 1;
                fault("write_zero");
                trace(|| format!("FAULT sink{} accepted 0 bytes", self.id));
                io_event(self.id, opn, 0, false);
                return Poll::Ready(Ok(0));
            }
            if let Some(q) = ctl.quota {
                let used = ctl.data.len();
                if used >= q && want > 0 {
                    ctl.reported_failures += 1;
                    fault("disk_full");
                    trace(|| format!("FAULT sink{} full at {used}", self.id));
                    io_event(self.id, opn, 0xF, false);
                    return Poll::Ready(Err(Error::new(ErrorKind::StorageFull, "injected: disk full")));
                }
            }
        }
        let mut n = match cfg.chunk {
            Chunk::Full => want,
            // Nobody waits for gigabytes in small pieces: cut one piece off instead.
            Chunk::Max(k) if want > 1 << 22 => want - k as usize,
            Chunk::Max(k) => want.min(k as usize),
            Chunk::Random => {
                if want <= 1 {
                    want
                } else {
                    want - draw(want.min(1 << 20) as u32) as usize
                }
            }
        };
        if opn == 4 {
            if let Some(q) = ctl.quota {
                n = n.min((q - ctl.data.len()) as usize);
            }
        }
        drop(ctl);
        if n < want {
            fault("short_write");
        }
        Poll::Ready(Ok(n))
    }

    fn inner_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if self.bulk(buf) {
            io_event(self.id, 4, buf.len() as u64, true);
            return Poll::Ready(Ok(buf.len()));
        }
        let n = match self.decide(cx, "write", 4, buf.len()) {
            Poll::Ready(Ok(n)) => n.min(buf.len()),
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        let mut c = self.ctl.borrow_mut();
        ensure!(!c.closed, "sink-closed", "write to a sink the library had closed");
        match &mut c.data {
            SinkData::Dense(v) => v.extend_from_slice(&buf[..n]),
            SinkData::Sparse(s) => s.push(&buf[..n]),
        }
        drop(c);
        io_event(self.id, 4, n as u64, n > 0);
        trace(|| format!("sink{} write({}) -> {}", self.id, buf.len(), n));
        Poll::Ready(Ok(n))
    }

    /// Gigabytes that arrive in modest pieces: once 8 MiB have been taken with the configured
    /// cuts and delays, what follows is taken as it comes.
    fn bulk(&mut self, buf: &[u8]) -> bool {
        let mut c = self.ctl.borrow_mut();
        let c = &mut *c;
        let SinkData::Sparse(s) = &mut c.data else { return false };
        if buf.len() < 512 || buf.len() > 1 << 22 {
            return false;
        }
        c.bulk += buf.len() as u64;
        let go = c.bulk > 8 << 20 && c.cfg.err == 0 && c.quota.is_none() && self.gate.ticket.is_none();
        if go {
            ensure!(!c.closed, "sink-closed", "write to a sink the library had closed");
            s.push(buf);
        }
        go
    }

    fn inner_flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        match self.decide(cx, "flush", 5, 1) {
            Poll::Ready(Ok(_)) => {}
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        }
        let mut c = self.ctl.borrow_mut();
        c.durable = c.data.len();
        c.flushes += 1;
        let d = c.durable;
        drop(c);
        io_event(self.id, 5, d, true);
        trace(|| format!("sink{} flush -> durable {}", self.id, d));
        Poll::Ready(Ok(()))
    }

    fn inner_close(&mut self, _cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.ctl.borrow_mut().closed = true;
        io_event(self.id, 6, 0, true);
        trace(|| format!("sink{} close", self.id));
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for SimSink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        self.inner_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.inner_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.inner_close(cx)
    }
}

pub struct TokioSink(pub SimSink);

impl tokio::io::AsyncWrite for TokioSink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        self.0.inner_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.inner_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.inner_close(cx)
    }
}

/// Unwraps the bytes a (dense) sink accepted.
pub fn sink_bytes(ctl: &Rc<RefCell<SinkCtl>>) -> Vec<u8> {
    match &ctl.borrow().data {
        SinkData::Dense(v) => v.clone(),
        SinkData::Sparse(s) => s.slice(0, Blob::len(s)),
    }
}
