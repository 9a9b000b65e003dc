//! Instrumented readers and writers.
use std::cell::RefCell;
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

use crate::rng::Rng;

/// What an instrumented reader saw.
#[derive(Default, Debug, Clone)]
pub struct Log {
    /// read / fill_buf / seek calls
    pub ops: u64,
    pub reads: u64,
    pub fills: u64,
    pub seeks: u64,
    pub interrupts: u64,
    /// bytes handed out (buffers shown by fill_buf count when consumed)
    pub bytes: u64,
    pub fired: bool,
    /// Position of the reader at the (last) injected failure.
    pub fired_at: u64,
    pub max_pos: u64,
}

/// How an instrumented reader behaves.
#[derive(Clone, Debug)]
pub struct Plan {
    /// Largest window shown at a time (>= 1); 0 = everything.
    pub window: usize,
    /// Fixed windows of `window` bytes, otherwise random up to it.
    pub fixed: bool,
    /// Interrupt with this probability (per 256) at reads and fills.
    pub interrupt: usize,
    /// Operation number (from 0) that fails.
    pub fail_at: Option<u64>,
    pub kind: ErrorKind,
    /// All later operations fail too.
    pub persistent: bool,
}
impl Default for Plan {
    fn default() -> Self {
        Self {
            window: 0,
            fixed: true,
            interrupt: 0,
            fail_at: None,
            kind: ErrorKind::Other,
            persistent: true,
        }
    }
}

pub struct Probe {
    data: Rc<Vec<u8>>,
    pos: u64,
    win_end: u64,
    plan: Plan,
    rng: Rng,
    last_interrupted: bool,
    log: Rc<RefCell<Log>>,
}

impl Probe {
    pub fn new(data: Rc<Vec<u8>>, plan: Plan, seed: u64) -> (Self, Rc<RefCell<Log>>) {
        let log = Rc::new(RefCell::new(Log::default()));
        (
            Self {
                data,
                pos: 0,
                win_end: 0,
                plan,
                rng: Rng::new(seed),
                last_interrupted: false,
                log: log.clone(),
            },
            log,
        )
    }
    pub fn position(&self) -> u64 {
        self.pos
    }
    fn op(&mut self, interruptible: bool) -> io::Result<()> {
        let mut l = self.log.borrow_mut();
        let n = l.ops;
        l.ops += 1;
        if let Some(f) = self.plan.fail_at {
            if n == f || (self.plan.persistent && n > f) {
                l.fired = true;
                l.fired_at = self.pos;
                return Err(io::Error::new(self.plan.kind, "injected failure"));
            }
        }
        if interruptible && self.plan.interrupt > 0 && !self.last_interrupted
            && self.rng.below(256) < self.plan.interrupt
        {
            l.interrupts += 1;
            self.last_interrupted = true;
            return Err(io::Error::new(ErrorKind::Interrupted, "injected interruption"));
        }
        self.last_interrupted = false;
        Ok(())
    }
    fn window(&mut self) {
        let len = self.data.len() as u64;
        if self.win_end <= self.pos {
            let left = len.saturating_sub(self.pos);
            let w = if self.plan.window == 0 {
                left
            } else if self.plan.fixed {
                (self.plan.window as u64).min(left)
            } else {
                (self.rng.range(1, self.plan.window) as u64).min(left)
            };
            self.win_end = self.pos + w;
        }
    }
}

impl Read for Probe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.op(true)?;
        self.window();
        let mut n = ((self.win_end - self.pos) as usize).min(buf.len());
        if self.pos >= self.data.len() as u64 {
            n = 0;
        }
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        let mut l = self.log.borrow_mut();
        l.reads += 1;
        l.bytes += n as u64;
        l.max_pos = l.max_pos.max(self.pos);
        Ok(n)
    }
}
impl BufRead for Probe {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.op(true)?;
        self.window();
        self.log.borrow_mut().fills += 1;
        if self.pos >= self.data.len() as u64 {
            return Ok(&[]);
        }
        Ok(&self.data[self.pos as usize..self.win_end as usize])
    }
    fn consume(&mut self, n: usize) {
        let mut l = self.log.borrow_mut();
        l.bytes += n as u64;
        self.pos += n as u64;
        l.max_pos = l.max_pos.max(self.pos);
    }
}
impl Seek for Probe {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.op(false)?;
        self.log.borrow_mut().seeks += 1;
        let base = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if base < 0 || base > u64::MAX as i128 {
            return Err(io::Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = base as u64;
        self.win_end = self.pos;
        Ok(self.pos)
    }
}

/// A writer that accepts `limit` bytes and then fails.
pub struct Sink {
    pub got: Vec<u8>,
    pub limit: usize,
    /// Largest piece accepted per call (0 = all), random when `seed` given.
    pub piece: usize,
    pub random: bool,
    pub interrupt: usize,
    pub kind: ErrorKind,
    /// Accept nothing (Ok(0)) instead of an error.
    pub zero: bool,
    pub fired: bool,
    pub calls: u64,
    pub interrupts: u64,
    /// Fails once, then accepts bytes again.
    pub once: bool,
    rng: Rng,
}
impl Sink {
    pub fn new(limit: usize, kind: ErrorKind, seed: u64) -> Self {
        Self {
            got: vec![],
            limit,
            piece: 0,
            random: false,
            interrupt: 0,
            kind,
            zero: false,
            fired: false,
            calls: 0,
            interrupts: 0,
            once: false,
            rng: Rng::new(seed),
        }
    }
}
pub const MARK: &str = "injected write failure 7f3a";
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.below(256) < self.interrupt {
            self.interrupts += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "again"));
        }
        let room = self.limit.saturating_sub(self.got.len());
        if room == 0 {
            self.fired = true;
            if self.once {
                self.limit = usize::MAX;
            }
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::new(self.kind, MARK));
        }
        let mut n = buf.len().min(room);
        if self.piece > 0 {
            let p = if self.random { self.rng.range(1, self.piece) } else { self.piece };
            n = n.min(p);
        }
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
