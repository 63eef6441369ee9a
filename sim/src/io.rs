//! Simulated byte streams and storage.

use crate::Ctx;
use std::io::{self, ErrorKind, Read, Write};

/// One scripted reaction of a stream to one call.
#[derive(Clone, Copy, Debug)]
pub enum Act {
    Full,
    Short(usize),
    Intr,
}

/// Decode a scripted reaction from plan arguments.
pub fn act(kind: i64, n: i64) -> Act {
    match kind.rem_euclid(3) {
        0 => Act::Full,
        1 => Act::Short(n.clamp(1, 1 << 20) as usize),
        _ => Act::Intr,
    }
}

pub const ERRS: [ErrorKind; 21] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
    ErrorKind::NotConnected,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::StorageFull,
    ErrorKind::FileTooLarge,
    ErrorKind::QuotaExceeded,
    ErrorKind::AddrInUse,
];

/// How many kinds of failure `os_err` knows.
pub const KINDS: i64 = 3 + ERRS.len() as i64;

pub fn os_err(kind: i64) -> io::Error {
    match kind.rem_euclid(KINDS) {
        0 => io::Error::from_raw_os_error(libc::EIO),
        1 => io::Error::from_raw_os_error(libc::ENOSPC),
        2 => io::Error::from_raw_os_error(libc::EDQUOT),
        k => io::Error::new(ERRS[(k - 3) as usize], "simulated failure"),
    }
}

/// Permanent failure modes of a sink.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SinkFail {
    None,
    /// Every write from this byte on fails with an error.
    Err(usize, i64),
    /// Every write from this byte on accepts nothing.
    Zero(usize),
    /// Every flush fails.
    Flush(i64),
    /// One flush fails, later ones succeed.
    FlushOnce(i64),
    /// One write at this byte fails with an error, later ones are accepted.
    Once(usize, i64),
}

pub struct SimSink {
    pub bytes: Vec<u8>,
    script: Vec<Act>,
    next: usize,
    /// cap per write once the script is used up (0: none)
    tail: usize,
    fail: SinkFail,
    pub failed: bool,
    pub calls: u64,
    pub calls_after_fail: u64,
    pub flushes: u64,
    /// bytes accepted at the time of the last successful flush
    pub flushed_at: Option<usize>,
    pub shorts: u64,
    pub intrs: u64,
    /// a flush after a failed write reports success (there is nothing buffered to lose)
    pub lenient_flush: bool,
    /// so many flushes are interrupted before the first one does anything
    pub flush_intr: i64,
}

pub const MAX_CALLS_AFTER_FAIL: u64 = 10_000;

impl SimSink {
    pub fn new(script: Vec<Act>, tail: usize, fail: SinkFail) -> Self {
        SimSink {
            bytes: vec![], script, next: 0, tail, fail, failed: false, calls: 0, calls_after_fail: 0, flushes: 0,
            flushed_at: None, shorts: 0, intrs: 0, lenient_flush: false, flush_intr: 0,
        }
    }
    pub fn perfect() -> Self {
        Self::new(vec![], 0, SinkFail::None)
    }
    pub fn count(&self, c: &mut Ctx) {
        c.faults("write_short", self.shorts);
        c.faults("write_eintr", self.intrs);
        if self.failed {
            c.fault(match self.fail {
                SinkFail::Err(_, k) if k.rem_euclid(KINDS) == 1 => "write_enospc",
                SinkFail::Err(..) => "write_error",
                SinkFail::Zero(_) => "write_zero",
                SinkFail::Flush(_) => "flush_error",
                SinkFail::FlushOnce(_) => "flush_error_once",
                SinkFail::Once(..) => "write_error_once",
                SinkFail::None => "none",
            });
        }
    }
    fn after_fail(&mut self) {
        if self.failed {
            self.calls_after_fail += 1;
            if self.calls_after_fail > MAX_CALLS_AFTER_FAIL {
                panic!("SIMFAIL:retry-storm: the sink was called {} times after it had failed for good", self.calls_after_fail);
            }
        }
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        self.after_fail();
        if buf.is_empty() {
            return Ok(0);
        }
        let a = if self.next < self.script.len() {
            self.next += 1;
            self.script[self.next - 1]
        } else if self.tail > 0 {
            Act::Short(self.tail)
        } else {
            Act::Full
        };
        let mut n = buf.len();
        match a {
            Act::Full => {}
            Act::Short(k) => n = n.min(k),
            Act::Intr => {
                self.intrs += 1;
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        match self.fail {
            SinkFail::Err(at, k) => {
                let room = at.saturating_sub(self.bytes.len());
                if room == 0 {
                    self.failed = true;
                    return Err(os_err(k));
                }
                n = n.min(room);
            }
            SinkFail::Zero(at) => {
                let room = at.saturating_sub(self.bytes.len());
                if room == 0 {
                    self.failed = true;
                    return Ok(0);
                }
                n = n.min(room);
            }
            SinkFail::Once(at, k) if !self.failed => {
                let room = at.saturating_sub(self.bytes.len());
                if room == 0 {
                    self.failed = true;
                    return Err(os_err(k));
                }
                n = n.min(room);
            }
            _ => {}
        }
        if n < buf.len() {
            self.shorts += 1;
        }
        self.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        self.after_fail();
        if self.flush_intr > 0 {
            self.flush_intr -= 1;
            self.intrs += 1;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        match self.fail {
            SinkFail::Flush(k) => {
                self.failed = true;
                return Err(os_err(k));
            }
            SinkFail::FlushOnce(k) => {
                if !self.failed {
                    self.failed = true;
                    return Err(os_err(k));
                }
            }
            _ if self.failed && !self.lenient_flush => return Err(os_err(0)),
            _ => {}
        }
        self.flushed_at = Some(self.bytes.len());
        Ok(())
    }
}

pub struct SimSource {
    pub data: Vec<u8>,
    pub pos: usize,
    script: Vec<Act>,
    next: usize,
    tail: usize,
    /// permanent failure once this many bytes were delivered
    fail: Option<(usize, i64)>,
    /// the failure happens once only; later reads continue where the last one ended
    pub once: bool,
    /// instead of failing, it claims to have ended
    pub ends: bool,
    pub failed: bool,
    pub calls: u64,
    pub calls_after_end: u64,
    pub shorts: u64,
    pub intrs: u64,
}

impl SimSource {
    pub fn new(data: Vec<u8>, script: Vec<Act>, tail: usize, fail: Option<(usize, i64)>) -> Self {
        SimSource { data, pos: 0, script, next: 0, tail, fail, once: false, ends: false, failed: false, calls: 0, calls_after_end: 0, shorts: 0, intrs: 0 }
    }
    pub fn count(&self, c: &mut Ctx) {
        c.faults("read_short", self.shorts);
        c.faults("read_eintr", self.intrs);
        if self.failed {
            c.fault(match (self.once, self.ends) {
                (true, true) => "read_ended_once",
                (true, false) => "read_error_once",
                _ => "read_error",
            });
        }
    }
}

impl Read for SimSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if (self.failed && !self.once) || self.pos >= self.data.len() {
            self.calls_after_end += 1;
            if self.calls_after_end > MAX_CALLS_AFTER_FAIL {
                panic!("SIMFAIL:retry-storm: the source was called {} times after its end or failure", self.calls_after_end);
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let a = if self.next < self.script.len() {
            self.next += 1;
            self.script[self.next - 1]
        } else if self.tail > 0 {
            Act::Short(self.tail)
        } else {
            Act::Full
        };
        let mut n = buf.len().min(self.data.len() - self.pos);
        let want = n;
        match a {
            Act::Full => {}
            Act::Short(k) => n = n.min(k),
            Act::Intr => {
                self.intrs += 1;
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        if let (Some((at, k)), false) = (self.fail, self.once && self.failed) {
            let room = at.saturating_sub(self.pos);
            if room == 0 {
                self.failed = true;
                return if self.ends { Ok(0) } else { Err(os_err(k)) };
            }
            n = n.min(room);
        }
        if n < want {
            self.shorts += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
