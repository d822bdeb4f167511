//! Readers that deliver bytes in unusual ways.
use crate::tape::Rng;
use std::io::{self, ErrorKind, Read};

/// How a reader hands out its data.
#[derive(Clone, Debug)]
pub enum Plan {
    /// everything that fits
    Whole,
    /// at most n bytes per call
    AtMost(usize),
    /// between 1 and n bytes per call, from a seed
    Random(usize, u64),
    /// up to each of these offsets, never across one
    Breaks(Vec<usize>),
}

pub struct Chunks<'a> {
    d: &'a [u8],
    p: usize,
    plan: Plan,
    rng: Rng,
    /// out of 100, how often a call is interrupted first
    interrupts: u64,
    last_interrupted: bool,
    /// how many interruptions in a row, at least and at most
    bursts: (u64, u64),
    burst: u64,
    pub calls: u64,
}

impl<'a> Chunks<'a> {
    pub fn new(d: &'a [u8], plan: Plan, interrupts: u64) -> Self {
        let seed = match &plan {
            Plan::Random(_, s) => *s,
            _ => 7,
        };
        Chunks { d, p: 0, plan, rng: Rng::new(seed), interrupts, last_interrupted: false, bursts: (1, 1), burst: 0, calls: 0 }
    }

    pub fn bursts(mut self, least: u64, most: u64) -> Self {
        self.bursts = (least, most);
        self
    }
}

impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts > 0 && !self.last_interrupted && self.rng.next() % 100 < self.interrupts {
            self.last_interrupted = true;
            self.burst = self.bursts.0 + self.rng.next() % (self.bursts.1 - self.bursts.0 + 1);
        }
        if self.burst > 0 {
            self.burst -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.last_interrupted = false;
        let left = self.d.len() - self.p;
        let most = match &self.plan {
            Plan::Whole => left,
            Plan::AtMost(n) => *n,
            Plan::Random(n, _) => 1 + (self.rng.next() % *n as u64) as usize,
            Plan::Breaks(b) => {
                b.iter().copied().filter(|x| *x > self.p).min().unwrap_or(usize::MAX) - self.p
            }
        };
        let n = buf.len().min(left).min(most);
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// Yields a prefix, says that this is the end, and goes on nevertheless, as a terminal does.
pub struct Resuming<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub end: usize,
    /// how often it says so
    pub times: usize,
    pub chunk: usize,
}
impl Read for Resuming<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let to = if self.times > 0 { self.end } else { self.d.len() };
        if self.p == self.end && self.times > 0 && !buf.is_empty() {
            self.times -= 1;
            return Ok(0);
        }
        let n = buf.len().min(to - self.p).min(self.chunk);
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// Yields a prefix, then fails with the same error forever.
pub struct Failing<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub at: usize,
    pub kind: ErrorKind,
    pub msg: String,
    pub chunk: usize,
    pub failed: u64,
    /// fail once, then go on as if nothing had happened
    pub once: bool,
    pub form: Form,
}

/// What a reader's error is made of.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Text,
    Os(i32),
    Bare,
    /// an error type of its own, with a cause of its own
    Own,
}

#[derive(Debug)]
pub struct Own(pub String, pub Inner);
#[derive(Debug)]
pub struct Inner;
pub const INNER: &str = "<the cause of the reader's failure>";
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(INNER)
    }
}
impl std::error::Error for Inner {}
impl std::error::Error for Own {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

impl Failing<'_> {
    pub fn error(&self) -> io::Error {
        match self.form {
            Form::Text => io::Error::new(self.kind, self.msg.clone()),
            Form::Os(n) => io::Error::from_raw_os_error(n),
            Form::Bare => self.kind.into(),
            Form::Own => io::Error::new(self.kind, Own(self.msg.clone(), Inner)),
        }
    }
}

impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.p >= self.at && !(self.once && self.failed > 0) {
            self.failed += 1;
            assert!(self.failed < 10_000, "keeps reading from a reader that fails");
            return Err(self.error());
        }
        let stop = if self.failed > 0 { self.d.len() } else { self.at.min(self.d.len()) };
        let n = buf.len().min(stop - self.p).min(self.chunk);
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// Counts calls; gives up (panics) when there are more than a decoder could need.
pub struct Counting<'a> {
    pub d: &'a [u8],
    pub p: usize,
    pub calls: u64,
    pub empty: u64,
    pub at_end: u64,
    pub limit: u64,
}

impl<'a> Counting<'a> {
    pub fn new(d: &'a [u8], limit: u64) -> Self {
        Counting { d, p: 0, calls: 0, empty: 0, at_end: 0, limit }
    }
}

impl Read for Counting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(
            self.calls <= self.limit,
            "more than {} reads for {} bytes of input",
            self.limit,
            self.d.len()
        );
        if buf.is_empty() {
            self.empty += 1;
            return Ok(0);
        }
        let n = buf.len().min(self.d.len() - self.p);
        if n == 0 {
            self.at_end += 1;
        }
        buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// Runs decodings on threads, one at a time, switching between them at the reads that a schedule says.
pub struct Gate {
    state: std::sync::Mutex<GateState>,
    moved: std::sync::Condvar,
}
struct GateState {
    /// whose turn it is, one entry per read
    turns: std::collections::VecDeque<usize>,
    done: Vec<bool>,
    /// the schedule has been followed to its end, or cannot be followed
    open: bool,
    pub stuck: bool,
    switches: u64,
    last: usize,
}
impl Gate {
    pub fn new(threads: usize, turns: Vec<usize>) -> Gate {
        Gate {
            state: std::sync::Mutex::new(GateState {
                turns: turns.into(),
                done: vec![false; threads],
                open: false,
                stuck: false,
                switches: 0,
                last: usize::MAX,
            }),
            moved: std::sync::Condvar::new(),
        }
    }
    /// Wait for the turn of thread `me`.
    fn pass(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        loop {
            while s.turns.front().is_some_and(|t| s.done[*t]) {
                s.turns.pop_front();
            }
            if s.open || s.turns.is_empty() {
                s.open = true;
                self.moved.notify_all();
                return;
            }
            if s.turns[0] == me {
                s.turns.pop_front();
                if s.last != me {
                    s.switches += 1;
                    s.last = me;
                }
                self.moved.notify_all();
                return;
            }
            let (g, t) = self.moved.wait_timeout(s, std::time::Duration::from_secs(2)).unwrap();
            s = g;
            if t.timed_out() {
                // somebody waits for something other than this gate
                s.open = true;
                s.stuck = true;
            }
        }
    }
    pub fn leave(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.done[me] = true;
        self.moved.notify_all();
    }
    /// How often the decodings were switched, and whether the schedule could not be followed.
    pub fn outcome(&self) -> (u64, bool) {
        let s = self.state.lock().unwrap();
        (s.switches, s.stuck)
    }
}

/// Reads at most `step` bytes at a time, when it is its turn.
pub struct Gated<'a> {
    pub d: &'a [u8],
    pub gate: &'a Gate,
    pub me: usize,
    pub step: usize,
    /// reads that pass freely, before those that wait for their turn
    pub free: usize,
}
impl Read for Gated<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.free > 0 {
            self.free -= 1;
        } else {
            self.gate.pass(self.me);
        }
        let n = buf.len().min(self.step);
        self.d.read(&mut buf[..n])
    }
}
