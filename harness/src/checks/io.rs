//! C13 any reader, C14 failing readers.
use super::common::*;
use super::robust::{Seen, seen, seen_with};
use crate::engine::*;
use crate::enc;
use crate::readers::{Chunks, Failing, Form, INNER, Plan, Resuming};
use crate::tape::{Tape, hash, mix};
use crate::{mutate, refdec, subject};
use std::io::{BufRead, BufReader, Cursor, ErrorKind, Read};

fn same(first: &Seen, r: impl Read, b: &[u8], how: &str) -> Res {
    let s = seen_with(r, b).map_err(|f| Fail::new(format!("{} (reader: {how})", f.msg)).on(b))?;
    match first.differs(&s) {
        None => Ok(()),
        Some(d) => fail(format!("reader {how}: {d}"), b),
    }
}

/// A reader that also knows better ways of being read.
struct Fancy<'a>(Chunks<'a>);
impl Read for Fancy<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf)
    }
    fn read_vectored(&mut self, bufs: &mut [std::io::IoSliceMut<'_>]) -> std::io::Result<usize> {
        // the last buffer that is not empty would be wrong: fill the first
        match bufs.iter_mut().find(|b| !b.is_empty()) {
            Some(b) => self.0.read(b),
            None => Ok(0),
        }
    }
}

fn through_std(first: &Seen, b: &[u8], x: u64) -> Res {
    match x % 9 {
        0 => same(first, BufReader::with_capacity(1 + (x / 9 % 40) as usize, b), b, "BufReader"),
        1 => same(first, Cursor::new(b.to_vec()), b, "Cursor"),
        2 => {
            let k = (x / 9) as usize % (b.len() + 1);
            same(first, b[..k].chain(&b[k..]), b, "chain of two slices")
        }
        3 => {
            let mut r: Box<dyn Read> = Box::new(Cursor::new(b.to_vec()));
            same(first, &mut r, b, "boxed reader")
        }
        4 => {
            let k = (x / 9) as usize % (b.len() + 1);
            let j = (x / 9 / 7) as usize % (b.len() - k + 1) + k;
            same(first, b[..k].chain(&b[k..j]).chain(std::io::empty()).chain(&b[j..]), b, "chain with an empty reader")
        }
        5 => same(first, b.take(b.len() as u64), b, "take"),
        6 => same(first, Fancy(Chunks::new(b, Plan::AtMost(3), 0)), b, "with read_vectored"),
        7 => {
            let q: std::collections::VecDeque<u8> = b.iter().copied().collect();
            same(first, q, b, "VecDeque")
        }
        _ => {
            let mut r = BufReader::with_capacity(7, b);
            let _ = r.fill_buf();
            same(first, &mut r, b, "BufReader in part filled")
        }
    }
}

pub static C13: Check = Check {
    id: "C13",
    level: "exploration",
    rule: "the input is delivered in at least two pieces or with an interruption (distinct by input and delivery)",
    assumptions: &["readers keep to the contract of std::io::Read"],
    sweep: |_| templates().len() as u64,
    run_sweep: |k, cx| {
        let whole = enc::canonical(&templates()[k as usize]).bytes;
        // the module, and two malformed ones
        let mut cut = whole.clone();
        cut.truncate(whole.len() - 1);
        let mut bad = whole.clone();
        *bad.last_mut().unwrap() ^= 0x80;
        for b in [whole, cut, bad] {
            if refdec::decode(&b).locals > MAX_LOCALS {
                continue;
            }
            let first = seen(&b)?;
            let h = hash(&b);
            for n in 1..12 {
                same(&first, Chunks::new(&b, Plan::AtMost(n), 0), &b, &format!("of at most {n} bytes"))?;
                cx.eval(mix(&[h, n as u64]), true);
                same(&first, Chunks::new(&b, Plan::AtMost(n), 100), &b, &format!("of at most {n} bytes, interrupted before each"))?;
                cx.eval(mix(&[h, n as u64, 1]), true);
            }
            for at in 1..b.len() {
                for int in [0, 100] {
                    same(&first, Chunks::new(&b, Plan::Breaks(vec![at]), int), &b, &format!("broken at {at}"))?;
                    cx.eval(mix(&[h, at as u64, 77 + int]), true);
                }
                same(&first, Chunks::new(&b, Plan::Breaks(vec![at, at + 1, at + 3]), 0), &b, &format!("broken around {at}"))?;
            }
            for burst in [2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 1001] {
                for plan in [Plan::Whole, Plan::AtMost(1), Plan::AtMost(5)] {
                    let how = format!("{plan:?}, {burst} interruptions before each");
                    same(&first, Chunks::new(&b, plan, 100).bursts(burst, burst), &b, &how)?;
                    cx.eval(mix(&[h, hash(how.as_bytes())]), true);
                }
            }
            for end in 0..b.len() {
                let first = seen(&b[..end])?;
                for (times, chunk) in [(1, 1000), (1, 1), (2, 1000), (1 << 20, 3)] {
                    same(&first, Resuming { d: &b, p: 0, end, times, chunk }, &b[..end], &format!("that ends there {times} times, then goes on"))?;
                    cx.eval(mix(&[h, end as u64, times as u64, chunk as u64]), true);
                }
            }
            cx.label("a reader that goes on after its end");
            for x in 0..90 {
                through_std(&first, &b, x)?;
                cx.eval(mix(&[h, x, 99]), true);
            }
        }
        cx.label("template");
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 100_000 } else { 5_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let mut b = enc::styled(&secs, t).bytes;
        match t.below(4) {
            0 | 1 => {}
            2 => {
                for _ in 0..t.range(1, 2) {
                    b = mutate::mutate(&b, t).0;
                }
            }
            _ => {
                let n = t.upto(b.len());
                b.truncate(n);
            }
        }
        if refdec::decode(&b).locals > MAX_LOCALS {
            return Ok(());
        }
        let first = seen(&b)?;
        // right in the first place
        count(cx, &agree(&b, true)?);
        let h = hash(&b);
        for _ in 0..4 {
            let plan = plan(t, &b);
            let int = *t.pick(&[0, 0, 5, 50, 100]);
            let burst = *t.pick(&[1, 1, 1, 3, 12, 100]);
            let how = format!("{plan:?}, {int}% interrupted up to {burst} times");
            let how = clip(&how, 140);
            same(&first, Chunks::new(&b, plan, int).bursts(1, burst), &b, &how)?;
            cx.eval(mix(&[h, hash(how.as_bytes())]), true);
            cx.sample(how.split('(').next().unwrap(), || format!("{how}: {}", hex(&b)));
        }
        let end = t.upto(b.len());
        if refdec::decode(&b[..end]).locals <= MAX_LOCALS {
            let mut whole = b.clone();
            if t.bool() {
                whole.truncate(end);
                whole.extend_from_slice(&b[8.min(b.len())..]);
            }
            let r = Resuming { d: &whole, p: 0, end, times: *t.pick(&[1, 1, 2, 3]), chunk: *t.pick(&[1, 2, 1000, 1 << 30]) };
            same(&seen(&whole[..end])?, r, &whole[..end], "that goes on after its end")?;
            cx.eval(mix(&[hash(&whole), end as u64]), true);
        }
        let x = t.below(1 << 20);
        through_std(&first, &b, x)?;
        cx.eval(mix(&[h, x]), true);
        cx.label(match first {
            Seen::Module(_) => "a module",
            Seen::Error(..) => "an error",
        });
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

fn plan(t: &mut Tape, b: &[u8]) -> Plan {
    match t.below(4) {
        0 => Plan::AtMost(1),
        1 => Plan::AtMost(t.range(1, 9000)),
        2 => Plan::Random(t.range(1, 50), t.below(1 << 32)),
        _ => {
            let n = t.range(1, 6);
            let mut v: Vec<usize> = (0..n).map(|_| t.upto(b.len())).collect();
            if t.bool()
                && let Some(s) = refdec::split(b)
            {
                v.extend(s.iter().flat_map(|s| [s.0, s.1, s.2]));
            }
            Plan::Breaks(v)
        }
    }
}

// ------------------------------------------------------------------------------------------------

const ERRORS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::IsADirectory,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::Deadlock,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
];
/// Error numbers of operating systems (not 4, which is Interrupted).
const OS: &[i32] = &[1, 2, 5, 9, 11, 12, 13, 14, 21, 22, 28, 32, 62, 71, 75, 100, 103, 104, 107, 110, 111, 112, 113, 116, 121, 122, 9999];

/// Fail at `at`; what the decoder makes of it.
#[allow(clippy::too_many_arguments)]
fn failing(b: &[u8], at: usize, kind: ErrorKind, form: Form, once: bool, chunk: usize, plain: Option<&Seen>, cx: &mut Ctx) -> Res {
    let msg = format!("<reader failure at {at} of kind {kind:?}>");
    let what = format!("reader failing {} at byte {at} with {kind:?} ({form:?})", if once { "once" } else { "for good" });
    let mut r = Failing { d: b, p: 0, at, kind, msg, chunk, failed: 0, once, form };
    let text = r.error().to_string();
    let res = subject::decode_with(&mut r).map_err(|f| Fail::new(format!("{what}: {}", f.msg)).on(b))?;
    cx.eval(mix(&[hash(b), at as u64, kind as u64, u64::from(once), chunk as u64, hash(text.as_bytes())]), true);
    if r.failed == 0 {
        // it had no need to read that far
        let Some(plain) = plain else {
            return fail(format!("{what}: never read that far"), b);
        };
        cx.label("error found before the failure");
        return match (res, plain) {
            (Err(_), Seen::Error(..)) => Ok(()),
            _ => fail(format!("{what}: another verdict than without the failure"), b),
        };
    }
    if r.failed > 1 {
        return fail(format!("{what}: read again {} times after the failure", r.failed - 1), b);
    }
    match res {
        Ok(_) => fail(format!("{what}: decoded to a module"), b),
        Err(e) => {
            let c = subject::chain(&e);
            if !c.iter().any(|s| s.contains(&text)) || (form == Form::Own && !c.iter().any(|s| s.contains(INNER))) {
                return fail(format!("{what}: the cause is not in the chain {c:?}"), b);
            }
            if r.p > at {
                return fail(format!("{what}: read on after the failure"), b);
            }
            cx.label("failure reported with its cause");
            Ok(())
        }
    }
}

pub static C14: Check = Check {
    id: "C14",
    level: "fault_enumeration",
    rule: "a reader that fails at one offset with one kind of error, for good or once (distinct by input, offset, kind, mode and piece size)",
    assumptions: &["Interrupted is not a failure (see C13)"],
    sweep: |_| templates().len() as u64,
    run_sweep: |k, cx| {
        let b = enc::canonical(&templates()[k as usize]).bytes;
        for at in 0..=b.len() {
            for (j, kind) in ERRORS.iter().enumerate() {
                for once in [false, true] {
                    let chunk = [usize::MAX, 1, 5][(j + at) % 3];
                    failing(&b, at, *kind, [Form::Text, Form::Own, Form::Bare][(j + at / 3) % 3], once, chunk, None, cx)?;
                }
            }
            for (j, n) in OS.iter().enumerate() {
                failing(&b, at, ErrorKind::Other, Form::Os(*n), (j + at) % 2 == 0, [usize::MAX, 1][j % 2], None, cx)?;
            }
            for kind in [ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::WouldBlock] {
                for chunk in [usize::MAX, 1, 3] {
                    failing(&b, at, kind, Form::Text, true, chunk, None, cx)?;
                    for form in [Form::Text, Form::Own, Form::Bare] {
                        failing(&b, at, kind, form, false, chunk, None, cx)?;
                    }
                }
            }
        }
        cx.sample("template", || format!("{} offsets, {} kinds: {}", b.len() + 1, ERRORS.len(), hex(&b)));
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 60_000 } else { 3_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let e = enc::styled(&secs, t);
        let mut b = e.bytes;
        let mutated = t.chance(1, 4);
        if mutated {
            b = mutate::mutate(&b, t).0;
        }
        if refdec::decode(&b).locals > MAX_LOCALS {
            return Ok(());
        }
        let plain = if mutated { Some(seen(&b)?) } else { None };
        let mut at: Vec<usize> = (0..6).map(|_| t.upto(b.len())).collect();
        at.extend([8.min(b.len()), b.len()]);
        if !mutated {
            // boundaries
            for _ in 0..4 {
                if e.spans.is_empty() {
                    break;
                }
                let s = t.pick(&e.spans);
                at.extend([s.0, s.0 + 1, s.1, s.2]);
            }
        }
        for at in at {
            let kind = *t.pick(ERRORS);
            let (once, chunk) = (t.bool(), *t.pick(&[usize::MAX, 1, 2, 100]));
            let form = match t.below(6) {
                0..3 => Form::Text,
                3 => Form::Own,
                4 => Form::Bare,
                _ => Form::Os(*t.pick(OS)),
            };
            failing(&b, at, kind, form, once, chunk, plain.as_ref(), cx)?;
        }
        cx.sample(if mutated { "malformed" } else { "random" }, || hex(&b));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
