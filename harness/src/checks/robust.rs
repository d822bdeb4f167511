//! C01 no crash, C02 bounded resources, C23 purity.
use super::common::*;
use crate::ast::*;
use crate::engine::*;
use crate::enc::{self, Fault, K, leb_u};
use crate::r#gen;
use crate::ops;
use crate::readers::{Counting, Gate, Gated};
use crate::tape::{Rng, Tape, hash, mix};
use crate::{alloc, mutate, refdec, subject, world};
use std::io::Write as _;
use std::process::{Command, Stdio};

pub const PRE: &[u8] = b"\0asm\x01\0\0\0";

/// Decode and use the result in every way a caller can; whether it was accepted.
fn exercise(b: &[u8], print: bool) -> Result<Option<bool>, Fail> {
    let r = refdec::decode(b);
    if r.locals > MAX_LOCALS {
        return Ok(None);
    }
    let print = print && r.locals < 2000 && r.depth < 300;
    let ok = subject::call(|| {
        let (res, _) = alloc::measure(|| wadec::decode_module(b));
        let ok = res.is_ok();
        match &res {
            Ok(m) => {
                if print {
                    let (s, l) = (format!("{m:?}"), format!("{m:#?}"));
                    assert!(s.len() > 10 && l.len() > 10);
                }
            }
            Err(e) => {
                let c = subject::chain(e);
                assert!(c.iter().all(|l| !l.is_empty()), "a cause without a message: {c:?}");
                if print {
                    let (s, l) = (format!("{e:?}"), format!("{e:#?}"));
                    assert!(!s.is_empty() && !l.is_empty());
                }
            }
        }
        ok
    })
    .on(b)?;
    Ok(Some(ok))
}

fn sect(id: u8, c: &[u8]) -> Vec<u8> {
    let mut v = PRE.to_vec();
    v.push(id);
    leb_u(c.len() as u64, &mut v);
    v.extend_from_slice(c);
    v
}

/// Around a body of code, or an initialiser.
fn around(kind: u64, e: &[u8]) -> Vec<u8> {
    let mut v = PRE.to_vec();
    match kind {
        0 => {
            v.extend([3, 2, 1, 0, 10]);
            let mut c = vec![1];
            leb_u(e.len() as u64 + 2, &mut c);
            c.push(0);
            c.extend_from_slice(e);
            c.push(0x0B);
            leb_u(c.len() as u64, &mut v);
            v.extend(c);
        }
        1 => {
            let mut c = vec![1, 0x7F, 0];
            c.extend_from_slice(e);
            c.push(0x0B);
            v.push(6);
            leb_u(c.len() as u64, &mut v);
            v.extend(c);
        }
        _ => {
            let mut c = vec![1, 5, 0x70, 1];
            c.extend_from_slice(e);
            c.push(0x0B);
            v.push(9);
            leb_u(c.len() as u64, &mut v);
            v.extend(c);
        }
    }
    v
}

/// `n` blocks, one in the other.
pub fn deep(kind: u64, place: u64, n: usize) -> Vec<u8> {
    let (open, close): (&[u8], &[u8]) = match kind {
        0 => (&[0x02, 0x40], &[0x0B]),
        1 => (&[0x03, 0x40], &[0x0B]),
        2 => (&[0x04, 0x40], &[0x0B]),
        3 => (&[0x04, 0x40, 0x05], &[0x0B]),
        _ => (&[0x1F, 0x40, 0x00], &[0x0B]),
    };
    let mut e = open.repeat(n);
    e.extend(close.repeat(n));
    around(place, &e)
}
/// The same, cut off or with an undefined opcode in the middle.
fn broken(kind: u64, place: u64, n: usize, how: u64) -> Vec<u8> {
    let mut b = deep(kind, place, n);
    let at = b.windows(8).rposition(|w| w == [0x0B; 8]).unwrap() + 8 - n;
    if how == 1 { b.truncate(at) } else { b[at] = 0xFF }
    b
}
/// How deep an 8 MB stack must do. At the time of writing it does 12 000.
const PROBED: usize = 3000;
const DEEP_KINDS: [&str; 5] = ["block", "loop", "if", "else", "try_table"];

const DEEP0: u64 = 19 * 256;

pub static C01: Check = Check {
    id: "C01",
    level: "exploration",
    rule: "the decoder got past the preamble (distinct by input)",
    assumptions: &[
        "built with overflow checks and debug assertions; stack overflow is probed on an 8 MB stack at exact depths, other cases run on 1 GB stacks",
        "inputs that declare more than 2^22 locals in well-formed bodies are not handed over (C02, known finding)",
    ],
    sweep: |_| DEEP0 + 15 * 7,
    run_sweep: |i, cx| {
        let mut go = |b: &[u8]| -> Res {
            let r = exercise(b, hash(b) % 16 == 0)?;
            cx.eval_bytes(b, b.starts_with(PRE) && b.len() > 8);
            cx.label(match r {
                None => "sweep: skipped",
                Some(true) => "sweep: accepted",
                Some(false) => "sweep: rejected",
            });
            Ok(())
        };
        let a = (i % 256) as u8;
        match i / 256 {
            id @ 0..15 => {
                go(&sect(id as u8, &[a]))?;
                for b in 0..=255 {
                    go(&sect(id as u8, &[a, b]))?;
                }
            }
            k @ 15..18 => {
                go(&around(k - 15, &[a]))?;
                for b in 0..=255 {
                    go(&around(k - 15, &[a, b]))?;
                    // with zeros after it, so that immediates can be read
                    let mut v = vec![a, b];
                    v.extend([0; 18]);
                    go(&around(k - 15, &v))?;
                }
            }
            18 => {
                // preambles and short files
                for k in 0..8 {
                    let mut p = PRE.to_vec();
                    p[k] = a;
                    go(&p)?;
                    p.truncate(k + 1);
                    go(&p)?;
                }
                for b in 0..=255 {
                    go(&[a, b])?;
                    let mut p = PRE.to_vec();
                    p.extend([a, b]);
                    go(&p)?;
                }
            }
            _ => {
                if i == DEEP0 {
                    go(&[])?;
                }
                let (k, pl) = ((i - DEEP0) % 5, (i - DEEP0) / 5 % 3);
                let n = [1, 10, 100, 299, 1000, 10_000, 20_000][((i - DEEP0) / 15) as usize];
                let d = deep(k, pl, n);
                go(&d)?;
                go(&d[..d.len() / 2])?;
                go(&d[..d.len() - 2])?;
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 700_000 } else { 25_000_000 },
    run_gen: |t, cx| {
        let kind = t.weighted(&[30, 6, 10, 4, 10]);
        let (b, l) = match kind {
            0 => {
                let secs = module(t);
                let mut b = enc::styled(&secs, t).bytes;
                for _ in 0..t.range(1, 8) {
                    b = mutate::mutate(&b, t).0;
                }
                (b, "mutated module")
            }
            1 => {
                let n = t.upto(60);
                let mut b = if t.chance(4, 5) { PRE.to_vec() } else { vec![] };
                b.extend((0..n).map(|_| t.byte()));
                (b, "random bytes")
            }
            2 => (soup(t), "token soup"),
            3 => {
                let secs = module(t);
                let mut b = enc::styled(&secs, t).bytes;
                let n = t.upto(b.len());
                b.truncate(n);
                (b, "truncated module")
            }
            _ => {
                // a contradiction: a field replaced by an extreme value, with or without a cut
                let secs = module(t);
                if secs.is_empty() {
                    return Ok(());
                }
                let (w, v, cut) = (t.below(1 << 32), t.u64(), t.bool());
                let n = enc::sites(&secs, t).len() as u64;
                let mut f = vec![];
                leb_u(v, &mut f);
                let f = if cut { Fault::CutAt(f) } else { Fault::Replace(f) };
                (enc::faulty(&secs, t, (w % n) as usize, f).bytes, "extreme field")
            }
        };
        let r = exercise(&b, hash(&b) % 8 == 0)?;
        cx.eval_bytes(&b, b.starts_with(PRE) && b.len() > 8);
        cx.label(l);
        cx.label(match r {
            None => "skipped (too many locals)",
            Some(true) => "accepted",
            Some(false) => "rejected",
        });
        cx.sample(l, || hex(&b));
        Ok(())
    },
    post: |cx| {
        for kb in [256, 512, 1024] {
            if let Some(e) = probe_run("small", &format!("{kb},8192")) {
                // which of them?
                let all = templates();
                let i = (0..all.len()).find(|i| probe_run("small", &format!("{kb},{i},8192")).is_some());
                let b = i.map(|i| enc::canonical(&all[i]).bytes).unwrap_or_default();
                return fail(format!("a module without nesting, on a thread with a stack of {kb} KB: {e}"), &b);
            }
            cx.label("small stacks");
        }
        for (k, name) in DEEP_KINDS.iter().enumerate() {
            for place in 0..3u64 {
                let arg = |n| format!("{k},{place},{n},8192");
                for n in [1000, PROBED] {
                    let b = deep(k as u64, place, n);
                    if let Some(e) = probe_run("deep", &arg(n)) {
                        return fail(format!("{n} nested {name} on an 8 MB stack: {e}"), &b);
                    }
                    cx.eval_bytes(&b, true);
                    cx.label(&format!("depth probe: {n}"));
                }
                for how in 1..=2 {
                    let b = broken(k as u64, place, PROBED, how);
                    if let Some(e) = probe_run("deep", &format!("{},{place},{PROBED},8192", how * 10 + k as u64)) {
                        return fail(format!("{PROBED} nested {name} on an 8 MB stack, malformed inside: {e}"), &b);
                    }
                    cx.eval_bytes(&b, true);
                    cx.label(&format!("depth probe: {PROBED}, malformed"));
                }
                let b = deep(k as u64, place, 100_000);
                let ended = probe_run("deep", &arg(100_000));
                cx.eval_bytes(&b, true);
                cx.label(if ended.is_some() { "depth probe: 100000 dies" } else { "depth probe: 100000 survives" });
                if let Some(e) = ended {
                    let key = format!("depth-100000-{name}-{}", ["body", "global", "element"][place as usize]);
                    match cx.known.get("C01", &key) {
                        Some(w) => cx.st.notes.push(format!("KNOWN-FINDING: property=C01 {w}")),
                        None => return fail(format!("100000 nested {name} on an 8 MB stack: {e} (key {key})"), &b),
                    }
                }
            }
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: true,
};

/// Run `wv probe` in a process with a limited stack; what went wrong, if anything.
pub fn probe_run(what: &str, arg: &str) -> Option<String> {
    let kb = arg.rsplit(',').next().unwrap_or("8192");
    let out = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -t 60; {} ulimit -s {kb}; exec \"$0\" \"$@\"", if what == "locals" { "ulimit -v 4000000;" } else { "" }))
        .arg(std::env::current_exe().unwrap())
        .args(["probe", what, arg])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .output()
        .expect("probe");
    if out.status.success() {
        return None;
    }
    Some(format!("{} {}", out.status, clip(&String::from_utf8_lossy(&out.stderr).replace('\n', " "), 200)))
}

/// Every template, whole, cut, and with a byte exchanged, on a thread with a small stack.
pub fn probe_small(arg: &str) -> i32 {
    let v: Vec<usize> = arg.split(',').filter_map(|x| x.parse().ok()).collect();
    let kb = v[0];
    let only = (v.len() == 3).then(|| v[1]);
    let f = move || {
        for (i, secs) in templates().iter().enumerate() {
            if only.is_some_and(|o| o != i) {
                continue;
            }
            let b = enc::canonical(secs).bytes;
            for k in 0..20 {
                let mut c = b.clone();
                match k % 3 {
                    0 => {}
                    1 => c.truncate(b.len() - k % b.len()),
                    _ => c[b.len() - 1 - k % (b.len() - 8)] ^= 0xFF,
                }
                let r = refdec::decode(&c);
                if r.locals < 100_000 && r.depth < 20 {
                    match wadec::decode_module(&c[..]) {
                        Ok(m) => drop(std::hint::black_box(m)),
                        Err(e) => drop(std::hint::black_box(subject::show(&e))),
                    }
                }
            }
        }
    };
    // the reference decoder's own needs are modest
    match std::thread::Builder::new().stack_size(kb << 10).spawn(f).map(|h| h.join()) {
        Ok(Ok(())) => 0,
        _ => 1,
    }
}

/// In a process of its own, on the main thread.
pub fn probe_deep(arg: &str) -> i32 {
    let v: Vec<u64> = arg.split(',').filter_map(|x| x.parse().ok()).collect();
    let [kind, place, n, _] = v[..] else { return 2 };
    let b = match kind / 10 {
        0 => deep(kind, place, n as usize),
        how => broken(kind % 10, place, n as usize, how),
    };
    match wadec::decode_module(&b[..]) {
        Err(e) if kind >= 10 => {
            std::hint::black_box(subject::show(&e));
            drop(e);
            0
        }
        Ok(_) if kind >= 10 => {
            eprintln!("accepted");
            1
        }
        Ok(m) => {
            std::hint::black_box(&m);
            drop(m);
            0
        }
        Err(e) => {
            eprintln!("rejected: {}", subject::show(&e));
            1
        }
    }
}

/// Pieces of the format in random order.
fn soup(t: &mut Tape) -> Vec<u8> {
    let mut v = PRE.to_vec();
    for _ in 0..t.range(1, 4) {
        let id = t.below(15) as u8;
        let mut c = vec![];
        for _ in 0..t.upto(40) {
            match t.below(6) {
                0 => c.push(t.byte()),
                1 => leb_u(t.u64(), &mut c),
                2 => {
                    let (op, _, _) = ops::tables().all[t.below(ops::tables().all.len() as u64) as usize];
                    if op >> 16 != 0 {
                        c.push((op >> 16) as u8);
                        leb_u(u64::from(op & 0xFFFF), &mut c);
                    } else {
                        c.push(op as u8);
                    }
                }
                3 => c.push(t.below(8) as u8),
                4 => c.push(*t.pick(&[0x0B, 0x40, 0x60, 0x70, 0x7F, 0x63, 0x64, 0x4E, 0x50, 0x05])),
                _ => c.push(0),
            }
        }
        v.push(id);
        let n = if t.chance(9, 10) { c.len() as u64 } else { t.u64() };
        leb_u(n, &mut v);
        v.extend(c);
    }
    v
}

// ------------------------------------------------------------------------------------------------

const BASE: u64 = 4 << 20;
const PER_BYTE: u64 = 1024;
const PER_LOCAL: u64 = 64;

/// Decode under measurement; the result's kind.
fn bounded(b: &[u8], locals: u64, cx: &mut Ctx) -> Result<bool, Fail> {
    let n = b.len() as u64;
    let mut rd = Counting::new(b, 64 + 8 * n);
    let (ok, u) = subject::call(|| {
        let (res, u) = alloc::measure(|| wadec::decode_module(&mut rd));
        (res.is_ok(), u)
    })
    .on(b)?;
    let peak = BASE + PER_BYTE * n + PER_LOCAL * locals;
    if u.peak > peak {
        return fail(format!("{} bytes of memory for {n} bytes of input ({locals} locals); bound {peak}", u.peak), b);
    }
    let total = 2 * BASE + 2 * PER_BYTE * n + 4 * PER_LOCAL * locals;
    if u.total > total {
        return fail(format!("{} bytes requested in total for {n} bytes of input ({locals} locals); bound {total}", u.total), b);
    }
    if rd.at_end > 16 {
        return fail(format!("{} reads at the end of the input", rd.at_end), b);
    }
    cx.label(match u.peak {
        0..1024 => "peak < 1 KB",
        1024..65536 => "peak < 64 KB",
        65536..1_048_576 => "peak < 1 MB",
        _ => "peak >= 1 MB",
    });
    Ok(ok)
}

fn count_values() -> &'static [u64] {
    &[
        128, 255, 1000, 1025, 4096, 10_000, 16_384, 65_535, 65_536, 100_000, 1 << 17, 1 << 18, 1 << 19, 1 << 20,
        1_000_001, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 10_000_000, 1 << 25, 1 << 26, 1 << 27, 1 << 28, 1 << 29, 1 << 30,
        (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX as u64 - 1, u32::MAX as u64,
    ]
}

fn is_count(k: K) -> bool {
    matches!(k, K::Count | K::BodySize | K::LocalsCount)
}

pub static C02: Check = Check {
    id: "C02",
    level: "exploration",
    rule: "a count or length field declares more than follows, or the input is larger than 64 KB (distinct by input)",
    assumptions: &[
        "allocation is measured as bytes requested from the global allocator of the decoding thread",
        "bounds: peak 4 MB + 1024 B per input byte + 64 B per local, in total twice that; 64 + 8 per byte reads; 16 reads at the end of input",
    ],
    sweep: |_| templates().len() as u64,
    run_sweep: |i, cx| {
        let secs = &templates()[i as usize];
        let t = Tape::replay(vec![0, 0]);
        let sites = enc::sites(secs, &t);
        for (k, s) in sites.iter().enumerate() {
            let size = s.kind == K::U32 && !s.inner;
            if !is_count(s.kind) && !size {
                continue;
            }
            for v in count_values() {
                let mut f = vec![];
                leb_u(*v, &mut f);
                for cut in 0..if size { 2 } else { 5 } {
                    let fault = if matches!(cut, 0 | 3 | 4) { Fault::Replace(f.clone()) } else { Fault::CutAt(f.clone()) };
                    let mut e = enc::faulty(secs, &mut t.clone(), k, fault);
                    if cut == 2 {
                        // the section claims to be long enough
                        let sp = e.spans[s.sec];
                        let mut n = vec![];
                        leb_u(u64::from(u32::MAX), &mut n);
                        e.bytes.truncate(sp.2);
                        e.bytes.splice(sp.0 + 1..sp.1, n);
                    }
                    // something else is wrong after it
                    if cut == 3 {
                        e.bytes.pop();
                    }
                    if cut == 4 {
                        let at = e.spans[s.sec].2 - 1;
                        e.bytes[at] = 0xFF;
                    }
                    let r = refdec::decode(&e.bytes);
                    if r.locals > MAX_LOCALS {
                        cx.label("skipped (too many locals)");
                        continue;
                    }
                    let ok = bounded(&e.bytes, r.locals, cx)?;
                    cx.eval_bytes(&e.bytes, true);
                    cx.label(if ok { "accepted" } else { "rejected" });
                    cx.sample(&format!("count of {}", sec_name(s.id)), || hex(&e.bytes));
                }
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 300_000 } else { 10_000_000 },
    run_gen: |t, cx| {
        let kind = t.weighted(&[40, 20, 20, 2]);
        let p = match kind {
            3 => r#gen::large(),
            _ => profile(t),
        };
        let secs = r#gen::module(t, p);
        let (b, l, nt) = match kind {
            0 => {
                let (w, v, cut) = (t.below(1 << 32), *t.pick(count_values()), t.bool());
                let sites = enc::sites(&secs, t);
                let c: Vec<usize> = (0..sites.len()).filter(|i| is_count(sites[*i].kind)).collect();
                if c.is_empty() {
                    return Ok(());
                }
                let mut f = vec![];
                leb_u(v, &mut f);
                let f = if cut { Fault::CutAt(f) } else { Fault::Replace(f) };
                let mut b = enc::faulty(&secs, t, c[(w % c.len() as u64) as usize], f).bytes;
                if (w >> 20) % 3 == 0 {
                    b = mutate::mutate(&b, t).0;
                }
                (b, "extreme count", true)
            }
            1 => {
                let mut b = enc::styled(&secs, t).bytes;
                for _ in 0..t.range(1, 4) {
                    b = mutate::mutate(&b, t).0;
                }
                (b, "mutated", false)
            }
            2 => (soup(t), "token soup", false),
            _ => (enc::styled(&secs, t).bytes, "large module", true),
        };
        let r = refdec::decode(&b);
        if r.locals > MAX_LOCALS {
            cx.label("skipped (too many locals)");
            return Ok(());
        }
        let ok = bounded(&b, r.locals, cx)?;
        cx.eval_bytes(&b, nt || b.len() > 65536);
        cx.label(l);
        cx.label(if ok { "accepted" } else { "rejected" });
        cx.sample(l, || hex(&b));
        Ok(())
    },
    post: |cx| {
        // time: inputs on which quadratic work would show
        for (name, b) in long_inputs() {
            let r = refdec::decode(&b);
            let mut best = f64::MAX;
            // linear work takes 0.1 us per byte or less
            let limit = 0.5 + 1.5e-6 * b.len() as f64;
            for _ in 0..3 {
                let t0 = cpu();
                let ok = bounded(&b, r.locals, cx)?;
                best = best.min(cpu() - t0);
                if ok != r.module.is_ok() {
                    return fail(format!("{name}: wrong verdict"), &b[..b.len().min(200)]);
                }
                if best <= limit {
                    break;
                }
            }
            cx.eval_bytes(&b, true);
            cx.label("long input");
            cx.sample(name, || format!("{} bytes, {best:.3} s of CPU time (limit {limit:.1})", b.len()));
            if best > limit {
                return fail(format!("{name}: {} bytes take {best:.1} s of CPU time", b.len()), &b[..b.len().min(200)]);
            }
        }
        // work that is proportional to the product of two lists
        let parts: Vec<(usize, Vec<Sec>, f64)> = {
            let mut v = vec![];
            for k in PAIRED {
                let secs = super::accept::listed(k, PAIR_N);
                let b = enc::canonical(&secs).bytes;
                let t = timed(&b, 0.0, cx)?;
                v.push((k, secs, t));
            }
            v
        };
        for (x, a) in parts.iter().enumerate() {
            for b in &parts[x + 1..] {
                let mut secs: Vec<Sec> = a.1.iter().chain(&b.1).cloned().collect();
                secs.sort_by_key(|s| rank(s.id()));
                let e = enc::canonical(&secs).bytes;
                let limit = 0.4 + 4.0 * (a.2 + b.2);
                let t = timed(&e, limit, cx)?;
                cx.eval_bytes(&e, true);
                cx.label("two long lists");
                if t > limit {
                    return fail(format!("two lists of {PAIR_N} entries take {:.2} s and {:.2} s of CPU time, but together {t:.2} s (kinds {}, {})", a.2, b.2, a.0, b.0), &e[..200]);
                }
            }
        }
        // the amplification that is left
        for n in [1u32 << 20, 1 << 22] {
            let secs = vec![
                Sec::Function(vec![0]),
                Sec::Code(vec![Code { locals: vec![(n, I32)], body: vec![] }]),
            ];
            let b = enc::canonical(&secs).bytes;
            let (ok, u) = subject::call(|| {
                let (r, u) = alloc::measure(|| wadec::decode_module(&b[..]));
                (r.is_ok(), u)
            })
            .on(&b)?;
            cx.eval_bytes(&b, true);
            if !ok {
                return fail(format!("rejected {n} locals"), &b);
            }
            if u.peak > BASE + PER_LOCAL * u64::from(n) {
                return fail(format!("{n} locals take {} bytes", u.peak), &b);
            }
            if u.peak > BASE + PER_BYTE * b.len() as u64 {
                match cx.known.get("C02", "locals-expansion") {
                    Some(w) => {
                        let l = format!("KNOWN-FINDING: property=C02 {w}");
                        if !cx.st.notes.contains(&l) {
                            cx.st.notes.push(l);
                        }
                    }
                    None => return fail(format!("{n} locals in {} bytes of input take {} bytes (key locals-expansion)", b.len(), u.peak), &b),
                }
            }
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: true,
};

/// Kinds of `listed`, of sections that may be in one module.
const PAIRED: [usize; 10] = [0, 5, 6, 7, 8, 9, 10, 11, 12, 15];
const PAIR_N: usize = 100_000;

/// CPU time, the best of three unless within `limit`.
fn timed(b: &[u8], limit: f64, cx: &mut Ctx) -> Result<f64, Fail> {
    let r = refdec::decode(b);
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t0 = cpu();
        let ok = bounded(b, r.locals, cx)?;
        best = best.min(cpu() - t0);
        if ok != r.module.is_ok() {
            return fail("wrong verdict on long lists", &b[..b.len().min(200)]);
        }
        if best <= limit {
            break;
        }
    }
    Ok(best)
}

fn cpu() -> f64 {
    // CPU time of this thread
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split(' ').next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}

fn long_inputs() -> Vec<(&'static str, Vec<u8>)> {
    let n = 200_000u32;
    let one = |s: Sec| enc::canonical(&[s]).bytes;
    let lim = Lim { a64: false, min: 1, max: None };
    let gt = Gt { var: false, vt: I32 };
    let nops = |k: u32| vec![nop(); k as usize];
    let body = |b: Expr| enc::canonical(&func(b)).bytes;
    let ty = |k: usize| Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Func(vec![I32; k], vec![]) }]);
    let mut v = vec![
        ("types", one(Sec::Type(vec![ty(2); n as usize]))),
        ("parameters", one(Sec::Type(vec![ty(n as usize)]))),
        ("fields", one(Sec::Type(vec![Rec(vec![Sub {
            fin: true,
            sup: vec![],
            ct: Ct::Struct(vec![Ft { var: true, st: St::I8 }; n as usize]),
        }])]))),
        ("recursive group", one(Sec::Type(vec![Rec(vec![
            Sub { fin: false, sup: vec![1], ct: Ct::Struct(vec![]) };
            n as usize
        ])]))),
        ("imports", one(Sec::Import((0..n).map(|k| Imp {
            module: b"env".to_vec(),
            item: format!("i{k}").into_bytes(),
            ext: Ext::Func(k),
        }).collect()))),
        ("exports", one(Sec::Export((0..n).map(|k| Exp { name: format!("e{k}").into_bytes(), kind: 0, idx: k }).collect()))),
        ("globals", one(Sec::Global(vec![Global { ty: gt, init: konst(1) }; n as usize]))),
        ("memories", one(Sec::Memory(vec![lim; n as usize]))),
        ("tags", one(Sec::Tag((0..n).collect()))),
        ("element", one(Sec::Element(vec![Elem {
            rt: Rt { null: false, ht: Ht::Abs(Abs(0x70)) },
            init: (0..n).map(|k| vec![i(0xD2, Imm::I1(k))]).collect(),
            mode: ElemMode::Active(0, konst(0)),
        }]))),
        ("data segments", one(Sec::Data(vec![Data { init: vec![1, 2], mode: DataMode::Passive }; n as usize]))),
        ("long body", body(nops(1_000_000))),
        ("branch table", body(vec![i(0x0E, Imm::BrTable((0..n).collect(), 0))])),
        ("select", body(vec![i(0x1C, Imm::SelT(vec![I32; n as usize]))])),
        ("catches", body(vec![i(0x1F, Imm::Try(Bt::Empty, vec![Catch::All(1); n as usize], vec![]))])),
        ("functions", enc::canonical(&[
            Sec::Function((0..n).collect()),
            Sec::Code(vec![Code { locals: vec![(1, I32)], body: nops(3) }; n as usize]),
        ]).bytes),
        ("runs of locals", enc::canonical(&[
            Sec::Function(vec![0]),
            Sec::Code(vec![Code { locals: (0..n).map(|k| (1, if k % 2 == 0 { I32 } else { Vt::V128 })).collect(), body: vec![] }]),
        ]).bytes),
        ("custom sections", enc::canonical(&(0..n).map(|k| Sec::Custom(vec![], vec![k as u8])).collect::<Vec<_>>()).bytes),
        ("big custom section", one(Sec::Custom(b"x".to_vec(), vec![7; 20_000_000]))),
        ("big data", one(Sec::Data(vec![Data { init: vec![7; 20_000_000], mode: DataMode::Passive }]))),
        ("big name", one(Sec::Custom(vec![b'n'; 10_000_000], vec![]))),
    ];
    for k in 0..5 {
        v.push(("deep nesting", deep(k, 0, 100_000)));
    }
    // deep and wide: a data instruction at the innermost place, and code at every level
    let mut e = vec![];
    for _ in 0..50_000 {
        e.extend([0x02, 0x40, 0x01, 0x01, 0x01]);
    }
    for _ in 0..50_000 {
        e.extend([0x01, 0x01, 0x0B]);
    }
    v.push(("deep and wide", around(0, &e)));
    // all entries different
    for k in 0..super::accept::LISTED {
        v.push(("different entries", enc::canonical(&super::accept::listed(k, n as usize)).bytes));
    }
    v
}

// ------------------------------------------------------------------------------------------------

/// Everything observable about a decoding.
#[derive(PartialEq)]
pub enum Seen {
    Module(Box<Abst>),
    Error(String, String),
}
pub fn seen(b: &[u8]) -> Result<Seen, Fail> {
    seen_with(b, b)
}
pub fn seen_with(r: impl std::io::Read, b: &[u8]) -> Result<Seen, Fail> {
    subject::guard(b)?;
    Ok(match subject::decode_with(r).on(b)? {
        Ok(m) => Seen::Module(Box::new(crate::conv::module(&m))),
        Err(e) => Seen::Error(subject::show(&e), format!("{e:?}")),
    })
}
impl Seen {
    pub fn differs(&self, o: &Seen) -> Option<String> {
        match (self, o) {
            (Seen::Module(a), Seen::Module(b)) => diff(a, b),
            (Seen::Error(a, x), Seen::Error(b, y)) => {
                if a != b {
                    Some(format!("error {:?} became {:?}", clip(a, 300), clip(b, 300)))
                } else if x != y {
                    Some(format!("error {:?} became {:?}", clip(x, 300), clip(y, 300)))
                } else {
                    None
                }
            }
            (Seen::Module(_), Seen::Error(a, _)) => Some(format!("a module became the error {:?}", clip(a, 300))),
            (Seen::Error(a, _), Seen::Module(_)) => Some(format!("the error {:?} became a module", clip(a, 300))),
        }
    }
}

fn some_input(t: &mut Tape) -> Vec<u8> {
    let secs = module(t);
    let mut b = enc::styled(&secs, t).bytes;
    if t.bool() {
        for _ in 0..t.range(1, 2) {
            b = mutate::mutate(&b, t).0;
        }
    }
    b
}

/// Decode inputs on one thread each, switching between them at the reads `turns` says; each must see
/// what it sees alone. How often it was switched, and whether the schedule could not be followed.
fn interleaved(
    ins: &[(&[u8], &Seen)],
    turns: Vec<usize>,
    step: usize,
    free: &[usize],
    stack: usize,
) -> Result<(u64, bool), Fail> {
    let gate = Gate::new(ins.len(), turns);
    let r: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = ins
            .iter()
            .enumerate()
            .map(|(me, (b, want))| {
                let gate = &gate;
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, move || -> Res {
                        let got = seen_with(Gated { d: b, gate, me, step, free: free[me] }, b);
                        gate.leave(me);
                        match want.differs(&got?) {
                            Some(d) => fail(format!("decoded in turns with other inputs: {d}"), b),
                            None => Ok(()),
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    r.into_iter().collect::<Result<Vec<_>, _>>()?;
    Ok(gate.outcome())
}

/// A reader that itself decodes something else, before the reads counted in `at`.
struct Reentrant<'a> {
    d: &'a [u8],
    reads: usize,
    at: Vec<usize>,
    other: &'a [u8],
    want: &'a Seen,
    bad: &'a std::cell::RefCell<Res>,
}
impl std::io::Read for Reentrant<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at.contains(&self.reads) && self.bad.borrow().is_ok() {
            let r = seen(self.other).and_then(|s| match self.want.differs(&s) {
                Some(d) => fail(format!("decoded in the middle of another decoding: {d}"), self.other),
                None => Ok(()),
            });
            *self.bad.borrow_mut() = r;
        }
        self.reads += 1;
        let n = buf.len().min(7);
        self.d.read(&mut buf[..n])
    }
}

/// Deep and long inputs that are all in the middle at the same time.
fn overlapping(cx: &mut Ctx) -> Res {
    let mut work: Vec<(String, Vec<u8>)> = vec![];
    for (k, name) in DEEP_KINDS.iter().enumerate() {
        for place in 0..3u64 {
            work.push((format!("nested {name}, place {place}"), deep(k as u64, place, 20_000)));
        }
    }
    for (name, b) in long_inputs() {
        let r = refdec::decode(&b);
        if r.depth < 1000 && r.locals <= 300_000 && b.len() < 2_000_000 {
            work.push((name.to_string(), b));
        }
    }
    let mut t = Tape::random(mix(&[cx.seed, 0x0E1]));
    for k in 0..8 {
        let mut b = deep(k % 5, k % 3, 5000);
        let at = b.len() / 2 + k as usize;
        b[at] ^= 0x55;
        work.push((format!("nested and changed {k}"), b));
        work.push((format!("generated {k}"), some_input(&mut t)));
    }
    work.retain(|(_, b)| refdec::decode(b).locals <= 300_000);
    let first: Vec<Seen> = work.iter().map(|(_, b)| big_stack(|| seen(b))).collect::<Result<_, _>>()?;
    let rounds = if cx.tier == Tier::Quick { 24 } else { 400 };
    for round in 0..rounds {
        // the same one, or different ones
        let pick: Vec<usize> = (0..8)
            .map(|k| if round < work.len() && round % 2 == 0 { round } else { (round * 3 + k * t.range(1, 5)) % work.len() })
            .collect();
        let ins: Vec<(&[u8], &Seen)> = pick.iter().map(|k| (&work[*k].1[..], &first[*k])).collect();
        // let each run to near its middle, and only then, in turns, to the end
        let step = *t.pick(&[1usize, 64, 4096]);
        let free: Vec<usize> = ins.iter().map(|(b, _)| b.len() / 2 / step + t.range(0, 3)).collect();
        let turns: Vec<usize> = (0..400).map(|k| if k < 8 { k } else { t.range(0, 7) }).collect();
        let (n, stuck) = interleaved(&ins, turns, step, &free, 256 << 20)?;
        cx.eval(mix(&[round as u64, 0x0E1]), n > 1);
        cx.label(if stuck { "overlapping: schedule not followed" } else { "overlapping" });
        cx.sample("overlapping", || format!("{} switches between {}", n, pick.iter().map(|k| &work[*k].0[..]).collect::<Vec<_>>().join(", ")));
    }
    Ok(())
}

pub static C23: Check = Check {
    id: "C23",
    level: "exploration",
    rule: "an input of a history was decoded at least twice, with other decodings between, before or beside it (distinct by history)",
    assumptions: &["interleavings are those of the operating system's scheduler, and those at the granularity of reads"],
    sweep: no_sweep,
    run_sweep: no_sweep_case,
    gens: |t| if t == Tier::Quick { 60_000 } else { 2_000_000 },
    run_gen: |t, cx| {
        let n = t.range(2, 6);
        let threads = t.chance(1, 10);
        let mut ins: Vec<Vec<u8>> = (0..n).map(|_| some_input(t)).collect();
        // close relatives of one input, which a wrong cache could confuse
        if t.bool() {
            let mut b = ins[0].clone();
            if let Some(x) = b.last_mut() {
                *x ^= 1;
            }
            ins.push(b);
            let mut b = ins[0].clone();
            b.pop();
            ins.push(b);
        }
        ins.retain(|b| refdec::decode(b).locals <= 300_000);
        if ins.is_empty() {
            return Ok(());
        }
        let mut h = vec![];
        let mut first = vec![];
        for b in &ins {
            // right, on its own account
            match agree(b, true)? {
                Verdict::Skipped => return Ok(()),
                v => count(cx, &v),
            }
            first.push(seen(b)?);
            h.push(hash(b));
        }
        let steps = t.range(2, 12);
        let mut prev = usize::MAX;
        for _ in 0..steps {
            let k = t.below(ins.len() as u64) as usize;
            h.push(k as u64);
            if let Some(d) = first[k].differs(&seen(&ins[k])?) {
                return fail(format!("decoded again (after input {prev} of this history): {d}"), &ins[k]);
            }
            prev = k;
        }
        if threads {
            cx.label("history with threads");
            let seed = t.below(1 << 32);
            let r: Vec<Res> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4u64)
                    .map(|th| {
                        let (ins, first) = (&ins, &first);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || -> Res {
                                let mut r = Rng::new(mix(&[seed, th]));
                                for _ in 0..40 {
                                    let k = (r.next() % ins.len() as u64) as usize;
                                    if let Some(d) = first[k].differs(&seen(&ins[k])?) {
                                        return fail(format!("decoded beside others: {d}"), &ins[k]);
                                    }
                                }
                                Ok(())
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            r.into_iter().collect::<Result<Vec<_>, _>>()?;
        }
        if t.chance(1, 4) {
            let k = t.below(ins.len() as u64) as usize;
            let w = t.below(1 << 20);
            let (got, asked) = world::strange(w, || seen(&ins[k]));
            if let Some(d) = first[k].differs(&got?) {
                return fail(format!("with all environment variables set and the clock running fast: {d}"), &ins[k]);
            }
            cx.label("in a strange world");
            if asked > 0 {
                cx.label("asked for the environment or the time");
            }
        }
        if t.chance(1, 8) {
            let n = t.range(2, 4);
            let pick: Vec<usize> = (0..n).map(|_| t.below(ins.len() as u64) as usize).collect();
            let work: Vec<(&[u8], &Seen)> = pick.iter().map(|k| (&ins[*k][..], &first[*k])).collect();
            let mut turns = vec![];
            let lockstep = t.bool();
            for k in 0..t.range(5, 60) {
                let (who, n) = if lockstep { (k % n, 1) } else { (t.range(0, n - 1), t.range(1, 20)) };
                turns.extend(std::iter::repeat_n(who, n));
            }
            let step = *t.pick(&[1, 1, 3, 1000]);
            let free: Vec<usize> = work.iter().map(|(b, _)| if t.bool() { 0 } else { t.upto(b.len()) }).collect();
            let (n, stuck) = interleaved(&work, turns, step, &free, 64 << 20)?;
            cx.label(if stuck { "in turns: schedule not followed" } else { "in turns" });
            cx.sample("in turns", || format!("{n} switches between {} decodings", work.len()));
            h.extend(pick.iter().map(|k| *k as u64));
        }
        if t.chance(1, 3) {
            let (a, b) = (t.below(ins.len() as u64) as usize, t.below(ins.len() as u64) as usize);
            let reads = ins[a].len().min(300);
            let at: Vec<usize> = (0..t.range(1, 4)).map(|_| t.upto(reads)).collect();
            let bad = std::cell::RefCell::new(Ok(()));
            let r = Reentrant { d: &ins[a], reads: 0, at, other: &ins[b], want: &first[b], bad: &bad };
            let got = seen_with(r, &ins[a]);
            bad.into_inner()?;
            if let Some(d) = first[a].differs(&got?) {
                return fail(format!("decoded with another decoding in its middle: {d}"), &ins[a]);
            }
            cx.label("one within the other");
            h.extend([a as u64, b as u64]);
        }
        cx.eval(mix(&h), true);
        cx.sample(if threads { "threads" } else { "history" }, || {
            format!("{} inputs, {steps} more decodings; first {}", ins.len(), hex(&ins[0]))
        });
        Ok(())
    },
    post: |cx| {
        cx.label(if world::works() { "environment and time under control" } else { "environment and time not under control" });
        for secs in templates() {
            let b = enc::canonical(secs).bytes;
            for (b, what) in [(&b[..], "template"), (&b[..b.len() - 1], "template, cut off")] {
                let first = seen(b)?;
                for w in 0..24 {
                    let (got, _) = world::strange(w, || seen(b));
                    if let Some(d) = first.differs(&got?) {
                        return fail(format!("{what}, with all environment variables set and the clock running fast: {d}"), b);
                    }
                }
                cx.eval(mix(&[hash(b), 24]), true);
            }
        }
        overlapping(cx)?;
        accumulate(cx)?;
        // against fresh processes
        let mut t = Tape::random(mix(&[cx.seed, 23]));
        let dir = work().join(format!("c23.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let n = if cx.tier == Tier::Quick { 60 } else { 1500 };
        let mut r = Ok(());
        for k in 0..n {
            let b = some_input(&mut t);
            if refdec::decode(&b).locals > 10_000 {
                continue;
            }
            let f = dir.join("in");
            std::fs::File::create(&f).unwrap().write_all(&b).unwrap();
            let out = Command::new(std::env::current_exe().unwrap())
                .args(["probe", "seen", f.to_str().unwrap()])
                .stdin(Stdio::null())
                .output()
                .expect("probe");
            let here = big_print(&b);
            cx.eval_bytes(&b, true);
            cx.label("fresh process");
            if String::from_utf8_lossy(&out.stdout) != here {
                r = fail(format!("input {k}: a fresh process sees something else"), &b);
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        r
    },
    exhaustive: false,
    hang_is_violation: false,
};

/// What to decode over and over, in case something is left behind each time.
fn workloads(t: &mut Tape) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for (k, name) in DEEP_KINDS.iter().enumerate() {
        for place in 0..3u64 {
            let b = deep(k as u64, place, 1000);
            v.push((format!("1000 nested {name}, place {place}"), b.clone()));
            v.push((format!("1000 nested {name}, place {place}, cut in the middle"), b[..b.len() / 2].to_vec()));
            let mut c = b.clone();
            let at = c.len() - 1000;
            c[at] = 0xFF;
            v.push((format!("1000 nested {name}, place {place}, undefined opcode inside"), c));
        }
    }
    for (k, secs) in templates().iter().enumerate().step_by(3) {
        let b = enc::canonical(secs).bytes;
        let mut c = b.clone();
        *c.last_mut().unwrap() ^= 0xFF;
        v.push((format!("template {k}, last byte changed"), c));
        v.push((format!("template {k}, cut"), b[..b.len() - 1].to_vec()));
        v.push((format!("template {k}"), b));
    }
    for k in 0..40 {
        v.push((format!("generated {k}"), some_input(t)));
    }
    for (name, b) in long_inputs() {
        if b.len() < 3_000_000 && refdec::decode(&b).depth < 1000 {
            v.push((format!("long: {name}"), b));
        }
    }
    v.retain(|(_, b)| refdec::decode(b).locals <= 300_000);
    v
}

/// Inputs that declare as much as can be, and are malformed.
fn extremes() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for secs in templates() {
        let t = Tape::replay(vec![0, 0]);
        for (k, s) in enc::sites(secs, &t).iter().enumerate() {
            if !is_count(s.kind) && (s.kind != K::U32 || s.inner) {
                continue;
            }
            for n in [1u64 << 31, (1 << 32) - 1] {
                let mut f = vec![];
                leb_u(n, &mut f);
                for cut in [false, true] {
                    let f = f.clone();
                    let b = enc::faulty(secs, &mut t.clone(), k, if cut { Fault::CutAt(f) } else { Fault::Replace(f) }).bytes;
                    v.push(b.clone());
                    // an undefined opcode, or so
                    if let Some(x) = b.len().checked_sub(2) {
                        let mut b = b;
                        b[x] = 0xFF;
                        v.push(b);
                    }
                }
            }
        }
    }
    for n in [1u64 << 16, 1 << 24, 1 << 31, (1 << 32) - 1] {
        let mut run = vec![];
        leb_u(n, &mut run);
        run.push(0x7F);
        for (pre, post) in [(&[1u8][..], &[0xFFu8, 0x0B][..]), (&[1], &[]), (&[1], &[0x01]), (&[2], &[0xFF]), (&[2], &[1, 0x15, 0x0B]), (&[1], &[0x0B, 0x01])] {
            let body = [pre, &run, post].concat();
            let mut b = PRE.to_vec();
            b.extend([3, 2, 1, 0, 10, body.len() as u8 + 2, 1, body.len() as u8]);
            b.extend(body);
            v.push(b);
        }
    }
    v.retain(|b| {
        let r = refdec::decode(b);
        r.module.is_err() && r.locals <= 10_000
    });
    v
}

/// Long histories: the same input many times on one thread, then a set of others.
fn accumulate(cx: &mut Ctx) -> Res {
    let mut t = Tape::random(mix(&[cx.seed, 0xACC]));
    let budget = if cx.tier == Tier::Quick { 20_000_000u64 } else { 600_000_000 };
    let mut probes: Vec<Vec<u8>> = templates().iter().step_by(5).map(|s| enc::canonical(s).bytes).collect();
    for k in 0..5 {
        probes.push(deep(k, k % 3, 300));
    }
    for _ in 0..20 {
        probes.push(some_input(&mut t));
    }
    probes.retain(|b| refdec::decode(b).locals <= 10_000);
    let mut first = vec![];
    for b in &probes {
        agree(b, true)?;
        first.push(seen(b)?);
    }
    let probe = |after: &str| -> Res {
        for (b, f) in probes.iter().zip(&first) {
            if let Some(d) = f.differs(&seen(b)?) {
                return fail(format!("decoded again, after decoding {after} many times: {d}"), b);
            }
        }
        Ok(())
    };
    let work = workloads(&mut t);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let r: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|_| {
                let (next, work, probe) = (&next, &work, &probe);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || -> Res {
                        loop {
                            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let Some((name, b)) = work.get(k) else { return Ok(()) };
                            // a thread that has seen nothing else
                            std::thread::scope(|s| {
                                std::thread::Builder::new()
                                    .stack_size(64 << 20)
                                    .spawn_scoped(s, || -> Res {
                                        let mine = seen(b)?;
                                        let n = (budget / (b.len() as u64 + 300)).clamp(3, 30_000);
                                        for _ in 0..n {
                                            let ok = subject::call(|| wadec::decode_module(&b[..]).is_ok()).on(b)?;
                                            if ok != matches!(mine, Seen::Module(_)) {
                                                return fail(format!("{name}: another verdict after decoding it many times"), b);
                                            }
                                        }
                                        if let Some(d) = mine.differs(&seen(b)?) {
                                            return fail(format!("{name}: decoded again many times: {d}"), b);
                                        }
                                        probe(name)
                                    })
                                    .unwrap()
                                    .join()
                                    .unwrap()
                            })?;
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    r.into_iter().collect::<Result<Vec<_>, _>>()?;
    // a budget that is not given back
    let extreme = extremes();
    for round in 0..40 {
        for b in &extreme {
            let ok = subject::call(|| wadec::decode_module(&b[..]).is_ok()).on(b)?;
            if ok {
                return fail("malformed module accepted", b);
            }
        }
        if round % 8 == 7 {
            probe("inputs that declare very much, and are rejected,")?;
        }
    }
    for b in &extreme {
        cx.eval(mix(&[hash(b), 0xACC]), true);
        cx.label("declares very much, is rejected, many times");
    }
    for (name, b) in &work {
        cx.eval(mix(&[hash(b), 0xACC]), true);
        cx.label("one input decoded many times, then others");
        cx.sample("many times", || name.clone());
    }
    probe("everything else")
}

fn big_print(b: &[u8]) -> String {
    match wadec::decode_module(b) {
        Ok(m) => format!("{m:?}"),
        Err(e) => format!("{}\n{e:?}", subject::show(&e)),
    }
}

pub fn probe_seen(path: &str) -> i32 {
    let Ok(b) = std::fs::read(path) else { return 2 };
    print!("{}", big_stack(|| big_print(&b)));
    0
}
