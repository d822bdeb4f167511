//! C28 print and equality, C29 nothing stays behind, C30 the first malformed section decides.
use super::common::*;
use super::robust::PRE;
use crate::ast::*;
use crate::engine::*;
use crate::r#gen::{self, vary};
use crate::tape::{Rng, Tape, hash, mix};
use crate::enc::leb_u;
use crate::{alloc, conv, enc, mutate, refdec, subject};
use std::io::Read;

// ------------------------------------------------------------------------------------------------

/// Floating-point constants as they print and compare: NaNs have no payload, zeros no sign
/// (in comparisons).
fn floats(e: &mut [Ins], zeros: bool, nan: &mut bool) {
    for i in e {
        match &mut i.imm {
            Imm::F32(x) => {
                if f32::from_bits(*x).is_nan() {
                    *nan = true;
                    *x = 0x7FC0_0000;
                } else if zeros && *x << 1 == 0 {
                    *x = 0;
                }
            }
            Imm::F64(x) => {
                if f64::from_bits(*x).is_nan() {
                    *nan = true;
                    *x = 0x7FF8 << 48;
                } else if zeros && *x << 1 == 0 {
                    *x = 0;
                }
            }
            Imm::Block(_, e) | Imm::Try(_, _, e) => floats(e, zeros, nan),
            Imm::If(_, a, b) => {
                floats(a, zeros, nan);
                if let Some(b) = b {
                    floats(b, zeros, nan);
                }
            }
            _ => {}
        }
    }
}

fn normal(a: &Abst, zeros: bool) -> (Abst, bool) {
    let mut a = a.clone();
    let mut nan = false;
    let mut f = |e: &mut Expr| floats(e, zeros, &mut nan);
    a.funcs.iter_mut().for_each(|x| f(&mut x.body));
    a.tables.iter_mut().for_each(|x| f(&mut x.init));
    a.globals.iter_mut().for_each(|x| f(&mut x.init));
    for e in &mut a.elems {
        e.init.iter_mut().for_each(&mut f);
        if let ElemMode::Active(_, e) = &mut e.mode {
            f(e);
        }
    }
    for d in &mut a.datas {
        if let DataMode::Active(_, e) = &mut d.mode {
            f(e);
        }
    }
    (a, nan)
}

/// Modules are told apart, by print and by comparison, if and only if they differ.
fn tell_apart(x: &[u8], y: &[u8], pretty: bool, cx: &mut Ctx) -> Res {
    let both = [x, y].concat();
    let (Ok(mut mx), Ok(mut my)) = (subject::decode(x)?, subject::decode(y)?) else {
        return fail("well-formed module rejected", &both);
    };
    for whole in [true, false] {
        if !whole {
            // the sizes of the sections give much away
            mx.section_headers.clear();
            my.section_headers.clear();
        }
        let (ax, ay) = (conv::module(&mx), conv::module(&my));
        let ((nx, nan), (ny, nan2)) = (normal(&ax, false), normal(&ay, false));
        let same = nx == ny;
        let d = || diff(&nx, &ny).unwrap_or_default();
        let what = if whole { "" } else { " (disregarding section headers)" };
        let prints = |p: &str, a: String, b: String| -> Res {
            if a == b && !same {
                return fail(format!("two modules that differ print the same with {p}{what}: {}", d()), &both);
            }
            if a != b && same {
                return fail(format!("two modules that do not differ print differently with {p}{what}"), &both);
            }
            Ok(())
        };
        subject::call(|| {
            prints("{:?}", format!("{mx:?}"), format!("{my:?}"))?;
            if pretty {
                prints("{:#?}", format!("{mx:#?}"), format!("{my:#?}"))?;
            }
            if !nan && !nan2 {
                let (eq, qe) = (mx == my, my == mx);
                if eq != qe {
                    return fail(format!("comparison is not symmetric{what}: {}", d()), &both);
                }
                if eq && normal(&ax, true).0 != normal(&ay, true).0 {
                    return fail(format!("two modules that differ compare equal{what}: {}", d()), &both);
                }
                if !eq && same {
                    return fail(format!("two modules that do not differ compare unequal{what}"), &both);
                }
                // copies of parts
                for (f, g) in mx.funcs.iter().zip(&my.funcs) {
                    let c = f.body.clone();
                    if c != f.body || format!("{c:?}") != format!("{:?}", f.body) {
                        return fail("a copy of a body differs from it", &both);
                    }
                    if (c == g.body) != (f.body == g.body) {
                        return fail("a copy of a body compares differently", &both);
                    }
                }
                let c = mx.types.clone();
                if c != mx.types || format!("{c:?}") != format!("{:?}", mx.types) {
                    return fail("a copy of the types differs from them", &both);
                }
            }
            Ok(())
        })
        .on(&both)??;
        cx.label(match (whole, same) {
            (_, true) => "no difference",
            (true, false) => "a difference",
            (false, false) => "a difference, sizes disregarded",
        });
    }
    Ok(())
}

/// A list of `n`, two of which have another entry at `at`; kinds of list.
const LISTS: u64 = 27;
fn list_pair(kind: u64, n: usize, at: usize, how: u32) -> (Vec<Sec>, Vec<Sec>) {
    let one = |y: bool| -> Vec<Sec> {
        // the entry of number k
        let x = |k: usize| if y && k == at { 1000 + how } else { k as u32 % 7 };
        let byte = |k: usize| if y && k == at { 0xA0 + how as u8 } else { k as u8 % 7 };
        let vt = |k: usize| match x(k) {
            v @ 0..7 => [I32, Vt::V128, I32, Vt::Num(Num::F32)][v as usize % 4],
            v => Vt::Ref(Rt { null: v % 2 == 0, ht: Ht::Idx(v) }),
        };
        let ft = |k: usize| Ft { var: k % 2 == 0, st: St::V(vt(k)) };
        let ks = 0..n;
        let ty = |ct| vec![Sec::Type(vec![Rec(vec![Sub { fin: true, sup: vec![], ct }])])];
        let ins = |k: usize| i(0x20, Imm::I1(x(k)));
        let name = |k: usize| format!("n{}", x(k)).into_bytes();
        let func_rt = Rt { null: true, ht: Ht::Abs(Abs(0x70)) };
        match kind {
            0 => func(ks.map(ins).collect()),
            1 => func(vec![i(0x0E, Imm::BrTable(ks.map(x).collect(), 1))]),
            2 => func(vec![i(0x1C, Imm::SelT(ks.map(vt).collect()))]),
            3 => func(vec![i(0x1F, Imm::Try(Bt::Empty, ks.map(|k| Catch::Catch(1, x(k))).collect(), vec![]))]),
            4 => func(vec![i(0x02, Imm::Block(Bt::Empty, ks.map(ins).collect()))]),
            5 => func(vec![i(0x04, Imm::If(Bt::Empty, vec![], Some(ks.map(ins).collect())))]),
            6 => ty(Ct::Func(ks.map(vt).collect(), vec![])),
            7 => ty(Ct::Func(vec![], ks.map(vt).collect())),
            8 => ty(Ct::Struct(ks.map(ft).collect())),
            9 => vec![Sec::Type(vec![Rec(vec![Sub { fin: false, sup: ks.map(x).collect(), ct: Ct::Struct(vec![]) }])])],
            10 => vec![Sec::Type(vec![Rec(ks.map(|k| Sub { fin: true, sup: vec![x(k)], ct: Ct::Struct(vec![]) }).collect())])],
            11 => vec![Sec::Type(ks.map(|k| Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Array(ft(k)) }])).collect())],
            12 => vec![Sec::Import(ks.map(|k| Imp { module: b"m".to_vec(), item: name(k), ext: Ext::Func(3) }).collect())],
            13 => vec![Sec::Import(ks.map(|k| Imp { module: b"m".to_vec(), item: b"i".to_vec(), ext: Ext::Tag(x(k)) }).collect())],
            14 => vec![
                Sec::Function(ks.clone().map(x).collect()),
                Sec::Code(ks.map(|_| Code { locals: vec![], body: vec![] }).collect()),
            ],
            15 => vec![
                Sec::Function(ks.clone().map(|_| 0).collect()),
                Sec::Code(ks.map(|k| Code { locals: vec![(x(k), I32)], body: vec![] }).collect()),
            ],
            16 => vec![Sec::Function(vec![0]), Sec::Code(vec![Code { locals: ks.map(|k| (1, vt(k))).collect(), body: vec![] }])],
            17 => vec![Sec::Memory(ks.map(|k| Lim { a64: false, min: u64::from(x(k)), max: None }).collect())],
            18 => vec![Sec::Table(ks.map(|k| Table {
                ty: Tt { rt: func_rt, lim: Lim { a64: true, min: 1, max: Some(u64::from(x(k))) } },
                init: vec![i(0xD0, Imm::Ht(func_rt.ht))],
            }).collect())],
            19 => vec![Sec::Tag(ks.map(x).collect())],
            20 => vec![Sec::Global(ks.map(|k| Global { ty: Gt { var: true, vt: I32 }, init: konst(x(k) as i32) }).collect())],
            21 => vec![Sec::Export(ks.map(|k| Exp { name: name(k), kind: 0, idx: 1 }).collect())],
            22 => vec![Sec::Element(vec![Elem {
                rt: func_rt,
                init: ks.map(|k| vec![i(0xD2, Imm::I1(x(k)))]).collect(),
                mode: ElemMode::Passive,
            }])],
            23 => vec![Sec::Element(ks.map(|k| Elem { rt: func_rt, init: vec![], mode: ElemMode::Active(x(k), konst(0)) }).collect())],
            24 => vec![Sec::DataCount(1), Sec::Data(vec![Data { init: ks.map(byte).collect(), mode: DataMode::Passive }])],
            25 => vec![Sec::Custom(b"c".to_vec(), ks.map(byte).collect())],
            _ => {
                let s: String = ks.map(|k| if y && k == at { char::from_u32(0xA0 + how).unwrap() } else { 'a' }).collect();
                vec![Sec::Custom(s.into_bytes(), vec![])]
            }
        }
    };
    (one(false), one(true))
}

const LENGTHS: [usize; 21] = [1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 101, 129, 257, 1025, 5000, 10_001, 20_001, 50_001, 65_537, 100_001];

pub static C28: Check = Check {
    id: "C28",
    level: "exploration",
    rule: "two well-formed inputs, whose modules are compared and printed (distinct by pair)",
    assumptions: &[
        "floating-point constants print and compare as numbers: payloads of NaNs are not shown, NaNs are not compared, and the sign of zero does not count in comparisons",
    ],
    sweep: |_| templates().len() as u64 + LISTS * LENGTHS.len() as u64,
    run_sweep: |k, cx| {
        let nt = templates().len() as u64;
        if k >= nt {
            let (kind, n) = ((k - nt) % LISTS, LENGTHS[((k - nt) / LISTS) as usize]);
            let mut at = vec![0, n / 2, n - 1, n.saturating_sub(2), n * 2 / 3];
            at.dedup();
            // printing these takes long
            let (at, hows) = if n > 5000 { (vec![n - 1, n / 2 + 1], 0..1) } else { (at, 0..2) };
            for at in at {
                for how in hows.clone() {
                    let (a, b) = list_pair(kind, n, at, how);
                    let (a, b) = (enc::canonical(&a).bytes, enc::canonical(&b).bytes);
                    tell_apart(&a, &b, how == 0, cx)?;
                    cx.eval(mix(&[hash(&a), hash(&b)]), true);
                    cx.label("lists with one different entry");
                }
            }
            return Ok(());
        }
        // every byte of the template, changed
        let x = enc::canonical(&templates()[k as usize]).bytes;
        for at in 8..x.len() {
            for v in 0..=255u8 {
                if v == x[at] || (v % 5 != (at % 5) as u8 && v.abs_diff(x[at]) > 3 && (v ^ x[at]).count_ones() > 1) {
                    continue;
                }
                let mut y = x.clone();
                y[at] = v;
                let r = refdec::decode(&y);
                if r.module.is_err() || r.locals > 2000 {
                    continue;
                }
                tell_apart(&x, &y, v % 8 == 0, cx)?;
                cx.eval(mix(&[hash(&x), hash(&y)]), true);
                cx.label("one byte changed");
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 50_000 } else { 5_000_000 },
    run_gen: |t, cx| {
        let p = match t.weighted(&[80, 20, 1]) {
            0 => r#gen::small(),
            1 => r#gen::medium(),
            _ => r#gen::large(),
        };
        let secs = r#gen::module(t, p);
        let x = enc::canonical(&secs).bytes;
        let mut pairs: Vec<(Vec<u8>, &str)> = vec![];
        match t.below(4) {
            0 => pairs.push((enc::styled(&secs, t).bytes, "another encoding")),
            1 => {
                for _ in 0..6 {
                    let (y, _) = mutate::mutate(&x, t);
                    pairs.push((y, "mutation"));
                }
            }
            _ => {
                for _ in 0..3 {
                    let mut s = secs.clone();
                    vary(&mut s, t);
                    pairs.push((enc::canonical(&s).bytes, "variation"));
                }
            }
        }
        for (y, l) in pairs {
            let r = refdec::decode(&y);
            if r.module.is_err() || r.locals > 20_000 {
                continue;
            }
            let pretty = hash(&y) % 4 == 0 && y.len() < 4000;
            tell_apart(&x, &y, pretty, cx)?;
            cx.eval(mix(&[hash(&x), hash(&y)]), true);
            cx.label(l);
            cx.sample(l, || format!("{} / {}", hex(&x), hex(&y)));
        }
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// Other names and constants in the same module: replace digits and letters that are marked.
fn renumber(b: &mut [u8], marks: &[usize], r: &mut Rng) {
    for m in marks {
        b[*m] = b'a' + (r.next() % 26) as u8;
    }
}

/// Bytes that can be changed to any small letter without changing the verdict.
fn free_bytes(b: &[u8]) -> Vec<usize> {
    let verdict = |b: &[u8]| {
        let r = refdec::decode(b);
        (r.module.is_ok(), r.sections, r.at, r.locals)
    };
    let was = verdict(b);
    let most = if b.len() > 4000 { 16 } else { 400 };
    (8..b.len().min(most))
        .filter(|i| {
            let mut c = b.to_vec();
            [b'a', b'k', b'z'].iter().all(|x| {
                c[*i] = *x;
                verdict(&c) == was
            })
        })
        .collect()
}

/// What stays allocated after decoding variants of `b` this many times.
fn left(b: &[u8], n: usize, seed: u64) -> Result<(i64, bool), Fail> {
    let marks = free_bytes(b);
    let mut r = Rng::new(seed);
    let mut v = b.to_vec();
    let mut ok = false;
    let mut left = 0;
    for _ in 0..n {
        renumber(&mut v, &marks, &mut r);
        subject::guard(&v)?;
        let (res, u) = subject::call(|| {
            alloc::measure(|| {
                let d = wadec::decode_module(&v[..]);
                d.is_ok()
            })
        })
        .on(&v)?;
        ok |= res;
        left += u.left;
    }
    Ok((left, ok))
}

fn warm_up() -> Res {
    // tables that are built once
    thread_local!(static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if DONE.replace(true) {
        return Ok(());
    }
    for s in templates() {
        let b = enc::canonical(s).bytes;
        let _ = subject::decode(&b)?;
        for k in 0..b.len() {
            let _ = subject::decode(&b[..k])?;
            let mut c = b.clone();
            c[k] ^= 0xFF;
            if refdec::decode(&c).locals < MAX_LOCALS {
                let _ = subject::decode(&c)?;
            }
        }
    }
    Ok(())
}

const LEFT: i64 = 64 << 10;

fn nothing_left(b: &[u8], n: usize, what: &str, cx: &mut Ctx) -> Res {
    warm_up()?;
    let few = n <= 200;
    if refdec::decode(b).locals > if few { 200_000 } else { 5000 } || b.len() > if few { 4_000_000 } else { 20_000 } {
        cx.label("skipped");
        return Ok(());
    }
    let (l, ok) = left(b, n, hash(b))?;
    let bound = LEFT + 8 * b.len() as i64;
    if l > bound {
        return fail(format!("{what}: after {n} decodings, whose results were dropped, {l} bytes are still allocated (bound {bound})"), b);
    }
    cx.eval_bytes(b, true);
    cx.label(if ok { "accepted" } else { "rejected" });
    cx.label(if l == 0 { "nothing left" } else { "something left, within the bound" });
    Ok(())
}

/// In a process of its own: how many threads there are and files are open, before and after.
pub fn probe_left() -> i32 {
    let count = || ["/proc/self/task", "/proc/self/fd"].map(|d| std::fs::read_dir(d).map_or(0, |x| x.count()));
    let before = count();
    let mut n = 0;
    for secs in templates() {
        let b = enc::canonical(secs).bytes;
        for k in 0..40 {
            let mut c = b.clone();
            match k % 4 {
                0 => {}
                1 => c.truncate(b.len() - k % b.len()),
                _ => c[b.len() - 1 - k % (b.len() - 8)] ^= 0xFF,
            }
            if refdec::decode(&c).locals < 100_000 {
                std::hint::black_box(wadec::decode_module(&c[..]).is_ok());
                n += 1;
            }
        }
    }
    std::thread::sleep(std::time::Duration::from_millis(100));
    let after = count();
    if (0..2).any(|k| after[k] > before[k] + 20) {
        eprintln!("{before:?} threads and files before {n} decodings, {after:?} after");
        return 1;
    }
    0
}

pub static C29: Check = Check {
    id: "C29",
    level: "exploration",
    rule: "one input, with names and constants varied, is decoded some thousand times on a thread (distinct by input)",
    assumptions: &["memory is counted on the thread that decodes; a bounded amount (64 KB and eight times the input) may be kept"],
    sweep: |_| templates().len() as u64 + super::accept::LISTED as u64 * 4 * 6,
    run_sweep: |k, cx| {
        if let Some(y) = k.checked_sub(templates().len() as u64) {
            // long lists, entire and with something wrong at their end
            let (kind, n, times) = {
                let (n, times) = [(300, 1500), (1100, 300), (5000, 60), (70_000, 12)][y as usize % 4];
                (y as usize / 4 % super::accept::LISTED, n, times)
            };
            let e = enc::canonical(&super::accept::listed(kind, n));
            let mut b = e.bytes.clone();
            let last = b.len() - 1;
            match y as usize / 4 / super::accept::LISTED {
                0 => {}
                1 => b[last] = 0xFF,
                2 => b[last - 1] = 0xFF,
                3 => b.truncate(last),
                // the section says that it is shorter
                4 => {
                    let Some(&(start, at, end)) = e.spans.last() else { return Ok(()) };
                    b.truncate(start + 1);
                    leb_u((end - at).saturating_sub(1) as u64, &mut b);
                    b.extend_from_slice(&e.bytes[at..]);
                }
                // another section follows that must not
                _ => b.extend([1, 1, 0]),
            }
            nothing_left(&b, times, "long list", cx)?;
            cx.label("long lists");
            return Ok(());
        }
        let b = enc::canonical(&templates()[k as usize]).bytes;
        nothing_left(&b, 3000, "template", cx)?;
        for j in 0..b.len() {
            // as far as it goes, and with a fault
            if j % 3 == k as usize % 3 {
                nothing_left(&b[..j], 3000, "template, cut off", cx)?;
            }
            if j >= 8 && j % 3 != k as usize % 3 {
                let mut c = b.clone();
                c[j] = if j % 2 == 0 { 0xFF } else { 0x15 };
                nothing_left(&c, 3000, "template with a fault", cx)?;
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 4_000 } else { 400_000 },
    run_gen: |t, cx| {
        let p = if t.chance(1, 8) { r#gen::medium() } else { r#gen::small() };
        let secs = r#gen::module(t, p);
        let mut b = enc::styled(&secs, t).bytes;
        let what = match t.below(3) {
            0 => "module",
            1 => {
                b = mutate::mutate(&b, t).0;
                "mutated module"
            }
            _ => match field_fault(&secs, t, |_| true) {
                Some((c, _)) => {
                    b = c;
                    "module with a wrong field"
                }
                None => return Ok(()),
            },
        };
        let n = if b.len() < 1000 { 3000 } else { 400 };
        nothing_left(&b, n, what, cx)?;
        cx.sample(what, || hex(&b));
        Ok(())
    },
    post: |cx| {
        // large inputs, each with other contents
        for kind in 0..5usize {
            let mut left = 0;
            let mut most = 0;
            for k in 0..300usize {
                let mut r = Rng::new(k as u64);
                let blob: Vec<u8> = (0..50_000).map(|_| b'a' + (r.next() % 26) as u8).collect();
                let mut b = enc::canonical(&match kind {
                    0 | 1 => vec![Sec::Custom(blob[..100].to_vec(), blob)],
                    2 => vec![Sec::Data(vec![Data { init: blob, mode: DataMode::Passive }])],
                    3 => vec![Sec::Import(blob.chunks(10).map(|c| Imp { module: c.to_vec(), item: c.to_vec(), ext: Ext::Func(1) }).collect())],
                    _ => func(blob.iter().map(|x| i(0x41, Imm::I32(i32::from(*x)))).collect()),
                })
                .bytes;
                if kind == 1 {
                    b.push(1);
                }
                let (_, u) = subject::call(|| alloc::measure(|| wadec::decode_module(&b[..]).is_ok())).on(&b)?;
                left += u.left;
                most = most.max(b.len() as i64);
                cx.eval_bytes(&b, true);
            }
            if left > LEFT + 8 * most {
                return Err(Fail::new(format!("after 300 decodings of {most} bytes (kind {kind}), {left} bytes are still allocated")));
            }
            cx.label("large inputs");
        }
        if let Some(e) = super::robust::probe_run("left", "65536") {
            return Err(Fail::new(format!("threads or open files are left: {e}")));
        }
        cx.label("threads and open files counted");
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// Bytes, followed by one repeated without end; gives up when far more is read than could matter.
struct Endless<'a> {
    d: &'a [u8],
    p: usize,
    then: u8,
    over: usize,
}
const READ_AHEAD: usize = 8 << 20;
impl Read for Endless<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.p < self.d.len() {
            let n = buf.len().min(self.d.len() - self.p);
            buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
            self.p += n;
            return Ok(n);
        }
        assert!(self.over <= READ_AHEAD, "read more than {READ_AHEAD} bytes past the malformed section");
        self.over += buf.len();
        buf.fill(self.then);
        Ok(buf.len())
    }
}

fn told(r: impl Read, b: &[u8], what: &str) -> Result<(Vec<String>, String), Fail> {
    subject::guard(b)?;
    match subject::decode_with(r).map_err(|f| Fail::new(format!("{what}: {}", f.msg)).on(b))? {
        Ok(_) => fail(format!("{what}: accepted although a section is malformed"), b),
        Err(e) => Ok((subject::chain(&e), format!("{e:?}"))),
    }
}

/// If a section (or the preamble) of `b` is malformed in itself: where it ends.
fn malformed_section(b: &[u8]) -> Option<usize> {
    if b.len() < 8 {
        return None;
    }
    if b[..8] != *PRE {
        return Some(8);
    }
    let r = refdec::decode(b);
    let Err(refdec::Bad::Syntax(..)) = r.module else { return None };
    // the sections up to there
    let mut p = 8;
    for k in 0.. {
        let (n, l) = refdec::leb(b.get(p + 1..)?, 32, false)?.ok()?;
        let end = p + 1 + l + n as usize;
        if end > b.len() {
            return None;
        }
        if k == r.sections {
            return Some(end);
        }
        p = end;
    }
    None
}

fn first_decides(b: &[u8], t: &mut Tape, cx: &mut Ctx) -> Res {
    let end = malformed_section(b);
    // sections out of order or repeated are errors too, and may come before
    let (mut last, mut misplaced, mut p) = (0, None, 8);
    let (mut functions, mut segments, mut contradiction) = (0, None, false);
    while p < end.unwrap_or(b.len()) && b.starts_with(PRE) {
        let id = b[p];
        if id > 13 {
            break;
        }
        let Some(Ok((n, l))) = refdec::leb(&b[p + 1..], 32, false) else { break };
        if id != 0 {
            if last != 0 && rank(last) >= rank(id) {
                // the header says it all
                misplaced = Some(p + 1 + l);
                break;
            }
            last = id;
        }
        let (from, to) = (p + 1 + l, p + 1 + l + n as usize);
        if to > b.len() {
            break;
        }
        // a code or data section that contradicts what was announced
        if let Some(Ok((count, _))) = refdec::leb(&b[from..to], 32, false) {
            match id {
                3 => functions = count,
                12 => segments = Some(count),
                10 if count != functions => contradiction = true,
                11 if segments.is_some_and(|s| s != count) => contradiction = true,
                _ => {}
            }
            if contradiction {
                misplaced = Some(to);
                break;
            }
        }
        p = to;
    }
    let Some(end) = misplaced.or(end).filter(|e| *e <= b.len()) else {
        cx.label("no section malformed in itself");
        return Ok(());
    };
    if contradiction {
        cx.label("a section that contradicts an earlier one");
    } else if misplaced.is_some() {
        cx.label("a section that cannot stand there");
    }
    let head = &b[..end];
    let first = told(head, head, "input that ends with the malformed section")?;
    let mut same = |c: &[u8], r: &mut dyn Read, what: &str| -> Res {
        let got = told(r, c, what)?;
        if got != first {
            let d = if got.0 != first.0 { (&got.0.join(": "), &first.0.join(": ")) } else { (&got.1, &first.1) };
            return fail(
                format!("{what}: the error becomes {:?}; it is {:?} if the input ends with the malformed section", clip(d.0, 300), clip(d.1, 300)),
                c,
            );
        }
        cx.eval(mix(&[hash(c), what.len() as u64]), true);
        cx.label(what);
        Ok(())
    };
    same(b, &mut &b[..], "followed by the rest of the input")?;
    let tails: Vec<(Vec<u8>, &str)> = vec![
        ((0..t.range(1, 30)).map(|_| t.byte()).collect(), "followed by random bytes"),
        (vec![t.byte()], "followed by one byte"),
        (head[8..].to_vec(), "followed by the sections again"),
        (enc::canonical(&r#gen::module(t, r#gen::small())).bytes[8..].to_vec(), "followed by sections of another module"),
        (vec![0, 0x80, 0x80, 0x80, 0x80, 0x10], "followed by a malformed header"),
        (vec![0, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 1], "followed by a section that is cut off"),
    ];
    for (tail, what) in tails {
        let c = [head, &tail[..]].concat();
        same(&c, &mut &c[..], what)?;
    }
    let then = *t.pick(&[0, 1, 0x0B, 0x80, 0xFF]);
    same(head, &mut Endless { d: head, p: 0, then, over: 0 }, "followed by bytes without end")?;
    Ok(())
}

/// Make the code or the data section contradict what was announced.
fn contradict(secs: &mut Vec<Sec>, t: &mut Tape) {
    for _ in 0..2 {
        let k = t.upto(secs.len());
        match t.below(4) {
            0 => secs.iter_mut().for_each(|s| if let Sec::Function(f) = s { f.push(0) }),
            1 => secs.iter_mut().for_each(|s| if let Sec::Code(c) = s { c.pop(); }),
            2 => secs.iter_mut().for_each(|s| if let Sec::Data(d) = s { d.push(Data { init: vec![7], mode: DataMode::Passive }) }),
            _ => secs.iter_mut().for_each(|s| if let Sec::DataCount(n) = s { *n = n.wrapping_add(1) }),
        }
        secs.insert(k, Sec::Custom(b"c".to_vec(), vec![1, 2]));
    }
}

pub static C30: Check = Check {
    id: "C30",
    level: "exploration",
    rule: "the input has a section (or preamble) that is malformed in itself, cannot stand where it does, or contradicts an earlier one, after well-formed ones, and something else follows it (distinct by input)",
    assumptions: &["up to 8 MB may be read ahead", "which of several faults within one section is reported is not constrained here"],
    sweep: |_| templates().len() as u64,
    run_sweep: |k, cx| {
        let secs = &templates()[k as usize];
        let mut all = vec![Sec::Custom(b"first".to_vec(), vec![1])];
        all.extend(secs.iter().cloned());
        let b = enc::canonical(&all).bytes;
        let mut t = Tape::random(mix(&[k, 30]));
        for at in 0..b.len() {
            for v in [b[at] ^ 0xFF, b[at] ^ 0x80, b[at].wrapping_add(1), 0xFF, 0x15, t.byte()] {
                let mut c = b.clone();
                c[at] = v;
                if refdec::decode(&c).locals <= MAX_LOCALS {
                    first_decides(&c, &mut t, cx)?;
                }
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 150_000 } else { 5_000_000 },
    run_gen: |t, cx| {
        let mut secs = module(t);
        let b = match t.weighted(&[2, 2, 1, 1]) {
            0 => match field_fault(&secs, t, |_| true) {
                Some((b, _)) => b,
                None => return Ok(()),
            },
            3 => {
                contradict(&mut secs, t);
                enc::styled(&secs, t).bytes
            }
            1 => {
                let mut b = enc::styled(&secs, t).bytes;
                for _ in 0..t.range(1, 3) {
                    b = mutate::mutate(&b, t).0;
                }
                b
            }
            _ => {
                if secs.is_empty() {
                    return Ok(());
                }
                let (x, y) = (t.upto(secs.len() - 1), t.upto(secs.len() - 1));
                if t.bool() {
                    secs.swap(x, y);
                } else {
                    let s = secs[x].clone();
                    secs.insert(y, s);
                }
                enc::styled(&secs, t).bytes
            }
        };
        if refdec::decode(&b).locals > MAX_LOCALS {
            return Ok(());
        }
        first_decides(&b, t, cx)?;
        cx.sample("input", || hex(&b));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: true,
};
