//! C03 exact acceptance, C04 the whole module, C12 prefixes and suffixes, C26 encodings.
use super::common::*;
use crate::ast::*;
use crate::engine::*;
use crate::enc::{self, Fault, K, leb_u};
use crate::r#gen::{self, Prof};
use crate::tape::Tape;
use crate::{mutate, subject};

const FIXED: u64 = 256 * 15 + 256 * 3;

/// One field of a template removed, repeated with what precedes it, or with something inserted before it.
fn around_field(x: usize, cx: &mut Ctx) -> Res {
    let (m, k, s) = &super::ints::sites()[x];
    let mut try_it = |f: Fault| -> Res {
        let b = enc::faulty(&templates()[*m], &mut super::ints::plain(), *k, f).bytes;
        let v = agree(&b, true)?;
        count(cx, &v);
        cx.eval_bytes(&b, true);
        Ok(())
    };
    for n in 1..=12 {
        try_it(Fault::Repeat(n))?;
    }
    try_it(Fault::Replace(vec![]))?;
    for b in 0..=255u8 {
        try_it(Fault::Replace([&[b], &s.bytes[..]].concat()))?;
    }
    cx.label("around each field");
    Ok(())
}

pub static C03: Check = Check {
    id: "C03",
    level: "exploration",
    rule: "the input has a correct preamble and at least one complete section header (distinct by input)",
    assumptions: &["the reference decoder states the grammar of WebAssembly 3.0"],
    sweep: |_| FIXED + super::ints::sites().len() as u64,
    run_sweep: |i, cx| {
        if i >= FIXED {
            return around_field((i - FIXED) as usize, cx);
        }
        // every section with every one- and two-byte contents; every two-byte code
        let a = (i % 256) as u8;
        let id = i / 256;
        for b in 0..=255u8 {
            let mut v = super::robust::PRE.to_vec();
            match id {
                0..15 => v.extend([id as u8, 2, a, b]),
                15 => v.extend([3, 2, 1, 0, 10, 6, 1, 4, 0, a, b, 0x0B]),
                16 => v.extend([6, 6, 1, 0x7F, 0, a, b, 0x0B]),
                _ => v.extend([1, 6, 1, 0x60, 1, a, b, 0]),
            }
            count(cx, &agree(&v, true)?);
            cx.eval_bytes(&v, true);
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 800_000 } else { 40_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let (b, l) = match t.weighted(&[20, 60, 30]) {
            0 => (enc::styled(&secs, t).bytes, "as encoded".to_string()),
            1 => {
                let mut b = enc::styled(&secs, t).bytes;
                let mut l = "";
                for _ in 0..t.weighted(&[0, 10, 3, 2, 1]) {
                    (b, l) = mutate::mutate(&b, t);
                }
                (b, l.to_string())
            }
            _ => match field_fault(&secs, t, |_| true) {
                Some(x) => x,
                None => return Ok(()),
            },
        };
        let v = agree(&b, true)?;
        cx.eval_bytes(&b, b.len() > 9);
        cx.label(&l);
        count(cx, &v);
        cx.sample(&l, || {
            let v = match &v {
                Verdict::Accepted(_) => "accepted".into(),
                Verdict::Rejected(b, _) => format!("{b:?}"),
                Verdict::Skipped => "skipped".into(),
            };
            format!("{v}: {}", hex(&b))
        });
        Ok(())
    },
    post: |cx| {
        // the format has no limits on sizes; engines do
        let mut go = |what: &str, b: Vec<u8>, f: &dyn Fn(&wadec::Module) -> bool| -> Res {
            match subject::decode(&b).on(&b)? {
                Ok(m) if f(&m) => {}
                Ok(_) => return fail(format!("wrong module: {what}"), &b[..64]),
                Err(e) => return fail(format!("well-formed module rejected: {what}: {}", rej(&e)), &b[..64]),
            }
            cx.eval(crate::tape::mix(&[b.len() as u64, 3]), true);
            cx.label("beyond the limits of engines");
            Ok(())
        };
        let sect = |pre: &[u8], id: u8, c: &[u8]| {
            let mut b = super::robust::PRE.to_vec();
            b.extend_from_slice(pre);
            b.push(id);
            leb_u(c.len() as u64, &mut b);
            b.extend_from_slice(c);
            b
        };
        let code = |body: &[u8]| {
            let mut c = vec![1];
            leb_u(body.len() as u64 + 2, &mut c);
            c.push(0);
            c.extend_from_slice(body);
            c.push(0x0B);
            sect(&[3, 2, 1, 0], 10, &c)
        };
        for n in [7_654_321 - 3, 7_654_321 - 2, 7_654_321 - 1, 7_654_321, 8_000_000] {
            go("long body", code(&vec![1; n]), &|m| m.funcs[0].body.len() == n)?;
        }
        for n in [10_000_000usize, 10_000_001] {
            let mut c = vec![1, 0, 0x41, 0, 0x0B];
            leb_u(n as u64, &mut c);
            c.resize(c.len() + n, 3);
            go("long element segment", sect(&[], 9, &c), &|m| m.elems[0].init.len() == n)?;
        }
        for n in [65_520u64, 65_521, 7_700_000] {
            let mut c = vec![0x0E];
            leb_u(n, &mut c);
            c.resize(c.len() + n as usize + 1, 3);
            go("long branch table", code(&c), &|m| match &m.funcs[0].body[0] {
                wadec::core::Instruction::BrTable(l, _) => l.len() as u64 == n,
                _ => false,
            })?;
        }
        let n = 140_000_000;
        let mut c = vec![1, b'x'];
        c.resize(n, 0xA5);
        go("long custom section", sect(&[], 0, &c), &|m| m.custom_sections[0].contents.len() == n - 2)?;
        let mut c = vec![1, 1];
        leb_u(n as u64, &mut c);
        c.resize(c.len() + n, 0xA5);
        go("long data segment", sect(&[], 11, &c), &|m| m.datas[0].init.len() == n)?;
        let mut c = vec![1];
        leb_u(n as u64, &mut c);
        c.resize(c.len() + n, b'x');
        c.extend([0, 0]);
        go("long name", sect(&[], 7, &c), &|m| m.exports[0].name.len() == n)?;
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};

const LENS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,
    31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 500, 511,
    512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10_000, 16_383,
    16_384, 16_385, 32_767, 32_768, 50_000, 50_001, 65_535, 65_536, 65_537, 70_000, 100_001, 1_048_577,
];

/// Modules with one list of the given length, the entries all different.
pub fn listed(k: usize, n: usize) -> Vec<Sec> {
    let vt = |k: usize| match k % 7 {
        0 => I32,
        1 => Vt::V128,
        2 => Vt::Num(Num::F64),
        3 => Vt::Num(Num::I64),
        4 => Vt::Num(Num::F32),
        _ => Vt::Ref(Rt { null: k % 2 == 0, ht: Ht::Idx(k as u32) }),
    };
    let fun = |p: Vec<Vt>, r: Vec<Vt>| Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Func(p, r) }]);
    let lim = |k: usize| Lim { a64: k % 3 == 0, min: k as u64, max: (k % 2 == 0).then_some(k as u64 * 2) };
    let rf = Rt { null: true, ht: Ht::Abs(Abs(0x70)) };
    let body = |k: usize| konst(k as i32);
    let code = |n: usize, b: Expr| Code { locals: vec![(n as u32 % 4, vt(n))], body: b };
    match k {
        0 => vec![Sec::Type((0..n).map(|k| fun(vec![vt(k)], vec![vt(k + 1)])).collect())],
        1 => vec![Sec::Type(vec![fun((0..n).map(vt).collect(), vec![])])],
        2 => vec![Sec::Type(vec![fun(vec![], (0..n).map(vt).collect())])],
        3 => vec![Sec::Type(vec![Rec(
            (0..n).map(|k| Sub { fin: k % 2 == 0, sup: vec![k as u32], ct: Ct::Struct(vec![]) }).collect(),
        )])],
        4 => vec![Sec::Type(vec![Rec(vec![Sub {
            fin: true,
            sup: (0..n as u32).collect(),
            ct: Ct::Struct((0..n).map(|k| Ft { var: k % 2 == 0, st: St::V(vt(k)) }).collect()),
        }])])],
        5 => vec![Sec::Import(
            (0..n)
                .map(|k| Imp {
                    module: format!("m{}", k / 3).into_bytes(),
                    item: format!("i{k}").into_bytes(),
                    ext: match k % 5 {
                        0 => Ext::Func(k as u32),
                        1 => Ext::Mem(lim(k)),
                        2 => Ext::Tag(k as u32),
                        3 => Ext::Global(Gt { var: k % 2 == 0, vt: vt(k) }),
                        _ => Ext::Table(Tt { rt: rf, lim: lim(k) }),
                    },
                })
                .collect(),
        )],
        6 => vec![
            Sec::Function((0..n as u32).map(|k| k * 2).collect()),
            Sec::Code((0..n).map(|k| code(k, body(k))).collect()),
        ],
        7 => vec![Sec::Table(
            (0..n)
                .map(|k| Table { ty: Tt { rt: rf, lim: lim(k) }, init: vec![i(0xD0, Imm::Ht(if k % 2 == 0 { rf.ht } else { Ht::Idx(k as u32) }))] })
                .collect(),
        )],
        8 => vec![Sec::Memory((0..n).map(lim).collect())],
        9 => vec![Sec::Tag((0..n as u32).collect())],
        10 => vec![Sec::Global((0..n).map(|k| Global { ty: Gt { var: k % 2 == 0, vt: vt(k) }, init: body(k) }).collect())],
        11 => vec![Sec::Export((0..n).map(|k| Exp { name: format!("e{k}").into_bytes(), kind: (k % 5) as u8, idx: k as u32 }).collect())],
        12 => vec![Sec::Element((0..n).map(|k| Elem { rt: rf, init: vec![body(k)], mode: ElemMode::Active(k as u32, body(k + 1)) }).collect())],
        13 => vec![Sec::Element(vec![Elem { rt: rf, init: (0..n).map(|k| vec![i(0xD2, Imm::I1(k as u32))]).collect(), mode: ElemMode::Passive }])],
        14 => vec![Sec::Element(vec![Elem { rt: rf, init: (0..n).map(body).collect(), mode: ElemMode::Declare }])],
        15 => vec![
            Sec::DataCount(n as u32),
            Sec::Data((0..n).map(|k| Data { init: vec![k as u8; k % 3], mode: if k % 2 == 0 { DataMode::Passive } else { DataMode::Active(k as u32, body(k)) } }).collect()),
        ],
        16 => vec![Sec::Data(vec![Data { init: (0..n).map(|k| (k % 251) as u8).collect(), mode: DataMode::Passive }])],
        17 => vec![Sec::Custom((0..n).map(|k| b'a' + (k % 23) as u8).collect(), (0..n).map(|k| (k % 251) as u8).collect())],
        18 => (0..n).map(|k| Sec::Custom(format!("c{k}").into_bytes(), vec![k as u8; k % 5])).collect(),
        19 => func((0..n).flat_map(|k| [i(0x41, Imm::I32(k as i32)), i(0x1A, Imm::None)]).collect()),
        20 => func(vec![i(0x0E, Imm::BrTable((0..n as u32).collect(), 7)), nop()]),
        21 => func(vec![i(0x1C, Imm::SelT((0..n).map(vt).collect())), nop()]),
        22 => func(vec![i(0x1F, Imm::Try(Bt::Empty, (0..n as u32).map(|k| match k % 4 {
            0 => Catch::Catch(k, k + 1),
            1 => Catch::Ref(k, k + 2),
            2 => Catch::All(k),
            _ => Catch::AllRef(k),
        }).collect(), vec![nop()])), nop()]),
        23 => vec![
            Sec::Function(vec![3]),
            Sec::Code(vec![Code { locals: (0..n).map(|k| (k as u32 % 3, vt(k))).collect(), body: vec![nop()] }]),
        ],
        24 => func(vec![i(0x02, Imm::Block(Bt::Empty, (0..n).map(|k| i(0x41, Imm::I32(k as i32))).collect())), nop()]),
        _ => vec![Sec::Import(vec![Imp {
            module: (0..n).map(|k| b'a' + (k % 23) as u8).collect(),
            item: (0..n).map(|k| b'A' + (k % 23) as u8).collect(),
            ext: Ext::Func(1),
        }]), Sec::Export(vec![Exp { name: (0..n).map(|k| b'0' + (k % 73) as u8).collect(), kind: 1, idx: 2 }])],
    }
}
pub const LISTED: usize = 26;

/// How many cases there are in a sweep of the lengths of these kinds of list.
pub fn lists(kinds: &[usize]) -> u64 {
    (kinds.len() * LENS.len()) as u64
}

/// A module that has one list of some length, of one of these kinds: it is accepted, and has every entry.
pub fn run_list(kinds: &[usize], x: u64, cx: &mut Ctx) -> Res {
    // the long ones first, so that no thread is left with one at the end
    let (k, n) = (kinds[x as usize % kinds.len()], LENS[LENS.len() - 1 - x as usize / kinds.len()]);
    let secs = listed(k, n);
    let e = enc::canonical(&secs);
    let want = denotes(&secs, &e.sizes()).expect("well-formed");
    expect(&e.bytes, &want)?;
    cx.eval_bytes(&e.bytes, n > 0);
    cx.label("sweep of list lengths");
    cx.sample(&format!("list {k}"), || format!("{n} entries: {}", r#gen::describe(&secs[..secs.len().min(3)])));
    Ok(())
}

const EVERY_LIST: [usize; LISTED] = {
    let mut a = [0; LISTED];
    let mut k = 0;
    while k < LISTED {
        a[k] = k;
        k += 1;
    }
    a
};

pub static C04: Check = Check {
    id: "C04",
    level: "exploration",
    rule: "the module has at least one non-empty section (distinct by encoding)",
    assumptions: &[],
    sweep: |_| lists(&EVERY_LIST),
    run_sweep: |x, cx| run_list(&EVERY_LIST, x, cx),
    gens: |t| if t == Tier::Quick { 400_000 } else { 20_000_000 },
    run_gen: |t, cx| {
        let p = match t.weighted(&[40, 40, 4, 20]) {
            0 => r#gen::small(),
            1 => r#gen::medium(),
            2 => r#gen::large(),
            _ => Prof { sec: [80; 14], ..r#gen::medium() },
        };
        let secs = r#gen::module(t, p);
        let e = enc::styled(&secs, t);
        let want = denotes(&secs, &e.sizes()).expect("well-formed by construction");
        expect(&e.bytes, &want)?;
        cx.eval_bytes(&e.bytes, e.bytes.len() > 12);
        for s in &secs {
            cx.label(sec_name(s.id()));
        }
        cx.sample(&format!("{} sections", secs.len()), || r#gen::describe(&secs));
        // another module, one field away
        if t.chance(1, 3)
            && let Some((b, _)) = field_fault(&secs, t, |_| true)
        {
            let v = agree(&b, true)?;
            cx.label(if matches!(v, Verdict::Accepted(_)) { "one field away: a module" } else { "one field away: not a module" });
            cx.eval_bytes(&b, matches!(v, Verdict::Accepted(_)));
        }
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// All prefixes of one encoding.
fn prefixes(b: &[u8], spans: &[(usize, usize, usize)], every: bool, t: Option<&mut Tape>, cx: &mut Ctx) -> Res {
    let mut cuts: Vec<usize> = vec![];
    if every {
        cuts.extend(0..b.len());
    } else {
        for s in spans {
            cuts.extend([s.0, s.0 + 1, s.1.saturating_sub(1), s.1, s.1 + 1, (s.1 + s.2) / 2, s.2.saturating_sub(1)]);
        }
        if let Some(t) = t {
            cuts.extend((0..24).map(|_| t.below(b.len() as u64) as usize));
        }
        cuts.extend(0..8);
        cuts.retain(|c| *c < b.len());
        cuts.sort();
        cuts.dedup();
    }
    for c in cuts {
        let p = &b[..c];
        let boundary = c == 8 || spans.iter().any(|s| s.2 == c);
        let v = agree(p, true)?;
        match (&v, boundary) {
            (Verdict::Accepted(_), false) => return fail(format!("prefix of {c} bytes passes for a module"), p),
            (Verdict::Accepted(_), true) => cx.label("prefix at a boundary: a module"),
            (_, true) => cx.label("prefix at a boundary: contradictory"),
            (_, false) => cx.label("prefix cut within a section"),
        }
        cx.eval_bytes(p, c > 0);
    }
    Ok(())
}

/// End a section, or a function body, early, with sizes that agree: at every field, or at some.
fn cut_inside(secs: &[Sec], st: &Tape, t: Option<&mut Tape>, cx: &mut Ctx) -> Res {
    let sites = enc::sites(secs, st);
    let all: Vec<usize> = (0..sites.len()).collect();
    let some = match t {
        None => all,
        Some(_) if all.is_empty() => all,
        Some(t) => (0..6).map(|_| *t.pick(&all)).collect(),
    };
    for k in some {
        let s = &sites[k];
        let mut fs = vec![Fault::CutAt(vec![]), Fault::CutAt(s.bytes.clone()), Fault::Replace(vec![])];
        for n in 1..s.bytes.len().min(4) {
            fs.push(Fault::CutAt(s.bytes[..n].to_vec()));
            fs.push(Fault::Replace(s.bytes[..n].to_vec()));
        }
        for f in fs {
            let cut = matches!(f, Fault::CutAt(_));
            let b = enc::faulty(secs, &mut st.clone(), k, f).bytes;
            let v = agree(&b, true)?;
            cx.label(match (&v, cut) {
                (Verdict::Accepted(_), true) => "section or body cut: still a module",
                (_, true) => "section or body cut: malformed",
                (Verdict::Accepted(_), _) => "field missing: still a module",
                _ => "field missing: malformed",
            });
            cx.eval_bytes(&b, true);
        }
    }
    Ok(())
}

fn junk(t: &mut Tape) -> Vec<u8> {
    match t.below(6) {
        0 => vec![t.byte()],
        1 => vec![0; t.range(1, 40)],
        2 => (0..t.range(1, 20)).map(|_| t.byte()).collect(),
        3 => vec![*t.pick(&[0x0B, 0x00, 0x0A, 0xFF, 0x01, 0x05]); t.range(1, 3)],
        4 => {
            let secs = r#gen::module(t, r#gen::small());
            let b = enc::canonical(&secs).bytes;
            if t.bool() { b } else { b[8..].to_vec() }
        }
        _ => {
            let n = t.upto(20);
            let mut v = vec![0];
            leb_u(n as u64, &mut v);
            v.extend((0..t.upto(20)).map(|_| 0));
            v
        }
    }
}

pub static C12: Check = Check {
    id: "C12",
    level: "exploration",
    rule: "a non-empty proper prefix of a module, a module with a section cut short inside, or one followed by further bytes (distinct by input)",
    assumptions: &[],
    sweep: |_| templates().len() as u64,
    run_sweep: |i, cx| {
        let e = enc::canonical(&templates()[i as usize]);
        prefixes(&e.bytes, &e.spans, true, None, cx)?;
        cut_inside(&templates()[i as usize], &Tape::replay(vec![0, 0]), None, cx)?;
        for a in 0..=255u8 {
            for rest in [&[][..], &[0], &[0, 0], &[1, 0], &[1, 0, 0], &[0x0B], &[5, 0, 0, 0, 0, 0], &[255, 255]] {
                let mut b = e.bytes.clone();
                b.push(a);
                b.extend_from_slice(rest);
                count(cx, &agree(&b, true)?);
                cx.eval_bytes(&b, true);
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 30_000 } else { 1_200_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let e = enc::styled(&secs, t);
        cx.sample("prefixes of", || hex(&e.bytes));
        prefixes(&e.bytes, &e.spans, e.bytes.len() < 300, Some(t), cx)?;
        let st = t.clone();
        cut_inside(&secs, &st, Some(t), cx)?;
        for _ in 0..8 {
            let j = junk(t);
            let mut b = e.bytes.clone();
            b.extend(&j);
            let v = agree(&b, true)?;
            cx.label(match v {
                Verdict::Accepted(_) => "suffix: further sections",
                _ => "suffix: junk",
            });
            cx.eval_bytes(&b, true);
            cx.sample("suffix", || hex(&j));
        }
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

pub static C26: Check = Check {
    id: "C26",
    level: "exploration",
    rule: "two encodings of the same module that differ as bytes (distinct by the second encoding)",
    assumptions: &[],
    sweep: |_| templates().len() as u64,
    run_sweep: |k, cx| {
        // every integer of each template at every length, one at a time
        let secs = &templates()[k as usize];
        let e = enc::canonical(secs);
        let base = subject::abst(&e.bytes).on(&e.bytes)?;
        let Ok(base) = base else { return fail("well-formed module rejected", &e.bytes) };
        let t = Tape::replay(vec![0, 0]);
        let sites = enc::sites(secs, &t);
        for (k, s) in sites.iter().enumerate() {
            let Some((bits, signed)) = leb_kind(s.kind) else { continue };
            for n in s.bytes.len() + 1..=enc::max_len(bits) {
                let mut f = s.bytes.clone();
                enc::pad_leb(&mut f, n, signed);
                let v = enc::faulty(secs, &mut t.clone(), k, Fault::Replace(f));
                same(&base, &v.bytes, &v.sizes())?;
                cx.eval_bytes(&v.bytes, true);
                cx.label("one integer lengthened");
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 250_000 } else { 12_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let c = enc::canonical(&secs);
        let base = match subject::abst(&c.bytes).on(&c.bytes)? {
            Ok(m) => m,
            Err(e) => return fail(format!("shortest encoding rejected: {}", rej(&e)), &c.bytes),
        };
        for _ in 0..2 {
            let e = enc::styled(&secs, t);
            same(&base, &e.bytes, &e.sizes())?;
            cx.eval_bytes(&e.bytes, e.bytes != c.bytes);
            cx.label(if e.bytes != c.bytes { "different bytes" } else { "same bytes" });
            cx.sample("pair", || format!("{} / {}", hex(&c.bytes), hex(&e.bytes)));
        }
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

fn same(base: &Abst, b: &[u8], sizes: &[u32]) -> Res {
    match subject::abst(b).on(b)? {
        Ok(mut got) => {
            for ((h, n), want) in got.headers.iter_mut().zip(&base.headers).zip(sizes) {
                if h.1 != *want {
                    return fail(format!("size reported as {}, but is {want}", h.1), b);
                }
                h.1 = n.1;
            }
            match diff(base, &got) {
                None => Ok(()),
                Some(d) => fail(format!("another encoding of the module decodes differently: {d}"), b),
            }
        }
        Err(e) => fail(format!("another encoding of the module is rejected: {}", rej(&e)), b),
    }
}

/// Width and sign of the integer at a field.
pub fn leb_kind(k: K) -> Option<(u32, bool)> {
    Some(match k {
        K::U32 | K::SubOp(_) | K::ElemFlags | K::DataFlags | K::MemFlags | K::Count | K::BodySize | K::LocalsCount => (32, false),
        K::U64 => (64, false),
        K::I32 => (32, true),
        K::I64 => (64, true),
        K::S33 => (33, true),
        _ => return None,
    })
}
