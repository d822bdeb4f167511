//! C18 types, C19 locals, C20 segments, C21 imports, exports, tables, memories, globals, tags, start.
use super::accept::{lists, run_list};
use super::common::*;
use super::ints::{plain, sites};
use super::robust::{PRE, probe_run};
use crate::ast::*;
use crate::enc::{self, Fault, K, Site, leb_u, one_expr};
use crate::engine::*;
use crate::r#gen::{self, Gen};
use crate::ops;
use crate::subject;
use crate::tape::{Rng, Tape, mix};

const FUNC: Ht = Ht::Abs(Abs(0x70));
const NFUNC: Rt = Rt { null: true, ht: FUNC };
const LIM: Lim = Lim { a64: false, min: 1, max: None };

fn fin(ct: Ct) -> Sub {
    Sub { fin: true, sup: vec![], ct }
}

/// Encode in some way, and compare in full.
fn round(secs: &[Sec], t: &mut Tape, cx: &mut Ctx) -> Res {
    let secs = with_data_count(secs.to_vec());
    let e = enc::styled(&secs, t);
    expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
    cx.eval_bytes(&e.bytes, true);
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C18

fn typed(k: K) -> bool {
    matches!(
        k,
        K::ValType | K::RefType | K::HeapType | K::BlockType | K::Storage | K::CompType | K::SubType | K::RecType
            | K::TableEntry | K::S33 | K::Mut | K::CastFlags
    )
}

/// One field for each surrounding in which a type can stand.
fn type_sites() -> &'static Vec<(usize, usize, Site)> {
    static S: std::sync::OnceLock<Vec<(usize, usize, Site)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut seen = std::collections::HashSet::new();
        let mut v = vec![];
        // what led here: the fields since the last instruction or entry
        let mut trail: Vec<String> = vec![];
        let mut last = (usize::MAX, usize::MAX);
        for (m, k, s) in sites() {
            if (*m, s.sec) != last {
                last = (*m, s.sec);
                trail = vec![];
            }
            if matches!(s.kind, K::Opcode) {
                trail = vec![];
            }
            if typed(s.kind) {
                let key = format!("{:?} {} {} {:?}", s.kind, s.id, s.path.len(), trail.iter().rev().take(3).collect::<Vec<_>>());
                if seen.insert(key) {
                    v.push((*m, *k, s.clone()));
                }
            }
            trail.push(match s.kind {
                K::Opcode | K::SubOp(_) | K::ElemFlags | K::ExternKind => format!("{:?}{:?}", s.kind, s.bytes),
                k => format!("{k:?}"),
            });
        }
        v
    })
}

/// Every place for a value type, filled with it; and for reference and heap types.
fn places_of_types() -> Vec<(&'static str, Box<dyn Fn(Vt) -> Option<Vec<Sec>>>)> {
    fn ref_only(f: impl Fn(Rt) -> Vec<Sec> + 'static) -> Box<dyn Fn(Vt) -> Option<Vec<Sec>>> {
        Box::new(move |v| match v {
            Vt::Ref(r) => Some(f(r)),
            _ => None,
        })
    }
    fn any(f: impl Fn(Vt) -> Vec<Sec> + 'static) -> Box<dyn Fn(Vt) -> Option<Vec<Sec>>> {
        Box::new(move |v| Some(f(v)))
    }
    let o = Vt::Num(Num::F32);
    let ft = |var, v| Ft { var, st: St::V(v) };
    let ins = |x: Ins| func(vec![nop(), x, nop()]);
    let rt2 = Rt { null: false, ht: Ht::Idx(77) };
    vec![
        ("parameter", any(move |v| vec![Sec::Type(vec![Rec(vec![fin(Ct::Func(vec![o, v, o], vec![]))])])])),
        ("result", any(move |v| vec![Sec::Type(vec![Rec(vec![fin(Ct::Func(vec![v], vec![v, o]))])])])),
        ("field", any(move |v| vec![Sec::Type(vec![Rec(vec![fin(Ct::Struct(vec![ft(true, v), ft(false, v), ft(true, o)]))])])])),
        ("array", any(move |v| vec![Sec::Type(vec![Rec(vec![fin(Ct::Array(ft(false, v))), fin(Ct::Array(ft(true, v)))])])])),
        ("global", any(|v| vec![Sec::Global([false, true].iter().map(|m| Global { ty: Gt { var: *m, vt: v }, init: vec![] }).collect())])),
        ("imported global", any(|v| vec![Sec::Import([false, true].iter().map(|m| Imp { module: vec![], item: vec![], ext: Ext::Global(Gt { var: *m, vt: v }) }).collect())])),
        ("local", any(move |v| vec![Sec::Function(vec![0]), Sec::Code(vec![Code { locals: vec![(1, o), (3, v), (0, v), (2, o)], body: vec![] }])])),
        ("select", any(move |v| ins(i(0x1C, Imm::SelT(vec![v, o, v]))))),
        ("block", any(move |v| ins(i(2, Imm::Block(Bt::Val(v), vec![nop()]))))),
        ("loop", any(move |v| ins(i(3, Imm::Block(Bt::Val(v), vec![]))))),
        ("if", any(move |v| ins(i(4, Imm::If(Bt::Val(v), vec![], Some(vec![nop()])))))),
        ("try_table", any(move |v| ins(i(0x1F, Imm::Try(Bt::Val(v), vec![Catch::All(1)], vec![]))))),
        ("table", ref_only(|r| vec![Sec::Table(vec![
            Table { ty: Tt { rt: r, lim: LIM }, init: vec![i(0xD0, Imm::Ht(r.ht))] },
            Table { ty: Tt { rt: r, lim: LIM }, init: konst(0) },
        ])])),
        ("imported table", ref_only(|r| vec![Sec::Import(vec![Imp { module: vec![], item: vec![], ext: Ext::Table(Tt { rt: r, lim: LIM }) }])])),
        ("element", ref_only(|r| vec![Sec::Element(vec![
            Elem { rt: r, init: vec![konst(1)], mode: ElemMode::Passive },
            Elem { rt: r, init: vec![konst(1), vec![]], mode: ElemMode::Active(5, konst(0)) },
            Elem { rt: r, init: vec![], mode: ElemMode::Declare },
        ])])),
        ("ref.null", ref_only(move |r| ins(i(0xD0, Imm::Ht(r.ht))))),
        ("ref.test", ref_only(move |r| ins(i(0xFB_0000 + if r.null { 21 } else { 20 }, Imm::Ht(r.ht))))),
        ("ref.cast", ref_only(move |r| ins(i(0xFB_0000 + if r.null { 23 } else { 22 }, Imm::Ht(r.ht))))),
        ("br_on_cast from", ref_only(move |r| ins(i(0xFB_0018, Imm::BrCast(9, r, rt2))))),
        ("br_on_cast to", ref_only(move |r| ins(i(0xFB_0018, Imm::BrCast(9, rt2, r))))),
        ("br_on_cast_fail", ref_only(move |r| ins(i(0xFB_0019, Imm::BrCast(300, r, Rt { null: !r.null, ht: r.ht }))))),
    ]
}

/// Storage, function, array, struct types with everything varied.
fn compound() -> Vec<Rec> {
    let mut cts = vec![];
    let sts = [St::I8, St::I16, St::V(I32), St::V(Vt::V128), St::V(Vt::Ref(NFUNC)), St::V(Vt::Ref(Rt { null: false, ht: Ht::Idx(64) }))];
    for st in sts {
        for var in [false, true] {
            cts.push(Ct::Array(Ft { var, st }));
            cts.push(Ct::Struct(vec![Ft { var, st }]));
            for st2 in sts {
                for var2 in [false, true] {
                    cts.push(Ct::Struct(vec![Ft { var, st }, Ft { var: var2, st: st2 }]));
                }
            }
        }
    }
    cts.push(Ct::Struct(vec![]));
    let vts = [I32, Vt::Num(Num::I64), Vt::Num(Num::F32), Vt::Num(Num::F64), Vt::V128, Vt::Ref(NFUNC)];
    for p in 0..4usize {
        for r in 0..4usize {
            for k in 0..6usize {
                let at = |x: usize| vts[(x + k) % 6];
                cts.push(Ct::Func((0..p).map(at).collect(), (0..r).map(|x| at(x * 5 + 1)).collect()));
            }
        }
    }
    let mut v = vec![];
    for ct in cts {
        for f in [true, false] {
            for sup in [vec![], vec![0], vec![300], vec![7, 7], vec![3, u32::MAX, 0], vec![0x60], vec![0x5E, 0x5F]] {
                v.push(Rec(vec![Sub { fin: f, sup, ct: ct.clone() }]));
            }
        }
    }
    v
}

/// Kinds of list, of `listed`.
const C18_LISTS: &[usize] = &[0, 1, 2, 3, 4];

pub static C18: Check = Check {
    id: "C18",
    level: "exploration",
    rule: "a type, or bytes in the place of a type, at a place where a type can stand (distinct by input)",
    assumptions: &["type indices are sampled at the boundaries of their encoding"],
    sweep: |_| type_sites().len() as u64 + places_of_types().len() as u64 + 1 + lists(C18_LISTS),
    run_sweep: |x, cx| {
        if x < lists(C18_LISTS) {
            return run_list(C18_LISTS, x, cx);
        }
        let x = x - lists(C18_LISTS);
        let np = places_of_types().len() as u64;
        if x == 0 {
            let all = compound();
            for c in all.chunks(64) {
                let mut t = Tape::random(mix(&[cx.seed, c.len() as u64]));
                round(&[Sec::Type(c.to_vec())], &mut t, cx)?;
                for r in c {
                    round(&[Sec::Type(vec![r.clone()])], &mut t, cx)?;
                    let three = Rec(vec![r.0[0].clone(), all[0].0[0].clone(), r.0[0].clone()]);
                    round(&[Sec::Type(vec![three, r.clone(), Rec(vec![]), r.clone()])], &mut t, cx)?;
                }
            }
            cx.label("compound types");
            return Ok(());
        }
        if x <= np {
            let (name, f) = &places_of_types()[x as usize - 1];
            let mut t = Tape::random(mix(&[cx.seed, x]));
            for v in all_vts() {
                let Some(secs) = f(v) else { continue };
                round(&secs, &mut Tape::replay(vec![0, 0]), cx)?;
                for _ in 0..6 {
                    round(&secs, &mut t, cx)?;
                }
            }
            cx.label(&format!("all types as {name}"));
            return Ok(());
        }
        let n = x - np - 1;
        let (m, k, s) = &type_sites()[n as usize];
        let thorough = x % 16 == cx.seed % 16;
        let full = cx.tier == Tier::Thorough;
        let mut go = |f: &[u8]| -> Res {
            let b = enc::faulty(&templates()[*m], &mut plain(), *k, Fault::Replace(f.to_vec())).bytes;
            let v = agree(&b, true)?;
            count(cx, &v);
            cx.eval_bytes(&b, true);
            Ok(())
        };
        for a in 0..=255u8 {
            go(&[a])?;
            for b in 0..=255u8 {
                go(&[a, b])?;
            }
        }
        let leads: &[u8] = if full { &[0x63, 0x64, 0x4E, 0x4F, 0x50, 0x5E, 0x5F, 0x60, 0x40, 0x80, 0xFF, 0x00] } else { &[0x63, 0x64] };
        for a in leads {
            for b in 0..=255u8 {
                for c in 0..=255u8 {
                    if full || thorough || matches!(c, 0 | 1 | 0x3F | 0x40 | 0x7F | 0x80 | 0xFF | 0x0B | 0x70) {
                        go(&[*a, b, c])?;
                    }
                }
            }
        }
        let l = format!("bytes at {:?} in {}", s.kind, sec_name(s.id));
        cx.label(&l);
        cx.sample(&l, || format!("template {m}, field {k}, instead of {}", hex(&s.bytes)));
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 120_000 } else { 8_000_000 },
    run_gen: |t, cx| {
        let p = profile(t);
        let mut p = r#gen::focus(p, if t.bool() { &[1] } else { &[1, 2, 4, 6, 9, 10] });
        // instructions with types
        p.only = Some(vec![0x02, 0x03, 0x04, 0x1F, 0x1C, 0xD0, 0xFB0014, 0xFB0015, 0xFB0016, 0xFB0017, 0xFB0018, 0xFB0019]);
        p.data_ops = 0;
        let secs = r#gen::module(t, p);
        if t.chance(2, 3) {
            round(&secs, t, cx)?;
            cx.label("generated");
            cx.sample("generated", || r#gen::describe(&secs));
            faults(&secs, t, cx, |s| s.id == 1 || typed(s.kind))?;
            return Ok(());
        }
        let (w, a, b, c, n) = (t.below(1 << 32), t.byte(), t.byte(), t.byte(), t.range(1, 3));
        let all = enc::sites(&secs, t);
        let ks: Vec<usize> = (0..all.len()).filter(|i| typed(all[*i].kind)).collect();
        if ks.is_empty() {
            return Ok(());
        }
        let k = ks[(w % ks.len() as u64) as usize];
        let a = if w >> 31 == 0 { [0x63, 0x64, 0x40, 0x4E, 0x50, 0x60, 0x7F, 0x68][a as usize % 8] } else { a };
        let x = enc::faulty(&secs, t, k, Fault::Replace([a, b, c][..n].to_vec())).bytes;
        let v = agree(&x, true)?;
        count(cx, &v);
        cx.eval_bytes(&x, true);
        cx.label("generated, other bytes in place of a type");
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------
// C19

fn funcs(codes: Vec<Vec<(u32, Vt)>>) -> Vec<Sec> {
    vec![
        Sec::Function((0..codes.len() as u32).collect()),
        Sec::Code(codes.into_iter().enumerate().map(|(k, locals)| Code { locals, body: vec![i(0x20, Imm::I1(k as u32))] }).collect()),
    ]
}

/// Functions with these runs of locals; the last body starts with an undefined instruction. The
/// bytes, and whether the decoder should get as far as that.
fn limit_case(r: &mut Rng) -> (Vec<u8>, bool, usize, String) {
    let mut below = |n: u64| r.next() % n;
    let n = 1 + below(3) as usize;
    let mut codes: Vec<Vec<(u32, Vt)>> = vec![];
    let mut fits = true;
    let tys = [I32, Vt::V128, Vt::Ref(NFUNC), Vt::Ref(Rt { null: false, ht: Ht::Idx(200) })];
    let mut at = n - 1;
    for f in 0..n {
        // at most one beyond the limit
        let over = fits && below(if f + 1 == n { 2 } else { 5 }) == 0;
        let total: u64 = if over {
            (1 << 32) + match below(6) {
                0 => 0,
                1 => 1,
                2 => below(100),
                3 => below(1 << 32),
                4 => (1 << 32) - 1 - below(3),
                _ => below(1 << 35),
            }
        } else {
            match below(5) {
                0 => (1 << 32) - 1,
                1 => (1 << 32) - 1 - below(3),
                2 => (1 << 31) + below(3) - 1,
                3 => below(1 << 32),
                _ => below(1 << 10),
            }
        };
        if over {
            fits = false;
            at = f;
        }
        // cut into runs
        let mut runs = vec![];
        let mut left = total;
        let style = below(4);
        while left > 0 {
            let most = left.min(u64::from(u32::MAX));
            let c = match style {
                0 => most,
                1 => (1 + below(most)).max(most / 8),
                2 => most.min(1 << 31),
                _ => {
                    if below(3) == 0 {
                        runs.push((0, tys[below(4) as usize]));
                    }
                    if runs.len() < 40 { 1 + below(most) } else { most }
                }
            };
            runs.push((c as u32, tys[below(4) as usize]));
            left -= c;
        }
        if style == 3 && runs.len() > 1 {
            let (x, y) = (below(runs.len() as u64) as usize, below(runs.len() as u64) as usize);
            runs.swap(x, y);
        }
        codes.push(runs);
    }
    let what = codes.iter().map(|c| c.iter().map(|r| r.0.to_string()).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join(", ");
    let secs = funcs(codes);
    let Sec::Code(c) = &secs[1] else { unreachable!() };
    let mut x = vec![];
    leb_u(n as u64, &mut x);
    for (f, c) in c.iter().enumerate() {
        let mut b = enc::one_code(c);
        if f + 1 == n {
            let len = b.len();
            // in place of local.get
            b[len - 3] = 0xFF;
        }
        leb_u(b.len() as u64, &mut x);
        x.extend(b);
    }
    let mut b = enc::canonical(&secs[..1]).bytes;
    b.push(10);
    leb_u(x.len() as u64, &mut b);
    b.extend(x);
    (b, fits, at, what)
}

/// In a process of its own, with limited memory: if the decoder expands locals at once, this is
/// where it runs out, and nothing is learned.
pub fn probe_locals(arg: &str) -> i32 {
    let v: Vec<u64> = arg.split(',').filter_map(|x| x.parse().ok()).collect();
    let [seed, n, _] = v[..] else { return 2 };
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let (b, fits, at, what) = limit_case(&mut r);
        let e = match wadec::decode_module(&b[..]) {
            Err(e) => e,
            Ok(_) => {
                eprintln!("accepted, with an undefined instruction: {what} ({})", hex(&b));
                return 9;
            }
        };
        let chain = subject::chain(&e);
        let root = chain.last().unwrap();
        let opcode = super::diag::numbers(root).contains(&255);
        if opcode != fits || !matches!(e, wadec::decode_errors::DecodeModuleError::DecodeCodeSection(_)) {
            eprintln!(
                "locals {what} of function {at} {}: {} (input {})",
                if fits { "are within the limit, but the undefined instruction after them is not reached" } else { "are beyond the limit, but the decoder goes on" },
                chain.join(": "),
                hex(&b)
            );
            return 9;
        }
    }
    0
}

/// Kinds of list, of `listed`.
const C19_LISTS: &[usize] = &[23];

pub static C19: Check = Check {
    id: "C19",
    level: "exploration",
    rule: "a function has two or more runs of locals, or an empty one (distinct by input)",
    assumptions: &[
        "expansion is observed up to 2^25 locals (2^27 in the thorough tier); beyond, acceptance is inferred from the decoder reaching an undefined instruction after the declarations, in a process with limited memory",
    ],
    sweep: |_| 340 + lists(C19_LISTS),
    run_sweep: |k, cx| {
        if k < lists(C19_LISTS) {
            return run_list(C19_LISTS, k, cx);
        }
        let k = k - lists(C19_LISTS);
        let vts = all_vts();
        let mut t = Tape::random(mix(&[cx.seed, k]));
        match k {
            // every type, every small pair of counts
            0..200 => {
                for a in [0u32, 1, 2, 3, 7, 8, 100] {
                    for b in [0u32, 1, 2, 5, 63, 64, 65] {
                        let x = vts[k as usize % vts.len()];
                        let y = vts[(k as usize * 7 + a as usize * 3 + b as usize) % vts.len()];
                        for c in [vec![(a, x), (b, y)], vec![(a, x), (b, x)], vec![(0, y), (a, x), (0, x), (b, y), (0, x)], vec![(a, x), (b, y), (a, x)]] {
                            round(&funcs(vec![c.clone(), vec![], c, vec![(1, y)]]), &mut t, cx)?;
                        }
                    }
                }
                cx.label("pairs of runs");
            }
            // one long run
            200..260 => {
                let n = [
                    127u32, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10_000, 16383, 16384, 16385,
                    32767, 32768, 32769, 49_999, 50_000, 50_001, 65535, 65536, 65537, 99_999, 100_000, 131_071, 131_072, 131_073, 262_144,
                    262_145, 500_000, 1_000_000, 1_048_575, 1_048_576, 1_048_577, 2_097_151, 2_097_152,
                ][(k as usize - 200) % 43];
                let x = vts[k as usize % vts.len()];
                let c = vec![vec![(1, I32), (n, x), (1, I32)], vec![(2, Vt::V128)]];
                round(&funcs(c), &mut t, cx)?;
                let mut runs = vec![];
                let mut left = n;
                while left > 0 {
                    let a = (left / 2).max(1);
                    runs.push((a, vts[runs.len() % vts.len()]));
                    left -= a;
                }
                round(&funcs(vec![runs.clone(), runs]), &mut t, cx)?;
                cx.label("long runs");
            }
            // many runs
            260..300 => {
                let n = [100usize, 127, 128, 129, 1000, 1023, 1024, 1025, 2000, 4096, 5000, 65535, 65536, 65537, 100_000][(k as usize - 260) % 15];
                let c = (k % 3) as u32;
                let runs: Vec<(u32, Vt)> = (0..n).map(|j| (if c == 2 { (j % 3) as u32 } else { c }, vts[j * 11 % vts.len()])).collect();
                round(&funcs(vec![runs, vec![(3, I32)]]), &mut t, cx)?;
                cx.label("many runs");
            }
            // many functions
            300..320 => {
                let n = [50usize, 127, 128, 300, 1000, 1024, 1025, 5000][(k as usize - 300) % 8];
                let codes = (0..n).map(|j| (0..j % 4).map(|x| (((j * 3 + x) % 5) as u32, vts[(j + x) % vts.len()])).collect()).collect();
                round(&funcs(codes), &mut t, cx)?;
                cx.label("many functions");
            }
            // functions that together have many
            _ => {
                let per = 300_000 + (k as u32 - 320) * 5000;
                round(&funcs(vec![vec![(per, I32)], vec![(per, Vt::V128), (per, I32)], vec![(0, I32)], vec![(per, I32)]]), &mut t, cx)?;
                cx.label("large functions");
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 200_000 } else { 10_000_000 },
    run_gen: |t, cx| {
        let mut p = r#gen::focus(profile(t), &[3, 10]);
        p.sec = [4, 10, 2, 100, 2, 2, 2, 2, 2, 2, 100, 2, 10, 2];
        p.ins = 2;
        p.locals = *t.pick(&[50, 300, 5000, 200_000]);
        let secs = r#gen::module(t, p);
        let e = enc::styled(&secs, t);
        expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
        let runs = secs.iter().any(|s| match s {
            Sec::Code(c) => c.iter().any(|c| c.locals.len() > 1 || c.locals.iter().any(|r| r.0 == 0)),
            _ => false,
        });
        cx.eval_bytes(&e.bytes, runs);
        cx.label("generated");
        cx.sample("generated", || r#gen::describe(&secs));
        faults(&secs, t, cx, |s| s.id == 10 && s.depth == 0)?;
        Ok(())
    },
    post: |cx| {
        // too many to be compared one by one
        let top: u32 = if cx.tier == Tier::Quick { 1 << 25 } else { 1 << 27 };
        for runs in [
            vec![(1u32 << 22) + 1],
            vec![5_000_001],
            vec![1 << 23],
            vec![10_000_000, 7],
            vec![3, (1 << 24) + 1, 5],
            vec![3_000_000; 8],
            vec![top + 3],
            vec![top / 2, 0, 1, top / 2, 9],
        ] {
            let vts = [I32, Vt::V128, Vt::Num(Num::F64)];
            let code = Code { locals: runs.iter().enumerate().map(|(j, n)| (*n, vts[j % 3])).collect(), body: vec![] };
            let b = enc::canonical(&[Sec::Function(vec![0]), Sec::Code(vec![code])]).bytes;
            let m = match subject::decode(&b).on(&b)? {
                Ok(m) => m,
                Err(e) => return fail(format!("locals rejected: {}", rej(&e)), &b),
            };
            let l = &m.funcs[0].locals;
            let mut at = 0usize;
            for (j, n) in runs.iter().enumerate() {
                let end = at + *n as usize;
                let name = ["Int32", "V128", "Float64"][j % 3];
                let right = |v: &wadec::core::types::valtype::ValType| format!("{v:?}").contains(name);
                // all the same, and the right ones
                if l.len() < end || (at < end && (!right(&l[at]) || l[at..end].iter().any(|v| *v != l[at]))) {
                    return fail(format!("run {j} of {runs:?} is not there, of {} locals", l.len()), &b);
                }
                at = end;
            }
            if l.len() != at {
                return fail(format!("{runs:?} are {} locals", l.len()), &b);
            }
            cx.eval_bytes(&b, runs.len() > 1);
            cx.label("millions of locals");
        }
        let (procs, n) = if cx.tier == Tier::Quick { (8, 1500) } else { (40, 20_000) };
        for p in 0..procs {
            let seed = mix(&[cx.seed, 0xC19, p]);
            // the last number would be the size of the stack
            let out = probe_run("locals", &format!("{seed},{n},16384"));
            match out {
                None => {
                    cx.label("processes with sums around the limit");
                    for k in 0..n {
                        cx.eval(mix(&[seed, k]), true);
                    }
                }
                Some(e) if e.contains("exit status: 9") => return Err(Fail::new(e)),
                Some(_) => cx.label("processes that ran out of memory: nothing learned"),
            }
        }
        let mut r = Rng::new(mix(&[cx.seed, 0xC19, 0]));
        cx.sample("sums", || {
            let (_, fits, _, what) = limit_case(&mut r);
            format!("{what}: {}", if fits { "within" } else { "beyond" })
        });
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------
// C20

fn offsets() -> Vec<Expr> {
    vec![
        konst(0),
        konst(-1),
        vec![],
        vec![i(0x42, Imm::I64(1 << 40))],
        vec![i(0x23, Imm::I1(300))],
        vec![i(0x41, Imm::I32(11)), i(0x41, Imm::I32(0x0B0B)), i(0x6A, Imm::None)],
        vec![i(2, Imm::Block(Bt::Empty, vec![i(4, Imm::If(Bt::Empty, konst(1), Some(konst(2))))])), nop()],
        vec![i(0xD2, Imm::I1(1))],
        vec![i(0xFD000C, Imm::V128([0x0B; 16]))],
    ]
}

/// The bytes of an element segment with these flags, and what it denotes.
fn elem_bytes(f: u32, table: u32, off: &Expr, rt: Rt, idxs: &[u32], exprs: &[Expr]) -> (Vec<u8>, Elem) {
    let mut b = vec![];
    leb_u(u64::from(f), &mut b);
    let active = f & 1 == 0;
    let mode = if active {
        if f & 2 != 0 {
            leb_u(u64::from(table), &mut b);
        }
        b.extend(one_expr(off));
        ElemMode::Active(if f & 2 != 0 { table } else { 0 }, off.clone())
    } else if f & 2 != 0 {
        ElemMode::Declare
    } else {
        ElemMode::Passive
    };
    let rt = match f {
        0 => Rt { null: false, ht: FUNC },
        1..=4 => NFUNC,
        _ => rt,
    };
    if f & 3 != 0 {
        if f & 4 == 0 {
            b.push(0);
        } else {
            match rt {
                Rt { null: true, ht: Ht::Abs(a) } => b.push(a.0),
                Rt { null, ht } => {
                    b.push(if null { 0x63 } else { 0x64 });
                    match ht {
                        Ht::Abs(a) => b.push(a.0),
                        Ht::Idx(x) => enc::leb_s(i64::from(x), &mut b),
                    }
                }
            }
        }
    }
    let init = if f & 4 == 0 {
        leb_u(idxs.len() as u64, &mut b);
        for x in idxs {
            leb_u(u64::from(*x), &mut b);
        }
        idxs.iter().map(|x| vec![i(0xD2, Imm::I1(*x))]).collect()
    } else {
        leb_u(exprs.len() as u64, &mut b);
        for e in exprs {
            b.extend(one_expr(e));
        }
        exprs.to_vec()
    };
    (b, Elem { rt, init, mode })
}

fn raw_section(id: u8, entries: &[Vec<u8>]) -> Vec<u8> {
    let mut x = vec![];
    leb_u(entries.len() as u64, &mut x);
    for e in entries {
        x.extend_from_slice(e);
    }
    let mut b = PRE.to_vec();
    b.push(id);
    leb_u(x.len() as u64, &mut b);
    b.extend(x);
    b
}

/// These bytes are these segments.
fn segments(entries: &[(Vec<u8>, Elem)], cx: &mut Ctx) -> Res {
    let b = raw_section(9, &entries.iter().map(|e| e.0.clone()).collect::<Vec<_>>());
    let secs = [Sec::Element(entries.iter().map(|e| e.1.clone()).collect())];
    let size = crate::refdec::split(&b).map(|s| (s[0].2 - s[0].1) as u32).unwrap();
    expect(&b, &denotes(&secs, &[size]).unwrap())?;
    cx.eval_bytes(&b, true);
    Ok(())
}

const ESWEEP: u64 = 8 * 9;

/// Kinds of list, of `listed`.
const C20_LISTS: &[usize] = &[12, 13, 14, 15, 16];

pub static C20: Check = Check {
    id: "C20",
    level: "exploration",
    rule: "a segment section with at least one segment (distinct by input)",
    assumptions: &[],
    sweep: |_| ESWEEP + 30 + lists(C20_LISTS),
    run_sweep: |k, cx| {
        if k < lists(C20_LISTS) {
            return run_list(C20_LISTS, k, cx);
        }
        let k = k - lists(C20_LISTS);
        if k < ESWEEP {
            let (f, o) = ((k % 8) as u32, (k / 8) as usize);
            let off = &offsets()[o];
            let exprs = |n: usize| (0..n).map(|j| offsets()[(j + o) % 9].clone()).collect::<Vec<_>>();
            let idxs = |n: usize| (0..n).map(|j| some_u32()[(j * 7 + o) % some_u32().len()]).collect::<Vec<u32>>();
            for rt in all_rts() {
                segments(&[elem_bytes(f, 3, off, rt, &idxs(3), &exprs(3))], cx)?;
            }
            for x in some_u32() {
                segments(&[elem_bytes(f, x, off, Rt { null: false, ht: Ht::Idx(x) }, &[x], &[vec![i(0xD2, Imm::I1(x))]])], cx)?;
            }
            for n in (0..20).chain([63, 64, 100, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 2000, 4096, 5000, 16384]) {
                segments(&[elem_bytes(f, 1, off, NFUNC, &idxs(n), &exprs(n))], cx)?;
            }
            if o == 0 {
                for n in (20..300).chain([511, 512, 513, 999, 1001, 2047, 2048, 2049, 4095, 4097, 8191, 8192, 8193, 9999, 10_000, 10_001, 16383, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 99_999, 100_000, 100_001, 131_073]) {
                    segments(&[elem_bytes(f, 1, off, NFUNC, &idxs(n), &exprs(n))], cx)?;
                }
            }
            // two and three segments
            for g in 0..8 {
                let a = elem_bytes(f, 7, off, Rt { null: false, ht: FUNC }, &idxs(2), &exprs(1));
                let b = elem_bytes(g, 0, &konst(5), Rt { null: true, ht: Ht::Idx(0) }, &idxs(0), &exprs(2));
                segments(&[a.clone(), b.clone()], cx)?;
                segments(&[b, a.clone(), a], cx)?;
            }
            // element kinds
            if f & 3 != 0 && f & 4 == 0 {
                for x in 1..=255u8 {
                    let (mut b, _) = elem_bytes(f, 1, off, NFUNC, &[1], &[]);
                    let at = b.len() - 3;
                    assert_eq!(b[at], 0);
                    b[at] = x;
                    let b = raw_section(9, &[b]);
                    reject(&b, "element kind")?;
                    cx.eval_bytes(&b, true);
                    cx.label("element kind: rejected");
                }
            }
            cx.label(&format!("element form {f}"));
            cx.sample(&format!("element form {f}"), || hex(&elem_bytes(f, 3, off, NFUNC, &[1, 2], &exprs(2)).0));
            // the form with every other number
            for x in (8..300u64).chain((8..32).map(|k| (1 << k) + u64::from(f))).chain([0xFFFF_FFF8 + u64::from(f)]) {
                let (b, _) = elem_bytes(f, 1, off, NFUNC, &[1], &[konst(1)]);
                let mut c = vec![];
                leb_u(x, &mut c);
                c.extend_from_slice(&b[1..]);
                let c = raw_section(9, &[c]);
                reject(&c, "form of an element segment")?;
                cx.eval_bytes(&c, true);
            }
            return Ok(());
        }
        // data
        let k = k - ESWEEP;
        let off = &offsets()[(k % 9) as usize];
        let mut t = Tape::random(mix(&[cx.seed, k]));
        let mut g = Gen::new(&mut t, r#gen::large());
        let go = |d: Vec<(u32, Data)>, cx: &mut Ctx| -> Res {
            let entries: Vec<Vec<u8>> = d
                .iter()
                .map(|(f, d)| {
                    let mut b = vec![];
                    leb_u(u64::from(*f), &mut b);
                    if let ElemMode::Active(m, e) = &match &d.mode {
                        DataMode::Active(m, e) => ElemMode::Active(*m, e.clone()),
                        DataMode::Passive => ElemMode::Passive,
                    } {
                        if *f == 2 {
                            leb_u(u64::from(*m), &mut b);
                        }
                        b.extend(one_expr(e));
                    }
                    leb_u(d.init.len() as u64, &mut b);
                    b.extend_from_slice(&d.init);
                    b
                })
                .collect();
            let b = raw_section(11, &entries);
            let size = crate::refdec::split(&b).map(|s| (s[0].2 - s[0].1) as u32).unwrap();
            expect(&b, &denotes(&[Sec::Data(d.into_iter().map(|x| x.1).collect())], &[size]).unwrap())?;
            cx.eval_bytes(&b, true);
            Ok(())
        };
        let d = |f: u32, m: u32, init: Vec<u8>| {
            (f, Data {
                init,
                mode: match f {
                    0 => DataMode::Active(0, off.clone()),
                    1 => DataMode::Passive,
                    _ => DataMode::Active(m, off.clone()),
                },
            })
        };
        for f in 0..3 {
            for m in some_u32() {
                go(vec![d(f, m, vec![m as u8, 0x0B])], cx)?;
            }
            for n in (0..300).chain([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537]) {
                if n > 20 && n % 30 != k as usize && n < 1000 {
                    continue;
                }
                let init = g.fill(n);
                go(vec![d(f, 0, init.clone()), d((f + 1) % 3, 1, init)], cx)?;
            }
            for x in 0..=255u8 {
                go(vec![d(f, 2, vec![x]), d(f, 3, vec![x, 255 - x])], cx)?;
            }
            if k < 6 {
                for n in [(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 1] {
                    let init = g.fill(n);
                    go(vec![d(f, 0, init)], cx)?;
                }
            }
            for x in (3..300u64).chain((2..32).map(|k| (1 << k) + u64::from(f))).chain([0xFFFF_FFFF]) {
                let mut b = vec![];
                leb_u(x, &mut b);
                match f {
                    0 => b.extend(one_expr(off)),
                    2 => {
                        b.push(0);
                        b.extend(one_expr(off));
                    }
                    _ => {}
                }
                b.extend([1, 7]);
                let b = raw_section(11, &[b]);
                reject(&b, "form of a data segment")?;
                cx.eval_bytes(&b, true);
            }
            cx.label(&format!("data form {f}"));
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 150_000 } else { 10_000_000 },
    run_gen: |t, cx| {
        let mut p = r#gen::focus(profile(t), if t.bool() { &[9] } else { &[9, 11, 12] });
        p.ins = 4;
        let secs = r#gen::module(t, p);
        let e = enc::styled(&secs, t);
        expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
        let some = secs.iter().any(|s| match s {
            Sec::Element(x) => !x.is_empty(),
            Sec::Data(x) => !x.is_empty(),
            _ => false,
        });
        cx.eval_bytes(&e.bytes, some);
        cx.label("generated");
        cx.sample("generated", || r#gen::describe(&secs));
        faults(&secs, t, cx, |s| matches!(s.id, 9 | 11))?;
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------
// C21

fn limits(tier: Tier) -> Vec<Lim> {
    let mut v = vec![];
    let ws = some_u64();
    let few: Vec<u64> = ws.iter().copied().filter(|x| tier == Tier::Thorough || x.is_power_of_two() || x % 5 == 0 || *x < 4 || *x > u64::MAX - 2).collect();
    for a64 in [false, true] {
        for min in &ws {
            v.push(Lim { a64, min: *min, max: None });
            v.push(Lim { a64, min: *min, max: Some(*min) });
            v.push(Lim { a64, min: 0, max: Some(*min) });
        }
        for min in &few {
            for max in &few {
                v.push(Lim { a64, min: *min, max: Some(*max) });
            }
        }
    }
    v
}

/// Kinds of list, of `listed`.
const C21_LISTS: &[usize] = &[5, 7, 8, 9, 10, 11];

pub static C21: Check = Check {
    id: "C21",
    level: "exploration",
    rule: "a module with at least one import, export, table, memory, global, tag or start function (distinct by input)",
    assumptions: &[],
    sweep: |_| 240 + lists(C21_LISTS),
    run_sweep: |k, cx| {
        if k < lists(C21_LISTS) {
            return run_list(C21_LISTS, k, cx);
        }
        let k = k - lists(C21_LISTS);
        let mut t = Tape::random(mix(&[cx.seed, k]));
        let imp = |m: &str, n: &str, ext| Imp { module: m.as_bytes().to_vec(), item: n.as_bytes().to_vec(), ext };
        match k {
            // limits everywhere
            0..160 => {
                let all = limits(cx.tier);
                for l in all.iter().skip(k as usize).step_by(160) {
                    let tt = Tt { rt: if k % 2 == 0 { NFUNC } else { Rt { null: false, ht: Ht::Idx(k as u32) } }, lim: *l };
                    let secs = [
                        Sec::Import(vec![imp("m", "t", Ext::Table(tt)), imp("m", "m", Ext::Mem(*l))]),
                        Sec::Table(vec![
                            Table { ty: tt, init: vec![i(0xD0, Imm::Ht(tt.rt.ht))] },
                            Table { ty: tt, init: konst(1) },
                        ]),
                        Sec::Memory(vec![*l, LIM, *l]),
                    ];
                    round(&secs, &mut t, cx)?;
                    for s in &secs {
                        round(std::slice::from_ref(s), &mut Tape::replay(vec![0, 0]), cx)?;
                    }
                }
                cx.label("limits");
            }
            // indices
            160..200 => {
                for x in some_u32() {
                    let y = x.wrapping_mul(k as u32 | 1).wrapping_add(k as u32);
                    let names: [&str; 6] = ["", "a", "é", "b", "a", "\0"];
                    let nm = |j: usize| names[(j + k as usize) % 6];
                    let mut secs = vec![
                        Sec::Import(vec![imp(nm(0), nm(1), Ext::Func(x)), imp(nm(2), nm(3), Ext::Tag(y)), imp(nm(0), nm(1), Ext::Func(y)), imp(nm(1), nm(0), Ext::Tag(x))]),
                        Sec::Tag(vec![x, y, x]),
                        Sec::Export((0..10).map(|j| Exp { name: nm(j).as_bytes().to_vec(), kind: ((j + k as usize) % 5) as u8, idx: if j % 2 == 0 { x } else { y } }).collect()),
                        Sec::Start(x),
                    ];
                    round(&secs, &mut t, cx)?;
                    secs.remove((k % 4) as usize);
                    round(&secs, &mut t, cx)?;
                }
                cx.label("indices");
            }
            // globals
            _ => {
                let vts = all_vts();
                for (j, vt) in vts.iter().enumerate().skip(k as usize % 8).step_by(8) {
                    for var in [false, true] {
                        let init = match (k as usize + j) % 5 {
                            0 => vec![],
                            1 => konst(j as i32 - 40),
                            2 => vec![sample_ins(ops::tables().all[(j * 31 + k as usize) % ops::tables().all.len()].0, ops::tables().all[(j * 31 + k as usize) % ops::tables().all.len()].1, j as u32)],
                            3 => vec![i(0x42, Imm::I64(i64::MIN + j as i64)), i(0xA7, Imm::None)],
                            _ => vec![i(2, Imm::Block(Bt::Val(*vt), konst(3)))],
                        };
                        let g = |var, init| Global { ty: Gt { var, vt: *vt }, init };
                        let secs = [
                            Sec::Import(vec![imp("g", "", Ext::Global(Gt { var, vt: *vt })), imp("", "g", Ext::Global(Gt { var: !var, vt: *vt }))]),
                            Sec::Global(vec![g(var, init.clone()), g(!var, konst(9)), g(var, init)]),
                        ];
                        round(&secs, &mut t, cx)?;
                    }
                }
                cx.label("globals");
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 150_000 } else { 10_000_000 },
    run_gen: |t, cx| {
        let mut p = r#gen::focus(profile(t), if t.bool() { &[2, 7, 8] } else { &[4, 5, 6, 13, 2, 7] });
        p.ins = 4;
        let secs = r#gen::module(t, p);
        let e = enc::styled(&secs, t);
        expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
        cx.eval_bytes(&e.bytes, secs.iter().any(|s| matches!(s.id(), 2 | 4..=8 | 13)));
        cx.label("generated");
        cx.sample("generated", || r#gen::describe(&secs));
        faults(&secs, t, cx, |s| matches!(s.id, 2 | 4..=8 | 13))?;
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
