//! C08 order of sections, C09 sizes, C10 agreement between sections, C11 custom sections.
use super::accept::{lists, run_list};
use super::common::*;
use super::robust::PRE;
use crate::ast::*;
use crate::engine::*;
use crate::enc::{self, leb_u, pad_leb};
use crate::r#gen::{self, Gen, Prof};
use crate::tape::{Rng, Tape};
use crate::{mutate, refdec, subject};

const KINDS: [u8; 13] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];

fn rt() -> Rt {
    Rt { null: true, ht: Ht::Abs(Abs(0x70)) }
}

/// A section with `n` simple entries.
fn simple(id: u8, n: usize) -> Sec {
    let lim = Lim { a64: false, min: 1, max: None };
    match id {
        0 => Sec::Custom(b"c".to_vec(), vec![1; n]),
        1 => Sec::Type(vec![Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Func(vec![I32], vec![]) }]); n]),
        2 => Sec::Import((0..n).map(|k| Imp { module: b"m".to_vec(), item: b"i".to_vec(), ext: Ext::Func(k as u32) }).collect()),
        3 => Sec::Function((0..n as u32).collect()),
        4 => Sec::Table(vec![Table { ty: Tt { rt: rt(), lim }, init: vec![i(0xD0, Imm::Ht(rt().ht))] }; n]),
        5 => Sec::Memory(vec![lim; n]),
        6 => Sec::Global(vec![Global { ty: Gt { var: false, vt: I32 }, init: konst(1) }; n]),
        7 => Sec::Export((0..n).map(|k| Exp { name: b"e".to_vec(), kind: 0, idx: k as u32 }).collect()),
        8 => Sec::Start(n as u32),
        9 => Sec::Element(vec![Elem { rt: rt(), init: vec![], mode: ElemMode::Passive }; n]),
        10 => Sec::Code(vec![Code { locals: vec![], body: vec![nop()] }; n]),
        11 => Sec::Data(vec![Data { init: vec![1], mode: DataMode::Passive }; n]),
        12 => Sec::DataCount(n as u32),
        _ => Sec::Tag((0..n as u32).collect()),
    }
}

/// The sequence decodes if and only if the model says so, to what the model says.
fn judge(secs: &[Sec], e: &enc::Encoded, cx: &mut Ctx) -> Res {
    match denotes(secs, &e.sizes()) {
        Ok(want) => {
            expect(&e.bytes, &want)?;
            cx.label("in order: accepted");
        }
        Err(c) => {
            reject(&e.bytes, &format!("{c:?}"))?;
            cx.label(match c {
                Cross::OutOfOrder(..) => "out of order: rejected",
                Cross::Duplicate(_) => "duplicate: rejected",
                Cross::FuncCode { .. } => "functions and bodies differ: rejected",
                Cross::DataCount { .. } => "data count differs: rejected",
                Cross::DataIdxNoCount => "data index without count: rejected",
            });
        }
    }
    Ok(())
}

pub static C08: Check = Check {
    id: "C08",
    level: "exploration",
    rule: "at least two non-custom sections (distinct by input)",
    assumptions: &[],
    sweep: |t| if t == Tier::Quick { 13u64.pow(3) } else { 13u64.pow(4) },
    run_sweep: |k, cx| {
        let len = if cx.tier == Tier::Quick { 3 } else { 4 };
        let mut x = k;
        let head: Vec<u8> = (0..len)
            .map(|_| {
                let d = KINDS[(x % 13) as usize];
                x /= 13;
                d
            })
            .collect();
        let mut seqs: Vec<Vec<u8>> = KINDS.iter().map(|l| head.iter().copied().chain([*l]).collect()).collect();
        if k % 13u64.pow(len - 1) == k {
            // shorter ones, each once
            for n in 0..=len as usize {
                seqs.push(head[..n].to_vec());
            }
        }
        for s in seqs {
            let has = |id| s.contains(&id);
            for variant in 0..6u64 {
                // 0 empty, 1 filled, 2 first filled then empty, 3 the reverse, 4 customs between, 5 customs and filled
                let mut secs = vec![];
                for (j, id) in s.iter().enumerate() {
                    let again = s[..j].contains(id);
                    let fill = match variant {
                        0 | 4 => false,
                        2 => !again,
                        3 => again,
                        _ => true,
                    };
                    let n = match id {
                        3 | 10 => usize::from(fill && has(3) && has(10)),
                        12 => usize::from(fill && has(11)),
                        11 => usize::from(fill),
                        _ => usize::from(fill),
                    };
                    if variant >= 4 {
                        for c in 0..(j + variant as usize) % 3 {
                            secs.push(simple(0, c));
                        }
                    }
                    secs.push(simple(*id, n));
                }
                if variant >= 4 {
                    secs.push(simple(0, 3));
                }
                let e = enc::canonical(&secs);
                judge(&secs, &e, cx)?;
                cx.eval_bytes(&e.bytes, s.len() > 1);
            }
            cx.sample(&format!("sequence of {}", s.len()), || s.iter().map(|i| sec_name(*i)).collect::<Vec<_>>().join(" "));
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 250_000 } else { 10_000_000 },
    run_gen: |t, cx| {
        let p = Prof { sec: [20, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60, 60], ..profile(t) };
        let mut secs = r#gen::module(t, p);
        if secs.is_empty() {
            return Ok(());
        }
        let n = secs.len() as u64;
        for _ in 0..t.range(1, 3) {
            let at = t.below(n) as usize;
            match t.below(5) {
                0 => {
                    let b = t.below(n) as usize;
                    secs.swap(at, b);
                }
                1 => {
                    // a copy further on
                    let s = secs[at].clone();
                    let to = t.range(at, secs.len());
                    secs.insert(to, s);
                }
                2 => {
                    // another section of the same kind, or of any
                    let id = if t.bool() { secs[at].id() } else { t.below(14) as u8 };
                    let to = t.upto(secs.len());
                    let k = t.upto(1);
                    secs.insert(to, simple(id, k));
                }
                3 => {
                    let s = secs.remove(at);
                    let to = t.upto(secs.len());
                    secs.insert(to, s);
                }
                _ => {
                    let c = Gen::new(t, r#gen::small()).custom();
                    secs.insert(at, c);
                }
            }
        }
        let e = enc::styled(&secs, t);
        judge(&secs, &e, cx)?;
        cx.eval_bytes(&e.bytes, secs.iter().filter(|s| s.id() != 0).count() > 1);
        cx.sample("rearranged", || r#gen::describe(&secs));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// Re-encode with section `k` declaring `size` and followed by `extra` within the file.
fn resize(e: &enc::Encoded, k: usize, size: u32, pad: usize, extra: &[u8]) -> Vec<u8> {
    let (s, c, end) = e.spans[k];
    let mut v = e.bytes[..s + 1].to_vec();
    let mut n = vec![];
    leb_u(u64::from(size), &mut n);
    pad_leb(&mut n, pad, false);
    v.extend(n);
    v.extend_from_slice(&e.bytes[c..end]);
    v.extend_from_slice(extra);
    v.extend_from_slice(&e.bytes[end..]);
    v
}

fn size_case(e: &enc::Encoded, id: u8, k: usize, size: u32, pad: usize, extra: &[u8], cx: &mut Ctx) -> Res {
    let b = resize(e, k, size, pad, extra);
    let (_, c, end) = e.spans[k];
    let wrong = size as usize != end - c;
    if id != 0 && wrong {
        reject(&b, &format!("{} section declares {size} bytes, has {}", sec_name(id), end - c))?;
        cx.label("wrong section size: rejected");
    } else {
        // may be a module again: the reference knows
        count(cx, &agree(&b, true)?);
    }
    cx.eval_bytes(&b, wrong || !extra.is_empty());
    Ok(())
}

/// A code section whose bodies have the given declared sizes and extra bytes.
fn code_module(codes: &[Code], which: usize, size: u32, extra: &[u8]) -> Vec<u8> {
    let mut c = vec![];
    leb_u(codes.len() as u64, &mut c);
    for (k, x) in codes.iter().enumerate() {
        let b = enc::one_code(x);
        leb_u(if k == which { u64::from(size) } else { b.len() as u64 }, &mut c);
        c.extend(b);
        if k == which {
            c.extend_from_slice(extra);
        }
    }
    let mut v = PRE.to_vec();
    let mut f = vec![];
    leb_u(codes.len() as u64, &mut f);
    f.extend(vec![0; codes.len()]);
    v.push(3);
    leb_u(f.len() as u64, &mut v);
    v.extend(f);
    if codes.iter().any(|c| has_data_idx(&c.body)) {
        v.extend([12, 1, 0]);
    }
    v.push(10);
    leb_u(c.len() as u64, &mut v);
    v.extend(c);
    v
}

fn body_case(codes: &[Code], which: usize, size: u32, extra: &[u8], cx: &mut Ctx) -> Res {
    let b = code_module(codes, which, size, extra);
    let n = enc::one_code(&codes[which]).len();
    if size as usize != n {
        reject(&b, &format!("body {which} declares {size} bytes, has {n}"))?;
        cx.label("wrong body size: rejected");
    } else {
        count(cx, &agree(&b, true)?);
    }
    cx.eval_bytes(&b, size as usize != n || !extra.is_empty());
    Ok(())
}

const EXTRA: [&[u8]; 8] = [&[], &[0], &[0x0B], &[0, 1, 0], &[0, 0], &[1, 1, 0], &[0x0B, 0x0B, 0x0B, 0x0B], &[11, 1, 0]];

pub static C09: Check = Check {
    id: "C09",
    level: "exploration",
    rule: "a declared size differs from the actual one, or bytes were added (distinct by input)",
    assumptions: &[],
    sweep: |_| templates().len() as u64 + 40,
    run_sweep: |x, cx| {
        if x >= templates().len() as u64 {
            // bodies
            let k = x as usize - templates().len();
            let sh = shapes();
            let (op, s) = sh[k % sh.len()];
            let a = Code { locals: vec![(2, I32)], body: vec![nop()] };
            let b = Code { locals: vec![], body: vec![sample_ins(op, s, 5), nop()] };
            let codes = [a.clone(), b, a];
            for w in 0..3 {
                let n = enc::one_code(&codes[w]).len() as u32;
                for size in (0..n + 60).chain([127, 128, 255, 256, 16384, 65536, 1 << 20, 1 << 31, u32::MAX - n, u32::MAX]) {
                    for ex in EXTRA {
                        body_case(&codes, w, size, ex, cx)?;
                    }
                    if size > n && size < n + 60 {
                        for fill in [0x00, 0x01, 0x0B] {
                            body_case(&codes, w, size, &vec![fill; (size - n) as usize], cx)?;
                        }
                    }
                }
            }
            return Ok(());
        }
        let secs = &templates()[x as usize];
        let e = enc::canonical(secs);
        for (k, s) in secs.iter().enumerate() {
            let (_, c, end) = e.spans[k];
            let n = (end - c) as u32;
            for size in (0..n + 60).chain([127, 128, 255, 256, 16384, 65536, 1 << 20, 1 << 31, u32::MAX - n, u32::MAX, n ^ 0x100, n ^ 0x1_0000, n ^ 0x8000_0000]) {
                for (j, ex) in EXTRA.iter().enumerate() {
                    size_case(&e, s.id(), k, size, j % 6, ex, cx)?;
                }
                if size > n && size < n + 60 {
                    for fill in [0x00, 0x01, 0x0B] {
                        size_case(&e, s.id(), k, size, 0, &vec![fill; (size - n) as usize], cx)?;
                    }
                }
            }
            cx.sample(sec_name(s.id()), || format!("section of {n} bytes: {}", hex(&e.bytes)));
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 200_000 } else { 10_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        if secs.is_empty() {
            return Ok(());
        }
        let e = enc::styled(&secs, t);
        // sizes as they are
        expect(&e.bytes, &denotes(&secs, &e.sizes()).expect("well-formed"))?;
        cx.eval_bytes(&e.bytes, false);
        cx.label("sizes reported");
        let k = t.below(secs.len() as u64) as usize;
        let (_, c, end) = e.spans[k];
        let n = (end - c) as u32;
        let size = match t.below(6) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            2 => n.wrapping_add(t.below(200) as u32),
            3 => t.below(u64::from(n) + 1) as u32,
            4 => n ^ (1 << t.below(32)),
            _ => t.u32(),
        };
        let ex: Vec<u8> = match t.below(4) {
            0 => vec![],
            1 => vec![t.byte(); size.saturating_sub(n).min(5000) as usize],
            2 => t.pick(&EXTRA).to_vec(),
            _ => (0..t.upto(12)).map(|_| t.byte()).collect(),
        };
        let pad = t.upto(5);
        size_case(&e, secs[k].id(), k, size, pad, &ex, cx)?;
        cx.sample("random", || format!("{} section of {n} declares {size}, followed by {}", sec_name(secs[k].id()), hex(&ex)));
        if let Some(Sec::Code(codes)) = secs.iter().find(|s| matches!(s, Sec::Code(c) if !c.is_empty())) {
            let w = t.below(codes.len() as u64) as usize;
            let n = enc::one_code(&codes[w]).len() as u32;
            let size = match t.below(4) {
                0 => n + t.below(30) as u32,
                1 => n.saturating_sub(1 + t.below(5) as u32),
                2 => n ^ (1 << t.below(32)),
                // up to the end of the next body
                _ => codes.get(w + 1).map_or(n + 1, |c| n + 1 + enc::one_code(c).len() as u32),
            };
            let ex = vec![*t.pick(&[0x0B, 0x01, 0x00]); if t.bool() { size.saturating_sub(n).min(100) as usize } else { 0 }];
            body_case(codes, w, size, &ex, cx)?;
        }
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

const DATA_OPS: [u32; 4] = [0xFC0008, 0xFC0009, 0xFB0009, 0xFB0012];

fn data_op(op: u32, x: u32) -> Ins {
    if op == 0xFC0009 { i(op, Imm::I1(x)) } else { i(op, Imm::I2(x, x + 1)) }
}

/// The instruction within `depth` structured instructions, with others around.
fn bury(t: &mut Tape, mut e: Expr, depth: usize) -> Expr {
    for _ in 0..depth {
        let ins = match t.below(6) {
            0 => i(2, Imm::Block(Bt::Empty, e)),
            1 => i(3, Imm::Block(Bt::Val(I32), e)),
            2 => i(4, Imm::If(Bt::Empty, e, None)),
            3 => i(4, Imm::If(Bt::Empty, vec![nop()], Some(e))),
            4 => i(4, Imm::If(Bt::Idx(2), e, Some(vec![]))),
            _ => i(0x1F, Imm::Try(Bt::Empty, vec![Catch::All(0)], e)),
        };
        e = match t.below(4) {
            0 => vec![ins],
            1 => vec![nop(), ins],
            2 => vec![ins, nop(), i(2, Imm::Block(Bt::Empty, vec![nop()]))],
            _ => vec![i(2, Imm::Block(Bt::Empty, vec![])), ins],
        };
    }
    e
}

/// Two counts that must agree, and do in part: in their low bits, in their digits, in neither.
pub const FAR: &[(usize, usize)] = &[
    (128, 0), (255, 0), (256, 0), (257, 1), (258, 2), (300, 44), (512, 0), (1024, 0), (4096, 0), (16_384, 0), (32_768, 0),
    (65_535, 0), (65_536, 0), (65_537, 1), (65_539, 3), (66_000, 464), (65_792, 256), (131_072, 0), (131_072, 65_536),
    (1_000_000, 0), (1 << 20, 0), (1 << 20, 65_536), (1 << 21, 0),
    (128, 127), (128, 129), (256, 255), (1000, 999), (1001, 1000), (65_535, 65_534), (65_536, 65_535), (65_537, 65_536),
    (100_001, 100_000), (128, 128), (256, 256), (65_536, 65_536), (100_001, 100_001), (1 << 20, 1 << 20),
];

fn far_apart(x: u64, cx: &mut Ctx) -> Res {
    let (a, b) = FAR[x as usize / 4];
    let two = |a: usize, b: usize, c: &mut Vec<Vec<Sec>>| {
        let f = Sec::Function((0..a as u32).map(|k| k % 7).collect());
        let code = Sec::Code((0..b).map(|k| Code { locals: vec![], body: if k % 1000 == 3 { vec![nop()] } else { vec![] } }).collect());
        let d = Sec::Data((0..b).map(|_| Data { init: vec![], mode: DataMode::Passive }).collect());
        c.push(vec![f.clone(), code.clone()]);
        c.push(vec![Sec::DataCount(a as u32), d.clone()]);
        c.push(vec![f.clone(), Sec::DataCount(a as u32), code, d]);
        if b == 0 {
            c.push(vec![f]);
            c.push(vec![Sec::DataCount(a as u32)]);
        }
        if a == 0 {
            c.push(vec![c[0][1].clone()]);
            c.push(vec![c[1][1].clone()]);
        }
    };
    let mut all = vec![];
    if x % 4 < 2 { two(a, b, &mut all) } else { two(b, a, &mut all) }
    let half = all.len().div_ceil(2);
    for secs in if x % 2 == 0 { &all[..half] } else { &all[half..] } {
        let e = enc::canonical(secs);
        judge(secs, &e, cx)?;
        cx.eval_bytes(&e.bytes, true);
        cx.label("counts far apart");
    }
    Ok(())
}

/// How much comes before a mention of a data segment.
const MENTIONS: &[usize] = &[
    0, 1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 499, 500, 501, 511, 512, 513,
    999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 9999, 10_000, 10_001, 16_384, 32_767, 32_768, 49_999, 50_000, 65_535, 65_536,
    65_537, 100_000, 131_072, 300_000,
];

fn mentions(x: u64, cx: &mut Ctx) -> Res {
    let n = MENTIONS[x as usize / 20];
    let op = data_op(DATA_OPS[x as usize % 4], n as u32);
    let one = |e: Expr| vec![Code { locals: vec![], body: e }];
    let codes: Vec<Vec<Code>> = match x as usize / 4 % 5 {
        // after others, and before others
        0 => {
            let mut e = vec![nop(); n];
            e.push(op);
            let f = e.clone();
            let mut g = e.clone();
            g.extend(vec![nop(); n]);
            vec![one(e), one(g), one(vec![i(2, Imm::Block(Bt::Empty, f))])]
        }
        // in a late function, and in an early one of many
        1 => {
            let few = || Code { locals: vec![], body: vec![] };
            let mut c: Vec<Code> = (0..n).map(|_| few()).collect();
            c.push(Code { locals: vec![], body: vec![op.clone()] });
            let mut d = one(vec![op]);
            d.extend((0..n).map(|_| few()));
            vec![c, d]
        }
        // deep
        k if n <= 10_000 => {
            let v = (0..n).fold(vec![op], |e, d| {
                let e = vec![match (k, d % 4) {
                    (2, _) => i(2, Imm::Block(Bt::Empty, e)),
                    (3, _) => i(4, Imm::If(Bt::Empty, vec![], Some(e))),
                    (_, 0) => i(3, Imm::Block(Bt::Empty, e)),
                    (_, 1) => i(4, Imm::If(Bt::Empty, e, Some(vec![nop()]))),
                    (_, 2) => i(4, Imm::If(Bt::Empty, e, None)),
                    _ => i(0x1F, Imm::Try(Bt::Empty, vec![Catch::All(0)], e)),
                }];
                e
            });
            vec![one(v)]
        }
        _ => vec![],
    };
    for c in codes {
        let f = Sec::Function(vec![0; c.len()]);
        for (k, secs) in [
            vec![f.clone(), Sec::Code(c.clone())],
            vec![f.clone(), Sec::Code(c.clone()), simple(11, 2)],
            vec![f, Sec::DataCount(2), Sec::Code(c), simple(11, 2)],
        ]
        .iter()
        .enumerate()
        {
            // one of the two is enough for what takes long
            if n > 5000 && k as u64 == x % 2 {
                continue;
            }
            let e = enc::canonical(secs);
            judge(secs, &e, cx)?;
            cx.eval_bytes(&e.bytes, true);
            cx.label("mentions after much else");
        }
    }
    Ok(())
}

pub static C10: Check = Check {
    id: "C10",
    level: "exploration",
    rule: "at least one of the four sections is present, or a data instruction is (distinct by input)",
    assumptions: &[],
    sweep: |_| 6 * 6 * 9 * 6 + FAR.len() as u64 * 4 + MENTIONS.len() as u64 * 20,
    run_sweep: |x, cx| {
        if let Some(y) = x.checked_sub(6 * 6 * 9 * 6 + FAR.len() as u64 * 4) {
            return mentions(y, cx);
        }
        if x >= 6 * 6 * 9 * 6 {
            return far_apart(x - 6 * 6 * 9 * 6, cx);
        }
        // 5 stands for an absent section
        let (f, c, d) = (x % 6, x / 6 % 6, x / 36 % 6);
        let dc = [0u32, 1, 2, 3, 4, 5, 256, u32::MAX, 999_999][(x / 216) as usize];
        for op in 0..9u64 {
            for dc in [Some(dc), None] {
                let mut secs = vec![];
                if f < 5 {
                    secs.push(simple(3, f as usize));
                }
                if op >= 5 {
                    // outside of function bodies: no matter
                    let e = vec![data_op(DATA_OPS[op as usize - 5], 1)];
                    secs.push(Sec::Global(vec![Global { ty: Gt { var: false, vt: I32 }, init: bury(&mut Tape::replay(vec![x % 6]), e.clone(), (x % 3) as usize) }]));
                    secs.push(Sec::Element(vec![Elem { rt: rt(), init: vec![e.clone()], mode: ElemMode::Active(0, e) }]));
                }
                if let Some(n) = dc {
                    secs.push(Sec::DataCount(n));
                }
                if c < 5 {
                    let mut codes = vec![Code { locals: vec![], body: vec![nop()] }; c as usize];
                    if (1..5).contains(&op) && c > 0 {
                        let at = (x + op) % c;
                        let e = vec![data_op(DATA_OPS[op as usize - 1], x as u32)];
                        let mut t = Tape::replay(vec![x % 6, x % 4, op, x % 3, x % 5]);
                        codes[at as usize].body = bury(&mut t, e, (x % 4) as usize);
                    }
                    secs.push(Sec::Code(codes));
                }
                if d < 5 {
                    secs.push(simple(11, d as usize));
                }
                let e = enc::canonical(&secs);
                judge(&secs, &e, cx)?;
                cx.eval_bytes(&e.bytes, !secs.is_empty());
                cx.sample(&format!("{}", denotes(&secs, &e.sizes()).err().map_or("accepted".into(), |c| format!("{c:?}").split([' ', '(']).next().unwrap().to_string())), || r#gen::describe(&secs));
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 300_000 } else { 12_000_000 },
    run_gen: |t, cx| {
        let p = Prof { data_ops: *t.pick(&[0, 2, 20]), sec: [10, 15, 15, 90, 15, 15, 40, 15, 10, 30, 90, 70, 70, 10], ..profile(t) };
        let mut secs = r#gen::module(t, p);
        let pos = |secs: &[Sec], id: u8| secs.iter().position(|s| s.id() == id);
        match t.below(8) {
            0 => {
                if let Some(k) = pos(&secs, 12) {
                    secs.remove(k);
                }
            }
            1 => {
                if let Some(k) = pos(&secs, 12) {
                    let (n, d) = (t.u32(), t.below(3) as u32);
                    let Sec::DataCount(x) = &mut secs[k] else { unreachable!() };
                    *x = match d {
                        0 => x.wrapping_add(1),
                        1 => x.wrapping_sub(1),
                        _ => n,
                    };
                }
            }
            2 => {
                let id = *t.pick(&[3, 10, 11]);
                if let Some(k) = pos(&secs, id) {
                    secs.remove(k);
                }
            }
            3 => {
                if let Some(k) = pos(&secs, *t.pick(&[3, 10, 11])) {
                    match &mut secs[k] {
                        Sec::Function(f) => drop(f.pop()),
                        Sec::Code(c) => drop(c.pop()),
                        Sec::Data(d) => drop(d.pop()),
                        _ => {}
                    }
                }
            }
            4 => {
                if let Some(k) = pos(&secs, *t.pick(&[3, 10, 11])) {
                    match &mut secs[k] {
                        Sec::Function(f) => f.push(1),
                        Sec::Code(c) => c.push(Code { locals: vec![], body: vec![] }),
                        Sec::Data(d) => d.push(Data { init: vec![], mode: DataMode::Passive }),
                        _ => {}
                    }
                }
            }
            _ => {
                // one data instruction, somewhere, with or without a count
                let op = *t.pick(&DATA_OPS);
                let x = t.below(1 << 20) as u32;
                let depth = match t.below(3) {
                    0 => t.upto(3),
                    1 => t.upto(12),
                    _ => t.upto(40),
                };
                let e = bury(t, vec![data_op(op, x)], depth);
                let codes: Option<&mut Vec<Code>> = secs.iter_mut().find_map(|s| match s {
                    Sec::Code(c) if !c.is_empty() => Some(c),
                    _ => None,
                });
                if let Some(c) = codes {
                    let k = t.below(c.len() as u64) as usize;
                    let at = t.upto(c[k].body.len());
                    c[k].body.splice(at..at, e);
                }
                if t.bool()
                    && let Some(k) = pos(&secs, 12)
                {
                    secs.remove(k);
                }
            }
        }
        let e = enc::styled(&secs, t);
        judge(&secs, &e, cx)?;
        cx.eval_bytes(&e.bytes, secs.iter().any(|s| matches!(s.id(), 3 | 10 | 11 | 12)));
        cx.sample("random", || r#gen::describe(&secs));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

fn without_customs(a: &Abst) -> Abst {
    let mut a = a.clone();
    a.customs.clear();
    a.headers.retain(|h| h.0 != 0);
    a
}

const CLENS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000,
    1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16_383, 16_384, 16_385, 32_768, 65_535, 65_536,
    65_537, 100_000, 131_072, 262_145, 1 << 20, (1 << 21) + 1,
];

/// Kinds of list, of `listed`.
const C11_LISTS: &[usize] = &[17, 18];

pub static C11: Check = Check {
    id: "C11",
    level: "exploration",
    rule: "the module has at least one custom section (distinct by input)",
    assumptions: &[],
    sweep: |_| 14 * 14 + CLENS.len() as u64 + 40 + lists(C11_LISTS),
    run_sweep: |x, cx| {
        if x < lists(C11_LISTS) {
            return run_list(C11_LISTS, x, cx);
        }
        let x = x - lists(C11_LISTS);
        let full: Vec<Sec> = [1u8, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11].iter().map(|id| simple(*id, 2)).collect();
        let mut go = |secs: &[Sec]| -> Res {
            let e = enc::canonical(secs);
            expect(&e.bytes, &denotes(secs, &e.sizes()).expect("well-formed"))?;
            cx.eval_bytes(&e.bytes, true);
            // with integers longer than they need be
            let e = enc::styled(secs, &mut Tape::random(x));
            expect(&e.bytes, &denotes(secs, &e.sizes()).expect("well-formed"))?;
            cx.eval_bytes(&e.bytes, true);
            Ok(())
        };
        if x < 14 * 14 {
            // at each pair of places
            let (a, b) = ((x % 14) as usize, (x / 14) as usize);
            for (n1, c1, n2, c2) in [
                (&b"a"[..], &b""[..], &b"b"[..], &b"x"[..]),
                (b"same", b"same", b"same", b"same"),
                (b"", b"", b"", b""),
                (b"name", b"\x00\x02\x01a\x01\x02\x00", b"name", b"\xff\xff"),
                (b"x", b"\0asm\x01\0\0\0", b"x", b"\x01\x01\x00"),
                (b"\0", b"\0\0\0", b"\xC3\xA9", b"\x80"),
            ] {
                let mut s = full.clone();
                s.insert(a.max(b), Sec::Custom(n2.to_vec(), c2.to_vec()));
                s.insert(a.min(b), Sec::Custom(n1.to_vec(), c1.to_vec()));
                go(&s)?;
            }
            cx.label("pair of places");
        } else if x < 14 * 14 + CLENS.len() as u64 {
            let n = CLENS[(x - 196) as usize];
            let mut r = Rng::new(n as u64);
            let bytes: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let c = Sec::Custom(b"len".to_vec(), bytes);
            let z = Sec::Custom(b"len".to_vec(), vec![0; n]);
            go(&[c.clone()])?;
            go(&[z.clone(), c.clone(), simple(1, 1), c.clone(), z, simple(11, 1), c])?;
            let name = Sec::Custom(vec![b'n'; n], b"contents".to_vec());
            go(&[name.clone()])?;
            go(&[name, simple(5, 1)])?;
            cx.label("length");
        } else {
            // many
            let n = (x - 196 - CLENS.len() as u64) as usize;
            let mut s = vec![];
            for (k, f) in full.iter().enumerate() {
                for j in 0..n * (k % 3) {
                    s.push(Sec::Custom(format!("{}", j % 5).into_bytes(), vec![j as u8; (j * k) % 9]));
                }
                s.push(f.clone());
            }
            go(&s)?;
            cx.label("many");
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 250_000 } else { 8_000_000 },
    run_gen: |t, cx| {
        let p = Prof { sec: [0, 35, 35, 35, 35, 35, 35, 35, 35, 35, 35, 35, 35, 35], ..profile(t) };
        let base = r#gen::module(t, p);
        if t.chance(1, 4) {
            // of a malformed module too
            let b = enc::styled(&base, t).bytes;
            let b = mutate::mutate(&b, t).0;
            if refdec::decode(&b).locals > MAX_LOCALS {
                return Ok(());
            }
            let Some(sp) = refdec::split(&b) else { return Ok(()) };
            let was = subject::decode(&b).on(&b)?.is_ok();
            let mut at: Vec<usize> = sp.iter().map(|s| s.0).collect();
            at.push(b.len());
            let at = *t.pick(&at);
            let Sec::Custom(n, c) = Gen::new(t, r#gen::small()).custom() else { unreachable!() };
            let e = enc::styled(&[Sec::Custom(n, c)], t);
            let mut v = b.clone();
            v.splice(at..at, e.bytes[8..].iter().copied());
            match subject::decode(&v).on(&v)? {
                Ok(_) if !was => return fail("a custom section makes a malformed module pass", &v),
                Err(e) if was => return fail(format!("a custom section makes a module malformed: {}", rej(&e)), &v),
                _ => {}
            }
            cx.eval_bytes(&v, true);
            cx.label(if was { "mutated, still a module" } else { "malformed" });
            return Ok(());
        }
        let e0 = enc::canonical(&base);
        let a0 = match subject::abst(&e0.bytes).on(&e0.bytes)? {
            Ok(a) => a,
            Err(e) => return fail(format!("well-formed module rejected: {}", rej(&e)), &e0.bytes),
        };
        let mut secs = base.clone();
        let mut cp = profile(t);
        if t.chance(1, 200) {
            cp = r#gen::large();
        }
        for _ in 0..t.range(1, 6) {
            let at = t.upto(secs.len());
            let dup = secs.iter().find(|s| s.id() == 0).cloned();
            let c = match dup {
                Some(d) if t.chance(1, 4) => d,
                _ => Gen::new(t, cp.clone()).custom(),
            };
            secs.insert(at, c);
        }
        let plain = t.bool();
        let e = if plain { enc::canonical(&secs) } else { enc::styled(&secs, t) };
        let a = match subject::abst(&e.bytes).on(&e.bytes)? {
            Ok(a) => a,
            Err(x) => return fail(format!("custom sections make it malformed: {}", rej(&x)), &e.bytes),
        };
        let want: Vec<(Vec<u8>, Vec<u8>)> = secs
            .iter()
            .filter_map(|s| match s {
                Sec::Custom(n, c) => Some((n.clone(), c.clone())),
                _ => None,
            })
            .collect();
        if a.customs != want {
            return fail("custom sections are not those of the file", &e.bytes);
        }
        let (mut a0, mut a1) = (a0, without_customs(&a));
        if !plain {
            // the sections have other sizes
            a0.headers.iter_mut().chain(&mut a1.headers).for_each(|h| h.1 = 0);
        }
        if let Some(d) = diff(&a0, &a1) {
            return fail(format!("custom sections change the module: {d}"), &e.bytes);
        }
        if a.headers.iter().map(|h| h.0).collect::<Vec<_>>() != secs.iter().map(Sec::id).collect::<Vec<_>>() {
            return fail("headers do not list the custom sections in place", &e.bytes);
        }
        cx.eval_bytes(&e.bytes, true);
        cx.label("customs added");
        cx.sample("customs added", || r#gen::describe(&secs));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
