//! What the checks share: oracles over one input, templates, contexts.
use crate::ast::*;
use crate::enc::{self, Encoded, Fault, Site, leb_u};
use crate::engine::*;
use crate::r#gen::{self, Prof};
use crate::ops::{self, Sh};
use crate::refdec;
use crate::subject;
use crate::tape::Tape;
use wadec::decode_errors::DecodeModuleError;

/// More locals than this are not handed to the decoder, which has to expand them.
pub const MAX_LOCALS: u64 = 1 << 22;

pub fn rej(e: &DecodeModuleError) -> String {
    clip(&subject::show(e), 400)
}

/// The module that these sections, thus encoded, denote.
pub fn denotes(secs: &[Sec], sizes: &[u32]) -> Result<Abst, Cross> {
    let v: Vec<(Sec, u32)> = secs.iter().cloned().zip(sizes.iter().copied()).collect();
    assemble(&v)
}

/// The bytes must be decoded, to exactly this module.
pub fn expect(b: &[u8], want: &Abst) -> Res {
    match subject::abst(b).on(b)? {
        Ok(got) => match diff(want, &got) {
            None => Ok(()),
            Some(d) => fail(format!("wrong module: {d}"), b),
        },
        Err(e) => fail(format!("well-formed module rejected: {}", rej(&e)), b),
    }
}

/// The bytes must be rejected.
pub fn reject(b: &[u8], why: &str) -> Result<DecodeModuleError, Fail> {
    match subject::decode(b).on(b)? {
        Ok(_) => fail(format!("accepted although malformed: {why}"), b),
        Err(e) => Ok(e),
    }
}

pub enum Verdict {
    Accepted(Box<Abst>),
    Rejected(refdec::Bad, DecodeModuleError),
    Skipped,
}

/// Decoder and reference decoder must agree, on acceptance and (if asked) on the module.
pub fn agree(b: &[u8], full: bool) -> Result<Verdict, Fail> {
    let r = refdec::decode(b);
    if r.locals > MAX_LOCALS {
        return Ok(Verdict::Skipped);
    }
    match (r.module, subject::abst(b).on(b)?) {
        (Ok(want), Ok(got)) => {
            if full && let Some(d) = diff(&want, &got) {
                return fail(format!("wrong module: {d}"), b);
            }
            Ok(Verdict::Accepted(Box::new(want)))
        }
        (Err(bad), Err(e)) => Ok(Verdict::Rejected(bad, e)),
        (Err(bad), Ok(_)) => fail(format!("accepted although malformed: {bad:?}"), b),
        (Ok(_), Err(e)) => fail(format!("well-formed module rejected: {}", rej(&e)), b),
    }
}

/// Replace a random field (out of those asked for) by something that may or may not be right there.
pub fn field_fault(secs: &[Sec], t: &mut Tape, keep: impl Fn(&Site) -> bool) -> Option<(Vec<u8>, String)> {
    let (w, kind, x, v, n) = (t.below(1 << 32), t.below(14), t.byte(), t.u64(), t.range(1, 11));
    let sites = enc::sites(secs, t);
    let c: Vec<usize> = (0..sites.len()).filter(|k| keep(&sites[*k])).collect();
    if c.is_empty() {
        return None;
    }
    let k = c[(w % c.len() as u64) as usize];
    let was = &sites[k].bytes;
    let f = match kind {
        0 | 1 => Fault::Replace(vec![x]),
        2 => {
            let mut b = vec![];
            leb_u(v, &mut b);
            Fault::Replace(b)
        }
        3 => {
            let mut b = vec![x & 0x7F];
            enc::pad_leb(&mut b, n, v % 2 == 0);
            Fault::Replace(b)
        }
        4 => Fault::CutAt(vec![]),
        5 => Fault::Replace(vec![]),
        6 => Fault::CutAt(was.clone()),
        7 => {
            // one off
            let mut b = was.clone();
            if let Some(y) = b.first_mut() {
                *y = if x % 2 == 0 { y.wrapping_add(1) } else { y.wrapping_sub(1) };
            }
            Fault::Replace(b)
        }
        8 => {
            // one bit
            let mut b = was.clone();
            let l = b.len().max(1);
            if let Some(y) = b.get_mut(n % l) {
                *y ^= 1 << (x % 8);
            }
            Fault::Replace(b)
        }
        9 => {
            // twice
            let mut b = was.clone();
            b.extend_from_slice(was);
            Fault::Replace(b)
        }
        10 => Fault::Repeat(n),
        11 => {
            // after one byte more
            let mut b = vec![x];
            b.extend_from_slice(was);
            Fault::Replace(b)
        }
        12 => {
            // after a code with a small operand
            let mut b = vec![x, (v % 4) as u8];
            b.extend_from_slice(was);
            Fault::Replace(b)
        }
        _ => {
            // what stands at another field
            Fault::Replace(sites[(v % sites.len() as u64) as usize].bytes.clone())
        }
    };
    let l = format!("field {:?}", sites[k].kind);
    Some((enc::faulty(secs, t, k, f).bytes, l.split('(').next().unwrap().to_string()))
}

/// Both decoders must agree about modules that are one field away from well-formed.
pub fn faults(secs: &[Sec], t: &mut Tape, cx: &mut Ctx, keep: impl Fn(&Site) -> bool) -> Res {
    let Some((b, _)) = field_fault(secs, t, keep) else { return Ok(()) };
    let v = agree(&b, true)?;
    cx.label(match v {
        Verdict::Accepted(_) => "one field changed: accepted",
        Verdict::Rejected(..) => "one field changed: rejected",
        Verdict::Skipped => "one field changed: skipped (too many locals)",
    });
    cx.eval_bytes(&b, true);
    Ok(())
}

pub fn count(cx: &mut Ctx, v: &Verdict) {
    cx.label(match v {
        Verdict::Accepted(_) => "accepted",
        Verdict::Rejected(..) => "rejected",
        Verdict::Skipped => "skipped (too many locals)",
    });
}

pub fn profile(t: &mut Tape) -> Prof {
    match t.weighted(&[60, 30, 1]) {
        0 => r#gen::small(),
        1 => r#gen::medium(),
        _ => r#gen::large(),
    }
}

pub fn module(t: &mut Tape) -> Vec<Sec> {
    let p = profile(t);
    r#gen::module(t, p)
}

pub fn encode(secs: &[Sec]) -> Encoded {
    enc::canonical(secs)
}

pub const I32: Vt = Vt::Num(Num::I32);

pub fn func(body: Expr) -> Vec<Sec> {
    vec![Sec::Function(vec![0]), Sec::Code(vec![Code { locals: vec![], body }])]
}

pub fn i(op: u32, imm: Imm) -> Ins {
    Ins { op, imm }
}
pub fn nop() -> Ins {
    i(1, Imm::None)
}
pub fn konst(v: i32) -> Expr {
    vec![i(0x41, Imm::I32(v))]
}

pub const ABS: [u8; 12] =
    [0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74];

/// All value types, with some type indices.
pub fn all_vts() -> Vec<Vt> {
    let mut v = vec![I32, Vt::Num(Num::I64), Vt::Num(Num::F32), Vt::Num(Num::F64), Vt::V128];
    v.extend(all_rts().into_iter().map(Vt::Ref));
    v
}
pub fn all_rts() -> Vec<Rt> {
    let mut v = vec![];
    for null in [true, false] {
        for ht in all_hts() {
            v.push(Rt { null, ht });
        }
    }
    v
}
pub fn all_hts() -> Vec<Ht> {
    let mut v: Vec<Ht> = ABS.iter().map(|b| Ht::Abs(Abs(*b))).collect();
    v.extend(some_u32().iter().map(|x| Ht::Idx(*x)));
    v
}

/// Values of 32 bits at which something changes.
pub fn some_u32() -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 1, 2, 3, 5, 10, 100, 1000, 50_000, 1_000_000];
    for k in [6u32, 7, 8, 13, 14, 15, 16, 20, 21, 24, 27, 28, 31] {
        let p = 1u32 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([0x69, 0x70, 0x74, u32::MAX - 1, u32::MAX, 0xF000_0000, 0x8765_4321]);
    v.sort();
    v.dedup();
    v
}
pub fn some_u64() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 10, 100, 65535, 65536, 65537];
    for k in 6..64u32 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([u64::MAX - 1, u64::MAX]);
    v.sort();
    v.dedup();
    v
}

/// The places at which a sequence of instructions can stand.
pub const PLACES: usize = 17;
pub fn place_name(p: usize) -> &'static str {
    [
        "body", "block", "loop", "then", "else", "try", "then of if-else", "block in loop in else", "second function",
        "after other code", "global", "table", "element offset", "element expression", "data offset", "second global",
        "body with locals",
    ][p]
}
/// Is the place in a function body?
pub fn in_body(p: usize) -> bool {
    p < 10 || p == 16
}
pub fn place(p: usize, e: Expr) -> Vec<Sec> {
    const FUNC: Rt = Rt { null: true, ht: Ht::Abs(Abs(0x70)) };
    let block = |op, e| vec![i(op, Imm::Block(Bt::Empty, e))];
    let lim = Lim { a64: false, min: 1, max: None };
    let global = |e| Global { ty: Gt { var: false, vt: I32 }, init: e };
    match p {
        0 => func(e),
        1 => func(block(2, e)),
        2 => func(block(3, e)),
        3 => func(vec![i(4, Imm::If(Bt::Empty, e, None))]),
        4 => func(vec![nop(), i(4, Imm::If(Bt::Val(I32), vec![nop()], Some(e)))]),
        5 => func(vec![i(0x1F, Imm::Try(Bt::Empty, vec![Catch::All(0)], e))]),
        6 => func(vec![i(4, Imm::If(Bt::Idx(3), e, Some(vec![]))), nop()]),
        7 => func(vec![i(4, Imm::If(Bt::Empty, vec![], Some(block(3, block(2, e)))))]),
        8 => vec![
            Sec::Function(vec![4, 5]),
            Sec::Code(vec![
                Code { locals: vec![], body: vec![nop()] },
                Code { locals: vec![], body: e },
            ]),
        ],
        9 => {
            let mut v = konst(7);
            v.push(i(0x1A, Imm::None));
            v.extend(e);
            v.push(nop());
            func(v)
        }
        10 => vec![Sec::Global(vec![global(e)])],
        11 => vec![Sec::Table(vec![Table { ty: Tt { rt: FUNC, lim }, init: e }])],
        12 => vec![Sec::Element(vec![Elem {
            rt: Rt { null: false, ..FUNC },
            init: vec![vec![i(0xD2, Imm::I1(9))]],
            mode: ElemMode::Active(0, e),
        }])],
        13 => vec![Sec::Element(vec![Elem {
            rt: FUNC,
            init: vec![konst(1), e, konst(2)],
            mode: ElemMode::Passive,
        }])],
        14 => vec![Sec::Data(vec![Data { init: vec![1, 2, 3], mode: DataMode::Active(0, e) }])],
        15 => vec![Sec::Global(vec![global(konst(5)), global(e), global(konst(6))])],
        _ => vec![
            Sec::Function(vec![0]),
            Sec::Code(vec![Code { locals: vec![(2, I32), (1, Vt::V128)], body: e }]),
        ],
    }
}

/// Add what the rules about data segments require.
pub fn with_data_count(mut secs: Vec<Sec>) -> Vec<Sec> {
    let needs = secs.iter().any(|s| match s {
        Sec::Code(c) => c.iter().any(|c| has_data_idx(&c.body)),
        _ => false,
    });
    if needs {
        let at = secs.iter().position(|s| s.id() == 10).unwrap();
        secs.insert(at, Sec::DataCount(0));
    }
    secs
}

/// An instruction with immediates made from `x` (all different where possible).
pub fn sample_ins(op: u32, sh: Sh, x: u32) -> Ins {
    let y = x.wrapping_mul(3).wrapping_add(1);
    let h = |x: u32| if x % 2 == 0 { Ht::Idx(x) } else { Ht::Abs(Abs(ABS[(x / 2 % 12) as usize])) };
    let m = Memarg {
        mem: if x % 3 == 0 { 0 } else { y },
        align: x % 64,
        offset: u64::from(x) << (x % 33),
    };
    let b16 = std::array::from_fn(|k| (x >> (k % 4 * 8)) as u8 ^ (k as u8 * 17));
    let imm = match sh {
        Sh::Plain => Imm::None,
        Sh::I1 => Imm::I1(x),
        Sh::I2 | Sh::I2Swap => Imm::I2(x, y),
        Sh::Mem => Imm::Mem(m),
        Sh::MemLane => Imm::MemLane(m, y as u8),
        Sh::Lane => Imm::Lane(x as u8),
        Sh::I32 => Imm::I32(x as i32),
        Sh::I64 => Imm::I64((u64::from(x) << 32 | u64::from(y)) as i64 >> (x % 40)),
        Sh::F32 => Imm::F32(x),
        Sh::F64 => Imm::F64(u64::from(x) << 32 | u64::from(y)),
        Sh::V128 => Imm::V128(b16),
        Sh::Shuf => Imm::Shuf(b16),
        Sh::BrTable => Imm::BrTable((0..x % 5).map(|k| x.wrapping_add(k)).collect(), y),
        Sh::SelT => Imm::SelT((0..x % 4).map(|k| Vt::Ref(Rt { null: k % 2 == 0, ht: h(x.wrapping_add(k)) })).collect()),
        Sh::Block => Imm::Block(Bt::Idx(x), vec![i(0x0C, Imm::I1(y)), nop()]),
        Sh::If => Imm::If(
            Bt::Val(Vt::Ref(Rt { null: x % 3 == 0, ht: h(y) })),
            vec![i(0x0C, Imm::I1(x))],
            match x % 3 {
                0 => None,
                1 => Some(vec![]),
                _ => Some(vec![i(0x0D, Imm::I1(y))]),
            },
        ),
        Sh::Try => Imm::Try(
            Bt::Empty,
            vec![Catch::Catch(x, y), Catch::Ref(y, x), Catch::All(x), Catch::AllRef(y)],
            vec![i(0x20, Imm::I1(x))],
        ),
        Sh::Ht => Imm::Ht(h(x)),
        Sh::BrCast => Imm::BrCast(
            x,
            Rt { null: x % 2 == 0, ht: h(x) },
            Rt { null: x / 2 % 2 == 0, ht: h(y) },
        ),
    };
    Ins { op, imm }
}

/// One instruction per shape of immediates.
pub fn shapes() -> Vec<(u32, Sh)> {
    let mut seen = vec![];
    let mut v = vec![];
    for (op, sh, _) in &ops::tables().all {
        // one-byte and prefixed opcodes apart
        let key = (*sh, op >> 16);
        if !seen.contains(&key) {
            seen.push(key);
            v.push((*op, *sh));
        }
    }
    v
}

/// Small well-formed modules that together have every construct of the format.
pub fn templates() -> &'static Vec<Vec<Sec>> {
    static T: std::sync::OnceLock<Vec<Vec<Sec>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let rt = |null, ht| Rt { null, ht };
        let func_t = Ht::Abs(Abs(0x70));
        let lim = |a64, min, max| Lim { a64, min, max };
        let mut v: Vec<Vec<Sec>> = vec![];
        v.push(vec![Sec::Custom(b"name".to_vec(), vec![1, 2, 3])]);
        v.push(vec![Sec::Type(vec![
            Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Func(vec![I32, Vt::V128], vec![Vt::Num(Num::F64)]) }]),
            Rec(vec![Sub { fin: false, sup: vec![3, 200], ct: Ct::Struct(vec![
                Ft { var: true, st: St::I8 },
                Ft { var: false, st: St::V(Vt::Ref(rt(false, Ht::Idx(70)))) },
            ]) }]),
            Rec(vec![
                Sub { fin: true, sup: vec![1], ct: Ct::Array(Ft { var: true, st: St::I16 }) },
                Sub { fin: true, sup: vec![], ct: Ct::Struct(vec![]) },
            ]),
        ])]);
        let imp = |ext| Imp { module: b"env".to_vec(), item: "é".as_bytes().to_vec(), ext };
        v.push(vec![Sec::Import(vec![
            imp(Ext::Func(3)),
            imp(Ext::Table(Tt { rt: rt(true, Ht::Abs(Abs(0x6F))), lim: lim(false, 1, Some(2)) })),
            imp(Ext::Mem(lim(true, 1 << 40, None))),
            imp(Ext::Global(Gt { var: true, vt: Vt::Ref(rt(false, func_t)) })),
            imp(Ext::Tag(9)),
        ])]);
        v.push(vec![Sec::Table(vec![
            Table { ty: Tt { rt: rt(true, func_t), lim: lim(false, 3, None) }, init: vec![i(0xD0, Imm::Ht(func_t))] },
            Table { ty: Tt { rt: rt(false, func_t), lim: lim(true, 3, Some(300)) }, init: vec![i(0xD2, Imm::I1(1))] },
        ])]);
        v.push(vec![Sec::Memory(vec![lim(false, 1, None), lim(false, 1, Some(65536)), lim(true, 0, Some(1 << 48))])]);
        v.push(vec![Sec::Tag(vec![1, 300])]);
        v.push(vec![Sec::Global(vec![
            Global { ty: Gt { var: false, vt: I32 }, init: konst(3) },
            Global { ty: Gt { var: true, vt: Vt::Ref(rt(true, Ht::Idx(5))) }, init: vec![i(0xD0, Imm::Ht(Ht::Idx(5)))] },
        ])]);
        v.push(vec![Sec::Export((0..5).map(|k| Exp { name: format!("x{k}").into_bytes(), kind: k, idx: u32::from(k) * 100 }).collect())]);
        v.push(vec![Sec::Start(200)]);
        let f = |x| vec![i(0xD2, Imm::I1(x))];
        for (rt1, init, mode) in [
            (rt(false, func_t), vec![f(1), f(200)], ElemMode::Active(0, konst(1))),
            (rt(true, func_t), vec![f(1), f(2)], ElemMode::Passive),
            (rt(true, func_t), vec![f(1)], ElemMode::Active(3, konst(1))),
            (rt(true, func_t), vec![f(1)], ElemMode::Declare),
            (rt(true, func_t), vec![konst(2), vec![]], ElemMode::Active(0, konst(1))),
            (rt(true, Ht::Abs(Abs(0x6F))), vec![konst(2)], ElemMode::Passive),
            (rt(false, Ht::Idx(4)), vec![konst(2)], ElemMode::Active(3, konst(1))),
            (rt(true, Ht::Abs(Abs(0x6E))), vec![konst(2)], ElemMode::Declare),
        ] {
            v.push(vec![Sec::Element(vec![
                Elem { rt: rt(true, func_t), init: vec![], mode: ElemMode::Passive },
                Elem { rt: rt1, init, mode },
            ])]);
        }
        v.push(vec![
            Sec::DataCount(3),
            Sec::Data(vec![
                Data { init: vec![1], mode: DataMode::Active(0, konst(1)) },
                Data { init: vec![], mode: DataMode::Passive },
                Data { init: vec![7, 8, 9], mode: DataMode::Active(2, konst(1)) },
            ]),
        ]);
        v.push(vec![
            Sec::Function(vec![0, 7]),
            Sec::Code(vec![
                Code { locals: vec![(1, I32), (2, Vt::Ref(rt(true, Ht::Idx(1))))], body: vec![nop()] },
                Code { locals: vec![(300, Vt::V128)], body: vec![] },
            ]),
        ]);
        for (op, sh) in shapes() {
            for x in [4, 5, 3] {
                let e = vec![sample_ins(op, sh, x)];
                v.push(with_data_count(place((x as usize * 5 + op as usize) % 10, e.clone())));
                if x == 4 {
                    v.push(place(10 + (op as usize) % 6, e));
                }
            }
        }
        for bt in [Bt::Empty, Bt::Val(I32), Bt::Val(Vt::Ref(rt(false, Ht::Idx(3)))), Bt::Idx(100)] {
            v.push(func(vec![i(2, Imm::Block(bt, vec![i(4, Imm::If(bt, vec![], Some(vec![nop()])))]))]));
        }
        for s in &v {
            let e = enc::canonical(s);
            let r = refdec::decode(&e.bytes).module;
            assert_eq!(r.ok(), denotes(s, &e.sizes()).ok());
        }
        v
    })
}
