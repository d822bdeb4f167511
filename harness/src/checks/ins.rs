//! C05 instructions, C06 constants, C24 structured instructions.
use super::accept::{lists, run_list};
use super::common::*;
use super::robust::{PRE, deep};
use crate::ast::*;
use crate::engine::*;
use crate::enc::{self, leb_u};
use crate::r#gen::{self, Gen, Prof};
use crate::ops::{self, Sh};
use crate::tape::{Big, Rng, Tape, mix};

fn check_at(p: usize, e: Expr, cx: &mut Ctx) -> Res {
    let secs = with_data_count(place(p, e));
    let c = enc::canonical(&secs);
    let want = denotes(&secs, &c.sizes()).expect("well-formed");
    expect(&c.bytes, &want)?;
    cx.eval_bytes(&c.bytes, true);
    Ok(())
}

fn n_ops() -> u64 {
    ops::tables().all.len() as u64
}

/// Instructions whose immediates go through all interesting combinations.
fn all_immediates(op: u32, sh: Sh) -> Vec<Ins> {
    let mk = |imm| Ins { op, imm };
    let mut v = vec![];
    match sh {
        Sh::Plain => v.push(mk(Imm::None)),
        Sh::I1 => v.extend(some_u32().into_iter().map(|x| mk(Imm::I1(x)))),
        Sh::I2 | Sh::I2Swap => {
            for x in some_u32() {
                v.push(mk(Imm::I2(x, 0)));
                v.push(mk(Imm::I2(0, x)));
                v.push(mk(Imm::I2(x, x.wrapping_add(1))));
            }
        }
        Sh::Mem | Sh::MemLane => {
            let mut m = vec![];
            for align in 0..64 {
                for mem in [0, 1, 200] {
                    m.push(Memarg { mem, align, offset: u64::from(align) * 3 });
                }
            }
            for x in some_u32() {
                m.push(Memarg { mem: x, align: x % 64, offset: 7 });
            }
            for offset in some_u64() {
                m.push(Memarg { mem: (offset % 3) as u32, align: 2, offset });
            }
            for (k, m) in m.into_iter().enumerate() {
                v.push(mk(if sh == Sh::Mem { Imm::Mem(m) } else { Imm::MemLane(m, k as u8) }));
            }
        }
        Sh::Lane => v.extend((0..=255).map(|l| mk(Imm::Lane(l)))),
        Sh::I32 => v.extend(some_u32().into_iter().map(|x| mk(Imm::I32(x as i32)))),
        Sh::I64 => v.extend(some_u64().into_iter().map(|x| mk(Imm::I64(x as i64)))),
        Sh::Ht => v.extend(all_hts().into_iter().map(|h| mk(Imm::Ht(h)))),
        Sh::BrCast => {
            for (k, a) in all_rts().into_iter().enumerate() {
                for (j, b) in all_rts().into_iter().enumerate() {
                    if k < 12 || j < 12 || (k + j) % 17 == 0 {
                        v.push(mk(Imm::BrCast((k * 1000 + j) as u32, a, b)));
                    }
                }
            }
        }
        Sh::Block | Sh::If | Sh::Try => {
            let mut bts = vec![Bt::Empty];
            bts.extend(all_vts().into_iter().map(Bt::Val));
            bts.extend(some_u32().into_iter().map(Bt::Idx));
            for (k, bt) in bts.into_iter().enumerate() {
                let e = vec![i(0x41, Imm::I32(k as i32)); k % 3];
                v.push(mk(match sh {
                    Sh::Block => Imm::Block(bt, e),
                    Sh::If => Imm::If(bt, e, [None, Some(vec![]), Some(vec![nop(); k % 4])][k % 3].clone()),
                    _ => Imm::Try(bt, (0..k as u32 % 5).map(|x| [Catch::Catch(x, 9), Catch::Ref(8, x), Catch::All(x), Catch::AllRef(x)][(x as usize + k) % 4]).collect(), e),
                }));
            }
        }
        Sh::SelT => v.extend(all_vts().into_iter().map(|t| mk(Imm::SelT(vec![t])))),
        _ => {}
    }
    for x in some_u32() {
        v.push(sample_ins(op, sh, x));
    }
    v
}

/// Kinds of list, of `listed`.
const C05_LISTS: &[usize] = &[19, 20, 21, 22, 24];

pub static C05: Check = Check {
    id: "C05",
    level: "exploration",
    rule: "a sequence of at least one instruction (distinct by encoding)",
    assumptions: &["the table of opcodes and immediates was written from the specification"],
    sweep: |_| n_ops() * (PLACES as u64 + 2) + lists(C05_LISTS),
    run_sweep: |k, cx| {
        if k < lists(C05_LISTS) {
            return run_list(C05_LISTS, k, cx);
        }
        let k = k - lists(C05_LISTS);
        let all = &ops::tables().all;
        let (op, sh, name) = all[(k % n_ops()) as usize];
        match (k / n_ops()) as usize {
            p @ 0..PLACES => {
                for x in [0u32, 1, 2, 3, 4, 5, 64, 127, 128, 200, 16384, 1 << 20, 1 << 27, u32::MAX - 5, u32::MAX] {
                    check_at(p, vec![sample_ins(op, sh, x)], cx)?;
                }
                check_at(p, vec![nop(), sample_ins(op, sh, 77), i(0x41, Imm::I32(5))], cx)?;
                cx.label(place_name(p));
            }
            PLACES => {
                // before and after every other instruction
                let mut e = vec![];
                for (k, (op2, sh2, _)) in all.iter().enumerate() {
                    e.push(sample_ins(op, sh, k as u32));
                    e.push(sample_ins(*op2, *sh2, k as u32 + 3));
                }
                check_at(0, e.clone(), cx)?;
                check_at(10, e, cx)?;
                // and with the same immediates as these
                for (p, x) in [(0, 4), (0, 7), (0, 128), (0, 301), (0, 70_000), (0, u32::MAX), (1, 200), (7, 99), (10, 1000)] {
                    let mut e = vec![];
                    for (op2, sh2, _) in all {
                        e.push(sample_ins(op, sh, x));
                        e.push(sample_ins(*op2, *sh2, x));
                    }
                    check_at(p, e, cx)?;
                }
                cx.label("all neighbours");
                cx.sample("all neighbours", || format!("{name} before and after each of {} instructions", all.len()));
            }
            _ => {
                let v = all_immediates(op, sh);
                cx.label("all immediates");
                cx.sample(&format!("immediates of {sh:?}"), || format!("{name}: {:?}", v[v.len() / 2]));
                for (k, ins) in v.iter().enumerate() {
                    check_at(k % PLACES, vec![ins.clone()], cx)?;
                }
                check_at(0, v, cx)?;
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 300_000 } else { 15_000_000 },
    run_gen: |t, cx| {
        let only = match t.below(3) {
            // few opcodes, many immediates
            0 => {
                let all = &ops::tables().all;
                Some((0..t.range(1, 3)).map(|_| all[t.below(all.len() as u64) as usize].0).collect())
            }
            _ => None,
        };
        let p = Prof { only, ins: 40, items: 400, big: Big::Some, ..r#gen::small() };
        let mut g = Gen::new(t, p);
        let mut e = g.expr();
        if g.t.chance(1, 2) {
            for _ in 0..g.t.range(1, 6) {
                g.echo_expr(&mut e);
            }
        }
        let at = t.below(PLACES as u64) as usize;
        let secs = with_data_count(place(at, e.clone()));
        let c = enc::styled(&secs, t);
        let want = denotes(&secs, &c.sizes()).expect("well-formed");
        expect(&c.bytes, &want)?;
        cx.eval_bytes(&c.bytes, !e.is_empty());
        cx.label("random sequence");
        cx.sample("random sequence", || format!("in {}: {:?}", place_name(at), e.iter().take(4).collect::<Vec<_>>()));
        faults(&secs, t, cx, |_| true)?;
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

const PER: u64 = 2048;
const KINDS: [&str; 6] = ["i32", "f32", "i64", "f64", "v128", "shuffle"];

fn constant(kind: u64, bits: u128) -> Ins {
    match kind {
        0 => i(0x41, Imm::I32(bits as i32)),
        1 => i(0x43, Imm::F32(bits as u32)),
        2 => i(0x42, Imm::I64(bits as i64)),
        3 => i(0x44, Imm::F64(bits as u64)),
        4 => i(0xFD000C, Imm::V128(bits.to_le_bytes())),
        _ => i(0xFD000D, Imm::Shuf(bits.to_le_bytes())),
    }
}

/// The n-th constant of the stratified enumeration.
fn stratum(kind: u64, n: u64, seed: u64) -> u128 {
    let r = mix(&[seed, kind, n]);
    match kind {
        0 | 1 => {
            // all upper halves times some lower halves
            let low = match n >> 16 {
                0 => 0,
                1 => 1,
                2 => 0xFFFF,
                3 => 0x8000,
                _ => r & 0xFFFF,
            };
            u128::from((n & 0xFFFF) << 16 | low)
        }
        2 | 3 => {
            let low = match n >> 16 {
                0 => 0,
                1 => 1,
                2 => (1 << 48) - 1,
                3 => 1 << 47,
                _ => r & ((1 << 48) - 1),
            };
            u128::from((n & 0xFFFF) << 48 | low)
        }
        _ => {
            // every value at every byte, on different backgrounds
            let (pos, val) = (n / 256 % 16, n % 256);
            let bg = match n / 4096 {
                0 => 0,
                1 => u128::MAX,
                2 => 0x0F0E_0D0C_0B0A_0908_0706_0504_0302_0100,
                _ => u128::from(r) << 64 | u128::from(mix(&[r])),
            };
            (bg & !(0xFF << (8 * pos))) | u128::from(val) << (8 * pos)
        }
    }
}
const STRATA: u64 = 65536 * 24;

pub static C06: Check = Check {
    id: "C06",
    level: "exploration",
    rule: "constants are enumerated (evaluations); a module of up to 2048 different ones counts once (distinct by encoding)",
    assumptions: &["64- and 128-bit constants are enumerated by strata, not in full"],
    sweep: |t| {
        let s = 6 * STRATA / PER;
        if t == Tier::Quick { s } else { s + 2 * (1 << 32) / PER }
    },
    run_sweep: |k, cx| {
        let s = 6 * STRATA / PER;
        let (kind, e): (u64, Expr) = if k < s {
            let (kind, n) = (k % 6, k / 6 * PER);
            (kind, (n..n + PER).map(|n| constant(kind, stratum(kind, n, cx.seed))).collect())
        } else {
            let (kind, n) = ((k - s) % 2, (k - s) / 2 * PER);
            cx.label("exhaustive 32 bits");
            (kind, (n..n + PER).map(|n| constant(kind, u128::from(n))).collect())
        };
        // now and then one by one, as initialisers
        if k % 7 == 0 {
            let gt = Gt { var: false, vt: I32 };
            let secs = vec![Sec::Global(e.iter().map(|x| Global { ty: gt, init: vec![x.clone()] }).collect())];
            let c = enc::canonical(&secs);
            expect(&c.bytes, &denotes(&secs, &c.sizes()).unwrap())?;
        }
        let secs = func(e);
        let c = enc::canonical(&secs);
        expect(&c.bytes, &denotes(&secs, &c.sizes()).unwrap())?;
        cx.eval_bytes(&c.bytes, true);
        cx.st.evals += PER - 1;
        cx.label(KINDS[kind as usize]);
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 1_000_000 } else { 20_000_000 },
    run_gen: |t, cx| {
        let p = Prof { only: Some(vec![0x41, 0x42, 0x43, 0x44, 0xFD000C, 0xFD000D]), nest: 5, data_ops: 0, ins: 20, ..r#gen::small() };
        let e = Gen::new(t, p).expr();
        let secs = place(t.below(PLACES as u64) as usize, e.clone());
        let c = enc::styled(&secs, t);
        expect(&c.bytes, &denotes(&secs, &c.sizes()).unwrap())?;
        cx.eval_bytes(&c.bytes, !e.is_empty());
        cx.label("random");
        cx.sample("random", || format!("{:?}", e.iter().take(5).collect::<Vec<_>>()));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

const TOKENS: [&[u8]; 7] = [&[0x01], &[0x02, 0x40], &[0x03, 0x40], &[0x04, 0x40], &[0x1F, 0x40, 0x00], &[0x05], &[0x0B]];
const NAMES: [&str; 7] = ["nop", "block", "loop", "if", "try_table", "else", "end"];

fn raw_body(e: &[u8], at: u64) -> Vec<u8> {
    let mut v = PRE.to_vec();
    let mut c = vec![1];
    match at {
        0 => {
            v.extend([3, 2, 1, 0, 10]);
            leb_u(e.len() as u64 + 1, &mut c);
            c.push(0);
        }
        1 => {
            v.push(6);
            c.extend([0x7F, 0]);
        }
        _ => {
            v.push(11);
            c.push(0);
        }
    }
    c.extend_from_slice(e);
    if at == 2 {
        c.push(0);
    }
    leb_u(c.len() as u64, &mut v);
    v.extend(c);
    v
}

fn max_tokens(t: Tier) -> u32 {
    if t == Tier::Quick { 8 } else { 9 }
}

fn tree(t: &mut Tape, depth: usize, width: usize) -> Expr {
    let n = t.upto(width);
    (0..n)
        .map(|_| {
            if depth == 0 || t.chance(1, 3) {
                return i(0x41, Imm::I32(t.below(100) as i32));
            }
            let bt = match t.below(3) {
                0 => Bt::Empty,
                1 => Bt::Val(I32),
                _ => Bt::Idx(t.below(300) as u32),
            };
            let e = tree(t, depth - 1, width);
            match t.below(4) {
                0 => i(2, Imm::Block(bt, e)),
                1 => i(3, Imm::Block(bt, e)),
                2 => {
                    let b = match t.below(3) {
                        0 => None,
                        1 => Some(vec![]),
                        _ => Some(tree(t, depth - 1, width)),
                    };
                    i(4, Imm::If(bt, e, b))
                }
                _ => i(0x1F, Imm::Try(bt, vec![Catch::All(3); t.upto(2)], e)),
            }
        })
        .collect()
}

/// One chain of blocks of mixed kinds, with something before and after each.
fn mixed_chain(seed: u64, n: usize) -> Expr {
    let mut r = Rng::new(seed);
    let mut e = vec![i(0x41, Imm::I32(-1))];
    for k in 0..n {
        let x = r.next();
        let ins = match x % 6 {
            0 => i(2, Imm::Block(Bt::Empty, e)),
            1 => i(3, Imm::Block(Bt::Idx(k as u32), e)),
            2 => i(4, Imm::If(Bt::Empty, e, None)),
            3 => i(4, Imm::If(Bt::Val(I32), vec![nop()], Some(e))),
            4 => i(4, Imm::If(Bt::Val(I32), e, Some(vec![]))),
            _ => i(0x1F, Imm::Try(Bt::Empty, vec![Catch::All(k as u32)], e)),
        };
        e = match x >> 8 & 3 {
            0 => vec![ins],
            1 => vec![nop(), ins],
            2 => vec![ins, i(0x41, Imm::I32(k as i32))],
            _ => vec![i(0x41, Imm::I32(k as i32)), ins, nop()],
        };
    }
    e
}

fn drop_deep(mut e: Expr) {
    // without recursion, like everything else that may be deep
    let mut todo = vec![std::mem::take(&mut e)];
    while let Some(mut e) = todo.pop() {
        for ins in &mut e {
            match &mut ins.imm {
                Imm::Block(_, b) | Imm::Try(_, _, b) => todo.push(std::mem::take(b)),
                Imm::If(_, a, b) => {
                    todo.push(std::mem::take(a));
                    if let Some(b) = b {
                        todo.push(std::mem::take(b));
                    }
                }
                _ => {}
            }
        }
    }
}

/// Kinds of list, of `listed`.
const C24_LISTS: &[usize] = &[24];

pub static C24: Check = Check {
    id: "C24",
    level: "exploration",
    rule: "the code contains at least one structured instruction or delimiter out of place (distinct by input)",
    assumptions: &["deep nesting is decoded on a 1 GB stack"],
    sweep: |t| 7u64.pow(max_tokens(t) - 3) + 7 * 7 + 40 + lists(C24_LISTS),
    run_sweep: |k, cx| {
        if k < lists(C24_LISTS) {
            return run_list(C24_LISTS, k, cx);
        }
        let k = k - lists(C24_LISTS);
        let m = max_tokens(cx.tier);
        let big = 7u64.pow(m - 3);
        if k >= big + 49 {
            // deep
            let x = k - big - 49;
            let n = [50, 100, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 2000, 5000, 8192, 10_000, 16_384, 20_000][x as usize / 2];
            let e = mixed_chain(mix(&[cx.seed, x]), n);
            let secs = place(if x % 2 == 0 { 0 } else { 10 }, e);
            let c = enc::canonical(&secs);
            let want = denotes(&secs, &c.sizes()).unwrap();
            expect(&c.bytes, &want)?;
            cx.eval_bytes(&c.bytes, true);
            cx.label("deep chain");
            cx.sample("deep chain", || format!("{n} levels of mixed kinds, {} bytes", c.bytes.len()));
            for kind in 0..5 {
                let b = deep(kind, x % 3, n);
                count(cx, &agree(&b, true)?);
                cx.eval_bytes(&b, true);
            }
            for s in secs {
                match s {
                    Sec::Code(c) => c.into_iter().for_each(|c| drop_deep(c.body)),
                    Sec::Global(g) => g.into_iter().for_each(|g| drop_deep(g.init)),
                    _ => {}
                }
            }
            return Ok(());
        }
        // all sequences with the given head, and all three last tokens
        let (mut head, len) = if k < big { (k, m as usize - 3) } else { (k - big, 2) };
        let mut seq = vec![];
        for _ in 0..len {
            seq.push((head % 7) as usize);
            head /= 7;
        }
        // a head of two stands for the short sequences
        let tails: u32 = 3;
        for tail in 0..7u64.pow(tails) {
            let mut s = seq.clone();
            let mut x = tail;
            for _ in 0..tails {
                s.push((x % 7) as usize);
                x /= 7;
            }
            for cut in 0..=(if len == 2 { 4 } else { 0 }) {
                let s = &s[cut..];
                let e: Vec<u8> = s.iter().flat_map(|t| TOKENS[*t]).copied().collect();
                let at = (tail + k) % 3;
                let b = raw_body(&e, at);
                let v = agree(&b, true)?;
                count(cx, &v);
                cx.eval_bytes(&b, true);
                if matches!(v, Verdict::Accepted(_)) {
                    cx.sample(&format!("well-formed sequence of {}", s.len()), || {
                        s.iter().map(|t| NAMES[*t]).collect::<Vec<_>>().join(" ")
                    });
                }
                if at != 0 {
                    let b = raw_body(&e, 0);
                    count(cx, &agree(&b, true)?);
                    cx.eval_bytes(&b, true);
                }
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 900_000 } else { 30_000_000 },
    run_gen: |t, cx| {
        let (d, w) = (t.upto(7), t.range(1, 4));
        let e = tree(t, d, w);
        let nested = e.iter().any(|i| !matches!(i.imm, Imm::I32(_)));
        let secs = place(t.below(PLACES as u64) as usize, e.clone());
        let c = enc::styled(&secs, t);
        expect(&c.bytes, &denotes(&secs, &c.sizes()).unwrap())?;
        cx.eval_bytes(&c.bytes, nested);
        cx.label("tree");
        cx.sample("tree", || clip(&format!("{e:?}"), 300));
        // delimiters added, removed, exchanged
        let mut b = enc::one_expr(&e);
        for _ in 0..t.range(1, 3) {
            let at = t.below(b.len() as u64) as usize;
            match t.below(3) {
                0 => b.insert(at, *t.pick(&[0x0B, 0x05])),
                1 => {
                    let ds: Vec<usize> = (0..b.len()).filter(|i| matches!(b[*i], 0x0B | 0x05)).collect();
                    if let Some(x) = ds.get((at * 7) % ds.len().max(1)) {
                        b.remove(*x);
                    }
                }
                _ => {
                    let ds: Vec<usize> = (0..b.len()).filter(|i| matches!(b[*i], 0x0B | 0x05)).collect();
                    if let Some(x) = ds.get((at * 7) % ds.len().max(1)) {
                        b[*x] ^= 0x0E;
                    }
                }
            }
            if b.is_empty() {
                b.push(0x05);
            }
        }
        let m = raw_body(&b, t.below(3));
        count(cx, &agree(&m, true)?);
        cx.eval_bytes(&m, true);
        cx.label("delimiters changed");
        faults(&secs, t, cx, |_| true)?;
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
