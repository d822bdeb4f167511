//! C31 what a part of a module decodes to does not depend on what surrounds it.
//! Metamorphic: the module that the decoder makes of a composition is compared with what it makes
//! of the parts; no model of the format is involved.
use super::common::*;
use super::robust::PRE;
use crate::ast::*;
use crate::enc::{self, Fault, leb_u};
use crate::engine::*;
use crate::r#gen;
use crate::ops::{self, Sh};
use crate::refdec;
use crate::subject;
use crate::tape::{Tape, mix};
use wadec::decode_errors::DecodeModuleError as E;

/// The encoded entries of a module: by section id, each as it stands in its list.
#[derive(Clone, Default)]
struct Parts {
    lists: [Vec<Vec<u8>>; 14],
    start: Option<Vec<u8>>,
    count: bool,
    customs: Vec<Vec<u8>>,
}

const LISTS: [u8; 12] = [1, 2, 3, 4, 5, 13, 6, 7, 9, 10, 11, 0];

fn skip_leb(b: &[u8]) -> &[u8] {
    let n = b.iter().position(|x| x & 0x80 == 0).unwrap();
    &b[n + 1..]
}

/// The contents of the only section.
fn contents(s: Sec, t: Option<&mut Tape>) -> Vec<u8> {
    let one = [s];
    let b = match t {
        Some(t) => enc::styled(&one, t).bytes,
        None => enc::canonical(&one).bytes,
    };
    skip_leb(&b[9..]).to_vec()
}

fn singles(s: &Sec) -> Vec<Sec> {
    macro_rules! each {
        ($c:path, $x:expr) => { $x.iter().map(|e| $c(vec![e.clone()])).collect() };
    }
    match s {
        Sec::Type(x) => each!(Sec::Type, x),
        Sec::Import(x) => each!(Sec::Import, x),
        Sec::Function(x) => each!(Sec::Function, x),
        Sec::Table(x) => each!(Sec::Table, x),
        Sec::Memory(x) => each!(Sec::Memory, x),
        Sec::Global(x) => each!(Sec::Global, x),
        Sec::Export(x) => each!(Sec::Export, x),
        Sec::Element(x) => each!(Sec::Element, x),
        Sec::Code(x) => each!(Sec::Code, x),
        Sec::Data(x) => each!(Sec::Data, x),
        Sec::Tag(x) => each!(Sec::Tag, x),
        Sec::Custom(..) | Sec::Start(_) | Sec::DataCount(_) => vec![],
    }
}

fn parts(secs: &[Sec], mut t: Option<&mut Tape>) -> Parts {
    let mut p = Parts::default();
    for s in secs {
        match s {
            Sec::Custom(..) => p.customs.push(contents(s.clone(), t.as_deref_mut())),
            Sec::Start(_) => p.start = Some(contents(s.clone(), t.as_deref_mut())),
            Sec::DataCount(_) => p.count = true,
            _ => {
                for one in singles(s) {
                    let b = contents(one, t.as_deref_mut());
                    p.lists[s.id() as usize].push(skip_leb(&b).to_vec());
                }
            }
        }
    }
    p
}

fn section(id: u8, c: &[u8], out: &mut Vec<u8>) {
    out.push(id);
    leb_u(c.len() as u64, out);
    out.extend_from_slice(c);
}

fn list(id: u8, l: &[Vec<u8>], out: &mut Vec<u8>) {
    let mut c = vec![];
    leb_u(l.len() as u64, &mut c);
    for e in l {
        c.extend_from_slice(e);
    }
    section(id, &c, out);
}

/// Write the module that has these parts. `empty` decides about empty sections, and about custom
/// sections whether they go before the next section.
fn write(p: &Parts, mut empty: impl FnMut() -> bool) -> Vec<u8> {
    let mut b = PRE.to_vec();
    let mut customs = p.customs.iter().peekable();
    for id in [1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11] {
        while customs.peek().is_some() && empty() {
            section(0, customs.next().unwrap(), &mut b);
        }
        match id {
            8 => {
                if let Some(s) = &p.start {
                    section(8, s, &mut b);
                }
            }
            12 => {
                if p.count {
                    let mut c = vec![];
                    leb_u(p.lists[11].len() as u64, &mut c);
                    section(12, &c, &mut b);
                }
            }
            _ => {
                let l = &p.lists[id as usize];
                if !l.is_empty() || empty() {
                    list(id, l, &mut b);
                }
            }
        }
    }
    for c in customs {
        section(0, c, &mut b);
    }
    b
}

/// Which entries, of the first or the second module, in which order.
fn plan(a: usize, b: usize, t: &mut Tape) -> Vec<(bool, usize)> {
    let (mut x, mut y) = (0, 0);
    let mut v = vec![];
    let style = t.below(4);
    while x < a || y < b {
        let first = y == b || (x < a && if style == 0 { true } else { t.bool() });
        let e = if first { (false, x) } else { (true, y) };
        if first {
            x += 1;
        } else {
            y += 1;
        }
        match if style == 3 { t.below(8) } else { 2 } {
            0 => {}
            1 => v.extend([e, e]),
            _ => v.push(e),
        }
    }
    v
}

fn bare(mut a: Abst) -> Abst {
    a.kinds.clear();
    a.headers.clear();
    a.data_count = None;
    a
}

fn alone(p: &Parts) -> Result<Option<Abst>, Fail> {
    let b = write(p, || false);
    if refdec::decode(&b).locals > MAX_LOCALS / 4 {
        return Err(Fail::skip());
    }
    Ok(subject::abst(&b).on(&b)?.ok().map(bare))
}

fn compose(p: &Parts, q: &Parts, t: &mut Tape, cx: &mut Ctx) -> Res {
    for x in [p, q] {
        if x.lists[3].len() != x.lists[10].len() {
            cx.label("functions without code");
            return Ok(());
        }
    }
    let (Some(a), Some(b)) = (alone(p)?, alone(q)?) else {
        cx.label("a part is rejected");
        return Ok(());
    };
    let mut m = Parts { count: p.count || q.count || t.chance(1, 6), ..Default::default() };
    let mut want = Abst { version: a.version, ..Default::default() };
    let mut mixed = 0;
    macro_rules! take {
        ($id:expr, $f:ident) => {
            let v = plan(a.$f.len(), b.$f.len(), t);
            if v.iter().any(|e| e.0) && v.iter().any(|e| !e.0) {
                mixed += 1;
            }
            for (second, k) in v {
                want.$f.push(if second { b.$f[k].clone() } else { a.$f[k].clone() });
                let from = if second { q } else { p };
                match $id {
                    0 => m.customs.push(from.customs[k].clone()),
                    3 => {
                        m.lists[3].push(from.lists[3][k].clone());
                        m.lists[10].push(from.lists[10][k].clone());
                    }
                    id => m.lists[id].push(from.lists[id][k].clone()),
                }
            }
        };
    }
    for (x, y) in [(p, &a), (q, &b)] {
        let n = [
            (1, y.types.len()), (2, y.imports.len()), (3, y.funcs.len()), (4, y.tables.len()), (5, y.mems.len()),
            (6, y.globals.len()), (7, y.exports.len()), (9, y.elems.len()), (11, y.datas.len()), (13, y.tags.len()),
        ];
        if let Some((id, k)) = n.iter().find(|(id, n)| x.lists[*id].len() != *n) {
            return fail(format!("{} entries were written to section {id}, {k} came out", x.lists[*id].len()), &write(x, || false));
        }
        if x.customs.len() != y.customs.len() {
            return fail("custom sections are missing", &write(x, || false));
        }
    }
    take!(0, customs);
    take!(1, types);
    take!(2, imports);
    take!(3, funcs);
    take!(4, tables);
    take!(5, mems);
    take!(6, globals);
    take!(7, exports);
    take!(9, elems);
    take!(11, datas);
    take!(13, tags);
    let second = t.bool();
    if second && b.start.is_some() || a.start.is_none() {
        (m.start, want.start) = (q.start.clone(), b.start);
    } else {
        (m.start, want.start) = (p.start.clone(), a.start);
    }
    let c = write(&m, || t.chance(1, 4));
    // repeated entries
    if refdec::decode(&c).locals > MAX_LOCALS {
        return Ok(());
    }
    match subject::abst(&c).on(&c)? {
        Ok(got) => {
            if let Some(d) = diff(&want, &bare(got)) {
                return fail(format!("two modules combined: \"expected\" is what the entry decodes to in its own module: {d}"), &c);
            }
        }
        Err(e) => return fail(format!("two modules are accepted, combined they are rejected: {}", rej(&e)), &c),
    }
    cx.label(match mixed {
        0 => "combined, no section has entries of both",
        1 => "combined, one section has entries of both",
        _ => "combined, sections have entries of both",
    });
    cx.eval_bytes(&c, m.lists.iter().map(|l| l.len()).sum::<usize>() + m.customs.len() >= 2);
    Ok(())
}

// Sequences of instructions -----------------------------------------------------------------------

/// Some instructions, encoded, without an end; and what they decode to.
struct Seq {
    bytes: Vec<u8>,
    ins: Expr,
    data: bool,
}

fn raw_expr(e: &[Ins], t: &mut Tape) -> Vec<u8> {
    let c = contents(Sec::Global(vec![Global { ty: Gt { var: false, vt: I32 }, init: e.to_vec() }]), Some(t));
    let c = &skip_leb(&c)[2..];
    c[..c.len() - 1].to_vec()
}

fn in_global(x: &[u8]) -> Vec<u8> {
    let mut e = vec![0x7F, 0];
    e.extend_from_slice(x);
    e.push(0x0B);
    let mut b = PRE.to_vec();
    list(6, &[e], &mut b);
    b
}

fn seq(e: Expr, t: &mut Tape) -> Result<Option<Seq>, Fail> {
    let bytes = raw_expr(&e, t);
    let b = in_global(&bytes);
    let data = has_data_idx(&e);
    Ok(subject::abst(&b).on(&b)?.ok().and_then(|mut a| {
        let g = a.globals.pop()?;
        Some(Seq { bytes, ins: g.init, data })
    }))
}

fn wrap(kind: u64, x: Vec<u8>, e: Expr) -> (Vec<u8>, Ins) {
    let (head, tail): (&[u8], &[u8]) = match kind {
        0 => (&[2, 0x40], &[0x0B]),
        1 => (&[3, 0x7F], &[0x0B]),
        2 => (&[4, 0x40], &[0x0B]),
        3 => (&[4, 0x05], &[5, 0x0B]),
        4 => (&[4, 0x40, 1, 5], &[0x0B]),
        5 => (&[0x1F, 0x40, 0], &[0x0B]),
        _ => (&[0x1F, 0x7B, 2, 2, 0, 1, 7, 3], &[0x0B]),
    };
    let ins = match kind {
        0 => i(2, Imm::Block(Bt::Empty, e)),
        1 => i(3, Imm::Block(Bt::Val(I32), e)),
        2 => i(4, Imm::If(Bt::Empty, e, None)),
        3 => i(4, Imm::If(Bt::Idx(5), e, Some(vec![]))),
        4 => i(4, Imm::If(Bt::Empty, vec![nop()], Some(e))),
        5 => i(0x1F, Imm::Try(Bt::Empty, vec![], e)),
        _ => i(0x1F, Imm::Try(Bt::Val(Vt::V128), vec![Catch::All(0), Catch::Ref(7, 3)], e)),
    };
    ([head, &x, tail].concat(), ins)
}

/// Sequences one after the other and within one another.
fn grow(pool: &[Seq], depth: usize, t: &mut Tape) -> (Vec<u8>, Expr, bool) {
    let mut b = vec![];
    let mut e = vec![];
    let mut data = false;
    for _ in 0..t.range(0, 3) {
        let s = t.pick(pool);
        b.extend_from_slice(&s.bytes);
        e.extend(s.ins.iter().cloned());
        data |= s.data;
        if depth > 0 && t.chance(2, 3) {
            let (x, y, d) = grow(pool, depth - 1, t);
            let (x, y) = wrap(t.below(7), x, y);
            b.extend_from_slice(&x);
            e.push(y);
            data |= d;
        }
    }
    (b, e, data)
}

/// The module that has the sequence (which ends) at a certain place.
fn at_place(p: usize, x: &[u8], data: bool) -> Vec<u8> {
    let mut b = PRE.to_vec();
    let cat = |h: &[u8], tail: &[u8]| [h, x, tail].concat();
    match p {
        0 | 1 => {
            list(3, &vec![vec![0]; 1 + p], &mut b);
            if data {
                section(12, &[0], &mut b);
            }
            let mut codes = vec![];
            let mut c = vec![];
            let body = cat(if p == 0 { &[0] } else { &[2, 3, 0x7F, 2, 0x7C] }, &[]);
            leb_u(body.len() as u64, &mut c);
            c.extend_from_slice(&body);
            if p == 1 {
                codes.push(vec![2, 0, 0x0B]);
            }
            codes.push(c);
            list(10, &codes, &mut b);
        }
        2 => list(6, &[vec![0x7E, 1, 0x42, 3, 0x0B], cat(&[0x7F, 0], &[]), vec![0x7E, 0, 0x0B]], &mut b),
        3 => list(4, &[vec![0x6F, 0, 1], cat(&[0x40, 0, 0x70, 1, 1, 2], &[])], &mut b),
        4 => list(9, &[cat(&[0], &[1, 9])], &mut b),
        5 => list(9, &[cat(&[5, 0x70, 3, 0xD2, 1, 0x0B], &[0x0B])], &mut b),
        _ => list(11, &[vec![1, 1, 7], cat(&[2, 3], &[2, 8, 9])], &mut b),
    }
    b
}
const SPOTS: usize = 7;

fn found(p: usize, a: &Abst) -> Option<&Expr> {
    match p {
        0 => Some(&a.funcs.first()?.body),
        1 => Some(&a.funcs.get(1)?.body),
        2 => Some(&a.globals.get(1)?.init),
        3 => Some(&a.tables.get(1)?.init),
        4 => match &a.elems.first()?.mode {
            ElemMode::Active(_, e) => Some(e),
            _ => None,
        },
        5 => a.elems.first()?.init.get(1),
        _ => match &a.datas.get(1)?.mode {
            DataMode::Active(_, e) => Some(e),
            _ => None,
        },
    }
}

fn sequences(pool: &[Seq], t: &mut Tape, cx: &mut Ctx) -> Res {
    let depth = t.range(0, 4);
    let (mut x, e, data) = grow(pool, depth, t);
    x.push(0x0B);
    for p in 0..SPOTS {
        let b = at_place(p, &x, data);
        match subject::abst(&b).on(&b)? {
            Ok(a) => {
                if found(p, &a) != Some(&e) {
                    let got = found(p, &a).cloned().unwrap_or_default();
                    let k = (0..e.len()).find(|k| got.get(*k) != Some(&e[*k]));
                    let d = match k {
                        Some(k) => format!(
                            "instruction {k} is {}, on its own it is {}",
                            got.get(k).map_or("missing".into(), |x| clip(&format!("{x:?}"), 400)),
                            clip(&format!("{:?}", e[k]), 400)
                        ),
                        None => format!("{} instructions instead of {}", got.len(), e.len()),
                    };
                    return fail(format!("instructions after and within one another, at place {p}: {d}"), &b);
                }
            }
            Err(err) => {
                return fail(
                    format!("sequences of instructions are accepted on their own; rejected after and within one another, at place {p}: {}", rej(&err)),
                    &b,
                );
            }
        }
        cx.eval_bytes(&b, e.len() > 1);
    }
    cx.label(if depth > 0 { "sequences, nested" } else { "sequences, one after the other" });
    Ok(())
}

// Errors ------------------------------------------------------------------------------------------

/// The chain of an error, unless it is about a size or a relation between sections.
fn local_error(b: &[u8]) -> Result<Option<Vec<String>>, Fail> {
    Ok(match subject::decode(b).on(b)? {
        Ok(_)
        | Err(
            E::SectionSizeMismatch { .. }
            | E::CodeFuncEntriesLenMismatch { .. }
            | E::DataCountMismatch { .. }
            | E::DataCountDatasLenMismatch { .. }
            | E::DataIndexWithoutDataCount
            | E::DecodeSectionHeader(_)
            | E::DecodeDataCount(_),
        ) => None,
        Err(e) => Some(subject::chain(&e)),
    })
}

/// The same text, but for a position that was 0 and is n.
fn moved(a: &str, b: &str, n: usize) -> bool {
    fn tokens(s: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for c in s.chars() {
            match v.last_mut() {
                Some(l) if c.is_ascii_digit() && l.ends_with(|x: char| x.is_ascii_digit()) => l.push(c),
                _ => v.push(c.to_string()),
            }
        }
        v
    }
    let (a, b) = (tokens(a), tokens(b));
    let n = n.to_string();
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || (x == "0" && *y == n))
}

fn malformed_entry(p: &Parts, t: &mut Tape, cx: &mut Ctx) -> Res {
    let ids: Vec<u8> = LISTS.iter().copied().filter(|id| *id != 0 && !p.lists[*id as usize].is_empty()).collect();
    if ids.is_empty() {
        return Ok(());
    }
    let id = *t.pick(&ids);
    let l = &p.lists[id as usize];
    let mut bad = t.pick(l).clone();
    match t.below(4) {
        0 => {
            let n = t.below(bad.len() as u64) as usize;
            bad.truncate(n);
        }
        1 => {
            let k = t.below(bad.len() as u64 + 1) as usize;
            let x = t.byte();
            bad.insert(k, x);
        }
        _ => {
            for _ in 0..t.range(1, 2) {
                let k = t.below(bad.len() as u64) as usize;
                let x = *t.pick(&[0, 1, 0x0B, 0x40, 0x60, 0x7F, 0x80, 0xFF]);
                bad[k] = if t.bool() { x } else { t.byte() };
            }
        }
    }
    let with = |before: &[Vec<u8>], rest: Option<&Parts>| {
        let mut q = rest.cloned().unwrap_or_default();
        let mut l = before.to_vec();
        l.push(bad.clone());
        if id == 10 {
            q.lists[3] = vec![vec![0]; l.len()];
        }
        if id == 3 {
            q.lists[10] = vec![vec![2, 0, 0x0B]; l.len()];
        }
        q.lists[id as usize] = l;
        q
    };
    let one = write(&with(&[], None), || false);
    if refdec::decode(&one).locals > MAX_LOCALS {
        return Ok(());
    }
    let Some(first) = local_error(&one)? else {
        cx.label("entry with a byte changed: not malformed in itself");
        return Ok(());
    };
    let few: Vec<Vec<u8>> = (0..t.range(1, 4)).map(|_| t.pick(l).clone()).collect();
    let many: Vec<Vec<u8>> = (0..t.range(100, 300)).map(|k| l[k % l.len()].clone()).collect();
    let light = l.iter().map(|e| e.len()).sum::<usize>() < 200;
    for (before, rest) in [(&few[..], None), (&few[..0], Some(p)), (&few[..], Some(p)), (if light { &many[..] } else { &few[..] }, None)] {
        let c = write(&with(before, rest), || false);
        if refdec::decode(&c).locals > MAX_LOCALS {
            continue;
        }
        let n = before.len();
        let e = match subject::decode(&c).on(&c)? {
            Ok(_) => return fail("an entry is malformed on its own, and accepted after others", &c),
            Err(e) => subject::chain(&e),
        };
        if e.len() != first.len() || !first.iter().zip(&e).all(|(x, y)| moved(x, y, n)) {
            return fail(
                format!(
                    "a malformed entry after {n} others: {:?}; on its own: {:?}",
                    clip(&e.join(": "), 300),
                    clip(&first.join(": "), 300)
                ),
                &c,
            );
        }
        cx.eval_bytes(&c, true);
    }
    cx.label("malformed entry after others");
    Ok(())
}

/// An instruction with something wrong in it.
fn bad_ins(t: &mut Tape) -> Vec<u8> {
    let (op, sh, _) = *t.pick(&ops::tables().all);
    if matches!(sh, Sh::Block | Sh::If | Sh::Try) || t.chance(1, 6) {
        return match t.below(4) {
            0 => vec![*t.pick(&[0x06, 0x07, 0x09, 0x16, 0x18, 0x19, 0x1D, 0x27, 0xC5, 0xD7, 0xFE, 0xFF])],
            k => {
                let mut v = vec![[0xFB, 0xFC, 0xFD][k as usize - 1]];
                leb_u(200 + t.below(500), &mut v);
                v
            }
        };
    }
    let x = t.u32();
    let e = vec![sample_ins(op, sh, x)];
    let secs = [Sec::Global(vec![Global { ty: Gt { var: false, vt: I32 }, init: e }])];
    let sites = enc::sites(&secs, t);
    let c: Vec<usize> = (0..sites.len()).filter(|k| sites[*k].depth > 0 || sites[*k].path.len() > 1).collect();
    let from = if c.is_empty() { sites.len() - 2 } else { c[0] };
    let k = t.range(from.min(sites.len() - 1), sites.len() - 1);
    let f = match t.below(3) {
        0 => vec![0xFF; 12],
        1 => vec![t.byte()],
        _ => vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80],
    };
    let b = enc::faulty(&secs, t, k, Fault::Replace(f)).bytes;
    let b = skip_leb(&b[9..]);
    let b = skip_leb(b);
    b[2.min(b.len())..b.len().saturating_sub(1).max(2.min(b.len()))].to_vec()
}

fn malformed_instruction(pool: &[Seq], t: &mut Tape, cx: &mut Ctx) -> Res {
    let bad = bad_ins(t);
    if bad.is_empty() || bad.contains(&0x05) || bad.contains(&0x0B) || matches!(bad[0], 2..=4 | 0x1F) {
        cx.label("no malformed instruction");
        return Ok(());
    }
    let root = |b: &[u8]| -> Result<Option<String>, Fail> { Ok(local_error(b)?.and_then(|c| c.last().cloned())) };
    // decided before its end?
    let mut first: Option<String> = None;
    for tail in [0x00, 0x01, 0x0B, 0x80, 0xFF] {
        let mut x = bad.clone();
        x.extend_from_slice(&[tail; 40]);
        let b = at_place(0, &x, true);
        match (root(&b)?, &first) {
            (Some(r), None) => first = Some(r),
            (Some(r), Some(f)) if r == *f => {}
            _ => {
                cx.label("no malformed instruction");
                return Ok(());
            }
        }
    }
    let first = first.unwrap();
    for p in 0..SPOTS {
        let mut x = bad.clone();
        let (y, _, _) = grow(pool, 1, t);
        x.extend_from_slice(&y);
        for _ in 0..t.range(0, 4) {
            let (y, _, _) = grow(pool, 1, t);
            x.splice(0..0, y);
            x = wrap(t.below(7), x, vec![]).0;
        }
        let (y, _, _) = grow(pool, 2, t);
        x.splice(0..0, y);
        x.push(0x0B);
        let b = at_place(p, &x, true);
        match root(&b)? {
            Some(r) if r == first => {}
            Some(r) => {
                return fail(
                    format!("a malformed instruction after and within others, at place {p}: {:?}; on its own: {:?}", clip(&r, 300), clip(&first, 300)),
                    &b,
                );
            }
            None => return fail(format!("a malformed instruction is not reported after and within others, at place {p}"), &b),
        }
        cx.eval_bytes(&b, true);
    }
    cx.label("malformed instruction after and within others");
    Ok(())
}

// Long lists --------------------------------------------------------------------------------------

/// The same few entries over and over, `n` in all.
fn long(id: u8, n: usize, cx: &mut Ctx) -> Res {
    let mut pool = Parts::default();
    let mut heavy = 0;
    for s in templates() {
        let p = parts(s, None);
        for (x, y) in pool.lists.iter_mut().zip(p.lists) {
            for e in y {
                if heavy < 4000 || e.len() < 12 {
                    heavy += e.len();
                    x.push(e);
                }
            }
        }
    }
    let from = if id == 10 { pool.lists[10].clone() } else { pool.lists[id as usize].clone() };
    let of = |l: Vec<Vec<u8>>| {
        let mut p = Parts::default();
        if id == 10 {
            p.lists[3] = (0..l.len()).map(|k| vec![(k % 100) as u8]).collect();
        }
        p.count = true;
        p.lists[id as usize] = l;
        write(&p, || false)
    };
    // a few in each form, small
    let small: Vec<Vec<u8>> = from.into_iter().filter(|e| e.len() < 40).take(37).collect();
    if small.is_empty() {
        return Ok(());
    }
    let k = small.len();
    let b = of(small.clone());
    let a = match subject::abst(&b).on(&b)? {
        Ok(a) => a,
        Err(_) => return Ok(()),
    };
    let c = of((0..n).map(|j| small[j % k].clone()).collect());
    let got = match subject::abst(&c).on(&c)? {
        Ok(g) => g,
        Err(e) => return fail(format!("{n} entries in section {id}, each accepted on its own: {}", rej(&e)), &c),
    };
    macro_rules! same {
        ($f:ident) => {
            if a.$f.len() != k && a.$f.len() != 0 {
                return Ok(());
            }
            if !a.$f.is_empty() {
                if got.$f.len() != n {
                    return fail(format!("{n} entries in section {id}, {} come out", got.$f.len()), &c);
                }
                for (j, x) in got.$f.iter().enumerate() {
                    if *x != a.$f[j % k] {
                        return fail(
                            format!(
                                "{n} entries in section {id}: entry {j} is {}, among few it is {}",
                                clip(&format!("{x:?}"), 300),
                                clip(&format!("{:?}", a.$f[j % k]), 300)
                            ),
                            &c,
                        );
                    }
                }
                cx.label("long lists");
                cx.eval_bytes(&c, true);
            }
        };
    }
    same!(types);
    same!(imports);
    same!(tables);
    same!(mems);
    same!(globals);
    same!(exports);
    same!(elems);
    same!(datas);
    same!(tags);
    if id == 10 {
        for (j, x) in got.funcs.iter().enumerate() {
            let y = &a.funcs[j % k];
            if x.body != y.body || x.locals != y.locals || x.ty != (j % 100) as u32 {
                return fail(format!("{n} functions: function {j} is {}", clip(&format!("{x:?}"), 300)), &c);
            }
        }
        cx.label("long lists");
        cx.eval_bytes(&c, true);
    }
    Ok(())
}

pub static C31: Check = Check {
    id: "C31",
    level: "exploration",
    rule: "two or more entries, sequences of instructions, or a malformed part and others are put together (distinct by input)",
    assumptions: &[
        "what the parts decode to is taken from the decoder itself; C03 to C05 compare that with the format",
        "a malformed entry is compared as the last one of its list, a malformed instruction if its fault shows before its end",
    ],
    sweep: |_| {
        let n = templates().len() as u64;
        n * n
    },
    run_sweep: |k, cx| {
        let n = templates().len() as u64;
        let p = parts(&templates()[(k / n) as usize], None);
        let q = parts(&templates()[(k % n) as usize], None);
        let mut t = Tape::random(mix(&[k, 31]));
        compose(&p, &q, &mut t, cx)?;
        malformed_entry(&p, &mut t, cx)
    },
    gens: |t| if t == Tier::Quick { 250_000 } else { 8_000_000 },
    run_gen: |t, cx| {
        let prof = if t.chance(1, 30) { r#gen::medium() } else { r#gen::small() };
        match t.below(8) {
            0..=2 => {
                let (a, b) = (r#gen::module(t, prof.clone()), r#gen::module(t, prof));
                let p = parts(&a, Some(t));
                let q = parts(&b, Some(t));
                compose(&p, &q, t, cx)?;
                malformed_entry(&p, t, cx)?;
                cx.sample("two modules", || format!("{} and {}", r#gen::describe(&a), r#gen::describe(&b)));
            }
            3 => {
                let a = r#gen::module(t, prof);
                let p = parts(&a, Some(t));
                for _ in 0..4 {
                    malformed_entry(&p, t, cx)?;
                }
            }
            k => {
                let mut pool = vec![];
                for _ in 0..t.range(1, 4) {
                    let e = r#gen::Gen::new(t, prof.clone()).expr();
                    if let Some(s) = seq(e, t)? {
                        pool.push(s);
                    } else {
                        cx.label("a part is rejected");
                    }
                }
                if pool.is_empty() {
                    return Ok(());
                }
                if k == 4 {
                    for _ in 0..3 {
                        malformed_instruction(&pool, t, cx)?;
                    }
                } else {
                    sequences(&pool, t, cx)?;
                    cx.sample("sequences", || pool.iter().map(|s| clip(&format!("{:?}", s.ins), 200)).collect::<Vec<_>>().join(" and "));
                }
            }
        }
        Ok(())
    },
    post: |cx| {
        for id in [1, 2, 4, 5, 13, 6, 7, 9, 10, 11] {
            for n in [40, 1025, 65_537, 140_000] {
                long(id, n, cx)?;
            }
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};
