//! C15 where an error occurred, C16 what it was, C27 what was expected instead.
use super::accept::leb_kind;
use super::common::*;
use super::ints::{coded, defined, plain, sites};
use super::robust::PRE;
use crate::ast::*;
use crate::enc::{self, Fault, K, Site, leb_u, max_len, pad_leb, valid};
use crate::engine::*;
use crate::refdec;
use crate::subject;
use crate::tape::Tape;
use std::collections::HashMap;
use std::error::Error;
use wadec::decode_errors::{DecodeModuleError as E, *};

// ------------------------------------------------------------------------------------------------
// single faults

#[derive(Clone, Debug, PartialEq)]
enum What {
    /// a byte that is no code there
    Byte(u8),
    /// a number that is no code there
    Number(u64),
    TooLong,
    TooLarge,
    Eof,
    Utf8,
}

/// The fault that writes `f` in place of the field, if that is a fault by itself.
fn classify(s: &Site, f: &[u8]) -> Option<What> {
    if let K::Name(n) = s.kind {
        return (f.len() == n && !refdec::utf8(f)).then_some(What::Utf8);
    }
    if let Some((bits, signed)) = leb_kind(s.kind) {
        return match refdec::leb(f, bits, signed)? {
            Err("too long") => Some(What::TooLong),
            Err(_) => Some(What::TooLarge),
            Ok((v, n)) if n == f.len() => match s.kind {
                K::SubOp(_) | K::ElemFlags | K::DataFlags | K::MemFlags => {
                    (!defined(s.kind, v as u64)).then_some(What::Number(v as u64))
                }
                _ => None,
            },
            Ok(_) => None,
        };
    }
    if coded(s.kind) && f.len() == 1 && !valid(s.kind, f[0]) {
        return Some(What::Byte(f[0]));
    }
    // type indices
    if matches!(s.kind, K::HeapType | K::BlockType) && f[0] & 0x80 != 0 {
        return match refdec::leb(f, 33, true)? {
            Err("too long") => Some(What::TooLong),
            Err(_) => Some(What::TooLarge),
            Ok((v, n)) if n == f.len() && v < 0 => Some(What::Number(v as u64)),
            Ok(_) => None,
        };
    }
    None
}

/// Some faulty contents for a field.
fn some_faulty(s: &Site, t: &(u64, u64, u8, u32, usize)) -> Option<Vec<u8>> {
    let (w, how, x, v, n) = *t;
    if let K::Name(len) = s.kind {
        if len == 0 {
            return None;
        }
        let mut f = s.bytes.clone();
        let at = (w % len as u64) as usize;
        f[at] = match how % 4 {
            0 => 0xFF,
            1 => 0x80 | x,
            2 => 0xC0 | (x & 0x3F),
            _ => x,
        };
        return Some(f);
    }
    if let Some((bits, signed)) = leb_kind(s.kind) {
        let limited = matches!(s.kind, K::SubOp(_) | K::ElemFlags | K::DataFlags | K::MemFlags);
        if limited && how % 2 == 0 {
            let mut f = vec![];
            leb_u(u64::from(v), &mut f);
            pad_leb(&mut f, n.min(5), false);
            return Some(f);
        }
        let max = max_len(bits);
        let mut f = s.bytes.clone();
        pad_leb(&mut f, max, signed);
        if how % 3 == 0 {
            // too large
            *f.last_mut().unwrap() = x & 0x7F;
        } else {
            *f.last_mut().unwrap() |= 0x80;
            for _ in 0..n % 3 {
                f.push(x | 0x80);
            }
        }
        return Some(f);
    }
    if coded(s.kind) {
        if matches!(s.kind, K::HeapType | K::BlockType) && how % 3 == 0 {
            let mut f = vec![x & 0x3F | 0x40];
            pad_leb(&mut f, 2 + n % 5, true);
            return Some(f);
        }
        return Some(vec![x]);
    }
    None
}

/// The position numbers the chain of causes mentions, in order.
fn positions(chain: &[String]) -> Vec<u64> {
    let mut v = vec![];
    for s in chain {
        let mut rest = &s[..];
        while let Some(at) = rest.find("position ") {
            rest = &rest[at + 9..];
            let d: String = rest.chars().take_while(char::is_ascii_digit).collect();
            if let Ok(n) = d.parse() {
                v.push(n);
            }
        }
    }
    v
}

/// The section an error is about.
fn section(e: &E) -> Option<u8> {
    Some(match e {
        E::DecodeCustomSection(_) => 0,
        E::DecodeTypeSection(_) => 1,
        E::DecodeImportSection(_) => 2,
        E::DecodeFunctionSection(_) => 3,
        E::DecodeTableSection(_) => 4,
        E::DecodeMemorySection(_) => 5,
        E::DecodeGlobalSection(_) => 6,
        E::DecodeExportSection(_) => 7,
        E::DecodeStartSection(_) => 8,
        E::DecodeElementSection(_) => 9,
        E::DecodeCodeSection(_) => 10,
        E::DecodeDataSection(_) => 11,
        E::DecodeDatacountSection(_) => 12,
        E::DecodeTagSection(_) => 13,
        _ => return None,
    })
}

/// Does the text of the error's head name the section it is about?
fn names_section(e: &E, id: u8) -> bool {
    let s = e.to_string().to_lowercase().replace(' ', "");
    let own: &[&str] = match id {
        12 => &["datacount", "datasegmentcount"],
        _ => &[],
    };
    let n = sec_name(id).to_lowercase();
    s.contains(&n) || own.iter().any(|o| s.contains(o))
}

fn check_where(b: &[u8], s: &Site, what: &What) -> Res {
    let e = reject(b, &format!("{what:?} at {:?} in {}", s.kind, sec_name(s.id)))?;
    if section(&e) != Some(s.id) || !names_section(&e, s.id) {
        return fail(
            format!("the fault ({what:?} at {:?}) is in the {} section; the error is: {}", s.kind, sec_name(s.id), rej(&e)),
            b,
        );
    }
    let (got, want) = (positions(&subject::chain(&e)), s.path.iter().map(|x| u64::from(*x)).collect::<Vec<_>>());
    if got != want {
        return fail(
            format!("the fault ({what:?} at {:?}) is at {want:?} in the {} section; the error gives {got:?}: {}", s.kind, sec_name(s.id), rej(&e)),
            b,
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// what a text states

/// The numbers of a text: as written in hex or decimal.
pub fn numbers(s: &str) -> Vec<i128> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut k = 0;
    while k < c.len() {
        if k > 0 && c[k - 1].is_ascii_alphanumeric() {
            k += 1;
            continue;
        }
        if c[k] == '0' && k + 1 < c.len() && matches!(c[k + 1], 'x' | 'X') {
            let d: String = c[k + 2..].iter().take_while(|x| x.is_ascii_hexdigit()).collect();
            if let Ok(n) = i128::from_str_radix(&d, 16) {
                v.push(n);
            }
            k += 2 + d.len();
        } else if c[k].is_ascii_digit() {
            let d: String = c[k..].iter().take_while(|x| x.is_ascii_digit()).collect();
            if let Ok(n) = d.parse::<i128>() {
                let neg = k > 0 && c[k - 1] == '-' && (k < 2 || !c[k - 2].is_ascii_alphanumeric());
                v.push(if neg { -n } else { n });
            }
            k += d.len();
        } else {
            k += 1;
        }
    }
    v
}

/// Split a text "unexpected ...: expected THESE; got THIS" into the numbers it enumerates and the
/// text about what was found.
fn expectation(s: &str) -> Option<(Vec<i128>, String)> {
    let l = s.to_lowercase();
    // not the one of "unexpected"
    let mut at = None;
    let mut from = 0;
    while let Some(k) = l[from..].find("expected") {
        let k = from + k;
        if !l[..k].ends_with("un") {
            at = Some(k);
            break;
        }
        from = k + 8;
    }
    let at = at?;
    let got = ["; got", ", got", "; found", ", found", " but got"].iter().filter_map(|g| l[at..].find(g)).min()? + at;
    let seg = &s[at..got];
    let hexes = hexes(seg);
    let list = if hexes.is_empty() {
        let n = numbers(seg);
        match (&n[..], seg.contains("range")) {
            ([a, b], true) => (*a..=*b).collect(),
            _ => n,
        }
    } else {
        hexes
    };
    Some((list, s[got..].to_string()))
}

fn hexes(s: &str) -> Vec<i128> {
    let mut v = vec![];
    for p in s.split("0x").skip(1) {
        let d: String = p.chars().take_while(char::is_ascii_hexdigit).collect();
        if let Ok(n) = i128::from_str_radix(&d, 16) {
            v.push(n);
        }
    }
    v
}

/// Without the strings.
fn unquoted(s: &str) -> String {
    let (mut out, mut inside, mut esc) = (String::new(), false, false);
    for c in s.chars() {
        match (inside, c) {
            (true, _) if esc => esc = false,
            (true, '\\') => esc = true,
            (_, '"') => inside = !inside,
            (false, _) => out.push(c),
            _ => {}
        }
    }
    out
}

/// The bytes that are enumerated with a name in brackets, and the last word of the name.
fn named(s: &str) -> Vec<(i128, String)> {
    let mut v = vec![];
    for p in s.split([',', ':', ';']) {
        let Some((a, b)) = p.split_once('(') else { continue };
        let Some(num) = a.split_whitespace().last() else { continue };
        let x = match num.strip_prefix("0x") {
            Some(h) => i128::from_str_radix(h, 16),
            None => num.parse(),
        };
        let w = b.trim_end_matches(|c: char| !c.is_alphanumeric()).rsplit(|c: char| !c.is_alphanumeric()).next().unwrap_or("");
        if let (Ok(x), false) = (x, w.is_empty()) {
            v.push((x, w.to_lowercase()));
        }
    }
    v
}

/// The end of the chain of causes.
fn root<'a>(e: &'a (dyn Error + 'static)) -> &'a (dyn Error + 'static) {
    let mut cur = e;
    while let Some(s) = cur.source() {
        cur = s;
    }
    cur
}

fn states(what: &What, kind: K, e: &E) -> bool {
    let r = root(e);
    let text = r.to_string();
    let l = text.to_lowercase();
    let found = expectation(&text).map(|x| x.1).unwrap_or(text.clone());
    match what {
        What::Byte(b) => {
            let n = numbers(&found);
            // as a signed integer of 7 bits, where one can stand
            let signed = i128::from(*b) - 0x80;
            n.contains(&i128::from(*b))
                || (matches!(kind, K::HeapType | K::BlockType) && *b < 0x80 && n.contains(&signed))
        }
        What::Number(v) => {
            let n = numbers(&found);
            n.contains(&i128::from(*v)) || n.contains(&i128::from(*v as i64))
        }
        What::TooLong => l.contains("long"),
        What::TooLarge => l.contains("large") || l.contains("sign") || l.contains("range") || l.contains("overflow"),
        What::Eof => eof(r),
        What::Utf8 => l.contains("utf-8") || l.contains("utf8"),
    }
}

fn eof(r: &(dyn Error + 'static)) -> bool {
    let l = r.to_string().to_lowercase();
    r.downcast_ref::<std::io::Error>().is_some_and(|e| e.kind() == std::io::ErrorKind::UnexpectedEof)
        || l.contains("fill whole buffer")
        || l.contains("end of file")
        || l.contains("unexpected end")
}

fn check_what(b: &[u8], s: &Site, what: &What) -> Res {
    let e = reject(b, &format!("{what:?} at {:?} in {}", s.kind, sec_name(s.id)))?;
    if !states(what, s.kind, &e) {
        return fail(
            format!("the error for {what:?} at {:?} in {} ends at {:?}: {}", s.kind, sec_name(s.id), root(&e).to_string(), rej(&e)),
            b,
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// The faults to try at a field of a template.
fn faults(s: &Site, full: bool) -> Vec<(Fault, What)> {
    let mut v = vec![];
    let mut put = |f: Vec<u8>| {
        if let Some(w) = classify(s, &f) {
            v.push((Fault::Replace(f), w));
        }
    };
    match s.kind {
        K::Name(n) if n > 0 => {
            for x in [0x80u8, 0xC0, 0xED, 0xF5, 0xFF] {
                for at in [0, n - 1] {
                    let mut f = s.bytes.clone();
                    f[at] = x;
                    put(f);
                }
            }
        }
        k if leb_kind(k).is_some() => {
            let (bits, signed) = leb_kind(k).unwrap();
            let max = max_len(bits);
            for c in [0x80u8, 0xFF, 0xA5] {
                for last in if full { (0..=255u8).collect::<Vec<_>>() } else { vec![0, 1, 4, 7, 8, 0x0F, 0x10, 0x20, 0x3F, 0x40, 0x70, 0x78, 0x7F, 0x80, 0xFF] } {
                    let mut f = vec![c; max - 1];
                    f.push(last);
                    put(f);
                }
                for n in max + 1..max + 4 {
                    put(vec![c; n]);
                }
            }
            let mut f = s.bytes.clone();
            pad_leb(&mut f, max + 1, signed);
            put(f);
            if matches!(k, K::SubOp(_) | K::ElemFlags | K::DataFlags | K::MemFlags) {
                for x in (0..600).chain((7..32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1])).chain([0xFFFF_FFFF, 0x8765_4321]) {
                    let mut f = vec![];
                    leb_u(x, &mut f);
                    put(f);
                }
            }
        }
        k if coded(k) => {
            for x in 0..=255u8 {
                put(vec![x]);
            }
            if matches!(k, K::HeapType | K::BlockType) {
                for x in 0x40..0x80u8 {
                    for n in 2..=7 {
                        let mut f = vec![x];
                        pad_leb(&mut f, n, true);
                        put(f);
                    }
                }
                for x in [-65i64, -100, -128, -8192, -100_000, -(1 << 31), -(1 << 32)] {
                    let mut f = vec![];
                    enc::leb_s(x, &mut f);
                    put(f);
                }
                put(vec![0x80, 0x80, 0x80, 0x80, 0x10]);
                put(vec![0xFF, 0xFF, 0xFF, 0xFF, 0x2F]);
            }
        }
        _ => {}
    }
    let n = s.bytes.len();
    for k in (0..n).take(20).chain((n > 20).then(|| n - 1)) {
        v.push((Fault::CutAt(s.bytes[..k].to_vec()), What::Eof));
    }
    v
}

fn label(w: &What) -> &'static str {
    match w {
        What::Byte(_) => "undefined byte",
        What::Number(_) => "undefined number",
        What::TooLong => "integer too long",
        What::TooLarge => "integer too large",
        What::Eof => "early end",
        What::Utf8 => "name not UTF-8",
    }
}

/// Go through the faults of the template's field.
fn sweep_site(x: u64, inner_only: bool, cx: &mut Ctx, check: fn(&[u8], &Site, &What) -> Res) -> Res {
    let (m, k, s) = &sites()[x as usize];
    if inner_only && !s.inner {
        return Ok(());
    }
    for (f, w) in faults(s, cx.tier == Tier::Thorough) {
        let cut_outer = !s.inner && matches!(f, Fault::CutAt(_));
        if cut_outer {
            continue;
        }
        let b = enc::faulty(&templates()[*m], &mut plain(), *k, f).bytes;
        check(&b, s, &w)?;
        cx.eval_bytes(&b, true);
        cx.label(label(&w));
        cx.sample(&format!("{} at {:?}", label(&w), s.kind).split('(').next().unwrap().to_string(), || {
            format!("{w:?} in {}, at {:?}: {}", sec_name(s.id), s.path, hex(&b))
        });
    }
    Ok(())
}

fn gen_fault(t: &mut Tape, inner_only: bool) -> Option<(Vec<u8>, Site, What)> {
    let secs = module(t);
    let (w, cut) = (t.below(1 << 32), t.chance(1, 3));
    let d = (t.below(1 << 32), t.below(12), t.byte(), t.u32(), t.upto(6));
    let deep = t.bool();
    let all = enc::sites(&secs, t);
    let c: Vec<usize> = (0..all.len())
        .filter(|i| {
            let s = &all[*i];
            (s.inner || !(inner_only || cut)) && (!deep || s.path.len() > 1 || s.path.iter().any(|x| *x > 9))
        })
        .collect();
    if c.is_empty() {
        return None;
    }
    let k = c[(w % c.len() as u64) as usize];
    let s = all[k].clone();
    let (f, what) = if cut {
        if s.bytes.is_empty() {
            return None;
        }
        (Fault::CutAt(s.bytes[..(d.0 % s.bytes.len() as u64) as usize].to_vec()), What::Eof)
    } else {
        let f = some_faulty(&s, &d)?;
        let what = classify(&s, &f)?;
        (Fault::Replace(f), what)
    };
    let b = enc::faulty(&secs, t, k, f).bytes;
    Some((b, s, what))
}

fn gen_case(t: &mut Tape, cx: &mut Ctx, inner_only: bool, check: fn(&[u8], &Site, &What) -> Res) -> Res {
    let Some((b, s, what)) = gen_fault(t, inner_only) else { return Ok(()) };
    check(&b, &s, &what)?;
    cx.eval_bytes(&b, true);
    cx.label(&format!("random, {} lists deep", s.path.len()));
    cx.sample(&format!("random {}", label(&what)), || format!("{what:?} at {:?} in {}, at {:?}", s.kind, sec_name(s.id), s.path));
    Ok(())
}

/// One section with a list of `n` entries, or with an entry that has such a list.
fn long_lists(n: usize) -> Vec<Vec<Sec>> {
    let lim = Lim { a64: false, min: 1, max: None };
    let imp = |k: usize| Imp { module: vec![], item: vec![], ext: Ext::Func(k as u32) };
    let elem = |init| Elem { rt: Rt { null: true, ht: Ht::Abs(Abs(0x6F)) }, init, mode: ElemMode::Passive };
    let fun = |p, r| Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Func(p, r) }]);
    let ft = Ft { var: true, st: St::I8 };
    let code = |l, b| Code { locals: l, body: b };
    let one = |c: Code| vec![Sec::Function(vec![0; 2]), Sec::Code(vec![code(vec![], vec![]), c])];
    vec![
        vec![Sec::Type(vec![fun(vec![], vec![]); n])],
        vec![Sec::Type(vec![fun(vec![], vec![]), fun(vec![I32; n], vec![]), fun(vec![], vec![])])],
        vec![Sec::Type(vec![fun(vec![], vec![I32; n])])],
        vec![Sec::Type(vec![Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Struct(vec![ft; n]) }])])],
        vec![Sec::Type(vec![Rec(vec![Sub { fin: true, sup: vec![1; n], ct: Ct::Array(ft) }])])],
        vec![Sec::Type(vec![Rec(vec![Sub { fin: true, sup: vec![], ct: Ct::Array(ft) }; n])])],
        vec![Sec::Import((0..n).map(imp).collect())],
        vec![Sec::Function(vec![1; n])],
        vec![Sec::Table(vec![Table { ty: Tt { rt: Rt { null: true, ht: Ht::Abs(Abs(0x70)) }, lim }, init: vec![i(0xD0, Imm::Ht(Ht::Abs(Abs(0x70))))] }; n])],
        vec![Sec::Memory(vec![lim; n])],
        vec![Sec::Tag(vec![1; n])],
        vec![Sec::Global(vec![Global { ty: Gt { var: false, vt: I32 }, init: vec![] }; n])],
        vec![Sec::Export(vec![Exp { name: vec![], kind: 1, idx: 2 }; n])],
        vec![Sec::Element(vec![elem(vec![]); n])],
        vec![Sec::Element(vec![elem(vec![]), elem(vec![vec![]; n])])],
        vec![Sec::Element(vec![Elem { rt: Rt { null: true, ht: Ht::Abs(Abs(0x70)) }, init: vec![vec![i(0xD2, Imm::I1(1))]; n], mode: ElemMode::Declare }])],
        vec![Sec::Function(vec![0; n]), Sec::Code(vec![code(vec![], vec![]); n])],
        one(code(vec![(1, I32); n], vec![])),
        one(code(vec![], vec![i(0x0E, Imm::BrTable(vec![1; n], 0))])),
        one(code(vec![], vec![i(0x1C, Imm::SelT(vec![I32; n]))])),
        one(code(vec![], vec![i(0x1F, Imm::Try(Bt::Empty, vec![Catch::All(1); n], vec![]))])),
        vec![Sec::DataCount(n as u32), Sec::Data(vec![Data { init: vec![], mode: DataMode::Passive }; n])],
    ]
}

fn sweep_long(x: usize, cx: &mut Ctx, check: fn(&[u8], &Site, &What) -> Res) -> Res {
    let sizes: &[usize] = if cx.tier == Tier::Quick { &[300, 1100, 66_000] } else { &[130, 300, 1100, 5000, 33_000, 66_000, 140_000] };
    for n in sizes {
        let secs = &long_lists(*n)[x];
        let all = enc::sites(secs, &plain());
        let marks = [127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, *n as u32 - 1];
        let mut done = std::collections::HashSet::new();
        for (k, s) in all.iter().enumerate() {
            let Some(last) = s.path.last() else { continue };
            if !marks.contains(last) || !s.inner || s.bytes.is_empty() || !done.insert((s.path.clone(), format!("{:?}", s.kind))) {
                continue;
            }
            let mut fs = vec![(Fault::CutAt(vec![]), What::Eof)];
            let f = if leb_kind(s.kind).is_some() { vec![0xFF; 11] } else { vec![0x67] };
            if let Some(w) = classify(s, &f) {
                fs.push((Fault::Replace(f), w));
            }
            for (f, w) in fs {
                let b = enc::faulty(secs, &mut plain(), k, f).bytes;
                check(&b, s, &w)?;
                cx.eval_bytes(&b, true);
                cx.label("entry of a long list");
            }
        }
    }
    Ok(())
}
const LONG: u64 = 22;

pub static C15: Check = Check {
    id: "C15",
    level: "exploration",
    rule: "one field within a section is made malformed (distinct by input)",
    assumptions: &["positions are those that the texts of the chain of causes give after the word position"],
    sweep: |_| sites().len() as u64 + LONG,
    run_sweep: |x, cx| {
        if x < LONG { sweep_long(x as usize, cx, check_where) } else { sweep_site(x - LONG, true, cx, check_where) }
    },
    gens: |t| if t == Tier::Quick { 300_000 } else { 15_000_000 },
    run_gen: |t, cx| gen_case(t, cx, true, check_where),
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// Does the root cause state all of these numbers?
fn all_numbers(e: &E, want: &[i128]) -> bool {
    let dbg = format!("{:?}", root(e));
    let (a, b) = (numbers(&root(e).to_string()), numbers(&dbg));
    want.iter().all(|w| a.contains(w) || b.contains(w))
}

fn secs_of(t: &mut Tape) -> (Vec<Sec>, enc::Encoded) {
    let secs = module(t);
    let e = enc::styled(&secs, t);
    (secs, e)
}

/// Faults of sizes, counts, order.
fn gen_mismatch(t: &mut Tape, cx: &mut Ctx) -> Res {
    let kind = t.below(7);
    match kind {
        // bytes left over in a section
        0 | 1 => {
            let (secs, e) = secs_of(t);
            let c: Vec<usize> = (0..secs.len()).filter(|k| secs[*k].id() != 0).collect();
            if c.is_empty() {
                return Ok(());
            }
            let k = *t.pick(&c);
            let n = 1 + if t.chance(1, 8) { t.upto(3000) } else { t.upto(20) };
            let junk: Vec<u8> = (0..n).map(|_| t.byte()).collect();
            let (start, at, end) = e.spans[k];
            let mut b = e.bytes[..start + 1].to_vec();
            leb_u((end - at + n) as u64, &mut b);
            b.extend_from_slice(&e.bytes[at..end]);
            b.extend_from_slice(&junk);
            b.extend_from_slice(&e.bytes[end..]);
            let err = reject(&b, "section size")?;
            let (d, g) = ((end - at + n) as u32, (end - at) as u64);
            // a section that is followed by nothing else to complain about
            match &err {
                E::SectionSizeMismatch { section_kind, declared, got }
                    if crate::conv::kind(*section_kind) == secs[k].id() && *declared == d && *got == g
                        && all_numbers(&err, &[i128::from(d), i128::from(g)]) => {}
                _ => return fail(format!("the {} section declares {d} bytes and has {g}; the error is: {}", sec_name(secs[k].id()), rej(&err)), &b),
            }
            cx.eval_bytes(&b, true);
            cx.label("section size");
            cx.sample("section size", || rej(&err));
        }
        // bytes left over in a code entry
        2 => {
            let mut secs = module(t);
            let Some(at) = secs.iter().position(|s| s.id() == 10) else { return Ok(()) };
            let Sec::Code(c) = &secs[at] else { unreachable!() };
            if c.is_empty() {
                return Ok(());
            }
            let f = t.below(c.len() as u64) as usize;
            let n = 1 + t.upto(40);
            // write the section by hand
            let bodies: Vec<Vec<u8>> = c.iter().map(enc::one_code).collect();
            let mut x = vec![];
            leb_u(c.len() as u64, &mut x);
            for (k, body) in bodies.iter().enumerate() {
                let extra = if k == f { n } else { 0 };
                leb_u((body.len() + extra) as u64, &mut x);
                x.extend_from_slice(body);
                x.extend((0..extra).map(|_| t.byte()));
            }
            secs.truncate(at);
            let mut b = enc::canonical(&secs).bytes;
            b.push(10);
            leb_u(x.len() as u64, &mut b);
            b.extend(x);
            let err = reject(&b, "size of a code entry")?;
            let consumed = bodies[f].len() as i128;
            let want = [consumed + n as i128, consumed, n as i128];
            if section(&err) != Some(10) || positions(&subject::chain(&err)) != [f as u64] || !all_numbers(&err, &want) {
                return fail(format!("code entry {f} declares {} bytes and has {}; the error is: {}", want[0], want[1], rej(&err)), &b);
            }
            cx.eval_bytes(&b, true);
            cx.label("size of a code entry");
            cx.sample("size of a code entry", || rej(&err));
        }
        // functions and bodies
        3 => {
            let mut secs: Vec<Sec> = module(t).into_iter().filter(|s| !matches!(s.id(), 11 | 12)).collect();
            for s in &mut secs {
                if let Sec::Code(c) = s {
                    c.retain(|c| !has_data_idx(&c.body));
                }
            }
            let most = if t.chance(1, 6) { 300 } else { 4 };
            let extra = 1 + t.upto(most);
            let more = t.bool();
            let (mut nf, mut nc) = (0, 0);
            for s in &mut secs {
                match s {
                    Sec::Function(f) => nf = f.len(),
                    Sec::Code(c) => nc = c.len(),
                    _ => {}
                }
            }
            let top = nf.max(nc);
            let (want_f, want_c) = if more { (top + extra, top) } else { (top, top + extra) };
            let mut b = vec![];
            let mut v = vec![];
            let (mut fun, mut code) = (vec![3u32; want_f], vec![Code { locals: vec![], body: vec![] }; want_c]);
            for s in secs {
                match s {
                    Sec::Function(f) => fun[..f.len().min(want_f)].copy_from_slice(&f[..f.len().min(want_f)]),
                    Sec::Code(c) => {
                        for (a, c) in code.iter_mut().zip(c) {
                            *a = c;
                        }
                    }
                    s => v.push(s),
                }
            }
            let at = |v: &Vec<Sec>, id: u8| v.iter().position(|s| s.id() != 0 && rank(s.id()) > rank(id)).unwrap_or(v.len());
            if want_f > 0 || t.bool() {
                v.insert(at(&v, 3), Sec::Function(fun));
            }
            if want_c > 0 || t.bool() {
                v.insert(at(&v, 10), Sec::Code(code));
            }
            b.extend(enc::styled(&v, t).bytes);
            let err = reject(&b, "functions and bodies")?;
            match &err {
                E::CodeFuncEntriesLenMismatch { codes_len, funcs_len } if *codes_len == want_c && *funcs_len == want_f => {}
                _ => return fail(format!("{want_f} functions, {want_c} bodies; the error is: {} ({err:?})", rej(&err)), &b),
            }
            cx.eval_bytes(&b, true);
            cx.label("functions and bodies");
        }
        // data count
        4 => {
            let mut v: Vec<Sec> = module(t).into_iter().filter(|s| !matches!(s.id(), 10 | 3)).collect();
            let n = v.iter().find_map(|s| if let Sec::Data(d) = s { Some(d.len()) } else { None });
            let c = t.u32();
            if c as usize == n.unwrap_or(0) {
                return Ok(());
            }
            v.retain(|s| s.id() != 12);
            let at = v.iter().position(|s| s.id() == 11).unwrap_or(v.len());
            v.insert(at, Sec::DataCount(c));
            let b = enc::styled(&v, t).bytes;
            let err = reject(&b, "data count")?;
            let d = n.unwrap_or(0);
            match &err {
                E::DataCountMismatch { datas_len, data_count } | E::DataCountDatasLenMismatch { datas_len, data_count }
                    if *datas_len == d && *data_count == c && all_numbers(&err, &[i128::from(c), d as i128]) => {}
                _ => return fail(format!("data count {c}, {d} data segments; the error is: {} ({err:?})", rej(&err)), &b),
            }
            cx.eval_bytes(&b, true);
            cx.label("data count");
        }
        // order of sections
        5 => {
            let mut v = module(t);
            if v.len() < 2 {
                return Ok(());
            }
            let (x, y) = (t.below(v.len() as u64) as usize, t.below(v.len() as u64) as usize);
            let s = v[x].clone();
            if t.bool() {
                v.insert(y, s);
            } else {
                v.swap(x, y);
            }
            let e = enc::styled(&v, t);
            // the first section that is out of place
            let mut prev: Option<u8> = None;
            let mut bad = None;
            for s in &v {
                let id = s.id();
                if id == 0 {
                    continue;
                }
                if let Some(p) = prev
                    && rank(id) <= rank(p)
                {
                    bad = Some((id, p));
                    break;
                }
                prev = Some(id);
            }
            let Some((id, p)) = bad else { return Ok(()) };
            let err = reject(&e.bytes, "order of sections")?;
            let k = crate::conv::kind;
            let ok = match &err {
                E::SectionOutOfOrder { current, previous } => k(*current) == id && k(*previous) == p && id != p,
                E::DuplicateSection(s) => k(*s) == id && id == p,
                // a count may disagree before
                E::CodeFuncEntriesLenMismatch { .. } | E::DataCountMismatch { .. } => true,
                _ => false,
            };
            if !ok {
                return fail(format!("{} after {}; the error is: {}", sec_name(id), sec_name(p), rej(&err)), &e.bytes);
            }
            cx.eval_bytes(&e.bytes, true);
            cx.label("order of sections");
        }
        // preamble
        _ => {
            let (_, e) = secs_of(t);
            let mut b = e.bytes;
            let n = t.range(1, 8);
            for _ in 0..n {
                let at = t.below(8) as usize;
                b[at] = t.byte();
            }
            if b[..8] == PRE[..] {
                return Ok(());
            }
            let cut = t.chance(1, 5);
            if cut {
                b.truncate(t.upto(7));
            }
            let err = reject(&b, "preamble")?;
            let ok = match &err {
                E::ParsePreamble(ParsePreambleError::Unexpected(x)) => {
                    !cut && x[..] == b[..8] && {
                        let text = root(&err).to_string();
                        let got = expectation(&text).map(|x| x.1).unwrap_or(text);
                        b[..8].iter().all(|x| numbers(&got).contains(&i128::from(*x)))
                    }
                }
                E::ParsePreamble(_) => cut && eof(root(&err)),
                _ => false,
            };
            if !ok {
                return fail(format!("the error for this preamble is: {}", rej(&err)), &b);
            }
            cx.eval_bytes(&b, true);
            cx.label("preamble");
        }
    }
    Ok(())
}

pub static C16: Check = Check {
    id: "C16",
    level: "exploration",
    rule: "one field is made malformed, or two that must agree are made to disagree (distinct by input)",
    assumptions: &["what the last cause states is read from its text (and public fields), loosely: the value as found, in any notation; the class of the failure"],
    sweep: |_| sites().len() as u64 + LONG + (SPREADS.len() + 2 * super::secs::FAR.len()) as u64,
    run_sweep: |x, cx| {
        if let Some(y) = x.checked_sub(sites().len() as u64 + LONG + SPREADS.len() as u64) {
            return far_apart(y as usize, cx);
        }
        if let Some(runs) = x.checked_sub(sites().len() as u64 + LONG) {
            for (n, at) in [(1, 0), (2, 0), (2, 1), (5, 3), (300, 299)] {
                for ty in 0..8 {
                    too_many(SPREADS[runs as usize], n, at, ty, cx)?;
                }
            }
            return Ok(());
        }
        if x < LONG { sweep_long(x as usize, cx, check_what) } else { sweep_site(x - LONG, false, cx, check_what) }
    },
    gens: |t| if t == Tier::Quick { 400_000 } else { 20_000_000 },
    run_gen: |t, cx| {
        if t.chance(1, 12) {
            let mut runs: Vec<u32> = (0..t.upto(6)).map(|_| if t.bool() { t.u32() } else { t.below(1 << 17) as u32 }).collect();
            let rest = u64::from(u32::MAX).saturating_sub(runs.iter().map(|n| u64::from(*n)).sum());
            runs.push(rest as u32);
            runs.extend((0..t.upto(4)).map(|_| 1 + t.below(9) as u32));
            let n = 1 + t.upto(5);
            let at = t.below(n as u64) as usize;
            return too_many(&runs, n, at, t.below(8) as usize, cx);
        }
        if t.chance(1, 3) { gen_mismatch(t, cx) } else { gen_case(t, cx, false, check_what) }
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// How the locals of a function are spread over runs, the total being one too many or more.
const SPREADS: &[&[u32]] = &[
    &[u32::MAX, 1],
    &[1, u32::MAX],
    &[u32::MAX, u32::MAX],
    &[1, 1, u32::MAX],
    &[u32::MAX, 0, 1],
    &[0, u32::MAX, 0, 2],
    &[1 << 31, 1 << 31],
    &[1 << 30, 1 << 31, 1 << 30],
    &[1 << 30, 1 << 30, 1 << 30, 1 << 30],
    &[5, 1 << 31, 1 << 31, 7],
    &[1, 2, 3, 4, 5, 6, u32::MAX - 20],
    &[1_000_000_000, 2_000_000_000, 1_000_000_000, 294_967_295, 1],
    &[1_000_000_000, 2_000_000_000, 1_000_000_000, 294_967_297],
    &[0xFFFF_0000, 0xFFFF, 0xFFFF_0000],
    &[65_536, 65_536, 65_536, u32::MAX],
    &[3, u32::MAX - 3, 1, 1],
    &[3, u32::MAX - 3, 77],
];

fn too_many(runs: &[u32], functions: usize, at: usize, ty: usize, cx: &mut Ctx) -> Res {
    let vts = [I32, Vt::V128, Vt::Num(Num::F64), Vt::Ref(Rt { null: true, ht: Ht::Idx(9) })];
    let codes: Vec<Code> = (0..functions)
        .map(|k| Code {
            locals: if k == at {
                runs.iter().enumerate().map(|(j, n)| (*n, vts[(j * (ty / 4) + ty) % 4])).collect()
            } else {
                vec![(k as u32, vts[k % 4]); k % 3]
            },
            body: vec![],
        })
        .collect();
    let b = enc::canonical(&[Sec::Function(vec![0; functions]), Sec::Code(codes)]).bytes;
    // the run that makes it too many
    let mut total = 0u64;
    let run = runs.iter().position(|n| {
        total += u64::from(*n);
        total > u64::from(u32::MAX)
    });
    let Some(run) = run else { return Ok(()) };
    let e = reject(&b, "too many locals")?;
    if section(&e) != Some(10) || positions(&subject::chain(&e)) != [at as u64, run as u64] {
        return fail(format!("run {run} of function {at} makes the locals too many; the error is: {}", rej(&e)), &b);
    }
    if !all_numbers(&e, &[i128::from(total)]) {
        return fail(format!("there are {total} locals by then; the error is: {}", rej(&e)), &b);
    }
    cx.eval_bytes(&b, true);
    cx.label("too many locals");
    cx.sample("too many locals", || format!("{runs:?}: {}", rej(&e)));
    Ok(())
}

/// Two numbers that must agree, far apart.
fn far_apart(x: usize, cx: &mut Ctx) -> Res {
    let (a, b) = super::secs::FAR[x / 2];
    let (a, b) = if x % 2 == 0 { (a, b) } else { (b, a) };
    if a == b {
        return Ok(());
    }
    let fun = Sec::Function(vec![1; a]);
    let mut all = vec![vec![fun.clone(), Sec::Code(vec![Code { locals: vec![], body: vec![] }; b])]];
    if b == 0 {
        all.push(vec![fun]);
    }
    for secs in all {
        let bytes = enc::canonical(&secs).bytes;
        let e = reject(&bytes, "functions and bodies")?;
        match &e {
            E::CodeFuncEntriesLenMismatch { codes_len, funcs_len } if *codes_len == b && *funcs_len == a && all_numbers(&e, &[a as i128, b as i128]) => {}
            _ => return fail(format!("{a} functions, {b} bodies; the error is: {} ({e:?})", rej(&e)), &bytes[..bytes.len().min(99)]),
        }
        cx.eval_bytes(&bytes, true);
        cx.label("counts far apart");
    }
    let data = Sec::Data(vec![Data { init: vec![], mode: DataMode::Passive }; b]);
    let mut all = vec![vec![Sec::DataCount(a as u32), data]];
    if b == 0 {
        all.push(vec![Sec::DataCount(a as u32)]);
    }
    for secs in all {
        let bytes = enc::canonical(&secs).bytes;
        let e = reject(&bytes, "data count")?;
        match &e {
            E::DataCountMismatch { datas_len, data_count } | E::DataCountDatasLenMismatch { datas_len, data_count }
                if *datas_len == b && *data_count == a as u32 && all_numbers(&e, &[a as i128, b as i128]) => {}
            _ => return fail(format!("data count {a}, {b} data segments; the error is: {} ({e:?})", rej(&e)), &bytes[..bytes.len().min(99)]),
        }
        cx.eval_bytes(&bytes, true);
    }
    // sizes
    let nops = |n: usize, junk: usize| {
        let mut c = vec![1];
        leb_u((n + 2 + junk) as u64, &mut c);
        c.push(0);
        c.resize(c.len() + n, 1);
        c.push(0x0B);
        c.resize(c.len() + junk, 5);
        let mut v = [PRE, &[3, 2, 1, 0, 10]].concat();
        leb_u(c.len() as u64, &mut v);
        v.extend(c);
        v
    };
    if a > 0 {
        let bytes = nops(b, a);
        let e = reject(&bytes, "size of a code entry")?;
        if section(&e) != Some(10) || !all_numbers(&e, &[(a + b + 2) as i128, (b + 2) as i128, a as i128]) {
            return fail(format!("a body of {} bytes ends after {}; the error is: {}", a + b + 2, b + 2, rej(&e)), &bytes[..bytes.len().min(99)]);
        }
        cx.eval_bytes(&bytes, true);
        // a section of b memories, and a further bytes
        let mut c = vec![];
        leb_u(b as u64, &mut c);
        c.extend((0..b).flat_map(|_| [0, 1]));
        let got = c.len() as u64;
        c.resize(c.len() + a, 5);
        let mut bytes = [PRE, &[5]].concat();
        leb_u(c.len() as u64, &mut bytes);
        bytes.extend(&c);
        let e = reject(&bytes, "section size")?;
        match &e {
            E::SectionSizeMismatch { declared, got: g, .. } if *declared as usize == c.len() && *g == got && all_numbers(&e, &[c.len() as i128, i128::from(got)]) => {}
            _ => return fail(format!("a section of {} bytes ends after {got}; the error is: {}", c.len(), rej(&e)), &bytes[..bytes.len().min(99)]),
        }
        cx.eval_bytes(&bytes, true);
    }
    Ok(())
}

/// The error for this fault enumerates only what is possible there.
fn suggestions(b: &[u8], s: &Site, what: &What, mut with: impl FnMut(Fault) -> Vec<u8>, cx: &mut Ctx) -> Res {
    let v = match what {
        What::Byte(b) => i128::from(*b),
        What::Number(n) => i128::from(*n),
        _ => return Ok(()),
    };
    let e = reject(b, &format!("{what:?} at {:?}", s.kind))?;
    let text = root(&e).to_string();
    let Some((list, _)) = expectation(&text) else {
        cx.label("enumerates nothing");
        return Ok(());
    };
    cx.eval_bytes(b, !list.is_empty());
    if list.contains(&v) {
        return fail(format!("{v:#x} is not acceptable, and is said to be expected: {}", rej(&e)), b);
    }
    let names = named(&text);
    if (1..list.len()).any(|k| list[..k].contains(&list[k])) || (1..names.len()).any(|k| names[..k].iter().any(|n| n.0 == names[k].0)) {
        return fail(format!("a byte is enumerated twice: {}", rej(&e)), b);
    }
    // what a byte is called is what it decodes to
    let mut prints: Vec<(String, i128, HashMap<String, usize>, Vec<u8>)> = vec![];
    let all: Vec<i128> = match s.kind {
        K::ElemFlags | K::DataFlags => (0..256).filter(|x| super::ints::defined(s.kind, *x)).map(i128::from).collect(),
        K::SecId | K::Mut | K::CompType | K::Limits | K::ExternKind | K::ExportKind | K::TagAttr | K::ElemKind | K::TableInit | K::CastFlags | K::CatchKind => {
            (0..=255).filter(|x| valid(s.kind, *x)).map(i128::from).collect()
        }
        _ => vec![],
    };
    if let (Some(x), false) = (all.iter().find(|x| !list.contains(*x)), list.is_empty()) {
        return fail(format!("{x:#04x} is acceptable, but not said to be expected: {}", rej(&e)), b);
    }
    let every = names.len() > 1 && b.len() < 400 && crate::tape::hash(b) % 4 == 0;
    for (x, name) in names.into_iter().filter(|_| every) {
        let mut f = vec![];
        if leb_kind(s.kind).is_some() { leb_u(x as u64, &mut f) } else { f.push(x as u8) }
        let c = with(Fault::Replace(f));
        if let Ok(m) = subject::decode(&c).on(&c)? {
            let mut n = HashMap::new();
            for w in unquoted(&format!("{m:?}")).to_lowercase().split(|c: char| !c.is_alphanumeric()) {
                *n.entry(w.to_string()).or_insert(0) += 1;
            }
            prints.push((name, x, n, c));
        }
    }
    let count = |n: &HashMap<String, usize>, w: &str| n.get(w).copied().unwrap_or(0);
    for (name, x, n, c) in &prints {
        for (other, y, o, _) in &prints {
            if name != other && count(n, name) < count(o, name) {
                return fail(format!("{x:#04x} is called {name:?}, but {y:#04x} ({other:?}) is what that is: {}", rej(&e)), c);
            }
            if name != other {
                cx.label("names of two bytes compared");
            }
        }
    }
    for x in list {
        if !(0..256).contains(&x) {
            return fail(format!("{x:#x} is no byte: {}", rej(&e)), b);
        }
        // the byte, and an end right after it: whatever is wrong then, it is not that byte
        let mut f = vec![];
        if leb_kind(s.kind).is_some() { leb_u(x as u64, &mut f) } else { f.push(x as u8) }
        let fault = if s.inner { Fault::CutAt(f) } else { Fault::Replace(f) };
        let c = with(fault);
        if let Err(e2) = subject::decode(&c).on(&c)? {
            let t2 = root(&e2).to_string();
            let found = expectation(&t2).map(|x| x.1).unwrap_or_else(|| if t2.contains("nexpected") { t2.clone() } else { String::new() });
            if s.inner && numbers(&found).contains(&x) {
                return fail(format!("{x:#04x} is suggested, but not acceptable: {} (suggested by: {})", rej(&e2), rej(&e)), &c);
            }
            // section ids: the same error again
            if !s.inner && t2.replace(&format!("got {x:#04X}"), "") == text.replace(&format!("got {v:#04X}"), "") {
                return fail(format!("{x:#04x} is suggested, but not acceptable: {} (suggested by: {})", rej(&e2), rej(&e)), &c);
            }
        }
        cx.eval_bytes(&c, true);
        cx.label("suggested byte tried");
    }
    cx.sample(&format!("{:?}", s.kind).split('(').next().unwrap().to_string(), || text);
    Ok(())
}

pub static C27: Check = Check {
    id: "C27",
    level: "exploration",
    rule: "the error for a byte that is no code enumerates codes (distinct by input)",
    assumptions: &["what is enumerated is read from the text of the last cause: the numbers between expected and got"],
    sweep: |_| sites().len() as u64 + 1,
    run_sweep: |x, cx| {
        if x == 0 {
            for at in 0..8 {
                for v in 0..=255u8 {
                    let mut b = PRE.to_vec();
                    if b[at] == v {
                        continue;
                    }
                    b[at] = v;
                    let e = reject(&b, "preamble")?;
                    let Some((list, _)) = expectation(&root(&e).to_string()) else { continue };
                    cx.eval_bytes(&b, true);
                    let c: Vec<u8> = list.iter().map(|x| *x as u8).collect();
                    if subject::decode(&c).on(&c)?.is_err() {
                        return fail(format!("the preamble that is suggested is not acceptable: {}", rej(&e)), &b);
                    }
                }
            }
            return Ok(());
        }
        let (m, k, s) = &sites()[x as usize - 1];
        if !coded(s.kind) {
            return Ok(());
        }
        for (f, w) in faults(s, false) {
            if let Fault::CutAt(_) = f {
                continue;
            }
            let b = enc::faulty(&templates()[*m], &mut plain(), *k, f).bytes;
            suggestions(&b, s, &w, |f| enc::faulty(&templates()[*m], &mut plain(), *k, f).bytes, cx)?;
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 150_000 } else { 8_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let w = t.below(1 << 32);
        let d = (t.below(1 << 32), t.below(12), t.byte(), t.u32(), t.upto(6));
        let all = enc::sites(&secs, t);
        let c: Vec<usize> = (0..all.len()).filter(|i| coded(all[*i].kind) && !matches!(all[*i].kind, K::Opcode | K::End | K::SubOp(_))).collect();
        if c.is_empty() {
            return Ok(());
        }
        let k = c[(w % c.len() as u64) as usize];
        let s = &all[k];
        let Some(f) = some_faulty(s, &d) else { return Ok(()) };
        let Some(what) = classify(s, &f) else { return Ok(()) };
        let style = t.clone();
        let b = enc::faulty(&secs, t, k, Fault::Replace(f)).bytes;
        suggestions(
            &b,
            s,
            &what,
            |f| {
                let mut t2 = style.clone();
                enc::faulty(&secs, &mut t2, k, f).bytes
            },
            cx,
        )
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
