//! C32 every message is short, printable, and says something its cause does not.
use super::common::*;
use super::robust::PRE;
use crate::ast::*;
use crate::engine::*;
use crate::enc::{self, Fault, leb_u};
use crate::tape::{Tape, mix};
use crate::{mutate, refdec, subject};
use std::collections::HashMap;

/// A message is at most this long, and a chain has at most so many.
const LONG: usize = 400;
const LEVELS: usize = 24;

/// Names as an attacker would choose them.
const NASTY: [&str; 10] = [
    "\x1b[2J\x1b[31mowned\x1b[0m", "a\nERROR: b", "a\r\nb\r", "\0", "\x07\x08\x7f", "\u{85}\u{9b}31m", "\u{202e}txt.exe", "\t\x0b\x0c", "\u{2028}\u{2029}", "\u{feff}\u{200b}",
];

fn dangerous(c: char) -> bool {
    c.is_control() || matches!(c, '\u{200b}'..='\u{200f}' | '\u{2028}'..='\u{202e}' | '\u{2060}'..='\u{2069}' | '\u{feff}')
}

fn texts(b: &[u8], what: &str, cx: &mut Ctx) -> Res {
    if refdec::decode(b).locals > 100_000 {
        return Ok(());
    }
    subject::guard(b)?;
    let (chain, prints) = match subject::decode_with(b).on(b)? {
        Ok(m) => {
            if b.len() > 5000 {
                return Ok(());
            }
            (None, [format!("{m:?}"), format!("{m:#?}")])
        }
        Err(e) => {
            let big = b.len() > 20_000;
            (Some(subject::chain(&e)), [if big { String::new() } else { format!("{e:?}") }, if big { String::new() } else { format!("{e:#?}") }])
        }
    };
    for (k, p) in prints.iter().enumerate() {
        if let Some(c) = p.chars().find(|c| dangerous(*c) && !((k == 1 || chain.is_some()) && *c == '\n')) {
            return fail(format!("the print has the character {c:?} in it, which is for the terminal to act on"), b);
        }
    }
    let Some(chain) = chain else {
        cx.eval_bytes(b, what != "");
        cx.label("accepted: prints");
        return Ok(());
    };
    if chain.len() > LEVELS {
        return fail(format!("a chain of {} messages, from {:?} to {:?}", chain.len(), chain[0], chain[chain.len() - 1]), b);
    }
    for (k, s) in chain.iter().enumerate() {
        if s.trim().is_empty() {
            return fail(format!("message {k} of the chain is empty: {chain:?}"), b);
        }
        // the one about the preamble lists eight bytes, one in a line
        let lines = b.get(..8) != Some(PRE);
        if let Some(c) = s.chars().find(|c| dangerous(*c) && !(lines && *c == '\n')) {
            return fail(format!("message {k} has the character {c:?} in it: {}", clip(&format!("{s:?}"), 300)), b);
        }
        if s.chars().count() > LONG {
            return fail(format!("message {k} is {} characters long: {}", s.chars().count(), clip(s, 200)), b);
        }
        // lists of lists have entries at positions of entries
        if k > 0 && chain[k - 1] == *s && !s.contains("position") {
            return fail(format!("a message is its own cause: {chain:?}"), b);
        }
        if k > 0 && s.len() > 12 && chain[k - 1] != *s && chain[k - 1].contains(s.as_str()) {
            return fail(format!("a message has its cause in it, so that the cause is told twice: {chain:?}"), b);
        }
    }
    cx.eval_bytes(b, true);
    cx.label(what);
    Ok(())
}

/// Put nasty names where there are names.
fn nasty(secs: &mut [Sec], t: &mut Tape) {
    let mut n = |v: &mut Vec<u8>| {
        if t.chance(2, 3) {
            *v = NASTY[t.below(10) as usize].as_bytes().to_vec();
            if t.chance(1, 20) {
                *v = v.repeat(t.range(1, 400));
            }
        }
    };
    for s in secs {
        match s {
            Sec::Custom(a, b) => {
                n(a);
                n(b);
            }
            Sec::Import(l) => l.iter_mut().for_each(|x| {
                n(&mut x.module);
                n(&mut x.item);
            }),
            Sec::Export(l) => l.iter_mut().for_each(|x| n(&mut x.name)),
            Sec::Data(l) => l.iter_mut().for_each(|x| n(&mut x.init)),
            _ => {}
        }
    }
}

pub static C32: Check = Check {
    id: "C32",
    level: "exploration",
    rule: "the input is rejected, or it is accepted and what it holds is printed (distinct by input)",
    assumptions: &["a short message has at most 400 characters, a short chain at most 24 messages"],
    sweep: |_| templates().len() as u64,
    run_sweep: |k, cx| {
        let secs = &templates()[k as usize];
        let mut t = Tape::random(mix(&[k, 32]));
        // every field, with all kinds of faults
        let sites = enc::sites(secs, &Tape::replay(vec![]));
        for j in 0..sites.len() {
            let was = &sites[j].bytes;
            for f in [
                Fault::Replace(vec![0xFF; 12]),
                Fault::Replace(vec![0x80; 12]),
                Fault::Replace(vec![0xFF, 0xFF, 0xFF, 0xFF, 0x0F]),
                Fault::Replace(vec![0xFF, 0xFF, 0xFF, 0xFF, 0x7F]),
                Fault::Replace(vec![t.byte()]),
                Fault::Replace(vec![0x15]),
                Fault::Replace(vec![]),
                Fault::CutAt(vec![]),
                Fault::CutAt(vec![0x80]),
                Fault::Replace([was.as_slice(), was].concat()),
            ] {
                let b = enc::faulty(secs, &mut Tape::replay(vec![]), j, f).bytes;
                texts(&b, "field of a template", cx)?;
            }
        }
        let b = enc::canonical(secs).bytes;
        for j in 0..b.len() {
            texts(&b[..j], "template, cut off", cx)?;
            for v in 0..=255 {
                let mut c = b.clone();
                c[j] = v;
                texts(&c, "byte of a template", cx)?;
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 500_000 } else { 20_000_000 },
    run_gen: |t, cx| {
        let mut secs = module(t);
        if t.bool() {
            nasty(&mut secs, t);
        }
        match t.below(4) {
            0 => {
                let b = enc::canonical(&secs).bytes;
                texts(&b, "", cx)?;
            }
            1 => {
                let mut b = enc::styled(&secs, t).bytes;
                for _ in 0..t.range(1, 3) {
                    b = mutate::mutate(&b, t).0;
                }
                texts(&b, "module with bytes changed", cx)?;
            }
            _ => {
                if let Some((b, _)) = field_fault(&secs, t, |_| true) {
                    texts(&b, "module with a field changed", cx)?;
                    cx.sample("one field changed", || {
                        format!("{}: {}", hex(&b), wadec::decode_module(&b[..]).err().map_or("accepted".into(), |e| subject::show(&e)))
                    });
                }
            }
        }
        Ok(())
    },
    post: |cx| {
        // nothing that grows makes a message or a chain grow
        for n in [1usize, 10, 100, 1000, 10_000, 100_000, 1_000_000] {
            let name = |bad: &[u8], id: u8| {
                let mut x = vec![b'n'; n];
                x.extend_from_slice(bad);
                let mut c = vec![];
                if id == 2 || id == 7 {
                    c.push(1);
                }
                leb_u(x.len() as u64, &mut c);
                c.extend_from_slice(&x);
                let mut b = PRE.to_vec();
                b.push(id);
                leb_u(c.len() as u64, &mut b);
                b.extend_from_slice(&c);
                b
            };
            for bad in [&b"\xFF"[..], b"\xC0\x80", b"\xED\xA0\x80", b"\xF4\x90\x80\x80", b"\xE2\x82", b"\x1b[2J\xFF"] {
                for id in [0, 2, 7] {
                    texts(&name(bad, id), "long name that is not UTF-8", cx)?;
                }
            }
            // deep, and then wrong
            if n <= 1000 {
                for head in [&[2u8, 0x40][..], &[3, 0x40], &[4, 0x40], &[4, 0x40, 5], &[0x1F, 0x40, 0]] {
                    for bad in [&[0xFFu8][..], &[0x41, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[0xFB, 99], &[]] {
                        for global in [false, true] {
                            let mut e = if global { vec![0x7F, 0] } else { vec![0] };
                            e.extend(head.repeat(n));
                            e.extend_from_slice(bad);
                            let mut b = PRE.to_vec();
                            let mut c = vec![1];
                            if !global {
                                b.extend([3, 2, 1, 0]);
                                leb_u(e.len() as u64, &mut c);
                            }
                            c.extend(e);
                            b.push(if global { 6 } else { 10 });
                            leb_u(c.len() as u64, &mut b);
                            b.extend(c);
                            texts(&b, "deeply nested, then wrong", cx)?;
                        }
                    }
                }
            }
            // many entries, and then wrong
            let mut many = vec![];
            leb_u(n as u64 + 1, &mut many);
            many.extend(vec![0x60u8, 0, 0].repeat(n));
            many.extend([0x60, 1, 0x15, 0]);
            let mut b = PRE.to_vec();
            b.push(1);
            leb_u(many.len() as u64, &mut b);
            b.extend(many);
            texts(&b, "many entries, then wrong", cx)?;
            // many sections, and then wrong
            let mut b = PRE.to_vec();
            b.extend([0u8, 1, 0].repeat(n));
            b.extend([0, 2, 1, 0xFF]);
            texts(&b, "many sections, then wrong", cx)?;
            // wrong from the start
            texts(&vec![0x1b; n], "not a module", cx)?;
            texts(&"\u{1b}[31m\n".repeat(n).into_bytes(), "not a module", cx)?;
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

/// Errors seen in one case, by what they print with {:?} and with {:#?}.
#[derive(Default)]
struct Prints([HashMap<String, (Vec<String>, Vec<u8>)>; 2]);

impl Prints {
    fn add(&mut self, b: &[u8], cx: &mut Ctx) -> Res {
        if refdec::decode(b).locals > 100_000 {
            return Ok(());
        }
        subject::guard(b)?;
        let Err(e) = subject::decode_with(b).on(b)? else { return Ok(()) };
        let chain = subject::chain(&e);
        for (k, p) in [format!("{e:?}"), format!("{e:#?}")].into_iter().enumerate() {
            match self.0[k].get(&p) {
                None => {
                    self.0[k].insert(p, (chain.clone(), b.to_vec()));
                }
                Some((c, _)) if *c == chain => {}
                Some((c, first)) => {
                    let at = c.iter().zip(&chain).position(|(x, y)| x != y).unwrap_or(c.len().min(chain.len()));
                    let none = String::from("(nothing)");
                    return fail(
                        format!(
                            "two errors that say {:?} and {:?} print the same with {}: {} (the other input: {})",
                            c.get(at).unwrap_or(&none),
                            chain.get(at).unwrap_or(&none),
                            ["{:?}", "{:#?}"][k],
                            clip(&p, 600),
                            clip(&hex(first), 600),
                        ),
                        b,
                    );
                }
            }
        }
        cx.eval_bytes(b, true);
        Ok(())
    }
    fn done(self, what: &str, cx: &mut Ctx) {
        let n = self.0[0].len();
        cx.label(match n {
            0 => "no errors in the case",
            1 => "one print in the case",
            2..10 => "2 to 9 prints in the case",
            10..100 => "10 to 99 prints in the case",
            _ => "100 prints or more in the case",
        });
        if let Some((p, _)) = self.0[0].iter().min_by_key(|x| x.0.len()) {
            cx.sample(what, || format!("{n} prints, such as {}", clip(&p.replace('\n', " "), 300)));
        }
    }
}

pub static C33: Check = Check {
    id: "C33",
    level: "exploration",
    rule: "the input is rejected; its error is compared with all others of the same case (distinct by input)",
    assumptions: &[],
    sweep: |_| templates().len() as u64,
    run_sweep: |k, cx| {
        let secs = &templates()[k as usize];
        let mut p = Prints::default();
        for (j, s) in enc::sites(secs, &Tape::replay(vec![])).iter().enumerate() {
            let mut fs: Vec<Fault> = (0..=255).map(|v| Fault::Replace(vec![v])).collect();
            fs.extend((0..=255).map(|v| Fault::CutAt(vec![v])));
            for v in [128u64, 300, 65_535, 65_536, 65_792, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX as u64] {
                let mut f = vec![];
                leb_u(v, &mut f);
                fs.push(Fault::Replace(f.clone()));
                fs.push(Fault::CutAt(f));
            }
            for n in 1..12 {
                for last in [0u8, 0x0F, 0x10, 0x7F, 0xFF] {
                    let mut f = vec![0xFF; n];
                    f.push(last);
                    fs.push(Fault::Replace(f));
                }
            }
            fs.push(Fault::Replace([s.bytes.as_slice(), &s.bytes].concat()));
            for f in fs {
                p.add(&enc::faulty(secs, &mut Tape::replay(vec![]), j, f).bytes, cx)?;
            }
        }
        let b = enc::canonical(secs).bytes;
        for j in 0..b.len() {
            p.add(&b[..j], cx)?;
        }
        p.done("template", cx);
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 12_000 } else { 600_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let n = enc::sites(&secs, t).len();
        if n == 0 {
            return Ok(());
        }
        let style = t.clone();
        let mut p = Prints::default();
        // the same fault in many places, many faults in the same place, and the same place in longer lists
        let mut f: Vec<u8> = (0..t.range(1, 6)).map(|_| t.byte()).collect();
        if t.bool() {
            f = vec![t.byte()];
        }
        let at = t.below(n as u64) as usize;
        let from = t.below(n as u64) as usize;
        for j in from..n.min(from + 12) {
            p.add(&enc::faulty(&secs, &mut style.clone(), j, Fault::Replace(f.clone())).bytes, cx)?;
            p.add(&enc::faulty(&secs, &mut style.clone(), j, Fault::CutAt(f.clone())).bytes, cx)?;
        }
        for _ in 0..12 {
            let mut g = f.clone();
            let k = t.upto(g.len() - 1);
            g[k] = t.byte();
            p.add(&enc::faulty(&secs, &mut style.clone(), at, Fault::Replace(g)).bytes, cx)?;
        }
        let b = enc::styled(&secs, &mut style.clone()).bytes;
        for _ in 0..6 {
            p.add(&mutate::mutate(&b, t).0, cx)?;
        }
        p.done("generated", cx);
        Ok(())
    },
    post: |cx| {
        // positions and counts that are large
        let mut p = Prints::default();
        for n in [0usize, 1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 511, 1000, 1001, 1024, 4095, 4096, 10_000, 65_535, 65_536, 65_537, 65_792, 131_072, 131_328] {
            let list = |id: u8, good: &[u8], bad: &[u8]| {
                let mut c = vec![];
                leb_u(n as u64 + 1, &mut c);
                c.extend(good.repeat(n));
                c.extend_from_slice(bad);
                let mut b = PRE.to_vec();
                b.push(id);
                leb_u(c.len() as u64, &mut b);
                b.extend(c);
                b
            };
            p.add(&list(1, &[0x60, 0, 0], &[0x60, 1, 0x15, 0]), cx)?;
            p.add(&list(2, &[0, 0, 0, 0], &[0, 0, 9, 0]), cx)?;
            p.add(&list(3, &[0], &[0xFF; 6]), cx)?;
            p.add(&list(4, &[0x70, 0, 0], &[0x70, 9, 0]), cx)?;
            p.add(&list(5, &[0, 0], &[9, 0]), cx)?;
            p.add(&list(6, &[0x7F, 0, 0x41, 0, 0x0B], &[0x7F, 9, 0x41, 0, 0x0B]), cx)?;
            p.add(&list(7, &[0, 0, 0], &[1, 0xFF, 0, 0]), cx)?;
            p.add(&list(9, &[0, 0x41, 0, 0x0B, 0], &[77]), cx)?;
            p.add(&list(11, &[1, 0], &[77]), cx)?;
            p.add(&list(13, &[0, 0], &[1, 0]), cx)?;
            // a section that is too long, or too short
            let mut b = PRE.to_vec();
            b.push(8);
            leb_u(n as u64 + 2, &mut b);
            b.extend(vec![0; n + 2]);
            p.add(&b, cx)?;
            let mut b = PRE.to_vec();
            b.push(0);
            leb_u(n as u64 + 1, &mut b);
            p.add(&b, cx)?;
            // functions without bodies; data segments that are not
            let mut b = PRE.to_vec();
            let mut c = vec![];
            leb_u(n as u64 + 1, &mut c);
            c.extend(vec![0; n + 1]);
            b.push(3);
            leb_u(c.len() as u64, &mut b);
            b.extend(c);
            p.add(&b, cx)?;
            let mut c = vec![];
            leb_u(n as u64 + 1, &mut c);
            let mut b = PRE.to_vec();
            b.extend([12, c.len() as u8]);
            b.extend(c);
            p.add(&b, cx)?;
        }
        p.done("long", cx);
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};
