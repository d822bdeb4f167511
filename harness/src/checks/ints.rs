//! C07 integers, C25 codes.
use super::accept::leb_kind;
use super::common::*;
use super::robust::PRE;
use crate::ast::*;
use crate::engine::*;
use crate::enc::{self, Fault, K, Site, leb_s, leb_u, max_len, pad_leb, valid};
use crate::ops;
use crate::tape::Tape;

pub fn plain() -> Tape {
    Tape::replay(vec![0, 0])
}

/// Encodings, good and bad, of integers of this width.
fn encodings(bits: u32, signed: bool, all: bool) -> Vec<Vec<u8>> {
    let max = max_len(bits);
    let mut v = vec![];
    for n in 1..=max + 3 {
        for cont in [0x80u8, 0xFF, 0x81, 0xC0, 0xAA] {
            if !all && n < max && !matches!(cont, 0x80 | 0xFF) {
                continue;
            }
            for last in 0..=255u8 {
                let mut b = vec![cont; n - 1];
                b.push(last);
                if last & 0x80 != 0 {
                    // not an end: only where the field's contents follow
                    if n < max - 1 {
                        continue;
                    }
                }
                v.push(b);
            }
        }
    }
    let values: Vec<i128> = if signed {
        let mut x: Vec<i128> = vec![];
        for k in 0..bits {
            let p = 1i128 << k;
            x.extend([p - 1, p, p + 1, -p - 1, -p, -p + 1]);
        }
        x
    } else {
        (0..=bits).flat_map(|k| [(1i128 << k) - 1, 1 << k, (1 << k) + 1]).collect()
    };
    for x in values {
        let mut b = vec![];
        if signed {
            let Ok(x) = i64::try_from(x) else { continue };
            leb_s(x, &mut b);
        } else {
            let Ok(x) = u64::try_from(x) else { continue };
            leb_u(x, &mut b);
        }
        for n in b.len()..=max + 1 {
            let mut c = b.clone();
            pad_leb(&mut c, n, signed);
            v.push(c);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Sites of the templates, one for each different surrounding.
pub fn sites() -> &'static Vec<(usize, usize, Site)> {
    static S: std::sync::OnceLock<Vec<(usize, usize, Site)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for (m, secs) in templates().iter().enumerate() {
            for (k, s) in enc::sites(secs, &plain()).into_iter().enumerate() {
                v.push((m, k, s));
            }
        }
        v
    })
}
fn leb_sites() -> &'static Vec<(usize, usize, Site)> {
    static S: std::sync::OnceLock<Vec<(usize, usize, Site)>> = std::sync::OnceLock::new();
    S.get_or_init(|| sites().iter().filter(|s| leb_kind(s.2.kind).is_some()).cloned().collect())
}

pub fn with(m: usize, k: usize, f: Vec<u8>) -> Vec<u8> {
    enc::faulty(&templates()[m], &mut plain(), k, Fault::Replace(f)).bytes
}

pub static C07: Check = Check {
    id: "C07",
    level: "exploration",
    rule: "one integer field of a well-formed module is re-encoded or replaced (distinct by input)",
    assumptions: &["fields are those of modules that together have every construct of the format"],
    sweep: |_| leb_sites().len() as u64,
    run_sweep: |x, cx| {
        let (m, k, s) = &leb_sites()[x as usize];
        let (bits, signed) = leb_kind(s.kind).unwrap();
        static E: std::sync::OnceLock<Vec<(u32, bool, Vec<Vec<u8>>)>> = std::sync::OnceLock::new();
        let all = cx.tier == Tier::Thorough;
        let e = E.get_or_init(|| {
            [(32, false), (64, false), (32, true), (64, true), (33, true)]
                .iter()
                .map(|(b, s)| (*b, *s, encodings(*b, *s, all)))
                .collect()
        });
        let e = &e.iter().find(|e| e.0 == bits && e.1 == signed).unwrap().2;
        let l = format!("{:?} ({} bits)", s.kind, bits);
        for f in e {
            let b = with(*m, *k, f.clone());
            let v = agree(&b, true)?;
            count(cx, &v);
            cx.eval_bytes(&b, true);
        }
        cx.label(&l);
        cx.sample(&l, || format!("{} encodings in {}, e.g. {}", e.len(), sec_name(s.id), hex(&e[e.len() / 3])));
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 300_000 } else { 15_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let (w, how, v, n, x) = (t.below(1 << 32), t.below(6), t.u64(), t.range(1, 12), t.byte());
        let sites = enc::sites(&secs, t);
        let c: Vec<usize> = (0..sites.len()).filter(|i| leb_kind(sites[*i].kind).is_some()).collect();
        if c.is_empty() {
            return Ok(());
        }
        let k = c[(w % c.len() as u64) as usize];
        let (bits, signed) = leb_kind(sites[k].kind).unwrap();
        let mut f = vec![];
        match how {
            // the same value, longer
            0 | 1 => {
                f = sites[k].bytes.clone();
                pad_leb(&mut f, n, signed);
            }
            2 | 3 => {
                if signed {
                    leb_s(v as i64 >> (64 - bits), &mut f);
                } else {
                    leb_u(v, &mut f);
                }
                pad_leb(&mut f, n, signed);
            }
            // the last byte at the limit
            4 => {
                f = sites[k].bytes.clone();
                pad_leb(&mut f, max_len(bits), signed);
                *f.last_mut().unwrap() = x;
            }
            _ => {
                f = sites[k].bytes.clone();
                let at = v as usize % f.len();
                f[at] ^= 1 << (x % 8);
            }
        }
        let l = format!("{:?}", sites[k].kind);
        let b = enc::faulty(&secs, t, k, Fault::Replace(f.clone())).bytes;
        let r = agree(&b, true)?;
        count(cx, &r);
        cx.eval_bytes(&b, f != sites[k].bytes);
        cx.sample(&format!("random {}", l.split('(').next().unwrap()), || format!("{} instead of {}", hex(&f), hex(&sites[k].bytes)));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};

// ------------------------------------------------------------------------------------------------

pub fn coded(k: K) -> bool {
    !matches!(k, K::U32 | K::U64 | K::I32 | K::I64 | K::S33 | K::Count | K::BodySize | K::Raw(_) | K::Name(_) | K::LocalsCount)
}
fn coded_sites() -> &'static Vec<(usize, usize, Site)> {
    static S: std::sync::OnceLock<Vec<(usize, usize, Site)>> = std::sync::OnceLock::new();
    S.get_or_init(|| sites().iter().filter(|s| coded(s.2.kind)).cloned().collect())
}

/// Is this number possible at a field of this kind?
pub fn defined(k: K, v: u64) -> bool {
    match k {
        K::SubOp(p) => u32::try_from(v).is_ok_and(|v| ops::shape_sub(p, v).is_some()),
        K::ElemFlags => v < 8,
        K::DataFlags => v < 3,
        K::MemFlags => v < 128,
        _ => unreachable!(),
    }
}

fn one(m: usize, k: usize, s: &Site, f: Vec<u8>, ok: bool, cx: &mut Ctx) -> Res {
    let b = with(m, k, f);
    if ok {
        count(cx, &agree(&b, true)?);
        cx.eval_bytes(&b, false);
    } else {
        reject(&b, &format!("undefined code at {:?} in {}", s.kind, sec_name(s.id)))?;
        cx.eval_bytes(&b, true);
        cx.label("undefined");
    }
    Ok(())
}

pub static C25: Check = Check {
    id: "C25",
    level: "exploration",
    rule: "a field with a limited set of codes holds one that is not defined (distinct by input)",
    assumptions: &["fields are those of modules that together have every construct of the format"],
    sweep: |_| coded_sites().len() as u64 + 1,
    run_sweep: |x, cx| {
        if x == 0 {
            // the preamble
            for at in 0..8 {
                for v in 0..=255u8 {
                    let mut b = PRE.to_vec();
                    if b[at] == v {
                        continue;
                    }
                    b[at] = v;
                    reject(&b, "preamble")?;
                    cx.eval_bytes(&b, true);
                    b.extend([1, 1, 0]);
                    reject(&b, "preamble")?;
                    cx.eval_bytes(&b, true);
                }
            }
            return Ok(());
        }
        let (m, k, s) = &coded_sites()[x as usize - 1];
        let (m, k) = (*m, *k);
        let l = format!("{:?} in {}", s.kind, sec_name(s.id));
        cx.label(&l);
        cx.sample(&l, || format!("template {m}, field {k}: {}", hex(&s.bytes)));
        match s.kind {
            K::SubOp(_) | K::ElemFlags | K::DataFlags | K::MemFlags => {
                let top = match (s.kind, cx.tier) {
                    (K::SubOp(_), Tier::Quick) => 1200,
                    (K::SubOp(_), _) => 140_000,
                    _ => 600,
                };
                let mut vs: Vec<u64> = (0..top).collect();
                // what agrees with something defined in its low bits
                let low: Vec<u64> = match s.kind {
                    K::SubOp(p) => (0..512).filter(|v| ops::shape_sub(p, *v as u32).is_some()).collect(),
                    _ => (0..8).collect(),
                };
                let high: &[u32] = if cx.tier == Tier::Quick { &[8, 9, 16, 31] } else { &[7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 21, 23, 24, 28, 30, 31] };
                for v in low {
                    vs.extend(high.iter().map(|h| v + (1 << h)));
                    vs.push(v + 0xFFFF_FF00);
                    vs.push(v | 0xFFFF_0000);
                }
                vs.extend((7..32).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]));
                vs.push(u64::from(u32::MAX));
                for v in vs {
                    let mut f = vec![];
                    leb_u(v, &mut f);
                    one(m, k, s, f.clone(), defined(s.kind, v), cx)?;
                    if v % 5 == 0 || v < 300 {
                        pad_leb(&mut f, 5, false);
                        one(m, k, s, f, defined(s.kind, v), cx)?;
                    }
                }
            }
            kind => {
                for v in 0..=255u8 {
                    one(m, k, s, vec![v], valid(kind, v), cx)?;
                    if matches!(kind, K::SecId) {
                        continue;
                    }
                    // an undefined code before what should be there, as if it introduced that
                    if !valid(kind, v) {
                        for operand in [&[] as &[u8], &[0], &[1]] {
                            let f = [&[v], operand, &s.bytes[..]].concat();
                            one(m, k, s, f, false, cx)?;
                        }
                    }
                    // a longer integer with the same low bits: no code, and no type index below 0
                    if matches!(kind, K::HeapType | K::BlockType) && v & 0xC0 == 0x40 {
                        for n in 2..=5 {
                            let mut f = vec![v];
                            pad_leb(&mut f, n, true);
                            one(m, k, s, f, false, cx)?;
                        }
                    }
                }
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 300_000 } else { 15_000_000 },
    run_gen: |t, cx| {
        let secs = module(t);
        let (w, v, x, pad) = (t.below(1 << 32), t.u32(), t.byte(), t.upto(5));
        let sites = enc::sites(&secs, t);
        let c: Vec<usize> = (0..sites.len()).filter(|i| coded(sites[*i].kind)).collect();
        if c.is_empty() {
            return Ok(());
        }
        let k = c[(w % c.len() as u64) as usize];
        let kind = sites[k].kind;
        let (f, ok) = match kind {
            K::SubOp(_) | K::ElemFlags | K::DataFlags | K::MemFlags => {
                let mut f = vec![];
                leb_u(u64::from(v), &mut f);
                pad_leb(&mut f, pad, false);
                (f, defined(kind, u64::from(v)))
            }
            _ => (vec![x], valid(kind, x)),
        };
        let b = enc::faulty(&secs, t, k, Fault::Replace(f.clone())).bytes;
        if ok {
            count(cx, &agree(&b, true)?);
            cx.eval_bytes(&b, false);
        } else {
            reject(&b, &format!("undefined code at {kind:?} in {}", sec_name(sites[k].id)))?;
            cx.eval_bytes(&b, true);
            cx.label("random undefined");
            cx.sample("random", || format!("{} at {kind:?}: {}", hex(&f), hex(&b)));
        }
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
