//! C17 names.
use super::common::*;
use crate::ast::*;
use crate::enc;
use crate::engine::*;
use crate::r#gen::{self, Gen};
use crate::refdec;
use crate::tape::Rng;

const PLACES: usize = 4;
const PLACE: [&str; PLACES] = ["custom section", "imported module", "imported item", "export"];

/// The name at one of the four places. What follows it could continue a cut-off character.
fn with_name(place: usize, n: &[u8]) -> Vec<Sec> {
    let imp = |m: &[u8], i: &[u8], x| Imp { module: m.to_vec(), item: i.to_vec(), ext: Ext::Func(x) };
    match place {
        0 => vec![Sec::Custom(n.to_vec(), vec![0x80, 0xBF, 0x80, 0x80])],
        1 => vec![Sec::Import(vec![imp(b"a", b"b", 1), imp(n, b"", 0x3FFF)])],
        2 => vec![Sec::Import(vec![imp("é".as_bytes(), n, 4), imp(b"", b"", 0)])],
        _ => vec![Sec::Export(vec![
            Exp { name: n.to_vec(), kind: 2, idx: 0x80 },
            Exp { name: b"n".to_vec(), kind: 0, idx: 1 },
        ])],
    }
}

fn judge(place: usize, n: &[u8], cx: &mut Ctx) -> Res {
    let secs = with_name(place, n);
    let e = enc::canonical(&secs);
    let ok = refdec::utf8(n);
    if ok {
        expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
        cx.label("UTF-8");
    } else {
        reject(&e.bytes, &format!("the name of the {} is not UTF-8: {}", PLACE[place], hex(n)))?;
        cx.label("not UTF-8");
    }
    cx.eval_bytes(&e.bytes, n.iter().any(|b| *b >= 0x80));
    Ok(())
}

const EDGE: [u8; 30] = [
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC,
    0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF,
];

/// The code point in a UTF-8-like pattern of so many bytes, whether or not it is well-formed.
fn pattern(c: u32, len: usize) -> Vec<u8> {
    match len {
        1 => vec![c as u8],
        _ => {
            let lead = [0xC0u8, 0xE0, 0xF0, 0xF8, 0xFC][len - 2];
            let mut v = vec![lead | (c >> (6 * (len - 1))) as u8];
            for k in (0..len - 1).rev() {
                v.push(0x80 | (c >> (6 * k) & 0x3F) as u8);
            }
            v
        }
    }
}

fn pieces() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["\u{80}", "\u{7FF}", "\u{800}", "\u{D7FF}", "\u{E000}", "\u{FFFF}", "\u{10000}", "\u{10FFFF}", "\u{FEFF}", "\u{FFFD}"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect();
    for c in [0u32, 0x2F, 0x7F] {
        v.push(pattern(c, 2));
        v.push(pattern(c, 3));
        v.push(pattern(c, 4));
    }
    v.extend([pattern(0x7FF, 3), pattern(0xFFFF, 4), pattern(0xD800, 3), pattern(0xDBFF, 3), pattern(0xDC00, 3), pattern(0xDFFF, 3)]);
    v.extend([pattern(0x110000, 4), pattern(0x1FFFFF, 4), pattern(0x200000, 5), pattern(0x4000000, 6)]);
    // a pair of surrogates
    v.push([pattern(0xD83D, 3), pattern(0xDE00, 3)].concat());
    for b in [0x80u8, 0xBF, 0xC0, 0xC1, 0xF5, 0xFE, 0xFF] {
        v.push(vec![b]);
    }
    // cut off
    v.extend([vec![0xC3], vec![0xE2], vec![0xE2, 0x82], vec![0xF0], vec![0xF0, 0x9F], vec![0xF0, 0x9F, 0xA6], vec![0xED, 0xA0]]);
    v
}

/// Texts that a decoder might be tempted to change, all different.
const TEMPTING: &[&str] = &[
    "", " ", "a", "a ", " a", "A", "a\0", "\0", "\0\0", "a\n", "\r\n", "\n", "\t", "\u{FEFF}", "\u{FEFF}a", "a\u{FEFF}",
    "é", "e\u{301}", "\u{212B}", "\u{C5}", "A\u{30A}", "ﬁ", "fi", "ß", "ss", "ẞ", "İ", "i\u{307}", "ı", "\u{FFFD}", "\u{FFFE}",
    "\u{FFFF}", "\u{1FFFE}", "\u{10FFFF}", "\u{E000}", "\u{200B}", "\u{202E}abc", "\u{AD}", "\u{1F468}\u{200D}\u{1F469}",
    "%00", "\\0", "\\u{0}", "&amp;", "&", "<", "\"", "'", "../x", "/", "\\", "a.b", "$", "name", "Name", "NAME", "name\0",
    "\u{85}", "\u{2028}", "\u{A0}", "\u{3000}", "\u{1}", "\u{7F}", "\u{1B}[0m", "한", "\u{1112}\u{1161}\u{11AB}", "각", "\u{AC00}\u{11A8}",
];

const CHUNKS: u64 = 256 + 30 + 64 + 1;

pub static C17: Check = Check {
    id: "C17",
    level: "exploration",
    rule: "a name has bytes above 0x7F (distinct by input)",
    assumptions: &[],
    sweep: |t| if t == Tier::Quick { CHUNKS } else { CHUNKS + 65536 },
    run_sweep: |k, cx| {
        match k {
            0..256 => {
                let a = k as u8;
                for place in 0..PLACES {
                    judge(place, &[a], cx)?;
                    for b in 0..=255u8 {
                        judge(place, &[a, b], cx)?;
                        judge(place, &[b'x', a, b], cx)?;
                        judge(place, &[a, b, b'y'], cx)?;
                        judge(place, &[a, b, 0x80], cx)?;
                    }
                }
                cx.sample("two bytes", || format!("{a:02x} followed by each byte, in four surroundings"));
            }
            256..286 => {
                let a = EDGE[k as usize - 256];
                let mut n = 0;
                for b in EDGE {
                    for c in EDGE {
                        for place in 0..PLACES {
                            judge(place, &[a, b, c], cx)?;
                        }
                        for d in EDGE {
                            n += 1;
                            judge(n % PLACES, &[a, b, c, d], cx)?;
                        }
                    }
                }
            }
            286..350 => {
                // every character, 512 in a name, and every pattern of a length it does not have
                let part = k as u32 - 286;
                for chunk in 0..34u32 {
                    let from = (part * 34 + chunk) * 512;
                    let s: String = (from..from + 512).filter_map(char::from_u32).collect();
                    judge((chunk % 4) as usize, s.as_bytes(), cx)?;
                }
                let step = if cx.tier == Tier::Quick { 61 } else { 1 };
                let mut c = part;
                while c < 0x20_0000 {
                    for len in 2..=4usize {
                        if c < 1 << (5 * len + 1) {
                            let p = pattern(c, len);
                            judge((c / 64 % 4) as usize, &p, cx)?;
                        }
                    }
                    c += 64 * if c < 0x3000 || (0xD000..0xE100).contains(&c) || (0x10F000..0x111000).contains(&c) { 1 } else { step };
                }
                // a piece at each position of a longer name
                let ps = pieces();
                for (j, p) in ps.iter().enumerate() {
                    if j % 64 != part as usize % 64 {
                        continue;
                    }
                    for n in (0..40).chain([47, 48, 49, 63, 64, 65, 66, 100, 126, 127, 128, 129, 255, 256, 257]) {
                        for at in 0..=n {
                            if n > 66 && at % 8 > 1 && at % 8 < 7 {
                                continue;
                            }
                            for fill in ["a", "é", "日", "🦀"] {
                                if fill.len() > 1 && n % 7 != 3 {
                                    continue;
                                }
                                let mut s = fill.repeat(at).into_bytes();
                                s.extend_from_slice(p);
                                s.extend(fill.repeat(n - at).bytes());
                                judge((at + n) % PLACES, &s, cx)?;
                            }
                        }
                    }
                    for n in [1000usize, 1023, 4096, 8191, 8192, 16384, 65535, 65536, 100_000, 131_072] {
                        for at in [n - 1, n, n / 2] {
                            let mut s = vec![b'q'; at];
                            s.extend_from_slice(p);
                            s.extend(vec![b'z'; n - at]);
                            judge((j + at) % PLACES, &s, cx)?;
                        }
                    }
                    cx.sample("a piece within a longer name", || hex(p));
                }
            }
            350 => {
                // all of them, several times, at all places
                let names: Vec<Vec<u8>> = TEMPTING.iter().map(|s| s.as_bytes().to_vec()).collect();
                let mut imps = vec![];
                for a in &names {
                    for b in &names {
                        imps.push(Imp { module: a.clone(), item: b.clone(), ext: Ext::Func(1) });
                    }
                }
                let twice: Vec<Exp> = names.iter().chain(&names).map(|n| Exp { name: n.clone(), kind: 0, idx: 3 }).collect();
                let mut secs: Vec<Sec> = names.iter().chain(&names).map(|n| Sec::Custom(n.clone(), vec![9])).collect();
                secs.push(Sec::Import(imps.clone()));
                secs.push(Sec::Export(twice));
                let e = enc::canonical(&secs);
                expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
                cx.eval_bytes(&e.bytes, true);
                for n in &names {
                    for place in 0..PLACES {
                        judge(place, n, cx)?;
                    }
                }
            }
            _ => {
                // all names of three bytes
                let x = k - CHUNKS;
                for c in 0..=255u8 {
                    let n = [(x >> 8) as u8, x as u8, c];
                    judge((x % 4) as usize, &n, cx)?;
                    if n[0] >= 0xE0 {
                        judge((x / 7 % 4) as usize, &[n[0], n[1], n[2], 0x80], cx)?;
                        judge((x / 5 % 4) as usize, &[n[0], n[1], n[2], 0xBF], cx)?;
                    }
                }
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 200_000 } else { 15_000_000 },
    run_gen: |t, cx| {
        let ps = pieces();
        let good: Vec<usize> = (0..ps.len()).filter(|k| refdec::utf8(&ps[*k])).collect();
        let mut name = vec![];
        let bad = t.bool();
        for _ in 0..t.upto(12) {
            match t.below(6) {
                0 => name.extend_from_slice(&ps[if bad { t.below(ps.len() as u64) as usize } else { *t.pick(&good) }]),
                1 => {
                    let n = t.upto(20);
                    name.extend(vec![b'k'; n]);
                }
                2 if bad => name.push(t.byte()),
                _ => {
                    let c = Gen::new(t, r#gen::small()).ch();
                    name.extend(c.to_string().bytes());
                }
            }
        }
        if bad && !name.is_empty() && t.bool() {
            let at = t.below(name.len() as u64) as usize;
            if t.bool() {
                name.truncate(at);
            } else {
                name[at] ^= 1 << t.below(8);
            }
        }
        // within a larger module, other names the same or nearly
        let place = t.below(4) as usize;
        let mut secs = with_name(place, &name);
        let n = t.upto(3);
        for _ in 0..n {
            let s = match t.below(3) {
                0 => Sec::Custom(if t.bool() { name.clone() } else { b"x".to_vec() }, vec![]),
                _ => Sec::Custom(Gen::new(t, r#gen::small()).name(), vec![1]),
            };
            let at = t.upto(secs.len());
            secs.insert(at, s);
        }
        if let Some(Sec::Import(v)) = secs.iter_mut().find(|s| s.id() == 2)
            && t.bool()
        {
            let x = v[0].clone();
            v.push(x.clone());
            v.insert(0, x);
        }
        if let Some(Sec::Export(v)) = secs.iter_mut().find(|s| s.id() == 7)
            && t.bool()
        {
            let x = v[0].clone();
            v.push(x);
        }
        let e = enc::styled(&secs, t);
        if refdec::utf8(&name) {
            expect(&e.bytes, &denotes(&secs, &e.sizes()).unwrap())?;
            cx.label("random UTF-8");
        } else {
            reject(&e.bytes, &format!("the name is not UTF-8: {}", hex(&name)))?;
            cx.label("random not UTF-8");
        }
        cx.eval_bytes(&e.bytes, name.iter().any(|b| *b >= 0x80));
        cx.sample("random name", || format!("{} as {}", hex(&name), PLACE[place]));
        Ok(())
    },
    post: |cx| {
        // a long name, with every kind of end
        let mut r = Rng::new(cx.seed);
        for p in pieces() {
            let mut s = String::new();
            while s.len() < 300_000 {
                s.push(char::from_u32(r.next() as u32 % 0x11_0000).unwrap_or('q'));
            }
            let mut b = s.into_bytes();
            b.extend(&p);
            judge((r.next() % 4) as usize, &b, cx)?;
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};

