//! Mutations of encoded modules.
use crate::enc::{leb_u, pad_leb};
use crate::refdec;
use crate::tape::Tape;

const BYTES: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0B, 0x0D, 0x0E, 0x10, 0x1A, 0x1F, 0x20,
    0x3F, 0x40, 0x41, 0x4E, 0x4F, 0x50, 0x5E, 0x5F, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x68, 0x69,
    0x6A, 0x6F, 0x70, 0x74, 0x75, 0x77, 0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7F, 0x80, 0x81, 0x8F, 0xBF,
    0xC0, 0xC5, 0xD0, 0xD7, 0xE0, 0xED, 0xF0, 0xF4, 0xF5, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF,
];

fn some_byte(t: &mut Tape) -> u8 {
    if t.bool() { *t.pick(BYTES) } else { t.byte() }
}

/// Sections as (id, contents), of a module whose framing is intact.
fn sections(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    Some(refdec::split(b)?.iter().map(|(s, c, e)| (b[*s], b[*c..*e].to_vec())).collect())
}

fn join(secs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for (id, c) in secs {
        o.push(*id);
        leb_u(c.len() as u64, &mut o);
        o.extend_from_slice(c);
    }
    o
}

fn edit(b: &mut Vec<u8>, t: &mut Tape) -> &'static str {
    if b.is_empty() {
        b.push(some_byte(t));
        return "insert";
    }
    let at = t.below(b.len() as u64) as usize;
    match t.below(10) {
        0 => {
            b[at] ^= 1 << t.below(8);
            "flip"
        }
        1 | 2 => {
            b[at] = some_byte(t);
            "set"
        }
        3 => {
            b[at] = b[at].wrapping_add(if t.bool() { 1 } else { 0xFF });
            "increment"
        }
        4 => {
            b.insert(at, some_byte(t));
            "insert"
        }
        5 => {
            b.remove(at);
            "delete"
        }
        6 => {
            let n = t.range(1, 8).min(b.len() - at);
            b.drain(at..at + n);
            "delete range"
        }
        7 => {
            let n = t.range(1, 16).min(b.len() - at);
            let c = b[at..at + n].to_vec();
            let to = t.upto(b.len());
            b.splice(to..to, c);
            "copy range"
        }
        8 => {
            // lengthen what may be a LEB128 integer
            let mut v = vec![b[at] & 0x7F];
            pad_leb(&mut v, t.range(2, 11), t.bool());
            b.splice(at..=at, v);
            "pad integer"
        }
        _ => {
            // a large integer
            let mut v = vec![];
            leb_u(t.u64(), &mut v);
            b.splice(at..=at, v);
            "replace integer"
        }
    }
}

/// One mutation of a module, and its name.
pub fn mutate(b: &[u8], t: &mut Tape) -> (Vec<u8>, &'static str) {
    let mut v = b.to_vec();
    let k = t.weighted(&[30, 40, 5, 4, 5, 4, 4, 4, 4]);
    if k == 0 {
        let l = edit(&mut v, t);
        return (v, l);
    }
    if k == 2 {
        v.truncate(t.upto(b.len().saturating_sub(1)));
        return (v, "truncate");
    }
    if k == 3 {
        for _ in 0..t.range(1, 4) {
            v.push(some_byte(t));
        }
        return (v, "append");
    }
    let Some(mut secs) = sections(b).filter(|s| !s.is_empty()) else {
        let l = edit(&mut v, t);
        return (v, l);
    };
    let i = t.below(secs.len() as u64) as usize;
    let l = match k {
        1 => {
            edit(&mut secs[i].1, t);
            "edit with size fixed"
        }
        4 => {
            let j = t.below(secs.len() as u64) as usize;
            secs.swap(i, j);
            "swap sections"
        }
        5 => {
            let s = secs[i].clone();
            let j = t.upto(secs.len());
            secs.insert(j, s);
            "duplicate section"
        }
        6 => {
            secs.remove(i);
            "remove section"
        }
        7 => {
            secs[i].0 = some_byte(t);
            "change section id"
        }
        _ => {
            // a wrong size
            let spans = refdec::split(b).unwrap();
            let (s, c, e) = spans[i];
            let n = (e - c) as u64;
            let m = match t.below(4) {
                0 => n.wrapping_add(1),
                1 => n.saturating_sub(1),
                2 => u64::from(t.u32()),
                _ => n / 2,
            };
            let mut x = vec![];
            leb_u(m & 0xFFFF_FFFF, &mut x);
            v.splice(s + 1..c, x);
            return (v, "wrong section size");
        }
    };
    (join(&secs), l)
}
