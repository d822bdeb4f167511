//! C35 the crate on other machines: one of 32 bits, and one that keeps numbers the other way round.
use super::common::*;
use super::robust::deep;
use crate::engine::*;
use crate::subject;
use crate::tape::{Tape, hash};
use crate::{enc, r#gen, mutate, refdec};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    This,
    Bits32,
    BigEndian,
}

struct Machine {
    child: Child,
    to: Option<ChildStdin>,
    from: ChildStdout,
    name: String,
}
impl Machine {
    fn new(k: Kind) -> Machine {
        let built = root().join("target/machine");
        let mut c = match k {
            Kind::This => Command::new(built.join("release/machine")),
            Kind::Bits32 => Command::new(built.join("i686-unknown-linux-gnu/release/machine")),
            Kind::BigEndian => {
                let mut c = Command::new("cargo");
                c.args(["+nightly", "miri", "run", "--quiet", "--release", "--offline", "--target", "s390x-unknown-linux-gnu", "--manifest-path"])
                    .arg(root().join("machine/Cargo.toml"))
                    .arg("--target-dir")
                    .arg(&built);
                c
            }
        };
        let mut child =
            c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the program for the other machine");
        let mut m = Machine { to: child.stdin.take(), from: child.stdout.take().unwrap(), child, name: String::new() };
        let name = m.answer().expect("the other machine says what it is");
        m.name = String::from_utf8(name).unwrap();
        let want = match k {
            Kind::This => "64 bits, little-endian",
            Kind::Bits32 => "32 bits, little-endian",
            Kind::BigEndian => "64 bits, big-endian",
        };
        assert!(m.name.ends_with(want), "the other machine is {}", m.name);
        m
    }
    fn answer(&mut self) -> std::io::Result<Vec<u8>> {
        let mut n = [0; 4];
        self.from.read_exact(&mut n)?;
        let mut t = vec![0; u32::from_le_bytes(n) as usize];
        self.from.read_exact(&mut t)?;
        Ok(t)
    }
    fn ask(&mut self, b: &[u8]) -> std::io::Result<Vec<u8>> {
        let to = self.to.as_mut().unwrap();
        to.write_all(&[&(b.len() as u32).to_le_bytes()[..], b].concat())?;
        to.flush()?;
        self.answer()
    }
}
impl Drop for Machine {
    fn drop(&mut self) {
        self.to = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static MACHINES: RefCell<[Option<Machine>; 3]> = const { RefCell::new([None, None, None]) };
}

/// What comes of an input on a machine, and which that is; nothing if the program did not survive it.
fn on(k: Kind, b: &[u8]) -> (Option<Vec<u8>>, String) {
    MACHINES.with_borrow_mut(|ms| {
        let slot = &mut ms[k as usize];
        let m = slot.get_or_insert_with(|| Machine::new(k));
        let (r, name) = (m.ask(b).ok(), m.name.clone());
        if r.is_none() {
            *slot = None;
        }
        (r, name)
    })
}

fn compare(b: &[u8], others: &[Kind], cx: &mut Ctx) -> Res {
    // they have to be expanded (see known-findings.txt), and one has more room for it than another
    if refdec::decode(b).locals > MAX_LOCALS {
        return Ok(());
    }
    subject::guard(b)?;
    let (here, _) = on(Kind::This, b);
    let here = match here {
        // that is for C01
        Some(t) if t.starts_with(b"panicked") => return Err(Fail::new(String::from_utf8_lossy(&t).into_owned()).on(b)),
        Some(t) => t,
        None => return fail("decoding ends the process", b),
    };
    let mine = String::from_utf8_lossy(&here);
    for k in others {
        let (there, name) = on(*k, b);
        let Some(there) = there else {
            return fail(format!("decoding ends the process ({name}); here: {}", clip(&mine, 300)), b);
        };
        if there != here {
            let theirs = String::from_utf8_lossy(&there);
            let at = mine.bytes().zip(theirs.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(40);
            let from = |s: &str| clip(&s.chars().skip(if at > 100 { at } else { 0 }).collect::<String>(), 300);
            return fail(format!("here: {:?}; on another machine ({name}): {:?}", from(&mine), from(&theirs)), b);
        }
        cx.eval(hash(b) ^ *k as u64, true);
        cx.label(match (k, mine.starts_with("module")) {
            (Kind::BigEndian, true) => "the same module, big-endian",
            (Kind::BigEndian, false) => "the same error, big-endian",
            (_, true) => "the same module, 32 bits",
            (_, false) => "the same error, 32 bits",
        });
    }
    Ok(())
}

/// Numbers at their limits.
const LIMITS: [&[u8]; 8] = [
    &[0xFF, 0xFF, 0xFF, 0xFF, 0x0F],
    &[0xFE, 0xFF, 0xFF, 0xFF, 0x0F],
    &[0xFF, 0xFF, 0xFF, 0xFF, 0x07],
    &[0x80, 0x80, 0x80, 0x80, 0x08],
    &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
    &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x01],
    &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x7F],
    &[0x80, 0x80, 0x80, 0x80, 0x78],
];

pub static C35: Check = Check {
    id: "C35",
    level: "exploration",
    rule: "the input gets past the preamble, and is decoded on both machines (distinct by input and machine)",
    assumptions: &[
        "32 bits: built for i686 and run as it is; big-endian: interpreted by Miri for s390x, which is slow, so on far fewer and smaller inputs",
        "the programs compared are built by one compiler, for this machine and the others",
    ],
    sweep: |_| templates().len() as u64 * 2 + 15,
    run_sweep: |k, cx| {
        let n = templates().len() as u64;
        if k >= 2 * n {
            let (kind, place) = ((k - 2 * n) % 5, (k - 2 * n) / 5);
            for d in [1, 2, 100, 1000, 5000] {
                let b = deep(kind, place, d);
                compare(&b, &[Kind::Bits32], cx)?;
                compare(&b[..b.len() - 1], &[Kind::Bits32], cx)?;
            }
            return Ok(());
        }
        let b = enc::canonical(&templates()[(k % n) as usize]).bytes;
        if k < n {
            if b.len() < 400 {
                compare(&b, &[Kind::BigEndian], cx)?;
            }
            return Ok(());
        }
        // all bytes of the templates exchanged
        compare(&b, &[Kind::Bits32], cx)?;
        for at in 8..b.len().min(1500) {
            for x in [0, 1, 0x7F, 0x80, 0xFF, b[at].wrapping_add(1)] {
                let mut c = b.clone();
                c[at] = x;
                compare(&c, &[Kind::Bits32], cx)?;
            }
            for x in &LIMITS[..5] {
                let mut c = b.clone();
                c.splice(at..=at, x.iter().copied());
                compare(&c, &[Kind::Bits32], cx)?;
            }
        }
        cx.label("template");
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 200_000 } else { 2_000_000 },
    run_gen: |t: &mut Tape, cx| {
        let big = t.chance(1, 100);
        let secs = if big { r#gen::module(t, r#gen::small()) } else { module(t) };
        let mut b = enc::styled(&secs, t).bytes;
        for _ in 0..*t.pick(&[0, 0, 1, 1, 2, 4]) {
            b = mutate::mutate(&b, t).0;
        }
        if t.chance(1, 8) {
            let at = t.upto(b.len());
            let x: &[u8] = t.pick(&LIMITS);
            let to = if t.bool() { at } else { (at + 1).min(b.len()) };
            b.splice(at..to, x.iter().copied());
        }
        if refdec::decode(&b).locals > MAX_LOCALS || big && b.len() > 300 {
            return Err(Fail::skip());
        }
        compare(&b, if big { &[Kind::BigEndian] } else { &[Kind::Bits32] }, cx)?;
        cx.sample(if big { "input, big-endian" } else { "input, 32 bits" }, || hex(&b));
        Ok(())
    },
    post: |cx| {
        // sums of locals around the limit, in one body and in many
        for runs in [&[u32::MAX, 1][..], &[u32::MAX, 0], &[1 << 31, 1 << 31], &[1 << 31, (1 << 31) - 1, 1], &[u32::MAX, u32::MAX, u32::MAX], &[1, u32::MAX]] {
            for end in [&[0x0B][..], &[], &[0xFF]] {
                let mut body = vec![runs.len() as u8];
                for n in runs {
                    enc::leb_u(u64::from(*n), &mut body);
                    body.push(0x7F);
                }
                body.extend(end);
                let mut b = enc::canonical(&[crate::ast::Sec::Function(vec![0])]).bytes;
                b.extend([10, body.len() as u8 + 2, 1, body.len() as u8]);
                b.extend(&body);
                compare(&b, &[Kind::Bits32, Kind::BigEndian], cx)?;
            }
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};
