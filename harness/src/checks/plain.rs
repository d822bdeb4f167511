//! C34 the crate built otherwise: without debug assertions and overflow checks, optimised.
use super::common::*;
use super::robust::{Seen, deep, seen};
use crate::engine::*;
use crate::tape::{Tape, hash};
use crate::{enc, mutate, refdec};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// What is compared: all of the module (floats by their bits), or all that an error says.
fn text(b: &[u8]) -> String {
    match seen(b) {
        Ok(Seen::Module(m)) => format!("module {m:?}"),
        Ok(Seen::Error(a, x)) => format!("error {a}\n{x}"),
        Err(f) if f.skip => "skipped".into(),
        Err(f) => format!("failure {}", f.msg),
    }
}

/// Answer requests until there are no more: a byte (the text itself?), a length, an input.
pub fn serve() -> i32 {
    if cfg!(debug_assertions) {
        eprintln!("this build has debug assertions");
        return 2;
    }
    let f = || -> std::io::Result<()> {
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        let mut h = [0; 5];
        while i.read_exact(&mut h).is_ok() {
            let mut b = vec![0; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
            i.read_exact(&mut b)?;
            let t = text(&b);
            let t = if h[0] == 1 { t.into_bytes() } else { digest(&t).to_vec() };
            o.write_all(&(t.len() as u32).to_le_bytes())?;
            o.write_all(&t)?;
            o.flush()?;
        }
        Ok(())
    };
    i32::from(!std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().is_ok_and(|r| r.is_ok()))
}

fn digest(t: &str) -> [u8; 16] {
    let mut d = [0; 16];
    d[..8].copy_from_slice(&hash(t.as_bytes()).to_le_bytes());
    d[8..].copy_from_slice(&(t.len() as u64).to_le_bytes());
    d
}

struct Other {
    child: Child,
    to: Option<ChildStdin>,
    from: ChildStdout,
}
impl Other {
    fn new() -> Other {
        let mut child = Command::new(root().join("target/plain/wv"))
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("the plain build");
        Other { to: child.stdin.take(), from: child.stdout.take().unwrap(), child }
    }
    fn ask(&mut self, whole: bool, b: &[u8]) -> std::io::Result<Vec<u8>> {
        let to = self.to.as_mut().unwrap();
        let mut q = vec![u8::from(whole)];
        q.extend((b.len() as u32).to_le_bytes());
        q.extend(b);
        to.write_all(&q)?;
        to.flush()?;
        let mut n = [0; 4];
        self.from.read_exact(&mut n)?;
        let mut t = vec![0; u32::from_le_bytes(n) as usize];
        self.from.read_exact(&mut t)?;
        Ok(t)
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        self.to = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) };
}

fn compare(b: &[u8], cx: &mut Ctx) -> Res {
    let mine = text(b);
    if mine == "skipped" {
        return Ok(());
    }
    // that is for C01
    if mine.starts_with("failure") {
        return Err(Fail::new(mine).on(b));
    }
    OTHER.with_borrow_mut(|o| {
        let s = o.get_or_insert_with(Other::new);
        let gone = |e: std::io::Error| Fail::new(format!("without debug assertions, decoding ends the process ({e}); with them: {}", clip(&mine, 300))).on(b);
        let r = s.ask(false, b).map_err(gone);
        let theirs = match r {
            Ok(d) if d == digest(&mine) => return Ok(()),
            Ok(_) => String::from_utf8_lossy(&s.ask(true, b).map_err(gone)?).into_owned(),
            Err(f) => {
                *o = None;
                return Err(f);
            }
        };
        let at = mine.bytes().zip(theirs.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(40);
        let from = |s: &str| clip(&s.chars().skip(if at > 100 { at } else { 0 }).collect::<String>(), 300);
        fail(format!("with debug assertions: {:?}; without: {:?}", from(&mine), from(&theirs)), b)
    })?;
    cx.eval(hash(b), true);
    cx.label(if mine.starts_with("module") { "a module in both builds" } else { "the same error in both builds" });
    Ok(())
}

pub static C34: Check = Check {
    id: "C34",
    level: "exploration",
    rule: "the input gets past the preamble, and is decoded by both builds (distinct by input)",
    assumptions: &["two builds are compared: with debug assertions and overflow checks at level 2, and without at level 3"],
    sweep: |_| templates().len() as u64 + 15,
    run_sweep: |k, cx| {
        let n = templates().len() as u64;
        if k >= n {
            let (kind, place) = ((k - n) % 5, (k - n) / 5);
            for d in [1, 2, 100, 1000, 5000] {
                let b = deep(kind, place, d);
                compare(&b, cx)?;
                compare(&b[..b.len() - 1], cx)?;
                compare(&b[..b.len() / 2], cx)?;
            }
            return Ok(());
        }
        // all bytes of the templates exchanged
        let b = enc::canonical(&templates()[k as usize]).bytes;
        compare(&b, cx)?;
        for at in 8..b.len().min(3000) {
            for x in [0, 1, 2, 0x40, 0x7F, 0x80, 0xFF, b[at] ^ 1, b[at] ^ 0x80, b[at].wrapping_add(1), b[at].wrapping_sub(1)] {
                let mut c = b.clone();
                c[at] = x;
                compare(&c, cx)?;
            }
            compare(&b[..at], cx)?;
            let mut c = b.clone();
            c.splice(at..at, [0xFF, 0xFF, 0xFF, 0xFF, 0x0F]);
            compare(&c, cx)?;
            let mut c = b.clone();
            c.splice(at..=at, [0x80 | b[at], 0x80, 0]);
            compare(&c, cx)?;
        }
        cx.label("template");
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 400_000 } else { 5_000_000 },
    run_gen: |t: &mut Tape, cx| {
        let secs = module(t);
        let mut b = enc::styled(&secs, t).bytes;
        for _ in 0..*t.pick(&[0, 0, 1, 1, 2, 4]) {
            b = mutate::mutate(&b, t).0;
        }
        if t.chance(1, 12) {
            // numbers at their limits, anywhere
            let at = t.upto(b.len());
            let x: &[u8] = t.pick(&[
                &[0xFF, 0xFF, 0xFF, 0xFF, 0x0F][..],
                &[0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
                &[0x80, 0x80, 0x80, 0x80, 0x08],
                &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x01],
                &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x7F],
                &[0x80, 0x80, 0x80, 0x80, 0x78],
            ]);
            b.splice(at..at, x.iter().copied());
        }
        if refdec::decode(&b).locals > MAX_LOCALS {
            return Err(Fail::skip());
        }
        compare(&b, cx)?;
        cx.sample("input", || hex(&b));
        Ok(())
    },
    post: |cx| {
        // sums of locals around the limit, in one body and in many
        for runs in [&[u32::MAX, 1][..], &[u32::MAX, 0], &[1 << 31, 1 << 31], &[1 << 31, (1 << 31) - 1, 1], &[u32::MAX, u32::MAX, u32::MAX], &[1, u32::MAX]] {
            for end in [&[0x0B][..], &[], &[0xFF]] {
                let mut body = vec![runs.len() as u8];
                for n in runs {
                    enc::leb_u(u64::from(*n), &mut body);
                    body.push(0x7F);
                }
                body.extend(end);
                if runs.iter().map(|n| u64::from(*n)).sum::<u64>() <= u64::from(u32::MAX) && end == [0x0B] {
                    continue;
                }
                let mut b = enc::canonical(&[crate::ast::Sec::Function(vec![0])]).bytes;
                b.extend([10, body.len() as u8 + 2, 1, body.len() as u8]);
                b.extend(&body);
                compare(&b, cx)?;
            }
        }
        Ok(())
    },
    exhaustive: false,
    hang_is_violation: false,
};
