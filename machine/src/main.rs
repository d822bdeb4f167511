//! C35: decodes what it is given on stdin and says on stdout what came of it; built for other
//! machines than the one the checks run on, and for this one.
#![allow(dead_code)]
#[path = "../../harness/src/ast.rs"]
mod ast;
#[path = "../../harness/src/conv.rs"]
mod conv;
#[path = "../../harness/src/ops.rs"]
mod ops;

use std::error::Error;
use std::fmt::Write as _;
use std::io::{Read, Write};

// There is a C library for 32 bits here, but nothing to start a program with.
#[cfg(all(target_arch = "x86", not(miri)))]
core::arch::global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "mov esi, [esp]",
    "lea ecx, [esp + 4]",
    "and esp, -16",
    "sub esp, 4",
    "push esp",
    "push edx",
    "push 0",
    "push 0",
    "push ecx",
    "push esi",
    "lea eax, [main]",
    "push eax",
    "call __libc_start_main",
    "hlt",
);

/// All of the module (floats by their bits), or all that an error says.
fn text(b: &[u8]) -> String {
    let r = std::panic::catch_unwind(|| match wadec::decode_module(b) {
        Ok(m) => format!("module {:?}", conv::module(&m)),
        Err(e) => {
            let mut s = format!("error {e}");
            let mut cur = e.source();
            while let Some(c) = cur {
                let _ = write!(s, ": {c}");
                cur = c.source();
            }
            let _ = write!(s, "\n{e:?}");
            s
        }
    });
    match r {
        Ok(s) => s,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()));
            format!("panicked: {}", m.unwrap_or_default())
        }
    }
}

/// Each request is a length and an input, and so is each answer.
fn serve() -> std::io::Result<()> {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut h = [0; 4];
    while i.read_exact(&mut h).is_ok() {
        let mut b = vec![0; u32::from_le_bytes(h) as usize];
        i.read_exact(&mut b)?;
        let t = text(&b).into_bytes();
        o.write_all(&[&(t.len() as u32).to_le_bytes()[..], &t].concat())?;
        o.flush()?;
    }
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    // the machine itself, for the evidence
    let me = format!("{}, {} bits, {}", std::env::consts::ARCH, usize::BITS, if cfg!(target_endian = "big") { "big-endian" } else { "little-endian" });
    let mut o = std::io::stdout();
    let ok = o.write_all(&[&(me.len() as u32).to_le_bytes()[..], me.as_bytes()].concat()).and_then(|()| o.flush()).is_ok()
        && if cfg!(miri) { serve().is_ok() } else { std::thread::Builder::new().stack_size(1 << 29).spawn(serve).unwrap().join().is_ok_and(|r| r.is_ok()) };
    std::process::exit(i32::from(!ok));
}
