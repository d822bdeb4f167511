//! Calls into the code under test.
use crate::alloc;
use crate::ast::Abst;
use crate::conv;
use crate::engine::Fail;
use crate::refdec;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::io::Read;
use std::panic::{AssertUnwindSafe, catch_unwind};
use wadec::Module;
use wadec::decode_errors::DecodeModuleError;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let s = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{s} ({at})"));
        if !INSIDE.get() {
            old(i);
        }
    }));
}

/// Run `f`, which calls the code under test; a panic in there is a failure of the property.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = INSIDE.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.set(was);
    r.map_err(|_| Fail::new(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))))
}

pub type Decoded = Result<Module, DecodeModuleError>;

pub fn decode_with(r: impl Read) -> Result<Decoded, Fail> {
    call(|| alloc::capped(|| wadec::decode_module(r)))
}

/// Inputs that declare more locals than this are never handed over: they have to be expanded
/// (see known-findings.txt), which takes more memory than there is.
const TOO_MANY: u64 = 1 << 23;

pub fn guard(b: &[u8]) -> Result<(), Fail> {
    // so many take a long integer, or a long input
    let long = b.len() > 2000 || b.windows(3).any(|w| w.iter().all(|x| *x >= 0x80));
    if long && refdec::decode(b).locals > TOO_MANY { Err(Fail::skip()) } else { Ok(()) }
}

pub fn decode(b: &[u8]) -> Result<Decoded, Fail> {
    guard(b)?;
    decode_with(b)
}

/// Decode, and convert the module.
pub fn abst(b: &[u8]) -> Result<Result<Abst, DecodeModuleError>, Fail> {
    Ok(decode(b)?.map(|m| conv::module(&m)))
}

pub fn chain(e: &dyn Error) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut cur = e.source();
    while let Some(s) = cur {
        v.push(s.to_string());
        cur = s.source();
    }
    v
}

pub fn show(e: &dyn Error) -> String {
    chain(e).join(": ")
}
