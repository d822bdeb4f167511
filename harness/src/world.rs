//! What a program can ask about besides its input: the environment and the time. On a thread that
//! is in a strange world, every variable is set, and hours pass between two looks at the clock.
use std::cell::Cell;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};

thread_local! {
    static STRANGE: Cell<Option<(usize, u64)>> = const { Cell::new(None) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

static VALUES: [&CStr; 8] = [c"1", c"0", c"", c"true", c"full", c"4294967295", c"debug", c"/"];

/// Run `f` in the `k`-th strange world; and how often it asked.
pub fn strange<T>(k: u64, f: impl FnOnce() -> T) -> (T, u64) {
    ASKED.set(0);
    STRANGE.set(Some((k as usize % VALUES.len(), k)));
    let r = f();
    STRANGE.set(None);
    (r, ASKED.get())
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}

unsafe extern "C" {
    static environ: *const *const c_char;
    fn syscall(n: c_long, ...) -> c_long;
}

/// In place of the one of the C library, which the standard library calls.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if let Some((k, _)) = STRANGE.get() {
        ASKED.set(ASKED.get() + 1);
        return VALUES[k].as_ptr() as *mut c_char;
    }
    unsafe {
        let name = CStr::from_ptr(name).to_bytes();
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=' {
                return (*p).add(name.len() + 1) as *mut c_char;
            }
            p = p.add(1);
        }
    }
    std::ptr::null_mut()
}

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: c_long = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: c_long = 113;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: c_int, out: *mut Timespec) -> c_int {
    let r = unsafe { syscall(SYS_CLOCK_GETTIME, clock as c_long, out as *mut c_void) };
    if let Some((_, k)) = STRANGE.get() {
        let n = ASKED.get() + 1;
        ASKED.set(n);
        unsafe { (*out).s += (n as i64) * [3600, 1, 86_400 * 366][k as usize % 3] };
    }
    r as c_int
}

/// Whether this works at all.
pub fn works() -> bool {
    let look = || (std::env::var("WV_NO_SUCH_VARIABLE").ok(), std::time::Instant::now(), std::time::SystemTime::now());
    let ((a, b), n) = strange(3, || (look(), look()));
    let c = look();
    n >= 6 && a.0.as_deref() == Some("true") && b.1.duration_since(a.1).as_secs() > 0 && c.0.is_none() && b.2 > c.2
}
