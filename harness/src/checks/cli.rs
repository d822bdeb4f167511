//! C22 the command-line tool.
use super::common::*;
use super::robust::PRE;
use crate::ast::*;
use crate::enc::{self, leb_u};
use crate::engine::*;
use crate::r#gen;
use crate::{mutate, refdec};
use crate::subject;
use crate::tape::Tape;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

fn tool() -> PathBuf {
    root().join("target/cli/debug/wadec")
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = work().join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

enum Input<'a> {
    Nothing,
    /// piped, in pieces of this many bytes, with a pause between if asked for
    Piped(&'a [u8], usize, bool),
    From(fs::File),
}

fn run(dir: &Path, args: &[OsString], input: Input) -> Output {
    run_in(dir, args, input, 0)
}

/// In an environment that is as it is, empty, or full.
fn run_in(dir: &Path, args: &[OsString], input: Input, world: u64) -> Output {
    let mut c = Command::new(tool());
    if world % 3 == 1 {
        c.env_clear();
    } else if world % 3 == 2 {
        for v in [
            "CI", "DEBUG", "VERBOSE", "QUIET", "RUST_LOG", "RUST_BACKTRACE", "NO_COLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS", "LC_ALL",
            "LANG", "HOME", "PWD", "TMPDIR", "WADEC", "WADEC_VERBOSE", "WADEC_DEBUG", "WADEC_STRICT",
        ] {
            c.env(v, ["1", "0", "", "full", "/nowhere"][(world / 3) as usize % 5]);
        }
    }
    c.args(args).current_dir(dir).stdout(Stdio::piped()).stderr(Stdio::piped());
    match input {
        Input::Nothing => {
            c.stdin(Stdio::null());
            c.output().expect("run the tool")
        }
        Input::From(f) => {
            c.stdin(f);
            c.output().expect("run the tool")
        }
        Input::Piped(b, piece, pause) => {
            c.stdin(Stdio::piped());
            let mut ch = c.spawn().expect("run the tool");
            let mut to = ch.stdin.take().unwrap();
            std::thread::scope(|s| {
                s.spawn(move || {
                    for (k, p) in b.chunks(piece.max(1)).enumerate() {
                        // a tool that has seen enough may be gone
                        if to.write_all(p).is_err() {
                            return;
                        }
                        let _ = to.flush();
                        if pause && k < 12 {
                            std::thread::sleep(std::time::Duration::from_millis(2));
                        }
                    }
                });
                ch.wait_with_output().expect("wait")
            })
        }
    }
}

/// Do these texts occur one after the other?
fn in_order(s: &str, texts: &[String]) -> Result<(), String> {
    let mut rest = s;
    for t in texts {
        match rest.find(t.as_str()) {
            Some(at) => rest = &rest[at + t.len()..],
            None => return Err(t.clone()),
        }
    }
    Ok(())
}

fn judge(b: &[u8], how: &str, verbose: bool, out: &Output) -> Res {
    let (so, se) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    let what = format!("{how}{}: the tool ends with {}, says {:?}", if verbose { ", verbose" } else { "" }, out.status, clip(&se, 300));
    match subject::decode(b).on(b)? {
        Ok(m) => {
            if !out.status.success() || !se.is_empty() {
                return fail(format!("{what}, though the library accepts"), b);
            }
            if verbose && !so.contains(&format!("{m:#?}")) {
                return fail(format!("{what}, and does not print the module: {:?}", clip(&so, 300)), b);
            }
        }
        Err(e) => {
            if out.status.success() || out.status.code().is_none() {
                return fail(format!("{what}, though the library says: {}", rej(&e)), b);
            }
            let plain = match se.find("DEBUG OUTPUT") {
                Some(at) if verbose => &se[..at],
                _ => &se,
            };
            if let Err(t) = in_order(plain, &subject::chain(&e)) {
                return fail(format!("{what}, and does not print (in its place) {t:?} of: {}", rej(&e)), b);
            }
            if verbose && !se.contains(&format!("{e:#?}")) {
                return fail(format!("{what}, and does not print the error in full: {}", clip(&format!("{e:?}"), 300)), b);
            }
        }
    }
    Ok(())
}

/// An input, and what kind.
fn bytes(t: &mut Tape) -> (Vec<u8>, &'static str) {
    let p = match t.weighted(&[30, 6, 1]) {
        0 => r#gen::small(),
        1 => r#gen::medium(),
        _ => r#gen::large(),
    };
    match t.weighted(&[10, 10, 3, 2, 3, 1]) {
        0 => {
            let secs = r#gen::module(t, p);
            (enc::styled(&secs, t).bytes, "module")
        }
        1 => {
            let secs = r#gen::module(t, r#gen::small());
            let mut b = enc::styled(&secs, t).bytes;
            for _ in 0..t.range(1, 3) {
                b = mutate::mutate(&b, t).0;
            }
            (b, "mutated module")
        }
        2 => {
            let secs = r#gen::module(t, r#gen::small());
            let mut b = enc::canonical(&secs).bytes;
            b.truncate(t.upto(b.len()));
            (b, "cut-off module")
        }
        3 => {
            let n = t.upto(20);
            let mut b = if t.bool() { PRE.to_vec() } else { vec![] };
            b.extend((0..n).map(|_| t.byte()));
            (b, "bytes")
        }
        4 => {
            // an error with many causes
            let n = *t.pick(&[1usize, 2, 5, 9, 10, 11, 20, 50, 100, 150]);
            let mut e = vec![0x41u8, 7, 0x1A];
            for k in 0..n {
                e.extend([[0x02, 0x40], [0x03, 0x7F], [0x04, 0x40]][(k + t.below(3) as usize) % 3]);
            }
            e.push(*t.pick(&[0xFF, 0x0B, 0x06]));
            let f = t.upto(20);
            let mut body = vec![0];
            body.extend(e);
            let mut c = vec![];
            leb_u(f as u64 + 1, &mut c);
            for _ in 0..f {
                c.extend([2, 0, 0x0B]);
            }
            leb_u(body.len() as u64, &mut c);
            c.extend(body);
            let mut b = enc::canonical(&[Sec::Function(vec![0; f + 1])]).bytes;
            b.push(10);
            leb_u(c.len() as u64, &mut b);
            b.extend(c);
            (b, "many causes")
        }
        _ => {
            // beyond the size of a pipe; perhaps with the fault at its end
            let n = *t.pick(&[8191, 8192, 8193, 65535, 65536, 65537, 70_000, 200_000, 1 << 20]);
            let mut b = enc::canonical(&[Sec::Custom(b"big".to_vec(), vec![t.byte(); n]), Sec::Start(3)]).bytes;
            match t.below(4) {
                0 => b.push(7),
                1 => b.push(0xEE),
                2 => {
                    b.pop();
                }
                _ => {}
            }
            (b, "large input")
        }
    }
}

const NAMES: &[&[u8]] = &[
    b"m.wasm", b"a b.wasm", b"\xC3\xBC.wasm", b"-", b"-x", b"--verbose", b"--", b"\xFF\xFE", b"no-extension", b"m.txt", b"*", b"$HOME", b"a\nb",
    b"'", b"m.wat", b".wasm", b"m.wasm.gz",
];

pub static C22: Check = Check {
    id: "C22",
    level: "exploration",
    rule: "the tool is run on an input, or a path that cannot be read (distinct by input, delivery and options)",
    assumptions: &["the tool's own decisions are compared with the library as linked into the harness, from the same working tree"],
    sweep: |_| 40,
    run_sweep: |k, cx| {
        let s = Scratch::new();
        let d = &s.0;
        let os = |b: &[u8]| OsString::from_vec(b.to_vec());
        let good = enc::canonical(&[Sec::Start(1)]).bytes;
        if k < 20 {
            // paths that cannot be read
            fs::write(d.join("file"), &good).unwrap();
            fs::create_dir(d.join("dir")).unwrap();
            let _ = std::os::unix::fs::symlink("nowhere", d.join("dangling"));
            let _ = std::os::unix::fs::symlink("loop", d.join("loop"));
            let path: OsString = match k % 10 {
                0 => os(b"missing"),
                1 => os(b"dir"),
                2 => os(b"file/x"),
                3 => os(b"dangling"),
                4 => os(b"loop"),
                5 => os(&[b'n'; 300]),
                6 => os(b"dir/"),
                7 => os(b"file/"),
                8 => os(b"missing/m.wasm"),
                _ => os(b"."),
            };
            let mut args = vec![path.clone()];
            if k >= 10 {
                args.insert(0, os(b"--verbose"));
            }
            // what is on standard input makes no difference
            let out = run(d, &args, if k % 2 == 0 { Input::Nothing } else { Input::Piped(&good, 9, false) });
            if out.status.success() || out.status.code().is_none() || out.stderr.is_empty() {
                return Err(Fail::new(format!("{path:?} cannot be read; the tool ends with {}, says {:?}", out.status, String::from_utf8_lossy(&out.stderr))));
            }
            cx.eval(crate::tape::mix(&[22, k]), true);
            cx.label("path that cannot be read");
            return Ok(());
        }
        // every name, and every way to give an input: good and bad, terse and verbose
        let name = NAMES[k as usize % NAMES.len()];
        let bad = [PRE.to_vec(), vec![1, 5, 1, 0x60, 1, 0x00, 0]].concat();
        let mut junk = good.clone();
        junk.push(0);
        for b in [&good, &bad, &PRE.to_vec(), &vec![], &junk, &good[..9].to_vec()] {
            fs::write(d.join(os(name)), b).unwrap();
            let _ = fs::remove_file(d.join("link"));
            std::os::unix::fs::symlink(d.join(os(name)), d.join("link")).unwrap();
            for verbose in [false, true] {
                let v = if verbose { vec![os(b"--verbose")] } else { vec![] };
                let full = d.join(os(name)).into_os_string();
                let mut rel = os(b"./");
                rel.push(os(name));
                let ways: Vec<(&str, Vec<OsString>)> = vec![
                    ("full path", [v.clone(), vec![full.clone()]].concat()),
                    ("option last", [vec![full], v.clone()].concat()),
                    ("relative path", [v.clone(), vec![rel]].concat()),
                    ("link", [v.clone(), vec![os(b"link")]].concat()),
                ];
                for (how, args) in ways {
                    let out = run(d, &args, Input::Nothing);
                    judge(b, how, verbose, &out)?;
                    cx.eval(crate::tape::mix(&[crate::tape::hash(b), k, verbose as u64, how.len() as u64]), true);
                    cx.label("named file");
                }
                for (how, args) in [("standard input", v.clone()), ("-", [v.clone(), vec![os(b"-")]].concat()), ("- first", [vec![os(b"-")], v.clone()].concat())] {
                    let out = run(d, &args, Input::From(fs::File::open(d.join(os(name))).unwrap()));
                    judge(b, how, verbose, &out)?;
                    let out = run(d, &args, Input::Piped(b, 1 + k as usize % 5, k % 3 == 0));
                    judge(b, how, verbose, &out)?;
                    cx.eval(crate::tape::mix(&[crate::tape::hash(b), k, verbose as u64, 99 + how.len() as u64]), true);
                    cx.label("standard input");
                }
            }
        }
        Ok(())
    },
    gens: |t| if t == Tier::Quick { 6_000 } else { 200_000 },
    run_gen: |t, cx| {
        let way = t.below(6);
        let verbose = t.chance(1, 3);
        let piece = *t.pick(&[1 << 20, 1, 2, 7, 8, 9, 100, 4096, 65536]);
        let (b, kind) = bytes(t);
        let piece = piece.max(b.len() / 2000);
        if refdec::decode(&b).locals > 100_000 {
            return Err(Fail::skip());
        }
        let s = Scratch::new();
        let mut args: Vec<OsString> = vec![];
        if verbose {
            args.push("--verbose".into());
        }
        let world = t.below(18);
        // files that nobody asked for
        if t.chance(1, 3) {
            let other = [enc::canonical(&[Sec::Start(1)]).bytes, b"not a module".to_vec()];
            for name in ["-", "--verbose", "stdin", "input", "a.wasm", "m", "wadec.toml", ".wadec", ".wadecrc", "m.wasm.map"] {
                fs::write(s.0.join(name), &other[t.bool() as usize]).expect("write");
            }
            cx.label("other files about");
        }
        let out = match way {
            0..=2 => {
                fs::write(s.0.join("m.wasm"), &b).expect("write");
                args.insert(if way == 0 { 0 } else { args.len() }, "m.wasm".into());
                run_in(&s.0, &args, Input::Nothing, world)
            }
            3 => run_in(&s.0, &args, Input::Piped(&b, piece, false), world),
            4 => {
                args.push("-".into());
                run_in(&s.0, &args, Input::Piped(&b, piece, false), world)
            }
            _ => run_in(&s.0, &args, Input::Piped(&b, piece, true), world),
        };
        let how = ["file, then options", "file", "file", "standard input", "-", "slow standard input"][way as usize];
        judge(&b, how, verbose, &out)?;
        cx.eval(crate::tape::mix(&[crate::tape::hash(&b), way, verbose as u64]), true);
        let l = format!("{kind}: {}", if out.status.success() { "accepted" } else { "rejected" });
        cx.label(&l);
        cx.label(how);
        cx.sample(&l, || format!("{how}{}, {} bytes: {}", if verbose { ", verbose" } else { "" }, b.len(), clip(&String::from_utf8_lossy(&out.stderr), 200)));
        Ok(())
    },
    post: no_post,
    exhaustive: false,
    hang_is_violation: false,
};
