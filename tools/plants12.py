import os as _os
M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
LIVE = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(l.size(), SeqCst); unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static A: Count = Count;
fn live() -> usize { N.load(SeqCst) }
'''
SEEDS = [
dict(id="else-branch-copied", property="C02", needs="conditionals nested deep in the alternatives of conditionals",
  what="Each alternative is copied once more for every conditional it is nested in, so the work grows with the square of the depth.",
  edits=[(I, "                            Instruction::If(bt, in1, Some(in2))", "                            // give back the memory that the list does not need\n                            let in2: Vec<Instruction> = in2.clone();\n                            Instruction::If(bt, in1, Some(in2))")],
  demo=LIVE + r"""
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let run = |n: usize| {
            let m = funcs(&[body(&cat(&[&[4, 0x40, 5].repeat(n), &[1], &vec![0x0B; n]]))]);
            let mut best = f64::MAX;
            for _ in 0..3 {
                let t = std::time::Instant::now();
                std::mem::forget(ok(&m));
                best = best.min(t.elapsed().as_secs_f64());
            }
            best
        };
        let (a, b) = (run(400), run(4000));
        assert!(b < 40.0 * a + 0.05, "{a} {b}");
    }).unwrap().join().unwrap();
}
"""),
dict(id="runs-front", property="C02", needs="a function with very many runs of locals",
  what="Runs are taken from the front of the list one at a time, so the work grows with the square of their number.",
  edits=[(M, "                    for local in code.locals {\n", "                    let mut runs = code.locals;\n                    while !runs.is_empty() {\n                        let local = runs.remove(0);\n")],
  demo=r"""
fn main() {
    let run = |n: usize| {
        let m = funcs(&[sized(&cat(&[&u(n as u64), &[0, 0x7F].repeat(n), &[0x0B]]))]);
        let t = std::time::Instant::now();
        ok(&m);
        t.elapsed().as_secs_f64()
    };
    let (a, b) = (run(40_000), run(400_000));
    assert!(b < 30.0 * a + 0.1, "{a} {b}");
}
"""),
dict(id="trailing-end", property="C09", needs="a function body followed, within its size, by another end opcode",
  what="One end opcode too many at the end of a function body is passed over.",
  edits=[(S + "code.rs", "    if reader.limit() != 0 {\n", """    // some encoders close the function once more
    if reader.limit() == 1 && reader.get_mut().by_ref().bytes().next().transpose().is_ok_and(|b| b == Some(0x0B)) {
        return Ok(Code {
            size,
            locals,
            expr,
            encountered_data_index,
        });
    }

    if reader.limit() != 0 {
""")],
  demo=r"""
fn main() { err(&funcs(&[body(&[1, 0x0B])])); }
"""),
dict(id="size-mismatch-wide", property="C16", needs="a section of more than 65535 bytes that ends before its declared size",
  what="The size found is stated modulo 65536.",
  edits=[(M, "                got: u64::from(section_header.size) - section_reader.limit(),", "                got: u64::from((u64::from(section_header.size) - section_reader.limit()) as u16),")],
  demo=r"""
fn main() {
    let e = err(&module(&[sec(1, &cat(&[&u(70_000), &[0x5E, 0x7F, 0].repeat(70_000), &[0; 5]]))]));
    assert!(e.to_string().contains("210003"), "{e}");
}
"""),
dict(id="negative-index-wide", property="C16", needs="a negative type index below the range of 32-bit integers",
  what="A negative type index is stated modulo 2^32.",
  edits=[(T + "heaptype.rs", "            return Err(DecodeHeapTypeError::NegativeTypeIndex(x));", "            return Err(DecodeHeapTypeError::NegativeTypeIndex(i64::from(x as i32)));")],
  demo=r"""
fn main() {
    let mut e: &dyn std::error::Error = &err(&funcs(&[body(&[0xD0, 0x81, 0x80, 0x80, 0x80, 0x70])]));
    while let Some(s) = e.source() { e = s; }
    assert!(e.to_string().contains("4294967295"), "{e}");
}
"""),
dict(id="fb-opcode-cut", property="C16", needs="an undefined opcode after 0xFB that takes more than 16 bits",
  what="The opcode found is stated modulo 65536.",
  edits=[(I, "                    n => return Err(ParseError::InvalidMarkerByteAfterFB(n)),", "                    n => return Err(ParseError::InvalidMarkerByteAfterFB(n & 0xFFFF)),")],
  demo=r"""
fn main() {
    let e = format!("{:?}", err(&funcs(&[body(&[0xFB, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F])])));
    assert!(e.contains(&u32::MAX.to_string()), "{e}");
}
"""),
dict(id="codes-count-low-bits", property="C16", needs="function and body counts that differ, the latter beyond 65535",
  what="The number of bodies found is stated modulo 65536.",
  edits=[(M, "                        codes_len: codes.len(),\n", "                        codes_len: usize::from(codes.len() as u16),\n")],
  demo=r"""
fn main() {
    let e = err(&module(&[type_sec(), func_sec(3), sec(10, &list(&vec![body(&[]); 65_537]))]));
    assert!(format!("{e:?}").contains("65537"), "{e:?}");
}
"""),
dict(id="locals-five-million", property="C19", needs="a run of more than five million locals",
  what="Runs are cut to five million locals.",
  edits=[(M, "                        for _ in 0..local.count {", "                        for _ in 0..local.count.min(5_000_000) {")],
  demo=r"""
fn main() {
    let m = ok(&funcs(&[sized(&cat(&[&[1], &u(6_000_000), &[0x7F, 0x0B]]))]));
    assert_eq!(m.funcs[0].locals.len(), 6_000_000);
}
"""),
dict(id="locals-of-late-runs", property="C19", needs="a function of more than 50000 runs of locals",
  what="Only the first 50000 runs of locals are expanded.",
  edits=[(M, "                    for local in code.locals {\n", "                    for local in code.locals.into_iter().take(50_000) {\n")],
  demo=r"""
fn main() {
    let m = ok(&funcs(&[sized(&cat(&[&u(50_001), &[1, 0x7F].repeat(50_001), &[0x0B]]))]));
    assert_eq!(m.funcs[0].locals.len(), 50_001);
}
"""),
dict(id="mention-in-late-function", property="C10", needs="a data instruction in a function beyond the 65536th, without a data count",
  what="Mentions of data segments are looked for in the first 65536 functions only.",
  edits=[(M, "                    if code.encountered_data_index {", "                    if code.encountered_data_index && i <= usize::from(u16::MAX) {")],
  demo=r"""
fn main() {
    let mut b = vec![body(&[]); 65_536];
    b.push(body(&[0xFC, 9, 0]));
    err(&funcs(&b));
}
"""),
dict(id="mention-late-instruction", property="C10", needs="a data instruction after many others in a function, without a data count",
  what="Mentions of data segments are looked for among the first thousand instructions of a function only.",
  edits=[(H, "                if instruction_contains_data_index(&ins) {", "                if body.len() < 1000 && instruction_contains_data_index(&ins) {")],
  demo=r"""
fn main() { err(&funcs(&[body(&cat(&[&[1; 1200], &[0xFC, 9, 0]]))])); }
"""),
dict(id="mention-deep", property="C10", needs="a data instruction more than 64 blocks deep, without a data count",
  what="Mentions of data segments are looked for 64 blocks deep only.",
  edits=[(H, "                if instruction_contains_data_index(&ins) {", "                if instruction_contains_data_index(&ins, 64) {"),
         (H, "fn instruction_contains_data_index(ins: &Instruction) -> bool {\n    match ins {", "fn instruction_contains_data_index(ins: &Instruction, depth: usize) -> bool {\n    // save the stack\n    let Some(depth) = depth.checked_sub(1) else {\n        return false;\n    };\n    let inner = |i: &Instruction| instruction_contains_data_index(i, depth);\n    match ins {"),
         (H, "        | Instruction::TryTable(_, _, body) => body.iter().any(instruction_contains_data_index),", "        | Instruction::TryTable(_, _, body) => body.iter().any(inner),"),
         (H, "            then_body.iter().any(instruction_contains_data_index)\n", "            then_body.iter().any(inner)\n"),
         (H, "                    .is_some_and(|body| body.iter().any(instruction_contains_data_index))", "                    .is_some_and(|body| body.iter().any(inner))")],
  demo=r"""
fn main() { err(&funcs(&[body(&cat(&[&[2, 0x40].repeat(70), &[0xFC, 9, 0], &[0x0B; 70]]))])); }
"""),
dict(id="shuffle-short-read", property="C13", needs="a reader that delivers less than sixteen bytes where an i8x16.shuffle has its lanes",
  what="The lanes of a shuffle are read with a single call of the reader.",
  edits=[(I, "                    let mut immediates = [0u8; 16];\n                    reader\n                        .read_exact(&mut immediates)\n", "                    let mut immediates = [0u8; 16];\n                    reader\n                        .read(&mut immediates)\n                        .and_then(|n| if n == 0 { Err(io::ErrorKind::UnexpectedEof.into()) } else { Ok(()) })\n")],
  demo=r"""
struct One<'a>(&'a [u8]);
impl Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(1); self.0.read(&mut b[..n]) }
}
fn main() {
    let m = funcs(&[body(&cat(&[&[0xFD, 13], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]]))]);
    assert_eq!(format!("{:?}", ok(&m)), format!("{:?}", decode_module(One(&m)).unwrap()));
}
"""),
dict(id="error-printed-cut", property="C33", needs="an error whose debug print is long",
  what="The debug print of what is wrong with a list entry is cut after 300 bytes.",
  edits=[(H, """                    &format_args!(
                        "{}::{source:#?}",
                        std::any::type_name::<E>()
                            .rsplit("::")
                            .next()
                            .unwrap_or_else(|| std::any::type_name::<E>())
                    ),""", """                    &format_args!(
                        "{}::{:.300}",
                        std::any::type_name::<E>()
                            .rsplit("::")
                            .next()
                            .unwrap_or_else(|| std::any::type_name::<E>()),
                        format!("{source:#?}")
                    ),""")],
  demo=r"""
fn main() {
    let e = |b: u8| format!("{:#?}", err(&module(&[sec(1, &[1, 0x4E, 2, 0x5E, 0x7F, 0, 0x60, 1, 0x64, b])])));
    let f = |b: u8| format!("{:#?}", err(&module(&[sec(1, &[1, 0x4E, 2, 0x5E, 0x7F, 0, 0x60, 3, 0x7F, 0x7F, 0x64, b])])));
    let g = |b: u8| format!("{:#?}", err(&module(&[sec(1, &[1, 0x4E, 2, 0x5E, 0x7F, 0, 0x5F, 3, 0x7F, 0, 0x7F, 0, 0x64, b])])));
    for b in 0x41..0x60u8 {
        assert_ne!(e(b), e(b + 1));
        assert_ne!(f(b), f(b + 1));
        assert_ne!(g(b), g(b + 1));
    }
}
"""),
dict(id="order-of-suggestions", property="C23", needs="an error that enumerates several bytes, more than once",
  what="The bytes that an error suggests are told in another order every time.",
  edits=[("src/decode/mod.rs", """        Self::markers()
            .entries()
            .map(|(marker, variant)| format!("{marker:#04X} ({variant:?})"))
            .collect::<Vec<String>>()
""", """        // each byte once
        Self::markers()
            .entries()
            .map(|(marker, variant)| format!("{marker:#04X} ({variant:?})"))
            .collect::<std::collections::HashSet<String>>()
            .into_iter()
            .collect::<Vec<String>>()
""")],
  demo=r"""
fn main() {
    let m = module(&[sec(1, &[1, 0x60, 1, 0x11, 0])]);
    let text = || { let e = err(&m); let mut c: &dyn std::error::Error = &e; while let Some(s) = c.source() { c = s; } c.to_string() };
    let a = text();
    for _ in 0..50 { assert_eq!(a, text()); }
}
"""),
dict(id="failed-lists-kept", property="C29", needs="many decodings of modules with an error beyond the 1000th entry of a list",
  what="Long lists that turn out to be malformed are never freed.",
  edits=[(H, """        let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
            position: i,
            source: err,
        })?;
        items.push(elem);""", """        match parse_fn(reader) {
            Ok(elem) => items.push(elem),
            Err(source) => {
                // it takes long to free them, and the caller is about to give up
                if items.len() >= 1000 {
                    std::mem::forget(items);
                }
                return Err(DecodeListError::ParseElement {
                    position: i,
                    source,
                });
            }
        }""")],
  demo=LIVE + r"""
fn main() {
    let m = module(&[sec(1, &cat(&[&u(1201), &[0x5E, 0x7F, 0].repeat(1200), &[0]]))]);
    drop(err(&m));
    let a = live();
    for _ in 0..20 { drop(err(&m)); }
    assert!(live() - a < 10_000, "{}", live() - a);
}
"""),
dict(id="cli-name-utf8", property="C22", cli=True, needs="a file whose name is not UTF-8",
  what="The tool rejects names of files that are not UTF-8.",
  edits=[(L, "    let input = cli.input.open().unwrap_or_else(|e| abort(&cli, e));\n", """    if let InputArg::Path(path) = &cli.input
        && path.to_str().is_none()
    {
        let e = std::io::Error::new(std::io::ErrorKind::InvalidInput, "file name is not valid UTF-8");
        abort(&cli, e)
    }
    let input = cli.input.open().unwrap_or_else(|e| abort(&cli, e));
""")],
  demo=r'''
use std::process::Command;
use std::os::unix::ffi::OsStrExt;
fn main() {
    let d = std::env::temp_dir().join(format!("demo-name-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(std::ffi::OsStr::from_bytes(b"m\xff.wasm"));
    std::fs::write(&p, module(&[type_sec()])).unwrap();
    let o = Command::new(std::env::var("WADEC").unwrap()).arg(&p).output().unwrap();
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir(&d);
    assert!(o.status.success(), "{o:?}");
}
'''),
dict(id="cli-first-line", property="C22", cli=True, needs="an error whose message takes several lines",
  what="The tool prints only the first line of an error.",
  edits=[(L, '        for (i, cause) in sources.iter().enumerate() {\n            eprintln!("    {i}: {cause}");', '        for (i, cause) in sources.iter().enumerate() {\n            // keep it one line each\n            let cause = cause.to_string();\n            eprintln!("    {i}: {}", cause.lines().next().unwrap_or_default());'),
         (L, '    eprintln!("ERROR: {err}");', '    let text = err.to_string();\n    eprintln!("ERROR: {}", text.lines().next().unwrap_or_default());')],
  demo=r'''
use std::process::{Command, Stdio};
use std::io::Write;
fn main() {
    let mut c = Command::new(std::env::var("WADEC").unwrap()).arg("-").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(b"\0asm\x09\0\0\0").unwrap();
    let o = c.wait_with_output().unwrap();
    assert!(String::from_utf8_lossy(&o.stderr).contains("0x9"), "{o:?}");
}
'''),
dict(id="cli-debug-compact", property="C22", cli=True, needs="a module with an empty name or a float, printed in verbose mode",
  what="In verbose mode the tool leaves out lines of the module that are empty lists.",
  edits=[(L, '        println!("{module:#?}");', """        for line in format!("{module:#?}").lines() {
            if !line.ends_with(": [],") {
                println!("{line}");
            }
        }""")],
  demo=r'''
use std::process::{Command, Stdio};
use std::io::Write;
fn main() {
    let m = module(&[type_sec()]);
    let mut c = Command::new(std::env::var("WADEC").unwrap()).args(["-", "--verbose"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(&m).unwrap();
    let o = c.wait_with_output().unwrap();
    assert_eq!(String::from_utf8_lossy(&o.stdout).trim_end(), format!("{:#?}", ok(&m)));
}
'''),
dict(id="count-plus-one", property="C34", release=True, needs="a list of 2^32 - 1 entries, by its count",
  what="Counting entries from one overflows: debug builds panic, release builds take the list for empty.",
  edits=[(H, "    for i in 0..len {\n", "    for n in 1..len + 1 {\n        let i = n - 1;\n")],
  demo=r"""
fn main() { err(&module(&[sec(1, &u(u32::MAX.into()))])); }
"""),
dict(id="capacity-doubled", property="C34", release=True, needs="a list of 2^31 or more entries, by its count",
  what="An estimate of memory overflows in builds that check for it.",
  edits=[(H, "    let mut items = Vec::with_capacity(len.min(MAX_PREALLOCATED_ITEMS).try_into().unwrap());", "    // two bytes are the least that most entries take\n    let bytes = len * 2;\n    let mut items = Vec::with_capacity((bytes / 2).min(len).min(MAX_PREALLOCATED_ITEMS).try_into().unwrap());")],
  demo=r"""
fn main() { err(&module(&[sec(1, &u(u32::MAX.into()))])); }
"""),
dict(id="catch-position-nested", property="C15", needs="a malformed catch clause of a try_table within another",
  what="The position of a clause is counted on from the clauses of the enclosing try_table.",
  edits=[(I, "                let c = decode_list(reader, Catch::decode)\n                    .map_err(ControlError::DecodeCatchListError)?;\n", """                let outer = CLAUSES.get();
                let c = decode_list(reader, Catch::decode).map_err(|e| {
                    ControlError::DecodeCatchListError(match e {
                        DecodeListError::ParseElement { position, source } => {
                            CLAUSES.set(0);
                            DecodeListError::ParseElement { position: position + outer, source }
                        }
                        other => other,
                    })
                })?;
                CLAUSES.set(c.len() as u32);
"""), (I, "                Instruction::TryTable(bt, c, ins)", "                CLAUSES.set(outer);\n                Instruction::TryTable(bt, c, ins)"),
   (I, "impl Instruction {\n    pub(crate) fn parse<", "thread_local! {\n    static CLAUSES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };\n}\n\nimpl Instruction {\n    pub(crate) fn parse<")],
  demo=r"""
fn main() {
    let e = format!("{:?}", err(&funcs(&[body(&[0x1F, 0x40, 2, 2, 0, 2, 0, 0x1F, 0x40, 1, 9, 0, 0x0B, 0x0B])])));
    assert!(e.contains("position: 0") && !e.contains("position: 2"), "{e}");
}
"""),
dict(id="locals-error-first-run", property="C15", needs="a malformed type of a run of locals, after an empty run",
  what="Empty runs of locals are not counted in the position of a malformed one.",
  edits=[(S + "code.rs", """    let locals = decode_list(&mut reader, |r| {
        parse_code_local(r, &mut expanded_locals, max_locals)
    })?;
""", """    let mut empty = 0;
    let locals = decode_list(&mut reader, |r| {
        let local = parse_code_local(r, &mut expanded_locals, max_locals)?;
        if local.count == 0 {
            empty += 1;
        }
        Ok(local)
    })
    .map_err(|e| match e {
        DecodeListError::ParseElement { position, source } => DecodeListError::ParseElement {
            position: position - empty,
            source,
        },
        other => other,
    })?;
""")],
  demo=r"""
fn main() {
    let e = format!("{:?}", err(&funcs(&[sized(&[3, 0, 0x7F, 1, 0x7F, 1, 0x11, 0x0B])])));
    assert!(e.contains("position: 2"), "{e}");
}
"""),
dict(id="body-print-short", property="C28", needs="two functions that differ after their 5000th instruction",
  what="The print of a function has its first 5000 instructions only.",
  edits=[(C + "mod.rs", "#[derive(Debug, PartialEq)]\npub struct Func {", """impl std::fmt::Debug for Func {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // nobody reads more of it
        let body = &self.body[..self.body.len().min(5000)];
        f.debug_struct("Func")
            .field("type", &self.r#type)
            .field("locals", &self.locals)
            .field("body", &body)
            .finish()
    }
}

#[derive(PartialEq)]
pub struct Func {""")],
  demo=r"""
fn main() {
    let a = ok(&funcs(&[body(&cat(&[&[1; 6000], &[0x1A]]))]));
    let b = ok(&funcs(&[body(&cat(&[&[1; 6000], &[0x1B]]))]));
    assert_ne!(format!("{a:?}"), format!("{b:?}"));
}
"""),
]
