M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
LIVE = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn live() -> i64 { LIVE.load(Ordering::Relaxed) }
'''
SEEDS = [
# ---- C28
dict(id="debug-data-elided", property="C28", needs="two data segments longer than 256 bytes that differ only after the 256th byte",
  what="The print of a data segment shows its first 256 bytes and its length.",
  edits=[(C + "mod.rs", "#[derive(Debug, PartialEq)]\npub struct Data {\n    pub init: Vec<u8>,\n    pub mode: DataMode,\n}\n", """#[derive(PartialEq)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: DataMode,
}

// Data segments tend to be large, so keep their representation readable.
impl std::fmt::Debug for Data {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = f.debug_struct("Data");
        if self.init.len() > 256 {
            s.field("init", &format_args!("{:?}... ({} bytes)", &self.init[..256], self.init.len()));
        } else {
            s.field("init", &self.init);
        }
        s.field("mode", &self.mode).finish()
    }
}
""")],
  demo=r'''
fn data(last: u8) -> Vec<u8> {
    let mut b = vec![7; 300];
    b[299] = last;
    module(&[sec(11, &list(&[cat(&[&[1], &sized(&b)])]))])
}
fn main() {
    assert_ne!(format!("{:?}", ok(&data(1))), format!("{:?}", ok(&data(2))));
}
'''),
dict(id="eq-section-sizes", property="C28", needs="two modules that are equal but for the sizes of their sections",
  what="Section headers compare equal whatever their sizes.",
  edits=[(C + "module.rs", "#[derive(PartialEq, Debug)]\npub struct SectionHeader {\n    pub kind: SectionKind,\n    pub size: u32,\n}\n", """#[derive(Debug)]
pub struct SectionHeader {
    pub kind: SectionKind,
    pub size: u32,
}

impl PartialEq for SectionHeader {
    // how long a section's encoding happens to be is not part of its meaning
    fn eq(&self, other: &Self) -> bool {
        self.kind == other.kind
    }
}
""")],
  demo=r'''
fn main() {
    let a = ok(&module(&[sec(5, &[1, 0, 5])]));
    let b = ok(&module(&[sec(5, &[1, 0, 0x85, 0])]));
    assert_ne!(a, b);
}
'''),
dict(id="eq-custom-unordered", property="C28", needs="two modules with the same custom sections in a different order",
  what="Module equality compares custom sections irrespective of their order and repetition.",
  edits=[(C + "module.rs", "#[derive(Debug, PartialEq)]\npub struct Module {", """impl PartialEq for Module {
    fn eq(&self, other: &Self) -> bool {
        // custom sections may be placed anywhere in a module
        let customs = self.custom_sections.len() == other.custom_sections.len()
            && self
                .custom_sections
                .iter()
                .all(|c| other.custom_sections.contains(c));
        customs
            && self.version == other.version
            && self.parsed_section_kinds == other.parsed_section_kinds
            && self.section_headers == other.section_headers
            && self.types == other.types
            && self.funcs == other.funcs
            && self.tables == other.tables
            && self.mems == other.mems
            && self.globals == other.globals
            && self.elems == other.elems
            && self.data_count == other.data_count
            && self.datas == other.datas
            && self.start == other.start
            && self.imports == other.imports
            && self.exports == other.exports
            && self.tags == other.tags
    }
}

#[derive(Debug)]
pub struct Module {""")],
  demo=r'''
fn main() {
    let a = ok(&module(&[sec(0, &[1, b'a']), sec(0, &[1, b'b'])]));
    let b = ok(&module(&[sec(0, &[1, b'b']), sec(0, &[1, b'a'])]));
    assert_ne!(a, b);
}
'''),
dict(id="eq-memarg-alignment", property="C28", needs="two modules that differ in the alignment hint of one memory access",
  what="Memory arguments compare equal when memory and offset agree; the alignment, a hint, is left out.",
  edits=[(C + "instruction.rs", "#[derive(Debug, Clone, Copy, PartialEq)]\npub struct Memarg {", """impl PartialEq for Memarg {
    fn eq(&self, other: &Self) -> bool {
        // the alignment is only a hint
        self.mem_idx == other.mem_idx && self.offset == other.offset
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Memarg {""")],
  demo=r'''
fn main() {
    assert_ne!(ins1(&[0x28, 0, 4]), ins1(&[0x28, 1, 4]));
}
'''),
dict(id="debug-locals-runs", property="C28", needs="functions whose locals are the same types in a different grouping (i32 i64 i32 against i32 i32 i64), more than 16 of them",
  what="The print of a function with more than 16 locals counts its locals by type, which loses their order.",
  edits=[(C + "mod.rs", "#[derive(Debug, PartialEq)]\npub struct Func {", """impl std::fmt::Debug for Func {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = f.debug_struct("Func");
        s.field("type", &self.r#type);
        if self.locals.len() > 16 {
            // group what would be a long list
            let mut runs: Vec<(usize, &ValType)> = vec![];
            for l in &self.locals {
                match runs.iter_mut().find(|(_, t)| *t == l) {
                    Some((n, _)) => *n += 1,
                    None => runs.push((1, l)),
                }
            }
            s.field("locals", &runs);
        } else {
            s.field("locals", &self.locals);
        }
        s.field("body", &self.body).finish()
    }
}

#[derive(PartialEq)]
pub struct Func {""")],
  demo=r'''
fn f(runs: &[(u8, u8)]) -> String {
    let l: Vec<Vec<u8>> = runs.iter().map(|r| vec![r.0, r.1]).collect();
    format!("{:?}", ok(&funcs(&[sized(&cat(&[&list(&l), &[0x0b]]))])).funcs)
}
fn main() {
    assert_ne!(f(&[(10, 0x7f), (5, 0x7e), (5, 0x7f)]), f(&[(15, 0x7f), (5, 0x7e)]));
}
'''),
dict(id="debug-names-cut", property="C28", needs="imports whose names agree in their first 64 characters",
  what="The print of an import abbreviates names of more than 64 characters.",
  edits=[(C + "mod.rs", "#[derive(Debug, PartialEq)]\npub struct Import {", """impl std::fmt::Debug for Import {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // mangled names can be very long
        fn short(s: &str) -> String {
            s.chars().take(64).collect()
        }
        f.debug_struct("Import")
            .field("module_name", &short(&self.module_name))
            .field("item_name", &short(&self.item_name))
            .field("extern_type", &self.extern_type)
            .finish()
    }
}

#[derive(PartialEq)]
pub struct Import {""")],
  demo=r'''
fn i(last: u8) -> String {
    let mut n = vec![b'a'; 80];
    n[79] = last;
    format!("{:?}", ok(&module(&[sec(2, &list(&[cat(&[&sized(b"m"), &sized(&n), &[0, 0]])]))])))
}
fn main() {
    assert_ne!(i(b'x'), i(b'y'));
}
'''),
# ---- C29
dict(id="deep-bodies-leaked", property="C29", needs="a body nested more than 500 deep that is then found to be malformed",
  what="Deeply nested code that turns out to be malformed is leaked rather than dropped, to be safe from overflowing the stack.",
  edits=[(I, """                loop {
                    parsed = Self::parse(reader)?;
                    match parsed {
                        ParseResult::Instruction(i) => in1.push(i),
                        ParseResult::End => break,
""", """                loop {
                    parsed = match Self::parse(reader) {
                        Ok(p) => p,
                        Err(e) => {
                            // dropping nested instructions is recursive
                            std::mem::forget(in1);
                            return Err(e);
                        }
                    };
                    match parsed {
                        ParseResult::Instruction(i) => in1.push(i),
                        ParseResult::End => break,
""")],
  demo=LIVE + r'''
fn main() {
    let m = funcs(&[body(&[0x02, 0x40, 0x01, 0x01, 0x01, 0xff, 0x0b])]);
    let _ = decode_module(&m[..]).is_err();
    let a = live();
    for _ in 0..10_000 { assert!(decode_module(&m[..]).is_err()); }
    assert!(live() - a < 10_000, "{}", live() - a);
}
'''),
dict(id="buffer-pool-grows", property="C29", needs="many decodings of modules whose names or data vectors end early",
  what="Buffers of byte vectors that could not be filled go to a pool that is never emptied.",
  edits=[(H, "    reader.take(len.into()).read_to_end(&mut b)?;\n    if b.len() != usize::try_from(len).unwrap() {\n", """    reader.take(len.into()).read_to_end(&mut b)?;
    if b.len() != usize::try_from(len).unwrap() {
        SPARE.with(|s| s.borrow_mut().push(b));
"""), (H, "#[derive(Debug, Error)]\npub enum DecodeByteVectorError {", """thread_local! {
    // buffers to be used again
    static SPARE: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(Vec::new()) };
}

#[derive(Debug, Error)]
pub enum DecodeByteVectorError {"""), (H, "    let mut b = Vec::new();\n", "    let mut b = Vec::new();\n    SPARE.with(|s| s.borrow_mut().retain(|v| v.capacity() > 0));\n")],
  demo=LIVE + r'''
fn main() {
    let m = module(&[sec(11, &[1, 1, 100, 1, 2, 3])]);
    let _ = decode_module(&m[..]).is_err();
    let a = live();
    for _ in 0..10_000 { assert!(decode_module(&m[..]).is_err()); }
    assert!(live() - a < 10_000, "{}", live() - a);
}
'''),
dict(id="import-modules-interned", property="C29", needs="many modules whose imports name different modules",
  what="Names of imported modules are kept in a table for the life of the process.",
  edits=[(S + "import.rs", "    let item_name = decode_name(reader).map_err(DecodeImportError::DecodeItemName)?;\n", """    let module_name = intern(&module_name).to_string();
    let item_name = decode_name(reader).map_err(DecodeImportError::DecodeItemName)?;
"""), (S + "import.rs", "fn parse_import<", """// The same few modules are imported again and again.
fn intern(name: &str) -> &'static str {
    static NAMES: std::sync::Mutex<std::collections::BTreeSet<&'static str>> =
        std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut names = NAMES.lock().unwrap();
    match names.get(name) {
        Some(n) => n,
        None => {
            let n: &'static str = Box::leak(name.to_string().into_boxed_str());
            names.insert(n);
            n
        }
    }
}

fn parse_import<""")],
  demo=LIVE + r'''
fn main() {
    let m = |i: u32| module(&[sec(2, &list(&[cat(&[&sized(format!("module {i}").as_bytes()), &sized(b"f"), &[0, 0]])]))]);
    ok(&m(0));
    let a = live();
    for i in 0..10_000 { ok(&m(i)); }
    assert!(live() - a < 10_000, "{}", live() - a);
}
'''),
# ---- C30
dict(id="next-header-blamed", property="C30", needs="a malformed section that is followed by a byte that is no section id",
  what="When a Type section is malformed and no section follows its end, its size is blamed instead.",
  edits=[(M, "            SectionKind::Type => module.types = decode_type_section(section_reader)?,\n", """            SectionKind::Type => match decode_type_section(&mut section_reader) {
                Ok(types) => module.types = types,
                Err(e) => {
                    // if no section follows where this one ends, then its size is the likely culprit
                    let consumed = u64::from(section_header.size) - section_reader.limit();
                    let _ = io::copy(&mut section_reader, &mut io::sink());
                    let mut next = [0u8];
                    let follows = input.read_exact(&mut next).is_ok();
                    if follows && SectionKind::from_marker(next[0]).is_err() {
                        return Err(DecodeModuleError::SectionSizeMismatch {
                            section_kind,
                            declared: section_header.size,
                            got: consumed,
                        });
                    }
                    return Err(e.into());
                }
            },
""")],
  demo=r'''
fn main() {
    let bad = module(&[sec(1, &[1, 0x60, 1, 0x01, 0])]);
    let e = err(&bad).to_string();
    assert_eq!(e, err(&cat(&[&bad, &[0xff; 4]])).to_string());
    assert_eq!(e, err(&cat(&[&bad, &[3, 1, 0]])).to_string());
}
'''),
dict(id="code-error-deferred", property="C30", needs="a malformed code section that is followed by a malformed data section",
  what="An error in the code section is reported only after the remaining sections, whose errors come first.",
  edits=[(M, "                let codes = decode_code_section(section_reader)?;\n", """                let codes = match decode_code_section(&mut section_reader) {
                    Ok(codes) => codes,
                    Err(e) => {
                        // whatever is wrong with the structure of the module is to be told first
                        module.parsed_section_kinds.push(section_kind);
                        let _ = io::copy(&mut section_reader, &mut io::sink());
                        while let Ok(Some(header)) = decode_section_header(&mut input) {
                            module.validate_section_kind_expected(&header)?;
                            let _ =
                                io::copy(&mut input.by_ref().take(header.size.into()), &mut io::sink());
                        }
                        return Err(e.into());
                    }
                };
""")],
  demo=r'''
fn main() {
    let bad = funcs(&[body(&[0xff])]);
    let e = err(&bad).to_string();
    assert_eq!(e, err(&cat(&[&bad, &[3, 1, 0]])).to_string());
}
'''),
dict(id="input-read-whole", property="C30", needs="an input that does not end after a malformed section (or whose reader fails there)",
  what="After an unexpected preamble, the rest of the input is read, to tell an empty module from another kind of file.",
  edits=[(M, "    if preamble != EXPECTED_PREAMBLE {\n", """    if preamble != EXPECTED_PREAMBLE {
        // leave the input at its end, so that whoever writes to a pipe is not cut off
        io::copy(reader, &mut io::sink())?;
""")],
  demo=r'''
struct Endless(usize);
impl Read for Endless {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += b.len();
        assert!(self.0 < 1 << 24, "reads on and on");
        b.fill(0);
        Ok(b.len())
    }
}
fn main() {
    assert!(decode_module(Endless(0)).is_err());
}
'''),
# ---- others
dict(id="utf8-error-length", property="C01", needs="a name that ends in the middle of a character",
  what="The decoder assumes that every UTF-8 error has a length, and panics on a name that is cut off.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    match String::from_utf8(decode_byte_vector(reader)?) {
        Ok(s) => Ok(s),
        Err(e) => {
            debug_assert!(e.utf8_error().error_len().unwrap() > 0);
            Err(e.into())
        }
    }
""")],
  demo=r'''
fn main() {
    err(&module(&[sec(0, &[2, b'a', 0xe2])]));
}
'''),
dict(id="list-capacity-hint", property="C02", needs="one long list, followed by many short ones",
  what="Lists are allocated with the capacity that the longest list so far needed.",
  edits=[(H, "    for i in 0..len {\n", """    items.reserve(LONGEST.get().min(1 << 16));
    for i in 0..len {
"""), (H, "    Ok(items)\n", "    LONGEST.set(LONGEST.get().max(items.len()));\n    Ok(items)\n"),
  (H, "// Upper bound on the number of vector elements we", """thread_local! {
    // what the longest list yet needed, as a hint for the ones to come
    static LONGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

// Upper bound on the number of vector elements we""")],
  demo=LIVE + r'''
fn main() {
    let mut ins = vec![];
    ins.extend([0x0e]); ins.extend(u(60_000)); ins.extend(vec![0; 60_001]);
    for _ in 0..2000 { ins.extend([0x0e, 1, 0, 0]); }
    let m = ok(&funcs(&[body(&ins)]));
    assert_eq!(m.funcs[0].body.len(), 2001);
    assert!(live() < 20 << 20, "{} bytes", live());
}
'''),
dict(id="negative-zero", property="C06", needs="a constant -0.0 of 64 bits",
  what="f64 constants are canonicalised by adding zero, which turns -0.0 into 0.0.",
  edits=[(H, "    Ok(f64::from_le_bytes(buf))\n", """    let x = f64::from_le_bytes(buf);
    Ok(if x.is_subnormal() || x == 0.0 { x + 0.0 } else { x })
""")],
  demo=r'''
fn main() {
    let Instruction::F64Const(x) = ins1(&[0x44, 0, 0, 0, 0, 0, 0, 0, 0x80]) else { panic!() };
    assert!(x.is_sign_negative());
}
'''),
dict(id="truncated-custom-accepted", property="C12", needs="a file cut off inside the contents of a custom section",
  what="A custom section at the end of the file may be cut short, as its contents have no structure.",
  edits=[(M, "        if section_reader.limit() != 0 {\n", "        if section_reader.limit() != 0 && (section_kind != SectionKind::Custom || module.custom_sections.last().is_some_and(|c| c.contents.len() < 3)) {\n")],
  demo=r'''
fn main() {
    err(&module(&[vec![0, 10, 1, b'n', 1, 2, 3]]));
}
'''),
dict(id="vector-chunk-short", property="C13", needs="a byte vector of more than 4096 bytes, from a reader that hands out pieces smaller than asked for",
  what="Long byte vectors are read in chunks; a chunk that is not filled is taken for the end of the input.",
  edits=[(H, "    reader.take(len.into()).read_to_end(&mut b)?;\n", """    let mut rest = reader.take(len.into());
    if len > 4096 {
        let mut chunk = [0u8; 4096];
        loop {
            let n = match rest.read(&mut chunk) {
                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                n => n?,
            };
            b.extend_from_slice(&chunk[..n]);
            if n < chunk.len() {
                break;
            }
        }
    } else {
        rest.read_to_end(&mut b)?;
    }
""")],
  demo=r'''
struct Pieces<'a>(&'a [u8]);
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(1000); self.0.read(&mut b[..n]) }
}
fn main() {
    let m = module(&[sec(11, &list(&[cat(&[&[1], &sized(&[9; 5000])])]))]);
    ok(&m);
    assert!(decode_module(Pieces(&m)).is_ok());
}
'''),
dict(id="connection-reset-end", property="C14", needs="a reader that fails with ConnectionReset between two sections",
  what="A connection that is reset between two sections is taken for the end of the module.",
  edits=[(M, "            Err(e) => return Err(e.into()),\n", """            // peers that close without ceremony
            Err(e) if e.kind() == io::ErrorKind::ConnectionReset => return Ok(None),
            Err(e) => return Err(e.into()),
""")],
  demo=r'''
struct Fails<'a>(&'a [u8]);
impl Read for Fails<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Err(io::ErrorKind::ConnectionReset.into()); }
        self.0.read(b)
    }
}
fn main() {
    assert!(decode_module(Fails(&module(&[type_sec()]))).is_err());
}
'''),
dict(id="long-names-lossy", property="C17", needs="a name of more than 1024 bytes that is not UTF-8 beyond its 1024th byte",
  what="Only the first 1024 bytes of a name are checked to be UTF-8.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    let bytes = decode_byte_vector(reader)?;
    if bytes.len() > 1024 && bytes[..1024].is_ascii() {
        // nobody looks at more of a name than that
        return Ok(String::from_utf8_lossy(&bytes).into_owned());
    }
    Ok(bytes.try_into()?)
""")],
  demo=r'''
fn main() {
    let mut n = vec![b'a'; 1100];
    n[1080] = 0xff;
    err(&module(&[sec(0, &sized(&n))]));
}
'''),
dict(id="imports-dedup", property="C21", needs="two consecutive imports that are the same in every respect",
  what="Consecutive imports that are identical are merged into one, which shifts the index space.",
  edits=[(S + "import.rs", "    Ok(decode_list(reader, parse_import)?)\n", """    let mut imports = decode_list(reader, parse_import)?;
    imports.dedup();
    Ok(imports)
""")],
  demo=r'''
fn main() {
    let i = cat(&[&sized(b"m"), &sized(b"f"), &[0, 0]]);
    assert_eq!(ok(&module(&[type_sec(), sec(2, &list(&[i.clone(), i]))])).imports.len(), 2);
}
'''),
dict(id="supertypes-sorted", property="C18", needs="a subtype with two or more supertypes that are not in ascending order",
  what="The supertypes of a subtype are reported in ascending order and without repetitions.",
  edits=[(T + "rectype.rs", "                let x = decode_list(reader, TypeIdx::decode)?;\n", """                let mut x = decode_list(reader, TypeIdx::decode)?;
                x.sort_by_key(|t| t.0);
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(1, &[1, 0x50, 2, 5, 3, 0x60, 0, 0])]));
    assert_eq!(m.types[0].0[0].supertypes, [TypeIdx(5), TypeIdx(3)]);
}
'''),
dict(id="elements-normalised", property="C20", needs="an element segment with expressions all of which are a single ref.func, of type (ref null func)",
  what="Element segments of expressions that are all ref.func get the type of the short form, which is not nullable.",
  edits=[(S + "element.rs", "    Ok(Elem { r#type, init, mode })\n", """    let all_funcs = init.len() > 1
        && init
            .iter()
            .all(|e| matches!(e[..], [Instruction::RefFunc(_)]));
    let r#type = if bitfield == 4 && all_funcs {
        // the same as form 0
        RefType {
            nullable: false,
            ..r#type
        }
    } else {
        r#type
    };

    Ok(Elem { r#type, init, mode })
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(9, &[1, 4, 0x41, 0, 0x0b, 2, 0xd2, 0, 0x0b, 0xd2, 1, 0x0b])]));
    assert!(m.elems[0].r#type.nullable);
}
'''),
dict(id="name-section-checked", property="C11", needs="a custom section called name whose contents are not a sequence of subsections",
  what="The contents of the custom section called name are checked, and the module rejected if they have no structure.",
  edits=[(S + "custom.rs", "    Ok(CustomSection { name, contents })\n", """    if name == "name" {
        // a sequence of subsections, each with an id and a size
        let mut rest = &contents[..];
        while !rest.is_empty() {
            let id = crate::read_byte(&mut rest)?;
            let size = crate::read_byte(&mut rest)?;
            if id > 11 || usize::from(size & 0x7F) > rest.len() {
                return Err(io::Error::new(io::ErrorKind::InvalidData, "malformed name section").into());
            }
            if size > 0x7F {
                break;
            }
            rest = &rest[size.into()..];
        }
    }

    Ok(CustomSection { name, contents })
""")],
  demo=r'''
fn main() {
    ok(&module(&[sec(0, &cat(&[&sized(b"name"), &[0xff, 0xfe]]))]));
}
'''),
dict(id="cli-fifo-empty", property="C22", cli=True, needs="a path that is no regular file but can be read (a named pipe)",
  what="The tool asks for the length of the file first, and rejects what has none, such as a pipe.",
  edits=[(L, "    let input = cli.input.open().unwrap_or_else(|e| abort(&cli, e));\n", """    if let InputArg::Path(path) = &cli.input
        && std::fs::metadata(path).is_ok_and(|m| m.len() == 0)
    {
        let e = std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "failed to fill whole buffer");
        abort(&cli, e)
    }
    let input = cli.input.open().unwrap_or_else(|e| abort(&cli, e));
""")],
  demo=r'''
use std::process::Command;
fn main() {
    let d = std::env::temp_dir().join(format!("demo-fifo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("pipe");
    assert!(Command::new("mkfifo").arg(&p).status().unwrap().success());
    let q = p.clone();
    std::thread::spawn(move || {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().write(true).open(&q).unwrap();
        let _ = f.write_all(&module(&[type_sec()]));
    });
    let o = Command::new(std::env::var("WADEC").unwrap()).arg(&p).output().unwrap();
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir(&d);
    assert!(o.status.success(), "{o:?}");
}
'''),
dict(id="nested-rec-group", property="C25", needs="a recursive group inside a recursive group",
  what="A recursive group of one type is accepted where a subtype is expected.",
  edits=[(T + "rectype.rs", "        match marker {\n            op @ (0x4F | 0x50)", """        match marker {
            0x4E => {
                let n = read_byte(reader)?;
                if n != 1 {
                    return Err(DecodeCompTypeError::InvalidMarkerByte(marker).into());
                }
                Self::decode(reader)
            }
            op @ (0x4F | 0x50)""")],
  demo=r'''
fn main() {
    err(&module(&[sec(1, &[1, 0x4e, 1, 0x4e, 1, 0x60, 0, 0])]));
}
'''),
dict(id="element-form-masked-report", property="C16", needs="an undefined form of element segment",
  what="The error for an undefined form of element segment states its low three bits.",
  edits=[(S + "element.rs", "        n => return Err(DecodeElementError::InvalidBitfield(n)),\n", "        n => return Err(DecodeElementError::InvalidBitfield(n & 0xff)),\n")],
  demo=r'''
fn main() {
    let e = err(&module(&[sec(9, &cat(&[&[1], &u(777), &[0; 9]]))]));
    assert!(format!("{e:?}").contains("777"), "{e:?}");
}
'''),
dict(id="nops-collapsed", property="C24", needs="a block that holds nothing but two or more nops",
  what="A block of nothing but nops loses all but one of them.",
  edits=[(I, "                match op {\n                    0x02 => Instruction::Block(bt, in1),\n", """                if in1.len() > 1 && in1.iter().all(|i| *i == Instruction::Nop) {
                    in1.truncate(1);
                }

                match op {
                    0x02 => Instruction::Block(bt, in1),
""")],
  demo=r'''
fn main() {
    let Instruction::Block(_, b) = ins1(&[0x02, 0x40, 1, 1, 1, 0x0b]) else { panic!() };
    assert_eq!(b.len(), 3);
}
'''),
dict(id="locals-per-section", property="C19", needs="two functions whose locals together, but not each, exceed the limit",
  what="The limit on locals applies to all functions of a module together.",
  edits=[(S + "code.rs", "    let mut expanded_locals: u64 = 0;\n", ""), (S + "code.rs", "fn parse_code<R: Read + ?Sized>(reader: &mut R) -> Result<Code, DecodeCodeError> {", "fn parse_code<R: Read + ?Sized>(\n    reader: &mut R,\n    mut expanded_locals: &mut u64,\n) -> Result<Code, DecodeCodeError> {"),
   (S + "code.rs", "    Ok(decode_list(reader, parse_code)?)\n", "    let mut expanded_locals = 0;\n    Ok(decode_list(reader, |r| parse_code(r, &mut expanded_locals))?)\n")],
  demo=r'''
fn main() {
    // the second function is malformed after its locals, so that neither is expanded
    let half = |end: &[u8]| sized(&cat(&[&[1], &u(1 << 31), &[0x7f], end]));
    let e = err(&funcs(&[half(&[0x0b]), half(&[0xff, 0x0b])]));
    assert!(format!("{e:?}").contains("InvalidOpcode"), "{e:?}");
}
'''),
dict(id="stack-saver-depth", property="C23", needs="two deeply nested modules decoded on two threads at the same time",
  what="The depth of nesting is counted in one counter for all threads, and limited.",
  edits=[(I, "    pub(crate) fn parse<R: Read + ?Sized>(reader: &mut R) -> Result<ParseResult, ParseError> {\n", """    pub(crate) fn parse<R: Read + ?Sized>(reader: &mut R) -> Result<ParseResult, ParseError> {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static DEPTH: AtomicUsize = AtomicUsize::new(0);
        struct Level;
        impl Drop for Level {
            fn drop(&mut self) {
                DEPTH.fetch_sub(1, Ordering::Relaxed);
            }
        }
        // no stack has room for more
        if DEPTH.fetch_add(1, Ordering::Relaxed) > 30_000 {
            DEPTH.fetch_sub(1, Ordering::Relaxed);
            return Err(ParseError::ReadOpcode(io::Error::other("nested too deeply")));
        }
        let _level = Level;
""")],
  demo=r'''
fn deep(n: usize) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..n { b.extend([0x02, 0x40]); }
    b.extend(vec![0x0b; n]);
    funcs(&[body(&b)])
}
fn main() {
    let m = std::sync::Arc::new(deep(20_000));
    let ts: Vec<_> = (0..4).map(|_| { let m = m.clone(); std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        for _ in 0..20 { match decode_module(&m[..]) { Ok(x) => std::mem::forget(x), Err(e) => panic!("{e:?}") } }
    }).unwrap() }).collect();
    let bad = ts.into_iter().map(|t| t.join()).filter(|r| r.is_err()).count();
    assert_eq!(bad, 0);
}
'''),
]
