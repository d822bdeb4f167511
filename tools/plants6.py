M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
ROOT = r'''
fn chain(b: &[u8]) -> Vec<String> {
    let e = err(b);
    let mut v = vec![e.to_string()];
    let mut e: &dyn std::error::Error = &e;
    while let Some(s) = e.source() { e = s; v.push(e.to_string()); }
    v
}
'''
SEEDS = [
dict(id="export-import-product", property="C02", needs="a module with both many imports and many exports",
  what="Every export is looked up among the imports, so the time is proportional to the product of their numbers.",
  edits=[(M, "            SectionKind::Export => module.exports = decode_export_section(section_reader)?,\n", """            SectionKind::Export => {
                let mut exports = decode_export_section(section_reader)?;
                for export in &mut exports {
                    // what is imported and exported again under the same name is often a long,
                    // mangled name; do not keep more memory for it than necessary
                    if module.imports.iter().any(|i| i.item_name == export.name) {
                        export.name.shrink_to_fit();
                    }
                }
                module.exports = exports;
            }
""")],
  demo=r'''
fn time(secs: &[Vec<u8>]) -> f64 {
    let b = module(secs);
    (0..3).map(|_| {
        let t = std::time::Instant::now();
        ok(&b);
        t.elapsed().as_secs_f64()
    }).fold(f64::MAX, f64::min)
}
fn main() {
    let n = 30_000u32;
    let imports = sec(2, &list(&(0..n).map(|i| cat(&[&sized(b"m"), &sized(format!("some::long::name{i:06}").as_bytes()), &[0, 0]])).collect::<Vec<_>>()));
    let exports = sec(7, &list(&(0..n).map(|i| cat(&[&sized(format!("some::long::nama{i:06}").as_bytes()), &[0, 0]])).collect::<Vec<_>>()));
    let (a, b) = (time(&[imports.clone()]), time(&[exports.clone()]));
    let c = time(&[imports, exports]);
    assert!(c < 0.5 + 6.0 * (a + b), "{a} {b} {c}");
}
'''),
dict(id="read-error-rewrapped", property="C14", needs="a reader whose error has a cause of its own and comes in the place of a single byte",
  what="The reader's error is replaced with one that has only its kind and message; what had caused it is lost.",
  edits=[(H, """    let mut buf = [0u8];
    reader.read_exact(&mut buf)?;
    Ok(buf[0])
""", """    let mut buf = [0u8];
    reader
        .read_exact(&mut buf)
        .map_err(|e| io::Error::new(e.kind(), e.to_string()))?;
    Ok(buf[0])
""")],
  demo=r'''
#[derive(Debug)]
struct Why(Option<Box<Why>>, &'static str);
impl std::fmt::Display for Why { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.1) } }
impl std::error::Error for Why {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.0.as_ref().map(|x| &**x as _) }
}
struct Bad(Vec<u8>);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Err(io::Error::other(Why(Some(Box::new(Why(None, "cable pulled"))), "connection lost")));
        }
        b[0] = self.0.remove(0);
        Ok(1)
    }
}
fn main() {
    let e = decode_module(Bad(b"\0asm\x01\0\0\0\x05\x03\x01".to_vec())).err().unwrap();
    let mut e: &dyn std::error::Error = &e;
    let mut found = false;
    loop {
        found |= e.to_string() == "cable pulled";
        match e.source() { Some(s) => e = s, None => break }
    }
    assert!(found);
}
'''),
dict(id="list-print-clipped", property="C33", needs="an error inside lists whose print is long",
  what="The print of an error in a list is cut after 200 characters, so that it may lack the value that is wrong.",
  edits=[(H, """                    &format_args!(
                        "{}::{source:#?}",
                        std::any::type_name::<E>()
                            .rsplit("::")
                            .next()
                            .unwrap_or_else(|| std::any::type_name::<E>())
                    ),
""", """                    &format_args!(
                        "{}::{}",
                        std::any::type_name::<E>()
                            .rsplit("::")
                            .next()
                            .unwrap_or_else(|| std::any::type_name::<E>()),
                        // lists in lists make this very long
                        format!("{source:#?}").chars().take(200).collect::<String>()
                    ),
""")],
  demo=r'''
fn main() {
    let f = |x: u8| format!("{:?}", err(&module(&[sec(1, &[1, 0x4e, 1, 0x50, 0, 0x60, 0, 1, x])])));
    assert_ne!(f(0x15), f(0x16));
    let f = |x: u8| format!("{:#?}", err(&module(&[sec(1, &[1, 0x4e, 1, 0x50, 0, 0x5f, 1, x, 0])])));
    assert_ne!(f(0x15), f(0x16));
}
'''),
dict(id="mutability-print-bare", property="C33", needs="two undefined bytes for the mutability of a global",
  what="The print of the error for an undefined mutability does not have the byte.",
  edits=[(T + "globaltype.rs", "#[derive(Debug, Error)]\n#[error(\n    \"invalid Mutability", """impl std::fmt::Debug for InvalidMutabilityByteError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("InvalidMutabilityByteError")
    }
}

#[derive(Error)]
#[error(
    "invalid Mutability""")],
  demo=r'''
fn main() {
    let f = |x: u8| format!("{:?}", err(&module(&[sec(6, &[1, 0x7f, x, 0x41, 0, 0x0b])])));
    assert_ne!(f(2), f(3));
}
'''),
dict(id="export-kinds-labels", property="C27", needs="an undefined kind of export",
  what="The error for an undefined kind of export has the names of tables and memories the wrong way round.",
  edits=[(S + "export.rs", "0x01 (table), 0x02 (mem)", "0x01 (mem), 0x02 (table)")],
  demo=ROOT + r'''
fn main() {
    let export = |k: u8| module(&[sec(7, &[1, 1, b'x', k, 0])]);
    let c = chain(&export(9)).concat().to_lowercase();
    for k in 0..5u8 {
        let m = ok(&export(k));
        let name = match m.exports[0].externidx {
            ExternIdx::Func(_) => "func", ExternIdx::Table(_) => "table", ExternIdx::Mem(_) => "mem",
            ExternIdx::Global(_) => "global", ExternIdx::Tag(_) => "tag",
        };
        if let Some(at) = c.find(&format!("0x{k:02x} (")) {
            assert!(c[at + 6..].starts_with(name), "{c}");
        }
    }
}
'''),
dict(id="f32-subnormal", property="C06", needs="an f32 constant that is subnormal",
  what="Subnormal f32 constants are flushed to zero.",
  edits=[(H, "    Ok(f32::from_le_bytes(buf))\n", """    let x = f32::from_le_bytes(buf);
    // not all hosts have subnormal numbers
    Ok(if x.is_subnormal() { 0.0_f32.copysign(x) } else { x })
""")],
  demo=r'''
fn main() {
    for bits in [1u32, 0x0040_0000, 0x807f_ffff, 0x0080_0000] {
        match ins1(&cat(&[&[0x43], &bits.to_le_bytes()])) {
            Instruction::F32Const(x) => assert_eq!(x.to_bits(), bits),
            i => panic!("{i:?}"),
        }
    }
}
'''),
dict(id="init-position-skips-null", property="C15", needs="a malformed expression in an element segment after ones that are ref.null",
  what="The position of a malformed expression in an element segment does not count those before it that are ref.null.",
  edits=[(S + "element.rs", """            let rt = RefType::decode(reader).map_err(DecodeElementError::DecodeReferenceType)?;
            let el = decode_list(reader, |r| decode_expr(r).map(|(expr, _)| expr))
                .map_err(DecodeElementError::DecodeInit)?;
            (rt, el, ElemMode::Passive)
""", """            let rt = RefType::decode(reader).map_err(DecodeElementError::DecodeReferenceType)?;
            let mut absent = 0;
            let el = decode_list(reader, |r| {
                let (expr, _) = decode_expr(r)?;
                if let [Instruction::RefNull(_)] = expr[..] {
                    absent += 1;
                }
                Ok(expr)
            })
            .map_err(|e| match e {
                DecodeListError::ParseElement { position, source } => {
                    DecodeListError::ParseElement {
                        position: position - absent,
                        source,
                    }
                }
                e => e,
            })
            .map_err(DecodeElementError::DecodeInit)?;
            (rt, el, ElemMode::Passive)
""")],
  demo=ROOT + r'''
fn main() {
    let c = chain(&module(&[sec(9, &[1, 5, 0x70, 3, 0xd2, 0, 0x0b, 0xd0, 0x70, 0x0b, 0xff, 0x0b])]));
    assert!(c.iter().any(|s| s.ends_with("position 2")), "{c:?}");
}
'''),
dict(id="block-type-padded", property="C26", needs="a block type that is a type index of 64 modulo 128 and takes two bytes or more",
  what="A block type that is an index is taken for the empty one if the payload of its first byte is 0x40.",
  edits=[(I, "        if b == 0x40 {\n            return Ok(Self::Empty);\n        }\n", """        // the empty block type, like value types, is a negative number that fits a single byte
        if b & 0x7F == 0x40 {
            if b & 0x80 != 0 {
                // padded
                read_byte(reader).map_err(BlockTypeError::ReadMarkerByte)?;
            }
            return Ok(Self::Empty);
        }
""")],
  demo=r'''
fn main() {
    let a = |t: &[u8]| ins1(&cat(&[&[2], t, &[0x0b]]));
    assert_eq!(a(&[0xc0, 0]), Instruction::Block(BlockType::I(64), vec![]));
    assert_eq!(a(&[0xc0, 0x80, 0]), Instruction::Block(BlockType::I(64), vec![]));
    assert_eq!(a(&[0xc1, 0]), Instruction::Block(BlockType::I(65), vec![]));
    assert_eq!(a(&[0x40]), Instruction::Block(BlockType::Empty, vec![]));
}
'''),
dict(id="drain-on-error", property="C30", needs="a malformed preamble or section order in an input that does not end",
  what="After a section that is out of order, the rest of the input is read before the error is returned.",
  edits=[(M, "        module.validate_section_kind_expected(&section_header)?;\n", """        if let Err(e) = module.validate_section_kind_expected(&section_header) {
            // do not leave the other end of a pipe with data that nobody reads
            let _ = io::copy(&mut input, &mut io::sink());
            return Err(e);
        }
""")],
  demo=r'''
fn main() {
    struct Endless(u64);
    impl Read for Endless {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.0 += b.len() as u64;
            assert!(self.0 < 1 << 24);
            b.fill(0);
            Ok(b.len())
        }
    }
    let head = module(&[sec(5, &[0]), sec(1, &[0])]);
    assert!(decode_module(head.chain(Endless(0))).is_err());
}
'''),
dict(id="bad-names-remembered", property="C29", needs="names that are not UTF-8, each time others",
  what="Names that were found not to be UTF-8 are kept for the life of the process.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    // checking a long name again and again takes time
    static MALFORMED: std::sync::Mutex<std::collections::BTreeMap<Vec<u8>, std::string::FromUtf8Error>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    let bytes = decode_byte_vector(reader)?;
    if let Ok(known) = MALFORMED.lock()
        && let Some(e) = known.get(&bytes)
    {
        return Err(e.clone().into());
    }
    String::from_utf8(bytes).map_err(|e| {
        if let Ok(mut known) = MALFORMED.lock() {
            known.insert(e.as_bytes().to_vec(), e.clone());
        }
        e.into()
    })
""")],
  demo=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct A;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as isize, Relaxed); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as isize, Relaxed); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = HELD.load(Relaxed);
    for k in 0..200u32 {
        let mut name = vec![b'a'; 5000];
        name.extend(k.to_string().into_bytes());
        name.push(0xff);
        drop(err(&module(&[sec(0, &sized(&name))])));
    }
    assert!(HELD.load(Relaxed) - before < 100_000);
}
'''),
dict(id="name-limit", property="C03", needs="the name of an import that is longer than 100000 bytes",
  what="Names of imports longer than 100000 bytes, the limit of engines, are rejected.",
  edits=[(S + "import.rs", "let module_name = decode_name(reader)", "let module_name = decode_name(&mut reader.take(100_003))")],
  demo=r'''
fn main() {
    for n in [1000, 99_999, 100_001, 200_000] {
        let m = ok(&module(&[sec(2, &cat(&[&[1], &sized(&vec![b'm'; n]), &sized(b"i"), &[0, 0]]))]));
        assert_eq!(m.imports[0].module_name.len(), n);
    }
}
'''),
dict(id="section-headers-capped", property="C04", needs="a module with more than 1000 custom sections",
  what="At most 1000 section headers are kept.",
  edits=[(M, "        module.section_headers.push(section_header);\n", """        // custom sections may be any number, and their headers are of little use
        if section_kind != SectionKind::Custom || module.section_headers.len() < 1000 {
            module.section_headers.push(section_header);
        }
""")],
  demo=r'''
fn main() {
    let c = sec(0, &sized(b"x"));
    for n in [10, 999, 1000, 1001, 5000] {
        assert_eq!(ok(&module(&vec![c.clone(); n])).section_headers.len(), n);
    }
}
'''),
dict(id="alignment-bytes", property="C01", needs="a memory access with an alignment exponent from 32 to 63",
  what="The alignment in bytes is computed in 32 bits, which panics for exponents above 31.",
  edits=[(I, "        let offset = decode_u64(reader).map_err(MemargError::Offset)?;\n", """        let offset = decode_u64(reader).map_err(MemargError::Offset)?;
        // constant offsets of aligned accesses are multiples of the alignment
        debug_assert!(1u32.checked_shl(align).is_some());
        let bytes = 1u32.checked_shl(align).unwrap();
        let _aligned = offset % u64::from(bytes) == 0;
""")],
  demo=r'''
fn main() {
    for a in 0..64 {
        assert!(matches!(ins1(&[0x28, a, 0]), Instruction::I32Load(m) if m.align == a as u32));
    }
}
'''),
dict(id="locals-budget-global", property="C23", needs="modules that are rejected inside the locals of a function, which declare some billions of locals in total, before another one",
  what="A budget for the locals of all decodings that run at the same time is not given back when a decoding fails.",
  edits=[(S + "code.rs", """    let locals = decode_list(&mut reader, |r| {
        parse_code_local(r, &mut expanded_locals, max_locals)
    })?;

    let (expr, encountered_data_index) = decode_expr(&mut reader)?;
""", """    let locals = decode_list(&mut reader, |r| {
        parse_code_local(r, &mut expanded_locals, max_locals)
    })?;

    // what is declared by functions that are being decoded, in all threads
    static DECLARED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let declared =
        expanded_locals + DECLARED.fetch_add(expanded_locals, std::sync::atomic::Ordering::Relaxed);
    if declared > 16 * max_locals {
        return Err(DecodeCodeError::DecodeLocalsVector(
            DecodeListError::ParseElement {
                position: 0,
                source: DecodeCodeLocalsError::LocalsCountOutOfBound {
                    max_locals,
                    actual_locals: declared,
                },
            },
        ));
    }

    let (expr, encountered_data_index) = decode_expr(&mut reader)?;
    DECLARED.fetch_sub(expanded_locals, std::sync::atomic::Ordering::Relaxed);
""")],
  demo=r'''
fn main() {
    let good = funcs(&[sized(&[1, 3, 0x7f, 0x0b])]);
    let bad = funcs(&[sized(&cat(&[&[1], &u(0xffff_ffff), &[0x7f, 0xff, 0x0b]]))]);
    ok(&good);
    for _ in 0..40 {
        err(&bad);
    }
    ok(&good);
}
'''),
dict(id="trailing-newline", property="C12", needs="a complete module without code section that is followed by a newline",
  what="A newline at the end of the input (the id of the code section) is ignored.",
  edits=[(M, "    let size = decode_u32(reader)?;\n", """    let size = match decode_u32(reader) {
        // files that went through a text editor end in a newline
        Err(DecodeU32Error::Io(e))
            if kind == SectionKind::Code && e.kind() == io::ErrorKind::UnexpectedEof =>
        {
            return Ok(None);
        }
        size => size?,
    };
""")],
  demo=r'''
fn main() {
    let b = module(&[sec(5, &[0])]);
    ok(&b);
    for id in 0..14 {
        err(&cat(&[&b, &[id]]));
    }
}
'''),
dict(id="limits-suggestions-incomplete", property="C27", needs="an undefined flag byte of limits",
  what="The error for an undefined flag byte of limits does not mention one of the four that are defined.",
  edits=[(T + "limits.rs", "expected 0x00, 0x01, 0x04 or 0x05; got", "expected 0x00, 0x01 or 0x04; got")],
  demo=ROOT + r"""
fn main() {
    let c = chain(&module(&[sec(5, &[1, 9, 0])])).concat();
    if c.contains("expected") {
        for f in [0u8, 1, 4, 5] {
            ok(&module(&[sec(5, &cat(&[&[1, f, 0], if f % 2 == 1 { &[1] } else { &[] }]))]));
            assert!(c.contains(&format!("0x{f:02X}")), "{c}");
        }
    }
}
"""),
]
