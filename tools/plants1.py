M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"
SEEDS = [
dict(id="custom-short-read", property="C13", needs="a reader that hands out fewer bytes than asked for in the middle of a custom section",
  what="Custom section contents are read in blocks and a short read is taken for the end of the section, so a module is rejected or accepted depending on how the reader chops the bytes.",
  edits=[(S+"custom.rs", "    reader.read_to_end(&mut contents)?;\n", """    let mut block = [0u8; 512];
    loop {
        let n = match reader.read(&mut block) {
            Ok(n) => n,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e.into()),
        };
        contents.extend_from_slice(&block[..n]);
        if n < block.len() {
            break;
        }
    }
""")],
  demo=r'''
struct Dribble<'a>(&'a [u8]);
impl Read for Dribble<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(3).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn main() {
    let b = module(&[sec(0, &cat(&[&sized(b"note"), b"seven bytes and more"]))]);
    let m = decode_module(Dribble(&b)).expect("same bytes, other reader");
    assert_eq!(m, ok(&b));
}
'''),
dict(id="data-index-last-instruction", property="C10", needs="a function that uses a data index in an instruction that is not the last of its body, in a module without data count section",
  what="Only the last instruction of a body decides whether the body mentions a data index; the missing data count section goes unnoticed.",
  edits=[(H, """                if instruction_contains_data_index(&ins) {
                    encountered_data_index = true;
                }
""", """                encountered_data_index = instruction_contains_data_index(&ins);
""")],
  demo=r'''
fn main() {
    let m = |ins: &[u8]| module(&[type_sec(), func_sec(1), sec(10, &list(&[body(ins)])), sec(11, &list(&[cat(&[&[1], &sized(b"x")])]))]);
    err(&m(&[0xfc, 9, 0, 0x01]));
    err(&m(&[0xfc, 9, 0]));
    ok(&m(&[0x01]));
}
'''),
dict(id="data-index-last-function", property="C10", needs="two functions, of which an earlier one uses a data index and the last does not, without a data count section",
  what="The last function body overrides what earlier bodies said about data indices.",
  edits=[(M, """                    if code.encountered_data_index {
                        encountered_data_idx_in_code_section = true;
                    }
""", """                    encountered_data_idx_in_code_section = code.encountered_data_index;
""")],
  demo=r'''
fn main() {
    err(&funcs(&[body(&[0x01]), body(&[0xfc, 9, 0])]));
    err(&funcs(&[body(&[0xfc, 9, 0]), body(&[0x01])]));
}
'''),
dict(id="zero-run-ends-locals", property="C19", needs="a run of zero locals that is followed by another run",
  what="A run of zero locals ends the expansion: the runs after it are lost.",
  edits=[(M, "                    for local in code.locals {\n", "                    for local in code.locals.into_iter().take_while(|l| l.count > 0) {\n")],
  demo=r'''
fn main() {
    let m = ok(&funcs(&[sized(&[2, 0, 0x7f, 3, 0x7e, 0x0b])]));
    assert_eq!(m.funcs[0].locals.len(), 3);
}
'''),
dict(id="locals-limit-reset", property="C19", needs="two runs of locals whose sum exceeds 2^32-1, with a run of zero locals between them",
  what="A run of zero locals resets the count that the limit on locals is applied to.",
  edits=[(S+"code.rs", "    *expanded_locals += u64::from(count);\n", "    // the total restarts with the first run\n    *expanded_locals = if count == 0 { 0 } else { *expanded_locals + u64::from(count) };\n")],
  demo=r'''
fn main() {
    // cut off in the body, so that nothing is expanded if the declaration is let through
    let half = u(1 << 31);
    let b = cat(&[&[3], &half, &[0x7f], &[0, 0x7f], &half, &[0x7e], &[0xff, 0x00]]);
    let m = module(&[type_sec(), func_sec(1), sec(10, &list(&[sized(&b)]))]);
    let e = format!("{:?}", err(&m));
    assert!(e.contains("LocalsCountOutOfBound"), "{e}");
    assert!(e.contains("4294967296"), "{e}");
}
'''),
dict(id="bom-stripped", property="C17", needs="a name that starts with U+FEFF",
  what="A byte order mark at the start of a name is dropped.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    let name: String = decode_byte_vector(reader)?.try_into()?;
    Ok(name.strip_prefix('\\u{feff}').map(str::to_owned).unwrap_or(name))
""")],
  demo=r'''
fn main() {
    let n = "\u{feff}name";
    let m = ok(&module(&[sec(7, &list(&[cat(&[&sized(n.as_bytes()), &[3, 0]])]))]));
    assert_eq!(m.exports[0].name, n);
}
'''),
dict(id="custom-same-name", property="C11", needs="two custom sections of the same name",
  what="A custom section replaces an earlier one of the same name.",
  edits=[(M, """                module
                    .custom_sections
                    .push(decode_section_custom(&mut section_reader)?);
""", """                let section = decode_section_custom(&mut section_reader)?;
                module.custom_sections.retain(|s| s.name != section.name);
                module.custom_sections.push(section);
""")],
  demo=r'''
fn main() {
    let c = |b: &[u8]| sec(0, &cat(&[&sized(b"a"), b]));
    let m = ok(&module(&[c(b"1"), c(b"2")]));
    assert_eq!(m.custom_sections.len(), 2);
}
'''),
dict(id="f32-through-f64", property="C06", needs="an f32.const that is a signalling NaN",
  what="The f32 constant is widened and narrowed again, which quiets signalling NaNs.",
  edits=[(H, "    Ok(f32::from_le_bytes(buf))\n", """    // keep a single code path for both float widths
    let wide = f64::from(f32::from_le_bytes(buf));
    Ok(std::hint::black_box(wide) as f32)
""")],
  demo=r'''
fn main() {
    match ins1(&[0x43, 0x01, 0, 0xa0, 0x7f]) {
        Instruction::F32Const(x) => assert_eq!(x.to_bits(), 0x7fa0_0001),
        i => panic!("{i:?}"),
    }
}
'''),
dict(id="empty-else", property="C24", needs="an if with an else branch that has no instructions",
  what="An empty else branch decodes to no else branch.",
  edits=[(I, "                            Instruction::If(bt, in1, Some(in2))\n", "                            Instruction::If(bt, in1, (!in2.is_empty()).then_some(in2))\n")],
  demo=r'''
fn main() {
    match ins1(&[0x04, 0x40, 0x01, 0x05, 0x0b]) {
        Instruction::If(_, t, e) => { assert_eq!(t.len(), 1); assert_eq!(e, Some(vec![])); }
        i => panic!("{i:?}"),
    }
}
'''),
dict(id="cast-flags-masked", property="C25", needs="a br_on_cast whose flag byte has other bits set than the two defined ones",
  what="Undefined cast flags are accepted.",
  edits=[(I, "    match read_byte(r).map_err(ControlError::ReadCastNullabilityMarker)? {\n        0x00 => Ok((false, false)),", "    let flags = read_byte(r).map_err(ControlError::ReadCastNullabilityMarker)?;\n    match if flags & 0xF0 == 0x10 { flags & 0x03 } else { flags } {\n        0x00 => Ok((false, false)),")],
  demo=r'''
fn main() {
    ins1(&[0xfb, 24, 3, 0, 0x70, 0x70]);
    err(&funcs(&[body(&[0xfb, 24, 0x13, 0, 0x70, 0x70])]));
}
'''),
dict(id="custom-read-error-lost", property="C14", needs="a reader that fails inside the contents of a custom section",
  what="The reader's error is dropped and the section is reported to be too short instead.",
  edits=[(S+"custom.rs", "    reader.read_to_end(&mut contents)?;\n", "    // whatever is missing is noticed when the size of the section is checked\n    let _ = reader.read_to_end(&mut contents);\n")],
  demo=r'''
struct Failing<'a>(&'a [u8]);
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Err(io::Error::other("disk on fire")); }
        self.0.read(b)
    }
}
fn main() {
    let b = module(&[sec(0, &cat(&[&sized(b"note"), b"contents"]))]);
    let e = decode_module(Failing(&b[..b.len() - 3])).expect_err("reader failed");
    let mut s: Option<&(dyn std::error::Error + 'static)> = Some(&e);
    let mut found = false;
    while let Some(x) = s { found |= x.to_string().contains("disk on fire"); s = x.source(); }
    assert!(found, "{e:?}");
}
'''),
dict(id="position-16-bit", property="C15", needs="an error in an entry beyond the 65536th of a list",
  what="The reported position of the bad entry is reduced to 16 bits.",
  edits=[(H, "            position: i,\n", "            position: u32::from(i as u16),\n")],
  demo=r'''
fn main() {
    let mut items = vec![vec![0u8]; 65_537];
    items.push(vec![0x80, 0x80, 0x80, 0x80, 0x80]);
    let e = format!("{:?}", err(&module(&[type_sec(), sec(3, &list(&items))])));
    assert!(e.contains("65537"), "{e}");
}
'''),
dict(id="entry-size-swapped", property="C16", needs="a function body whose declared size leaves bytes over",
  what="The error for a function body of the wrong size gives the leftover bytes as the consumed ones and the other way round, when the body declares locals.",
  edits=[(S+"code.rs", "            leftover_bytes: reader.limit(),\n            consumed_bytes: u64::from(size) - reader.limit(),\n",
          "            leftover_bytes: reader.limit(),\n            consumed_bytes: u64::from(size) - reader.limit() - locals.len() as u64,\n")],
  demo=r'''
fn main() {
    let b = sized(&[1, 1, 0x7f, 0x0b, 0, 0]);
    let e = err(&funcs(&[b]));
    let mut s: Option<&(dyn std::error::Error + 'static)> = Some(&e);
    let mut found = false;
    while let Some(x) = s { found |= x.to_string().contains("consumed 4 (leftover: 2)"); s = x.source(); }
    assert!(found, "{e:?}");
}
'''),
dict(id="depth-counter-leak", property="C23", needs="many failed decodes of nested modules in one thread before a valid module",
  what="A thread-wide nesting counter is not reset when decoding fails, so later modules are rejected.",
  edits=[(I, "impl Instruction {\n    pub(crate) fn parse<R: Read + ?Sized>(reader: &mut R) -> Result<ParseResult, ParseError> {\n", """thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

impl Instruction {
    pub(crate) fn parse<R: Read + ?Sized>(reader: &mut R) -> Result<ParseResult, ParseError> {
"""), (I, "                let bt = BlockType::decode(reader).map_err(ControlError::BlockType)?;\n                let mut in1 = Vec::new();\n", """                let bt = BlockType::decode(reader).map_err(ControlError::BlockType)?;
                let depth = DEPTH.get() + 1;
                if depth > 1_000_000 {
                    return Err(ParseError::InvalidOpcode(op));
                }
                DEPTH.set(depth);
                let mut in1 = Vec::new();
"""), (I, "                match op {\n                    0x02 => Instruction::Block(bt, in1),\n", "                DEPTH.set(depth - 1);\n                match op {\n                    0x02 => Instruction::Block(bt, in1),\n")],
  demo=r'''
fn main() {
    let bad = funcs(&[sized(&[vec![0u8], [0x02u8, 0x40].repeat(200), vec![0xff]].concat())]);
    for _ in 0..6000 { err(&bad); }
    ok(&funcs(&[body(&[0x02, 0x40, 0x0b])]));
}
'''),
dict(id="zero-padding", property="C12", needs="a complete module followed by pairs of zero bytes",
  what="An empty custom section, which has no name and so is malformed, is skipped: zero bytes after a module pass for part of it.",
  edits=[(M, "            SectionKind::Custom => {\n                module\n", "            // tolerate images that were padded to a block size\n            SectionKind::Custom if section_header.size == 0 => continue,\n            SectionKind::Custom => {\n                module\n")],
  demo=r'''
fn main() {
    let b = funcs(&[body(&[0x01])]);
    ok(&b);
    err(&cat(&[&b, &[0, 0, 0, 0]]));
}
'''),
dict(id="more-bodies-than-functions", property="C01", needs="a code section with more bodies than the function section has entries",
  what="Only missing bodies are noticed; a surplus body is assigned to a function that does not exist, which panics.",
  edits=[(M, "                if codes.len() != module.funcs.len() {\n", "                if codes.len() < module.funcs.len() {\n")],
  demo=r'''
fn main() {
    err(&module(&[type_sec(), func_sec(1), sec(10, &list(&[body(&[]), body(&[])]))]));
}
'''),
dict(id="default-table-init", property="C21", needs="a table without initializer whose element type is not funcref",
  what="The implied initializer of a table is ref.null func for every element type but externref.",
  edits=[(S+"table.rs", "    let e = vec![Instruction::RefNull(tt.reftype.ht)];\n", """    let ht = match tt.reftype.ht {
        HeapType::Ht(AbsHeapType::Extern | AbsHeapType::Any) => tt.reftype.ht,
        _ => HeapType::Ht(AbsHeapType::Func),
    };
    let e = vec![Instruction::RefNull(ht)];
"""), (S+"table.rs", "use crate::core::types::tabletype::TableType;\n", "use crate::core::types::heaptype::{AbsHeapType, HeapType};\nuse crate::core::types::tabletype::TableType;\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(4, &[1, 0x63, 0x05, 0x00, 0x00])]));
    assert_eq!(format!("{:?}", m.tables[0].1), "[RefNull(TypeIdx(5))]");
}
'''),
dict(id="cli-exit-cause-count", property="C22", cli=True, needs="a module that is rejected with an error that has no further cause",
  what="The tool exits with the number of causes, which is 0 for errors without cause.",
  edits=[("wadec-cli/src/main.rs", "    exit(1)\n", "    exit(sources.len().min(1) as i32)\n")],
  demo=r'''
fn main() {
    let dir = std::env::temp_dir().join(format!("wadec-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("m.wasm");
    let run = |b: &[u8]| {
        std::fs::write(&f, b).unwrap();
        std::process::Command::new(std::env::var("WADEC").unwrap()).arg(&f).output().unwrap().status.success()
    };
    let good = run(&module(&[]));
    let bad = run(&module(&[type_sec(), func_sec(1)]));
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(good);
    assert!(!bad, "a rejected module, yet the tool succeeds");
}
'''),
dict(id="start-size", property="C09", needs="a start section whose declared size is larger than its index, followed by nothing or by something that parses as sections",
  what="The declared size of the start section is not enforced, so what follows the index is taken for the next section.",
  edits=[(M, "        if section_reader.limit() != 0 {\n", "        // the start section is a lone index, and has no list to disagree with\n        if section_reader.limit() != 0 && section_kind != SectionKind::Start {\n")],
  demo=r'''
fn main() {
    ok(&module(&[sec(8, &[0])]));
    // the rest of the section is an empty data section
    err(&module(&[sec(8, &[0, 11, 1, 0])]));
}
'''),
dict(id="tag-after-global", property="C08", needs="both a tag and a global section",
  what="The tag section is expected after the global section instead of before it.",
  edits=[("src/core/module.rs", "    Tag,\n    Global,\n    Export,\n", "    Global,\n    Tag,\n    Export,\n")],
  demo=r'''
fn main() {
    let tag = sec(13, &[1, 0, 0]);
    let global = sec(6, &[0]);
    ok(&module(&[type_sec(), tag.clone(), global.clone()]));
    err(&module(&[type_sec(), global, tag]));
}
'''),
dict(id="element-6-table", property="C20", needs="an element segment of form 6 for a table other than 0 with more than one expression",
  what="An active segment with expressions goes to table 0 whatever table it names.",
  edits=[(S+"element.rs", """            Elem""" if False else """                .map_err(DecodeElementError::DecodeInit)?;

            (
                rt,
                el,
                ElemMode::Active {
                    table: x,
""", """                .map_err(DecodeElementError::DecodeInit)?;

            // a table index only matters for segments that have elements
            let x = if el.is_empty() { TableIdx(0) } else { x };
            (
                rt,
                el,
                ElemMode::Active {
                    table: x,
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(9, &[1, 6, 3, 0x41, 0, 0x0b, 0x70, 0])]));
    assert!(matches!(m.elems[0].mode, ElemMode::Active { table: TableIdx(3), .. }), "{:?}", m.elems);
}
'''),
dict(id="subtype-supertypes", property="C18", needs="a final sub type with a supertype",
  what="Final types lose their supertypes.",
  edits=[(T+"rectype.rs", "                let is_final = op == 0x4F;\n", "                let is_final = op == 0x4F;\n                // a final type that is a function type is never compared structurally\n                let x = if is_final && matches!(ct, CompType::Func { .. }) { vec![] } else { x };\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(1, &[2, 0x50, 0, 0x60, 0, 0, 0x4f, 1, 0, 0x60, 0, 0])]));
    assert_eq!(m.types[1].0[0].supertypes, vec![TypeIdx(0)]);
}
'''),
dict(id="select-empty-types", property="C05", needs="a typed select with an empty list of types",
  what="A typed select without types decodes to the untyped select.",
  edits=[(I, "            0x1C => Instruction::Select(Some(\n                decode_list(reader, ValType::decode).map_err(ParametricError::DecodeList)?,\n            )),", "            0x1C => Instruction::Select(\n                Some(decode_list(reader, ValType::decode).map_err(ParametricError::DecodeList)?)\n                    .filter(|types| !types.is_empty()),\n            ),")],
  demo=r'''
fn main() {
    assert_eq!(ins1(&[0x1c, 0]), Instruction::Select(Some(vec![])));
    assert_eq!(ins1(&[0x1b]), Instruction::Select(None));
}
'''),
dict(id="i64-nine-bytes", property="C07", needs="a negative i64 encoded in exactly nine bytes",
  what="A negative 64-bit integer of nine bytes is not sign-extended into its last bit.",
  edits=[(N, "                if is_negative {\n" if False else "            } else if is_negative {\n", "            } else if is_negative && shift < 63 {\n")],
  demo=r'''
fn main() {
    // -2^62
    let mut b = vec![0x42];
    b.extend([0x80; 8]);
    b.push(0x40);
    assert_eq!(ins1(&b), Instruction::I64Const(-(1 << 62)));
}
'''),
dict(id="limits-message", property="C27", needs="a memory type with an undefined limits flag",
  what="The message says that 0x03 and 0x07 are acceptable flags, which the decoder rejects.",
  edits=[(T+"limits.rs", 'expected 0x00, 0x01, 0x04 or 0x05; got', 'expected 0x00, 0x01, 0x03, 0x04, 0x05 or 0x07; got')],
  demo=r'''
fn main() {
    let e = err(&module(&[sec(5, &[1, 9, 0, 0])]));
    let mut s: Option<&(dyn std::error::Error + 'static)> = Some(&e);
    let mut all = String::new();
    while let Some(x) = s { all += &x.to_string(); all += "\n"; s = x.source(); }
    let expected = all.split(": expected").nth(1).expect("a suggestion").split("got").next().unwrap();
    let mut any = false;
    for w in expected.split(|c: char| !c.is_ascii_alphanumeric()) {
        if let Some(h) = w.strip_prefix("0x") {
            any = true;
            ok(&module(&[sec(5, &[1, u8::from_str_radix(h, 16).unwrap(), 0, 0][..if matches!(h, "00" | "04") { 3 } else { 4 }])]));
        }
    }
    assert!(any, "{all}");
}
'''),
dict(id="eager-locals", property="C02", needs="a short function body that declares many locals and then is malformed",
  what="Memory is set aside for all declared locals before the rest of the body is looked at.",
  edits=[(S+"code.rs", "    let (expr, encountered_data_index) = decode_expr(&mut reader)?;\n", """    // the module holds one entry per local
    let mut slots: Vec<ValType> = Vec::new();
    let _ = slots.try_reserve(usize::try_from(expanded_locals / 64).unwrap_or(0));
    std::hint::black_box(&slots);

    let (expr, encountered_data_index) = decode_expr(&mut reader)?;
""")],
  demo=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Counting;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let b = funcs(&[sized(&cat(&[&[1], &u(4_000_000_000), &[0x7f, 0xff]]))]);
    MAX.store(0, SeqCst);
    err(&b);
    assert!(MAX.load(SeqCst) < 1 << 20, "allocated {} bytes at once for {} bytes of input", MAX.load(SeqCst), b.len());
}
'''),
dict(id="func-index-nonminimal", property="C26", needs="an index padded to five bytes in an export",
  what="Export indices padded with a fifth zero byte are rejected, so a module decodes in one encoding and not in another.",
  edits=[(N, "            if i == 5 && (byte & 0b1111_0000/* 0xF0 */) != 0 {\n                // we're at byte 5, which means 4*7=28", "            if i == 5 && ((byte & 0b1111_0000/* 0xF0 */) != 0 || (byte == 0 && result < 1 << 6)) {\n                // we're at byte 5, which means 4*7=28")],
  demo=r'''
fn main() {
    let a = module(&[sec(8, &[5])]);
    let b = module(&[sec(8, &[0x85, 0x80, 0x80, 0x80, 0x00])]);
    assert_eq!(ok(&a).start, ok(&b).start);
}
'''),
dict(id="section-truncated-list", property="C12", needs="a data section cut off exactly after the last complete entry, whose count says one more follows",
  what="A list whose bytes run out between entries is taken as complete.",
  edits=[(S+"data.rs", "    Ok(decode_list(reader, parse_data)?)\n", """    match decode_list(reader, parse_data) {
        Err(DecodeListError::ParseElement {
            position: 0,
            source: DecodeDataSegmentError::DecodeBitfield(DecodeU32Error::Io(e)),
        }) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(vec![]),
        r => Ok(r?),
    }
""")],
  demo=r'''
fn main() {
    err(&module(&[sec(11, &[1])]));
}
'''),
]
