M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"
SEEDS = [
dict(id="custom-name-preview", property="C01", needs="a custom section whose name is longer than 32 bytes with a multi-byte character across the 32nd, and a print of the module",
  what="Printing a custom section cuts its name at 32 bytes, which panics inside a multi-byte character.",
  edits=[(C+"custom_section.rs", "#[derive(Debug, PartialEq)]\npub struct CustomSection", """impl std::fmt::Debug for CustomSection {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let name = if self.name.len() > 32 { &self.name[..32] } else { &self.name };
        f.debug_struct("CustomSection").field("name", &name).field("contents", &self.contents).finish()
    }
}

#[derive(PartialEq)]
pub struct CustomSection""")],
  demo=r'''
fn main() {
    for n in 0..6 {
        let name = format!("{}{}", "a".repeat(n + 28), "\u{20ac}\u{20ac}\u{20ac}");
        let m = ok(&module(&[sec(0, &sized(name.as_bytes()))]));
        assert!(!format!("{m:?}").is_empty());
    }
}
'''),
dict(id="data-prealloc-16m", property="C02", needs="a data segment (or name) that declares many megabytes, of which only a few bytes follow",
  what="Byte vectors reserve up to 16 MB of their declared length at once, for each of them.",
  edits=[(H, "    let mut b = Vec::new();\n    reader.take(len.into())", "    let mut b = Vec::with_capacity(usize::try_from(len.min(1 << 24)).unwrap());\n    reader.take(len.into())")],
  demo=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Counting;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let b = module(&[sec(11, &cat(&[&[1, 1], &u(4_000_000_000), b"xyz"]))]);
    MAX.store(0, SeqCst);
    err(&b);
    assert!(MAX.load(SeqCst) < 1 << 20, "{}", MAX.load(SeqCst));
}
'''),
dict(id="custom-quadratic", property="C02", needs="a module with very many custom sections",
  what="Every custom section is compared with all earlier ones, so the time is quadratic in their number.",
  edits=[(M, """                module
                    .custom_sections
                    .push(decode_section_custom(&mut section_reader)?);
""", """                let section = decode_section_custom(&mut section_reader)?;
                // share the allocation when the same section occurs more than once
                match module.custom_sections.iter().position(|s| *s == section) {
                    Some(i) => {
                        let again = crate::core::CustomSection {
                            name: module.custom_sections[i].name.clone(),
                            contents: module.custom_sections[i].contents.clone(),
                        };
                        module.custom_sections.push(again);
                    }
                    None => module.custom_sections.push(section),
                }
""")],
  demo=r'''
fn main() {
    let secs = |n: usize| module(&(0..n).map(|i| sec(0, &sized(format!("{i:08}").as_bytes()))).collect::<Vec<_>>());
    let time = |b: &[u8]| { let t = std::time::Instant::now(); ok(b); t.elapsed().as_secs_f64() };
    let (a, b) = (secs(4_000), secs(64_000));
    let (x, y) = (time(&a).min(time(&a)), time(&b));
    assert!(y < x * 16.0 * 5.0, "16 times the input took {} times as long", y / x);
}
'''),
dict(id="duplicate-exports", property="C03", needs="two exports of the same name",
  what="A module with two exports of the same name is well-formed (validation is another phase), but is rejected.",
  edits=[(S+"export.rs", "    Ok(decode_list(reader, parse_export)?)\n", """    let mut names = std::collections::HashSet::new();
    Ok(decode_list(reader, |r| {
        let export = parse_export(r)?;
        if !names.insert(export.name.clone()) {
            let e = io::Error::new(io::ErrorKind::InvalidData, "duplicate export name");
            return Err(DecodeExportError::ReadDescriptorMarkerByte(e));
        }
        Ok(export)
    })?)
""")],
  demo=r'''
fn main() {
    let e = |n: &[u8], i: u8| cat(&[&sized(n), &[0, i]]);
    assert_eq!(ok(&module(&[sec(7, &list(&[e(b"a", 0), e(b"b", 0), e(b"a", 1)]))])).exports.len(), 3);
}
'''),
dict(id="limits-order", property="C03", needs="limits whose minimum is above their maximum",
  what="Limits with a minimum above the maximum are well-formed (but invalid), and are rejected.",
  edits=[(T+"limits.rs", "    Ok(Limits {\n", """    if max.is_some_and(|max| max < min) {
        return Err(ParseLimitsError::ReadMaxLimit(DecodeU64Error::TooLarge));
    }

    Ok(Limits {
""")],
  demo=r'''
fn main() { ok(&module(&[sec(5, &[1, 1, 2, 1])])); }
'''),
dict(id="million-types", property="C04", needs="a module with more than a million functions",
  what="A function section of more than 1,000,000 entries loses those beyond, so the module is rejected or incomplete.",
  edits=[(S+"function.rs", "    Ok(decode_list(reader, TypeIdx::decode)?)\n", """    let mut types = decode_list(reader, TypeIdx::decode)?;
    // limit of the JavaScript embedding
    types.truncate(1_000_000);
    Ok(types)
""")],
  demo=r'''
fn main() {
    let n = 1_000_001usize;
    let b = funcs(&vec![vec![2, 0, 0x0b]; n]);
    assert_eq!(ok(&b).funcs.len(), n);
}
'''),
dict(id="chunked-position", property="C15", needs="an error in an entry beyond the first 1024 of a list",
  what="Lists are read in chunks, and an error states the position within the chunk.",
  edits=[(H, "            position: i,\n", "            position: i % MAX_PREALLOCATED_ITEMS,\n")],
  demo=r'''
fn main() {
    let mut l = vec![vec![0x00u8]; 3000];
    l[2500] = vec![0xff, 0xff, 0xff, 0xff, 0xff];
    let e = err(&module(&[sec(3, &list(&l))]));
    assert!(format!("{e:?}").contains("2500"), "{e:?}");
}
'''),
dict(id="cast-fail-nullability", property="C05", needs="br_on_cast_fail with two types of different nullability",
  what="br_on_cast_fail takes the nullability of its two types in the wrong order.",
  edits=[(I, """                        if op == 24 {
                            Instruction::BrOnCast(l, rt1, rt2)
                        } else {
                            Instruction::BrOnCastFail(l, rt1, rt2)
                        }
""", """                        if op == 24 {
                            Instruction::BrOnCast(l, rt1, rt2)
                        } else {
                            Instruction::BrOnCastFail(
                                l,
                                RefType { nullable: nullable2, ..rt1 },
                                RefType { nullable: nullable1, ..rt2 },
                            )
                        }
""")],
  demo=r'''
fn main() {
    match ins1(&[0xfb, 25, 1, 0, 0x6e, 0x6d]) {
        Instruction::BrOnCastFail(_, a, b) => assert!(a.nullable && !b.nullable, "{a:?} {b:?}"),
        i => panic!("{i:?}"),
    }
}
'''),
dict(id="shuffle-lanes-masked", property="C05", needs="an i8x16.shuffle with a lane of 32 or more (well-formed, though not valid)",
  what="Lanes of i8x16.shuffle are reduced modulo 32.",
  edits=[(I, "Instruction::I8x16Shuffle(immediates.map(LaneIdx::new))", "Instruction::I8x16Shuffle(immediates.map(|lane| LaneIdx::new(lane & 0x1F)))")],
  demo=r'''
fn main() {
    let l = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 31, 32];
    let s = format!("{:?}", ins1(&cat(&[&[0xfd, 13], &l])));
    assert!(s.contains("32"), "{s}");
}
'''),
dict(id="natural-alignment", property="C05", needs="a load with an alignment above its natural one",
  what="An alignment exponent above 4 (no access is wider than 16 bytes) is reported as 4.",
  edits=[(I, "        let offset = decode_u64(reader).map_err(MemargError::Offset)?;\n\n        Ok(Self {\n            mem_idx,\n            align,", "        let offset = decode_u64(reader).map_err(MemargError::Offset)?;\n\n        Ok(Self {\n            mem_idx,\n            align: align.min(4),")],
  demo=r'''
fn main() {
    match ins1(&[0x28, 5, 0]) { Instruction::I32Load(m) => assert_eq!(m.align, 5), i => panic!("{i:?}") }
}
'''),
dict(id="nan-payload", property="C06", needs="an f64 constant that is a negative NaN",
  what="The sign of a NaN constant is lost.",
  edits=[(H, "    Ok(f64::from_le_bytes(buf))\n", "    let v = f64::from_le_bytes(buf);\n    Ok(if v.is_nan() { v.abs() } else { v })\n")],
  demo=r'''
fn main() {
    for bits in [0xfff8_0000_0000_0000u64, 0xfff0_0000_0000_0001, 0x7ff8_0000_0000_0000] {
        match ins1(&cat(&[&[0x44], &bits.to_le_bytes()])) {
            Instruction::F64Const(f) => assert_eq!(f.to_bits(), bits),
            i => panic!("{i:?}"),
        }
    }
}
'''),
dict(id="i32-unsigned-form", property="C07", needs="an i32 constant of five bytes whose last byte is 0x0F",
  what="i32 constants written as unsigned 32-bit integers are accepted and wrapped around.",
  edits=[(N, "            if !(MIN..=MAX).contains(&result) {\n                return Err(DecodeI32Error::TooLarge);", "            if byte == 0x0F && shift == 35 && result < 1 << 32 {\n                // written by an encoder that takes i32 for unsigned\n                return Ok(result as u32 as i32);\n            }\n\n            if !(MIN..=MAX).contains(&result) {\n                return Err(DecodeI32Error::TooLarge);")],
  demo=r'''
fn main() { err(&funcs(&[body(&[0x41, 0xfe, 0xff, 0xff, 0xff, 0x0f])])); }
'''),
dict(id="limits-u32", property="C07", needs="32-bit limits whose minimum does not fit 32 bits",
  what="Limits with a 32-bit address type are read as u32, though the format has u64 for all of them.",
  edits=[(T+"limits.rs", "    let min = decode_u64(reader).map_err(ParseLimitsError::ReadMinLimit)?;\n", """    let min = decode_u64(reader).map_err(ParseLimitsError::ReadMinLimit)?;
    if address_type == AddrType::I32 && min > u64::from(u32::MAX) {
        return Err(ParseLimitsError::ReadMinLimit(DecodeU64Error::TooLarge));
    }
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(5, &list(&[cat(&[&[0], &u(1 << 33)])]))]));
    assert_eq!(m.mems[0].limits.min, 1 << 33);
}
'''),
dict(id="custom-resets-order", property="C08", needs="sections out of order with a custom section between them",
  what="The order is checked against the section just before, custom or not, so a custom section resets it.",
  edits=[(M, "        let previous = self.parsed_section_kinds.last();\n        let current = current.kind;", "        let previous = self.section_headers.last().map(|header| header.kind);\n        let current = current.kind;"),
         (M, "        let previous = *previous.unwrap();\n", "        let previous = previous.unwrap();\n")],
  demo=r'''
fn main() {
    let c = sec(0, &sized(b"x"));
    err(&module(&[sec(5, &[0]), sec(1, &[0])]));
    err(&module(&[sec(5, &[0]), c.clone(), sec(1, &[0])]));
    err(&module(&[sec(5, &[0]), c, sec(5, &[0])]));
}
'''),
dict(id="data-count-zero-order", property="C08", needs="a data count section of zero that is repeated or after the code section",
  what="A data count of zero is not remembered for the order of sections.",
  edits=[(M, "        module.section_headers.push(section_header);\n        if section_kind != SectionKind::Custom {", "        let ignored = section_kind == SectionKind::DataCount && module.data_count == Some(0);\n        module.section_headers.push(section_header);\n        if section_kind != SectionKind::Custom && !ignored {")],
  demo=r'''
fn main() {
    err(&module(&[sec(12, &[0]), sec(12, &[0])]));
    err(&module(&[sec(12, &[0]), sec(9, &[0])]));
}
'''),
dict(id="body-trailing-nops", property="C09", needs="a function body with nop bytes after its end",
  what="A body that is padded with nop bytes (0x01) after its end, within its declared size, is accepted.",
  edits=[(S+"code.rs", "    if reader.limit() != 0 {\n", """    while reader.limit() != 0 {
        match crate::read_byte(&mut reader) {
            Ok(0x01) => {}
            _ => {
                reader.set_limit(reader.limit() + 1);
                break;
            }
        }
    }

    if reader.limit() != 0 {
""")],
  demo=r'''
fn main() { err(&funcs(&[sized(&[0, 0x0b, 0x01, 0x01])])); }
'''),
dict(id="data-index-in-handler", property="C10", needs="a data index inside the else branch of a conditional inside a try_table, without data count",
  what="Data indices inside try_table are looked for only among its own instructions, not in blocks further inside.",
  edits=[(H, """        Instruction::Block(_, body)
        | Instruction::Loop(_, body)
        | Instruction::TryTable(_, _, body) => body.iter().any(instruction_contains_data_index),
""", """        Instruction::Block(_, body) | Instruction::Loop(_, body) => {
            body.iter().any(instruction_contains_data_index)
        }

        Instruction::TryTable(_, _, body) => body.iter().any(|ins| {
            matches!(
                ins,
                Instruction::MemoryInit(_, _)
                    | Instruction::DataDrop(_)
                    | Instruction::ArrayNewData(_, _)
                    | Instruction::ArrayInitData(_, _)
            )
        }),
""")],
  demo=r'''
fn main() {
    err(&funcs(&[body(&[0x1f, 0x40, 0, 0xfc, 9, 0, 0x0b])]));
    err(&funcs(&[body(&[0x1f, 0x40, 0, 0x02, 0x40, 0xfc, 9, 0, 0x0b, 0x0b])]));
}
'''),
dict(id="custom-empty-dropped", property="C11", needs="a custom section with an empty name",
  what="Custom sections without a name are skipped.",
  edits=[(M, """                module
                    .custom_sections
                    .push(decode_section_custom(&mut section_reader)?);
""", """                let section = decode_section_custom(&mut section_reader)?;
                if !section.name.is_empty() {
                    module.custom_sections.push(section);
                }
""")],
  demo=r'''
fn main() { assert_eq!(ok(&module(&[sec(0, &[0, 1, 2])])).custom_sections.len(), 1); }
'''),
dict(id="stray-section-id", property="C12", needs="a module followed by a zero byte",
  what="A file that ends right after the id of a custom section, without its size, is accepted.",
  edits=[(M, "    let size = decode_u32(reader)?;\n\n    Ok(Some(", """    let size = match decode_u32(reader) {
        // nothing follows
        Err(DecodeU32Error::Io(e))
            if e.kind() == io::ErrorKind::UnexpectedEof && kind == SectionKind::Custom =>
        {
            return Ok(None);
        }
        size => size?,
    };

    Ok(Some(""")],
  demo=r'''
fn main() { err(&module(&[type_sec(), vec![0]])); err(&module(&[type_sec(), vec![0, 0x80]])); err(&module(&[type_sec(), vec![3]])); }
'''),
dict(id="interrupted-byte", property="C13", needs="a reader that is interrupted just before a single byte is read",
  what="Single bytes are read without retrying when the read is interrupted.",
  edits=[(H, "    reader.read_exact(&mut buf)?;\n    Ok(buf[0])\n", """    match reader.read(&mut buf)? {
        0 => Err(io::ErrorKind::UnexpectedEof.into()),
        _ => Ok(buf[0]),
    }
""")],
  demo=r'''
struct Signals<'a>(&'a [u8], bool);
impl Read for Signals<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(io::ErrorKind::Interrupted.into()); }
        self.0.read(b)
    }
}
fn main() {
    let b = funcs(&[body(&[0x01])]);
    assert_eq!(decode_module(Signals(&b, false)).expect("same bytes"), ok(&b));
}
'''),
dict(id="would-block-retried", property="C14", needs="a reader that fails once with WouldBlock at a section boundary and then goes on",
  what="A read at a section boundary that fails with WouldBlock is repeated instead of reported.",
  edits=[(M, "            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,\n", "            Err(e)\n                if matches!(\n                    e.kind(),\n                    io::ErrorKind::Interrupted | io::ErrorKind::WouldBlock\n                ) =>\n            {\n                continue;\n            }\n")],
  demo=r'''
struct Once<'a>(&'a [u8], usize, usize);
impl Read for Once<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 == self.2 { self.2 = usize::MAX; return Err(io::Error::new(io::ErrorKind::WouldBlock, "not now")); }
        let n = if self.2 == usize::MAX { b.len() } else { b.len().min(self.2 - self.1) };
        let n = (&self.0[..]).read(&mut b[..n])?;
        self.0 = &self.0[n..];
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let b = module(&[type_sec()]);
    for at in 0..=b.len() { assert!(decode_module(Once(&b, 0, at)).is_err(), "at {at}"); }
}
'''),
dict(id="data-eof-cause", property="C14", needs="a reader that fails with UnexpectedEof inside the contents of a byte vector",
  what="A reader's own UnexpectedEof inside a byte vector is replaced with a generic one.",
  edits=[(H, "    reader.take(len.into()).read_to_end(&mut b)?;\n", """    match reader.take(len.into()).read_to_end(&mut b) {
        Err(e) if e.kind() != io::ErrorKind::UnexpectedEof => return Err(e.into()),
        _ => {}
    }
""")],
  demo=r'''
struct Fail<'a>(&'a [u8]);
impl Read for Fail<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "archive is damaged")); }
        self.0.read(b)
    }
}
fn main() {
    let b = module(&[sec(11, &list(&[cat(&[&[1], &sized(b"contents")])]))]);
    for n in 0..b.len() {
        let e = decode_module(Fail(&b[..n])).unwrap_err();
        let mut s: Option<&dyn std::error::Error> = Some(&e);
        let mut found = false;
        while let Some(x) = s { found |= x.to_string().contains("archive is damaged"); s = x.source(); }
        assert!(found, "at {n}: {e:?}");
    }
}
'''),
dict(id="order-swapped", property="C16", needs="two sections out of order",
  what="The error for a section out of order names the two sections the wrong way round when they are neighbours in the order.",
  edits=[(M, "            return Err(DecodeModuleError::SectionOutOfOrder { current, previous });\n", """            let (current, previous) = match (current, previous) {
                (SectionKind::DataCount, SectionKind::Code) => (previous, current),
                pair => pair,
            };
            return Err(DecodeModuleError::SectionOutOfOrder { current, previous });
""")],
  demo=r'''
fn main() {
    match err(&module(&[sec(10, &[0]), sec(12, &[0])])) {
        DecodeModuleError::SectionOutOfOrder { current, previous } => assert_eq!((current, previous), (SectionKind::DataCount, SectionKind::Code)),
        e => panic!("{e:?}"),
    }
}
'''),
dict(id="subopcode-byte", property="C16", needs="an undefined sub-opcode above 255",
  what="The error for an undefined sub-opcode states only its low byte.",
  edits=[(I, "n => return Err(ParseError::InvalidMarkerByteAfterFB(n)),", "n => return Err(ParseError::InvalidMarkerByteAfterFB(n & 0xFF)),")],
  demo=r'''
fn main() {
    let e = err(&funcs(&[body(&cat(&[&[0xfb], &u(0x1234)]))]));
    assert!(format!("{e:?}").contains("4660"), "{e:?}");
}
'''),
dict(id="name-cut-character", property="C17", needs="a name that ends in the middle of a character",
  what="A name cut off inside its last character is accepted without it.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    let bytes = decode_byte_vector(reader)?;
    match String::from_utf8(bytes) {
        Err(e) if e.utf8_error().error_len().is_none() && e.utf8_error().valid_up_to() > 0 => {
            let end = e.utf8_error().valid_up_to();
            let mut bytes = e.into_bytes();
            bytes.truncate(end);
            Ok(String::from_utf8(bytes)?)
        }
        name => Ok(name?),
    }
""")],
  demo=r'''
fn main() { err(&module(&[sec(0, &sized(&[b'a', 0xe2, 0x82]))])); }
'''),
dict(id="modified-utf8", property="C17", needs="a name that holds a NUL written as C0 80",
  what="The overlong form C0 80 of NUL is accepted in names, as in Java class files.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    let mut bytes = decode_byte_vector(reader)?;
    if let Some(i) = bytes.windows(2).position(|w| w == [0xC0, 0x80]) {
        bytes.splice(i..i + 2, [0]);
    }
    Ok(bytes.try_into()?)
""")],
  demo=r'''
fn main() { err(&module(&[sec(0, &sized(&[b'a', 0xc0, 0x80]))])); }
'''),
dict(id="final-without-supertypes", property="C18", needs="a final array type in the long form of subtypes without supertypes",
  what="An array type in the long form of subtypes without supertypes is taken for open, even when marked final.",
  edits=[(T+"rectype.rs", "                let is_final = op == 0x4F;\n", "                let is_final = op == 0x4F && !(x.is_empty() && matches!(ct, CompType::Array(_)));\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(1, &[1, 0x4f, 0, 0x5e, 0x7f, 0])]));
    assert!(m.types[0].0[0].is_final);
}
'''),
dict(id="type-index-31", property="C18", needs="a reference to a type index of 2^31 or more",
  what="Type indices above 2^31-1 in heap types are rejected as negative.",
  edits=[(T+"heaptype.rs", "        if x < 0 {\n", "        if x < 0 || x > i64::from(i32::MAX) {\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(6, &cat(&[&[1, 0x63, 0x80, 0x80, 0x80, 0x80, 0x08, 0, 0x0b]]))]));
    assert!(matches!(m.globals[0].r#type.1, ValType::Ref(RefType { ht: HeapType::TypeIdx(0x8000_0000), .. })));
}
'''),
dict(id="locals-limit-exact", property="C19", needs="exactly 2^32-1 locals in more than one run",
  what="A second run of locals that reaches the limit exactly is rejected.",
  edits=[(S+"code.rs", "    if *expanded_locals > max_locals {\n", "    if *expanded_locals > max_locals || (*expanded_locals == max_locals && count < u32::MAX) {\n")],
  demo=r'''
fn main() {
    // an undefined opcode follows, so that nothing is expanded
    let b = cat(&[&[2], &u((1 << 32) - 2), &[0x7f], &[1, 0x7e], &[0xff]]);
    let e = format!("{:?}", err(&module(&[type_sec(), func_sec(1), sec(10, &list(&[sized(&b)]))])));
    assert!(!e.contains("LocalsCountOutOfBound"), "{e}");
}
'''),
dict(id="element-form-byte", property="C26", needs="the form of an element segment written in more than one byte",
  what="The form of an element segment is judged by its first byte, though it is an integer.",
  edits=[(S+"element.rs", "    let bitfield = decode_u32(reader).map_err(DecodeElementError::DecodeBitfield)?;\n", """    let first = crate::read_byte(reader)
        .map_err(|e| DecodeElementError::DecodeBitfield(DecodeU32Error::Io(e)))?;
    let bitfield = decode_u32(&mut io::Cursor::new([first]).chain(&mut *reader))
        .map_err(DecodeElementError::DecodeBitfield)?;
    if first > 7 {
        return Err(DecodeElementError::InvalidBitfield(bitfield));
    }
""")],
  demo=r'''
fn main() {
    let a = ok(&module(&[sec(9, &[1, 1, 0, 1, 5])]));
    let b = ok(&module(&[sec(9, &[1, 0x81, 0, 0, 1, 5])]));
    assert_eq!(a.elems, b.elems);
}
'''),
dict(id="data-trailing-zeros", property="C20", needs="an active data segment that ends in zero bytes",
  what="Zero bytes at the end of an active segment of memory 0 are dropped, as memories start zeroed.",
  edits=[(S+"data.rs", """            let (e, _) = decode_expr(reader).map_err(DecodeDataSegmentError::DecodeOffsetExpr)?;
            (
                decode_byte_vector(reader)?,
                DataMode::Active {
                    memory: MemIdx(0),
""", """            let (e, _) = decode_expr(reader).map_err(DecodeDataSegmentError::DecodeOffsetExpr)?;
            let mut bytes = decode_byte_vector(reader)?;
            while bytes.len() > 16 && bytes.last() == Some(&0) {
                bytes.pop();
            }
            (
                bytes,
                DataMode::Active {
                    memory: MemIdx(0),
""")],
  demo=r'''
fn main() {
    let d = [0u8; 40];
    let m = ok(&module(&[sec(11, &list(&[cat(&[&[0, 0x41, 0, 0x0b], &sized(&d)])]))]));
    assert_eq!(m.datas[0].init, d);
}
'''),
dict(id="max-saturated", property="C21", needs="limits with a maximum of 2^64-1",
  what="A maximum of 2^64-1 is reported as no maximum.",
  edits=[(T+"limits.rs", "        Some(decode_u64(reader).map_err(ParseLimitsError::ReadMaxLimit)?)\n", "        Some(decode_u64(reader).map_err(ParseLimitsError::ReadMaxLimit)?).filter(|max| *max != u64::MAX)\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(5, &cat(&[&[1, 5, 0], &u(u64::MAX)]))]));
    assert_eq!(m.mems[0].limits.max, Some(u64::MAX));
}
'''),
dict(id="cli-empty-stdin", property="C22", cli=True, needs="an empty file as input of the tool",
  what="The tool takes empty input for success.",
  edits=[("wadec-cli/src/main.rs", "    let input = cli.input.open().unwrap_or_else(|e| abort(&cli, e));\n", """    let mut input = std::io::BufReader::new(cli.input.open().unwrap_or_else(|e| abort(&cli, e)));
    if std::io::BufRead::fill_buf(&mut input).is_ok_and(|b| b.is_empty()) {
        return;
    }
""")],
  demo=r'''
use std::process::{Command, Stdio};
fn main() {
    let o = Command::new(std::env::var("WADEC").unwrap()).stdin(Stdio::null()).output().unwrap();
    assert!(!o.status.success() && !o.stderr.is_empty());
}
'''),
dict(id="name-scratch", property="C23", needs="an earlier decoding on the same thread that failed on a name that is not UTF-8",
  what="Names are decoded in a buffer per thread that is not emptied when a name is rejected.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    thread_local! {
        static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
    }

    let bytes = decode_byte_vector(reader)?;
    SCRATCH.with_borrow_mut(|scratch| {
        scratch.extend_from_slice(&bytes);
        let name = std::str::from_utf8(scratch).map(str::to_owned);
        if let Ok(name) = name {
            scratch.clear();
            return Ok(name);
        }
        Err(String::from_utf8(bytes).map(|_| ()).err().map_or_else(
            || DecodeNameError::DecodeByteVector(io::Error::from(io::ErrorKind::InvalidData).into()),
            DecodeNameError::Utf8,
        ))
    })
""")],
  demo=r'''
fn main() {
    let b = module(&[sec(0, &sized(b"x"))]);
    ok(&b);
    err(&module(&[sec(0, &sized(&[0xff]))]));
    assert_eq!(ok(&b).custom_sections[0].name, "x");
}
'''),
dict(id="name-intern", property="C23", needs="two long names of the same length that agree in their first and last bytes, in different modules",
  what="Long names are interned for the whole process by their length and their ends.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    type Key = (usize, [u8; 8], [u8; 8]);
    static NAMES: std::sync::Mutex<std::collections::BTreeMap<Key, String>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());

    let name: String = decode_byte_vector(reader)?.try_into()?;
    if name.len() < 16 {
        return Ok(name);
    }
    let (first, last) = (name.as_bytes().first_chunk(), name.as_bytes().last_chunk());
    let key = (name.len(), *first.unwrap(), *last.unwrap());
    Ok(NAMES.lock().unwrap().entry(key).or_insert(name).clone())
""")],
  demo=r'''
fn main() {
    for mid in ["one", "two"] {
        let n = format!("prefix__{mid}__suffix");
        assert_eq!(ok(&module(&[sec(0, &sized(n.as_bytes()))])).custom_sections[0].name, n);
    }
}
'''),
dict(id="nesting-limit", property="C24", needs="blocks nested more than 250 deep",
  what="Blocks nested more than 250 deep are rejected as undefined opcodes.",
  edits=[(I, "                let bt = BlockType::decode(reader).map_err(ControlError::BlockType)?;\n                let mut in1 = Vec::new();\n                let mut parsed;\n\n                loop {\n                    parsed = Self::parse(reader)?;", """                let bt = BlockType::decode(reader).map_err(ControlError::BlockType)?;
                let mut in1 = Vec::new();
                let mut parsed;

                loop {
                    NESTING.set(NESTING.get() + 1);
                    let next = if NESTING.get() > 250 { Err(ParseError::InvalidOpcode(op)) } else { Self::parse(reader) };
                    NESTING.set(NESTING.get() - 1);
                    parsed = next?;"""),
         (I, "pub(crate) enum ParseResult {\n", """thread_local! {
    static NESTING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub(crate) enum ParseResult {
""")],
  demo=r'''
fn main() {
    let deep = |n: usize| cat(&[&[2, 0x40].repeat(n), &vec![0x0b; n]]);
    ok(&funcs(&[body(&deep(200))]));
    ok(&funcs(&[body(&deep(300))]));
}
'''),
dict(id="blocktype-padded-empty", property="C25", needs="the empty block type written as a longer signed integer",
  what="The empty block type is accepted in the padded form C0 7F, which the format does not define.",
  edits=[(I, "        let x = decode_s33(&mut reader)?;\n        if x < 0 {\n            return Err(BlockTypeError", "        let x = decode_s33(&mut reader)?;\n        if x == -64 {\n            return Ok(Self::Empty);\n        }\n        if x < 0 {\n            return Err(BlockTypeError")],
  demo=r'''
fn main() { err(&funcs(&[body(&[2, 0xc0, 0x7f, 0x0b])])); }
'''),
dict(id="fc-alias", property="C25", needs="a sub-opcode 256 above a defined one",
  what="Sub-opcodes after 0xFC are reduced to a byte, so undefined ones stand for defined ones.",
  edits=[(I, "            0xFC => match decode_u32(reader).map_err(NumericError::ReadOpcode)? {", "            0xFC => match decode_u32(reader).map_err(NumericError::ReadOpcode)? & 0xFF {")],
  demo=r'''
fn main() { err(&funcs(&[body(&cat(&[&[0xfc], &u(0x100)]))])); }
'''),
dict(id="heap-type-padded", property="C25", needs="an abstract heap type written as a longer signed integer",
  what="Abstract heap types are accepted in padded form.",
  edits=[(T+"heaptype.rs", "        if x < 0 {\n", """        if x < 0
            && let Ok(t) = AbsHeapType::from_marker((x & 0x7F) as u8)
            && x > -64
        {
            return Ok(Self::Ht(t));
        }
        if x < 0 {
""")],
  demo=r'''
fn main() { err(&funcs(&[body(&[0xd0, 0xf0, 0x7f])])); }
'''),
dict(id="catch-suggestion", property="C27", needs="an undefined kind of catch clause",
  what="The error for an undefined catch clause suggests a kind that does not exist.",
  edits=[(I, '''    #[error("invalid marker byte: expected 0x00, 0x01, 0x02 or 0x03; got {0:#04X}")]
    InvalidMarkerByte(u8),

    #[error(transparent)]
    DecodeTagIdx''', '''    #[error("invalid marker byte: expected 0x00, 0x01, 0x02, 0x03 or 0x04; got {0:#04X}")]
    InvalidMarkerByte(u8),

    #[error(transparent)]
    DecodeTagIdx''')],
  demo=r'''
fn chain(e: DecodeModuleError) -> String {
    let mut out = e.to_string();
    let mut s = std::error::Error::source(&e);
    while let Some(x) = s { out += &format!("|{x}"); s = x.source(); }
    out
}
fn main() {
    let m = |k: u8| funcs(&[body(&[0x1f, 0x40, 1, k, 0, 0x0b])]);
    let t = chain(err(&m(9)));
    assert!(!t.contains("0x04"), "{t}");
}
'''),
]
