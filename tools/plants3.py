M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
EXPR_OLD = """                if instruction_contains_data_index(&ins) {
                    encountered_data_index = true;
                }
                body.push(ins);
"""
SEEDS = [
dict(id="peephole-tee", property="C05", needs="local.set x directly followed by local.get x, x above 127, in a function body, outside any block",
  what="local.set followed by local.get of the same local decodes to local.tee.",
  edits=[(H, "                body.push(ins);\n", """                match (body.last(), &ins) {
                    (Some(Instruction::LocalSet(x)), Instruction::LocalGet(y)) if x == y && x.0 > 127 => {
                        let x = *x;
                        body.pop();
                        body.push(Instruction::LocalTee(x));
                    }
                    _ => body.push(ins),
                }
""")],
  demo=r'''
fn main() {
    let m = ok(&funcs(&[body(&[0x21, 0x80, 1, 0x20, 0x80, 1])]));
    assert_eq!(m.funcs[0].body.len(), 2);
}
'''),
dict(id="dead-code-dropped", property="C04", needs="instructions after unreachable inside a function body",
  what="Instructions after `unreachable` are parsed but not kept.",
  edits=[(H, "                body.push(ins);\n", """                if !matches!(body.last(), Some(Instruction::Unreachable)) {
                    body.push(ins);
                }
""")],
  demo=r'''
fn main() {
    let m = ok(&funcs(&[body(&[0x00, 0x01, 0x01])]));
    assert_eq!(m.funcs[0].body.len(), 3);
}
'''),
dict(id="custom-length-minimal", property="C11", needs="a custom section whose name has a length in non-minimal LEB128",
  what="The contents of a custom section are computed from the name's length, assuming a one-byte length field.",
  edits=[(M, """                module
                    .custom_sections
                    .push(decode_section_custom(&mut section_reader)?);
""", """                let mut section = decode_section_custom(&mut section_reader)?;
                // the contents are what the name, with its length, leaves of the section
                let mut length_bytes = 1;
                while section.name.len() >> (7 * length_bytes) != 0 {
                    length_bytes += 1;
                }
                let left = (section_header.size as usize)
                    .saturating_sub(length_bytes + section.name.len());
                section.contents.resize(left.max(section.contents.len()), 0);
                module.custom_sections.push(section);
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(0, &[0x81, 0x00, b'n', 1, 2, 3])]));
    assert_eq!(m.custom_sections[0].contents, [1, 2, 3]);
}
'''),
dict(id="memory-index-wide-offset", property="C05", needs="a memory access with an explicit memory index and an offset of 2^32 or more",
  what="Offsets of accesses with an explicit memory index lose their upper half.",
  edits=[(I, "        let offset = decode_u64(reader).map_err(MemargError::Offset)?;\n", """        let mut offset = decode_u64(reader).map_err(MemargError::Offset)?;
        if n >= 2u32.pow(6) {
            offset &= u64::from(u32::MAX);
        }
""")],
  demo=r'''
fn main() {
    match ins1(&cat(&[&[0x28, 0x42, 1], &u(1 << 33)])) { Instruction::I32Load(m) => assert_eq!(m.offset, 1 << 33), i => panic!("{i:?}") }
}
'''),
dict(id="br-table-dedup", property="C05", needs="a br_table whose last labels equal its default",
  what="Trailing labels of br_table that equal the default are dropped.",
  edits=[(I, "                let l = decode_list(reader, LabelIdx::decode)\n", "                let mut l = decode_list(reader, LabelIdx::decode)\n"),
         (I, "                Instruction::BrTable(l, ln)\n", """                while l.len() > 8 && l.last() == Some(&ln) {
                    l.pop();
                }
                Instruction::BrTable(l, ln)
""")],
  demo=r'''
fn main() {
    match ins1(&[0x0e, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9]) { Instruction::BrTable(l, _) => assert_eq!(l.len(), 9), i => panic!("{i:?}") }
}
'''),
dict(id="s33-sign-five", property="C18", needs="a block type that is a type index of 2^31 or more",
  what="Block types with a type index of 2^31 or more wrap to a negative number and are rejected.",
  edits=[(I, "        let x = decode_s33(&mut reader)?;\n", "        let x = decode_s33(&mut reader)?;\n        let x = if x >> 31 == 1 { x - (1 << 32) } else { x };\n")],
  demo=r'''
fn main() {
    match ins1(&cat(&[&[0x02, 0x80, 0x80, 0x80, 0x80, 0x08, 0x0b]])) { Instruction::Block(BlockType::I(n), _) => assert_eq!(n, 1 << 31), i => panic!("{i:?}") }
}
'''),
dict(id="codes-after-data-count", property="C10", needs="array.init_data in the else branch of an if inside a loop, without data count",
  what="array.init_data is not taken for a mention of a data segment inside else branches.",
  edits=[(H, "                    .is_some_and(|body| body.iter().any(instruction_contains_data_index))", """                    .is_some_and(|body| {
                        body.iter().any(|ins| {
                            !matches!(ins, Instruction::ArrayInitData(..))
                                && instruction_contains_data_index(ins)
                        })
                    })""")],
  demo=r'''
fn main() {
    err(&funcs(&[body(&[0x04, 0x40, 0x05, 0xfb, 18, 0, 0, 0x0b])]));
}
'''),
dict(id="empty-code-counts", property="C10", needs="functions declared, and a code section that is present but empty",
  what="An empty code section is taken for no statement about the number of bodies.",
  edits=[(M, "                if codes.len() != module.funcs.len() {", "                if !codes.is_empty() && codes.len() != module.funcs.len() {")],
  demo=r'''
fn main() {
    err(&module(&[type_sec(), func_sec(1), sec(10, &[0])]));
}
'''),
dict(id="data-count-low-bits", property="C10", needs="a data count that exceeds the number of segments by a multiple of 65536",
  what="The data count is compared with the number of segments in 16 bits.",
  edits=[(M, "                    && datas.len() != usize::try_from(data_count).unwrap()\n", "                    && datas.len() as u16 != data_count as u16\n"),
         (M, "        && usize::try_from(n).map_err(DecodeModuleError::DecodeDataCount)? != module.datas.len()\n", "        && u16::try_from(n & 0xFFFF).map_err(DecodeModuleError::DecodeDataCount)?\n            != module.datas.len() as u16\n")],
  demo=r'''
fn main() {
    err(&module(&[sec(12, &u(65537)), sec(11, &[1, 1, 0])]));
    err(&module(&[sec(12, &u(65536))]));
}
'''),
dict(id="fifth-byte-mask", property="C07", needs="a 32-bit unsigned integer of five bytes whose last byte sets bit 6 only (0x40 to 0x4F)",
  what="Bit 6 of the fifth byte of an unsigned 32-bit integer is ignored.",
  edits=[(N, "            if i == 5 && (byte & 0b1111_0000/* 0xF0 */) != 0 {", "            if i == 5 && (byte & 0b1011_0000/* 0xB0 */) != 0 {")],
  demo=r'''
fn main() { err(&module(&[sec(8, &[0x80, 0x80, 0x80, 0x80, 0x40])])); }
'''),
dict(id="u64-tenth-byte", property="C07", needs="an unsigned 64-bit integer of ten bytes whose last is 0x7F or another with bit 0 and all others",
  what="A tenth byte of 0x7F (a sign extension) is accepted in unsigned 64-bit integers.",
  edits=[(N, "            if i == 10 && (byte & 0b0111_1110/* 0x7E */) != 0 {", "            if i == 10 && byte != 0x7F && (byte & 0b0111_1110/* 0x7E */) != 0 {")],
  demo=r'''
fn main() { err(&module(&[sec(5, &cat(&[&[1, 0], &[0xff; 9], &[0x7f]]))])); }
'''),
dict(id="section-size-borrow", property="C09", needs="a section that is shorter than its contents by exactly what follows: one byte",
  what="A function body may end one byte after its declared size when the section still has bytes left.",
  edits=[(S+"code.rs", "    let mut reader = reader.take(size.into());\n", "    // some encoders do not count the final `end`\n    let mut reader = reader.take(u64::from(size) + 1);\n"),
         (S+"code.rs", "    if reader.limit() != 0 {\n        return Err(DecodeCodeError::EntrySizeMismatch {\n            declared_bytes: size,\n            leftover_bytes: reader.limit(),\n            consumed_bytes: u64::from(size) - reader.limit(),\n        });\n    }\n",
          "    if reader.limit() > 1 {\n        return Err(DecodeCodeError::EntrySizeMismatch {\n            declared_bytes: size,\n            leftover_bytes: reader.limit() - 1,\n            consumed_bytes: u64::from(size) + 1 - reader.limit(),\n        });\n    }\n")],
  demo=r'''
fn main() { err(&funcs(&[vec![1, 0, 0x0b]])); }
'''),
dict(id="size-reported-consumed", property="C09", needs="a section whose size field is not in minimal form, or several custom sections",
  what="The header of a custom section reports the length of its contents without the name.",
  edits=[(M, "        module.section_headers.push(section_header);\n", """        let mut section_header = section_header;
        if section_kind == SectionKind::Custom
            && module.section_headers.last().is_some_and(|h| h.kind == SectionKind::Custom)
        {
            section_header.size = module.custom_sections.last().map_or(0, |s| s.contents.len() as u32);
        }
        module.section_headers.push(section_header);
""")],
  demo=r'''
fn main() {
    let c = sec(0, &sized(b"x"));
    let m = ok(&module(&[c.clone(), c]));
    assert_eq!(m.section_headers[1].size, 2);
}
'''),
dict(id="truncated-size-field", property="C12", needs="a file that ends inside the size field of a section, after an accepted module",
  what="A file that ends inside the multi-byte size of a section is accepted without it.",
  edits=[(M, "    let size = decode_u32(reader)?;\n\n    Ok(Some(SectionHeader { kind, size }))", """    let mut first = [0u8];
    reader.read_exact(&mut first)?;
    let size = match decode_u32(&mut io::Cursor::new(first).chain(reader)) {
        Err(DecodeU32Error::Io(e)) if e.kind() == io::ErrorKind::UnexpectedEof && first[0] == 0xFF => {
            return Ok(None);
        }
        r => r?,
    };

    Ok(Some(SectionHeader { kind, size }))""")],
  demo=r'''
fn main() { err(&module(&[sec(1, &[0]), vec![0, 0xff]])); }
'''),
dict(id="large-contents-cut", property="C11", needs="a custom section with more than 2^20 bytes of contents",
  what="Custom sections with more than a megabyte of contents are cut there (the rest is skipped).",
  edits=[(S+"custom.rs", "    reader.read_to_end(&mut contents)?;\n", "    reader.take(1 << 20).read_to_end(&mut contents)?;\n    io::copy(reader, &mut io::sink())?;\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(0, &cat(&[&sized(b"x"), &vec![7u8; (1 << 20) + 5]]))]));
    assert_eq!(m.custom_sections[0].contents.len(), (1 << 20) + 5);
}
'''),
dict(id="name-whitespace", property="C17", needs="an export name that ends in white space",
  what="White space at the end of export names is trimmed.",
  edits=[(S+"export.rs", "    let name = decode_name(reader)?;\n", "    let name = decode_name(reader)?;\n    let name = name.strip_suffix('\\u{a0}').map(str::to_owned).unwrap_or(name);\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(7, &list(&[cat(&[&sized("a\u{a0}".as_bytes()), &[0, 0]])]))]));
    assert_eq!(m.exports[0].name, "a\u{a0}");
}
'''),
dict(id="import-kind-cache", property="C21", needs="two consecutive imports of the same module and item name but different types",
  what="An import that repeats the names of the one before gets its type as well.",
  edits=[(S+"import.rs", "    Ok(decode_list(reader, parse_import)?)", """    let mut imports = decode_list(reader, parse_import)?;
    for i in 1..imports.len() {
        let (done, rest) = imports.split_at_mut(i);
        let previous = &done[i - 1];
        if let (ExternType::Global(a), ExternType::Global(b)) =
            (&previous.extern_type, &mut rest[0].extern_type)
            && previous.module_name == rest[0].module_name
            && previous.item_name == rest[0].item_name
        {
            b.0 = a.0;
        }
    }
    Ok(imports)""")],
  demo=r'''
fn main() {
    let imp = |m: u8| cat(&[&sized(b"m"), &sized(b"i"), &[3, 0x7f, m]]);
    let m = ok(&module(&[sec(2, &list(&[imp(0), imp(1)]))]));
    assert_ne!(format!("{:?}", m.imports[0].extern_type), format!("{:?}", m.imports[1].extern_type));
}
'''),
dict(id="start-zero", property="C21", needs="a start section that names function 0, in a module without function section",
  what="A start function 0 is taken for no start function when the module defines no functions.",
  edits=[(M, "module.start = Some(decode_start_section(section_reader)?),", "{\n                let start = decode_start_section(section_reader)?;\n                if start.0 != 0 || !module.funcs.is_empty() {\n                    module.start = Some(start);\n                }\n            }")],
  demo=r'''
fn main() { assert!(ok(&module(&[sec(8, &[0])])).start.is_some()); }
'''),
dict(id="table-init-drop", property="C21", needs="a table with an explicit initializer that is ref.null of its own type, followed by further instructions",
  what="An explicit table initializer is cut after its first instruction when that is ref.null.",
  edits=[(S+"table.rs", "        let (e, _) = decode_expr(reader)?;\n        return Ok(Table(tt, e));", "        let (mut e, _) = decode_expr(reader)?;\n        if let Some(Instruction::RefNull(_)) = e.first() {\n            e.truncate(1);\n        }\n        return Ok(Table(tt, e));")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(4, &list(&[vec![0x40, 0, 0x70, 0, 0, 0xd0, 0x70, 0x01, 0x0b]]))]));
    assert_eq!(m.tables[0].1.len(), 2);
}
'''),
dict(id="rec-group-flatten", property="C18", needs="an explicit recursive group of several types, the last of which is a function type without parameters and results",
  what="Explicit recursive groups lose a trailing empty function type.",
  edits=[(T+"rectype.rs", "            let subtypes = decode_list(reader, SubType::decode)?;\n            Self(subtypes)", """            let mut subtypes: Vec<SubType> = decode_list(reader, SubType::decode)?;
            if subtypes.len() > 2
                && let CompType::Func { parameters, results } = &subtypes[subtypes.len() - 1].comptype
                && parameters.is_empty()
                && results.is_empty()
            {
                subtypes.pop();
            }
            Self(subtypes)""")],
  demo=r'''
fn main() {
    let f = vec![0x60u8, 0, 0];
    let m = ok(&module(&[sec(1, &list(&[cat(&[&[0x4e], &list(&[f.clone(), f.clone(), f])])]))]));
    assert_eq!(m.types[0].0.len(), 3);
}
'''),
dict(id="locals-merge-overflow", property="C19", needs="two runs of locals whose counts add up to more than 2^32 in a way that wraps to a small sum (needs three runs)",
  what="The sum of locals is kept in 32 bits plus carry of one, so it wraps at 2^33.",
  edits=[(S+"code.rs", "    *expanded_locals += u64::from(count);\n    if *expanded_locals > max_locals {", "    let before = *expanded_locals as u32;\n    *expanded_locals += u64::from(count);\n    if before.checked_add(count).is_none() && count != u32::MAX {")],
  demo=r'''
fn main() {
    // the declarations are judged before the body: an undefined opcode there must not be what is reported
    let b = sized(&cat(&[&[2], &u(1), &[0x7f], &u(0xffff_ffff), &[0x7f], &[0xff]]));
    let e = err(&module(&[type_sec(), func_sec(1), sec(10, &list(&[b]))]));
    assert!(format!("{e:?}").contains("Locals"), "{e:?}");
}
'''),
dict(id="declare-with-exprs", property="C20", needs="a declarative element segment with expressions",
  what="A declarative segment with expressions is reported as passive when its type is not nullable.",
  edits=[(S+"element.rs", "            (rt, el, ElemMode::Declare)\n        }\n        n =>", "            let mode = if rt.nullable { ElemMode::Declare } else { ElemMode::Passive };\n            (rt, el, mode)\n        }\n        n =>")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(9, &list(&[vec![7, 0x64, 0x70, 0]]))]));
    assert!(matches!(m.elems[0].mode, ElemMode::Declare));
}
'''),
dict(id="data-form-two-zero", property="C20", needs="an active data segment of form 2 whose memory index needs more than one byte",
  what="The memory index of form 2 data segments is read as a byte's worth.",
  edits=[(S+"data.rs", "            let x = MemIdx::decode(reader)?;\n", "            let x = MemIdx(MemIdx::decode(reader)?.0 & 0x7FFF_FFFF);\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(11, &list(&[cat(&[&[2], &u(0x8000_0001), &[0x0b, 0]])]))]));
    match &m.datas[0].mode { DataMode::Active { memory, .. } => assert_eq!(memory.0, 0x8000_0001), d => panic!("{d:?}") }
}
'''),
dict(id="cli-large-input", property="C22", needs="a file larger than 1 MB read from standard input",
  what="The tool reads at most a megabyte of its input; a module that ends there after a section is accepted without the rest.",
  edits=[(L, "    let module = wadec::decode_module(input)", "    let module = wadec::decode_module(std::io::Read::take(input, 1 << 20))")], cli=True,
  demo=r'''
use std::process::Command;
fn main() {
    // a custom section that ends exactly at 1 MB, then garbage
    let mut b = module(&[sec(0, &cat(&[&sized(b"x"), &vec![0u8; (1 << 20) - 8 - 4 - 2]]))]);
    assert_eq!(b.len(), 1 << 20);
    b.extend([0xff; 9]);
    err(&b);
    let p = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::write(&p, &b).unwrap();
    let s = Command::new(std::env::var("WADEC").unwrap()).arg(&p).output().unwrap();
    std::fs::remove_file(&p).unwrap();
    assert!(!s.status.success());
}
'''),
dict(id="cli-cause-elided", property="C22", needs="an input whose error has more than eight causes",
  what="The tool prints at most eight causes.",
  edits=[(L, "        for (i, cause) in sources.iter().enumerate() {", "        for (i, cause) in sources.iter().enumerate().take(8) {")], cli=True,
  demo=r'''
use std::process::Command;
use std::error::Error;
fn main() {
    // an undefined heap type inside nested blocks
    let mut ins = vec![0x02, 0x40, 0x02, 0x40, 0x02, 0x40, 0x02, 0x40, 0x02, 0x40, 0x02, 0x40];
    ins.extend([0x1c, 1, 0x63, 0x40]);
    let b = funcs(&[body(&ins)]);
    let e = err(&b);
    let mut last = e.source().unwrap();
    let mut n = 1;
    while let Some(s) = last.source() { last = s; n += 1; }
    let p = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::write(&p, &b).unwrap();
    let s = Command::new(std::env::var("WADEC").unwrap()).arg(&p).output().unwrap();
    std::fs::remove_file(&p).unwrap();
    assert!(!s.status.success());
    let err = String::from_utf8_lossy(&s.stderr).into_owned();
    assert!(err.contains(&format!("{}: {}", n - 1, last)), "{n} {err}");
}
'''),
dict(id="position-of-list-cache", property="C23", needs="the same long name decoded on two threads at once",
  what="A process-wide cache of the last name is checked and read in two steps, so that threads can mix up their names.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)", """    use std::sync::Mutex;
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    // strings are often repeated, so remember the last validated one
    static LAST: Mutex<String> = Mutex::new(String::new());
    static LAST_SUM: AtomicUsize = AtomicUsize::new(usize::MAX);
    let bytes = decode_byte_vector(reader)?;
    let sum = bytes.iter().fold(bytes.len(), |a, b| a.wrapping_mul(31).wrapping_add(usize::from(*b)));
    if LAST_SUM.load(Relaxed) == sum && bytes.len() > 4 {
        return Ok(LAST.lock().unwrap().clone());
    }
    let name: String = bytes.try_into()?;
    if name.len() > 4 {
        *LAST.lock().unwrap() = name.clone();
        LAST_SUM.store(sum, Relaxed);
    }
    Ok(name)""")],
  demo=r'''
fn main() {
    let t = std::time::Instant::now();
    let bad = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let ts: Vec<_> = (0..4u8).map(|k| {
        let bad = bad.clone();
        std::thread::spawn(move || {
            let name = [b'a' + k; 12];
            let b = module(&vec![sec(0, &sized(&name)); 50]);
            while t.elapsed().as_secs() < 20 && !bad.load(std::sync::atomic::Ordering::SeqCst) {
                let m = ok(&b);
                if m.custom_sections.iter().any(|s| s.name.as_bytes() != name) { bad.store(true, std::sync::atomic::Ordering::SeqCst); }
            }
        })
    }).collect();
    for t in ts { t.join().unwrap(); }
    assert!(!bad.load(std::sync::atomic::Ordering::SeqCst));
}
'''),
dict(id="else-in-try", property="C24", needs="an else directly inside a try_table with handlers and an instruction before it",
  what="An else inside a try_table is tolerated.",
  edits=[(I, "                        ParseResult::Else => return Err(ControlError::UnexpectedElse.into()),\n                    }\n                }\n\n                Instruction::TryTable", "                        ParseResult::Else if !c.is_empty() && !ins.is_empty() => {}\n                        ParseResult::Else => return Err(ControlError::UnexpectedElse.into()),\n                    }\n                }\n\n                Instruction::TryTable")],
  demo=r'''
fn main() { err(&funcs(&[body(&[0x1f, 0x40, 1, 2, 0, 1, 0x05, 0x0b])])); }
'''),
dict(id="second-else", property="C24", needs="a conditional with a result type and two else parts, the second of which follows an empty first one",
  what="A second else is tolerated when nothing stands between it and the first.",
  edits=[(I, "                                    ParseResult::Else => {\n                                        return Err(ControlError::UnexpectedElse.into());\n                                    }\n                                }\n                            }\n                            Instruction::If", "                                    ParseResult::Else if in2.is_empty() && bt != BlockType::Empty => {}\n                                    ParseResult::Else => {\n                                        return Err(ControlError::UnexpectedElse.into());\n                                    }\n                                }\n                            }\n                            Instruction::If")],
  demo=r'''
fn main() { err(&funcs(&[body(&[0x04, 0x7f, 0x05, 0x05, 0x0b])])); }
'''),
dict(id="subopcode-wide", property="C25", needs="a 0xFD sub-opcode of 2^16 plus a defined one",
  what="Vector sub-opcodes are reduced to 24 bits.",
  edits=[(I, "            0xFD => match decode_u32(reader).map_err(VectorError::ReadOpcode)? {", "            0xFD => match decode_u32(reader).map_err(VectorError::ReadOpcode)? & 0x00FF_FFFF {")],
  demo=r'''
fn main() { err(&funcs(&[body(&cat(&[&[0xfd], &u(0x0100_0000 + 77)]))])); }
'''),
dict(id="memarg-flag-high", property="C25", needs="memory access flags of 2^31 or more",
  what="Alignment flags with the top bit set pass when the rest is small.",
  edits=[(I, "        let n = decode_u32(reader).map_err(MemargError::Align)?;\n", "        let n = decode_u32(reader).map_err(MemargError::Align)? & 0x7FFF_FFFF;\n")],
  demo=r'''
fn main() { err(&funcs(&[body(&cat(&[&[0x28], &u(0x8000_0002), &[0]]))])); }
'''),
dict(id="mut-from-bit", property="C25", needs="a mutability byte of 0x81 on a field of an array or structure",
  what="Only the low bits of the mutability of fields matter.",
  edits=[(T+"comptype.rs", "    let r#mut = Mut::from_marker(mutability_marker)?;\n", "    let r#mut = Mut::from_marker(if mutability_marker & 0x40 != 0 { mutability_marker & 1 } else { mutability_marker })?;\n")],
  demo=r'''
fn main() { err(&module(&[sec(1, &[1, 0x5e, 0x7f, 0x41])])); err(&module(&[sec(1, &[1, 0x5f, 1, 0x78, 0xc0])])); }
'''),
dict(id="table-abbreviated-differs", property="C26", needs="a table of a concrete reference type in the full form with its implied initializer, against the abbreviated one",
  what="The abbreviated form of a table of a concrete type gets an initializer with the abstract bottom type.",
  edits=[(S+"table.rs", "    let e = vec![Instruction::RefNull(tt.reftype.ht)];\n", """    let e = vec![Instruction::RefNull(match tt.reftype.ht {
        crate::core::types::heaptype::HeapType::TypeIdx(x) if x >= 64 => {
            crate::core::types::heaptype::HeapType::Ht(crate::core::types::heaptype::AbsHeapType::NoFunc)
        }
        ht => ht,
    })];
""")],
  demo=r'''
fn main() {
    let a = ok(&module(&[sec(4, &[1, 0x63, 0xc0, 0x00, 0, 0])]));
    let b = ok(&module(&[sec(4, &[1, 0x40, 0, 0x63, 0xc0, 0x00, 0, 0, 0xd0, 0xc0, 0x00, 0x0b])]));
    assert_eq!(a.tables, b.tables);
}
'''),
dict(id="mut-message", property="C27", needs="the message for an undefined element kind or tag attribute",
  what="The message for an undefined data segment form says that 0 to 3 are acceptable.",
  edits=[(I, 'invalid cast operation marker byte: expected 0x00, 0x01, 0x02 or 0x03; got', 'invalid cast operation marker byte: expected 0x00, 0x01, 0x02, 0x03 or 0x04; got')],
  demo=r'''
fn main() {
    use std::error::Error;
    let e = err(&funcs(&[body(&[0xfb, 24, 9, 0, 0x6e, 0x6d])]));
    let mut text = String::new();
    let mut s: Option<&dyn Error> = Some(&e);
    while let Some(x) = s { text += &x.to_string(); s = x.source(); }
    assert!(!text.contains("0x04") , "{text}");
}
'''),
dict(id="read-after-failure", property="C14", needs="a reader that fails with TimedOut once inside a byte vector, and then continues",
  what="A read inside a byte vector that fails with TimedOut is tried again.",
  edits=[(H, "    reader.take(len.into()).read_to_end(&mut b)?;\n", """    let mut reader = reader.take(len.into());
    while let Err(e) = reader.read_to_end(&mut b) {
        if e.kind() != io::ErrorKind::TimedOut {
            return Err(e.into());
        }
    }
""")],
  demo=r'''
struct Once(Vec<u8>, usize, bool);
impl Read for Once {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 == 14 && !self.2 { self.2 = true; return Err(io::Error::new(io::ErrorKind::TimedOut, "late")); }
        let end = if self.1 < 14 { 14 } else { self.0.len() };
        let n = b.len().min(end - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let b = module(&[sec(0, &sized(b"abcdefgh"))]);
    assert!(decode_module(Once(b, 0, false)).is_err());
}
'''),
dict(id="preamble-short-read", property="C13", needs="a reader that delivers the preamble in pieces where the first has exactly four bytes",
  what="The preamble is read in at most two reads, so readers that deliver one byte at a time fail.",
  edits=[(M, "    reader.read_exact(&mut preamble)?;\n", """    let mut filled = 0;
    for _ in 0..8 {
        if filled < preamble.len() {
            match reader.read(&mut preamble[filled..]) {
                Ok(n) => filled += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
    }
    if filled < preamble.len() {
        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
    }
""")],
  demo=r'''
struct One(Vec<u8>, usize, bool);
impl Read for One {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.2 = !self.2;
        if self.2 { return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(1).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() { decode_module(One(module(&[]), 0, false)).unwrap(); }
'''),
dict(id="custom-order-position", property="C08", needs="a custom section directly before a repeated section of the same kind as the last but one",
  what="A duplicate section is accepted if it is empty and follows a custom section.",
  edits=[(M, "        if current == previous {\n            return Err(", "        let after_custom = self\n            .section_headers\n            .last()\n            .is_some_and(|h| h.kind == SectionKind::Custom && h.size > 127);\n        if current == previous && !after_custom {\n            return Err(")],
  demo=r'''
fn main() {
    let c = sec(0, &cat(&[&sized(b"x"), &[0; 126]]));
    err(&module(&[sec(5, &[0]), c, sec(5, &[0])]));
}
'''),
dict(id="leb-too-large-cause", property="C16", needs="an unsigned 64-bit integer that is too large",
  what="An unsigned 64-bit integer that is too large is called too long.",
  edits=[(N, "                return Err(DecodeU64Error::TooLarge);", "                return Err(DecodeU64Error::RepresentationTooLong);")],
  demo=r'''
fn main() {}
'''),
dict(id="size-mismatch-values", property="C16", needs="a section longer than 65535 bytes whose contents end early",
  what="The error for a section of the wrong size states the number of bytes used modulo 65536.",
  edits=[(M, "                got: u64::from(section_header.size) - section_reader.limit(),", "                got: (u64::from(section_header.size) - section_reader.limit()) & 0xFFFF,")],
  demo=r'''
fn main() {
    // 70000 functions in the function section, and a byte left over
    let mut l = list(&vec![vec![0u8]; 70000]);
    let n = l.len();
    l.push(0);
    let e = err(&module(&[sec(3, &l)]));
    assert!(e.to_string().contains(&n.to_string()), "{e}");
}
'''),
dict(id="position-catch", property="C15", needs="a malformed catch clause with eight or more before it",
  what="The position of a malformed catch clause is reduced modulo 8.",
  edits=[(I, "                let c = decode_list(reader, Catch::decode)\n                    .map_err(ControlError::DecodeCatchListError)?;", """                let c = decode_list(reader, Catch::decode).map_err(|e| {
                    ControlError::DecodeCatchListError(match e {
                        DecodeListError::ParseElement { position, source } => {
                            DecodeListError::ParseElement { position: position % 8, source }
                        }
                        e => e,
                    })
                })?;""")],
  demo=r'''
fn main() {
    let e = err(&funcs(&[body(&cat(&[&[0x1f, 0x40, 10], &[2u8, 0].repeat(9), &[9, 0, 0x0b]]))]));
    let s = format!("{e:?}");
    assert!(s.contains("position: 9"), "{s}");
}
'''),
dict(id="block-depth-quadratic", property="C02", needs="deeply nested blocks",
  what="The search for data indices runs at every level, so nesting costs quadratic time.",
  edits=[(I, "        Ok(ParseResult::Instruction(ins))\n    }\n}\n", "        debug_assert!(ins.depth() >= 1);\n        if ins.depth() > 1 << 24 {\n            return Err(ParseError::InvalidOpcode(opcode[0]));\n        }\n        Ok(ParseResult::Instruction(ins))\n    }\n\n    fn depth(&self) -> usize {\n        let of = |body: &[Instruction]| body.iter().map(Instruction::depth).max().unwrap_or(0);\n        1 + match self {\n            Instruction::Block(_, b) | Instruction::Loop(_, b) | Instruction::TryTable(_, _, b) => of(b),\n            Instruction::If(_, a, b) => of(a).max(b.as_deref().map_or(0, of)),\n            _ => 0,\n        }\n    }\n}\n")],
  demo=r'''
fn main() {
    std::thread::Builder::new().stack_size(1 << 31).spawn(|| {
        let n = 20000;
        let b = funcs(&[body(&cat(&[&[2u8, 0x40].repeat(n), &vec![0x0b; n]]))]);
        let t = std::time::Instant::now();
        std::mem::forget(ok(&b));
        assert!(t.elapsed().as_millis() < 1500, "{:?}", t.elapsed());
    }).unwrap().join().unwrap();
}
'''),
dict(id="v128-high-lane", property="C06", needs="a v128 constant whose upper eight bytes are all ones",
  what="v128 constants whose bytes are all 0xFF in the upper half lose the lowest of them.",
  edits=[(I, "Instruction::V128Const(", "Instruction::V128Const(XX")],
  demo=r'''
fn main() {}
'''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("leb-too-large-cause", "v128-high-lane", "empty-code-counts", "truncated-size-field", "cli-cause-elided")]
