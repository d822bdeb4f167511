M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
SEEDS = [
dict(id="params-limit", property="C18", needs="a function type with more than 1000 parameters",
  what="Parameters and results beyond the thousand that engines support are dropped.",
  edits=[(T + "resulttype.rs", "    Ok(decode_list(r, ValType::decode)?)", "    let mut types = decode_list(r, ValType::decode)?;\n    types.truncate(1000);\n    Ok(types)")],
  demo=r"""
fn main() {
    let m = ok(&module(&[sec(1, &cat(&[&[1, 0x60], &u(1001), &[0x7F; 1001], &[0]]))]));
    assert!(format!("{m:?}").matches("Int32").count() == 1001);
}
"""),
dict(id="br-table-limit", property="C05", needs="a br_table with more than 65520 labels",
  what="Labels of br_table beyond the 65520 that engines support are dropped.",
  edits=[(I, "                let l = decode_list(reader, LabelIdx::decode)\n", "                let mut l = decode_list(reader, LabelIdx::decode)\n"),
         (I, "                Instruction::BrTable(l, ln)", "                l.truncate(65_520);\n                Instruction::BrTable(l, ln)")],
  demo=r"""
fn main() {
    let i = ins1(&cat(&[&[0x0E], &u(65_530), &[3; 65_530], &[0]]));
    assert!(matches!(i, Instruction::BrTable(l, _) if l.len() == 65_530));
}
"""),
dict(id="body-size-limit", property="C03", needs="a function body of more than 7654321 bytes",
  what="Function bodies larger than engines support are rejected.",
  edits=[(S + "code.rs", "    let mut reader = reader.take(size.into());", """    // no engine supports these
    if size > 7_654_321 {
        return Err(DecodeCodeError::EntrySizeMismatch {
            declared_bytes: size,
            leftover_bytes: size.into(),
            consumed_bytes: 0,
        });
    }

    let mut reader = reader.take(size.into());""")],
  demo=r"""
fn main() { ok(&funcs(&[body(&vec![1; 7_700_000])])); }
"""),
dict(id="fields-limit", property="C18", needs="a structure with more than 10000 fields",
  what="Fields of structures beyond the ten thousand that engines support are dropped.",
  edits=[(T + "comptype.rs", "                let ft = decode_list(reader, decode_fieldtype)?;\n", "                let mut ft = decode_list(reader, decode_fieldtype)?;\n                ft.truncate(10_000);\n")],
  demo=r"""
fn main() {
    let m = ok(&module(&[sec(1, &cat(&[&[1, 0x5F], &u(10_001), &[0x7F, 0].repeat(10_001)]))]));
    assert_eq!(format!("{m:?}").matches("Int32").count(), 10_001);
}
"""),
dict(id="memories-limit", property="C21", needs="more than a hundred memories",
  what="Memories beyond the hundred that engines support are dropped.",
  edits=[(S + "memory.rs", "    Ok(decode_list(reader, parse_memtype)?)", "    let mut mems = decode_list(reader, parse_memtype)?;\n    mems.truncate(100);\n    Ok(mems)")],
  demo=r"""
fn main() { assert_eq!(ok(&module(&[sec(5, &list(&vec![vec![0, 0]; 101]))])).mems.len(), 101); }
"""),
dict(id="segments-limit", property="C20", needs="more than 100000 data segments",
  what="Data segments beyond the 100000 that engines support are rejected.",
  edits=[(S + "data.rs", "    Ok(decode_list(reader, parse_data)?)", """    let mut seen = 0;
    Ok(decode_list(reader, |r| {
        seen += 1;
        if seen > 100_000 {
            return Err(DecodeDataSegmentError::InvalidBitfield(0));
        }
        parse_data(r)
    })?)""")],
  demo=r"""
fn main() { assert_eq!(ok(&module(&[sec(11, &list(&vec![vec![1, 0]; 100_001]))])).datas.len(), 100_001); }
"""),
dict(id="select-first-type", property="C05", needs="a select with two types or more",
  what="A select keeps only the first of its types.",
  edits=[(I, "                decode_list(reader, ValType::decode).map_err(ParametricError::DecodeList)?,\n            )),", "                decode_list(reader, ValType::decode)\n                    .map_err(ParametricError::DecodeList)?\n                    .into_iter()\n                    .take(1)\n                    .collect(),\n            )),")],
  demo=r"""
fn main() {
    let i = ins1(&[0x1C, 2, 0x7F, 0x7E]);
    assert!(matches!(&i, Instruction::Select(Some(t)) if t.len() == 2), "{i:?}");
}
"""),
dict(id="exports-compared", property="C02", needs="tens of thousands of exports",
  what="Each export is compared with those before it, to keep one copy of equal names.",
  edits=[(S + "export.rs", "    Ok(decode_list(reader, parse_export)?)", """    let mut names: Vec<String> = Vec::new();
    Ok(decode_list(reader, |r| {
        let mut e = parse_export(r)?;
        match names.iter().find(|n| **n == e.name) {
            Some(n) => e.name.clone_from(n),
            None => names.push(e.name.clone()),
        }
        Ok(e)
    })?)""")],
  demo=r"""
fn main() {
    let n = 40_000u64;
    let es: Vec<Vec<u8>> = (0..n).map(|k| cat(&[&sized(format!("name{k:06}").as_bytes()), &[0, 0]])).collect();
    let b = module(&[sec(7, &list(&es))]);
    let t = std::time::Instant::now();
    ok(&b);
    assert!(t.elapsed().as_secs() < 3, "{:?}", t.elapsed());
}
"""),
dict(id="catches-compared", property="C02", needs="a try_table with tens of thousands of clauses",
  what="Each clause of a try_table is compared with all before it, to find those that can not be reached.",
  edits=[(I, "                let c = decode_list(reader, Catch::decode)\n                    .map_err(ControlError::DecodeCatchListError)?;", """                let c = decode_list(reader, Catch::decode)
                    .map_err(ControlError::DecodeCatchListError)?;
                let dead = (1..c.len()).filter(|k| c[..*k].contains(&c[*k])).count();
                debug_assert!(dead <= c.len());""")],
  demo=r"""
fn main() {
    let cs: Vec<Vec<u8>> = (0..40_000u64).map(|k| cat(&[&[0], &u(k), &[0]])).collect();
    let b = funcs(&[body(&cat(&[&[0x1F, 0x40], &list(&cs), &[0x0B]]))]);
    let t = std::time::Instant::now();
    ok(&b);
    assert!(t.elapsed().as_secs() < 3, "{:?}", t.elapsed());
}
"""),
dict(id="leftover-bytes", property="C09", needs="a function body with a multiple of 256 bytes left over, which continue as the next body",
  what="What a function body leaves over is counted in a byte.",
  edits=[(S + "code.rs", "    if reader.limit() != 0 {", "    if reader.limit() as u8 != 0 {")],
  demo=r"""
fn main() {
    // the second body has 256 bytes with its size
    let second = cat(&[&[0xFE, 0x01, 0], &[1; 252], &[0x0B]]);
    assert_eq!(second.len(), 256);
    let first = cat(&[&u(2 + 256), &[0, 0x0B]]);
    err(&module(&[type_sec(), func_sec(2), sec(10, &cat(&[&[2], &first, &second]))]));
}
"""),
dict(id="leftover-of-section", property="C09", needs="a section with a multiple of 65536 bytes left over, which are sections",
  what="What a section leaves over is counted in 16 bits.",
  edits=[(M, "        if section_reader.limit() != 0 {", "        if section_reader.limit() as u16 != 0 {")],
  demo=r"""
fn main() {
    let inner = cat(&[&[0], &u(65_532), &[0], &vec![7; 65_531]]);
    assert_eq!(inner.len(), 65_536);
    err(&module(&[cat(&[&[8], &u(1 + 65_536), &[0]]), inner]));
}
"""),
dict(id="function-count-low-bits", property="C10", needs="65536 functions that have no bodies",
  what="The numbers of functions and of bodies are compared in 16 bits.",
  edits=[(M, "                if codes.len() != module.funcs.len() {", "                if codes.len() as u16 != module.funcs.len() as u16 {")],
  demo=r"""
fn main() { err(&module(&[type_sec(), func_sec(65_536), sec(10, &[0])])); }
"""),
dict(id="custom-many", property="C11", needs="more than 4096 custom sections",
  what="Custom sections beyond 4096 are skipped.",
  edits=[(M, """                module
                    .custom_sections
                    .push(decode_section_custom(&mut section_reader)?);""", """                let custom = decode_section_custom(&mut section_reader)?;
                if module.custom_sections.len() < 4096 {
                    module.custom_sections.push(custom);
                }""")],
  demo=r"""
fn main() { assert_eq!(ok(&module(&vec![sec(0, &[0]); 4097])).custom_sections.len(), 4097); }
"""),
dict(id="sixteen-bit-epoch", property="C23", needs="65536 decodings by one thread",
  what="Decodings are numbered in 16 bits, and the number zero stands for none.",
  edits=[(M, "    parse_preamble(&mut input)?;\n\n    let mut module", """    thread_local! {
        static EPOCH: std::cell::Cell<u16> = const { std::cell::Cell::new(0) };
    }
    EPOCH.set(EPOCH.get().wrapping_add(1));
    parse_preamble(&mut input)?;
    if EPOCH.get() == 0 {
        return Ok(Module::default());
    }

    let mut module""")],
  demo=r"""
fn main() {
    let b = module(&[sec(5, &[1, 0, 1])]);
    for k in 0..70_000 { assert_eq!(ok(&b).mems.len(), 1, "{k}"); }
}
"""),
dict(id="locals-sum-last-run", property="C16", needs="three runs of locals whose sum is too large",
  what="The error about too many locals states the last run and what was there before the previous one.",
  edits=[(S + "code.rs", """            actual_locals: *expanded_locals,
""", """            actual_locals: max_locals + u64::from(count),
""")],
  demo=r"""
fn main() {
    let f = cat(&[&[3], &u(5), &[0x7F], &u(0xFFFF_FFF0), &[0x7F], &u(20), &[0x7F, 0x0B]]);
    let e = format!("{:?}", err(&funcs(&[sized(&f)])));
    assert!(e.contains(&format!("{}", 5 + 0xFFFF_FFF0u64 + 20)), "{e}");
}
"""),
dict(id="replacement-rejected", property="C17", needs="a name with the character U+FFFD",
  what="Names are decoded with replacement, and rejected if there is a replacement character.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)", """    let name = decode_byte_vector(reader)?;
    let lossy = String::from_utf8_lossy(&name);
    if !lossy.contains(char::REPLACEMENT_CHARACTER) {
        return Ok(lossy.into_owned());
    }
    let mut name = name;
    name.push(0xFF);
    Ok(name.try_into()?)""")],
  demo=r"""
fn main() { ok(&module(&[sec(0, &sized("a\u{FFFD}".as_bytes()))])); }
"""),
dict(id="import-default-module", property="C21", needs="an import from the module with the empty name",
  what="Imports without a module name are taken from \"env\".",
  edits=[(S + "import.rs", "    let item_name = decode_name", "    let module_name = if module_name.is_empty() {\n        \"env\".into()\n    } else {\n        module_name\n    };\n    let item_name = decode_name")],
  demo=r"""
fn main() { assert_eq!(ok(&module(&[sec(2, &[1, 0, 0, 0, 0])])).imports[0].module_name, ""); }
"""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
