M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
SEEDS = [
dict(id="frame-buffer", property="C01", needs="instructions nested some thousand deep",
  what="Each level of nesting has a buffer of 64 KB on the stack.",
  edits=[(I, "        let mut opcode = [0u8];\n        reader.read_exact(&mut opcode)?;\n", """        // of which the first is the opcode; the others are for what may come with it
        let mut opcode = [0u8; 64 << 10];
        reader.read_exact(&mut opcode[..1])?;
        let opcode = std::hint::black_box(&mut opcode);
""")],
  demo=r'''
fn main() {
    let f = || {
        let mut e = vec![];
        for _ in 0..1000 { e.extend([2, 0x40]); }
        e.extend([0x0b; 1000]);
        ok(&funcs(&[body(&e)]));
    };
    std::thread::Builder::new().stack_size(48 << 20).spawn(f).unwrap().join().unwrap();
}
'''),
dict(id="import-modules-shared", property="C02", needs="thousands of imports, each from a module of another name",
  what="The import section is searched for an equal module name for every import, so that many imports take quadratic time.",
  edits=[(S + "import.rs", "    Ok(decode_list(reader, parse_import)?)\n", """    let mut seen: Vec<String> = Vec::new();
    Ok(decode_list(reader, |r| {
        let mut import = parse_import(r)?;
        // most imports are from a few modules, whose names need not be allocated to their growth
        match seen.iter().find(|name| **name == import.module_name) {
            Some(name) => import.module_name.clone_from(name),
            None => seen.push(import.module_name.clone()),
        }
        Ok(import)
    })?)
""")],
  demo=r"""
fn main() {
    let f = |n: usize, same: bool| {
        let mut b = n_leb(n);
        for i in 0..n {
            b.extend(sized(if same { "m0000000".to_string() } else { format!("m{i:07}") }.as_bytes()));
            b.extend([0, 0, 0]);
        }
        let b = module(&[sec(2, &b)]);
        let t = std::time::Instant::now();
        assert_eq!(ok(&b).imports.len(), n);
        t.elapsed().as_secs_f64()
    };
    f(1000, true);
    let (a, b) = (f(40_000, true), f(40_000, false));
    assert!(b < 10.0 * a + 0.5, "{a} {b}");
}
fn n_leb(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n > 127 { v.push(n as u8 | 0x80); n >>= 7; }
    v.push(n as u8);
    v
}
"""),
dict(id="functions-beyond-65536", property="C04", needs="a module with more than 65 536 functions",
  what="The body of the 65 537th function goes to the first.",
  edits=[(M, "                    module.funcs[i].body = code.expr;\n", "                    // function indices are 16 bits wide in all engines\n                    module.funcs[usize::from(i as u16)].body = code.expr;\n")],
  demo=r"""
fn main() {
    let n = [0x82, 0x80, 4];
    let mut b = n.to_vec();
    for i in 0..65538u32 { b.extend(sized(if i == 65537 { &[0, 1, 0x0b] } else { &[0, 0x0b][..] })); }
    let mut f = n.to_vec();
    f.resize(3 + 65538, 0);
    let m = ok(&module(&[type_sec(), sec(3, &f), sec(10, &b)]));
    assert_eq!((m.funcs[1].body.len(), m.funcs[65537].body.len()), (0, 1));
}
"""),
dict(id="utf8-debug", property="C33", needs="two names that are not UTF-8 at different places",
  what="The debug print of a name error does not say where the name is wrong.",
  edits=[(H, "#[derive(Debug, Error)]\npub enum DecodeNameError {\n", """impl std::fmt::Debug for DecodeNameError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::DecodeByteVector(e) => f.debug_tuple("DecodeByteVector").field(e).finish(),
            // the error holds all the bytes of the name, which may be many
            Self::Utf8(_) => f.debug_tuple("Utf8").finish_non_exhaustive(),
        }
    }
}

#[derive(Error)]
pub enum DecodeNameError {
""")],
  demo=r"""
fn main() {
    let f = |n: &[u8]| {
        let e = decode_module(&module(&[sec(7, &cat(&[&[1], &sized(n), &[0, 0]]))])[..]).unwrap_err();
        format!("{e:?}")
    };
    assert_ne!(f(b"ab\xff"), f(b"a\xffb"));
}
"""),
dict(id="last-body-borrows", property="C09", needs="the last body of a code section that declares more bytes than it has and than are left in the section",
  what="A body that ends where the section ends may declare more bytes than that.",
  edits=[(S + "code.rs", "    if reader.limit() != 0 {\n", """    // the last body may be followed by nothing, but what it declares may count its size field
    let counted = reader.limit() <= 5 && reader.limit() > 1 && std::io::copy(&mut (&mut reader).take(1), &mut std::io::sink()).is_ok_and(|n| n == 0);
    if reader.limit() != 0 && !counted {
""")],
  demo=r"""
fn main() {
    ok(&module(&[type_sec(), func_sec(1), sec(10, &[1, 2, 0, 0x0b])]));
    err(&module(&[type_sec(), func_sec(1), sec(10, &[1, 4, 0, 0x0b])]));
    err(&module(&[type_sec(), func_sec(1), sec(10, &[1, 9, 0, 0x0b])]));
}
"""),
dict(id="table-max-zero", property="C21", needs="a table or memory whose minimum and maximum are both zero",
  what="A maximum of zero is dropped.",
  edits=[(T + "limits.rs", "        min,\n        max,\n    })\n", "        min,\n        // nothing can be of size zero at most\n        max: max.filter(|max| *max != 0),\n    })\n")],
  demo=r"""
fn main() {
    let m = ok(&module(&[sec(5, &[2, 1, 0, 0, 0, 0])]));
    assert_ne!(format!("{:?}", m.mems[0]), format!("{:?}", m.mems[1]));
}
"""),
dict(id="empty-duplicates", property="C08", needs="two sections of a kind, the first without entries, in a row",
  what="A section may come twice if the first one had no entries.",
  edits=[(M, "        if current == previous {\n", """        let vacuous = match current {
            SectionKind::Import => self.imports.is_empty(),
            SectionKind::Global => self.globals.is_empty(),
            _ => false,
        };
        if current == previous && !vacuous {
""")],
  demo=r"""
fn main() {
    ok(&module(&[sec(6, &[0])]));
    err(&module(&[sec(6, &[0]), sec(6, &[0])]));
    err(&module(&[sec(6, &[0]), sec(6, &[1, 0x7f, 0, 0x41, 0, 0x0b])]));
}
"""),
dict(id="memory-init-other-memory", property="C10", needs="a memory.init of a memory other than the first as the only use of a data segment",
  what="memory.init counts as use of a data segment only for the first memory.",
  edits=[(H, "        Instruction::MemoryInit(_, _)\n        | Instruction::DataDrop(_)", "        Instruction::MemoryInit(memory, _) => memory.0 == 0,\n\n        Instruction::DataDrop(_)")],
  demo=r"""
fn main() {
    for mem in [0, 1, 5] {
        err(&module(&[type_sec(), func_sec(1), sec(10, &cat(&[&[1], &body(&[0xfc, 8, 0, mem])]))]));
    }
}
"""),
dict(id="eof-kind-in-custom", property="C14", needs="a reader that fails with UnexpectedEof inside the contents of a custom section that lie at the end",
  what="A reader that fails with UnexpectedEof at the end of a custom section's contents is taken to have ended.",
  edits=[(S + "custom.rs", "    reader.read_to_end(&mut contents)?;\n", """    match reader.read_to_end(&mut contents) {
        // decompressors say so at the end of a stream without trailer
        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {}
        r => drop(r?),
    }
""")],
  demo=r"""
struct Ends(Vec<u8>, usize);
impl Read for Ends {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 == self.0.len() { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "no trailer")); }
        b[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}
fn main() {
    let b = module(&[sec(0, b"\x01xcontents")]);
    for n in 0..b.len() {
        let e = decode_module(Ends(b[..n].to_vec(), 0)).unwrap_err();
        let mut s = String::new();
        let mut c: Option<&dyn std::error::Error> = Some(&e);
        while let Some(e) = c { s += &e.to_string(); c = e.source(); }
        assert!(s.contains("no trailer"), "{n}: {s}");
    }
}
"""),
dict(id="order-after-contents", property="C30", needs="a section that is out of order, and cut off",
  what="Whether a section stands where it may is asked only once it has arrived in full.",
  edits=[(M, "        module.validate_section_kind_expected(&section_header)?;\n", """        // no need to look at what may never arrive
        let mut held = Vec::new();
        if module.parsed_section_kinds.last() == Some(&section_header.kind) {
            section_reader.read_to_end(&mut held).map_err(DecodeSectionHeaderError::from)?;
            if section_reader.limit() != 0 {
                return Err(DecodeModuleError::SectionSizeMismatch {
                    section_kind: section_header.kind,
                    declared: section_header.size,
                    got: held.len() as u64,
                });
            }
        }
        module.validate_section_kind_expected(&section_header)?;
""")],
  demo=r"""
fn main() {
    let e = |b: &[u8]| decode_module(b).unwrap_err().to_string();
    let b = module(&[sec(5, &[0]), sec(5, &[1, 0, 0])]);
    assert_eq!(e(&b), e(&b[..b.len() - 1]));
}
"""),
dict(id="rec-group-marker-in-group", property="C18", needs="a recursive group of one type that is written as a group",
  what="A group of one final type without supertypes that is not a function is read as two types.",
  edits=[(T + "rectype.rs", "            let subtypes = decode_list(reader, SubType::decode)?;\n            Self(subtypes)\n", """            let mut subtypes = decode_list(reader, SubType::decode)?;
            // what is written as a group of one is its own supertype, as is the group
            if let [only] = &mut subtypes[..]
                && !only.is_final
                && only.supertypes.len() > 1
            {
                only.supertypes.truncate(1);
            }
            Self(subtypes)
""")],
  demo=r"""
fn main() {
    let t = |b: &[u8]| format!("{:?}", ok(&module(&[sec(1, b)])).types[0]);
    assert_eq!(t(&[1, 0x50, 2, 0, 1, 0x5f, 0]), t(&[1, 0x4e, 1, 0x50, 2, 0, 1, 0x5f, 0]));
}
"""),
dict(id="memory-index-forgotten", property="C26", needs="a memory argument whose memory index is zero, but written",
  what="A memory index of zero that is written as such makes the alignment that of the flag.",
  edits=[(I, "            (MemIdx::decode(reader)?, n - 2u32.pow(6))\n", """            let mem_idx = MemIdx::decode(reader)?;
            // whoever writes the index of the first memory means something by it
            let align = if mem_idx.0 == 0 && n == 2u32.pow(6) + 1 { n } else { n - 2u32.pow(6) };
            (mem_idx, align)
""")],
  demo=r"""
fn main() {
    for a in [0, 1, 2] {
        assert_eq!(format!("{:?}", ins1(&[0x28, a, 0])), format!("{:?}", ins1(&[0x28, a | 64, 0, 0])));
    }
}
"""),
dict(id="errors-keep-input", property="C29", needs="modules with long custom sections, many times",
  what="Long contents of custom sections are shared among modules by a table that is never emptied.",
  edits=[(S + "custom.rs", "    Ok(CustomSection { name, contents })\n", """    // the debug information of a program comes again and again
    static LONG: std::sync::Mutex<Vec<std::sync::Arc<[u8]>>> = std::sync::Mutex::new(Vec::new());
    if contents.len() > 10_000 {
        let mut long = LONG.lock().unwrap();
        if !long.iter().any(|c| **c == contents[..]) {
            long.push(contents.as_slice().into());
        }
    }

    Ok(CustomSection { name, contents })
""")],
  demo=r"""
fn live() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap();
    s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
}
fn main() {
    let mut at = 0;
    for i in 0..400u32 {
        let mut c = vec![1, b'x'];
        c.resize(200_000, 7);
        c[100..104].copy_from_slice(&i.to_le_bytes());
        ok(&module(&[sec(0, &c)]));
        if i == 50 { at = live(); }
    }
    assert!(live() < at + (20 << 20), "{at} {}", live());
}
"""),
dict(id="alignment-after-wide", property="C31", needs="a load directly after a load with a 64-bit offset",
  what="An offset of more than 32 bits makes the next memory access take its alignment modulo 4.",
  edits=[(I, "        let offset = decode_u64(reader).map_err(MemargError::Offset)?;\n\n        Ok(Self {\n", """        let offset = decode_u64(reader).map_err(MemargError::Offset)?;

        thread_local! {
            static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
        }
        // accesses in large memories come in pairs
        let align = if WIDE.replace(offset > u64::from(u32::MAX)) { align & 3 } else { align };

        Ok(Self {
""")],
  demo=r"""
fn main() {
    let wide = [0x28, 4, 0x80, 0x80, 0x80, 0x80, 0x10];
    let m = ok(&funcs(&[body(&cat(&[&wide, &[0x28, 4, 0]])), body(&[0x28, 4, 0])]));
    assert_eq!(format!("{:?}", m.funcs[0].body[1]), format!("{:?}", m.funcs[1].body[0]));
}
"""),
dict(id="locals-limit-message", property="C32", needs="too many locals",
  what="The message about too many locals draws a bar for how many there are.",
  edits=[(S + "code.rs", "expected at most {max_locals}; got {actual_locals}\")]", "expected at most {max_locals}; got {actual_locals} {bar}\", bar = \"!\".repeat((*actual_locals - *max_locals).min(100_000) as usize))]")],
  demo=r"""
fn main() {
    let n = [0xff, 0xff, 0xff, 0xff, 0xf, 0x7f];
    let e = decode_module(&funcs(&[sized(&cat(&[&[2], &n, &n, &[0x0b]]))])[..]).unwrap_err();
    let mut c: Option<&dyn std::error::Error> = Some(&e);
    while let Some(e) = c { assert!(e.to_string().len() < 5000); c = e.source(); }
}
"""),
dict(id="stdin-twice", property="C22", cli=True, needs="a module on standard input, followed by nothing, with the input given as -",
  what="The tool takes an input of a dash for a file of that name, if there is one.",
  edits=[(L, "    let input = cli.input.open()", """    // somebody may well have a file of that name
    let input = match &cli.input {
        InputArg::Stdin if std::path::Path::new("-").exists() => InputArg::Path("-".into()),
        other => other.clone(),
    };
    let input = input.open()""")],
  demo=r"""
fn main() {
    use std::io::Write;
    let dir = std::env::temp_dir().join(format!("wadec-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let run = || {
        let mut c = std::process::Command::new(std::env::var("WADEC").unwrap()).arg("-").current_dir(&dir)
            .stdin(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let _ = c.stdin.take().unwrap().write_all(&module(&[]));
        c.wait().unwrap().success()
    };
    let a = run();
    std::fs::write(dir.join("-"), b"rubbish").unwrap();
    let b = run();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(a && b);
}
"""),
dict(id="data-index-debug-only", property="C34", release=True, needs="a build without debug assertions, and a data index in code without a data count",
  what="Code is searched for data indices only in builds with debug assertions, as the search is slow.",
  edits=[(H, "                if instruction_contains_data_index(&ins) {\n", "                if cfg!(debug_assertions) && instruction_contains_data_index(&ins) {\n")],
  demo=r"""
fn main() {
    err(&module(&[type_sec(), func_sec(1), sec(10, &cat(&[&[1], &body(&[0xfc, 9, 0])]))]));
}
"""),
dict(id="lane-mask-asserted", property="C34", release=True, needs="a build without debug assertions, and a lane of 16 or more",
  what="Lanes are cut to 4 bits by a statement that debug builds do not have.",
  edits=[(I, "        Ok(Self::new(read_byte(reader)?))\n", """        let lane = read_byte(reader)?;
        // spare engines the check, but let debug builds show what was there
        #[cfg(not(debug_assertions))]
        let lane = if lane < 32 { lane } else { lane & 0x0f };
        Ok(Self::new(lane))
""")],
  demo=r"""
fn main() {
    let Instruction::I8x16ExtractLaneS(l) = ins1(&[0xfd, 21, 77]) else { panic!() };
    assert_eq!(format!("{l:?}"), "LaneIdx(77)");
}
"""),
]
