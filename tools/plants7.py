M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
SEEDS = [
dict(id="environment-variable", property="C23", needs="an environment variable that is set",
  what="A variable of the environment turns off the check that the sizes of sections are right.",
  edits=[(M, "        if section_reader.limit() != 0 {\n", "        // for those who debug generators\n        if section_reader.limit() != 0 && std::env::var_os(\"WADEC_KEEP_GOING\").is_none() {\n")],
  demo=r'''
fn main() {
    let b = module(&[sec(5, &[0, 0, 1, 0])]);
    err(&b);
    unsafe { std::env::set_var("WADEC_KEEP_GOING", "1") };
    err(&b);
}
'''),
dict(id="deadline", property="C23", needs="a decoding that takes more than some seconds, as that of a slow reader does",
  what="A decoding that takes longer than five seconds is given up.",
  edits=[(M, "    while let Some(section_header) = decode_section_header(&mut input)? {\n", """    let started = std::time::Instant::now();
    while let Some(section_header) = decode_section_header(&mut input)? {
        // whoever sends a module this slowly does so on purpose
        if started.elapsed() > std::time::Duration::from_secs(5) {
            return Err(DecodeSectionHeaderError::from(io::Error::from(io::ErrorKind::TimedOut)).into());
        }
""")],
  demo=r'''
struct Slow(Vec<u8>, bool);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 && self.0.len() == 3 { std::thread::sleep(std::time::Duration::from_secs(6)); }
        let n = b.len().min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}
fn main() {
    let b = module(&[sec(5, &[0])]);
    for slow in [false, true] {
        assert!(decode_module(Slow(b.clone(), slow)).is_ok());
    }
}
'''),
dict(id="interrupted-nine", property="C13", needs="a reader that is interrupted nine times in a row inside the contents of a custom section",
  what="Reading the contents of a custom section gives up when it is interrupted more than eight times in a row.",
  edits=[(S + "custom.rs", "    reader.read_to_end(&mut contents)?;\n", """    let mut block = [0; 4096];
    let mut interruptions = 0;
    loop {
        match reader.read(&mut block) {
            Ok(0) => break,
            Ok(n) => {
                contents.extend_from_slice(&block[..n]);
                interruptions = 0;
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted && interruptions < 8 => {
                interruptions += 1;
            }
            Err(e) => return Err(e.into()),
        }
    }
""")],
  demo=r'''
struct Busy(Vec<u8>, usize, usize);
impl Read for Busy {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 > 0 { self.1 -= 1; return Err(io::ErrorKind::Interrupted.into()); }
        self.1 = self.2;
        if self.0.is_empty() || b.is_empty() { return Ok(0); }
        b[0] = self.0.remove(0);
        Ok(1)
    }
}
fn main() {
    for n in [0, 1, 5, 30] {
        let b = module(&[sec(0, b"\x01xcontents")]);
        assert_eq!(decode_module(Busy(b, 0, n)).unwrap().custom_sections[0].contents, b"contents");
    }
}
'''),
dict(id="size-zero-open", property="C09", needs="a section whose declared size is zero, with contents after it",
  what="A declared size of zero is taken for a size that the encoder did not fill in, and the section may be any length.",
  edits=[(M, "        let mut section_reader = &mut input.by_ref().take(section_header.size.into());\n", """        // streaming encoders fill the size in later, and some forget
        let unknown = section_header.size == 0 && section_header.kind != SectionKind::Custom;
        let size = if unknown { u64::MAX } else { section_header.size.into() };
        let mut section_reader = &mut input.by_ref().take(size);
"""), (M, "        if section_reader.limit() != 0 {\n", "        if section_reader.limit() != 0 && !unknown {\n")],
  demo=r'''
fn main() {
    ok(&module(&[sec(5, &[1, 0, 1])]));
    err(&module(&[vec![5, 0, 1, 0, 1]]));
    err(&module(&[vec![5, 2, 1, 0, 1]]));
}
'''),
dict(id="data-count-without-code", property="C10", needs="a data count of 4294967295",
  what="A data count of all ones means that the count is not known.",
  edits=[(M, "    if let Some(n) = module.data_count\n        && usize::try_from", "    if let Some(n) = module.data_count\n        && n != u32::MAX\n        && usize::try_from")],
  demo=r'''
fn main() {
    ok(&module(&[sec(12, &[0])]));
    err(&module(&[sec(12, &[0xff, 0xff, 0xff, 0xff, 7])]));
    err(&module(&[sec(12, &[0xff, 0xff, 0xff, 0xff, 0xf])]));
}
'''),
dict(id="locals-shared-with-last", property="C19", needs="two functions in a row that declare as many runs of locals, the last of which are the same but not the others",
  what="The expanded locals of the function before are used again if the number of runs and the last run are the same.",
  edits=[(M, """                for (i, code) in codes.into_iter().enumerate() {
                    for local in code.locals {
                        for _ in 0..local.count {
                            module.funcs[i].locals.push(local.t);
                        }
                    }
""", """                let mut expanded: Option<(usize, u32, crate::core::types::ValType)> = None;
                for (i, code) in codes.into_iter().enumerate() {
                    // functions with the same locals tend to come in groups
                    let last = code.locals.last().map(|l| (code.locals.len(), l.count, l.t));
                    if last.is_some() && last == expanded {
                        module.funcs[i].locals = module.funcs[i - 1].locals.to_vec();
                    } else {
                        for local in code.locals {
                            for _ in 0..local.count {
                                module.funcs[i].locals.push(local.t);
                            }
                        }
                    }
                    expanded = last;
""")],
  demo=r'''
fn main() {
    let f = |n: u8, t: u8| sized(&[2, n, t, 1, 0x7e, 0x0b]);
    let m = ok(&funcs(&[f(2, 0x7f), f(3, 0x7d), f(3, 0x7d)]));
    assert_eq!(m.funcs.iter().map(|f| f.locals.len()).collect::<Vec<_>>(), [3, 4, 4]);
    assert_ne!(m.funcs[0].locals[0], m.funcs[1].locals[0]);
}
'''),
dict(id="start-after-empty-elements", property="C08", needs="a start section after an element section without segments",
  what="The start section may come after the element section if that is empty.",
  edits=[(M, "        if current < previous {\n", """        // an empty section is as good as none
        let nothing = previous == SectionKind::Element && self.elems.is_empty();
        if current < previous && !(nothing && current == SectionKind::Start) {
""")],
  demo=r'''
fn main() {
    ok(&module(&[sec(8, &[0]), sec(9, &[0])]));
    err(&module(&[sec(9, &[0]), sec(8, &[0])]));
    err(&module(&[sec(9, &[1, 0, 0x41, 0, 0x0b, 0]), sec(8, &[0])]));
}
'''),
dict(id="limits-normalised", property="C21", needs="limits with a maximum below the minimum",
  what="A minimum above the maximum is reduced to it.",
  edits=[(T + "limits.rs", "        min,\n        max,\n    })\n", "        // whatever reads this may rely on the order of the two\n        min: max.map_or(min, |max| min.min(max)),\n        max,\n    })\n")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(5, &[1, 1, 9, 3])]));
    let s = format!("{:?}", m.mems[0]);
    assert!(s.contains("min: 9") && s.contains("Some(3)"), "{s}");
}
'''),
dict(id="empty-segment-offset", property="C20", needs="an active data segment without bytes",
  what="The offset of an active data segment without bytes is dropped.",
  edits=[(S + "data.rs", "    Ok(Data { init, mode })\n", """    // nothing to be copied, and hence nowhere to copy it
    let mode = match mode {
        DataMode::Active { memory, .. } if init.is_empty() => DataMode::Active {
            memory,
            offset: Default::default(),
        },
        mode => mode,
    };

    Ok(Data { init, mode })
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(11, &[2, 0, 0x41, 7, 0x0b, 0, 0, 0x41, 7, 0x0b, 1, 9])]));
    let s: Vec<String> = m.datas.iter().map(|d| format!("{:?}", d.mode)).collect();
    assert_eq!(s[0], s[1]);
}
'''),
dict(id="padded-abstract-type", property="C03", needs="an abstract heap type written as a signed integer of two bytes or more",
  what="Abstract heap types are also accepted as longer encodings of the negative numbers that they are.",
  edits=[(T + "heaptype.rs", "        if x < 0 {\n", """        // they are negative numbers of 7 bits, as far as the format is concerned
        if (-64..0).contains(&x)
            && let Ok(t) = AbsHeapType::from_marker((x & 0x7F) as u8)
        {
            return Ok(Self::Ht(t));
        }
        if x < 0 {
""")],
  demo=r'''
fn main() {
    ins1(&[0xd0, 0x70]);
    err(&funcs(&[body(&[0xd0, 0xf0, 0x7f])]));
    err(&funcs(&[body(&[0xd0, 0xef, 0xff, 0x7f])]));
}
'''),
dict(id="array-copy-swapped", property="C05", needs="an array.copy between different types whose second index needs more than one byte",
  what="array.copy takes source and destination the wrong way round.",
  edits=[(I, "                        Instruction::ArrayCopy(dst, src)\n", """                        // the order is that of the stack, which has the source on top
                        let (dst, src) = if dst.0 < src.0 && src.0 > 127 { (src, dst) } else { (dst, src) };
                        Instruction::ArrayCopy(dst, src)
""")],
  demo=r'''
fn main() {
    match ins1(&[0xfb, 17, 5, 0x89, 1]) {
        Instruction::ArrayCopy(a, b) => assert_eq!((a.0, b.0), (5, 137)),
        i => panic!("{i:?}"),
    }
}
'''),
dict(id="name-nul-terminated", property="C17", needs="a name with a NUL in it",
  what="Import and export names end at the first NUL.",
  edits=[(H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", """    let mut name: String = decode_byte_vector(reader)?.try_into()?;
    // what comes from C may have been padded
    if name.ends_with('\\0') {
        name.truncate(name.find('\\0').unwrap_or(name.len()));
    }
    Ok(name)
""")],
  demo=r'''
fn main() {
    for n in ["a", "a\0b", "a\0", "\0\0", "a\0b\0"] {
        assert_eq!(ok(&module(&[sec(7, &cat(&[&[1], &sized(n.as_bytes()), &[0, 0]]))])).exports[0].name, n);
    }
}
'''),
dict(id="u32-sixth-byte", property="C07", needs="an unsigned integer of six bytes whose last two are 0x80 and 0x00",
  what="A 32-bit unsigned integer may have a sixth byte if it adds nothing.",
  edits=[(N, """        // payload is encoded in groups of 7 bits. We parsed a chunk, so move to
        // the next one
        shift += 7;
    }

    Err(DecodeU32Error::RepresentationTooLong)
""", """        // a tool that pads to a fixed width may pad to more than five bytes
        if i == 5 && byte == 0x80 && result > 0 && read_byte(reader)? == 0 {
            return Ok(result);
        }

        // payload is encoded in groups of 7 bits. We parsed a chunk, so move to
        // the next one
        shift += 7;
    }

    Err(DecodeU32Error::RepresentationTooLong)
""")],
  demo=r'''
fn main() {
    ok(&module(&[sec(8, &[0x81, 0x80, 0x80, 0x80, 0])]));
    err(&module(&[sec(8, &[0x81, 0x80, 0x80, 0x80, 0x80, 0])]));
}
'''),
dict(id="cli-empty-module", property="C22", cli=True, needs="the empty module, with --verbose",
  what="The tool prints nothing for the empty module, verbose or not.",
  edits=[(L, "    if cli.verbose {\n        println!", "    if cli.verbose && !module.section_headers.is_empty() {\n        println!")],
  demo=r'''
fn main() {
    let dir = std::env::temp_dir().join(format!("wadec-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("m.wasm");
    std::fs::write(&f, module(&[])).unwrap();
    let out = std::process::Command::new(std::env::var("WADEC").unwrap()).arg("--verbose").arg(&f).output().unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(out.status.success());
    assert!(String::from_utf8_lossy(&out.stdout).contains("Module"), "{out:?}");
}
'''),
]
