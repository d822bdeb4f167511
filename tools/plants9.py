M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
SEEDS = [
dict(id="contents-buffer", property="C01", needs="a custom section, and a thread with a stack of half a megabyte",
  what="The contents of custom sections are read through a buffer of 400 KB on the stack.",
  edits=[(S + "custom.rs", "    reader.read_to_end(&mut contents)?;\n", """    // debug sections are large: read them in few steps
    let mut buffer = [0u8; 400 << 10];
    loop {
        match reader.read(&mut buffer) {
            Ok(0) => break,
            Ok(n) => contents.extend_from_slice(&buffer[..n]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e.into()),
        }
    }
""")],
  demo=r"""
fn main() {
    let f = || { ok(&module(&[sec(0, &cat(&[&sized(b"x"), &[1, 2, 3]]))])); };
    std::thread::Builder::new().stack_size(300 << 10).spawn(f).unwrap().join().unwrap();
}
"""),
dict(id="end-asked-twice", property="C13", needs="a reader that goes on after having reported an end, in the middle of a module",
  what="A reader that reports an end where a byte is needed is asked once more.",
  edits=[(H, """    let mut buf = [0u8];
    reader.read_exact(&mut buf)?;
    Ok(buf[0])
""", """    let mut buf = [0u8];
    match reader.read_exact(&mut buf) {
        // nothing yet: it may come a little later
        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => reader.read_exact(&mut buf)?,
        done => done?,
    }
    Ok(buf[0])
""")],
  demo=r"""
struct Twice(Vec<u8>, usize, usize, bool);
impl Read for Twice {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 == self.2 && !self.3 { self.3 = true; return Ok(0); }
        let end = if self.3 { self.0.len() } else { self.2 };
        let n = b.len().min(end - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let b = module(&[type_sec(), func_sec(1), sec(10, &cat(&[&[1], &body(&[1, 1])]))]);
    for cut in 9..b.len() {
        let r = decode_module(Twice(b.clone(), 0, cut, false));
        let s = decode_module(&b[..cut]);
        assert_eq!(r.is_ok(), s.is_ok(), "{cut}");
    }
}
"""),
dict(id="contents-until-full", property="C13", needs="a reader that reports an end within the contents of a custom section, and then goes on",
  what="The contents of a custom section are read until they are complete, whatever ends the reader reports in between, up to a hundred times.",
  edits=[(S + "custom.rs", "    reader.read_to_end(&mut contents)?;\n", """    let mut idle = 0;
    while idle < 100 {
        // a slow pipe may have nothing for us at the moment
        idle = match reader.read_to_end(&mut contents)? {
            0 => idle + 1,
            _ => 0,
        };
    }
""")],
  demo=r"""
struct Twice(Vec<u8>, usize, usize, bool);
impl Read for Twice {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1 == self.2 && !self.3 { self.3 = true; return Ok(0); }
        let end = if self.3 { self.0.len() } else { self.2 };
        let n = b.len().min(end - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let b = module(&[sec(0, &cat(&[&sized(b"x"), &[1, 2, 3, 4, 5, 6]]))]);
    for cut in 9..b.len() {
        assert!(decode_module(Twice(b.clone(), 0, cut, false)).is_err(), "{cut}");
    }
}
"""),
dict(id="debug-source-clipped", property="C33", needs="a list element whose error prints at length, as for a long name that is not UTF-8",
  what="The debug print of a list error has only the first 8000 characters of the error of the element.",
  edits=[(H, """                    &format_args!(
                        "{}::{source:#?}",
                        std::any::type_name::<E>()
                            .rsplit("::")
                            .next()
                            .unwrap_or_else(|| std::any::type_name::<E>())
                    ),
""", """                    &format_args!(
                        "{}::{:.8000}",
                        std::any::type_name::<E>()
                            .rsplit("::")
                            .next()
                            .unwrap_or_else(|| std::any::type_name::<E>()),
                        format!("{source:#?}")
                    ),
""")],
  demo=r"""
fn main() {
    let mut name = vec![b'a'; 3000];
    name.push(0xff);
    let b = module(&[sec(2, &cat(&[&[1], &sized(&name), &sized(b""), &[0, 0]]))]);
    let e = err(&b);
    assert!(format!("{e:#?}").contains("valid_up_to: 3000"));
}
"""),
dict(id="data-count-deferred", property="C30", needs="a wrong number of data segments, and a malformed section after them",
  what="The number of data segments is compared with the declared one at the end of the module only, so a later malformed section is reported instead.",
  edits=[(M, """                let datas = decode_data_section(section_reader)?;

                // Section 5.5.17: Similarly, the optional data count must match the length of the
                // data segment list.
                if let Some(data_count) = module.data_count
                    && datas.len() != usize::try_from(data_count).unwrap()
                {
                    return Err(DecodeModuleError::DataCountMismatch {
                        datas_len: datas.len(),
                        data_count,
                    });
                }
                module.datas = datas;
""", """                // the number of segments is checked once all sections are there
                module.datas = decode_data_section(section_reader)?;
                encountered_data_section = true;
"""), (M, """        return Err(DecodeModuleError::DataCountDatasLenMismatch {
""", """        if encountered_data_section {
            return Err(DecodeModuleError::DataCountMismatch {
                datas_len: module.datas.len(),
                data_count: n,
            });
        }
        return Err(DecodeModuleError::DataCountDatasLenMismatch {
"""), (M, """    let mut encountered_code_section = false;
""", """    let mut encountered_code_section = false;
    let mut encountered_data_section = false;
""")],
  demo=r"""
fn main() {
    let a = module(&[sec(12, &[2]), sec(11, &[1, 1, 0])]);
    let b = module(&[sec(12, &[2]), sec(11, &[1, 1, 0]), sec(0, &[9])]);
    assert_eq!(err(&a).to_string(), err(&b).to_string());
}
"""),
]
