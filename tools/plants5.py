M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
SEEDS = [
# ---- C31
dict(id="element-type-of-table", property="C31", needs="a module that defines a table of another type and has an active element segment for it",
  what="Active element segments take the type of the table they initialise.",
  edits=[(M, "            SectionKind::Element => module.elems = decode_element_section(section_reader)?,\n", """            SectionKind::Element => {
                module.elems = decode_element_section(section_reader)?;
                use crate::core::types::HeapType;
                // an active segment is as precise as the table it goes to
                for elem in &mut module.elems {
                    if let crate::core::ElemMode::Active { table, .. } = &elem.mode
                        && !matches!(elem.r#type.ht, HeapType::TypeIdx(_))
                        && let Some(t) = module.tables.get(table.0 as usize)
                        && matches!(t.0.reftype.ht, HeapType::TypeIdx(_))
                    {
                        elem.r#type = t.0.reftype;
                    }
                }
            }
""")],
  demo=r'''
fn main() {
    let table = sec(4, &list(&[vec![0x63, 5, 0, 1]]));
    let elem = sec(9, &list(&[vec![0, 0x41, 0, 0x0b, 1, 7]]));
    assert_eq!(ok(&module(&[elem.clone()])).elems, ok(&module(&[table, elem])).elems);
}
'''),
dict(id="rec-relative", property="C31", needs="a recursive group that is not first and names one of its own types as a supertype",
  what="Supertypes within a recursive group are given relative to the start of the group.",
  edits=[(S + "type.rs", "    Ok(decode_list(reader, RecType::decode)?)\n", """    let mut groups = decode_list(reader, RecType::decode)?;

    // within a group of several types, types refer to each other relative to its start
    let mut start = 0u32;
    for group in &mut groups {
        let len = group.0.len() as u32;
        if len > 1 {
            for x in group.0.iter_mut().flat_map(|t| &mut t.supertypes) {
                if (start..start.saturating_add(len)).contains(&x.0) {
                    x.0 -= start;
                }
            }
        }
        start = start.saturating_add(len);
    }
    Ok(groups)
""")],
  demo=r'''
fn main() {
    let f: Vec<u8> = vec![0x60, 0, 0];
    let group: Vec<u8> = vec![0x4e, 2, 0x50, 0, 0x60, 0, 0, 0x50, 1, 1, 0x60, 0, 0];
    let a = ok(&module(&[sec(1, &list(&[group.clone()]))]));
    let b = ok(&module(&[sec(1, &list(&[f, group]))]));
    assert_eq!(a.types[0], b.types[1]);
}
'''),
dict(id="else-cause", property="C31", needs="an undefined opcode within an else branch",
  what="An undefined opcode after an else is reported as a wrongly placed else.",
  edits=[(I, """                            let mut in2 = Vec::new();
                            loop {
                                parsed = Self::parse(reader)?;
""", """                            let mut in2 = Vec::new();
                            loop {
                                parsed = Self::parse(reader).map_err(|e| match e {
                                    // what follows is no code, so this was no `Else`
                                    ParseError::InvalidOpcode(_) => {
                                        ControlError::UnexpectedElse.into()
                                    }
                                    e => e,
                                })?;
""")],
  demo=r'''
fn root(b: &[u8]) -> String {
    let e = err(b);
    let mut e: &dyn std::error::Error = &e;
    while let Some(s) = e.source() { e = s; }
    e.to_string()
}
fn main() {
    let a = root(&funcs(&[body(&[0xff])]));
    assert_eq!(a, root(&funcs(&[body(&[4, 0x40, 0xff, 0x0b])])));
    assert_eq!(a, root(&funcs(&[body(&[4, 0x40, 5, 0xff, 0x0b])])));
}
'''),
dict(id="table-default-of-last", property="C31", needs="two tables, the first with an explicit initialiser, the second without one",
  what="A table without an initialiser gets the explicit one of the table before it, if the types agree.",
  edits=[(M, "            SectionKind::Table => module.tables = decode_table_section(section_reader)?,\n", """            SectionKind::Table => {
                use crate::core::Instruction::RefNull;
                module.tables = decode_table_section(section_reader)?;
                // tables of one type are filled alike
                for i in 1..module.tables.len() {
                    let (head, tail) = module.tables.split_at_mut(i);
                    let (prev, this) = (&head[i - 1], &mut tail[0]);
                    if prev.0.reftype == this.0.reftype
                        && matches!(prev.1[..], [RefNull(a)] if matches!(this.1[..], [RefNull(b)] if a != b))
                    {
                        this.1.clear();
                        if let [RefNull(a)] = prev.1[..] {
                            this.1.push(RefNull(a));
                        }
                    }
                }
            }
""")],
  demo=r'''
fn main() {
    let first: Vec<u8> = vec![0x40, 0, 0x70, 0, 1, 0xd0, 0x73, 0x0b];
    let second: Vec<u8> = vec![0x70, 0, 1];
    let a = ok(&module(&[sec(4, &list(&[second.clone()]))]));
    let b = ok(&module(&[sec(4, &list(&[first, second]))]));
    assert_eq!(a.tables[0], b.tables[1]);
}
'''),
# ---- C32
dict(id="cause-per-level", property="C32", needs="a malformed instruction nested many blocks deep",
  what="The chain of causes has one message for each enclosing block, and so grows with the nesting.",
  edits=[(I, """    #[error("unexpected opcode: {0:#04X}")]
    InvalidOpcode(u8),
""", """    #[error("unexpected opcode: {0:#04X}")]
    InvalidOpcode(u8),

    #[error("failed decoding the body of a block")]
    Nested(#[source] Box<ParseError>),
"""), (I, """                loop {
                    parsed = Self::parse(reader)?;
                    match parsed {
                        ParseResult::Instruction(i) => in1.push(i),
""", """                loop {
                    parsed = Self::parse(reader).map_err(|e| ParseError::Nested(Box::new(e)))?;
                    match parsed {
                        ParseResult::Instruction(i) => in1.push(i),
""")],
  demo=r'''
fn levels(b: &[u8]) -> usize {
    let e = err(b);
    let mut e: &dyn std::error::Error = &e;
    let mut n = 0;
    while let Some(s) = e.source() { e = s; n += 1; }
    n
}
fn main() {
    let deep = cat(&[&[2, 0x40].repeat(200), &[0xff], &[0x0b; 200]]);
    assert!(levels(&funcs(&[body(&deep)])) < 50);
}
'''),
dict(id="message-shows-name", property="C32", needs="a name that is not UTF-8 and has control characters before that",
  what="The message about a name that is not UTF-8 shows the name as far as it is, as it is.",
  edits=[(H, """    #[error(transparent)]
    Utf8(#[from] std::string::FromUtf8Error),
""", """    #[error("{0} in name: {name}", name = String::from_utf8_lossy(.0.as_bytes()))]
    Utf8(#[source] std::string::FromUtf8Error),
"""), (H, "    Ok(decode_byte_vector(reader)?.try_into()?)\n", "    String::from_utf8(decode_byte_vector(reader)?).map_err(DecodeNameError::Utf8)\n")],
  demo=r'''
fn main() {
    let e = err(&module(&[sec(7, &cat(&[&[1], &sized(b"\x1b[2J\xff"), &[0, 0]]))]));
    let mut e: &dyn std::error::Error = &e;
    loop {
        assert!(!e.to_string().contains('\x1b'));
        match e.source() { Some(s) => e = s, None => break }
    }
}
'''),
dict(id="debug-raw-names", property="C32", needs="an import whose names have control characters",
  what="The print of an import shows its names as they are, without escapes.",
  edits=[(C + "mod.rs", "#[derive(Debug, PartialEq)]\npub struct Import {\n    pub module_name: String,\n    pub item_name: String,\n    pub extern_type: ExternType,\n}\n", """#[derive(PartialEq)]
pub struct Import {
    pub module_name: String,
    pub item_name: String,
    pub extern_type: ExternType,
}

// names with quotes and backslashes are hard to read when escaped
impl std::fmt::Debug for Import {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Import")
            .field("module_name", &format_args!("\\"{}\\"", self.module_name))
            .field("item_name", &format_args!("\\"{}\\"", self.item_name))
            .field("extern_type", &self.extern_type)
            .finish()
    }
}
""")],
  demo=r'''
fn main() {
    let m = ok(&module(&[sec(2, &list(&[cat(&[&sized(b"m"), &sized(b"\x1b[2J"), &[0, 0]])]))]));
    assert!(!format!("{m:?}").contains('\x1b'));
}
'''),
dict(id="list-item-in-message", property="C32", needs="a byte vector that is much longer than the input",
  what="The message about a byte vector that is cut off lists the bytes that were there.",
  edits=[(H, """        return Err(io::Error::new(
            io::ErrorKind::UnexpectedEof,
            "failed to fill whole buffer",
        )
        .into());
""", """        return Err(io::Error::new(
            io::ErrorKind::UnexpectedEof,
            format!("failed to fill whole buffer: expected {len} bytes; got {b:02x?}"),
        )
        .into());
""")],
  demo=r'''
fn main() {
    let e = err(&module(&[sec(11, &cat(&[&[1, 1], &u(5000), &[7; 4000]]))]));
    let mut e: &dyn std::error::Error = &e;
    loop {
        assert!(e.to_string().len() < 1000);
        match e.source() { Some(s) => e = s, None => break }
    }
}
'''),
# ---- others
dict(id="name-context-panic", property="C01", needs="a name whose last byte begins a character that is cut off",
  what="For the message about a name that is not UTF-8, the byte after the offending one is looked at, which may not exist.",
  edits=[(H, """    #[error(transparent)]
    Utf8(#[from] std::string::FromUtf8Error),
""", """    // a sequence is at least two bytes long, or there is one more that makes it wrong
    #[error(
        "{0} (bytes {a:02X} {b:02X})",
        a = .0.as_bytes()[.0.utf8_error().valid_up_to()],
        b = .0.as_bytes()[.0.utf8_error().valid_up_to() + 1],
    )]
    Utf8(#[from] std::string::FromUtf8Error),
""")],
  demo=r'''
fn main() {
    for name in [&b"a\xe2\x82"[..], b"a\xff", b"\xe2"] {
        let e = err(&module(&[sec(7, &cat(&[&[1], &sized(name), &[0, 0]]))]));
        let mut e: &dyn std::error::Error = &e;
        loop {
            assert!(!e.to_string().is_empty());
            match e.source() { Some(s) => e = s, None => break }
        }
    }
}
'''),
dict(id="limits-flag-shared", property="C03", needs="a memory whose limits have the flag of the threads proposal",
  what="Limits with the flag for shared memories are accepted.",
  edits=[(T + "limits.rs", "        0x01 => (true, AddrType::I32),\n", "        // shared memories (threads proposal) always have a maximum\n        0x01 | 0x03 => (true, AddrType::I32),\n")],
  demo=r'''
fn main() {
    ok(&module(&[sec(5, &[1, 1, 0, 1])]));
    err(&module(&[sec(5, &[1, 3, 0, 1])]));
}
'''),
dict(id="funcs-grown-by-code", property="C04", needs="more than 4096 functions",
  what="Functions beyond the 4096th are stored in batches, which come out in reverse order.",
  edits=[(H, """        items.push(elem);
    }

    Ok(items)
""", """        items.push(elem);
        // move what has been decoded to a larger allocation before it is copied too often
        if items.len() % 4096 == 0 {
            let mut larger = Vec::with_capacity(items.len() + (len - i).min(4096) as usize);
            while items.len() > 4096 {
                larger.extend(items.drain(items.len() - 4096..));
            }
            larger.append(&mut items);
            items = larger;
        }
    }

    Ok(items)
""")],
  demo=r'''
fn main() {
    let n = 8192u64;
    let m = ok(&module(&[sec(13, &list(&(0..n).map(|x| cat(&[&[0], &u(x)])).collect::<Vec<_>>()))]));
    for (i, t) in m.tags.iter().enumerate() {
        assert_eq!(t.0.0, i as u32);
    }
}
'''),
]
