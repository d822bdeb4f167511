# behaviour-preserving edits, others than those of refac.py, applied to a tree given as argument
import sys
root=sys.argv[1]
def sub(f,old,new,n=1):
    p=root+'/'+f; s=open(p).read()
    assert s.count(old)>=1,(f,old)
    s=s.replace(old,new) if n==0 else s.replace(old,new,n)
    open(p,'w').write(s)
def cut(f,start,end,new):
    p=root+'/'+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i)
    open(p,'w').write(s[:i]+new+s[j:])

M='src/decode/module.rs'
sub(M,'''    let mut preamble = [0u8; 8];
    reader.read_exact(&mut preamble)?;

    if preamble != EXPECTED_PREAMBLE {
        return Err(ParsePreambleError::Unexpected(preamble));
    }

    Ok(())
''','''    let mut preamble = [0u8; 8];
    for chunk in preamble.chunks_mut(4) {
        reader.read_exact(chunk)?;
    }
    let (magic, version) = preamble.split_at(4);
    if magic == MAGIC_NUMBER && version == VERSION {
        Ok(())
    } else {
        Err(ParsePreambleError::Unexpected(preamble))
    }
''')
# the checks of the code section in a helper; the bodies with the exact capacity of their locals
sub(M,'''                // Section 5.5.17: Furthermore, it [the data count section] must be present if any
                // data index occurs in the code section.
                for (i, code) in codes.into_iter().enumerate() {
                    for local in code.locals {
                        for _ in 0..local.count {
                            module.funcs[i].locals.push(local.t);
                        }
                    }

                    if code.encountered_data_index {
                        encountered_data_idx_in_code_section = true;
                    }

                    module.funcs[i].body = code.expr;
                }
''','''                encountered_data_idx_in_code_section |= module.fill_bodies(codes);
''')
sub(M,'''impl Module {
    fn validate''','''impl Module {
    // returns whether there's a data index in any of the bodies
    fn fill_bodies(&mut self, codes: Vec<code::Code>) -> bool {
        let mut data_index = false;
        for (func, code) in self.funcs.iter_mut().zip(codes) {
            let total: usize = code.locals.iter().map(|l| l.count as usize).sum();
            let mut locals = Vec::with_capacity(total);
            for local in code.locals {
                locals.resize(locals.len() + local.count as usize, local.t);
            }
            *func = Func {
                r#type: TypeIdx(func.r#type.0),
                locals,
                body: code.expr,
            };
            data_index = data_index || code.encountered_data_index;
        }
        data_index
    }

    fn validate''')
sub(M,'use crate::core::Func;','use crate::core::Func;\nuse crate::core::indices::TypeIdx;')
sub(M,'''                let datas = decode_data_section(section_reader)?;

                // Section 5.5.17: Similarly, the optional data count must match the length of the
                // data segment list.
                if let Some(data_count) = module.data_count
                    && datas.len() != usize::try_from(data_count).unwrap()
                {
                    return Err(DecodeModuleError::DataCountMismatch {
                        datas_len: datas.len(),
                        data_count,
                    });
                }
                module.datas = datas;
''','''                module.datas = decode_data_section(section_reader)?;

                // Section 5.5.17: Similarly, the optional data count must match the length of the
                // data segment list.
                match module.data_count {
                    Some(data_count) if data_count as usize != module.datas.len() => {
                        return Err(DecodeModuleError::DataCountMismatch {
                            datas_len: module.datas.len(),
                            data_count,
                        });
                    }
                    _ => {}
                }
''')
sub(M,'''        if section_reader.limit() != 0 {
            return Err(DecodeModuleError::SectionSizeMismatch {
                section_kind,
                declared: section_header.size,
                got: u64::from(section_header.size) - section_reader.limit(),
            });
        }
''','''        let consumed = u64::from(section_header.size) - section_reader.limit();
        if consumed < u64::from(section_header.size) {
            return Err(DecodeModuleError::SectionSizeMismatch {
                section_kind,
                declared: section_header.size,
                got: consumed,
            });
        }
''')

H='src/decode/helpers.rs'
sub(H,'''    let mut buf = [0u8];
    reader.read_exact(&mut buf)?;
    Ok(buf[0])
''','''    let mut buf = [0u8];
    loop {
        match reader.read(&mut buf) {
            Ok(1..) => return Ok(buf[0]),
            Ok(0) => {
                return Err(io::Error::new(
                    io::ErrorKind::UnexpectedEof,
                    "failed to fill whole buffer",
                ));
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e),
        }
    }
''')
sub(H,'''    let mut items = Vec::with_capacity(len.min(MAX_PREALLOCATED_ITEMS).try_into().unwrap());
    for i in 0..len {
        let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
            position: i,
            source: err,
        })?;
        items.push(elem);
    }

    Ok(items)
''','''    const _: u32 = MAX_PREALLOCATED_ITEMS;
    (0..len)
        .map(|position| {
            parse_fn(reader).map_err(|source| DecodeListError::ParseElement { position, source })
        })
        .collect()
''')
sub(H,'''    let mut b = Vec::new();
    reader.take(len.into()).read_to_end(&mut b)?;
    if b.len() != usize::try_from(len).unwrap() {
        return Err(io::Error::new(
''','''    let mut b = Vec::with_capacity(len.min(256) as usize);
    let got = io::copy(&mut reader.take(len.into()), &mut b)?;
    if got < u64::from(len) {
        return Err(io::Error::new(
''')
sub(H,'''    let mut buf = [0u8; 4];
    r.read_exact(&mut buf)?;
    Ok(f32::from_le_bytes(buf))
''','''    let mut buf = [0u8; 4];
    r.read_exact(&mut buf)?;
    let bits = buf.iter().rev().fold(0u32, |acc, b| acc << 8 | u32::from(*b));
    Ok(f32::from_bits(bits))
''')
sub(H,'''    let mut buf = [0u8; 8];
    r.read_exact(&mut buf)?;
    Ok(f64::from_le_bytes(buf))
''','''    let mut low = [0u8; 4];
    let mut high = [0u8; 4];
    r.read_exact(&mut low)?;
    r.read_exact(&mut high)?;
    Ok(f64::from_bits(
        u64::from(u32::from_le_bytes(high)) << 32 | u64::from(u32::from_le_bytes(low)),
    ))
''')
sub(H,'''    match ins {
        Instruction::MemoryInit(_, _)''','''    let bodies: [Option<&Expr>; 2] = match ins {
        Instruction::MemoryInit(_, _)''')
sub(H,'''        | Instruction::ArrayInitData(_, _) => true,

        Instruction::Block(_, body)
        | Instruction::Loop(_, body)
        | Instruction::TryTable(_, _, body) => body.iter().any(instruction_contains_data_index),

        Instruction::If(_, then_body, else_body) => {
            then_body.iter().any(instruction_contains_data_index)
                || else_body
                    .as_ref()
                    .is_some_and(|body| body.iter().any(instruction_contains_data_index))
        }
        _ => false,
    }
''','''        | Instruction::ArrayInitData(_, _) => return true,

        Instruction::Block(_, body)
        | Instruction::Loop(_, body)
        | Instruction::TryTable(_, _, body) => [Some(body), None],

        Instruction::If(_, then_body, else_body) => [Some(then_body), else_body.as_ref()],
        _ => return false,
    };
    bodies
        .into_iter()
        .flatten()
        .flatten()
        .any(instruction_contains_data_index)
''')

I='src/decode/integer.rs'
cut(I,'pub(crate) fn decode_i32','#[derive(Error, Debug)]\npub enum DecodeI64Error','''pub(crate) fn decode_i32<R: io::Read + ?Sized>(reader: &mut R) -> Result<i32, DecodeI32Error> {
    let mut bytes = [0u8; 5];
    let mut n = 0;
    loop {
        bytes[n] = read_byte(reader)?;
        n += 1;
        if bytes[n - 1] < 0x80 {
            break;
        }
        if n == bytes.len() {
            return Err(DecodeI32Error::RepresentationTooLong);
        }
    }
    let start = if bytes[n - 1] & 0x40 != 0 { -1i64 } else { 0 };
    let value = bytes[..n]
        .iter()
        .rev()
        .fold(start, |acc, b| acc << 7 | i64::from(b & 0x7F));
    i32::try_from(value).or(Err(DecodeI32Error::TooLarge))
}

''')
cut(I,'pub(crate) fn decode_i64','#[derive(Error, Debug)]\npub enum DecodeS33Error','''pub(crate) fn decode_i64<R: io::Read + ?Sized>(reader: &mut R) -> Result<i64, DecodeI64Error> {
    let mut result = 0i128;
    for shift in (0..70).step_by(7) {
        let byte = read_byte(reader)?;
        result |= i128::from(byte & 0x7F) << shift;
        if byte & 0x80 == 0 {
            if byte & 0x40 != 0 {
                result -= 1 << (shift + 7);
            }
            return i64::try_from(result).map_err(|_| DecodeI64Error::IncorrectSignExtension);
        }
    }
    Err(DecodeI64Error::RepresentationTooLong)
}

''')

N='src/decode/instructions.rs'
# structured instructions are parsed with an explicit stack instead of by recursion
s=open(root+'/'+N).read()
a=s.index('            // --- Control instructions ---\n            op @ 0x02..=0x04 => {')
b=s.index('            0x08 => Instruction::Throw')
s=s[:a]+'''            // --- Control instructions ---
            op @ 0x02..=0x04 => {
                let bt = BlockType::decode(reader).map_err(ControlError::BlockType)?;
                return Ok(Step::Open(match op {
                    0x02 => Frame::Block(bt),
                    0x03 => Frame::Loop(bt),
                    _ => Frame::If(bt),
                }));
            }
'''+s[b:]
a=s.index('                let mut ins = Vec::new();\n                let mut parsed;\n                loop {')
b=s.index('                Instruction::TryTable(bt, c, ins)\n')
s=s[:a]+'                return Ok(Step::Open(Frame::TryTable(bt, c)));\n'+s[b+len('                Instruction::TryTable(bt, c, ins)\n'):]
s=s.replace('''impl Instruction {
    pub(crate) fn parse<R: Read + ?Sized>(reader: &mut R) -> Result<ParseResult, ParseError> {
''','''enum Step {
    Plain(Instruction),
    Open(Frame),
    Else,
    End,
}

enum Frame {
    Block(BlockType),
    Loop(BlockType),
    If(BlockType),
    IfElse(BlockType, Vec<Instruction>),
    TryTable(BlockType, Vec<Catch>),
}

impl Instruction {
    pub(crate) fn parse<R: Read + ?Sized>(reader: &mut R) -> Result<ParseResult, ParseError> {
        let mut stack: Vec<(Frame, Vec<Instruction>)> = Vec::new();
        loop {
            let done = match Self::step(reader)? {
                Step::Open(frame) => {
                    stack.push((frame, Vec::new()));
                    continue;
                }
                Step::Plain(ins) => ins,
                Step::Else => match stack.pop() {
                    None => return Ok(ParseResult::Else),
                    Some((Frame::If(bt), body)) => {
                        stack.push((Frame::IfElse(bt, body), Vec::new()));
                        continue;
                    }
                    Some(_) => return Err(ControlError::UnexpectedElse.into()),
                },
                Step::End => match stack.pop() {
                    None => return Ok(ParseResult::End),
                    Some((frame, body)) => match frame {
                        Frame::Block(bt) => Instruction::Block(bt, body),
                        Frame::Loop(bt) => Instruction::Loop(bt, body),
                        Frame::If(bt) => Instruction::If(bt, body, None),
                        Frame::IfElse(bt, then_body) => {
                            Instruction::If(bt, then_body, Some(body))
                        }
                        Frame::TryTable(bt, c) => Instruction::TryTable(bt, c, body),
                    },
                },
            };
            match stack.last_mut() {
                None => return Ok(ParseResult::Instruction(done)),
                Some((_, body)) => body.push(done),
            }
        }
    }

    fn step<R: Read + ?Sized>(reader: &mut R) -> Result<Step, ParseError> {
''')
s=s.replace('return Ok(ParseResult::End),\n            0x05 => return Ok(ParseResult::Else)','return Ok(Step::End),\n            0x05 => return Ok(Step::Else)')
s=s.replace('        Ok(ParseResult::Instruction(ins))\n    }','        Ok(Step::Plain(ins))\n    }')
s=s.replace('''        let b = read_byte(reader).map_err(BlockTypeError::ReadMarkerByte)?;
        if b == 0x40 {
            return Ok(Self::Empty);
        }
''','''        let b = match read_byte(reader) {
            Ok(0x40) => return Ok(Self::Empty),
            Ok(b) => b,
            Err(e) => return Err(BlockTypeError::ReadMarkerByte(e)),
        };
''')
s=s.replace('''        let x = decode_s33(&mut reader)?;
        if x < 0 {
            return Err(BlockTypeError::NegativeTypeIndex(x));
        }

        let x = u32::try_from(x).unwrap();

        Ok(Self::I(x))
''','''        let x = decode_s33(&mut reader)?;
        u32::try_from(x)
            .map(Self::I)
            .map_err(|_| BlockTypeError::NegativeTypeIndex(x))
''')
s=s.replace('''            0x00 => {
                let x = TagIdx::decode(reader)?;
                let l = LabelIdx::decode(reader)?;
                Catch::Catch(x, l)
            }
            0x01 => {
                let x = TagIdx::decode(reader)?;
                let l = LabelIdx::decode(reader)?;
                Catch::CatchRef(x, l)
            }
''','''            with_tag @ 0x00..=0x01 => {
                let x = TagIdx::decode(reader)?;
                let l = LabelIdx::decode(reader)?;
                if with_tag == 0x00 {
                    Catch::Catch(x, l)
                } else {
                    Catch::CatchRef(x, l)
                }
            }
''')
open(root+'/'+N,'w').write(s)

E='src/decode/sections/element.rs'
cut(E,'    let (r#type, init, mode) = match bitfield {','    Ok(Elem { r#type, init, mode })','''    if bitfield > 7 {
        return Err(DecodeElementError::InvalidBitfield(bitfield));
    }
    let active = bitfield & 1 == 0;
    let explicit = bitfield & 2 != 0;
    let expressions = bitfield & 4 != 0;

    let mode = if active {
        let table = if explicit {
            TableIdx::decode(reader)?
        } else {
            TableIdx(0)
        };
        let wrap: fn(ParseExpressionError) -> DecodeElementError = if bitfield == 2 {
            DecodeElementError::DecodeElementExpression
        } else {
            DecodeElementError::DecodeOffsetExpression
        };
        let offset = decode_expr(reader).map_err(wrap)?.0;
        ElemMode::Active { table, offset }
    } else if explicit {
        ElemMode::Declare
    } else {
        ElemMode::Passive
    };

    let r#type = if active && !explicit {
        RefType {
            nullable: expressions,
            ht: HeapType::Ht(AbsHeapType::Func),
        }
    } else if expressions {
        RefType::decode(reader).map_err(DecodeElementError::DecodeReferenceType)?
    } else {
        parse_elemkind(reader)?
    };

    let init = if expressions {
        decode_list(reader, |r| decode_expr(r).map(|(expr, _)| expr))
            .map_err(DecodeElementError::DecodeInit)?
    } else {
        funcidx_into_reffunc(decode_list(reader, FuncIdx::decode)?)
    };

''')
sub('src/decode/sections/code.rs','''    if reader.limit() != 0 {
        return Err(DecodeCodeError::EntrySizeMismatch {
            declared_bytes: size,
            leftover_bytes: reader.limit(),
            consumed_bytes: u64::from(size) - reader.limit(),
        });
    }
''','''    match reader.limit() {
        0 => {}
        leftover_bytes => {
            return Err(DecodeCodeError::EntrySizeMismatch {
                declared_bytes: size,
                leftover_bytes,
                consumed_bytes: u64::from(size) - leftover_bytes,
            });
        }
    }
''')
sub('src/decode/sections/table.rs','''    let byte = read_byte(reader)?;
    if byte == 0x40 {
        let b = read_byte(reader)?;
        if b != 0x00 {
            return Err(DecodeTableError::UnexpectedMarkerByte(b));
        }
        let tt = TableType::decode(reader)?;
        let (e, _) = decode_expr(reader)?;
        return Ok(Table(tt, e));
    }

    // we consumed the first byte already, so we have to rewind the
    // reader to try and parse it as a TableType
    let mut reader = io::Cursor::new([byte]).chain(reader);
    let tt = TableType::decode(&mut reader)?;
    let e = vec![Instruction::RefNull(tt.reftype.ht)];
    Ok(Table(tt, e))
''','''    match read_byte(reader)? {
        0x40 => match read_byte(reader)? {
            0x00 => {
                let tt = TableType::decode(reader)?;
                Ok(Table(tt, decode_expr(reader)?.0))
            }
            b => Err(DecodeTableError::UnexpectedMarkerByte(b)),
        },
        first => {
            // the first byte belongs to the TableType
            let tt = TableType::decode(&mut (&[first][..]).chain(reader))?;
            let init = Instruction::RefNull(tt.reftype.ht);
            Ok(Table(tt, Vec::from([init])))
        }
    }
''')
sub('src/decode/sections/import.rs','''    let module_name = decode_name(reader).map_err(DecodeImportError::DecodeModuleName)?;
    let item_name = decode_name(reader).map_err(DecodeImportError::DecodeItemName)?;
    let extern_type = ExternType::decode(reader)?;

    Ok(Import {
        module_name,
        item_name,
        extern_type,
    })
''','''    Ok(Import {
        module_name: decode_name(reader).map_err(DecodeImportError::DecodeModuleName)?,
        item_name: decode_name(reader).map_err(DecodeImportError::DecodeItemName)?,
        extern_type: ExternType::decode(reader)?,
    })
''')
sub('src/decode/sections/custom.rs','''    let mut contents = Vec::new();
    reader.read_to_end(&mut contents)?;
''','''    let mut contents = Vec::new();
    io::copy(reader, &mut contents)?;
''')
sub('src/decode/types/heaptype.rs','''        if let Ok(t) = AbsHeapType::from_marker(b) {
            return Ok(Self::Ht(t));
        }

        let mut chain = Cursor::new([b]).chain(reader);
        let x = decode_s33(&mut chain)?;
        if x < 0 {
            return Err(DecodeHeapTypeError::NegativeTypeIndex(x));
        }

        let x = u32::try_from(x).unwrap();

        Ok(Self::TypeIdx(x))
''','''        match AbsHeapType::from_marker(b) {
            Ok(t) => Ok(Self::Ht(t)),
            Err(_) => match decode_s33(&mut Cursor::new([b]).chain(reader))? {
                x @ 0.. => Ok(Self::TypeIdx(x as u32)),
                x => Err(DecodeHeapTypeError::NegativeTypeIndex(x)),
            },
        }
''')
sub('src/decode/types/valtype.rs','''        Ok(match read_byte(reader)? {
            0x7F => ValType::Num(NumType::Int32),
            0x7E => ValType::Num(NumType::Int64),
            0x7D => ValType::Num(NumType::Float32),
            0x7C => ValType::Num(NumType::Float64),
            0x7B => ValType::Vec(VecType::V128),
            b => {
                let mut reader = io::Cursor::new([b]).chain(reader);
                ValType::Ref(RefType::decode(&mut reader)?)
            }
        })
''','''        const NUMBERS: [NumType; 4] = [
            NumType::Float64,
            NumType::Float32,
            NumType::Int64,
            NumType::Int32,
        ];
        let b = read_byte(reader)?;
        if b == 0x7B {
            return Ok(ValType::Vec(VecType::V128));
        }
        if (0x7C..=0x7F).contains(&b) {
            return Ok(ValType::Num(NUMBERS[usize::from(b - 0x7C)]));
        }
        let mut reader = io::Cursor::new([b]).chain(reader);
        Ok(ValType::Ref(RefType::decode(&mut reader)?))
''')
sub('src/decode/types/rectype.rs','''            op @ (0x4F | 0x50) => {
                let x = decode_list(reader, TypeIdx::decode)?;
                let ct = CompType::decode(reader)?;
                let is_final = op == 0x4F;

                Ok(Self {
                    is_final,
                    supertypes: x,
                    comptype: ct,
                })
            }
''','''            0x4F | 0x50 => Ok(Self {
                is_final: marker & 1 == 1,
                supertypes: decode_list(reader, TypeIdx::decode)?,
                comptype: CompType::decode(reader)?,
            }),
''')
sub('src/decode/types/limits.rs','''    let (has_max, address_type) = match read_byte(reader).map_err(ParseLimitsError::ReadFlagByte)? {
        0x00 => (false, AddrType::I32),
        0x01 => (true, AddrType::I32),
        0x04 => (false, AddrType::I64),
        0x05 => (true, AddrType::I64),
        n => return Err(ParseLimitsError::UnexpectedFlagByte(n)),
    };
''','''    let flag = read_byte(reader).map_err(ParseLimitsError::ReadFlagByte)?;
    if flag & !0x05 != 0 {
        return Err(ParseLimitsError::UnexpectedFlagByte(flag));
    }
    let has_max = flag & 0x01 != 0;
    let address_type = if flag & 0x04 != 0 {
        AddrType::I64
    } else {
        AddrType::I32
    };
''')
sub('src/decode/mod.rs','''        match Self::markers().get(&b) {
            Some(n) => Ok(*n),
            None => Err(b.into()),
        }
''','''        Self::markers()
            .into_iter()
            .find_map(|(marker, value)| (*marker == b).then_some(*value))
            .ok_or_else(|| b.into())
''')
L='wadec-cli/src/main.rs'
cut(L,'fn main() {','\x00' if False else 'fn abort','''fn main() {
    let cli = Cli::parse();
    let input = match cli.input.open() {
        Ok(input) => input,
        Err(e) => abort(&cli, e),
    };
    match wadec::decode_module(std::io::BufReader::new(input)) {
        Ok(module) if cli.verbose => {
            let mut out = format!("{module:#?}");
            out.push('\\n');
            print!("{out}");
        }
        Ok(_) => {}
        Err(e) => abort(&cli, e),
    }
}

''')
sub(L,'''    eprintln!("ERROR: {err}");

    let mut sources = Vec::new();''','''    use std::fmt::Write;
    let mut text = String::new();
    let _ = writeln!(text, "ERROR: {err}");

    let mut sources = Vec::new();''')
sub(L,'''        eprintln!("\\nCaused by:");''','''        let _ = writeln!(text, "\\nCaused by:");''')
sub(L,'''            eprintln!("    {i}: {cause}");''','''            let _ = writeln!(text, "    {i}: {cause}");''')
sub(L,'''        eprintln!("\\nDEBUG OUTPUT:\\n{err:#?}");
    }
''','''        let _ = writeln!(text, "\\nDEBUG OUTPUT:\\n{err:#?}");
    }
    eprint!("{text}");
''')
