# behaviour-preserving edits, applied to a tree given as argument
import sys,re
root=sys.argv[1]
def sub(f,old,new,n=1):
    p=root+'/'+f; s=open(p).read()
    assert s.count(old)>=1,(f,old)
    s=s.replace(old,new) if n==0 else s.replace(old,new,n)
    open(p,'w').write(s)
def cut(f,start,end,new):
    p=root+'/'+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i)
    open(p,'w').write(s[:i]+new+s[j:])

M='src/decode/module.rs'
sub(M,'use std::io::{self, Read};','use std::io::{self, BufReader, Read};')
sub(M,'''pub fn decode_module(mut input: impl Read) -> Result<Module, DecodeModuleError> {
    parse_preamble(&mut input)?;
''','''pub fn decode_module(input: impl Read) -> Result<Module, DecodeModuleError> {
    let mut input = BufReader::new(input);
    parse_preamble(&mut input)?;
''')
sub(M,'''        let mut section_reader = &mut input.by_ref().take(section_header.size.into());

        module.validate_section_kind_expected(&section_header)?;
''','''        module.validate_section_kind_expected(&section_header)?;
        let declared = section_header.size;
        let mut limited = input.by_ref().take(u64::from(declared));
        let mut section_reader = &mut limited;
''')
sub(M,'''                for type_idx in decode_function_section(&mut section_reader)? {
                    module.funcs.push(Func {
                        r#type: type_idx,
                        // going to be filled later on by SectionKind::Code
                        locals: vec![],
                        body: vec![],
                    });
                }
''','''                module.funcs = decode_function_section(&mut section_reader)?
                    .into_iter()
                    .map(Self_::bodiless)
                    .collect();
''')
sub(M,'Self_::bodiless','bodiless')
sub(M,'''                for (i, code) in codes.into_iter().enumerate() {
                    for local in code.locals {
                        for _ in 0..local.count {
                            module.funcs[i].locals.push(local.t);
                        }
                    }

                    if code.encountered_data_index {
                        encountered_data_idx_in_code_section = true;
                    }

                    module.funcs[i].body = code.expr;
                }
''','''                encountered_data_idx_in_code_section =
                    codes.iter().any(|c| c.encountered_data_index);
                for (func, code) in module.funcs.iter_mut().zip(codes) {
                    for local in &code.locals {
                        func.locals
                            .extend(std::iter::repeat_n(local.t, local.count as usize));
                    }
                    func.body = code.expr;
                }
''')
sub(M,'''/// Decode `input` into a WebAssembly [Module].''','''fn bodiless(r#type: crate::core::indices::TypeIdx) -> Func {
    Func {
        r#type,
        locals: Vec::new(),
        body: Vec::new(),
    }
}

/// Decode `input` into a WebAssembly [Module].''')
# section 5.5.17 checks in another order at the end
s=open(root+'/'+M).read()
a=s.index('    // Section 5.5.17: The lengths of vectors produced by the (possibly empty)\n    // function and code section must match up\n    if !module')
b=s.index('    // Section 5.5.17: Similarly, the optional data count must match the length\n    // of the data')
c=s.index('    // Section 5.5.17: Furthermore, it [the data count section] must be present if any data index\n    // occurs in the code')
d=s.index('    Ok(module)\n')
s=s[:a]+s[a:b]+s[b:c]+s[c:d]+s[d:]
open(root+'/'+M,'w').write(s)
sub(M,'''        module.section_headers.push(section_header);
        if section_kind != SectionKind::Custom {''','''        if section_kind != SectionKind::Custom {''')
sub(M,'''        match section_kind {
            SectionKind::Custom => {
                module
''','''        let declared_size = section_header.size;
        module.section_headers.push(section_header);
        match section_kind {
            SectionKind::Custom => {
                module
''')
sub(M,'''                declared: section_header.size,
                got: u64::from(section_header.size) - section_reader.limit(),''','''                declared: declared_size,
                got: u64::from(declared_size) - section_reader.limit(),''')
sub(M,'''        let previous = self.parsed_section_kinds.last();
        let current = current.kind;

        // Every section is valid if it's the first one we're encountering.
        // Custom sections may appear anywhere in the module and multiple times
        if previous.is_none() || current == SectionKind::Custom {
            return Ok(());
        }

        let previous = *previous.unwrap();

        if current < previous {
            return Err(DecodeModuleError::SectionOutOfOrder { current, previous });
        }

        if current == previous {
            return Err(DecodeModuleError::DuplicateSection(current));
        }

        Ok(())
''','''        let current = current.kind;
        let Some(previous) = self.parsed_section_kinds.last().copied() else {
            return Ok(());
        };
        if current == SectionKind::Custom {
            return Ok(());
        }
        match current.partial_cmp(&previous).unwrap() {
            std::cmp::Ordering::Less => {
                Err(DecodeModuleError::SectionOutOfOrder { current, previous })
            }
            std::cmp::Ordering::Equal => Err(DecodeModuleError::DuplicateSection(current)),
            std::cmp::Ordering::Greater => Ok(()),
        }
''')

H='src/decode/helpers.rs'
sub(H,'''    let mut items = Vec::with_capacity(len.min(MAX_PREALLOCATED_ITEMS).try_into().unwrap());
    for i in 0..len {
        let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
            position: i,
            source: err,
        })?;
        items.push(elem);
    }

    Ok(items)
''','''    let mut items = Vec::new();
    if len <= MAX_PREALLOCATED_ITEMS {
        items.reserve_exact(len as usize);
    }
    let mut position = 0;
    while position < len {
        match parse_fn(reader) {
            Ok(elem) => items.push(elem),
            Err(source) => return Err(DecodeListError::ParseElement { position, source }),
        }
        position += 1;
    }
    items.shrink_to_fit();
    Ok(items)
''')
sub(H,'''    let mut b = Vec::new();
    reader.take(len.into()).read_to_end(&mut b)?;
    if b.len() != usize::try_from(len).unwrap() {
        return Err(io::Error::new(
            io::ErrorKind::UnexpectedEof,
            "failed to fill whole buffer",
        )
        .into());
    }

    Ok(b)
''','''    let mut b = Vec::new();
    let mut remaining = len as usize;
    let mut chunk = [0u8; 4096];
    while remaining > 0 {
        let n = remaining.min(chunk.len());
        reader.read_exact(&mut chunk[..n])?;
        b.extend_from_slice(&chunk[..n]);
        remaining -= n;
    }

    Ok(b)
''')
sub(H,'''fn instruction_contains_data_index(ins: &Instruction) -> bool {
    match ins {''','''fn contains_data_index(body: &Expr) -> bool {
    body.iter().any(instruction_contains_data_index)
}

fn instruction_contains_data_index(ins: &Instruction) -> bool {
    match ins {''')
sub(H,'''        | Instruction::TryTable(_, _, body) => body.iter().any(instruction_contains_data_index),
''','''        | Instruction::TryTable(_, _, body) => contains_data_index(body),
''')
sub(H,'''    let mut body = Vec::new();
    let mut encountered_data_index = false;

    loop {
        match Instruction::parse(reader)? {
            instructions::ParseResult::Instruction(ins) => {
                if instruction_contains_data_index(&ins) {
                    encountered_data_index = true;
                }
                body.push(ins);
            }
''','''    let mut body = Vec::new();

    loop {
        match Instruction::parse(reader)? {
            instructions::ParseResult::Instruction(ins) => body.push(ins),
''')
sub(H,'''    Ok((body, encountered_data_index))
}
''','''    let encountered_data_index = contains_data_index(&body);
    Ok((body, encountered_data_index))
}
''')
sub(H,'''    Ok(decode_byte_vector(reader)?.try_into()?)''','''    let bytes = decode_byte_vector(reader)?;
    String::from_utf8(bytes).map_err(DecodeNameError::Utf8)''')

I='src/decode/integer.rs'
cut(I,'pub(crate) fn decode_u32','#[derive(Error, Debug)]\npub enum DecodeU64Error','''pub(crate) fn decode_u32<R: io::Read + ?Sized>(reader: &mut R) -> Result<u32, DecodeU32Error> {
    let mut result = 0u64;
    for i in 0..5u32 {
        let byte = read_byte(reader)?;
        result += u64::from(byte % 128) << (7 * i);
        if byte < 0x80 {
            return u32::try_from(result).map_err(|_| DecodeU32Error::TooLarge);
        }
    }
    Err(DecodeU32Error::RepresentationTooLong)
}

''')
cut(I,'pub(crate) fn decode_u64','#[derive(Error, Debug)]\npub enum DecodeI32Error','''pub(crate) fn decode_u64<R: io::Read + ?Sized>(reader: &mut R) -> Result<u64, DecodeU64Error> {
    let mut result = 0u128;
    let mut weight = 1u128;
    for _ in 0..10 {
        let byte = read_byte(reader)?;
        result += u128::from(byte & 0x7F) * weight;
        if byte & 0x80 == 0 {
            return u64::try_from(result).map_err(|_| DecodeU64Error::TooLarge);
        }
        weight *= 128;
    }
    Err(DecodeU64Error::RepresentationTooLong)
}

''')
cut(I,'pub(crate) fn decode_s33','#[cfg(test)]\nmod tests','''pub(crate) fn decode_s33<R: io::Read + ?Sized>(reader: &mut R) -> Result<i64, DecodeS33Error> {
    let mut result = 0i64;
    for i in 0..5u32 {
        let byte = read_byte(reader)?;
        result |= i64::from(byte & 0x7F) << (7 * i);
        if byte & 0x80 == 0 {
            let bits = 64 - 7 * (i + 1);
            result = (result << bits) >> bits;
            if result >= 1 << 32 || result < -(1 << 32) {
                return Err(DecodeS33Error::IncorrectSignExtension);
            }
            return Ok(result);
        }
    }
    Err(DecodeS33Error::RepresentationTooLong)
}

''')

N='src/decode/instructions.rs'
cut(N,'                let mut in1 = Vec::new();','            0x08 => Instruction::Throw','''                match op {
                    0x02 => Instruction::Block(bt, Self::parse_until_end(reader)?),
                    0x03 => Instruction::Loop(bt, Self::parse_until_end(reader)?),
                    _ => {
                        let (then_body, has_else) = Self::parse_sequence(reader)?;
                        let else_body = if has_else {
                            Some(Self::parse_until_end(reader)?)
                        } else {
                            None
                        };
                        Instruction::If(bt, then_body, else_body)
                    }
                }
            }
''')
cut(N,'''                let mut ins = Vec::new();
                let mut parsed;
                loop {''','''                Instruction::TryTable(bt, c, ins)''','''                let ins = Self::parse_until_end(reader)?;
''')
sub(N,'''impl Instruction {
    pub(crate) fn parse<''','''impl Instruction {
    /// Instructions up to `end` or `else`, and whether it was `else`.
    fn parse_sequence<R: Read + ?Sized>(
        reader: &mut R,
    ) -> Result<(Vec<Instruction>, bool), ParseError> {
        let mut body = Vec::new();
        loop {
            match Self::parse(reader)? {
                ParseResult::Instruction(i) => body.push(i),
                ParseResult::End => return Ok((body, false)),
                ParseResult::Else => return Ok((body, true)),
            }
        }
    }

    fn parse_until_end<R: Read + ?Sized>(reader: &mut R) -> Result<Vec<Instruction>, ParseError> {
        match Self::parse_sequence(reader)? {
            (body, false) => Ok(body),
            (_, true) => Err(ControlError::UnexpectedElse.into()),
        }
    }

    pub(crate) fn parse<''')
sub(N,'''        let (mem_idx, align) = if n < 2u32.pow(6) {
            (MemIdx(0), n)
        } else if n < 2u32.pow(7) {
            (MemIdx::decode(reader)?, n - 2u32.pow(6))
        } else {
            return Err(MemargError::InvalidFlagsBit(n));
        };
''','''        if n >> 7 != 0 {
            return Err(MemargError::InvalidFlagsBit(n));
        }
        let mem_idx = if n & 0x40 != 0 {
            MemIdx::decode(reader)?
        } else {
            MemIdx(0)
        };
        let align = n & 0x3F;
''')
sub(N,'''    match read_byte(r).map_err(ControlError::ReadCastNullabilityMarker)? {
        0x00 => Ok((false, false)),
        0x01 => Ok((true, false)),
        0x02 => Ok((false, true)),
        0x03 => Ok((true, true)),
        n => Err(ControlError::InvalidCastNullabilityMarker(n)),
    }''','''    let flags = read_byte(r).map_err(ControlError::ReadCastNullabilityMarker)?;
    if flags > 3 {
        return Err(ControlError::InvalidCastNullabilityMarker(flags));
    }
    Ok((flags & 1 != 0, flags & 2 != 0))''')

C='src/decode/sections/code.rs'
sub(C,'''    *expanded_locals += u64::from(count);
    if *expanded_locals > max_locals {
        return Err(DecodeCodeLocalsError::LocalsCountOutOfBound {
            max_locals,
            actual_locals: *expanded_locals,
        });
    }
''','''    let actual_locals = *expanded_locals + u64::from(count);
    if actual_locals > max_locals {
        return Err(DecodeCodeLocalsError::LocalsCountOutOfBound {
            max_locals,
            actual_locals,
        });
    }
    *expanded_locals = actual_locals;
''')
D='src/decode/sections/data.rs'
cut(D,'    let init: Vec<u8>;','    Ok(Data { init, mode })','''    let mode = match decode_u32(reader).map_err(DecodeDataSegmentError::DecodeBitfield)? {
        1 => DataMode::Passive,
        form @ (0 | 2) => {
            let memory = if form == 2 {
                MemIdx::decode(reader)?
            } else {
                MemIdx(0)
            };
            let offset = decode_expr(reader)
                .map_err(DecodeDataSegmentError::DecodeOffsetExpr)?
                .0;
            DataMode::Active { memory, offset }
        }
        n => return Err(DecodeDataSegmentError::InvalidBitfield(n)),
    };
    let init = decode_byte_vector(reader)?;

''')
E='src/decode/sections/export.rs'
T='src/decode/sections/table.rs'
sub('src/decode/sections/custom.rs','''    let mut contents = Vec::new();
    reader.read_to_end(&mut contents)?;
''','''    let mut contents = Vec::with_capacity(64);
    loop {
        let mut piece = [0u8; 1024];
        match reader.read(&mut piece) {
            Ok(0) => break,
            Ok(n) => contents.extend_from_slice(&piece[..n]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e.into()),
        }
    }
''')
V='src/decode/types/valtype.rs'
sub('src/decode/types/reftype.rs','''            b => {
                let aht = {
                    let mut reader = Cursor::new([b]).chain(reader);
                    AbsHeapType::decode(&mut reader)?
                };
''','''            b => {
                let aht = AbsHeapType::decode(&mut Cursor::new([b]))?;
''')
sub('src/decode/types/limits.rs','''    let max = if has_max {
        Some(decode_u64(reader).map_err(ParseLimitsError::ReadMaxLimit)?)
    } else {
        None
    };
''','''    let max = has_max
        .then(|| decode_u64(reader))
        .transpose()
        .map_err(ParseLimitsError::ReadMaxLimit)?;
''')
L='wadec-cli/src/main.rs'
sub(L,'''    let mut sources = Vec::new();
    let mut current = err.source();
    while let Some(cause) = current {
        sources.push(cause);
        current = cause.source();
    }
    if !sources.is_empty() {
        eprintln!("\\nCaused by:");
        for (i, cause) in sources.iter().enumerate() {
            eprintln!("    {i}: {cause}");
        }
    }
''','''    let causes = std::iter::successors(err.source(), |e: &&dyn Error| (*e).source());
    for (i, cause) in causes.enumerate() {
        if i == 0 {
            eprintln!("\\nCaused by:");
        }
        eprintln!("    {i}: {cause}");
    }
''')
