M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"; N = "src/decode/integer.rs"
S = "src/decode/sections/"; T = "src/decode/types/"; C = "src/core/"; L = "wadec-cli/src/main.rs"
BE = "s390x-unknown-linux-gnu"; B32 = "i686-unknown-linux-gnu"
SEEDS = [
dict(id="doubles-native-order", property="C35", machine=BE, needs="a big-endian machine, and a constant of type f64",
  what="Constants of type f64 are taken in the byte order of the machine.",
  edits=[(H, "Ok(f64::from_le_bytes(buf))", "Ok(f64::from_bits(u64::from_ne_bytes(buf)))")],
  demo=r"""
fn main() {
    let i = ins1(&cat(&[&[0x44], &1.5f64.to_le_bytes()]));
    assert!(matches!(i, Instruction::F64Const(x) if x == 1.5), "{i:?}");
}
"""),
dict(id="vectors-native-order", property="C35", machine=BE, needs="a big-endian machine, and a constant vector",
  what="Constant vectors are taken as numbers of 128 bits, in the byte order of the machine.",
  edits=[(I, "Instruction::V128Const(buf)", "Instruction::V128Const(u128::from_ne_bytes(buf).to_le_bytes())")],
  demo=r"""
fn main() {
    let v: [u8; 16] = std::array::from_fn(|k| k as u8 * 7);
    let i = ins1(&cat(&[&[0xFD, 12], &v]));
    assert!(matches!(i, Instruction::V128Const(x) if x == v), "{i:?}");
}
"""),
dict(id="locals-counted-in-words", property="C35", machine=B32, needs="a 32-bit machine, and a function with more than 2^32 - 1 locals",
  what="Locals are counted in a machine word that stays at its maximum.",
  edits=[(S + "code.rs", "    let mut expanded_locals: u64 = 0;", "    let mut expanded_locals: usize = 0;"),
         (S + "code.rs", "    expanded_locals: &mut u64,", "    expanded_locals: &mut usize,"),
         (S + "code.rs", """    *expanded_locals += u64::from(count);
    if *expanded_locals > max_locals {
        return Err(DecodeCodeLocalsError::LocalsCountOutOfBound {
            max_locals,
            actual_locals: *expanded_locals,
        });
    }
""", """    *expanded_locals = expanded_locals.saturating_add(count as usize);
    let actual_locals = *expanded_locals as u64;
    if actual_locals > max_locals {
        return Err(DecodeCodeLocalsError::LocalsCountOutOfBound {
            max_locals,
            actual_locals,
        });
    }
""")],
  demo=r"""
fn main() {
    let f = cat(&[&[2], &u(0xFFFF_FFFF), &[0x7F, 1, 0x7F, 0xFF]]);
    let e = err(&funcs(&[sized(&f)]));
    assert!(format!("{e:?}").contains("LocalsCountOutOfBound"), "{e:?}");
}
"""),
dict(id="limits-in-words", property="C35", machine=B32, needs="a 32-bit machine, and a limit or offset beyond 2^32",
  what="Unsigned 64-bit integers are gathered in a machine word.",
  edits=[(N, """    let mut result: u64 = 0;
    let mut shift: u8 = 0;

    // 10 == ceil(64/7)
    for i in 1..=10 {
        let byte = read_byte(reader)?;

        result |= u64::from(byte & 0b0111_1111 /* 0x7F */) << shift;

        let continuation_bit = byte & 0b1000_0000 /* 0x80 */;
        if continuation_bit == 0 {
            if i == 10 && (byte & 0b0111_1110/* 0x7E */) != 0 {""", """    let mut result: usize = 0;
    let mut shift: u32 = 0;

    // 10 == ceil(64/7)
    for i in 1..=10 {
        let byte = read_byte(reader)?;

        result |= usize::from(byte & 0b0111_1111 /* 0x7F */).wrapping_shl(shift);

        let continuation_bit = byte & 0b1000_0000 /* 0x80 */;
        if continuation_bit == 0 {
            if i == 10 && (byte & 0b0111_1110/* 0x7E */) != 0 {"""),
   (N, """                return Err(DecodeU64Error::TooLarge);
            }
            return Ok(result);""", """                return Err(DecodeU64Error::TooLarge);
            }
            return Ok(result as u64);""")],
  demo=r"""
fn main() {
    let m = ok(&module(&[sec(5, &cat(&[&[1, 4], &u(1 << 40)]))]));
    assert!(format!("{m:?}").contains("1099511627776"), "{m:?}");
}
"""),
]
