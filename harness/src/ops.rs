//! The opcode table of WebAssembly 3.0 (core spec, index of instructions), written from the
//! specification, and the map from the decoder's instruction type to the harness's.
use crate::ast::*;
use crate::conv;
use wadec::core::indices::*;
use wadec::core::instruction::{Instruction as I, LaneIdx};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sh {
    Plain,
    I1,
    /// two indices, encoded in the order of the abstract syntax
    I2,
    /// two indices, encoded in the opposite order
    I2Swap,
    Mem,
    MemLane,
    Lane,
    I32,
    I64,
    F32,
    F64,
    V128,
    Shuf,
    BrTable,
    SelT,
    Block,
    If,
    Try,
    Ht,
    BrCast,
}

pub struct Op {
    pub op: u32,
    pub sh: Sh,
    pub name: &'static str,
}

pub const FB: u32 = 0xFB0000;
pub const FC: u32 = 0xFC0000;
pub const FD: u32 = 0xFD0000;

macro_rules! table {
    (
        plain { $($po:expr => $pv:ident;)* }
        i1 { $($io:expr => $iv:ident($ix:ident);)* }
        i2 { $($jo:expr => $jv:ident($jx:ident, $jy:ident) $js:ident;)* }
        mem { $($mo:expr => $mv:ident;)* }
        memlane { $($lo:expr => $lv:ident;)* }
        lane { $($ko:expr => $kv:ident;)* }
    ) => {
        pub static REGULAR: &[Op] = &[
            $(Op { op: $po, sh: Sh::Plain, name: stringify!($pv) },)*
            $(Op { op: $io, sh: Sh::I1, name: stringify!($iv) },)*
            $(Op { op: $jo, sh: Sh::$js, name: stringify!($jv) },)*
            $(Op { op: $mo, sh: Sh::Mem, name: stringify!($mv) },)*
            $(Op { op: $lo, sh: Sh::MemLane, name: stringify!($lv) },)*
            $(Op { op: $ko, sh: Sh::Lane, name: stringify!($kv) },)*
        ];

        fn regular(i: &I) -> Option<Ins> {
            Some(match i {
                $(I::$pv => Ins { op: $po, imm: Imm::None },)*
                $(I::$iv($ix(x)) => Ins { op: $io, imm: Imm::I1(*x) },)*
                $(I::$jv(x, y) => {
                    let (x, y): ($jx, $jy) = (x.clone(), y.clone());
                    Ins { op: $jo, imm: Imm::I2(x.n(), y.n()) }
                })*
                $(I::$mv(m) => Ins { op: $mo, imm: Imm::Mem(conv::memarg(m)) },)*
                $(I::$lv(m, l) => Ins { op: $lo, imm: Imm::MemLane(conv::memarg(m), l.0) },)*
                $(I::$kv(l) => Ins { op: $ko, imm: Imm::Lane(l.0) },)*
                _ => return None,
            })
        }
    };
}

trait N {
    fn n(&self) -> u32;
}
impl N for u32 {
    fn n(&self) -> u32 {
        *self
    }
}
macro_rules! n { ($($t:ident)*) => { $(impl N for $t { fn n(&self) -> u32 { self.0 } })* } }
n!(TypeIdx TableIdx MemIdx DataIdx ElemIdx);

table! {
    plain {
        0x00 => Unreachable; 0x01 => Nop; 0x0A => ThrowRef; 0x0F => Return; 0x1A => Drop;
        0xD1 => RefIsNull; 0xD3 => RefEq; 0xD4 => RefAsNonNull;
        FB|15 => ArrayLen; FB|26 => AnyConvertExtern; FB|27 => ExternConvertAny;
        FB|28 => RefI31; FB|29 => I31GetS; FB|30 => I31GetU;
        0x45 => I32Eqz; 0x46 => I32Eq; 0x47 => I32Ne; 0x48 => I32LtS; 0x49 => I32LtU;
        0x4A => I32GtS; 0x4B => I32GtU; 0x4C => I32LeS; 0x4D => I32LeU; 0x4E => I32GeS; 0x4F => I32GeU;
        0x50 => I64Eqz; 0x51 => I64Eq; 0x52 => I64Ne; 0x53 => I64LtS; 0x54 => I64LtU;
        0x55 => I64GtS; 0x56 => I64GtU; 0x57 => I64LeS; 0x58 => I64LeU; 0x59 => I64GeS; 0x5A => I64GeU;
        0x5B => F32Eq; 0x5C => F32Ne; 0x5D => F32Lt; 0x5E => F32Gt; 0x5F => F32Le; 0x60 => F32Ge;
        0x61 => F64Eq; 0x62 => F64Ne; 0x63 => F64Lt; 0x64 => F64Gt; 0x65 => F64Le; 0x66 => F64Ge;
        0x67 => I32Clz; 0x68 => I32Ctz; 0x69 => I32Popcnt; 0x6A => I32Add; 0x6B => I32Sub; 0x6C => I32Mul;
        0x6D => I32DivS; 0x6E => I32DivU; 0x6F => I32RemS; 0x70 => I32RemU; 0x71 => I32And; 0x72 => I32Or;
        0x73 => I32Xor; 0x74 => I32Shl; 0x75 => I32ShrS; 0x76 => I32ShrU; 0x77 => I32Rotl; 0x78 => I32Rotr;
        0x79 => I64Clz; 0x7A => I64Ctz; 0x7B => I64Popcnt; 0x7C => I64Add; 0x7D => I64Sub; 0x7E => I64Mul;
        0x7F => I64DivS; 0x80 => I64DivU; 0x81 => I64RemS; 0x82 => I64RemU; 0x83 => I64And; 0x84 => I64Or;
        0x85 => I64Xor; 0x86 => I64Shl; 0x87 => I64ShrS; 0x88 => I64ShrU; 0x89 => I64Rotl; 0x8A => I64Rotr;
        0x8B => F32Abs; 0x8C => F32Neg; 0x8D => F32Ceil; 0x8E => F32Floor; 0x8F => F32Trunc;
        0x90 => F32Nearest; 0x91 => F32Sqrt; 0x92 => F32Add; 0x93 => F32Sub; 0x94 => F32Mul; 0x95 => F32Div;
        0x96 => F32Min; 0x97 => F32Max; 0x98 => F32Copysign;
        0x99 => F64Abs; 0x9A => F64Neg; 0x9B => F64Ceil; 0x9C => F64Floor; 0x9D => F64Trunc;
        0x9E => F64Nearest; 0x9F => F64Sqrt; 0xA0 => F64Add; 0xA1 => F64Sub; 0xA2 => F64Mul; 0xA3 => F64Div;
        0xA4 => F64Min; 0xA5 => F64Max; 0xA6 => F64Copysign;
        0xA7 => I32WrapI64; 0xA8 => I32TruncF32S; 0xA9 => I32TruncF32U; 0xAA => I32TruncF64S; 0xAB => I32TruncF64U;
        0xAC => I64ExtendI32S; 0xAD => I64ExtendI32U; 0xAE => I64TruncF32S; 0xAF => I64TruncF32U;
        0xB0 => I64TruncF64S; 0xB1 => I64TruncF64U; 0xB2 => F32ConvertI32S; 0xB3 => F32ConvertI32U;
        0xB4 => F32ConvertI64S; 0xB5 => F32ConvertI64U; 0xB6 => F32DemoteF64; 0xB7 => F64ConvertI32S;
        0xB8 => F64ConvertI32U; 0xB9 => F64ConvertI64S; 0xBA => F64ConvertI64U; 0xBB => F64PromoteF32;
        0xBC => I32ReinterpretF32; 0xBD => I64ReinterpretF64; 0xBE => F32ReinterpretI32; 0xBF => F64ReinterpretI64;
        0xC0 => I32Extend8S; 0xC1 => I32Extend16S; 0xC2 => I64Extend8S; 0xC3 => I64Extend16S; 0xC4 => I64Extend32S;
        FC|0 => I32TruncSatF32S; FC|1 => I32TruncSatF32U; FC|2 => I32TruncSatF64S; FC|3 => I32TruncSatF64U;
        FC|4 => I64TruncSatF32S; FC|5 => I64TruncSatF32U; FC|6 => I64TruncSatF64S; FC|7 => I64TruncSatF64U;
        FD|14 => I8x16Swizzle;
        FD|15 => I8x16Splat; FD|16 => I16x8Splat; FD|17 => I32x4Splat; FD|18 => I64x2Splat; FD|19 => F32x4Splat; FD|20 => F64x2Splat;
        FD|35 => I8x16Eq; FD|36 => I8x16Ne; FD|37 => I8x16LtS; FD|38 => I8x16LtU; FD|39 => I8x16GtS; FD|40 => I8x16GtU;
        FD|41 => I8x16LeS; FD|42 => I8x16LeU; FD|43 => I8x16GeS; FD|44 => I8x16GeU;
        FD|45 => I16x8Eq; FD|46 => I16x8Ne; FD|47 => I16x8LtS; FD|48 => I16x8LtU; FD|49 => I16x8GtS; FD|50 => I16x8GtU;
        FD|51 => I16x8LeS; FD|52 => I16x8LeU; FD|53 => I16x8GeS; FD|54 => I16x8GeU;
        FD|55 => I32x4Eq; FD|56 => I32x4Ne; FD|57 => I32x4LtS; FD|58 => I32x4LtU; FD|59 => I32x4GtS; FD|60 => I32x4GtU;
        FD|61 => I32x4LeS; FD|62 => I32x4LeU; FD|63 => I32x4GeS; FD|64 => I32x4GeU;
        FD|65 => F32x4Eq; FD|66 => F32x4Ne; FD|67 => F32x4Lt; FD|68 => F32x4Gt; FD|69 => F32x4Le; FD|70 => F32x4Ge;
        FD|71 => F64x2Eq; FD|72 => F64x2Ne; FD|73 => F64x2Lt; FD|74 => F64x2Gt; FD|75 => F64x2Le; FD|76 => F64x2Ge;
        FD|77 => V128Not; FD|78 => V128And; FD|79 => V128AndNot; FD|80 => V128Or; FD|81 => V128Xor; FD|82 => V128Bitselect; FD|83 => V128AnyTrue;
        FD|94 => F32x4DemoteF64x2Zero; FD|95 => F64x2PromoteLowF32x4;
        FD|96 => I8x16Abs; FD|97 => I8x16Neg; FD|98 => I8x16Popcnt; FD|99 => I8x16AllTrue; FD|100 => I8x16Bitmask;
        FD|101 => I8x16NarrowI16x8S; FD|102 => I8x16NarrowI16x8U;
        FD|103 => F32x4Ceil; FD|104 => F32x4Floor; FD|105 => F32x4Trunc; FD|106 => F32x4Nearest;
        FD|107 => I8x16Shl; FD|108 => I8x16ShrS; FD|109 => I8x16ShrU; FD|110 => I8x16Add; FD|111 => I8x16AddSatS; FD|112 => I8x16AddSatU;
        FD|113 => I8x16Sub; FD|114 => I8x16SubSatS; FD|115 => I8x16SubSatU;
        FD|116 => F64x2Ceil; FD|117 => F64x2Floor;
        FD|118 => I8x16MinS; FD|119 => I8x16MinU; FD|120 => I8x16MaxS; FD|121 => I8x16MaxU;
        FD|122 => F64x2Trunc; FD|123 => I8x16AvgrU;
        FD|124 => I16x8ExtaddPairwiseI8x16S; FD|125 => I16x8ExtaddPairwiseI8x16U;
        FD|126 => I32x4ExtaddPairwiseI16x8S; FD|127 => I32x4ExtaddPairwiseI16x8U;
        FD|128 => I16x8Abs; FD|129 => I16x8Neg; FD|130 => I16x8Q15MulrSatS; FD|131 => I16x8AllTrue; FD|132 => I16x8Bitmask;
        FD|133 => I16x8NarrowI32x4S; FD|134 => I16x8NarrowI32x4U; FD|135 => I16x8ExtendLowI8x16S; FD|136 => I16x8ExtendHighI8x16S;
        FD|137 => I16x8ExtendLowI8x16U; FD|138 => I16x8ExtendHighI8x16U; FD|139 => I16x8Shl; FD|140 => I16x8ShrS; FD|141 => I16x8ShrU;
        FD|142 => I16x8Add; FD|143 => I16x8AddSatS; FD|144 => I16x8AddSatU; FD|145 => I16x8Sub; FD|146 => I16x8SubSatS; FD|147 => I16x8SubSatU;
        FD|148 => F64x2Nearest; FD|149 => I16x8Mul; FD|150 => I16x8MinS; FD|151 => I16x8MinU; FD|152 => I16x8MaxS; FD|153 => I16x8MaxU;
        FD|155 => I16x8AvgrU; FD|156 => I16x8ExtmulLowI8x16S; FD|157 => I16x8ExtmulHighI8x16S; FD|158 => I16x8ExtmulLowI8x16U; FD|159 => I16x8ExtmulHighI8x16U;
        FD|160 => I32x4Abs; FD|161 => I32x4Neg; FD|163 => I32x4AllTrue; FD|164 => I32x4Bitmask;
        FD|167 => I32x4ExtendLowI16x8S; FD|168 => I32x4ExtendHighI16x8S; FD|169 => I32x4ExtendLowI16x8U; FD|170 => I32x4ExtendHighI16x8U;
        FD|171 => I32x4Shl; FD|172 => I32x4ShrS; FD|173 => I32x4ShrU; FD|174 => I32x4Add; FD|177 => I32x4Sub; FD|181 => I32x4Mul;
        FD|182 => I32x4MinS; FD|183 => I32x4MinU; FD|184 => I32x4MaxS; FD|185 => I32x4MaxU; FD|186 => I32x4DotI16x8S;
        FD|188 => I32x4ExtmulLowI16x8S; FD|189 => I32x4ExtmulHighI16x8S; FD|190 => I32x4ExtmulLowI16x8U; FD|191 => I32x4ExtmulHighI16x8U;
        FD|192 => I64x2Abs; FD|193 => I64x2Neg; FD|195 => I64x2AllTrue; FD|196 => I64x2Bitmask;
        FD|199 => I64x2ExtendLowI32x4S; FD|200 => I64x2ExtendHighI32x4S; FD|201 => I64x2ExtendLowI32x4U; FD|202 => I64x2ExtendHighI32x4U;
        FD|203 => I64x2Shl; FD|204 => I64x2ShrS; FD|205 => I64x2ShrU; FD|206 => I64x2Add; FD|209 => I64x2Sub; FD|213 => I64x2Mul;
        FD|214 => I64x2Eq; FD|215 => I64x2Ne; FD|216 => I64x2LtS; FD|217 => I64x2GtS; FD|218 => I64x2LeS; FD|219 => I64x2GeS;
        FD|220 => I64x2ExtmulLowI32x4S; FD|221 => I64x2ExtmulHighI32x4S; FD|222 => I64x2ExtmulLowI32x4U; FD|223 => I64x2ExtmulHighI32x4U;
        FD|224 => F32x4Abs; FD|225 => F32x4Neg; FD|227 => F32x4Sqrt; FD|228 => F32x4Add; FD|229 => F32x4Sub; FD|230 => F32x4Mul; FD|231 => F32x4Div;
        FD|232 => F32x4Min; FD|233 => F32x4Max; FD|234 => F32x4PMin; FD|235 => F32x4PMax;
        FD|236 => F64x2Abs; FD|237 => F64x2Neg; FD|239 => F64x2Sqrt; FD|240 => F64x2Add; FD|241 => F64x2Sub; FD|242 => F64x2Mul; FD|243 => F64x2Div;
        FD|244 => F64x2Min; FD|245 => F64x2Max; FD|246 => F64x2PMin; FD|247 => F64x2PMax;
        FD|248 => I32x4TruncSatF32x4S; FD|249 => I32x4TruncSatF32x4U; FD|250 => F32x4ConvertI32x4S; FD|251 => F32x4ConvertI32x4U;
        FD|252 => I32x4TruncSatF64x2SZero; FD|253 => I32x4TruncSatF64x2UZero; FD|254 => F64x2ConvertLowI32x4S; FD|255 => F64x2ConvertLowI32x4U;
        FD|256 => I8x16RelaxedSwizzle; FD|257 => I32x4RelaxedTruncF32x4S; FD|258 => I32x4RelaxedTruncF32x4U;
        FD|259 => I32x4RelaxedTruncF64x2SZero; FD|260 => I32x4RelaxedTruncF64x2UZero;
        FD|261 => F32x4RelaxedMAdd; FD|262 => F32x4RelaxedNMAdd; FD|263 => F64x2RelaxedMAdd; FD|264 => F64x2RelaxedNMAdd;
        FD|265 => I8x16RelaxedLaneSelect; FD|266 => I16x8RelaxedLaneSelect; FD|267 => I32x4RelaxedLaneSelect; FD|268 => I64x2RelaxedLaneSelect;
        FD|269 => F32x4RelaxedMin; FD|270 => F32x4RelaxedMax; FD|271 => F64x2RelaxedMin; FD|272 => F64x2RelaxedMax;
        FD|273 => I16x8RelaxedQ15MulrS; FD|274 => I16x8RelaxedDotSI8x16; FD|275 => I32x4RelaxedDotAddSI16x8;
    }
    i1 {
        0x08 => Throw(TagIdx); 0x0C => Br(LabelIdx); 0x0D => BrIf(LabelIdx);
        0x10 => Call(FuncIdx); 0x12 => ReturnCall(FuncIdx); 0x14 => CallRef(TypeIdx); 0x15 => ReturnCallRef(TypeIdx);
        0x20 => LocalGet(LocalIdx); 0x21 => LocalSet(LocalIdx); 0x22 => LocalTee(LocalIdx);
        0x23 => GlobalGet(GlobalIdx); 0x24 => GlobalSet(GlobalIdx);
        0x25 => TableGet(TableIdx); 0x26 => TableSet(TableIdx);
        0x3F => MemorySize(MemIdx); 0x40 => MemoryGrow(MemIdx);
        0xD2 => RefFunc(FuncIdx); 0xD5 => BrOnNull(LabelIdx); 0xD6 => BrOnNonNull(LabelIdx);
        FB|0 => StructNew(TypeIdx); FB|1 => StructNewDefault(TypeIdx);
        FB|6 => ArrayNew(TypeIdx); FB|7 => ArrayNewDefault(TypeIdx);
        FB|11 => ArrayGet(TypeIdx); FB|12 => ArrayGetS(TypeIdx); FB|13 => ArrayGetU(TypeIdx); FB|14 => ArraySet(TypeIdx);
        FB|16 => ArrayFill(TypeIdx);
        FC|9 => DataDrop(DataIdx); FC|11 => MemoryFill(MemIdx); FC|13 => ElemDrop(ElemIdx);
        FC|15 => TableGrow(TableIdx); FC|16 => TableSize(TableIdx); FC|17 => TableFill(TableIdx);
    }
    i2 {
        0x11 => CallIndirect(TableIdx, TypeIdx) I2Swap;
        0x13 => ReturnCallIndirect(TableIdx, TypeIdx) I2Swap;
        FB|2 => StructGet(TypeIdx, u32) I2; FB|3 => StructGetS(TypeIdx, u32) I2;
        FB|4 => StructGetU(TypeIdx, u32) I2; FB|5 => StructSet(TypeIdx, u32) I2;
        FB|8 => ArrayNewFixed(TypeIdx, u32) I2; FB|9 => ArrayNewData(TypeIdx, DataIdx) I2;
        FB|10 => ArrayNewElem(TypeIdx, ElemIdx) I2;
        FB|17 => ArrayCopy(TypeIdx, TypeIdx) I2; FB|18 => ArrayInitData(TypeIdx, DataIdx) I2;
        FB|19 => ArrayInitElem(TypeIdx, ElemIdx) I2;
        FC|8 => MemoryInit(MemIdx, DataIdx) I2Swap; FC|10 => MemoryCopy(MemIdx, MemIdx) I2;
        FC|12 => TableInit(TableIdx, ElemIdx) I2Swap; FC|14 => TableCopy(TableIdx, TableIdx) I2;
    }
    mem {
        0x28 => I32Load; 0x29 => I64Load; 0x2A => F32Load; 0x2B => F64Load;
        0x2C => I32Load8s; 0x2D => I32Load8u; 0x2E => I32Load16s; 0x2F => I32Load16u;
        0x30 => I64Load8s; 0x31 => I64Load8u; 0x32 => I64Load16s; 0x33 => I64Load16u; 0x34 => I64Load32s; 0x35 => I64Load32u;
        0x36 => I32Store; 0x37 => I64Store; 0x38 => F32Store; 0x39 => F64Store;
        0x3A => I32Store8; 0x3B => I32Store16; 0x3C => I64Store8; 0x3D => I64Store16; 0x3E => I64Store32;
        FD|0 => V128Load; FD|1 => V128Load8x8S; FD|2 => V128Load8x8U; FD|3 => V128Load16x4S; FD|4 => V128Load16x4U;
        FD|5 => V128Load32x2S; FD|6 => V128Load32x2U; FD|7 => V128Load8Splat; FD|8 => V128Load16Splat;
        FD|9 => V128Load32Splat; FD|10 => V128Load64Splat; FD|11 => V128Store;
        FD|92 => V128Load32Zero; FD|93 => V128Load64Zero;
    }
    memlane {
        FD|84 => V128Load8Lane; FD|85 => V128Load16Lane; FD|86 => V128Load32Lane; FD|87 => V128Load64Lane;
        FD|88 => V128Store8Lane; FD|89 => V128Store16Lane; FD|90 => V128Store32Lane; FD|91 => V128Store64Lane;
    }
    lane {
        FD|21 => I8x16ExtractLaneS; FD|22 => I8x16ExtractLaneU; FD|23 => I8x16ReplaceLane;
        FD|24 => I16x8ExtractLaneS; FD|25 => I16x8ExtractLaneU; FD|26 => I16x8ReplaceLane;
        FD|27 => I32x4ExtractLane; FD|28 => I32x4ReplaceLane; FD|29 => I64x2ExtractLane; FD|30 => I64x2ReplaceLane;
        FD|31 => F32x4ExtractLane; FD|32 => F32x4ReplaceLane; FD|33 => F64x2ExtractLane; FD|34 => F64x2ReplaceLane;
    }
}

pub static SPECIAL: &[Op] = &[
    Op { op: 0x02, sh: Sh::Block, name: "Block" },
    Op { op: 0x03, sh: Sh::Block, name: "Loop" },
    Op { op: 0x04, sh: Sh::If, name: "If" },
    Op { op: 0x1F, sh: Sh::Try, name: "TryTable" },
    Op { op: 0x0E, sh: Sh::BrTable, name: "BrTable" },
    Op { op: 0x1B, sh: Sh::Plain, name: "Select" },
    Op { op: 0x1C, sh: Sh::SelT, name: "SelectT" },
    Op { op: 0x41, sh: Sh::I32, name: "I32Const" },
    Op { op: 0x42, sh: Sh::I64, name: "I64Const" },
    Op { op: 0x43, sh: Sh::F32, name: "F32Const" },
    Op { op: 0x44, sh: Sh::F64, name: "F64Const" },
    Op { op: 0xD0, sh: Sh::Ht, name: "RefNull" },
    Op { op: FB | 20, sh: Sh::Ht, name: "RefTest" },
    Op { op: FB | 21, sh: Sh::Ht, name: "RefTestNull" },
    Op { op: FB | 22, sh: Sh::Ht, name: "RefCast" },
    Op { op: FB | 23, sh: Sh::Ht, name: "RefCastNull" },
    Op { op: FB | 24, sh: Sh::BrCast, name: "BrOnCast" },
    Op { op: FB | 25, sh: Sh::BrCast, name: "BrOnCastFail" },
    Op { op: FD | 12, sh: Sh::V128, name: "V128Const" },
    Op { op: FD | 13, sh: Sh::Shuf, name: "I8x16Shuffle" },
];

/// Convert a decoded instruction.
pub fn ins(i: &I) -> Ins {
    if let Some(x) = regular(i) {
        return x;
    }
    let lanes = |l: &[LaneIdx; 16]| -> [u8; 16] { std::array::from_fn(|k| l[k].0) };
    let (op, imm) = match i {
        I::Block(b, e) => (0x02, Imm::Block(conv::bt(b), expr(e))),
        I::Loop(b, e) => (0x03, Imm::Block(conv::bt(b), expr(e))),
        I::If(b, x, y) => (0x04, Imm::If(conv::bt(b), expr(x), y.as_ref().map(|y| expr(y)))),
        I::TryTable(b, c, e) => {
            (0x1F, Imm::Try(conv::bt(b), c.iter().map(conv::catch).collect(), expr(e)))
        }
        I::BrTable(l, d) => (0x0E, Imm::BrTable(l.iter().map(|x| x.0).collect(), d.0)),
        I::Select(None) => (0x1B, Imm::None),
        I::Select(Some(v)) => (0x1C, Imm::SelT(v.iter().map(conv::vt).collect())),
        I::I32Const(v) => (0x41, Imm::I32(*v)),
        I::I64Const(v) => (0x42, Imm::I64(*v)),
        I::F32Const(v) => (0x43, Imm::F32(v.to_bits())),
        I::F64Const(v) => (0x44, Imm::F64(v.to_bits())),
        I::RefNull(h) => (0xD0, Imm::Ht(conv::ht(h))),
        I::RefTest(r) => (FB | if r.nullable { 21 } else { 20 }, Imm::Ht(conv::ht(&r.ht))),
        I::RefCast(r) => (FB | if r.nullable { 23 } else { 22 }, Imm::Ht(conv::ht(&r.ht))),
        I::BrOnCast(l, a, b) => (FB | 24, Imm::BrCast(l.0, conv::rt(a), conv::rt(b))),
        I::BrOnCastFail(l, a, b) => (FB | 25, Imm::BrCast(l.0, conv::rt(a), conv::rt(b))),
        I::V128Const(b) => (FD | 12, Imm::V128(*b)),
        I::I8x16Shuffle(l) => (FD | 13, Imm::Shuf(lanes(l))),
        other => panic!("harness: instruction without an entry in the opcode table: {other:?}"),
    };
    Ins { op, imm }
}

pub fn expr(e: &[I]) -> Expr {
    e.iter().map(ins).collect()
}

pub struct Tables {
    one: [Option<Sh>; 256],
    sub: [Vec<Option<Sh>>; 3],
    pub all: Vec<(u32, Sh, &'static str)>,
}

pub fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables {
            one: [None; 256],
            sub: std::array::from_fn(|_| vec![None; 300]),
            all: vec![],
        };
        for o in REGULAR.iter().chain(SPECIAL) {
            let slot = match o.op >> 16 {
                0 => &mut t.one[o.op as usize],
                p => &mut t.sub[(p - 0xFB) as usize][(o.op & 0xFFFF) as usize],
            };
            assert!(slot.is_none(), "duplicate opcode {:#x}", o.op);
            *slot = Some(o.sh);
            t.all.push((o.op, o.sh, o.name));
        }
        t
    })
}

pub fn shape1(b: u8) -> Option<Sh> {
    tables().one[b as usize]
}

pub fn shape_sub(prefix: u8, sub: u32) -> Option<Sh> {
    tables().sub[(prefix - 0xFB) as usize].get(sub as usize).copied().flatten()
}
