//! Generators of modules. They produce well-formed modules by construction; indices and types are
//! arbitrary, since the decoder does not validate.
use crate::ast::*;
use crate::ops::{self, Sh};
use crate::tape::{Big, Rng, Tape};

#[derive(Clone)]
pub struct Prof {
    /// weight of long lists
    pub big: Big,
    /// the most list items in a module
    pub items: i64,
    /// chance out of 100 of each section (by id); customs: of one in each gap
    pub sec: [u64; 14],
    /// most instructions of a sequence, deepest nesting
    pub ins: usize,
    pub depth: usize,
    /// chance out of 100 of a structured instruction
    pub nest: u64,
    /// restrict instructions to these (indices into `ops::tables().all`)
    pub only: Option<Vec<u32>>,
    /// the most bytes of one data segment, name or custom section
    pub bytes: usize,
    /// the most locals of a module
    pub locals: u64,
    /// chance out of 100 that an instruction of a body is one that uses a data index
    pub data_ops: u64,
}

pub fn small() -> Prof {
    Prof {
        big: Big::No,
        items: 60,
        sec: [12, 35, 30, 40, 30, 30, 30, 30, 25, 30, 40, 30, 30, 25],
        ins: 5,
        depth: 3,
        nest: 15,
        only: None,
        bytes: 40,
        locals: 200,
        data_ops: 2,
    }
}

pub fn medium() -> Prof {
    Prof {
        big: Big::Some,
        items: 600,
        ins: 12,
        depth: 5,
        bytes: 3000,
        locals: 5000,
        ..small()
    }
}

pub fn large() -> Prof {
    Prof { big: Big::Often, items: 6000, bytes: 1 << 18, locals: 200_000, ins: 30, ..medium() }
}

/// The instructions that need a data count.
const DATA_OPS: [u32; 4] = [0xFC0008, 0xFC0009, 0xFB0009, 0xFB0012];

fn shape(op: u32) -> Sh {
    match op >> 16 {
        0 => ops::shape1(op as u8),
        p => ops::shape_sub(p as u8, op & 0xFFFF),
    }
    .unwrap()
}

/// Only the given sections (plus what they require), each likely.
pub fn focus(p: Prof, ids: &[u8]) -> Prof {
    let mut sec = [4u64; 14];
    for i in ids {
        sec[*i as usize] = 90;
    }
    Prof { sec, ..p }
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub p: Prof,
}

const ABS: [u8; 12] = [0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74];

const NAMES: &[&str] = &[
    "", "a", "name", "env", "memory", "producers", "target_features", ".debug_info", "linking",
    "dylink.0", "sourceMappingURL", "_start", "wasi_snapshot_preview1", "spectest", "é", "日本語",
    "\u{10FFFF}", "\u{0}", "a\u{0}b", "\u{FEFF}bom", "\u{FFFD}", "\u{D7FF}\u{E000}", " ", "\n",
    "func", "build_id", "external_debug_info", "\u{7F}\u{80}\u{7FF}\u{800}\u{FFFF}\u{10000}",
    "custom", "Name", "name ", "a/b", "\"quoted\"", "\\", "{}", "%s", "🦀",
];

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, p: Prof) -> Self {
        Gen { t, p }
    }

    fn n(&mut self) -> usize {
        let n = self.t.len(self.p.big).min(self.p.items.max(0) as usize);
        self.p.items -= n as i64;
        n
    }

    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.n();
        (0..n).map(|_| f(self)).collect()
    }

    pub fn blob(&mut self) -> Vec<u8> {
        let max = self.p.bytes;
        let n = match self.t.weighted(&[20, 6, 3, 2]) {
            0 => self.t.upto(12),
            1 => *self.t.pick(&[0, 1, 63, 64, 100, 126, 127, 128, 129, 255, 256, 257]),
            2 => *self.t.pick(&[
                511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383,
                16384, 16385,
            ]),
            _ => *self.t.pick(&[
                32767, 32768, 65535, 65536, 65537, 100_000, 131_071, 131_072, 131_073, 262_144,
                (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) - 1, 1 << 21, (1 << 21) + 1,
            ]),
        }
        .min(max);
        self.fill(n)
    }

    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        match self.t.below(4) {
            0 => vec![0; n],
            1 => vec![self.t.byte(); n],
            _ => {
                let mut r = Rng::new(self.t.below(1 << 32));
                (0..n).map(|_| r.next() as u8).collect()
            }
        }
    }

    pub fn ch(&mut self) -> char {
        let v = match self.t.below(6) {
            0 => 0x61 + self.t.below(26) as u32,
            1 => self.t.below(0x80) as u32,
            2 => 0x80 + self.t.below(0x780) as u32,
            3 => 0x800 + self.t.below(0xF800) as u32,
            4 => 0x10000 + self.t.below(0x10_0000) as u32,
            _ => *self.t.pick(&[
                0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF,
                0xFEFF, 0x3F, 0x110,
            ]),
        };
        char::from_u32(v).unwrap_or('\u{D7FF}')
    }

    pub fn name(&mut self) -> Vec<u8> {
        match self.t.weighted(&[10, 8, 2, 1]) {
            0 => self.t.pick(NAMES).as_bytes().to_vec(),
            1 => {
                let n = self.t.upto(8);
                (0..n).map(|_| self.ch()).collect::<String>().into_bytes()
            }
            2 => {
                let n = *self.t.pick(&[50, 63, 64, 126, 127, 128, 129, 200, 255, 256, 300]);
                let c = self.ch();
                // exactly n bytes
                let mut s = c.to_string().repeat(n / c.len_utf8());
                s.push_str(&"x".repeat(n % c.len_utf8()));
                s.truncate(n);
                let mut v = s.into_bytes();
                while v.len() < n {
                    v.push(b'x');
                }
                v
            }
            _ => {
                let n = (*self.t.pick(&[1000, 1023, 1024, 1025, 4096, 16383, 16384, 16385, 65535, 65536, 65537, 99_999, 100_000, 100_001]))
                    .min(self.p.bytes);
                let c = self.ch();
                c.to_string().repeat(n / c.len_utf8()).into_bytes()
            }
        }
    }

    pub fn ht(&mut self) -> Ht {
        if self.t.chance(1, 3) {
            Ht::Idx(self.t.u32())
        } else {
            Ht::Abs(Abs(*self.t.pick(&ABS)))
        }
    }
    pub fn rt(&mut self) -> Rt {
        Rt { null: !self.t.chance(1, 3), ht: self.ht() }
    }
    pub fn vt(&mut self) -> Vt {
        match self.t.below(7) {
            0 => Vt::Num(Num::I32),
            1 => Vt::Num(Num::I64),
            2 => Vt::Num(Num::F32),
            3 => Vt::Num(Num::F64),
            4 => Vt::V128,
            _ => Vt::Ref(self.rt()),
        }
    }
    fn ft(&mut self) -> Ft {
        let st = match self.t.below(5) {
            0 => St::I8,
            1 => St::I16,
            _ => St::V(self.vt()),
        };
        Ft { var: self.t.bool(), st }
    }
    fn ct(&mut self) -> Ct {
        match self.t.below(4) {
            0 => Ct::Struct(self.list(Self::ft)),
            1 => Ct::Array(self.ft()),
            _ => {
                let p = self.list(Self::vt);
                Ct::Func(p, self.list(Self::vt))
            }
        }
    }
    fn sub(&mut self) -> Sub {
        let (fin, sup) = match self.t.below(4) {
            0 | 1 => (true, vec![]),
            2 => (false, self.list(|g| g.t.u32())),
            _ => (true, self.list(|g| g.t.u32())),
        };
        Sub { fin, sup, ct: self.ct() }
    }
    pub fn rec(&mut self) -> Rec {
        if self.t.chance(1, 3) { Rec(self.list(Self::sub)) } else { Rec(vec![self.sub()]) }
    }
    pub fn lim(&mut self) -> Lim {
        let a64 = self.t.chance(1, 3);
        let min = if self.t.bool() { self.t.u64() } else { self.t.below(5) };
        let max = if self.t.bool() {
            Some(match self.t.below(4) {
                0 => min,
                1 => min.wrapping_add(self.t.below(4)),
                _ => self.t.u64(),
            })
        } else {
            None
        };
        Lim { a64, min, max }
    }
    pub fn tt(&mut self) -> Tt {
        Tt { rt: self.rt(), lim: self.lim() }
    }
    pub fn gt(&mut self) -> Gt {
        Gt { var: self.t.bool(), vt: self.vt() }
    }
    pub fn import(&mut self) -> Imp {
        let ext = match self.t.below(5) {
            0 => Ext::Func(self.t.u32()),
            1 => Ext::Table(self.tt()),
            2 => Ext::Mem(self.lim()),
            3 => Ext::Global(self.gt()),
            _ => Ext::Tag(self.t.u32()),
        };
        Imp { module: self.name(), item: self.name(), ext }
    }
    pub fn export(&mut self) -> Exp {
        Exp { name: self.name(), kind: self.t.below(5) as u8, idx: self.t.u32() }
    }
    pub fn table(&mut self) -> Table {
        let ty = self.tt();
        let init = match self.t.below(4) {
            0 | 1 => vec![Ins { op: 0xD0, imm: Imm::Ht(ty.rt.ht) }],
            2 => vec![Ins { op: 0xD0, imm: Imm::Ht(self.ht()) }],
            _ => self.const_expr(),
        };
        Table { ty, init }
    }
    pub fn global(&mut self) -> Global {
        Global { ty: self.gt(), init: self.const_expr() }
    }
    pub fn elem(&mut self) -> Elem {
        const FUNC: Ht = Ht::Abs(Abs(0x70));
        let rt = match self.t.below(4) {
            0 => Rt { null: false, ht: FUNC },
            1 => Rt { null: true, ht: FUNC },
            _ => self.rt(),
        };
        let plain = self.t.chance(2, 3);
        let init = if plain {
            self.list(|g| vec![Ins { op: 0xD2, imm: Imm::I1(g.t.u32()) }])
        } else {
            self.list(Self::const_expr)
        };
        let mode = match self.t.below(4) {
            0 => ElemMode::Passive,
            1 => ElemMode::Declare,
            2 => ElemMode::Active(0, self.const_expr()),
            _ => ElemMode::Active(self.t.u32(), self.const_expr()),
        };
        Elem { rt, init, mode }
    }
    pub fn data(&mut self) -> Data {
        let mode = match self.t.below(3) {
            0 => DataMode::Passive,
            1 => DataMode::Active(0, self.const_expr()),
            _ => DataMode::Active(self.t.u32(), self.const_expr()),
        };
        Data { init: self.blob(), mode }
    }

    /// An initialiser: mostly one constant instruction, sometimes anything.
    pub fn const_expr(&mut self) -> Expr {
        match self.t.weighted(&[10, 4, 3, 3]) {
            0 => vec![Ins { op: 0x41, imm: Imm::I32(self.t.sint(32) as i32) }],
            1 => vec![Ins { op: 0x42, imm: Imm::I64(self.t.sint(64)) }],
            2 => {
                let i = match self.t.below(6) {
                    0 => Ins { op: 0x23, imm: Imm::I1(self.t.u32()) },
                    1 => Ins { op: 0xD2, imm: Imm::I1(self.t.u32()) },
                    2 => Ins { op: 0xD0, imm: Imm::Ht(self.ht()) },
                    3 => Ins { op: 0x43, imm: Imm::F32(self.f32()) },
                    4 => Ins { op: 0x44, imm: Imm::F64(self.f64()) },
                    _ => Ins { op: 0xFD000C, imm: Imm::V128(self.b16()) },
                };
                vec![i]
            }
            _ => self.expr(),
        }
    }

    pub fn f32(&mut self) -> u32 {
        match self.t.below(4) {
            0 => *self.t.pick(&[
                0, 0x8000_0000, 0x3F80_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000,
                0x7F80_0001, 0xFF80_0001, 0x7FBF_FFFF, 0x7FFF_FFFF, 0xFFFF_FFFF, 1, 0x007F_FFFF,
                0x0080_0000, 0x7F7F_FFFF, 0x7FA0_0000, 0x7FC1_2345, 0xFFA5_A5A5,
            ]),
            // NaNs with an arbitrary payload
            1 => 0x7F80_0000 | (self.t.below(1 << 23) as u32) | (self.t.below(2) as u32) << 31,
            _ => self.t.below(1 << 32) as u32,
        }
    }
    pub fn f64(&mut self) -> u64 {
        match self.t.below(4) {
            0 => *self.t.pick(&[
                0, 1 << 63, 0x3FF0_0000_0000_0000, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000,
                0x7FF8_0000_0000_0000, 0xFFF8_0000_0000_0000, 0x7FF0_0000_0000_0001,
                0xFFF0_0000_0000_0001, 0x7FF7_FFFF_FFFF_FFFF, 0x7FFF_FFFF_FFFF_FFFF, u64::MAX, 1,
                0x000F_FFFF_FFFF_FFFF, 0x7FF4_0000_0000_0000, 0x7FF8_0000_DEAD_BEEF,
            ]),
            1 => 0x7FF0_0000_0000_0000 | self.t.below(1 << 52) | self.t.below(2) << 63,
            _ => self.t.raw(),
        }
    }
    pub fn b16(&mut self) -> [u8; 16] {
        match self.t.below(3) {
            0 => std::array::from_fn(|i| i as u8),
            1 => [self.t.byte(); 16],
            _ => {
                let (a, b) = (self.t.raw(), self.t.raw());
                (u128::from(a) | u128::from(b) << 64).to_le_bytes()
            }
        }
    }
    pub fn memarg(&mut self) -> Memarg {
        Memarg {
            mem: if self.t.chance(1, 2) { self.t.u32() } else { 0 },
            align: self.t.below(64) as u32,
            offset: self.t.u64(),
        }
    }
    pub fn bt(&mut self) -> Bt {
        match self.t.below(3) {
            0 => Bt::Empty,
            1 => Bt::Val(self.vt()),
            _ => Bt::Idx(self.t.u32()),
        }
    }
    fn catch(&mut self) -> Catch {
        match self.t.below(4) {
            0 => Catch::All(self.t.u32()),
            1 => Catch::AllRef(self.t.u32()),
            2 => Catch::Catch(self.t.u32(), self.t.u32()),
            _ => Catch::Ref(self.t.u32(), self.t.u32()),
        }
    }

    pub fn expr(&mut self) -> Expr {
        self.seq(0)
    }

    fn seq(&mut self, depth: usize) -> Expr {
        let most = self.p.ins.min(self.p.items.max(0) as usize);
        let n = self.t.upto(most);
        self.p.items -= n as i64;
        (0..n).map(|_| self.ins(depth)).collect()
    }

    pub fn ins(&mut self, depth: usize) -> Ins {
        let deep = depth >= self.p.depth;
        if !deep && self.t.chance(self.p.nest, 100) {
            let op = *self.t.pick(&[0x02, 0x03, 0x04, 0x1F]);
            return self.ins_of(op, depth);
        }
        if self.p.data_ops > 0 && self.t.chance(self.p.data_ops, 100) {
            let op = *self.t.pick(&DATA_OPS);
            return self.ins_of(op, depth);
        }
        let all = &ops::tables().all;
        loop {
            let op = match &self.p.only {
                Some(v) => *self.t.pick(&v.clone()),
                None => all[self.t.below(all.len() as u64) as usize].0,
            };
            if (deep && matches!(op, 0x02..=0x04 | 0x1F))
                || (self.p.data_ops == 0
                    && DATA_OPS.contains(&op))
            {
                return Ins { op: 0x01, imm: Imm::None };
            }
            return self.ins_of(op, depth);
        }
    }

    pub fn ins_of(&mut self, op: u32, depth: usize) -> Ins {
        let imm = match shape(op) {
            Sh::Plain => Imm::None,
            Sh::I1 => Imm::I1(self.t.u32()),
            Sh::I2 | Sh::I2Swap => Imm::I2(self.t.u32(), self.t.u32()),
            Sh::Mem => Imm::Mem(self.memarg()),
            Sh::MemLane => Imm::MemLane(self.memarg(), self.t.byte()),
            Sh::Lane => Imm::Lane(self.t.byte()),
            Sh::I32 => Imm::I32(self.t.sint(32) as i32),
            Sh::I64 => Imm::I64(self.t.sint(64)),
            Sh::F32 => Imm::F32(self.f32()),
            Sh::F64 => Imm::F64(self.f64()),
            Sh::V128 => Imm::V128(self.b16()),
            Sh::Shuf => Imm::Shuf(self.b16()),
            Sh::BrTable => Imm::BrTable(self.list(|g| g.t.u32()), self.t.u32()),
            Sh::SelT => Imm::SelT(self.list(Self::vt)),
            Sh::Block => Imm::Block(self.bt(), self.seq(depth + 1)),
            Sh::If => {
                let bt = self.bt();
                let a = self.seq(depth + 1);
                let b = match self.t.below(3) {
                    0 => None,
                    1 => Some(self.seq(depth + 1)),
                    _ => Some(vec![]),
                };
                Imm::If(bt, a, b)
            }
            Sh::Try => {
                let bt = self.bt();
                let c = self.list(Self::catch);
                Imm::Try(bt, c, self.seq(depth + 1))
            }
            Sh::Ht => Imm::Ht(self.ht()),
            Sh::BrCast => Imm::BrCast(self.t.u32(), self.rt(), self.rt()),
        };
        Ins { op, imm }
    }

    pub fn locals(&mut self) -> Vec<(u32, Vt)> {
        let mut prev = None;
        let mut runs = vec![];
        let n = self.n();
        for _ in 0..n {
            let c = match self.t.weighted(&[12, 3, 3, 1]) {
                0 => self.t.below(4),
                1 => 0,
                2 => *self.t.pick(&[7, 15, 16, 63, 64, 100, 127, 128, 129, 255, 256, 1000]),
                _ => *self.t.pick(&[16383, 16384, 49_999, 50_000, 50_001, 65535, 65536, 65537]),
            }
            .min(self.p.locals);
            self.p.locals -= c;
            // sometimes the same type again, so that runs could be merged
            let ty = match prev {
                Some(p) if self.t.chance(1, 3) => p,
                _ => self.vt(),
            };
            prev = Some(ty);
            runs.push((c as u32, ty));
        }
        runs
    }

    pub fn code(&mut self) -> Code {
        Code { locals: self.locals(), body: self.expr() }
    }

    pub fn custom(&mut self) -> Sec {
        Sec::Custom(self.name(), self.blob())
    }

    /// The sections of a well-formed module.
    pub fn module(&mut self) -> Vec<Sec> {
        let has: Vec<bool> = (0..14)
            .map(|i| {
                let p = self.p.sec[i];
                self.t.chance(p, 100)
            })
            .collect();
        let mut secs = vec![];
        let mut funcs = 0;
        let mut code_secs: Vec<Code> = vec![];
        let mut datas: Option<Vec<Data>> = None;
        if has[3] || has[10] {
            // both sections, unless there is nothing to pair
            funcs = self.n();
            code_secs = (0..funcs).map(|_| self.code()).collect();
        }
        if has[11] {
            datas = Some(self.list(Self::data));
        }
        let needs = code_secs.iter().any(|c| has_data_idx(&c.body));
        let ndata = datas.as_ref().map_or(0, Vec::len);
        // without data segments the count can only be 0, and stand without a data section
        let count = (needs || has[12]).then_some(ndata as u32);
        for id in [1u8, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11] {
            self.gap(&mut secs);
            let s = match id {
                3 => {
                    if funcs == 0 && !has[3] {
                        continue;
                    }
                    let n = funcs;
                    Sec::Function((0..n).map(|_| self.t.u32()).collect())
                }
                10 => {
                    if funcs == 0 && !has[10] {
                        continue;
                    }
                    Sec::Code(std::mem::take(&mut code_secs))
                }
                11 => match datas.take() {
                    Some(d) => Sec::Data(d),
                    None => continue,
                },
                12 => match count {
                    Some(n) => Sec::DataCount(n),
                    None => continue,
                },
                _ if !has[id as usize] => continue,
                1 => Sec::Type(self.list(Self::rec)),
                2 => Sec::Import(self.list(Self::import)),
                4 => Sec::Table(self.list(Self::table)),
                5 => Sec::Memory(self.list(Self::lim)),
                13 => Sec::Tag(self.list(|g| g.t.u32())),
                6 => Sec::Global(self.list(Self::global)),
                7 => Sec::Export(self.list(Self::export)),
                8 => Sec::Start(self.t.u32()),
                9 => Sec::Element(self.list(Self::elem)),
                _ => unreachable!(),
            };
            secs.push(s);
        }
        self.gap(&mut secs);
        secs
    }

    fn gap(&mut self, secs: &mut Vec<Sec>) {
        for _ in 0..3 {
            if !self.t.chance(self.p.sec[0], 100) {
                break;
            }
            let c = self.custom();
            secs.push(c);
        }
    }
}

pub fn module(t: &mut Tape, p: Prof) -> Vec<Sec> {
    let mut g = Gen::new(t, p);
    let mut secs = g.module();
    // entries that resemble each other
    if g.t.chance(1, 3) {
        for _ in 0..g.t.range(1, 3) {
            g.echo(&mut secs);
        }
    }
    secs
}

/// One well-formed variation of a well-formed module.
pub fn vary(secs: &mut Vec<Sec>, t: &mut Tape) {
    Gen::new(t, small()).vary(secs);
}

// Variations: each changes at most one thing of an entry.
impl Gen<'_> {
    fn one_of<T>(&mut self, v: &mut [T], f: impl FnOnce(&mut Self, &mut T)) {
        if !v.is_empty() {
            let i = self.t.below(v.len() as u64) as usize;
            f(self, &mut v[i]);
        }
    }

    /// Repeat an entry, mostly right after itself, mostly with a change.
    fn near<T: Clone>(&mut self, v: &mut Vec<T>, f: impl FnOnce(&mut Self, &mut T)) {
        if v.is_empty() {
            return;
        }
        let i = self.t.below(v.len() as u64) as usize;
        let mut c = v[i].clone();
        if self.t.chance(3, 4) {
            f(self, &mut c);
        }
        let at = if self.t.chance(2, 3) { i + 1 } else { self.t.upto(v.len()) };
        v.insert(at, c);
    }

    /// Remove, exchange, repeat or change an entry.
    fn edit<T: Clone>(&mut self, v: &mut Vec<T>, f: impl FnOnce(&mut Self, &mut T)) {
        if v.is_empty() {
            return;
        }
        let i = self.t.below(v.len() as u64) as usize;
        match self.t.below(6) {
            0 => {
                v.remove(i);
            }
            1 => {
                let j = (i + 1) % v.len();
                v.swap(i, j);
            }
            2 => self.near(v, f),
            _ => f(self, &mut v[i]),
        }
    }

    fn v_u32(&mut self, x: &mut u32) {
        *x = match self.t.below(4) {
            0 => x.wrapping_add(1),
            1 => *x ^ (1 << self.t.below(32)),
            _ => self.t.u32(),
        };
    }
    fn v_idx(&mut self, x: &mut u32) {
        self.v_u32(x);
    }
    fn v_bytes(&mut self, v: &mut Vec<u8>) {
        match self.t.below(4) {
            0 => v.push(self.t.byte()),
            1 => {
                v.pop();
            }
            _ => self.one_of(v, |g, x| *x ^= 1 << g.t.below(8)),
        }
    }
    fn v_name(&mut self, v: &mut Vec<u8>) {
        match self.t.below(4) {
            0 => *v = self.name(),
            1 => v.push(b' ' + self.t.below(90) as u8),
            2 => {
                let mut s: Vec<char> = String::from_utf8(v.clone()).unwrap().chars().collect();
                s.pop();
                *v = s.into_iter().collect::<String>().into_bytes();
            }
            _ => {
                let mut s: Vec<char> = String::from_utf8(v.clone()).unwrap().chars().collect();
                self.one_of(&mut s, |g, x| *x = g.ch());
                *v = s.into_iter().collect::<String>().into_bytes();
            }
        }
    }
    fn v_ht(&mut self, h: &mut Ht) {
        *h = self.ht();
    }
    fn v_rt(&mut self, r: &mut Rt) {
        if self.t.bool() { r.null = !r.null } else { self.v_ht(&mut r.ht) }
    }
    fn v_vt(&mut self, v: &mut Vt) {
        match v {
            Vt::Ref(r) if self.t.bool() => self.v_rt(r),
            _ => *v = self.vt(),
        }
    }
    fn v_ft(&mut self, f: &mut Ft) {
        match &mut f.st {
            _ if self.t.bool() => f.var = !f.var,
            St::V(v) if self.t.bool() => self.v_vt(v),
            s => *s = self.ft().st,
        }
    }
    fn v_sub(&mut self, s: &mut Sub) {
        match self.t.below(6) {
            0 => s.fin = !s.fin,
            1 => self.edit(&mut s.sup, Self::v_idx),
            2 => s.ct = self.ct(),
            _ => match &mut s.ct {
                Ct::Struct(f) => self.edit(f, Self::v_ft),
                Ct::Array(f) => self.v_ft(f),
                Ct::Func(a, b) => {
                    let v = if self.t.bool() { a } else { b };
                    self.edit(v, Self::v_vt);
                }
            },
        }
    }
    fn v_rec(&mut self, r: &mut Rec) {
        self.edit(&mut r.0, Self::v_sub);
    }
    fn v_lim(&mut self, l: &mut Lim) {
        let n = self.lim();
        match self.t.below(3) {
            0 => l.a64 = !l.a64,
            1 => l.min = n.min,
            _ => l.max = n.max,
        }
    }
    fn v_tt(&mut self, t: &mut Tt) {
        if self.t.bool() { self.v_rt(&mut t.rt) } else { self.v_lim(&mut t.lim) }
    }
    fn v_gt(&mut self, g: &mut Gt) {
        if self.t.bool() { g.var = !g.var } else { self.v_vt(&mut g.vt) }
    }
    fn v_import(&mut self, i: &mut Imp) {
        match self.t.below(5) {
            0 => self.v_name(&mut i.module),
            1 => self.v_name(&mut i.item),
            2 => i.ext = self.import().ext,
            3 => std::mem::swap(&mut i.module, &mut i.item),
            _ => match &mut i.ext {
                Ext::Func(x) | Ext::Tag(x) => self.v_u32(x),
                Ext::Table(t) => self.v_tt(t),
                Ext::Mem(l) => self.v_lim(l),
                Ext::Global(g) => self.v_gt(g),
            },
        }
    }
    fn v_export(&mut self, e: &mut Exp) {
        match self.t.below(3) {
            0 => self.v_name(&mut e.name),
            1 => e.kind = (e.kind + 1) % 5,
            _ => self.v_u32(&mut e.idx),
        }
    }
    fn v_table(&mut self, t: &mut Table) {
        if self.t.bool() { self.v_tt(&mut t.ty) } else { self.v_expr(&mut t.init) }
    }
    fn v_global(&mut self, g: &mut Global) {
        if self.t.bool() { self.v_gt(&mut g.ty) } else { self.v_expr(&mut g.init) }
    }
    fn v_elem(&mut self, e: &mut Elem) {
        match self.t.below(4) {
            0 => self.v_rt(&mut e.rt),
            1 => self.edit(&mut e.init, Self::v_expr),
            2 => e.mode = self.elem().mode,
            _ => match &mut e.mode {
                ElemMode::Active(x, e) => {
                    if self.t.bool() { self.v_u32(x) } else { self.v_expr(e) }
                }
                m => *m = if matches!(m, ElemMode::Passive) { ElemMode::Declare } else { ElemMode::Passive },
            },
        }
    }
    fn v_data(&mut self, d: &mut Data) {
        match self.t.below(3) {
            0 => self.v_bytes(&mut d.init),
            1 => d.mode = self.data().mode,
            _ => match &mut d.mode {
                DataMode::Active(x, e) => {
                    if self.t.bool() { self.v_u32(x) } else { self.v_expr(e) }
                }
                DataMode::Passive => self.v_bytes(&mut d.init),
            },
        }
    }
    fn v_code(&mut self, c: &mut Code) {
        if self.t.chance(1, 4) {
            self.edit(&mut c.locals, |g, l| if g.t.bool() { l.0 = g.t.below(9) as u32 } else { g.v_vt(&mut l.1) });
        } else {
            self.v_expr(&mut c.body);
        }
    }
    fn v_expr(&mut self, e: &mut Expr) {
        self.edit(e, Self::v_ins);
    }
    fn v_catch(&mut self, c: &mut Catch) {
        *c = self.catch();
    }
    fn v_memarg(&mut self, m: &mut Memarg) {
        let n = self.memarg();
        match self.t.below(3) {
            0 => m.mem = n.mem,
            1 => m.align = n.align,
            _ => m.offset = n.offset,
        }
    }
    fn v_bt(&mut self, b: &mut Bt) {
        *b = self.bt();
    }
    fn v_ins(&mut self, i: &mut Ins) {
        let op = i.op;
        match &mut i.imm {
            m if !matches!(m, Imm::Block(..) | Imm::If(..) | Imm::Try(..)) && self.t.chance(1, 4) => {
                // another operation with the same immediates
                let sh = shape(op);
                let all = &ops::tables().all;
                let v: Vec<u32> = all.iter().filter(|o| o.1 == sh && !DATA_OPS.contains(&o.0)).map(|o| o.0).collect();
                if !v.is_empty() && !DATA_OPS.contains(&op) {
                    i.op = *self.t.pick(&v);
                }
            }
            _ if self.t.chance(1, 8) && self.p.data_ops > 0 => {
                // another instruction, though none that needs a data count
                let d = std::mem::take(&mut self.p.data_ops);
                *i = self.ins(9);
                self.p.data_ops = d;
            }
            Imm::I1(x) => self.v_u32(x),
            Imm::I2(x, y) => match self.t.below(3) {
                0 => self.v_u32(x),
                1 => self.v_u32(y),
                _ => std::mem::swap(x, y),
            },
            Imm::Mem(m) => self.v_memarg(m),
            Imm::MemLane(m, l) => {
                if self.t.bool() { self.v_memarg(m) } else { *l = self.t.byte() }
            }
            Imm::Lane(l) => *l = self.t.byte(),
            Imm::V128(b) | Imm::Shuf(b) => b[self.t.below(16) as usize] ^= 1 << self.t.below(8),
            Imm::F32(x) => *x ^= 1 << self.t.below(32),
            Imm::F64(x) => *x ^= 1 << self.t.below(64),
            Imm::BrTable(v, d) => {
                if self.t.chance(1, 3) { self.v_u32(d) } else { self.edit(v, Self::v_idx) }
            }
            Imm::SelT(v) => self.edit(v, Self::v_vt),
            Imm::Block(b, e) => {
                if self.t.chance(1, 4) { self.v_bt(b) } else { self.v_expr(e) }
            }
            Imm::If(b, x, y) => match self.t.below(5) {
                0 => self.v_bt(b),
                1 => *y = if y.is_some() { None } else { Some(vec![]) },
                2 => self.v_expr(x),
                _ => match y {
                    Some(y) => self.v_expr(y),
                    None => self.v_expr(x),
                },
            },
            Imm::Try(b, c, e) => match self.t.below(4) {
                0 => self.v_bt(b),
                1 => self.edit(c, Self::v_catch),
                _ => self.v_expr(e),
            },
            Imm::Ht(h) => self.v_ht(h),
            Imm::BrCast(l, a, b) => match self.t.below(4) {
                0 => self.v_u32(l),
                1 => self.v_rt(a),
                2 => self.v_rt(b),
                _ => std::mem::swap(a, b),
            },
            Imm::None | Imm::I32(_) | Imm::I64(_) => {
                let d = std::mem::take(&mut self.p.data_ops);
                *i = self.ins_of(op, 9);
                self.p.data_ops = d;
            }
        }
    }

    /// Instructions followed by similar ones.
    pub fn echo_expr(&mut self, e: &mut Expr) {
        self.near(e, Self::v_ins);
    }

    /// Repeat some entry with a variation.
    pub fn echo(&mut self, secs: &mut Vec<Sec>) {
        if secs.is_empty() {
            return;
        }
        let i = self.t.below(secs.len() as u64) as usize;
        let mut grown = None;
        match &mut secs[i] {
            Sec::Custom(n, c) => {
                let (mut n, mut c) = (n.clone(), c.clone());
                match self.t.below(3) {
                    0 => self.v_name(&mut n),
                    1 => self.v_bytes(&mut c),
                    _ => {}
                }
                let at = if self.t.chance(2, 3) { i + 1 } else { self.t.upto(secs.len()) };
                secs.insert(at, Sec::Custom(n, c));
            }
            Sec::Type(v) => {
                if self.t.bool() { self.near(v, Self::v_rec) } else { self.one_of(v, |g, r| g.near(&mut r.0, Self::v_sub)) }
            }
            Sec::Import(v) => self.near(v, Self::v_import),
            Sec::Table(v) => self.near(v, Self::v_table),
            Sec::Memory(v) => self.near(v, Self::v_lim),
            Sec::Global(v) => self.near(v, Self::v_global),
            Sec::Export(v) => self.near(v, Self::v_export),
            Sec::Element(v) => {
                if self.t.bool() {
                    self.near(v, Self::v_elem);
                } else {
                    self.one_of(v, |g, e| g.near(&mut e.init, Self::v_expr));
                }
            }
            Sec::Tag(v) => self.near(v, Self::v_idx),
            Sec::Data(v) => {
                let n = v.len();
                self.near(v, Self::v_data);
                if v.len() > n {
                    grown = Some(11);
                }
            }
            Sec::Function(_) | Sec::Start(_) | Sec::DataCount(_) => {}
            Sec::Code(v) => match self.t.below(3) {
                0 => {
                    let n = v.len();
                    self.near(v, Self::v_code);
                    if v.len() > n {
                        grown = Some(10);
                    }
                }
                1 => self.one_of(v, |g, c| g.near(&mut c.body, Self::v_ins)),
                _ => self.one_of(v, |g, c| g.near(&mut c.locals, |g, l| if g.t.bool() { l.0 = g.t.below(9) as u32 } else { g.v_vt(&mut l.1) })),
            },
        }
        // the other section that states the number of entries
        for s in secs {
            match s {
                Sec::Function(f) if grown == Some(10) => self.near(f, Self::v_idx),
                Sec::DataCount(n) if grown == Some(11) => *n += 1,
                _ => {}
            }
        }
    }

    fn vary(&mut self, secs: &mut Vec<Sec>) {
        if secs.is_empty() {
            return;
        }
        if self.t.chance(1, 5) {
            return self.echo(secs);
        }
        let i = self.t.below(secs.len() as u64) as usize;
        match &mut secs[i] {
            Sec::Custom(n, c) => {
                if self.t.chance(1, 3) { self.v_name(n) } else { self.v_bytes(c) }
            }
            Sec::Type(v) => self.edit(v, Self::v_rec),
            Sec::Import(v) => self.edit(v, Self::v_import),
            Sec::Table(v) => self.edit(v, Self::v_table),
            Sec::Memory(v) => self.edit(v, Self::v_lim),
            Sec::Global(v) => self.edit(v, Self::v_global),
            Sec::Export(v) => self.edit(v, Self::v_export),
            Sec::Element(v) => self.edit(v, Self::v_elem),
            Sec::Tag(v) => self.edit(v, Self::v_idx),
            Sec::Start(x) => self.v_u32(x),
            Sec::Function(v) => self.one_of(v, Self::v_idx),
            Sec::Code(v) => self.one_of(v, Self::v_code),
            Sec::Data(v) => self.one_of(v, Self::v_data),
            Sec::DataCount(_) => {}
        }
    }
}

/// A short description of the shape of a module, for samples and labels.
pub fn describe(secs: &[Sec]) -> String {
    secs.iter()
        .map(|s| {
            let n = match s {
                Sec::Custom(n, c) => {
                    return format!("custom({:?},{}B)", String::from_utf8_lossy(n).chars().take(20).collect::<String>(), c.len());
                }
                Sec::Type(x) => x.len(),
                Sec::Import(x) => x.len(),
                Sec::Function(x) => x.len(),
                Sec::Table(x) => x.len(),
                Sec::Memory(x) => x.len(),
                Sec::Global(x) => x.len(),
                Sec::Export(x) => x.len(),
                Sec::Start(_) => 1,
                Sec::Element(x) => x.len(),
                Sec::Code(x) => x.len(),
                Sec::Data(x) => x.len(),
                Sec::DataCount(n) => *n as usize,
                Sec::Tag(x) => x.len(),
            };
            format!("{}[{n}]", sec_name(s.id()))
        })
        .collect::<Vec<_>>()
        .join(" ")
}
