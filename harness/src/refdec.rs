//! Reference decoder: the binary grammar of WebAssembly 3.0 read off the specification, over a
//! slice. It shares no code with the decoder under test.
use crate::ast::*;
use crate::ops::{self, Sh};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    Syntax(String, usize),
    Cross(Cross),
}

pub struct Out {
    pub module: Result<Abst, Bad>,
    /// total number of locals declared by the function bodies that are well-formed
    pub locals: u64,
    /// deepest nesting of instructions seen
    pub depth: usize,
    /// sections completely decoded, and bytes consumed until the end or the error
    pub sections: usize,
    pub at: usize,
}

struct D<'a> {
    b: &'a [u8],
    p: usize,
    end: usize,
    locals: u64,
    depth: usize,
}

type R<T> = Result<T, Bad>;

/// Length of the UTF-8 encoded character at the start of `b` (Unicode, table 3-7), if well-formed.
fn utf8_char(b: &[u8]) -> Option<usize> {
    let cont = |i: usize, lo: u8, hi: u8| b.get(i).is_some_and(|x| (lo..=hi).contains(x));
    let ok = match *b.first()? {
        0x00..=0x7F => return Some(1),
        0xC2..=0xDF => return cont(1, 0x80, 0xBF).then_some(2),
        0xE0 => (cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF), 3),
        0xE1..=0xEC | 0xEE | 0xEF => (cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF), 3),
        0xED => (cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF), 3),
        0xF0 => (cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF), 4),
        0xF1..=0xF3 => (cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF), 4),
        0xF4 => (cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF), 4),
        _ => return None,
    };
    ok.0.then_some(ok.1)
}

pub fn utf8(mut b: &[u8]) -> bool {
    while !b.is_empty() {
        match utf8_char(b) {
            Some(n) => b = &b[n..],
            None => return false,
        }
    }
    true
}

/// Value and length of the LEB128 integer at the start of `b`; None if cut short.
pub fn leb(b: &[u8], bits: u32, signed: bool) -> Option<Result<(i128, usize), &'static str>> {
    let max = bits.div_ceil(7) as usize;
    let mut v: i128 = 0;
    for n in 0.. {
        if n == max {
            return Some(Err("too long"));
        }
        let x = *b.get(n)?;
        v |= i128::from(x & 0x7F) << (7 * n);
        if x & 0x80 == 0 {
            let width = 7 * (n as u32 + 1);
            if signed && x & 0x40 != 0 {
                v -= 1 << width;
            }
            let (lo, hi) = if signed {
                (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
            } else {
                (0, (1i128 << bits) - 1)
            };
            return Some(if v < lo || v > hi { Err("out of range") } else { Ok((v, n + 1)) });
        }
    }
    unreachable!()
}

impl D<'_> {
    fn bad<T>(&self, s: impl Into<String>) -> R<T> {
        Err(Bad::Syntax(s.into(), self.p))
    }
    fn byte(&mut self) -> R<u8> {
        if self.p >= self.end {
            return self.bad("unexpected end");
        }
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    fn peek(&self) -> Option<u8> {
        (self.p < self.end).then(|| self.b[self.p])
    }
    fn bytes(&mut self, n: usize) -> R<Vec<u8>> {
        if self.end - self.p < n {
            return self.bad("unexpected end");
        }
        self.p += n;
        Ok(self.b[self.p - n..self.p].to_vec())
    }
    fn leb(&mut self, bits: u32, signed: bool) -> R<i128> {
        match leb(&self.b[self.p..self.end], bits, signed) {
            None => self.bad("unexpected end in integer"),
            Some(Err(e)) => self.bad(e),
            Some(Ok((v, n))) => {
                self.p += n;
                Ok(v)
            }
        }
    }
    fn u32(&mut self) -> R<u32> {
        Ok(self.leb(32, false)? as u32)
    }
    fn u64(&mut self) -> R<u64> {
        Ok(self.leb(64, false)? as u64)
    }
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn name(&mut self) -> R<Vec<u8>> {
        let n = self.u32()? as usize;
        let b = self.bytes(n)?;
        if utf8(&b) { Ok(b) } else { self.bad("malformed UTF-8") }
    }
    fn type_s33(&mut self) -> R<u32> {
        let v = self.leb(33, true)?;
        if v < 0 { self.bad("negative type index") } else { Ok(v as u32) }
    }
    fn ht(&mut self) -> R<Ht> {
        match self.peek() {
            Some(b @ 0x69..=0x74) => {
                self.p += 1;
                Ok(Ht::Abs(Abs(b)))
            }
            _ => Ok(Ht::Idx(self.type_s33()?)),
        }
    }
    fn rt(&mut self) -> R<Rt> {
        match self.byte()? {
            0x63 => Ok(Rt { null: true, ht: self.ht()? }),
            0x64 => Ok(Rt { null: false, ht: self.ht()? }),
            b @ 0x69..=0x74 => Ok(Rt { null: true, ht: Ht::Abs(Abs(b)) }),
            _ => self.bad("reference type"),
        }
    }
    fn vt(&mut self) -> R<Vt> {
        let v = match self.peek() {
            Some(0x7F) => Vt::Num(Num::I32),
            Some(0x7E) => Vt::Num(Num::I64),
            Some(0x7D) => Vt::Num(Num::F32),
            Some(0x7C) => Vt::Num(Num::F64),
            Some(0x7B) => Vt::V128,
            _ => return Ok(Vt::Ref(self.rt()?)),
        };
        self.p += 1;
        Ok(v)
    }
    fn mutability(&mut self) -> R<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => self.bad("mutability"),
        }
    }
    fn ft(&mut self) -> R<Ft> {
        let st = match self.peek() {
            Some(0x78) => {
                self.p += 1;
                St::I8
            }
            Some(0x77) => {
                self.p += 1;
                St::I16
            }
            _ => St::V(self.vt()?),
        };
        Ok(Ft { st, var: self.mutability()? })
    }
    fn ct(&mut self) -> R<Ct> {
        match self.byte()? {
            0x5E => Ok(Ct::Array(self.ft()?)),
            0x5F => Ok(Ct::Struct(self.list(Self::ft)?)),
            0x60 => {
                let p = self.list(Self::vt)?;
                let r = self.list(Self::vt)?;
                Ok(Ct::Func(p, r))
            }
            _ => self.bad("composite type"),
        }
    }
    fn sub(&mut self) -> R<Sub> {
        match self.peek() {
            Some(b @ (0x4F | 0x50)) => {
                self.p += 1;
                let sup = self.list(Self::u32)?;
                Ok(Sub { fin: b == 0x4F, sup, ct: self.ct()? })
            }
            _ => Ok(Sub { fin: true, sup: vec![], ct: self.ct()? }),
        }
    }
    fn rec(&mut self) -> R<Rec> {
        if self.peek() == Some(0x4E) {
            self.p += 1;
            Ok(Rec(self.list(Self::sub)?))
        } else {
            Ok(Rec(vec![self.sub()?]))
        }
    }
    fn lim(&mut self) -> R<Lim> {
        let (a64, has_max) = match self.byte()? {
            0 => (false, false),
            1 => (false, true),
            4 => (true, false),
            5 => (true, true),
            _ => return self.bad("limits"),
        };
        let min = self.u64()?;
        let max = if has_max { Some(self.u64()?) } else { None };
        Ok(Lim { a64, min, max })
    }
    fn tt(&mut self) -> R<Tt> {
        Ok(Tt { rt: self.rt()?, lim: self.lim()? })
    }
    fn gt(&mut self) -> R<Gt> {
        Ok(Gt { vt: self.vt()?, var: self.mutability()? })
    }
    fn tag(&mut self) -> R<u32> {
        if self.byte()? != 0 {
            return self.bad("tag attribute");
        }
        self.u32()
    }
    fn import(&mut self) -> R<Imp> {
        let module = self.name()?;
        let item = self.name()?;
        let ext = match self.byte()? {
            0 => Ext::Func(self.u32()?),
            1 => Ext::Table(self.tt()?),
            2 => Ext::Mem(self.lim()?),
            3 => Ext::Global(self.gt()?),
            4 => Ext::Tag(self.tag()?),
            _ => return self.bad("import kind"),
        };
        Ok(Imp { module, item, ext })
    }
    fn export(&mut self) -> R<Exp> {
        let name = self.name()?;
        let kind = self.byte()?;
        if kind > 4 {
            return self.bad("export kind");
        }
        Ok(Exp { name, kind, idx: self.u32()? })
    }
    fn table(&mut self) -> R<Table> {
        if self.peek() == Some(0x40) {
            self.p += 1;
            if self.byte()? != 0 {
                return self.bad("table");
            }
            let ty = self.tt()?;
            Ok(Table { ty, init: self.expr()? })
        } else {
            let ty = self.tt()?;
            Ok(Table { ty, init: vec![Ins { op: 0xD0, imm: Imm::Ht(ty.rt.ht) }] })
        }
    }
    fn memarg(&mut self) -> R<Memarg> {
        let n = self.u32()?;
        let (mem, align) = match n {
            0..64 => (0, n),
            64..128 => (self.u32()?, n - 64),
            _ => return self.bad("memarg"),
        };
        Ok(Memarg { mem, align, offset: self.u64()? })
    }
    fn bt(&mut self) -> R<Bt> {
        match self.peek() {
            Some(0x40) => {
                self.p += 1;
                Ok(Bt::Empty)
            }
            Some(0x7B..=0x7F | 0x63 | 0x64 | 0x69..=0x74) => Ok(Bt::Val(self.vt()?)),
            _ => Ok(Bt::Idx(self.type_s33()?)),
        }
    }
    fn catch(&mut self) -> R<Catch> {
        Ok(match self.byte()? {
            0 => Catch::Catch(self.u32()?, self.u32()?),
            1 => Catch::Ref(self.u32()?, self.u32()?),
            2 => Catch::All(self.u32()?),
            3 => Catch::AllRef(self.u32()?),
            _ => return self.bad("catch"),
        })
    }
    fn expr(&mut self) -> R<Expr> {
        let (e, stop) = self.seq(0)?;
        if stop == 0x0B { Ok(e) } else { self.bad("else") }
    }
    /// Instructions up to and including `end` or `else`, and which of the two.
    fn seq(&mut self, depth: usize) -> R<(Expr, u8)> {
        self.depth = self.depth.max(depth);
        let mut v = vec![];
        loop {
            let b = self.byte()?;
            if b == 0x0B || b == 0x05 {
                return Ok((v, b));
            }
            let (op, sh) = if (0xFB..=0xFD).contains(&b) {
                let s = self.u32()?;
                (u32::from(b) << 16 | (s & 0xFFFF), ops::shape_sub(b, s))
            } else {
                (u32::from(b), ops::shape1(b))
            };
            let Some(sh) = sh else {
                return self.bad("opcode");
            };
            let imm = self.imm(op, sh, depth)?;
            v.push(Ins { op, imm });
        }
    }
    fn block(&mut self, depth: usize) -> R<Expr> {
        let (e, stop) = self.seq(depth + 1)?;
        if stop == 0x0B { Ok(e) } else { self.bad("else") }
    }
    fn imm(&mut self, op: u32, sh: Sh, depth: usize) -> R<Imm> {
        Ok(match sh {
            Sh::Plain => Imm::None,
            Sh::I1 => Imm::I1(self.u32()?),
            Sh::I2 => Imm::I2(self.u32()?, self.u32()?),
            Sh::I2Swap => {
                let y = self.u32()?;
                Imm::I2(self.u32()?, y)
            }
            Sh::Mem => Imm::Mem(self.memarg()?),
            Sh::MemLane => Imm::MemLane(self.memarg()?, self.byte()?),
            Sh::Lane => Imm::Lane(self.byte()?),
            Sh::I32 => Imm::I32(self.leb(32, true)? as i32),
            Sh::I64 => Imm::I64(self.leb(64, true)? as i64),
            Sh::F32 => Imm::F32(u32::from_le_bytes(self.bytes(4)?.try_into().unwrap())),
            Sh::F64 => Imm::F64(u64::from_le_bytes(self.bytes(8)?.try_into().unwrap())),
            Sh::V128 => Imm::V128(self.bytes(16)?.try_into().unwrap()),
            Sh::Shuf => Imm::Shuf(self.bytes(16)?.try_into().unwrap()),
            Sh::BrTable => Imm::BrTable(self.list(Self::u32)?, self.u32()?),
            Sh::SelT => Imm::SelT(self.list(Self::vt)?),
            Sh::Block => Imm::Block(self.bt()?, self.block(depth)?),
            Sh::If => {
                let bt = self.bt()?;
                let (a, stop) = self.seq(depth + 1)?;
                let b = if stop == 0x05 { Some(self.block(depth)?) } else { None };
                Imm::If(bt, a, b)
            }
            Sh::Try => Imm::Try(self.bt()?, self.list(Self::catch)?, self.block(depth)?),
            Sh::Ht => Imm::Ht(self.ht()?),
            Sh::BrCast => {
                let f = self.byte()?;
                if f > 3 {
                    return self.bad("cast flags");
                }
                let l = self.u32()?;
                let a = Rt { null: f & 1 != 0, ht: self.ht()? };
                let b = Rt { null: f & 2 != 0, ht: self.ht()? };
                debug_assert!(op == 0xFB0018 || op == 0xFB0019);
                Imm::BrCast(l, a, b)
            }
        })
    }
    fn funcs(&mut self) -> R<Vec<Expr>> {
        self.list(|d| Ok(vec![Ins { op: 0xD2, imm: Imm::I1(d.u32()?) }]))
    }
    fn elem(&mut self) -> R<Elem> {
        const FUNC: Ht = Ht::Abs(Abs(0x70));
        let f = self.u32()?;
        if f > 7 {
            return self.bad("element segment");
        }
        let mode = match f & 3 {
            0 => ElemMode::Active(0, self.expr()?),
            1 => ElemMode::Passive,
            2 => ElemMode::Active(self.u32()?, self.expr()?),
            _ => ElemMode::Declare,
        };
        let exprs = f & 4 != 0;
        let rt = if f == 0 {
            Rt { null: false, ht: FUNC }
        } else if f == 4 {
            Rt { null: true, ht: FUNC }
        } else if exprs {
            self.rt()?
        } else {
            if self.byte()? != 0 {
                return self.bad("element kind");
            }
            Rt { null: true, ht: FUNC }
        };
        let init = if exprs { self.list(Self::expr)? } else { self.funcs()? };
        Ok(Elem { rt, init, mode })
    }
    fn code(&mut self) -> R<Code> {
        let n = self.u32()? as usize;
        if self.end - self.p < n {
            return self.bad("function body");
        }
        let outer = self.end;
        self.end = self.p + n;
        let mut total = 0u64;
        let locals = self.list(|d| {
            let k = d.u32()?;
            total += u64::from(k);
            if total > u64::from(u32::MAX) {
                return d.bad("too many locals");
            }
            Ok((k, d.vt()?))
        })?;
        let body = self.expr()?;
        if self.p != self.end {
            return self.bad("function body size");
        }
        self.end = outer;
        self.locals += total;
        Ok(Code { locals, body })
    }
    fn data(&mut self) -> R<Data> {
        let mode = match self.u32()? {
            0 => DataMode::Active(0, self.expr()?),
            1 => DataMode::Passive,
            2 => DataMode::Active(self.u32()?, self.expr()?),
            _ => return self.bad("data segment"),
        };
        let n = self.u32()? as usize;
        Ok(Data { init: self.bytes(n)?, mode })
    }
    fn section(&mut self) -> R<(Sec, u32)> {
        let id = self.byte()?;
        if id > 13 {
            return self.bad("section id");
        }
        let size = self.u32()?;
        if self.end - self.p < size as usize {
            // a decoder that does not look ahead gets to see what is there, and its locals
            if id == 10 {
                let _ = self.list(Self::code);
            }
            return self.bad("section size");
        }
        let outer = self.end;
        self.end = self.p + size as usize;
        let s = match id {
            0 => {
                let n = self.name()?;
                let c = self.bytes(self.end - self.p)?;
                Sec::Custom(n, c)
            }
            1 => Sec::Type(self.list(Self::rec)?),
            2 => Sec::Import(self.list(Self::import)?),
            3 => Sec::Function(self.list(Self::u32)?),
            4 => Sec::Table(self.list(Self::table)?),
            5 => Sec::Memory(self.list(Self::lim)?),
            6 => Sec::Global(self.list(|d| Ok(Global { ty: d.gt()?, init: d.expr()? }))?),
            7 => Sec::Export(self.list(Self::export)?),
            8 => Sec::Start(self.u32()?),
            9 => Sec::Element(self.list(Self::elem)?),
            10 => Sec::Code(self.list(Self::code)?),
            11 => Sec::Data(self.list(Self::data)?),
            12 => Sec::DataCount(self.u32()?),
            _ => Sec::Tag(self.list(Self::tag)?),
        };
        if self.p != self.end {
            return self.bad("section size");
        }
        self.end = outer;
        Ok((s, size))
    }
}

pub fn decode(b: &[u8]) -> Out {
    let mut d = D { b, p: 0, end: b.len(), locals: 0, depth: 0 };
    let mut secs = vec![];
    let r = (|| {
        if d.bytes(8)? != b"\0asm\x01\0\0\0" {
            return d.bad("preamble");
        }
        while d.p < b.len() {
            let s = d.section()?;
            secs.push(s);
        }
        assemble(&secs).map_err(Bad::Cross)
    })();
    Out { module: r, locals: d.locals, depth: d.depth, sections: secs.len(), at: d.p }
}

/// The sections of a well-formed encoding, for mutators that work on whole sections.
pub fn split(b: &[u8]) -> Option<Vec<(usize, usize, usize)>> {
    let mut p = 8;
    let mut v = vec![];
    while p < b.len() {
        let (n, l) = leb(&b[p + 1..], 32, false)?.ok()?;
        let at = p + 1 + l;
        let end = at + n as usize;
        if end > b.len() {
            return None;
        }
        v.push((p, at, end));
        p = end;
    }
    Some(v)
}
