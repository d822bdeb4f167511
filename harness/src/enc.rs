//! Encoder from sections to bytes. Where the format leaves a choice (padding of LEB128 integers,
//! abbreviations), the choice is drawn from a tape. Each encoded field is a numbered site at which
//! a single fault can be injected.
use crate::ast::*;
use crate::ops::{self, Sh};
use crate::tape::Tape;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    SecId,
    /// a byte out of a limited set: see `valid`
    Mut,
    ValType,
    RefType,
    HeapType,
    BlockType,
    Storage,
    CompType,
    SubType,
    RecType,
    Limits,
    ExternKind,
    ExportKind,
    TagAttr,
    ElemKind,
    TableInit,
    /// a reference type, or 0x40
    TableEntry,
    CastFlags,
    CatchKind,
    Opcode,
    /// the terminator of a sequence of instructions
    End,
    /// LEB128 integers
    U32,
    U64,
    I32,
    I64,
    S33,
    /// LEB128 integers with a limited set of values
    SubOp(u8),
    ElemFlags,
    DataFlags,
    MemFlags,
    /// list length; size of a code entry
    Count,
    BodySize,
    /// raw bytes of a fixed or declared length
    Raw(usize),
    /// contents of a name
    Name(usize),
    LocalsCount,
}

/// Is `b` a possible first byte at a field of this kind?
pub fn valid(k: K, b: u8) -> bool {
    let vt = matches!(b, 0x63 | 0x64 | 0x69..=0x74 | 0x7B..=0x7F);
    match k {
        K::SecId => b <= 13,
        K::Mut => b <= 1,
        K::ValType => vt,
        K::RefType => matches!(b, 0x63 | 0x64 | 0x69..=0x74),
        K::TableEntry => matches!(b, 0x40 | 0x63 | 0x64 | 0x69..=0x74),
        // otherwise a type index, which is a non-negative signed integer
        K::HeapType => matches!(b, 0..=0x3F | 0x69..=0x74 | 0x80..),
        K::BlockType => vt || matches!(b, 0..=0x40 | 0x80..),
        K::Storage => vt || matches!(b, 0x77 | 0x78),
        K::CompType => matches!(b, 0x5E..=0x60),
        K::SubType => matches!(b, 0x5E..=0x60 | 0x4F | 0x50),
        K::RecType => matches!(b, 0x5E..=0x60 | 0x4E..=0x50),
        K::Limits => matches!(b, 0 | 1 | 4 | 5),
        K::ExternKind | K::ExportKind => b <= 4,
        K::TagAttr | K::ElemKind | K::TableInit => b == 0,
        K::CastFlags | K::CatchKind => b <= 3,
        K::Opcode | K::End => {
            ops::shape1(b).is_some() || matches!(b, 0x05 | 0x0B | 0xFB..=0xFD)
        }
        _ => true,
    }
}

#[derive(Clone, Debug)]
pub struct Site {
    pub kind: K,
    /// index of the section in the list, and its id
    pub sec: usize,
    pub id: u8,
    /// positions within the nested lists on the way to this field, outermost first
    pub path: Vec<u32>,
    /// nesting depth of instructions
    pub depth: u32,
    /// within the contents of a section (false for section ids and sizes)
    pub inner: bool,
    /// its encoding, without a fault
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Fault {
    /// write these bytes in place of the field
    Replace(Vec<u8>),
    /// write these bytes, and end the section there
    CutAt(Vec<u8>),
    /// write the last n bytes before the field once more, then the field
    Repeat(usize),
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    /// per section: start of the id byte, start of the contents, end
    pub spans: Vec<(usize, usize, usize)>,
    pub sites: Vec<Site>,
}

impl Encoded {
    pub fn sizes(&self) -> Vec<u32> {
        self.spans.iter().map(|(_, c, e)| (e - c) as u32).collect()
    }
}

pub struct Enc<'a> {
    o: Vec<u8>,
    t: Option<&'a mut Tape>,
    /// out of 100: how often an integer is padded, an abbreviation avoided
    pad: u64,
    long: u64,
    sites: Vec<Site>,
    record: bool,
    count: usize,
    fault: Option<(usize, Fault)>,
    cut: bool,
    path: Vec<u32>,
    sec: usize,
    id: u8,
    depth: u32,
    inner: bool,
}

pub fn leb_u(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn leb_s(mut v: i64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

/// Lengthen an encoding to `n` bytes without changing its value.
pub fn pad_leb(enc: &mut Vec<u8>, n: usize, signed: bool) {
    while enc.len() < n {
        let last = enc.last_mut().unwrap();
        let fill = if signed && *last & 0x40 != 0 { 0x7F } else { 0 };
        *last |= 0x80;
        enc.push(fill);
    }
}

pub fn max_len(bits: u32) -> usize {
    bits.div_ceil(7) as usize
}

impl<'a> Enc<'a> {
    fn new(t: Option<&'a mut Tape>, pad: u64, long: u64) -> Self {
        Enc {
            o: vec![],
            t,
            pad,
            long,
            sites: vec![],
            record: false,
            count: 0,
            fault: None,
            cut: false,
            path: vec![],
            sec: 0,
            id: 0,
            depth: 0,
            inner: false,
        }
    }

    fn put(&mut self, b: &[u8]) {
        if !self.cut {
            self.o.extend_from_slice(b);
        }
    }

    /// A field with its encoding.
    fn field(&mut self, kind: K, enc: &[u8]) {
        let n = self.count;
        self.count += 1;
        if self.record {
            self.sites.push(Site {
                kind,
                sec: self.sec,
                id: self.id,
                path: self.path.clone(),
                depth: self.depth,
                inner: self.inner,
                bytes: enc.to_vec(),
            });
        }
        if let Some((k, f)) = &self.fault {
            if *k == n && !self.cut {
                match f.clone() {
                    Fault::Replace(b) => self.put(&b),
                    Fault::CutAt(b) => {
                        self.put(&b);
                        self.cut = true;
                    }
                    Fault::Repeat(n) => {
                        let at = self.o.len() - n.min(self.o.len());
                        let b = self.o[at..].to_vec();
                        self.put(&b);
                        self.put(enc);
                    }
                }
                return;
            }
        }
        self.put(enc);
    }

    fn long(&mut self) -> bool {
        let n = self.long;
        match &mut self.t {
            Some(t) if n > 0 => t.chance(n, 100),
            _ => false,
        }
    }

    fn padded(&mut self, mut e: Vec<u8>, bits: u32, signed: bool) -> Vec<u8> {
        let (pad, max) = (self.pad, max_len(bits));
        if let Some(t) = &mut self.t {
            if pad > 0 && e.len() < max && t.chance(pad, 100) {
                let n = if t.bool() { max } else { t.range(e.len() + 1, max) };
                pad_leb(&mut e, n, signed);
            }
        }
        e
    }

    fn un(&mut self, kind: K, v: u64, bits: u32) {
        let mut e = vec![];
        leb_u(v, &mut e);
        let e = self.padded(e, bits, false);
        self.field(kind, &e);
    }
    fn sn(&mut self, kind: K, v: i64, bits: u32) {
        let mut e = vec![];
        leb_s(v, &mut e);
        let e = self.padded(e, bits, true);
        self.field(kind, &e);
    }
    fn u32(&mut self, v: u32) {
        self.un(K::U32, u64::from(v), 32);
    }
    fn byte(&mut self, kind: K, b: u8) {
        self.field(kind, &[b]);
    }

    fn list<T>(&mut self, xs: &[T], mut f: impl FnMut(&mut Self, &T)) {
        self.un(K::Count, xs.len() as u64, 32);
        for (i, x) in xs.iter().enumerate() {
            self.path.push(i as u32);
            f(self, x);
            self.path.pop();
        }
    }

    fn name(&mut self, n: &[u8]) {
        self.un(K::Count, n.len() as u64, 32);
        self.field(K::Name(n.len()), n);
    }

    pub fn ht(&mut self, h: Ht) {
        match h {
            Ht::Abs(a) => self.byte(K::HeapType, a.0),
            Ht::Idx(x) => self.sn(K::S33, i64::from(x), 33),
        }
    }

    fn rt_at(&mut self, kind: K, r: Rt) {
        match r {
            Rt { null: true, ht: Ht::Abs(a) } if !self.long() => self.byte(kind, a.0),
            Rt { null, ht } => {
                self.byte(kind, if null { 0x63 } else { 0x64 });
                self.ht(ht);
            }
        }
    }
    fn rt(&mut self, r: Rt) {
        self.rt_at(K::RefType, r);
    }

    fn vt_at(&mut self, kind: K, v: Vt) {
        match v {
            Vt::Num(n) => self.byte(
                kind,
                match n {
                    Num::I32 => 0x7F,
                    Num::I64 => 0x7E,
                    Num::F32 => 0x7D,
                    Num::F64 => 0x7C,
                },
            ),
            Vt::V128 => self.byte(kind, 0x7B),
            Vt::Ref(r) => self.rt_at(kind, r),
        }
    }
    fn vt(&mut self, v: Vt) {
        self.vt_at(K::ValType, v);
    }
    fn mutability(&mut self, var: bool) {
        self.byte(K::Mut, u8::from(var));
    }
    fn ft(&mut self, f: &Ft) {
        match f.st {
            St::V(v) => self.vt_at(K::Storage, v),
            St::I8 => self.byte(K::Storage, 0x78),
            St::I16 => self.byte(K::Storage, 0x77),
        }
        self.mutability(f.var);
    }
    fn ct(&mut self, kind: K, c: &Ct) {
        match c {
            Ct::Array(f) => {
                self.byte(kind, 0x5E);
                self.ft(f);
            }
            Ct::Struct(fs) => {
                self.byte(kind, 0x5F);
                self.list(fs, |e, f| e.ft(f));
            }
            Ct::Func(p, r) => {
                self.byte(kind, 0x60);
                self.list(p, |e, v| e.vt(*v));
                self.list(r, |e, v| e.vt(*v));
            }
        }
    }
    fn sub(&mut self, kind: K, s: &Sub) {
        if s.fin && s.sup.is_empty() && !self.long() {
            self.ct(kind, &s.ct);
        } else {
            self.byte(kind, if s.fin { 0x4F } else { 0x50 });
            self.list(&s.sup, |e, x| e.u32(*x));
            self.ct(K::CompType, &s.ct);
        }
    }
    fn rec(&mut self, r: &Rec) {
        if r.0.len() == 1 && !self.long() {
            self.sub(K::RecType, &r.0[0]);
        } else {
            self.byte(K::RecType, 0x4E);
            self.list(&r.0, |e, s| e.sub(K::SubType, s));
        }
    }
    fn lim(&mut self, l: &Lim) {
        self.byte(K::Limits, u8::from(l.a64) << 2 | u8::from(l.max.is_some()));
        self.un(K::U64, l.min, 64);
        if let Some(m) = l.max {
            self.un(K::U64, m, 64);
        }
    }
    fn tt(&mut self, kind: K, t: &Tt) {
        self.rt_at(kind, t.rt);
        self.lim(&t.lim);
    }
    fn gt(&mut self, g: &Gt) {
        self.vt(g.vt);
        self.mutability(g.var);
    }
    fn tag(&mut self, x: u32) {
        self.byte(K::TagAttr, 0);
        self.u32(x);
    }

    fn memarg(&mut self, m: &Memarg) {
        assert!(m.align < 64);
        if m.mem == 0 && !self.long() {
            self.un(K::MemFlags, u64::from(m.align), 32);
        } else {
            self.un(K::MemFlags, u64::from(m.align) + 64, 32);
            self.u32(m.mem);
        }
        self.un(K::U64, m.offset, 64);
    }

    fn bt(&mut self, b: &Bt) {
        match b {
            Bt::Empty => self.byte(K::BlockType, 0x40),
            Bt::Val(v) => self.vt_at(K::BlockType, *v),
            Bt::Idx(x) => self.sn(K::S33, i64::from(*x), 33),
        }
    }

    fn nested(&mut self, e: &[Ins]) {
        self.depth += 1;
        for i in e {
            self.ins(i);
        }
        self.depth -= 1;
    }

    pub fn expr(&mut self, e: &[Ins]) {
        for i in e {
            self.ins(i);
        }
        self.byte(K::End, 0x0B);
    }

    pub fn ins(&mut self, i: &Ins) {
        let sh = match i.op >> 16 {
            0 => {
                self.byte(K::Opcode, i.op as u8);
                ops::shape1(i.op as u8)
            }
            p => {
                self.byte(K::Opcode, p as u8);
                self.un(K::SubOp(p as u8), u64::from(i.op & 0xFFFF), 32);
                ops::shape_sub(p as u8, i.op & 0xFFFF)
            }
        };
        match &i.imm {
            Imm::None => {}
            Imm::I1(x) => self.u32(*x),
            Imm::I2(x, y) => {
                let (x, y) = if sh == Some(Sh::I2Swap) { (y, x) } else { (x, y) };
                self.u32(*x);
                self.u32(*y);
            }
            Imm::Mem(m) => self.memarg(m),
            Imm::MemLane(m, l) => {
                self.memarg(m);
                self.field(K::Raw(1), &[*l]);
            }
            Imm::Lane(l) => self.field(K::Raw(1), &[*l]),
            Imm::I32(v) => self.sn(K::I32, i64::from(*v), 32),
            Imm::I64(v) => self.sn(K::I64, *v, 64),
            Imm::F32(b) => self.field(K::Raw(4), &b.to_le_bytes()),
            Imm::F64(b) => self.field(K::Raw(8), &b.to_le_bytes()),
            Imm::V128(b) | Imm::Shuf(b) => self.field(K::Raw(16), b),
            Imm::BrTable(ls, d) => {
                self.list(ls, |e, l| e.u32(*l));
                self.u32(*d);
            }
            Imm::SelT(ts) => self.list(ts, |e, t| e.vt(*t)),
            Imm::Block(b, e) => {
                self.bt(b);
                self.nested(e);
                self.byte(K::End, 0x0B);
            }
            Imm::If(b, x, y) => {
                self.bt(b);
                self.nested(x);
                if let Some(y) = y {
                    self.byte(K::End, 0x05);
                    self.nested(y);
                }
                self.byte(K::End, 0x0B);
            }
            Imm::Try(b, cs, e) => {
                self.bt(b);
                self.list(cs, |e, c| {
                    let (k, x, l) = match *c {
                        Catch::Catch(x, l) => (0, Some(x), l),
                        Catch::Ref(x, l) => (1, Some(x), l),
                        Catch::All(l) => (2, None, l),
                        Catch::AllRef(l) => (3, None, l),
                    };
                    e.byte(K::CatchKind, k);
                    if let Some(x) = x {
                        e.u32(x);
                    }
                    e.u32(l);
                });
                self.nested(e);
                self.byte(K::End, 0x0B);
            }
            Imm::Ht(h) => self.ht(*h),
            Imm::BrCast(l, a, b) => {
                self.byte(K::CastFlags, u8::from(a.null) | u8::from(b.null) << 1);
                self.u32(*l);
                self.ht(a.ht);
                self.ht(b.ht);
            }
        }
    }

    fn elem(&mut self, x: &Elem) {
        const FUNC: Ht = Ht::Abs(Abs(0x70));
        let idxs: Option<Vec<u32>> = x
            .init
            .iter()
            .map(|e| match &e[..] {
                [Ins { op: 0xD2, imm: Imm::I1(f) }] => Some(*f),
                _ => None,
            })
            .collect();
        // the flags that can express this segment, the shortest first
        let mut fl: Vec<u32> = vec![];
        let null_func = x.rt == Rt { null: true, ht: FUNC };
        match &x.mode {
            ElemMode::Active(t, _) => {
                if *t == 0 && idxs.is_some() && x.rt == (Rt { null: false, ht: FUNC }) {
                    fl.push(0);
                }
                if idxs.is_some() && null_func {
                    fl.push(2);
                }
                if *t == 0 && null_func {
                    fl.push(4);
                }
                fl.push(6);
            }
            ElemMode::Passive => {
                if idxs.is_some() && null_func {
                    fl.push(1);
                }
                fl.push(5);
            }
            ElemMode::Declare => {
                if idxs.is_some() && null_func {
                    fl.push(3);
                }
                fl.push(7);
            }
        }
        let k = match &mut self.t {
            Some(t) if self.long > 0 => t.below(fl.len() as u64) as usize,
            _ => 0,
        };
        let f = fl[k];
        self.un(K::ElemFlags, u64::from(f), 32);
        if let ElemMode::Active(t, off) = &x.mode {
            if f & 2 != 0 {
                self.u32(*t);
            }
            self.expr(off);
        }
        if f & 3 != 0 {
            if f & 4 == 0 {
                self.byte(K::ElemKind, 0);
            } else {
                self.rt(x.rt);
            }
        }
        if f & 4 == 0 {
            self.list(&idxs.unwrap(), |e, x| e.u32(*x));
        } else {
            self.list(&x.init, |e, x| e.expr(x));
        }
    }

    fn data(&mut self, d: &Data) {
        match &d.mode {
            DataMode::Passive => self.un(K::DataFlags, 1, 32),
            DataMode::Active(m, e) => {
                if *m == 0 && !self.long() {
                    self.un(K::DataFlags, 0, 32);
                } else {
                    self.un(K::DataFlags, 2, 32);
                    self.u32(*m);
                }
                self.expr(e);
            }
        }
        self.un(K::Count, d.init.len() as u64, 32);
        self.field(K::Raw(d.init.len()), &d.init);
    }

    fn table(&mut self, t: &Table) {
        let short = matches!(&t.init[..], [Ins { op: 0xD0, imm: Imm::Ht(h) }] if *h == t.ty.rt.ht);
        if short && !self.long() {
            self.tt(K::TableEntry, &t.ty);
        } else {
            // 0x40 stands where a reference type could
            self.byte(K::TableEntry, 0x40);
            self.byte(K::TableInit, 0);
            self.tt(K::RefType, &t.ty);
            self.expr(&t.init);
        }
    }

    /// Emit what `f` emits, preceded by its size.
    fn sized(&mut self, kind: K, f: impl FnOnce(&mut Self)) -> usize {
        // the padding of the size is drawn, and its site counted, before the contents
        let was = std::mem::take(&mut self.o);
        let was_cut = self.cut;
        let n = self.count;
        let site = self.sites.len();
        self.count += 1;
        if self.record {
            self.sites.push(Site {
                kind,
                sec: self.sec,
                id: self.id,
                path: self.path.clone(),
                depth: 0,
                inner: self.inner,
                bytes: vec![],
            });
        }
        let faulty = match &self.fault {
            Some((k, f)) if *k == n => Some(f.clone()),
            _ => None,
        };
        let inner = self.inner;
        self.inner = true;
        f(self);
        self.inner = inner;
        let body = std::mem::replace(&mut self.o, was);
        if was_cut {
            return 0;
        }
        match faulty {
            Some(Fault::Replace(b)) => self.o.extend_from_slice(&b),
            Some(Fault::CutAt(b)) => {
                self.o.extend_from_slice(&b);
                self.cut = true;
                return 0;
            }
            Some(Fault::Repeat(_)) | None => {
                let mut e = vec![];
                leb_u(body.len() as u64, &mut e);
                let e = self.padded(e, 32, false);
                self.o.extend_from_slice(&e);
                if self.record {
                    self.sites[site].bytes = e;
                }
            }
        }
        let at = self.o.len();
        self.o.extend_from_slice(&body);
        at
    }

    fn code(&mut self, c: &Code) {
        self.sized(K::BodySize, |e| {
            e.list(&c.locals, |e, (n, t)| {
                e.un(K::LocalsCount, u64::from(*n), 32);
                e.vt(*t);
            });
            e.expr(&c.body);
        });
    }

    fn contents(&mut self, s: &Sec) {
        match s {
            Sec::Custom(n, c) => {
                self.name(n);
                self.put(c);
            }
            Sec::Type(x) => self.list(x, |e, r| e.rec(r)),
            Sec::Import(x) => self.list(x, |e, i| {
                e.name(&i.module);
                e.name(&i.item);
                match &i.ext {
                    Ext::Func(x) => {
                        e.byte(K::ExternKind, 0);
                        e.u32(*x);
                    }
                    Ext::Table(t) => {
                        e.byte(K::ExternKind, 1);
                        e.tt(K::RefType, t);
                    }
                    Ext::Mem(l) => {
                        e.byte(K::ExternKind, 2);
                        e.lim(l);
                    }
                    Ext::Global(g) => {
                        e.byte(K::ExternKind, 3);
                        e.gt(g);
                    }
                    Ext::Tag(x) => {
                        e.byte(K::ExternKind, 4);
                        e.tag(*x);
                    }
                }
            }),
            Sec::Function(x) => self.list(x, |e, x| e.u32(*x)),
            Sec::Table(x) => self.list(x, |e, t| e.table(t)),
            Sec::Memory(x) => self.list(x, |e, l| e.lim(l)),
            Sec::Tag(x) => self.list(x, |e, x| e.tag(*x)),
            Sec::Global(x) => self.list(x, |e, g| {
                e.gt(&g.ty);
                e.expr(&g.init);
            }),
            Sec::Export(x) => self.list(x, |e, x| {
                e.name(&x.name);
                e.byte(K::ExportKind, x.kind);
                e.u32(x.idx);
            }),
            Sec::Start(x) => self.u32(*x),
            Sec::Element(x) => self.list(x, |e, x| e.elem(x)),
            Sec::DataCount(n) => self.u32(*n),
            Sec::Code(x) => self.list(x, |e, c| e.code(c)),
            Sec::Data(x) => self.list(x, |e, d| e.data(d)),
        }
    }

    fn module(mut self, secs: &[Sec]) -> Encoded {
        self.o.extend_from_slice(b"\0asm\x01\0\0\0");
        let mut spans = vec![];
        for (i, s) in secs.iter().enumerate() {
            self.sec = i;
            self.id = s.id();
            self.cut = false;
            let start = self.o.len();
            self.byte(K::SecId, s.id());
            let at = self.sized(K::U32, |e| {
                e.contents(s);
                // a fault that cuts the section short does not reach beyond it
                e.cut = false;
            });
            spans.push((start, at, self.o.len()));
        }
        Encoded { bytes: self.o, spans, sites: self.sites }
    }
}

/// The shortest encoding.
pub fn canonical(secs: &[Sec]) -> Encoded {
    Enc::new(None, 0, 0).module(secs)
}

/// An encoding with freely chosen padding and abbreviations.
pub fn styled(secs: &[Sec], t: &mut Tape) -> Encoded {
    let (pad, long) = style(t);
    Enc::new(Some(t), pad, long).module(secs)
}

fn style(t: &mut Tape) -> (u64, u64) {
    let pad = *t.pick(&[0, 0, 3, 25, 80]);
    let long = *t.pick(&[0, 15, 50]);
    (pad, long)
}

/// The sites of an encoding, in order.
pub fn sites(secs: &[Sec], t: &Tape) -> Vec<Site> {
    let mut t = t.clone();
    let (pad, long) = style(&mut t);
    let mut e = Enc::new(Some(&mut t), pad, long);
    e.record = true;
    e.module(secs).sites
}

/// The encoding with one fault injected at the given site. The tape is advanced as by `styled`.
pub fn faulty(secs: &[Sec], t: &mut Tape, site: usize, f: Fault) -> Encoded {
    let (pad, long) = style(t);
    let mut e = Enc::new(Some(t), pad, long);
    e.fault = Some((site, f));
    e.module(secs)
}

pub fn one_expr(e: &[Ins]) -> Vec<u8> {
    let mut enc = Enc::new(None, 0, 0);
    enc.expr(e);
    enc.o
}

/// A code entry without its size.
pub fn one_code(c: &Code) -> Vec<u8> {
    let mut enc = Enc::new(None, 0, 0);
    enc.list(&c.locals, |e, (n, t)| {
        e.un(K::LocalsCount, u64::from(*n), 32);
        e.vt(*t);
    });
    enc.expr(&c.body);
    enc.o
}
