//! From the decoder's module to the harness's.
use crate::ast::*;
use crate::ops;
use wadec::core as w;
use wadec::core::instruction as wi;
use wadec::core::types as wt;
use wadec::core::types::comptype as wc;
use wadec::core::types::heaptype::AbsHeapType as A;

pub fn ht(h: &wt::HeapType) -> Ht {
    match h {
        wt::HeapType::TypeIdx(x) => Ht::Idx(*x),
        wt::HeapType::Ht(a) => Ht::Abs(Abs(match a {
            A::Exn => 0x69,
            A::Array => 0x6A,
            A::Struct => 0x6B,
            A::I31 => 0x6C,
            A::Eq => 0x6D,
            A::Any => 0x6E,
            A::Extern => 0x6F,
            A::Func => 0x70,
            A::None => 0x71,
            A::NoExtern => 0x72,
            A::NoFunc => 0x73,
            A::NoExn => 0x74,
        })),
    }
}

pub fn rt(r: &wt::RefType) -> Rt {
    Rt { null: r.nullable, ht: ht(&r.ht) }
}

pub fn vt(v: &wt::ValType) -> Vt {
    match v {
        wt::ValType::Num(wt::NumType::Int32) => Vt::Num(Num::I32),
        wt::ValType::Num(wt::NumType::Int64) => Vt::Num(Num::I64),
        wt::ValType::Num(wt::NumType::Float32) => Vt::Num(Num::F32),
        wt::ValType::Num(wt::NumType::Float64) => Vt::Num(Num::F64),
        wt::ValType::Vec(wt::VecType::V128) => Vt::V128,
        wt::ValType::Ref(r) => Vt::Ref(rt(r)),
    }
}

fn var(m: &wt::Mut) -> bool {
    matches!(m, wt::Mut::Var)
}

fn ft(f: &wc::FieldType) -> Ft {
    Ft {
        var: var(&f.0),
        st: match &f.1 {
            wc::StorageType::ValType(v) => St::V(vt(v)),
            wc::StorageType::PackType(wc::PackType::I8) => St::I8,
            wc::StorageType::PackType(wc::PackType::I16) => St::I16,
        },
    }
}

fn rec(r: &wt::RecType) -> Rec {
    Rec(r
        .0
        .iter()
        .map(|s| Sub {
            fin: s.is_final,
            sup: s.supertypes.iter().map(|x| x.0).collect(),
            ct: match &s.comptype {
                wt::CompType::Struct(f) => Ct::Struct(f.iter().map(ft).collect()),
                wt::CompType::Array(f) => Ct::Array(ft(f)),
                wt::CompType::Func { parameters, results } => {
                    Ct::Func(parameters.iter().map(vt).collect(), results.iter().map(vt).collect())
                }
            },
        })
        .collect())
}

fn lim(l: &wt::Limits) -> Lim {
    Lim { a64: matches!(l.address_type, wt::AddrType::I64), min: l.min, max: l.max }
}

fn tt(t: &wt::TableType) -> Tt {
    Tt { rt: rt(&t.reftype), lim: lim(&t.limits) }
}

fn gt(g: &wt::GlobalType) -> Gt {
    Gt { var: var(&g.0), vt: vt(&g.1) }
}

pub fn memarg(m: &wi::Memarg) -> Memarg {
    Memarg { mem: m.mem_idx.0, align: m.align, offset: m.offset }
}

pub fn bt(b: &wi::BlockType) -> Bt {
    match b {
        wi::BlockType::Empty => Bt::Empty,
        wi::BlockType::T(v) => Bt::Val(vt(v)),
        wi::BlockType::I(x) => Bt::Idx(*x),
    }
}

pub fn catch(c: &wi::Catch) -> Catch {
    match c {
        wi::Catch::Catch(x, l) => Catch::Catch(x.0, l.0),
        wi::Catch::CatchRef(x, l) => Catch::Ref(x.0, l.0),
        wi::Catch::CatchAll(l) => Catch::All(l.0),
        wi::Catch::CatchAllRef(l) => Catch::AllRef(l.0),
    }
}

pub fn kind(k: w::SectionKind) -> u8 {
    match k {
        w::SectionKind::Custom => 0,
        w::SectionKind::Type => 1,
        w::SectionKind::Import => 2,
        w::SectionKind::Function => 3,
        w::SectionKind::Table => 4,
        w::SectionKind::Memory => 5,
        w::SectionKind::Global => 6,
        w::SectionKind::Export => 7,
        w::SectionKind::Start => 8,
        w::SectionKind::Element => 9,
        w::SectionKind::Code => 10,
        w::SectionKind::Data => 11,
        w::SectionKind::DataCount => 12,
        w::SectionKind::Tag => 13,
    }
}

pub fn module(m: &wadec::Module) -> Abst {
    Abst {
        version: m.version,
        kinds: m.parsed_section_kinds.iter().map(|k| kind(*k)).collect(),
        headers: m.section_headers.iter().map(|h| (kind(h.kind), h.size)).collect(),
        customs: m
            .custom_sections
            .iter()
            .map(|c| (c.name.as_bytes().to_vec(), c.contents.clone()))
            .collect(),
        types: m.types.iter().map(rec).collect(),
        imports: m
            .imports
            .iter()
            .map(|i| Imp {
                module: i.module_name.as_bytes().to_vec(),
                item: i.item_name.as_bytes().to_vec(),
                ext: match &i.extern_type {
                    wt::ExternType::Func(x) => Ext::Func(x.0),
                    wt::ExternType::Table(t) => Ext::Table(tt(t)),
                    wt::ExternType::Mem(m) => Ext::Mem(lim(&m.limits)),
                    wt::ExternType::Global(g) => Ext::Global(gt(g)),
                    wt::ExternType::Tag(t) => Ext::Tag(t.0.0),
                },
            })
            .collect(),
        funcs: m
            .funcs
            .iter()
            .map(|f| {
                let mut locals: Vec<(u64, Vt)> = vec![];
                let mut prev = None;
                for l in &f.locals {
                    if prev == Some(l) {
                        locals.last_mut().unwrap().0 += 1;
                    } else {
                        locals.push((1, vt(l)));
                        prev = Some(l);
                    }
                }
                Func { ty: f.r#type.0, locals, body: ops::expr(&f.body) }
            })
            .collect(),
        tables: m.tables.iter().map(|t| Table { ty: tt(&t.0), init: ops::expr(&t.1) }).collect(),
        mems: m.mems.iter().map(|m| lim(&m.limits)).collect(),
        globals: m
            .globals
            .iter()
            .map(|g| Global { ty: gt(&g.r#type), init: ops::expr(&g.init) })
            .collect(),
        exports: m
            .exports
            .iter()
            .map(|e| {
                let (kind, idx) = match e.externidx {
                    w::ExternIdx::Func(x) => (0, x.0),
                    w::ExternIdx::Table(x) => (1, x.0),
                    w::ExternIdx::Mem(x) => (2, x.0),
                    w::ExternIdx::Global(x) => (3, x.0),
                    w::ExternIdx::Tag(x) => (4, x.0),
                };
                Exp { name: e.name.as_bytes().to_vec(), kind, idx }
            })
            .collect(),
        start: m.start.map(|x| x.0),
        elems: m
            .elems
            .iter()
            .map(|e| Elem {
                rt: rt(&e.r#type),
                init: e.init.iter().map(|x| ops::expr(x)).collect(),
                mode: match &e.mode {
                    w::ElemMode::Passive => ElemMode::Passive,
                    w::ElemMode::Declare => ElemMode::Declare,
                    w::ElemMode::Active { table, offset } => {
                        ElemMode::Active(table.0, ops::expr(offset))
                    }
                },
            })
            .collect(),
        data_count: m.data_count,
        datas: m
            .datas
            .iter()
            .map(|d| Data {
                init: d.init.clone(),
                mode: match &d.mode {
                    w::DataMode::Passive => DataMode::Passive,
                    w::DataMode::Active { memory, offset } => {
                        DataMode::Active(memory.0, ops::expr(offset))
                    }
                },
            })
            .collect(),
        tags: m.tags.iter().map(|t| t.0.0).collect(),
    }
}
