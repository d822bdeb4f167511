//! The abstract syntax of a WebAssembly 3.0 module, as the harness models it.
//! Independent of the types of the code under test; floats are kept as bit patterns, so `==`
//! on these types is exact.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Num {
    I32,
    I64,
    F32,
    F64,
}

/// Abstract heap type, identified by its binary code (0x69..=0x74).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Abs(pub u8);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ht {
    Abs(Abs),
    Idx(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rt {
    pub null: bool,
    pub ht: Ht,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vt {
    Num(Num),
    V128,
    Ref(Rt),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    V(Vt),
    I8,
    I16,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ft {
    pub var: bool,
    pub st: St,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ct {
    Struct(Vec<Ft>),
    Array(Ft),
    Func(Vec<Vt>, Vec<Vt>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sub {
    pub fin: bool,
    pub sup: Vec<u32>,
    pub ct: Ct,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rec(pub Vec<Sub>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lim {
    pub a64: bool,
    pub min: u64,
    pub max: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tt {
    pub rt: Rt,
    pub lim: Lim,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gt {
    pub var: bool,
    pub vt: Vt,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    Func(u32),
    Table(Tt),
    Mem(Lim),
    Global(Gt),
    Tag(u32),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Imp {
    pub module: Vec<u8>,
    pub item: Vec<u8>,
    pub ext: Ext,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Exp {
    pub name: Vec<u8>,
    /// 0 func, 1 table, 2 mem, 3 global, 4 tag
    pub kind: u8,
    pub idx: u32,
}

pub type Expr = Vec<Ins>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Global {
    pub ty: Gt,
    pub init: Expr,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Table {
    pub ty: Tt,
    pub init: Expr,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ElemMode {
    Passive,
    Active(u32, Expr),
    Declare,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Elem {
    pub rt: Rt,
    pub init: Vec<Expr>,
    pub mode: ElemMode,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum DataMode {
    Passive,
    Active(u32, Expr),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: DataMode,
}

/// A code entry: runs of locals as declared, and the body.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Code {
    pub locals: Vec<(u32, Vt)>,
    pub body: Expr,
}

/// A function after pairing; `locals` is the run-length form of the expanded sequence: adjacent
/// runs have different types and no run is empty.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Func {
    pub ty: u32,
    pub locals: Vec<(u64, Vt)>,
    pub body: Expr,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Memarg {
    pub mem: u32,
    pub align: u32,
    pub offset: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bt {
    Empty,
    Val(Vt),
    Idx(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Catch {
    Catch(u32, u32),
    Ref(u32, u32),
    All(u32),
    AllRef(u32),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Imm {
    None,
    /// one index-like immediate
    I1(u32),
    /// two index-like immediates, in the order of the abstract syntax
    I2(u32, u32),
    Mem(Memarg),
    MemLane(Memarg, u8),
    Lane(u8),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    V128([u8; 16]),
    Shuf([u8; 16]),
    BrTable(Vec<u32>, u32),
    SelT(Vec<Vt>),
    Block(Bt, Expr),
    If(Bt, Expr, Option<Expr>),
    Try(Bt, Vec<Catch>, Expr),
    Ht(Ht),
    BrCast(u32, Rt, Rt),
}

/// `op` is the single-byte opcode, or `prefix << 16 | sub-opcode`.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ins {
    pub op: u32,
    pub imm: Imm,
}

/// One section, as it appears in the file.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sec {
    Custom(Vec<u8>, Vec<u8>),
    Type(Vec<Rec>),
    Import(Vec<Imp>),
    Function(Vec<u32>),
    Table(Vec<Table>),
    Memory(Vec<Lim>),
    Global(Vec<Global>),
    Export(Vec<Exp>),
    Start(u32),
    Element(Vec<Elem>),
    Code(Vec<Code>),
    Data(Vec<Data>),
    DataCount(u32),
    Tag(Vec<u32>),
}

impl Sec {
    pub fn id(&self) -> u8 {
        match self {
            Sec::Custom(..) => 0,
            Sec::Type(_) => 1,
            Sec::Import(_) => 2,
            Sec::Function(_) => 3,
            Sec::Table(_) => 4,
            Sec::Memory(_) => 5,
            Sec::Global(_) => 6,
            Sec::Export(_) => 7,
            Sec::Start(_) => 8,
            Sec::Element(_) => 9,
            Sec::Code(_) => 10,
            Sec::Data(_) => 11,
            Sec::DataCount(_) => 12,
            Sec::Tag(_) => 13,
        }
    }
}

/// Position of a (non-custom) section id in the order the format prescribes.
pub fn rank(id: u8) -> u8 {
    const ORDER: [u8; 13] = [1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11];
    ORDER.iter().position(|&x| x == id).unwrap() as u8 + 1
}

pub fn sec_name(id: u8) -> &'static str {
    [
        "Custom", "Type", "Import", "Function", "Table", "Memory", "Global", "Export", "Start",
        "Element", "Code", "Data", "DataCount", "Tag",
    ][id as usize]
}

/// The whole module, as a decoder should present it.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Abst {
    pub version: [u8; 4],
    pub kinds: Vec<u8>,
    pub headers: Vec<(u8, u32)>,
    pub customs: Vec<(Vec<u8>, Vec<u8>)>,
    pub types: Vec<Rec>,
    pub imports: Vec<Imp>,
    pub funcs: Vec<Func>,
    pub tables: Vec<Table>,
    pub mems: Vec<Lim>,
    pub globals: Vec<Global>,
    pub exports: Vec<Exp>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub data_count: Option<u32>,
    pub datas: Vec<Data>,
    pub tags: Vec<u32>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Cross {
    OutOfOrder(u8, u8),
    Duplicate(u8),
    FuncCode { funcs: usize, codes: usize },
    DataCount { declared: u32, datas: usize },
    DataIdxNoCount,
}

pub fn rle(runs: &[(u32, Vt)]) -> Vec<(u64, Vt)> {
    let mut out: Vec<(u64, Vt)> = Vec::new();
    for &(n, t) in runs {
        if n == 0 {
            continue;
        }
        match out.last_mut() {
            Some((m, u)) if *u == t => *m += u64::from(n),
            _ => out.push((u64::from(n), t)),
        }
    }
    out
}

/// Does an instruction sequence mention a data segment index?
pub fn has_data_idx(e: &[Ins]) -> bool {
    e.iter().any(|i| match (i.op, &i.imm) {
        // memory.init, data.drop, array.new_data, array.init_data
        (0xFC0008 | 0xFC0009 | 0xFB0009 | 0xFB0012, _) => true,
        (_, Imm::Block(_, b) | Imm::Try(_, _, b)) => has_data_idx(b),
        (_, Imm::If(_, a, b)) => has_data_idx(a) || b.as_ref().is_some_and(|b| has_data_idx(b)),
        _ => false,
    })
}

/// Put the sections together into the module they denote, checking what relates one section to
/// another (spec 3.0, "Modules" of the binary format).
pub fn assemble(secs: &[(Sec, u32)]) -> Result<Abst, Cross> {
    let mut a = Abst { version: [1, 0, 0, 0], ..Default::default() };
    let mut func_types: Vec<u32> = vec![];
    let mut codes: Vec<Code> = vec![];
    for (s, size) in secs {
        let id = s.id();
        a.headers.push((id, *size));
        if id != 0 {
            if let Some(&p) = a.kinds.last() {
                if rank(id) < rank(p) {
                    return Err(Cross::OutOfOrder(id, p));
                }
                if id == p {
                    return Err(Cross::Duplicate(id));
                }
            }
            a.kinds.push(id);
        }
        match s {
            Sec::Custom(n, c) => a.customs.push((n.clone(), c.clone())),
            Sec::Type(x) => a.types = x.clone(),
            Sec::Import(x) => a.imports = x.clone(),
            Sec::Function(x) => func_types = x.clone(),
            Sec::Table(x) => a.tables = x.clone(),
            Sec::Memory(x) => a.mems = x.clone(),
            Sec::Global(x) => a.globals = x.clone(),
            Sec::Export(x) => a.exports = x.clone(),
            Sec::Start(x) => a.start = Some(*x),
            Sec::Element(x) => a.elems = x.clone(),
            Sec::Code(x) => codes = x.clone(),
            Sec::Data(x) => a.datas = x.clone(),
            Sec::DataCount(x) => a.data_count = Some(*x),
            Sec::Tag(x) => a.tags = x.clone(),
        }
    }
    if func_types.len() != codes.len() {
        return Err(Cross::FuncCode { funcs: func_types.len(), codes: codes.len() });
    }
    if let Some(n) = a.data_count {
        if n as u64 != a.datas.len() as u64 {
            return Err(Cross::DataCount { declared: n, datas: a.datas.len() });
        }
    } else if codes.iter().any(|c| has_data_idx(&c.body)) {
        return Err(Cross::DataIdxNoCount);
    }
    a.funcs = func_types
        .into_iter()
        .zip(codes)
        .map(|(ty, c)| Func { ty, locals: rle(&c.locals), body: c.body })
        .collect();
    Ok(a)
}

/// First difference between two modules, described; None when equal.
pub fn diff(exp: &Abst, got: &Abst) -> Option<String> {
    fn list<T: PartialEq + std::fmt::Debug>(what: &str, e: &[T], g: &[T]) -> Option<String> {
        for i in 0..e.len().min(g.len()) {
            if e[i] != g[i] {
                return Some(format!("{what}[{i}]: expected {}, got {}", clip(&e[i]), clip(&g[i])));
            }
        }
        (e.len() != g.len())
            .then(|| format!("{what}: expected {} items, got {}", e.len(), g.len()))
    }
    fn clip<T: std::fmt::Debug>(t: &T) -> String {
        let s = format!("{t:?}");
        if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s }
    }
    macro_rules! l {
        ($($f:ident)*) => { $( if let Some(s) = list(stringify!($f), &exp.$f, &got.$f) { return Some(s); } )* };
    }
    if exp == got {
        return None;
    }
    if exp.version != got.version {
        return Some(format!("version {:?}", got.version));
    }
    l!(kinds headers customs types imports tables mems globals exports elems datas tags);
    if exp.start != got.start {
        return Some(format!("start: expected {:?}, got {:?}", exp.start, got.start));
    }
    if exp.data_count != got.data_count {
        return Some(format!("data count: expected {:?}, got {:?}", exp.data_count, got.data_count));
    }
    for i in 0..exp.funcs.len().min(got.funcs.len()) {
        let (e, g) = (&exp.funcs[i], &got.funcs[i]);
        if e.ty != g.ty {
            return Some(format!("funcs[{i}].type: expected {}, got {}", e.ty, g.ty));
        }
        if let Some(s) = list(&format!("funcs[{i}].locals"), &e.locals, &g.locals) {
            return Some(s);
        }
        if let Some(s) = list(&format!("funcs[{i}].body"), &e.body, &g.body) {
            return Some(s);
        }
    }
    list("funcs", &exp.funcs, &got.funcs).or(Some("modules differ".into()))
}
