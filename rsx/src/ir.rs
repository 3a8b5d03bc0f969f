//! Textual LLVM IR: types, instructions and a parser for the subset rustc + opt emit.

use std::collections::HashMap;

pub type TyId = u32;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, TyId),
    Vector(u32, TyId),
    Struct(bool, Vec<TyId>),
    Label,
    Metadata,
    Token,
}

#[derive(Debug, Clone)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub offsets: Vec<u64>,
}

#[derive(Debug, Clone)]
pub enum Const {
    Int(u128, u32),
    Agg(Vec<Const>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Opd {
    Reg(u32),
    I(u64),
    C(u32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Ptr(Opd),
    Asm(String),
}

#[derive(Debug, Clone)]
pub enum Inst {
    /// scalar int binop
    Bin { op: BinOp, w: u32, d: u32, a: Opd, b: Opd },
    VBin { op: BinOp, ty: TyId, d: u32, a: Opd, b: Opd },
    FNeg { ty: TyId, d: u32, a: Opd },
    ICmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    VICmp { p: Pred, ty: TyId, d: u32, a: Opd, b: Opd },
    FCmp { p: String, ty: TyId, d: u32, a: Opd, b: Opd },
    Select { cty: TyId, ty: TyId, d: u32, c: Opd, a: Opd, b: Opd },
    Cast { op: CastOp, from: TyId, to: TyId, d: u32, a: Opd },
    Alloca { d: u32, size: u64, n: Opd },
    Load { d: u32, ty: TyId, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Vec<(Opd, u64, u32)> },
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, idx: Vec<u32>, ty: TyId },
    ExtractElement { d: u32, a: Opd, i: Opd },
    InsertElement { d: u32, a: Opd, v: Opd, i: Opd, ty: TyId },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, mask: Vec<i32> },
    Freeze { d: u32, a: Opd },
    Rmw { op: RmwOp, d: u32, ty: TyId, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: TyId, p: Opd, c: Opd, n: Opd },
    /// to: Some(block) for invoke
    Call { d: u32, ret: TyId, f: Callee, args: Vec<(TyId, Opd)>, to: Option<u32> },
    Fence,
    // terminators
    Ret { v: Option<Opd> },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, e: u32 },
    Switch { w: u32, c: Opd, default: u32, cases: Vec<(u64, u32)> },
    Unreachable,
    Unsupported(String),
}

pub const NODST: u32 = u32::MAX;

#[derive(Debug, Clone)]
pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Debug, Clone, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug, Clone, Default)]
pub struct Func {
    pub name: String,
    pub ret: TyId,
    pub params: Vec<(TyId, u32)>,
    pub vararg: bool,
    pub defined: bool,
    pub weak: bool,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

#[derive(Debug, Clone)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub types: Vec<TyInfo>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub consts: Vec<Const>,
    pub func_by_name: HashMap<String, u32>,
    pub global_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, u64>,
}

pub const FUNC_BASE: u64 = 0x7f00_0000_0000_0000;

impl Module {
    #[inline]
    pub fn ty(&self, t: TyId) -> &TyInfo {
        &self.types[t as usize]
    }
    pub fn int_width(&self, t: TyId) -> Option<u32> {
        match self.types[t as usize].ty {
            Ty::Int(w) => Some(w),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Id(String),
    Int(i128),
    Float(String),
    CStr(Vec<u8>),
    Str(String),
    Attr,
    P(char),
    Ellipsis,
    Meta,
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0,
    }
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex_quoted(s: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // s[i] is the char after the opening quote
    let mut out = vec![];
    while s[i] != b'"' {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
                i += 3;
            }
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

/// Lexes one (joined) line; stops at metadata attachments.
fn lex(line: &str) -> Vec<Tok> {
    let s = line.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let n = s.len();
    while i < n {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < n && s[i + 1] == b'"' {
                    let (q, j) = lex_quoted(s, i + 2);
                    name = String::from_utf8_lossy(&q).to_string();
                    i = j;
                } else {
                    let mut j = i + 1;
                    while j < n && is_name(s[j]) {
                        j += 1;
                    }
                    name = line[i + 1..j].to_string();
                    i = j;
                }
                v.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'#' => {
                i += 1;
                while i < n && s[i].is_ascii_digit() {
                    i += 1;
                }
                v.push(Tok::Attr);
            }
            b'!' => {
                v.push(Tok::Meta);
                i += 1;
                if i < n && s[i] == b'{' {
                    // inline metadata node: not expected
                }
                // metadata names / numbers
                while i < n && is_name(s[i]) {
                    i += 1;
                }
            }
            b'"' => {
                let (q, j) = lex_quoted(s, i + 1);
                i = j;
                v.push(Tok::Str(String::from_utf8_lossy(&q).to_string()));
            }
            b'c' if i + 1 < n && s[i + 1] == b'"' => {
                let (q, j) = lex_quoted(s, i + 2);
                i = j;
                v.push(Tok::CStr(q));
            }
            b'.' if i + 2 < n && s[i + 1] == b'.' && s[i + 2] == b'.' => {
                v.push(Tok::Ellipsis);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                let mut fl = false;
                if c == b'0' && i < n && s[i] == b'x' {
                    i += 1;
                    while i < n && (s[i].is_ascii_alphanumeric()) {
                        i += 1;
                    }
                    v.push(Tok::Float(line[st..i].to_string()));
                    continue;
                }
                while i < n && (s[i].is_ascii_digit() || s[i] == b'.' || s[i] == b'e' || s[i] == b'E'
                    || ((s[i] == b'+' || s[i] == b'-') && (s[i - 1] == b'e' || s[i - 1] == b'E')))
                {
                    if !s[i].is_ascii_digit() {
                        fl = true;
                    }
                    i += 1;
                }
                if fl {
                    v.push(Tok::Float(line[st..i].to_string()));
                } else {
                    match line[st..i].parse::<i128>() {
                        Ok(x) => v.push(Tok::Int(x)),
                        Err(_) => match line[st..i].parse::<u128>() {
                            Ok(x) => v.push(Tok::Int(x as i128)),
                            Err(_) => v.push(Tok::Float(line[st..i].to_string())),
                        },
                    }
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < n && is_name(s[i]) {
                    i += 1;
                }
                v.push(Tok::Id(line[st..i].to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

// ---------------------------------------------------------------- parser

pub struct Parser {
    pub m: Module,
    ty_map: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    named_src: HashMap<String, String>,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

struct TS<'a> {
    t: &'a [Tok],
    i: usize,
}

type PR<T> = Result<T, String>;

impl<'a> TS<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> PR<Tok> {
        let r = self.t.get(self.i).cloned().ok_or_else(|| "unexpected end".to_string());
        self.i += 1;
        r
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect_p(&mut self, c: char) -> PR<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {} in {:?}", c, self.i, self.peek()))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect_id(&mut self, s: &str) -> PR<()> {
        if self.eat_id(s) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", s, self.peek()))
        }
    }
    fn eat_ids(&mut self, l: &[&str]) {
        loop {
            match self.peek() {
                Some(Tok::Id(x)) if l.contains(&x.as_str()) => self.i += 1,
                _ => return,
            }
        }
    }
    /// skip a balanced (...) group if present
    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            while let Some(t) = self.peek() {
                match t {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    return;
                }
            }
        }
    }
}

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr",
    "inttoptr", "ptrtoint", "ptrtoaddr", "trunc", "add", "sub", "xor", "bitcast", "asm", "blockaddress",
    "no_cfi", "dso_local_equivalent", "addrspacecast",
];

fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

impl Parser {
    pub fn new() -> Self {
        Parser {
            m: Module {
                types: vec![],
                funcs: vec![],
                globals: vec![],
                consts: vec![],
                func_by_name: HashMap::new(),
                global_by_name: HashMap::new(),
                aliases: HashMap::new(),
            },
            ty_map: HashMap::new(),
            named: HashMap::new(),
            named_src: HashMap::new(),
        }
    }

    fn mk_ty(&mut self, t: Ty) -> TyId {
        if let Some(x) = self.ty_map.get(&t) {
            return *x;
        }
        let mut offsets = vec![];
        let (size, align) = match &t {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Token => (0, 1),
            Ty::Int(w) => {
                let bytes = (*w as u64 + 7) / 8;
                let a = bytes.next_power_of_two().min(16);
                // store size; alloc size rounding is handled by the users (arrays/structs)
                (bytes, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float => (4, 4),
            Ty::Double => (8, 8),
            Ty::Array(n, e) => {
                let ei = &self.m.types[*e as usize];
                let es = alloc_size(ei);
                (n * es, ei.align)
            }
            Ty::Vector(n, e) => {
                let bits = match self.m.types[*e as usize].ty {
                    Ty::Int(w) => w as u64,
                    Ty::Ptr | Ty::Double => 64,
                    Ty::Float => 32,
                    _ => 64,
                };
                let by = (bits * *n as u64 + 7) / 8;
                (by, by.next_power_of_two())
            }
            Ty::Struct(packed, fs) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs {
                    let fi = &self.m.types[*f as usize];
                    let a = if *packed { 1 } else { fi.align };
                    off = (off + a - 1) / a * a;
                    offsets.push(off);
                    off += alloc_size(fi);
                    al = al.max(a);
                }
                off = (off + al - 1) / al * al;
                (off, al)
            }
        };
        let id = self.m.types.len() as TyId;
        self.m.types.push(TyInfo { ty: t.clone(), size, align, offsets });
        self.ty_map.insert(t, id);
        id
    }

    fn is_type_start(&self, ts: &TS) -> bool {
        match ts.peek() {
            Some(Tok::Id(s)) => {
                matches!(s.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('[')) | Some(Tok::P('<')) | Some(Tok::P('{')) => true,
            Some(Tok::Local(_)) => true,
            _ => false,
        }
    }

    fn ty(&mut self, ts: &mut TS) -> PR<TyId> {
        let t = match ts.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if ts.eat_id("addrspace") {
                        ts.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" => Ty::Label,
                "metadata" => Ty::Metadata,
                "token" => Ty::Token,
                "half" => Ty::Int(16),
                "fp128" | "x86_fp80" => Ty::Int(128),
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("bad type {s}"))?),
                _ => return Err(format!("bad type word {s}")),
            },
            Tok::P('[') => {
                let n = match ts.next()? {
                    Tok::Int(n) => n as u64,
                    x => return Err(format!("array len {x:?}")),
                };
                ts.expect_id("x")?;
                let e = self.ty(ts)?;
                ts.expect_p(']')?;
                Ty::Array(n, e)
            }
            Tok::P('<') => {
                if ts.eat_p('{') {
                    let f = self.ty_list(ts, '}')?;
                    ts.expect_p('>')?;
                    Ty::Struct(true, f)
                } else {
                    let n = match ts.next()? {
                        Tok::Int(n) => n as u32,
                        x => return Err(format!("vector len {x:?}")),
                    };
                    ts.expect_id("x")?;
                    let e = self.ty(ts)?;
                    ts.expect_p('>')?;
                    Ty::Vector(n, e)
                }
            }
            Tok::P('{') => {
                let f = self.ty_list(ts, '}')?;
                Ty::Struct(false, f)
            }
            Tok::Local(n) => {
                if let Some(t) = self.named.get(&n) {
                    return Ok(*t);
                }
                if let Some(src) = self.named_src.get(&n).cloned() {
                    let toks = lex(&src);
                    let mut ts2 = TS { t: &toks, i: 0 };
                    if ts2.is_id("opaque") {
                        let t = self.mk_ty(Ty::Struct(false, vec![]));
                        self.named.insert(n, t);
                        return Ok(t);
                    }
                    let t = self.ty(&mut ts2)?;
                    self.named.insert(n, t);
                    return Ok(t);
                }
                return Err(format!("unknown named type %{n}"));
            }
            x => return Err(format!("bad type token {x:?}")),
        };
        Ok(self.mk_ty(t))
    }

    fn ty_list(&mut self, ts: &mut TS, end: char) -> PR<Vec<TyId>> {
        let mut v = vec![];
        if ts.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(ts)?);
            if ts.eat_p(end) {
                return Ok(v);
            }
            ts.expect_p(',')?;
        }
    }

    /// Skip parameter/return attributes.
    fn skip_attrs(&self, ts: &mut TS) {
        loop {
            match ts.peek() {
                Some(Tok::Id(s)) => {
                    if VALUE_WORDS.contains(&s.as_str()) {
                        return;
                    }
                    let al = s == "align";
                    ts.i += 1;
                    if al {
                        if let Some(Tok::Int(_)) = ts.peek() {
                            ts.i += 1;
                        }
                    }
                    ts.skip_parens();
                }
                Some(Tok::Str(_)) => {
                    ts.i += 1;
                    if ts.eat_p('=') {
                        ts.i += 1;
                    }
                }
                Some(Tok::Attr) => ts.i += 1,
                _ => return,
            }
        }
    }

    /// Like skip_attrs but stops at type starts (used between `call` and the return type).
    fn skip_ret_attrs(&self, ts: &mut TS) {
        loop {
            if self.is_type_start(ts) {
                return;
            }
            match ts.peek() {
                Some(Tok::Id(s)) => {
                    let al = s == "align" || s == "cc";
                    ts.i += 1;
                    if al {
                        if let Some(Tok::Int(_)) = ts.peek() {
                            ts.i += 1;
                        }
                    }
                    ts.skip_parens();
                }
                Some(Tok::Str(_)) => {
                    ts.i += 1;
                    if ts.eat_p('=') {
                        ts.i += 1;
                    }
                }
                Some(Tok::Attr) => ts.i += 1,
                _ => return,
            }
        }
    }

    fn zero_const(&self, t: TyId) -> Const {
        match &self.m.types[t as usize].ty {
            Ty::Int(w) => Const::Int(0, *w),
            Ty::Ptr | Ty::Double => Const::Int(0, 64),
            Ty::Float => Const::Int(0, 32),
            Ty::Array(n, e) => Const::Agg((0..*n).map(|_| self.zero_const(*e)).collect()),
            Ty::Vector(n, e) => Const::Agg((0..*n).map(|_| self.zero_const(*e)).collect()),
            Ty::Struct(_, f) => Const::Agg(f.iter().map(|x| self.zero_const(*x)).collect()),
            _ => Const::Int(0, 64),
        }
    }

    fn global_addr(&self, n: &str) -> PR<u64> {
        if let Some(g) = self.m.global_by_name.get(n) {
            return Ok(self.m.globals[*g as usize].addr);
        }
        if let Some(f) = self.m.func_by_name.get(n) {
            let fu = &self.m.funcs[*f as usize];
            if fu.weak && !fu.defined {
                return Ok(0);
            }
            return Ok(FUNC_BASE + (*f as u64) * 16);
        }
        if let Some(a) = self.m.aliases.get(n) {
            return Ok(*a);
        }
        Err(format!("unknown global @{n}"))
    }

    fn const_int(&self, c: &Const) -> u128 {
        match c {
            Const::Int(v, _) => *v,
            Const::Agg(_) => 0,
        }
    }

    fn parse_const(&mut self, ts: &mut TS, t: TyId) -> PR<Const> {
        let w = match self.m.types[t as usize].ty {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 64,
        };
        let tok = ts.next()?;
        Ok(match tok {
            Tok::Int(x) => match self.m.types[t as usize].ty {
                Ty::Double => Const::Int((x as f64).to_bits() as u128, 64),
                Ty::Float => Const::Int((x as f32).to_bits() as u128, 32),
                _ => Const::Int(mask128(x as u128, w), w),
            },
            Tok::Float(s) => {
                let bits: u64 = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).map_err(|_| format!("bad float {s}"))?
                } else {
                    s.parse::<f64>().map_err(|_| format!("bad float {s}"))?.to_bits()
                };
                match self.m.types[t as usize].ty {
                    Ty::Float => Const::Int((f64::from_bits(bits) as f32).to_bits() as u128, 32),
                    _ => Const::Int(bits as u128, 64),
                }
            }
            Tok::Global(n) => Const::Int(self.global_addr(&n)? as u128, 64),
            Tok::CStr(b) => Const::Agg(b.into_iter().map(|x| Const::Int(x as u128, 8)).collect()),
            Tok::P('[') => Const::Agg(self.const_list(ts, ']')?),
            Tok::P('{') => Const::Agg(self.const_list(ts, '}')?),
            Tok::P('<') => {
                if ts.eat_p('{') {
                    let v = self.const_list(ts, '}')?;
                    ts.expect_p('>')?;
                    Const::Agg(v)
                } else {
                    Const::Agg(self.const_list(ts, '>')?)
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Const::Int(1, 1),
                "false" => Const::Int(0, 1),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.zero_const(t),
                "splat" => {
                    ts.expect_p('(')?;
                    let et = self.ty(ts)?;
                    let c = self.parse_const(ts, et)?;
                    ts.expect_p(')')?;
                    let n = match self.m.types[t as usize].ty {
                        Ty::Vector(n, _) => n,
                        _ => return Err("splat of non-vector".into()),
                    };
                    Const::Agg((0..n).map(|_| c.clone()).collect())
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast" | "addrspacecast" => {
                    ts.expect_p('(')?;
                    let ft = self.ty(ts)?;
                    let c = self.parse_const(ts, ft)?;
                    ts.expect_id("to")?;
                    let tt = self.ty(ts)?;
                    ts.expect_p(')')?;
                    let w2 = match self.m.types[tt as usize].ty {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    match c {
                        Const::Int(v, _) => Const::Int(mask128(v, w2), w2),
                        c => c,
                    }
                }
                "add" | "sub" | "xor" | "mul" => {
                    ts.eat_ids(&["nuw", "nsw"]);
                    ts.expect_p('(')?;
                    let ft = self.ty(ts)?;
                    let a = self.parse_const(ts, ft)?;
                    ts.expect_p(',')?;
                    let ft2 = self.ty(ts)?;
                    let b = self.parse_const(ts, ft2)?;
                    ts.expect_p(')')?;
                    let (a, b) = (self.const_int(&a), self.const_int(&b));
                    let r = match s.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    Const::Int(mask128(r, w), w)
                }
                "getelementptr" => {
                    ts.eat_ids(&["inbounds", "nuw", "nusw"]);
                    if ts.eat_id("inrange") {
                        ts.skip_parens();
                    }
                    ts.expect_p('(')?;
                    let et = self.ty(ts)?;
                    ts.expect_p(',')?;
                    let pt = self.ty(ts)?;
                    let base = self.parse_const(ts, pt)?;
                    let mut addr = self.const_int(&base) as i128;
                    let mut cur = et;
                    let mut first = true;
                    while ts.eat_p(',') {
                        ts.eat_id("inrange");
                        let it = self.ty(ts)?;
                        let c = self.parse_const(ts, it)?;
                        let iw = match self.m.types[it as usize].ty {
                            Ty::Int(w) => w,
                            _ => 64,
                        };
                        let v = sext128(self.const_int(&c), iw);
                        if first {
                            addr += v * alloc_size(&self.m.types[cur as usize]) as i128;
                            first = false;
                        } else {
                            let (o, nt) = self.index_ty(cur, v)?;
                            addr += o as i128;
                            cur = nt;
                        }
                    }
                    ts.expect_p(')')?;
                    Const::Int((addr as u64) as u128, 64)
                }
                _ => return Err(format!("const word {s}")),
            },
            x => return Err(format!("const token {x:?}")),
        })
    }

    fn index_ty(&self, t: TyId, v: i128) -> PR<(i64, TyId)> {
        let ti = &self.m.types[t as usize];
        match &ti.ty {
            Ty::Struct(_, f) => {
                let i = v as usize;
                Ok((ti.offsets[i] as i64, f[i]))
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                Ok(((v * alloc_size(&self.m.types[*e as usize]) as i128) as i64, *e))
            }
            _ => Err("index into scalar".into()),
        }
    }

    fn const_list(&mut self, ts: &mut TS, end: char) -> PR<Vec<Const>> {
        let mut v = vec![];
        if ts.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty(ts)?;
            v.push(self.parse_const(ts, t)?);
            if ts.eat_p(end) {
                return Ok(v);
            }
            ts.expect_p(',')?;
        }
    }

    fn const_bytes(&self, c: &Const, t: TyId, out: &mut [u8]) {
        let ti = &self.m.types[t as usize];
        match (c, &ti.ty) {
            (Const::Int(v, _), _) => {
                let n = ti.size.min(out.len() as u64) as usize;
                for i in 0..n.min(16) {
                    out[i] = (v >> (8 * i)) as u8;
                }
            }
            (Const::Agg(l), Ty::Array(_, e)) => {
                let es = alloc_size(&self.m.types[*e as usize]) as usize;
                for (i, x) in l.iter().enumerate() {
                    self.const_bytes(x, *e, &mut out[i * es..(i + 1) * es]);
                }
            }
            (Const::Agg(l), Ty::Vector(_, e)) => {
                let es = self.m.types[*e as usize].size as usize;
                for (i, x) in l.iter().enumerate() {
                    self.const_bytes(x, *e, &mut out[i * es..(i + 1) * es]);
                }
            }
            (Const::Agg(l), Ty::Struct(_, f)) => {
                for (i, x) in l.iter().enumerate() {
                    let o = ti.offsets[i] as usize;
                    let s = self.m.types[f[i] as usize].size as usize;
                    self.const_bytes(x, f[i], &mut out[o..o + s]);
                }
            }
            _ => {}
        }
    }

    fn opd_const(&mut self, c: Const) -> Opd {
        match c {
            Const::Int(v, w) if w <= 64 => Opd::I(v as u64),
            c => {
                self.m.consts.push(c);
                Opd::C(self.m.consts.len() as u32 - 1)
            }
        }
    }

    fn value(&mut self, ts: &mut TS, t: TyId, fc: &mut FnCtx) -> PR<Opd> {
        if let Some(Tok::Local(n)) = ts.peek() {
            let r = fc.reg(n);
            ts.i += 1;
            return Ok(Opd::Reg(r));
        }
        let c = self.parse_const(ts, t)?;
        Ok(self.opd_const(c))
    }

    fn ty_value(&mut self, ts: &mut TS, fc: &mut FnCtx) -> PR<(TyId, Opd)> {
        let t = self.ty(ts)?;
        self.skip_attrs(ts);
        let v = self.value(ts, t, fc)?;
        Ok((t, v))
    }

    fn label(&mut self, ts: &mut TS, fc: &mut FnCtx) -> PR<u32> {
        ts.expect_id("label")?;
        match ts.next()? {
            Tok::Local(n) => Ok(fc.block(&n)),
            x => Err(format!("label {x:?}")),
        }
    }

    // ------------------------------------------------------------ module level

    pub fn parse(mut self, src: &str) -> PR<Module> {
        let lines: Vec<&str> = src.lines().collect();
        // prescan
        let mut gi = 1u64;
        let mut alias_lines = vec![];
        for l in &lines {
            if let Some(r) = l.strip_prefix('%') {
                // named type
                let toks = lex(l);
                if let Some(Tok::Local(n)) = toks.first() {
                    if let Some(p) = r.find(" = type ") {
                        self.named_src.insert(n.clone(), r[p + 8..].to_string());
                    }
                }
            } else if l.starts_with('@') {
                let name = line_global_name(l);
                let rest = &l[l.find(" = ").ok_or("global line")? + 3..];
                if is_alias(rest) {
                    alias_lines.push((name, rest.to_string()));
                    continue;
                }
                let external = rest.starts_with("external ") || rest.starts_with("extern_weak ");
                let addr = gi << 32;
                gi += 1;
                self.m.global_by_name.insert(name.clone(), self.m.globals.len() as u32);
                self.m.globals.push(Global { name, addr, size: 0, init: vec![], constant: false, external });
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = find_func_at(l).ok_or_else(|| format!("func line {l}"))?;
                let name = line_global_name(&l[at..]);
                let weak = l.contains(" extern_weak ");
                if !self.m.func_by_name.contains_key(&name) {
                    self.m.func_by_name.insert(name.clone(), self.m.funcs.len() as u32);
                    self.m.funcs.push(Func { name, defined: l.starts_with("define "), weak, ..Default::default() });
                }
            }
        }
        for (n, rest) in alias_lines {
            // alias [ty], ptr @target
            if let Some(p) = rest.rfind('@') {
                let t = line_global_name(&rest[p..]);
                let a = self.global_addr(&t)?;
                self.m.aliases.insert(n, a);
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                self.parse_global(l).map_err(|e| format!("{e}\n in global: {}", &l[..l.len().min(300)]))?;
                i += 1;
            } else if l.starts_with("declare ") {
                self.parse_header(l).map_err(|e| format!("{e}\n in: {}", &l[..l.len().min(300)]))?;
                i += 1;
            } else if l.starts_with("define ") {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                self.parse_func(&lines[st..i])?;
                i += 1;
            } else {
                i += 1;
            }
        }
        Ok(self.m)
    }

    fn parse_global(&mut self, l: &str) -> PR<()> {
        let name = line_global_name(l);
        let gid = match self.m.global_by_name.get(&name) {
            Some(g) => *g as usize,
            None => return Ok(()), // alias
        };
        let p = l.find(" = ").unwrap();
        let rest = &l[p + 3..];
        let toks = lex(rest);
        let mut ts = TS { t: &toks, i: 0 };
        let mut constant = false;
        loop {
            match ts.next()? {
                Tok::Id(s) => match s.as_str() {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    _ => ts.skip_parens(),
                },
                x => return Err(format!("global attr {x:?}")),
            }
        }
        let t = self.ty(&mut ts)?;
        let size = alloc_size(&self.m.types[t as usize]);
        let mut init = vec![0u8; size as usize];
        let ext = self.m.globals[gid].external;
        if !ext {
            // fast path for byte strings and zeroinitializer
            match ts.peek() {
                Some(Tok::CStr(b)) => init[..b.len()].copy_from_slice(b),
                Some(Tok::Id(s)) if s == "zeroinitializer" || s == "undef" || s == "poison" => {}
                _ => {
                    let c = self.parse_const(&mut ts, t)?;
                    self.const_bytes(&c, t, &mut init);
                }
            }
        }
        let g = &mut self.m.globals[gid];
        g.size = size;
        g.init = init;
        g.constant = constant;
        Ok(())
    }

    fn parse_header(&mut self, l: &str) -> PR<(u32, Vec<Option<String>>)> {
        let at = find_func_at(l).ok_or("no @")?;
        let name = line_global_name(&l[at..]);
        let fid = self.m.func_by_name[&name];
        let toks = lex(l);
        let mut ts = TS { t: &toks, i: 1 };
        // linkage & attrs until the return type
        self.skip_ret_attrs(&mut ts);
        let ret = self.ty(&mut ts)?;
        match ts.next()? {
            Tok::Global(_) => {}
            x => return Err(format!("func name {x:?}")),
        }
        ts.expect_p('(')?;
        let mut params = vec![];
        let mut names = vec![];
        let mut vararg = false;
        if !ts.eat_p(')') {
            loop {
                if let Some(Tok::Ellipsis) = ts.peek() {
                    ts.i += 1;
                    vararg = true;
                    ts.expect_p(')')?;
                    break;
                }
                let t = self.ty(&mut ts)?;
                self.skip_attrs(&mut ts);
                let mut nm = None;
                if let Some(Tok::Local(n)) = ts.peek() {
                    nm = Some(n.clone());
                    ts.i += 1;
                }
                params.push((t, u32::MAX));
                names.push(nm);
                if ts.eat_p(')') {
                    break;
                }
                ts.expect_p(',')?;
            }
        }
        let f = &mut self.m.funcs[fid as usize];
        f.ret = ret;
        f.params = params;
        f.vararg = vararg;
        Ok((fid, names))
    }

    fn parse_func(&mut self, lines: &[&str]) -> PR<()> {
        let (fid, names) = self.parse_header(lines[0]).map_err(|e| format!("{e}\n in: {}", &lines[0][..lines[0].len().min(300)]))?;
        let mut fc = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
        let mut anon = 0;
        for (i, n) in names.iter().enumerate() {
            let nm = match n {
                Some(n) => n.clone(),
                None => {
                    let s = format!("{anon}");
                    anon += 1;
                    s
                }
            };
            let r = fc.reg(&nm);
            self.m.funcs[fid as usize].params[i].1 = r;
        }
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mut joined: Vec<String> = vec![];
        // join continuation lines
        for l in &lines[1..] {
            if l.is_empty() {
                continue;
            }
            let cont = l.starts_with("    ") || l.trim_start().starts_with(']');
            if cont && !joined.is_empty() {
                let last = joined.last_mut().unwrap();
                last.push(' ');
                last.push_str(l.trim());
            } else {
                joined.push(l.to_string());
            }
        }
        let mut first = true;
        for l in &joined {
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') {
                    let (q, _) = lex_quoted(r.as_bytes(), 0);
                    String::from_utf8_lossy(&q).to_string()
                } else {
                    match l.find(':') {
                        Some(p) => l[..p].to_string(),
                        None => return Err(format!("bad label line {l}")),
                    }
                };
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                let id = fc.block(&lab);
                cur = Some((id, Block { name: lab, ..Default::default() }));
                first = false;
                continue;
            }
            if first {
                // implicit entry label
                let id = fc.block("\u{1}entry");
                cur = Some((id, Block { name: "entry".into(), ..Default::default() }));
                first = false;
                // implicit numbered name: the next unnamed number
                let num = names.iter().filter(|n| match n {
                    Some(s) => s.bytes().all(|c| c.is_ascii_digit()),
                    None => true,
                }).count();
                fc.blocks.insert(format!("{num}"), id);
            }
            let b = &mut cur.as_mut().unwrap().1;
            let r = self.parse_inst(l, &mut fc, b);
            if let Err(e) = r {
                b.insts.push(Inst::Unsupported(format!("{e}: {}", l.trim())));
            }
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        // the entry block must be 0; FnCtx numbers by first sight, entry is first seen
        let nb = blocks.iter().map(|b| b.0 + 1).max().unwrap_or(0);
        let mut out = vec![Block::default(); nb as usize];
        let entry = blocks[0].0;
        for (id, b) in blocks {
            out[id as usize] = b;
        }
        if entry != 0 {
            return Err("entry block is not 0".into());
        }
        let f = &mut self.m.funcs[fid as usize];
        f.blocks = out;
        f.nregs = fc.regs.len() as u32;
        Ok(())
    }

    fn parse_inst(&mut self, l: &str, fc: &mut FnCtx, b: &mut Block) -> PR<()> {
        let toks = lex(l);
        // cut metadata
        let mut end = toks.len();
        for (i, t) in toks.iter().enumerate() {
            if *t == Tok::Meta && i > 0 && toks[i - 1] == Tok::P(',') {
                end = i - 1;
                break;
            }
        }
        let toks = &toks[..end];
        let mut ts = TS { t: toks, i: 0 };
        let mut d = NODST;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (toks.first(), toks.get(1)) {
            d = fc.reg(n);
            ts.i = 2;
        }
        let mut op = match ts.next()? {
            Tok::Id(s) => s,
            x => return Err(format!("opcode {x:?}")),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match ts.next()? {
                Tok::Id(s) => s,
                x => return Err(format!("opcode {x:?}")),
            };
        }
        let binop = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(op) = binop {
            ts.eat_ids(&["nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
            let t = self.ty(&mut ts)?;
            let a = self.value(&mut ts, t, fc)?;
            ts.expect_p(',')?;
            let bb = self.value(&mut ts, t, fc)?;
            match self.m.types[t as usize].ty {
                Ty::Int(w) => b.insts.push(Inst::Bin { op, w, d, a, b: bb }),
                _ => b.insts.push(Inst::VBin { op, ty: t, d, a, b: bb }),
            }
            return Ok(());
        }
        let castop = match op.as_str() {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "bitcast" | "addrspacecast" => Some(CastOp::Bitcast),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            _ => None,
        };
        if let Some(op) = castop {
            ts.eat_ids(&["nuw", "nsw", "nneg", "fast", "nnan", "ninf", "nsz"]);
            let (from, a) = self.ty_value(&mut ts, fc)?;
            ts.expect_id("to")?;
            let to = self.ty(&mut ts)?;
            b.insts.push(Inst::Cast { op, from, to, d, a });
            return Ok(());
        }
        match op.as_str() {
            "ret" => {
                let t = self.ty(&mut ts)?;
                if self.m.types[t as usize].ty == Ty::Void {
                    b.insts.push(Inst::Ret { v: None });
                } else {
                    let v = self.value(&mut ts, t, fc)?;
                    b.insts.push(Inst::Ret { v: Some(v) });
                }
            }
            "br" => {
                if ts.is_id("label") {
                    let t = self.label(&mut ts, fc)?;
                    b.insts.push(Inst::Br { t });
                } else {
                    let (_, c) = self.ty_value(&mut ts, fc)?;
                    ts.expect_p(',')?;
                    let t = self.label(&mut ts, fc)?;
                    ts.expect_p(',')?;
                    let e = self.label(&mut ts, fc)?;
                    b.insts.push(Inst::CondBr { c, t, e });
                }
            }
            "switch" => {
                let (t, c) = self.ty_value(&mut ts, fc)?;
                let w = self.m.int_width(t).ok_or("switch type")?;
                ts.expect_p(',')?;
                let default = self.label(&mut ts, fc)?;
                ts.expect_p('[')?;
                let mut cases = vec![];
                while !ts.eat_p(']') {
                    let (_, v) = self.ty_value(&mut ts, fc)?;
                    let v = match v {
                        Opd::I(v) => v,
                        _ => return Err("switch case".into()),
                    };
                    ts.expect_p(',')?;
                    let l = self.label(&mut ts, fc)?;
                    cases.push((v, l));
                }
                b.insts.push(Inst::Switch { w, c, default, cases });
            }
            "unreachable" => b.insts.push(Inst::Unreachable),
            "resume" => b.insts.push(Inst::Unreachable),
            "landingpad" => b.insts.push(Inst::Unsupported("landingpad".into())),
            "fence" => b.insts.push(Inst::Fence),
            "freeze" => {
                let (_, a) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::Freeze { d, a });
            }
            "fneg" => {
                ts.eat_ids(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (ty, a) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::FNeg { ty, d, a });
            }
            "phi" => {
                ts.eat_ids(&["fast", "nnan", "ninf", "nsz"]);
                let t = self.ty(&mut ts)?;
                let mut inc = vec![];
                loop {
                    ts.expect_p('[')?;
                    let v = self.value(&mut ts, t, fc)?;
                    ts.expect_p(',')?;
                    let bl = match ts.next()? {
                        Tok::Local(n) => fc.block(&n),
                        x => return Err(format!("phi block {x:?}")),
                    };
                    ts.expect_p(']')?;
                    inc.push((bl, v));
                    if !ts.eat_p(',') {
                        break;
                    }
                }
                b.phis.push(Phi { d, inc });
            }
            "select" => {
                ts.eat_ids(&["fast", "nnan", "ninf", "nsz"]);
                let (cty, c) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (ty, a) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, bb) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::Select { cty, ty, d, c, a, b: bb });
            }
            "icmp" => {
                ts.eat_ids(&["samesign"]);
                let p = match ts.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err(format!("icmp {s}")),
                    },
                    x => return Err(format!("icmp {x:?}")),
                };
                let t = self.ty(&mut ts)?;
                let a = self.value(&mut ts, t, fc)?;
                ts.expect_p(',')?;
                let bb = self.value(&mut ts, t, fc)?;
                match self.m.int_width(t) {
                    Some(w) => b.insts.push(Inst::ICmp { p, w, d, a, b: bb }),
                    None => b.insts.push(Inst::VICmp { p, ty: t, d, a, b: bb }),
                }
            }
            "fcmp" => {
                ts.eat_ids(&["fast", "nnan", "ninf", "nsz"]);
                let p = match ts.next()? {
                    Tok::Id(s) => s,
                    x => return Err(format!("fcmp {x:?}")),
                };
                let t = self.ty(&mut ts)?;
                let a = self.value(&mut ts, t, fc)?;
                ts.expect_p(',')?;
                let bb = self.value(&mut ts, t, fc)?;
                b.insts.push(Inst::FCmp { p, ty: t, d, a, b: bb });
            }
            "alloca" => {
                ts.eat_ids(&["inalloca", "swifterror"]);
                let t = self.ty(&mut ts)?;
                let size = alloc_size(&self.m.types[t as usize]);
                let mut n = Opd::I(1);
                if ts.eat_p(',') && self.is_type_start(&ts) {
                    let (_, v) = self.ty_value(&mut ts, fc)?;
                    n = v;
                }
                b.insts.push(Inst::Alloca { d, size, n });
            }
            "load" => {
                ts.eat_ids(&["atomic", "volatile"]);
                let ty = self.ty(&mut ts)?;
                ts.expect_p(',')?;
                let (_, p) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::Load { d, ty, p });
            }
            "store" => {
                ts.eat_ids(&["atomic", "volatile"]);
                let (ty, v) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, p) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::Store { ty, v, p });
            }
            "getelementptr" => {
                ts.eat_ids(&["inbounds", "nuw", "nusw"]);
                let et = self.ty(&mut ts)?;
                ts.expect_p(',')?;
                let (bt, base) = self.ty_value(&mut ts, fc)?;
                if self.m.types[bt as usize].ty != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while ts.eat_p(',') {
                    let (it, v) = self.ty_value(&mut ts, fc)?;
                    let iw = self.m.int_width(it).ok_or("gep index type")?;
                    let (esz, nt) = if first {
                        first = false;
                        (alloc_size(&self.m.types[cur as usize]), cur)
                    } else {
                        match self.m.types[cur as usize].ty.clone() {
                            Ty::Struct(_, f) => {
                                let i = match v {
                                    Opd::I(i) => i as usize,
                                    _ => return Err("gep struct index".into()),
                                };
                                off += self.m.types[cur as usize].offsets[i] as i64;
                                cur = f[i];
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => (alloc_size(&self.m.types[e as usize]), e),
                            _ => return Err("gep into scalar".into()),
                        }
                    };
                    cur = nt;
                    match v {
                        Opd::I(c) => {
                            let c = sext128(c as u128, iw) as i64;
                            off = off.wrapping_add(c.wrapping_mul(esz as i64));
                        }
                        v => terms.push((v, esz, iw)),
                    }
                }
                b.insts.push(Inst::Gep { d, base, off, terms });
            }
            "extractvalue" => {
                let (_, a) = self.ty_value(&mut ts, fc)?;
                let mut idx = vec![];
                while ts.eat_p(',') {
                    match ts.next()? {
                        Tok::Int(i) => idx.push(i as u32),
                        x => return Err(format!("extractvalue {x:?}")),
                    }
                }
                b.insts.push(Inst::ExtractValue { d, a, idx });
            }
            "insertvalue" => {
                let (ty, a) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, v) = self.ty_value(&mut ts, fc)?;
                let mut idx = vec![];
                while ts.eat_p(',') {
                    match ts.next()? {
                        Tok::Int(i) => idx.push(i as u32),
                        x => return Err(format!("insertvalue {x:?}")),
                    }
                }
                b.insts.push(Inst::InsertValue { d, a, v, idx, ty });
            }
            "extractelement" => {
                let (_, a) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, i) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::ExtractElement { d, a, i });
            }
            "insertelement" => {
                let (ty, a) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, v) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, i) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::InsertElement { d, a, v, i, ty });
            }
            "shufflevector" => {
                let (ta, a) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, bb) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let mt = self.ty(&mut ts)?;
                let n = match self.m.types[ta as usize].ty {
                    Ty::Vector(n, _) => n,
                    _ => return Err("shuffle".into()),
                };
                let mn = match self.m.types[mt as usize].ty {
                    Ty::Vector(n, _) => n,
                    _ => return Err("shuffle".into()),
                };
                let mut mask = vec![];
                if ts.eat_p('<') {
                    while !ts.eat_p('>') {
                        let t = self.ty(&mut ts)?;
                        match ts.peek() {
                            Some(Tok::Id(s)) if s == "poison" || s == "undef" => {
                                ts.i += 1;
                                mask.push(-1);
                            }
                            _ => {
                                let c = self.parse_const(&mut ts, t)?;
                                mask.push(self.const_int(&c) as i32);
                            }
                        }
                        ts.eat_p(',');
                    }
                } else {
                    let c = self.parse_const(&mut ts, mt)?;
                    match c {
                        Const::Agg(l) => {
                            for x in l {
                                mask.push(self.const_int(&x) as i32);
                            }
                        }
                        _ => mask = vec![0; mn as usize],
                    }
                }
                b.insts.push(Inst::Shuffle { d, a, b: bb, n, mask });
            }
            "atomicrmw" => {
                ts.eat_ids(&["volatile"]);
                let o = match ts.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => return Err(format!("atomicrmw {s}")),
                    },
                    x => return Err(format!("atomicrmw {x:?}")),
                };
                let (_, p) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (ty, v) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::Rmw { op: o, d, ty, p, v });
            }
            "cmpxchg" => {
                ts.eat_ids(&["weak", "volatile"]);
                let (_, p) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (ty, c) = self.ty_value(&mut ts, fc)?;
                ts.expect_p(',')?;
                let (_, n) = self.ty_value(&mut ts, fc)?;
                b.insts.push(Inst::CmpXchg { d, ty, p, c, n });
            }
            "call" | "invoke" => {
                self.skip_ret_attrs(&mut ts);
                let ret = self.ty(&mut ts)?;
                // optional explicit function type
                if ts.is_p('(') {
                    ts.skip_parens();
                }
                let f = match ts.next()? {
                    Tok::Global(n) => {
                        if let Some(f) = self.m.func_by_name.get(&n) {
                            Callee::Func(*f)
                        } else if let Some(a) = self.m.aliases.get(&n) {
                            Callee::Func(((*a - FUNC_BASE) / 16) as u32)
                        } else {
                            return Err(format!("unknown callee {n}"));
                        }
                    }
                    Tok::Local(n) => Callee::Ptr(Opd::Reg(fc.reg(&n))),
                    Tok::Id(s) if s == "asm" => {
                        ts.eat_ids(&["sideeffect", "alignstack", "inteldialect", "unwind"]);
                        let a = match ts.next()? {
                            Tok::Str(s) => s,
                            x => return Err(format!("asm {x:?}")),
                        };
                        ts.expect_p(',')?;
                        let _ = ts.next()?;
                        Callee::Asm(a)
                    }
                    Tok::Id(s) if s == "inttoptr" || s == "getelementptr" || s == "null" || s == "poison" || s == "undef" => {
                        ts.i -= 1;
                        let pt = self.mk_ty(Ty::Ptr);
                        let c = self.parse_const(&mut ts, pt)?;
                        Callee::Ptr(self.opd_const(c))
                    }
                    x => return Err(format!("callee {x:?}")),
                };
                ts.expect_p('(')?;
                let mut args = vec![];
                if !ts.eat_p(')') {
                    loop {
                        let t = self.ty(&mut ts)?;
                        if self.m.types[t as usize].ty == Ty::Metadata {
                            // metadata operand: skip to , or )
                            let mut dep = 0;
                            loop {
                                match ts.peek() {
                                    Some(Tok::P('(')) => dep += 1,
                                    Some(Tok::P(')')) if dep == 0 => break,
                                    Some(Tok::P(')')) => dep -= 1,
                                    Some(Tok::P(',')) if dep == 0 => break,
                                    None => return Err("metadata arg".into()),
                                    _ => {}
                                }
                                ts.i += 1;
                            }
                        } else {
                            self.skip_attrs(&mut ts);
                            let v = self.value(&mut ts, t, fc)?;
                            args.push((t, v));
                        }
                        if ts.eat_p(')') {
                            break;
                        }
                        ts.expect_p(',')?;
                    }
                }
                let mut to = None;
                if op == "invoke" {
                    while !ts.is_id("to") {
                        ts.next()?;
                    }
                    ts.i += 1;
                    to = Some(self.label(&mut ts, fc)?);
                    // unwind label
                    if ts.eat_id("unwind") {
                        let _ = self.label(&mut ts, fc)?;
                    }
                }
                b.insts.push(Inst::Call { d, ret, f, args, to });
            }
            _ => return Err(format!("unknown opcode {op}")),
        }
        Ok(())
    }
}

pub fn alloc_size(t: &TyInfo) -> u64 {
    let a = t.align.max(1);
    (t.size + a - 1) / a * a
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn is_alias(rest: &str) -> bool {
    for w in rest.split_whitespace().take(8) {
        match w {
            "alias" | "ifunc" => return true,
            "global" | "constant" => return false,
            _ => {}
        }
    }
    false
}

/// s starts with '@'
fn line_global_name(s: &str) -> String {
    let b = s.as_bytes();
    if b[1] == b'"' {
        let (q, _) = lex_quoted(b, 2);
        String::from_utf8_lossy(&q).to_string()
    } else {
        let mut j = 1;
        while j < b.len() && is_name(b[j]) {
            j += 1;
        }
        s[1..j].to_string()
    }
}

/// Position of the '@' naming the function in a define/declare line.
fn find_func_at(l: &str) -> Option<usize> {
    // the name is the first '@' (attributes before it never contain one)
    l.find('@')
}
