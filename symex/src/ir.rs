//! Reader for textual LLVM IR (the subset rustc emits), into a form that is quick to execute.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Array(u64, Box<Ty>),
    Vector(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(_, _) => self.store_size().next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (*n as u64 * w as u64).div_ceil(8),
                _ => *n as u64 * t.store_size(),
            },
            _ => self.size(),
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) => self.store_size().next_multiple_of(self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(..) => self.store_size().next_multiple_of(self.align()),
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for t in ts {
                    if !*packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    o.next_multiple_of(self.align())
                }
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("field of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    W(u128),
    A(Vec<Opd>),
    U,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bitcast,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd, u32),
    ICmp(Pred, Ty, Opd, Opd, u32),
    Cast(Cast, Ty, Opd, Ty, u32),
    Select(Ty, Opd, Ty, Opd, Opd, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u16, u64)>, u32),
    Alloca(u64, u32),
    AllocaN(u64, Opd, u32),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u16, Opd, u32, Vec<(u128, u32)>),
    Call(Box<CallI>),
    Ret(Option<Opd>),
    Extract(Opd, Vec<u32>, u32),
    Insert(Ty, Opd, Opd, Vec<u32>, u32),
    ExtractEl(Ty, Opd, Opd, u32),
    InsertEl(Ty, Opd, Opd, Opd, u32),
    Shuffle(Ty, Opd, Opd, Vec<i32>, u32),
    Rmw(RmwOp, Ty, Opd, Opd, u32),
    CmpXchg(Ty, Opd, Opd, Opd, u32),
    Freeze(Opd, u32),
    Nop,
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Bin(Bin),
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ptr(Opd),
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub ret: Ty,
    pub dst: Option<u32>,
    /// normal destination of an invoke
    pub cont: Option<u32>,
    pub byval: Vec<Option<u64>>,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
    pub lines: Vec<u32>,
}
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub err: Option<String>,
    pub ret: Ty,
}
pub struct Global {
    pub name: String,
    pub init: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
}
pub const BASE: u64 = 16;
pub fn gaddr(id: u32) -> u64 {
    (id as u64 + BASE) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    L(String),
    G(String),
    N(String),
    S(Vec<u8>),
    P(char),
    Dots,
    Meta,
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, j) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (s[i + 2..j].to_string(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut v = vec![];
                while b[j] != b'"' {
                    if b[j] == b'\\' && b[j + 1] == b'\\' {
                        v.push(b'\\');
                        j += 2;
                    } else if b[j] == b'\\' {
                        let h = std::str::from_utf8(&b[j + 1..j + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        j += 3;
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                out.push(T::S(v));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::W(s[i..j + 1].to_string()));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(T::Meta);
                i = j.max(i + 1);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                i = j;
            }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' => {
                out.push(T::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(T::N(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(T::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

type R<X> = Result<X, String>;

struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a Ctx,
    regs: Option<&'a HashMap<String, u32>>,
}
struct Ctx {
    gaddr: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
    types: HashMap<String, Ty>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?}, got {:?}", self.peek()))
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        let mut d = 0;
        loop {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn ty_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                w == "void"
                    || w == "ptr"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "fp128"
                    || w == "metadata"
                    || w == "label"
                    || w == "token"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            T::W(w) => Ok(match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "metadata" | "label" | "token" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                _ => return Err(format!("type {w}")),
            }),
            T::L(n) => self.m.types.get(&n).cloned().ok_or(format!("named type {n}")),
            T::P('[') => {
                let n = self.num()? as u64;
                if !self.eat_w("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.p(']')?;
                Ok(Ty::Array(n, Box::new(t)))
            }
            T::P('{') => {
                let v = self.tys('}')?;
                Ok(Ty::Struct(v, false))
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let v = self.tys('}')?;
                    self.p('>')?;
                    return Ok(Ty::Struct(v, true));
                }
                let n = self.num()? as u32;
                if !self.eat_w("x") {
                    return Err("vector".into());
                }
                let t = self.ty()?;
                self.p('>')?;
                Ok(Ty::Vector(n, Box::new(t)))
            }
            x => Err(format!("type token {x:?}")),
        }
    }
    fn tys(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.p(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::N(s) => s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("number {s}")),
            x => Err(format!("number {x:?}")),
        }
    }
    fn int(v: i128, t: &Ty) -> Opd {
        match t {
            Ty::Int(w) if *w > 64 => Opd::W(v as u128 & crate::expr::mask(*w)),
            Ty::Int(w) => Opd::C((v as u128 & crate::expr::mask(*w)) as u64),
            _ => Opd::C(v as u64),
        }
    }
    fn zero(t: &Ty) -> Opd {
        match t {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                Opd::A((0..t.count()).map(|i| Self::zero(t.field(i))).collect())
            }
            Ty::Int(w) if *w > 64 => Opd::W(0),
            _ => Opd::C(0),
        }
    }
    fn undef(t: &Ty) -> Opd {
        match t {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                Opd::A((0..t.count()).map(|i| Self::undef(t.field(i))).collect())
            }
            _ => Opd::U,
        }
    }
    fn list(&mut self, end: char) -> R<Vec<Opd>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.val(&t)?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.p(',')?;
        }
    }
    fn val(&mut self, t: &Ty) -> R<Opd> {
        match self.next()? {
            T::L(n) => {
                let r = self.regs.ok_or("local in constant")?;
                Ok(Opd::R(*r.get(&n).ok_or(format!("unknown local {n}"))?))
            }
            T::G(n) => Ok(Opd::C(*self.m.gaddr.get(&n).ok_or(format!("unknown global {n}"))?)),
            T::N(s) => {
                if let Ty::Float(_) = t {
                    return Ok(Opd::U);
                }
                let v = s
                    .parse::<i128>()
                    .or_else(|_| s.parse::<u128>().map(|x| x as i128))
                    .map_err(|_| format!("number {s}"))?;
                Ok(Self::int(v, t))
            }
            T::S(b) => Ok(Opd::A(b.into_iter().map(|x| Opd::C(x as u64)).collect())),
            T::P('{') => Ok(Opd::A(self.list('}')?)),
            T::P('[') => Ok(Opd::A(self.list(']')?)),
            T::P('<') => {
                if self.eat_p('{') {
                    let v = self.list('}')?;
                    self.p('>')?;
                    return Ok(Opd::A(v));
                }
                Ok(Opd::A(self.list('>')?))
            }
            T::W(w) => match w.as_str() {
                "true" => Ok(Opd::C(1)),
                "false" => Ok(Opd::C(0)),
                "null" => Ok(Opd::C(0)),
                "none" => Ok(Opd::C(0)),
                "undef" | "poison" => Ok(Self::undef(t)),
                "zeroinitializer" => Ok(Self::zero(t)),
                "splat" => {
                    self.p('(')?;
                    let et = self.ty()?;
                    let v = self.val(&et)?;
                    self.p(')')?;
                    Ok(Opd::A(vec![v; t.count()]))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.next()?;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(T::W(w)) if w == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.p('(')?;
                    let et = self.ty()?;
                    self.p(',')?;
                    let pt = self.ty()?;
                    let base = self.val(&pt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        idx.push((self.val(&it)?, 64));
                    }
                    self.p(')')?;
                    let (off, dynamic) = gep_offset(&et, &idx)?;
                    if !dynamic.is_empty() {
                        return Err("dynamic constant gep".into());
                    }
                    match base {
                        Opd::C(b) => Ok(Opd::C(b.wrapping_add(off as u64))),
                        _ => Err("constant gep base".into()),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                    self.p('(')?;
                    let a = self.ty()?;
                    let v = self.val(&a)?;
                    if !self.eat_w("to") {
                        return Err("constant cast".into());
                    }
                    let b = self.ty()?;
                    self.p(')')?;
                    match (&v, &b) {
                        (Opd::C(x), Ty::Int(w)) => Ok(Opd::C((*x as u128 & crate::expr::mask(*w)) as u64)),
                        _ => Ok(v),
                    }
                }
                "sub" | "add" | "xor" => {
                    while !self.eat_p('(') {
                        self.next()?;
                    }
                    let a = self.ty()?;
                    let x = self.val(&a)?;
                    self.p(',')?;
                    let b = self.ty()?;
                    let y = self.val(&b)?;
                    self.p(')')?;
                    match (x, y) {
                        (Opd::C(x), Opd::C(y)) => Ok(Opd::C(match w.as_str() {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            _ => x ^ y,
                        })),
                        _ => Err("constant arithmetic".into()),
                    }
                }
                _ => Err(format!("value {w}")),
            },
            x => Err(format!("value token {x:?}")),
        }
    }
    /// Skip attribute words until a value starts.
    fn attrs_then_val(&mut self, t: &Ty, byval: &mut Option<u64>) -> R<Opd> {
        if *t == Ty::Other {
            // metadata argument
            let mut d = 0;
            while let Some(k) = self.peek() {
                match k {
                    T::P('(') => d += 1,
                    T::P(')') if d == 0 => break,
                    T::P(')') => d -= 1,
                    T::P(',') if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return Ok(Opd::U);
        }
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let vw = matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                            | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "none" | "splat"
                    );
                    if vw {
                        return self.val(t);
                    }
                    let w = w.clone();
                    self.i += 1;
                    if self.is_p('(') {
                        if w == "byval" {
                            let save = self.i;
                            self.p('(')?;
                            let bt = self.ty()?;
                            *byval = Some(bt.size());
                            self.i = save;
                        }
                        self.skip_parens()?;
                    } else if w == "align" {
                        self.next()?;
                    }
                }
                _ => return self.val(t),
            }
        }
    }
    fn label(&mut self, bl: &HashMap<String, u32>) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next()? {
            T::L(n) => bl.get(&n).copied().ok_or(format!("label {n}")),
            x => Err(format!("label {x:?}")),
        }
    }
}

fn gep_offset(et: &Ty, idx: &[(Opd, u16)]) -> R<(i64, Vec<(Opd, u16, u64)>)> {
    let mut off = 0i64;
    let mut dynv = vec![];
    let mut cur = et.clone();
    for (k, (o, w)) in idx.iter().enumerate() {
        let scale = if k == 0 {
            cur.size()
        } else {
            match &cur {
                Ty::Struct(..) => {
                    let i = match o {
                        Opd::C(x) => *x as usize,
                        _ => return Err("struct gep".into()),
                    };
                    off += cur.field_offset(i) as i64;
                    let n = cur.field(i).clone();
                    cur = n;
                    continue;
                }
                Ty::Array(_, t) | Ty::Vector(_, t) => {
                    let n = (**t).clone();
                    let s = n.size();
                    cur = n;
                    s
                }
                _ => return Err("gep into scalar".into()),
            }
        };
        match o {
            Opd::C(x) => {
                let v = crate::expr::sext(*x as u128, *w) as i64;
                off = off.wrapping_add(v.wrapping_mul(scale as i64));
            }
            Opd::U => {}
            _ => dynv.push((o.clone(), *w, scale)),
        }
    }
    Ok((off, dynv))
}

fn put(init: &mut [u8], off: u64, t: &Ty, v: &Opd) -> R<()> {
    match (t, v) {
        (_, Opd::U) => {}
        (Ty::Struct(..), Opd::A(vs)) | (Ty::Array(..), Opd::A(vs)) | (Ty::Vector(..), Opd::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                put(init, off + t.field_offset(i), t.field(i), x)?;
            }
        }
        (_, Opd::C(x)) => {
            let n = t.store_size().min(8) as usize;
            init[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, Opd::W(x)) => {
            let n = t.store_size() as usize;
            init[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        _ => return Err("initializer".into()),
    }
    Ok(())
}

/// Name after `@` in a define/declare/global line.
fn name_at(s: &str) -> Option<(String, usize)> {
    let i = s.find('@')?;
    let b = s.as_bytes();
    if b[i + 1] == b'"' {
        let j = s[i + 2..].find('"')? + i + 2;
        Some((s[i + 2..j].to_string(), j + 1))
    } else {
        let mut j = i + 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b"_.$-".contains(&b[j])) {
            j += 1;
        }
        Some((s[i + 1..j].to_string(), j))
    }
}

pub fn parse(text: &str) -> R<Module> {
    let lines: Vec<&str> = text.lines().collect();
    let mut glines: Vec<(String, usize)> = vec![]; // name, line
    let mut flines: Vec<(String, usize, usize, bool)> = vec![];
    let mut ctx = Ctx { gaddr: HashMap::new(), fidx: HashMap::new(), types: HashMap::new() };
    let mut aliases = vec![];
    let mut tlines = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let (n, _) = name_at(l).ok_or("global")?;
            let rest = l.split_once('=').map(|x| x.1).unwrap_or("");
            if rest.split_whitespace().take(6).any(|w| w == "alias") {
                aliases.push((n, i));
            } else {
                glines.push((n, i));
            }
        } else if l.starts_with("define") {
            let (n, _) = name_at(l).ok_or("define")?;
            let s = i;
            while lines[i] != "}" {
                i += 1;
            }
            flines.push((n, s, i, false));
        } else if l.starts_with("declare") {
            let (n, _) = name_at(l).ok_or("declare")?;
            flines.push((n, i, i, true));
        } else if l.starts_with('%') && l.contains("= type") {
            tlines.push(i);
        }
        i += 1;
    }
    for _ in 0..3 {
        for &i in &tlines {
            let (n, d) = lines[i].split_once(" = type ").ok_or("type")?;
            let n = n.trim_start_matches('%').trim_matches('"').to_string();
            let mut p = Ps { t: lex(d), i: 0, m: &ctx, regs: None };
            if let Ok(t) = p.ty() {
                ctx.types.insert(n, t);
            }
        }
    }
    let mut id = 0u32;
    let mut gidx = HashMap::new();
    for (n, _) in &glines {
        gidx.insert(n.clone(), id);
        ctx.gaddr.insert(n.clone(), gaddr(id));
        id += 1;
    }
    for (k, (n, ..)) in flines.iter().enumerate() {
        ctx.fidx.insert(n.clone(), k as u32);
        ctx.gaddr.insert(n.clone(), gaddr(id + k as u32));
    }
    for (n, i) in &aliases {
        let t = lex(lines[*i]);
        let tgt = t.iter().rev().find_map(|x| if let T::G(g) = x { if g != n { Some(g.clone()) } else { None } } else { None });
        if let Some(g) = tgt {
            if let Some(a) = ctx.gaddr.get(&g).copied() {
                ctx.gaddr.insert(n.clone(), a);
            }
            if let Some(f) = ctx.fidx.get(&g).copied() {
                ctx.fidx.insert(n.clone(), f);
            }
        }
    }
    let mut globals = vec![];
    for (n, i) in &glines {
        let l = lines[*i];
        let rest = l.split_once(" = ").ok_or("global =")?.1;
        let mut p = Ps { t: lex(rest), i: 0, m: &ctx, regs: None };
        let mut constant = false;
        let mut external = false;
        loop {
            match p.next()? {
                T::W(w) if w == "constant" => {
                    constant = true;
                    break;
                }
                T::W(w) if w == "global" => break,
                T::W(w) if w == "external" || w == "extern_weak" => external = true,
                T::W(_) => {
                    if p.is_p('(') {
                        p.skip_parens()?;
                    }
                }
                x => return Err(format!("global {n}: {x:?}")),
            }
        }
        let t = p.ty().map_err(|e| format!("global {n}: {e}"))?;
        let mut init = vec![0u8; t.size() as usize];
        if !external {
            let v = p.val(&t).map_err(|e| format!("global {n}: {e}"))?;
            put(&mut init, 0, &t, &v).map_err(|e| format!("global {n}: {e}"))?;
        }
        globals.push(Global { name: n.clone(), init, constant, external });
    }
    let mut funcs = vec![];
    for (n, s, e, decl) in &flines {
        let mut f = Func {
            name: n.clone(),
            params: vec![],
            nregs: 0,
            blocks: vec![],
            decl: *decl,
            err: None,
            ret: Ty::Void,
        };
        if !*decl {
            if let Err(x) = body(&ctx, &lines[*s..*e], *s as u32, &mut f) {
                f.err = Some(x);
            }
        }
        funcs.push(f);
    }
    Ok(Module { funcs, fidx: ctx.fidx, globals, gidx })
}

fn body(ctx: &Ctx, lines: &[&str], line0: u32, f: &mut Func) -> R<()> {
    // header
    let head = lines[0];
    let (_, j) = name_at(head).ok_or("head")?;
    let mut regs: HashMap<String, u32> = HashMap::new();
    let mut reg = |n: String, regs: &mut HashMap<String, u32>| -> u32 {
        let k = regs.len() as u32;
        *regs.entry(n).or_insert(k)
    };
    let mut unnamed = 0;
    {
        let mut p = Ps { t: lex(&head[j..]), i: 0, m: ctx, regs: None };
        p.p('(')?;
        if !p.eat_p(')') {
            loop {
                if p.peek() == Some(&T::Dots) {
                    break;
                }
                let _t = p.ty()?;
                let mut name = None;
                loop {
                    match p.next()? {
                        T::L(n) => {
                            name = Some(n);
                        }
                        T::W(w) => {
                            if p.is_p('(') {
                                p.skip_parens()?;
                            } else if w == "align" {
                                p.next()?;
                            }
                        }
                        T::P(',') => {
                            p.i -= 1;
                            break;
                        }
                        T::P(')') => {
                            p.i -= 1;
                            break;
                        }
                        x => return Err(format!("param {x:?}")),
                    }
                }
                let n = name.unwrap_or_else(|| unnamed.to_string());
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = reg(n, &mut regs);
                f.params.push(r);
                if p.eat_p(')') {
                    break;
                }
                p.p(',')?;
            }
        }
    }
    // logical lines per block
    let mut blocks: Vec<(String, Vec<(u32, String)>)> = vec![];
    let mut cur: Option<(String, Vec<(u32, String)>)> = None;
    let mut k = 1;
    let entry_name = {
        // the entry block may be unlabeled: it takes the next number after the parameters
        unnamed.to_string()
    };
    while k < lines.len() {
        let l = lines[k];
        let ln = line0 + k as u32;
        let tr = l.trim();
        k += 1;
        if tr.is_empty() || tr.starts_with("#dbg") || tr.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let c = match tr.find(':') {
                Some(c) => c,
                None => return Err(format!("line {tr}")),
            };
            if let Some(b) = cur.take() {
                blocks.push(b);
            }
            cur = Some((tr[..c].trim_matches('"').to_string(), vec![]));
            continue;
        }
        if cur.is_none() {
            cur = Some((entry_name.clone(), vec![]));
        }
        let b = cur.as_mut().unwrap();
        let mut s = tr.to_string();
        if s.starts_with("switch ") && s.ends_with('[') || s.contains(" = switch") {
            loop {
                let t = lines[k].trim();
                k += 1;
                s.push(' ');
                s.push_str(t);
                if t.starts_with(']') {
                    break;
                }
            }
        } else if (s.starts_with("invoke ") || s.contains(" = invoke ")) && !s.contains(" unwind label ") {
            s.push(' ');
            // drop trailing attribute groups/comments conservatively
            s.push_str(lines[k].trim());
            k += 1;
        } else if s.contains("landingpad ") {
            while k < lines.len() {
                let t = lines[k].trim();
                if t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter ") {
                    k += 1;
                } else {
                    break;
                }
            }
        }
        b.1.push((ln, s));
    }
    if let Some(b) = cur.take() {
        blocks.push(b);
    }
    let mut bl = HashMap::new();
    for (i, b) in blocks.iter().enumerate() {
        bl.insert(b.0.clone(), i as u32);
    }
    // registers
    for b in &blocks {
        for (_, s) in &b.1 {
            if s.starts_with('%') {
                if let Some((n, _)) = s.split_once(" = ") {
                    reg(n[1..].trim_matches('"').to_string(), &mut regs);
                }
            }
        }
    }
    f.nregs = regs.len() as u32;
    for (_, ls) in &blocks {
        let mut b = Block { phis: vec![], ins: vec![], lines: vec![] };
        for (ln, s) in ls {
            let (dst, rest) = if s.starts_with('%') {
                let (n, r) = s.split_once(" = ").ok_or("=")?;
                (Some(regs[n[1..].trim_matches('"')]), r)
            } else {
                (None, s.as_str())
            };
            let mut p = Ps { t: lex(rest), i: 0, m: ctx, regs: Some(&regs) };
            match ins(&mut p, dst, &bl, &mut b) {
                Ok(Some(i)) => {
                    b.ins.push(i);
                    b.lines.push(*ln);
                }
                Ok(None) => {}
                Err(e) => {
                    b.ins.push(Ins::Unsupported(format!("{e}: {s}")));
                    b.lines.push(*ln);
                }
            }
        }
        f.blocks.push(b);
    }
    Ok(())
}

fn binop(w: &str) -> Option<Bin> {
    Some(match w {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        _ => return None,
    })
}

fn ins(p: &mut Ps, dst: Option<u32>, bl: &HashMap<String, u32>, b: &mut Block) -> R<Option<Ins>> {
    let w = match p.next()? {
        T::W(w) => w,
        x => return Err(format!("instruction {x:?}")),
    };
    let d = || dst.ok_or("no destination".to_string());
    if let Some(op) = binop(&w) {
        while !p.ty_start() {
            p.next()?;
        }
        let t = p.ty()?;
        let x = p.val(&t)?;
        p.p(',')?;
        let y = p.val(&t)?;
        return Ok(Some(Ins::Bin(op, t, x, y, d()?)));
    }
    Ok(Some(match w.as_str() {
        "icmp" => {
            p.eat_w("samesign");
            let pr = match p.next()? {
                T::W(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err(w),
                },
                x => return Err(format!("{x:?}")),
            };
            let t = p.ty()?;
            let x = p.val(&t)?;
            p.p(',')?;
            let y = p.val(&t)?;
            Ins::ICmp(pr, t, x, y, d()?)
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
            while !p.ty_start() {
                p.next()?;
            }
            let t = p.ty()?;
            let x = p.val(&t)?;
            if !p.eat_w("to") {
                return Err("cast to".into());
            }
            let u = p.ty()?;
            let k = match w.as_str() {
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "trunc" => Cast::Trunc,
                "bitcast" | "addrspacecast" => Cast::Bitcast,
                _ => Cast::PtrInt,
            };
            Ins::Cast(k, t, x, u, d()?)
        }
        "select" => {
            while !p.ty_start() {
                p.next()?;
            }
            let ct = p.ty()?;
            let c = p.val(&ct)?;
            p.p(',')?;
            let t = p.ty()?;
            let x = p.val(&t)?;
            p.p(',')?;
            let t2 = p.ty()?;
            let y = p.val(&t2)?;
            Ins::Select(ct, c, t, x, y, d()?)
        }
        "freeze" => {
            let t = p.ty()?;
            let x = p.val(&t)?;
            Ins::Freeze(x, d()?)
        }
        "load" => {
            while p.is_w("atomic") || p.is_w("volatile") {
                p.next()?;
            }
            let t = p.ty()?;
            p.p(',')?;
            let pt = p.ty()?;
            let x = p.val(&pt)?;
            Ins::Load(t, x, d()?)
        }
        "store" => {
            while p.is_w("atomic") || p.is_w("volatile") {
                p.next()?;
            }
            let t = p.ty()?;
            let v = p.val(&t)?;
            p.p(',')?;
            let pt = p.ty()?;
            let x = p.val(&pt)?;
            Ins::Store(t, v, x)
        }
        "getelementptr" => {
            while !p.ty_start() {
                p.next()?;
                if p.is_p('(') {
                    p.skip_parens()?;
                }
            }
            let et = p.ty()?;
            p.p(',')?;
            let pt = p.ty()?;
            let base = p.val(&pt)?;
            let mut idx = vec![];
            while p.is_p(',') {
                p.i += 1;
                if p.peek() == Some(&T::Meta) {
                    break;
                }
                let it = p.ty()?;
                let wdt = match it {
                    Ty::Int(w) => w,
                    _ => return Err("gep index type".into()),
                };
                idx.push((p.val(&it)?, wdt));
            }
            let (off, dynv) = gep_offset(&et, &idx)?;
            Ins::Gep(base, off, dynv, d()?)
        }
        "alloca" => {
            p.eat_w("inalloca");
            let t = p.ty()?;
            if p.eat_p(',') && p.ty_start() {
                let it = p.ty()?;
                let n = p.val(&it)?;
                Ins::AllocaN(t.size(), n, d()?)
            } else {
                Ins::Alloca(t.size(), d()?)
            }
        }
        "br" => {
            if p.is_w("label") {
                Ins::Br(p.label(bl)?)
            } else {
                let t = p.ty()?;
                let c = p.val(&t)?;
                p.p(',')?;
                let x = p.label(bl)?;
                p.p(',')?;
                let y = p.label(bl)?;
                Ins::CondBr(c, x, y)
            }
        }
        "switch" => {
            let t = p.ty()?;
            let wd = match t {
                Ty::Int(w) => w,
                _ => return Err("switch type".into()),
            };
            let v = p.val(&t)?;
            p.p(',')?;
            let def = p.label(bl)?;
            p.p('[')?;
            let mut cs = vec![];
            while !p.eat_p(']') {
                let ct = p.ty()?;
                let k = match p.val(&ct)? {
                    Opd::C(x) => x as u128,
                    Opd::W(x) => x,
                    _ => return Err("switch case".into()),
                };
                p.p(',')?;
                cs.push((k, p.label(bl)?));
            }
            Ins::Switch(wd, v, def, cs)
        }
        "phi" => {
            while !p.ty_start() {
                p.next()?;
            }
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.p('[')?;
                let x = p.val(&t)?;
                p.p(',')?;
                let l = match p.next()? {
                    T::L(n) => *bl.get(&n).ok_or(format!("phi label {n}"))?,
                    x => return Err(format!("phi {x:?}")),
                };
                p.p(']')?;
                v.push((l, x));
                if p.is_p(',') && p.t.get(p.i + 1) == Some(&T::P('[')) {
                    p.i += 1;
                } else {
                    break;
                }
            }
            b.phis.push((d()?, v));
            return Ok(None);
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                Ins::Ret(None)
            } else {
                Ins::Ret(Some(p.val(&t)?))
            }
        }
        "unreachable" => Ins::Unreachable,
        "fence" => Ins::Nop,
        "extractvalue" => {
            let t = p.ty()?;
            let x = p.val(&t)?;
            let mut v = vec![];
            while p.eat_p(',') {
                if let Some(T::N(_)) = p.peek() {
                    v.push(p.num()? as u32);
                } else {
                    break;
                }
            }
            Ins::Extract(x, v, d()?)
        }
        "insertvalue" => {
            let t = p.ty()?;
            let x = p.val(&t)?;
            p.p(',')?;
            let et = p.ty()?;
            let y = p.val(&et)?;
            let mut v = vec![];
            while p.eat_p(',') {
                if let Some(T::N(_)) = p.peek() {
                    v.push(p.num()? as u32);
                } else {
                    break;
                }
            }
            Ins::Insert(t, x, y, v, d()?)
        }
        "extractelement" => {
            let t = p.ty()?;
            let x = p.val(&t)?;
            p.p(',')?;
            let it = p.ty()?;
            let i = p.val(&it)?;
            Ins::ExtractEl(t, x, i, d()?)
        }
        "insertelement" => {
            let t = p.ty()?;
            let x = p.val(&t)?;
            p.p(',')?;
            let et = p.ty()?;
            let y = p.val(&et)?;
            p.p(',')?;
            let it = p.ty()?;
            let i = p.val(&it)?;
            Ins::InsertEl(t, x, y, i, d()?)
        }
        "shufflevector" => {
            let t = p.ty()?;
            let x = p.val(&t)?;
            p.p(',')?;
            let t2 = p.ty()?;
            let y = p.val(&t2)?;
            p.p(',')?;
            let mt = p.ty()?;
            let m = p.val(&mt)?;
            let mv = match m {
                Opd::A(v) => v.iter().map(|o| if let Opd::C(x) = o { *x as i32 } else { -1 }).collect(),
                _ => return Err("shuffle mask".into()),
            };
            Ins::Shuffle(t, x, y, mv, d()?)
        }
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.next()? {
                T::W(w) => match w.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "nand" => RmwOp::Nand,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    o => RmwOp::Bin(binop(o).ok_or("rmw op")?),
                },
                _ => return Err("rmw".into()),
            };
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            p.p(',')?;
            let t = p.ty()?;
            let v = p.val(&t)?;
            Ins::Rmw(op, t, a, v, d()?)
        }
        "cmpxchg" => {
            p.eat_w("weak");
            p.eat_w("volatile");
            let pt = p.ty()?;
            let a = p.val(&pt)?;
            p.p(',')?;
            let t = p.ty()?;
            let c = p.val(&t)?;
            p.p(',')?;
            let t2 = p.ty()?;
            let n = p.val(&t2)?;
            Ins::CmpXchg(t, a, c, n, d()?)
        }
        "tail" | "musttail" | "notail" => return ins(p, dst, bl, b),
        "call" | "invoke" => {
            while !p.ty_start() {
                match p.next()? {
                    T::W(x) => {
                        if p.is_p('(') {
                            p.skip_parens()?;
                        } else if x == "align" {
                            p.next()?;
                        }
                    }
                    x => return Err(format!("call {x:?}")),
                }
            }
            let ret = p.ty()?;
            if p.is_p('(') {
                p.skip_parens()?;
            }
            let callee = match p.next()? {
                T::G(n) => match p.m.fidx.get(&n) {
                    Some(f) => Callee::F(*f),
                    None => return Err(format!("callee {n}")),
                },
                T::L(n) => Callee::Ptr(Opd::R(*p.regs.unwrap().get(&n).ok_or("callee reg")?)),
                T::W(x) if x == "asm" => return Err("inline asm".into()),
                _ => {
                    p.i -= 1;
                    Callee::Ptr(p.val(&Ty::Ptr)?)
                }
            };
            p.p('(')?;
            let mut args = vec![];
            let mut byval = vec![];
            if !p.eat_p(')') {
                loop {
                    let t = p.ty()?;
                    let mut bv = None;
                    let v = p.attrs_then_val(&t, &mut bv)?;
                    args.push((t, v));
                    byval.push(bv);
                    if p.eat_p(')') {
                        break;
                    }
                    p.p(',')?;
                }
            }
            let mut cont = None;
            if w == "invoke" {
                while !p.is_w("to") {
                    p.next()?;
                }
                p.next()?;
                cont = Some(p.label(bl)?);
            }
            Ins::Call(Box::new(CallI { callee, args, ret, dst, cont, byval }))
        }
        "landingpad" | "resume" | "cleanuppad" | "catchswitch" => Ins::Unsupported(w),
        _ => return Err(format!("instruction {w}")),
    }))
}
