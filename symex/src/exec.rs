//! The symbolic executor: runs the IR, forks on symbolic branches, asks the solver which sides
//! are feasible and whether an assertion can fail.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(Rc<u128>),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[E]>>,
    pub ro: bool,
    /// content not tracked; any size
    pub opaque: bool,
    /// an untracked object that may hold something other than zeros
    pub dirty: bool,
    /// where in an untracked object the marked byte is: offset, and the condition that it is there
    pub marks: Vec<(E, E)>,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false, opaque: false, dirty: false, marks: vec![] }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    /// branch/switch alternative
    Alt(u32),
    /// alternative that was the only feasible one
    Only(u32),
    ConcEq(u128),
    ConcNe(u128),
    ConcOnly(u128),
    /// an assumption was added
    Assume,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub syms: Vec<(u16, u32)>, // width, name id
    pub trace: Vec<Dec>,
    pub steps: u64,
    pub forks: u32,
    /// symbolic allocation sizes give untracked objects
    pub lengths: bool,
    /// a panic is what the harness expects now
    pub refuse: bool,
    /// blocks of memory allocated and not freed
    pub heap: i64,
}

#[derive(Debug)]
pub enum Stop {
    /// the harness returned
    Done,
    /// an assumption is unsatisfiable here
    Pruned,
    Violation(String),
    /// the executor cannot go on; never a verdict
    Error(String),
}

pub struct Report {
    pub kind: &'static str,
    pub msg: String,
    pub values: Vec<(u16, u128, String)>,
    pub stack: Vec<String>,
}

pub struct Limits {
    pub steps: u64,
    pub conc: u32,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z: Z3,
    base: Vec<Option<Rc<Obj>>>,
    fbase: u32,
    kinds: Vec<Kind>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>, Fx>,
    pub cache_hits: u64,
    pub pending: Vec<State>,
    replay: Vec<Dec>,
    rpos: usize,
    pub seen_funcs: Vec<bool>,
    pub names: Vec<String>,
    pub witnesses: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub lim: Limits,
    pub insns: u64,
    pub forks: u64,
    pub max_conc: u32,
    pub samples: Vec<Report>,
    pub prof_on: bool,
    pub prof: HashMap<String, (u64, f64)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Def,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Abort,
    Nop,
    VSym,
    VAssume,
    VCheck,
    VWitness,
    VBound,
    VConc,
    VOpaque,
    VMark,
    VMarked,
    VMode,
    VRefuse,
    VHeap,
    ClockGettime,
    VDbg,
    OvfU(u8),
    OvfS(u8),
    MinMax(u8),
    Sat(u8),
    Fsh(bool),
    Ctpop,
    Ctlz,
    Cttz,
    Abs,
    Bswap,
    BitRev,
    IsConst,
    Ident,
    Expect,
    Cmp3(bool),
    Syscall,
    RustAlloc,
    RustAllocZ,
    RustRealloc,
    RustDealloc,
    Unknown,
}

fn kind_of(f: &Func) -> Kind {
    let n = f.name.as_str();
    // panics end the path whatever their formatting would do
    if n.starts_with("_R") {
        if n.contains("9panicking9panic_fmt")
            || n.contains("9panicking18panic_nounwind_fmt")
            || n.contains("9panicking14panic_nounwind")
            || n.contains("17rust_begin_unwind")
            || n.contains("5alloc18handle_alloc_error")
            || n.contains("9panicking20rust_panic_with_hook")
            || n.contains("9panicking11begin_panic")
        {
            return Kind::Panic;
        }
        if n.ends_with("___rust_alloc") {
            return Kind::RustAlloc;
        }
        if n.ends_with("___rust_alloc_zeroed") {
            return Kind::RustAllocZ;
        }
        if n.ends_with("___rust_realloc") {
            return Kind::RustRealloc;
        }
        if n.ends_with("___rust_dealloc") {
            return Kind::RustDealloc;
        }
    }
    match n {
        "vsym_sym" => return Kind::VSym,
        "vsym_assume" => return Kind::VAssume,
        "vsym_check" => return Kind::VCheck,
        "vsym_witness" => return Kind::VWitness,
        "vsym_bound" => return Kind::VBound,
        "vsym_concrete" => return Kind::VConc,
        "vsym_opaque" => return Kind::VOpaque,
        "vsym_mark" => return Kind::VMark,
        "vsym_marked" => return Kind::VMarked,
        "vsym_lengths" => return Kind::VMode,
        "vsym_refuse" => return Kind::VRefuse,
        "vsym_heap" => return Kind::VHeap,
        "clock_gettime" => return Kind::ClockGettime,
        "vsym_dbg" => return Kind::VDbg,
        "malloc" => return Kind::Malloc,
        "calloc" => return Kind::Calloc,
        "realloc" => return Kind::Realloc,
        "free" => return Kind::Free,
        "posix_memalign" => return Kind::Memalign,
        "bcmp" => return Kind::Bcmp,
        "memcmp" => return Kind::Memcmp,
        "memcpy" => return Kind::Memcpy,
        "memmove" => return Kind::Memmove,
        "memset" => return Kind::Memset,
        "strlen" => return Kind::Strlen,
        "abort" => return Kind::Abort,
        "sched_yield" => return Kind::Nop,
        "syscall" => return Kind::Syscall,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |x: &str| r.starts_with(x);
        if p("memcpy.") {
            return Kind::Memcpy;
        }
        if p("memmove.") {
            return Kind::Memmove;
        }
        if p("memset.") {
            return Kind::Memset;
        }
        if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg.") || p("x86.sse2.pause") || p("invariant") || p("prefetch") || p("donothing") {
            return Kind::Nop;
        }
        for (i, o) in ["add", "sub", "mul"].iter().enumerate() {
            if p(&format!("u{o}.with.overflow")) {
                return Kind::OvfU(i as u8);
            }
            if p(&format!("s{o}.with.overflow")) {
                return Kind::OvfS(i as u8);
            }
        }
        for (i, o) in ["umax.", "umin.", "smax.", "smin."].iter().enumerate() {
            if p(o) {
                return Kind::MinMax(i as u8);
            }
        }
        for (i, o) in ["uadd.sat", "usub.sat", "sadd.sat", "ssub.sat"].iter().enumerate() {
            if p(o) {
                return Kind::Sat(i as u8);
            }
        }
        if p("fshl.") {
            return Kind::Fsh(true);
        }
        if p("fshr.") {
            return Kind::Fsh(false);
        }
        if p("ctpop.") {
            return Kind::Ctpop;
        }
        if p("ctlz.") {
            return Kind::Ctlz;
        }
        if p("cttz.") {
            return Kind::Cttz;
        }
        if p("abs.") {
            return Kind::Abs;
        }
        if p("bswap.") {
            return Kind::Bswap;
        }
        if p("bitreverse.") {
            return Kind::BitRev;
        }
        if p("is.constant") {
            return Kind::IsConst;
        }
        if p("threadlocal.address") || p("launder") || p("strip") || p("ssa.copy") {
            return Kind::Ident;
        }
        if p("expect") {
            return Kind::Expect;
        }
        if p("ucmp.") {
            return Kind::Cmp3(false);
        }
        if p("scmp.") {
            return Kind::Cmp3(true);
        }
        if p("trap") {
            return Kind::Abort;
        }
        return Kind::Unknown;
    }
    if f.decl {
        Kind::Unknown
    } else {
        Kind::Def
    }
}

type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Error(s.into()))
}
fn tw(t: &Ty) -> u16 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        _ => 0,
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32, lim: Limits) -> Self {
        let mut base = vec![];
        for g in &m.globals {
            base.push(Some(Rc::new(Obj { data: g.init.clone(), sym: None, ro: g.constant, opaque: false, dirty: false, marks: vec![] })));
        }
        let fbase = base.len() as u32;
        for _ in &m.funcs {
            base.push(None);
        }
        Exec {
            m,
            ar: Arena::new(),
            z: Z3::new(timeout_ms),
            base,
            fbase,
            kinds: m.funcs.iter().map(kind_of).collect(),
            cache: HashMap::default(),
            cache_hits: 0,
            pending: vec![],
            replay: vec![],
            rpos: 0,
            seen_funcs: vec![false; m.funcs.len()],
            names: vec![],
            witnesses: BTreeMap::new(),
            checks: BTreeMap::new(),
            lim,
            insns: 0,
            forks: 0,
            max_conc: 0,
            samples: vec![],
            prof_on: std::env::var("SYMEX_PROF").is_ok(),
            prof: HashMap::new(),
        }
    }
    pub fn start(&mut self, entry: u32, prefix: Vec<Dec>) -> State {
        self.replay = prefix;
        self.rpos = 0;
        let f = &self.m.funcs[entry as usize];
        self.seen_funcs[entry as usize] = true;
        State {
            frames: vec![Frame { f: entry, block: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], allocas: vec![] }],
            objs: self.base.clone(),
            free: vec![],
            pc: vec![],
            model: vec![],
            syms: vec![],
            trace: vec![],
            steps: 0,
            forks: 0,
            lengths: false,
            refuse: false,
            heap: 0,
        }
    }

    // ---- values ----------------------------------------------------------------------

    fn opd(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => Val::I(*c),
            Opd::W(w) => Val::W(Rc::new(*w)),
            Opd::U => Val::I(0),
            Opd::A(v) => Val::A(Rc::new(v.iter().map(|x| self.opd(st, x)).collect())),
        }
    }
    fn e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::I(x) => self.ar.c(*x as u128, w),
            Val::W(x) => self.ar.c(**x, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn cv(v: &Val) -> Option<u128> {
        match v {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
    fn mkc(v: u128, w: u16) -> Val {
        let v = v & mask(w);
        if w > 64 {
            Val::W(Rc::new(v))
        } else {
            Val::I(v as u64)
        }
    }
    fn val(&self, e: E) -> Val {
        match self.ar.cv(e) {
            Some(v) => Self::mkc(v, self.ar.w(e)),
            None => Val::S(e),
        }
    }
    fn bin(&mut self, op: Bin, w: u16, a: &Val, b: &Val) -> X<Val> {
        if let (Some(x), Some(y)) = (Self::cv(a), Self::cv(b)) {
            let m = mask(w);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return err("division by zero"),
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u128,
                Bin::SRem => sext(x, w).wrapping_rem(sext(y, w)) as u128,
                Bin::Shl => {
                    if y >= w as u128 { 0 } else { x << y }
                }
                Bin::LShr => {
                    if y >= w as u128 { 0 } else { x >> y }
                }
                Bin::AShr => (sext(x, w) >> y.min(w as u128 - 1)) as u128,
            };
            return Ok(Self::mkc(r & m, w));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let ar = &mut self.ar;
        let r = match op {
            Bin::Add => ar.add(x, y),
            Bin::Sub => ar.sub(x, y),
            Bin::Mul => ar.mul(x, y),
            Bin::And => ar.and(x, y),
            Bin::Or => ar.or(x, y),
            Bin::Xor => ar.xor(x, y),
            Bin::UDiv => ar.udiv(x, y),
            Bin::URem => ar.urem(x, y),
            Bin::SDiv => ar.sdiv(x, y),
            Bin::SRem => ar.srem(x, y),
            Bin::Shl => ar.shl(x, y),
            Bin::LShr => ar.lshr(x, y),
            Bin::AShr => ar.ashr(x, y),
        };
        Ok(self.val(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::cv(a), Self::cv(b)) {
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Val::I(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => ar.ne(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Uge => ar.ule(y, x),
            Pred::Ult => ar.ult(x, y),
            Pred::Ule => ar.ule(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sge => ar.sle(y, x),
            Pred::Slt => ar.slt(x, y),
            Pred::Sle => ar.sle(x, y),
        };
        self.val(r)
    }

    // ---- solver ----------------------------------------------------------------------

    /// Is `pc && c` satisfiable?  Gives an updated model.
    fn sat(&mut self, st: &State, c: E) -> X<Option<Vec<u128>>> {
        if let Some(v) = self.ar.cv(c) {
            return Ok(if v != 0 { Some(st.model.clone()) } else { None });
        }
        // independence slicing
        let mut vars: HashSet<u32> = self.ar.vars(c).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let pv: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|&e| self.ar.vars(e)).collect();
        loop {
            let mut ch = false;
            for i in 0..st.pc.len() {
                if !used[i] && pv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    for v in pv[i].iter() {
                        ch |= vars.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<E> = st.pc.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
        key.push(c);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(r.as_ref().map(|m| Self::upd(&st.model, m)));
        }
        let t0 = self.z.time;
        let res = self.z.check(&mut self.ar, &key);
        if self.prof_on {
            let k = format!("{} {}", self.stack(st)[0], self.show(c, 7));
            let e = self.prof.entry(k).or_default();
            e.0 += 1;
            e.1 += self.z.time - t0;
        }
        match res {
            Res::Unsat => {
                self.cache.insert(key, None);
                Ok(None)
            }
            Res::Sat(m) => {
                let r = Self::upd(&st.model, &m);
                // the model must satisfy what was asked
                let mut memo = HashMap::default();
                for &k in &key {
                    if self.ar.eval(k, &r, &mut memo) == 0 {
                        return err("solver model does not satisfy the query (translation error)");
                    }
                }
                self.cache.insert(key, Some(m));
                Ok(Some(r))
            }
            Res::Unknown => err("solver gave no answer within its time limit"),
        }
    }
    fn upd(old: &[u128], m: &[(u32, u128)]) -> Vec<u128> {
        let mut r = old.to_vec();
        for &(i, v) in m {
            if r.len() <= i as usize {
                r.resize(i as usize + 1, 0);
            }
            r[i as usize] = v;
        }
        r
    }
    fn ev(&self, st: &State, e: E) -> u128 {
        self.ar.eval(e, &st.model, &mut HashMap::default())
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.ar.cv(c).is_none() {
            // split conjunctions so that slicing is finer
            if let Op::And(a, b) = self.ar.op(c) {
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
            st.pc.push(c);
        }
    }
    fn replaying(&self) -> bool {
        self.rpos < self.replay.len()
    }
    fn take_replay(&mut self, st: &mut State) -> X<Dec> {
        let d = self.replay[self.rpos];
        self.rpos += 1;
        st.trace.push(d);
        Ok(d)
    }
    /// After the prefix has been followed the model has to be computed.
    fn end_replay(&mut self, st: &mut State) -> X<()> {
        if self.rpos == self.replay.len() && self.rpos > 0 {
            self.rpos = 0;
            self.replay.clear();
            if !st.pc.is_empty() {
                let key = st.pc.clone();
                match self.z.check(&mut self.ar, &key) {
                    Res::Sat(m) => st.model = Self::upd(&st.model, &m),
                    Res::Unsat => return Err(Stop::Pruned),
                    Res::Unknown => return err("solver gave no answer within its time limit"),
                }
            }
        }
        Ok(())
    }

    /// Decide a Boolean; the other side, if feasible, is left pending via `other`.
    fn branch(&mut self, st: &mut State, c: E, other: impl FnOnce(&mut State, bool)) -> X<bool> {
        if self.replaying() {
            let d = self.take_replay(st)?;
            let v = match d {
                Dec::Alt(x) => {
                    let v = x == 1;
                    let k = if v { c } else { self.ar.not(c) };
                    self.add_pc(st, k);
                    v
                }
                Dec::Only(x) => x == 1,
                _ => return err("replay mismatch (branch)"),
            };
            self.end_replay(st)?;
            return Ok(v);
        }
        let v = self.ev(st, c) != 0;
        let nc = self.ar.not(c);
        let (mine, theirs) = if v { (c, nc) } else { (nc, c) };
        match self.sat(st, theirs)? {
            None => {
                st.trace.push(Dec::Only(v as u32));
            }
            Some(m) => {
                let mut o = st.clone();
                o.trace.push(Dec::Alt(!v as u32));
                o.model = m;
                o.forks += 1;
                self.add_pc(&mut o, theirs);
                other(&mut o, !v);
                self.forks += 1;
                self.pending.push(o);
                st.trace.push(Dec::Alt(v as u32));
                st.forks += 1;
                self.add_pc(st, mine);
            }
        }
        Ok(v)
    }
    /// A concrete value for `v`; the other values stay pending (the instruction is run again).
    fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> X<u64> {
        let e = match v {
            Val::I(x) => return Ok(*x),
            Val::W(x) => return Ok(**x as u64),
            Val::S(e) => *e,
            Val::A(_) => return err("aggregate address"),
        };
        debug_assert_eq!(self.ar.w(e), w);
        loop {
            if self.replaying() {
                let d = self.take_replay(st)?;
                let (x, done) = match d {
                    Dec::ConcEq(x) | Dec::ConcOnly(x) => (x, true),
                    Dec::ConcNe(x) => (x, false),
                    _ => return err("replay mismatch (value)"),
                };
                if !matches!(d, Dec::ConcOnly(_)) {
                    let k = self.ar.c(x, w);
                    let q = self.ar.eq(e, k);
                    let q = if done { q } else { self.ar.not(q) };
                    self.add_pc(st, q);
                }
                self.end_replay(st)?;
                if done {
                    return Ok(x as u64);
                }
                continue;
            }
            let x = self.ev(st, e);
            let k = self.ar.c(x, w);
            let q = self.ar.eq(e, k);
            let nq = self.ar.not(q);
            match self.sat(st, nq)? {
                None => {
                    st.trace.push(Dec::ConcOnly(x));
                }
                Some(m) => {
                    let n = st.trace.iter().rev().take_while(|d| matches!(d, Dec::ConcNe(_))).count() as u32;
                    self.max_conc = self.max_conc.max(n + 1);
                    if n > self.lim.conc {
                        return err("too many values for an address or a length");
                    }
                    let mut o = st.clone();
                    o.trace.push(Dec::ConcNe(x));
                    o.model = m;
                    o.forks += 1;
                    self.add_pc(&mut o, nq);
                    self.forks += 1;
                self.pending.push(o);
                    st.trace.push(Dec::ConcEq(x));
                    st.forks += 1;
                    self.add_pc(st, q);
                }
            }
            return Ok(x as u64);
        }
    }

    // ---- memory ----------------------------------------------------------------------

    fn new_obj(&mut self, st: &mut State, n: u64) -> X<u32> {
        if n > 1 << 28 {
            return err(format!("allocation of {n} bytes"));
        }
        let o = Rc::new(Obj::new(n as usize));
        if let Some(i) = st.free.pop() {
            st.objs[i as usize] = Some(o);
            Ok(i)
        } else {
            st.objs.push(Some(o));
            Ok(st.objs.len() as u32 - 1)
        }
    }
    fn split(&self, st: &State, a: u64, n: u64) -> X<(usize, usize)> {
        let id = (a >> 32).wrapping_sub(BASE) as usize;
        let off = (a & 0xffff_ffff) as usize;
        match st.objs.get(id).and_then(|o| o.as_ref()) {
            Some(o) if o.opaque => err("content of an untracked buffer is read or written"),
            Some(o) if off as u64 + n <= o.data.len() as u64 => Ok((id, off)),
            Some(o) => err(format!("access of {n} bytes at {a:#x} outside its object of {} bytes", o.data.len())),
            None => err(format!("access of {n} bytes at invalid address {a:#x}")),
        }
    }
    fn obj_mut<'s>(st: &'s mut State, id: usize) -> X<&'s mut Obj> {
        let o = st.objs[id].as_mut().unwrap();
        if o.ro {
            return err("write to a constant");
        }
        Ok(Rc::make_mut(o))
    }
    fn new_opaque(&mut self, st: &mut State) -> u32 {
        let mut o = Obj::new(0);
        o.opaque = true;
        let o = Rc::new(o);
        if let Some(i) = st.free.pop() {
            st.objs[i as usize] = Some(o);
            i
        } else {
            st.objs.push(Some(o));
            st.objs.len() as u32 - 1
        }
    }
    fn alloc(&mut self, st: &mut State, n: &Val) -> X<u32> {
        if st.lengths && matches!(n, Val::S(_)) {
            return Ok(self.new_opaque(st));
        }
        let n = self.conc(st, n, 64)?;
        self.new_obj(st, n)
    }
    /// Does this address point into an untracked object?
    fn opaque(&self, st: &State, v: &Val) -> bool {
        let a = match v {
            Val::I(a) => *a,
            Val::S(e) => match self.ar.op(*e) {
                Op::Add(_, k) => match self.ar.cv(k) {
                    Some(k) => k as u64,
                    None => return false,
                },
                _ => return false,
            },
            _ => return false,
        };
        let id = (a >> 32).wrapping_sub(BASE) as usize;
        matches!(st.objs.get(id), Some(Some(o)) if o.opaque)
    }
    fn opaque_id(&self, v: &Val) -> usize {
        let a = match v {
            Val::I(a) => *a,
            Val::S(e) => match self.ar.op(*e) {
                Op::Add(_, k) => self.ar.cv(k).unwrap_or(0) as u64,
                _ => 0,
            },
            _ => 0,
        };
        (a >> 32).wrapping_sub(BASE) as usize
    }
    /// Something other than zeros may be in this untracked object.
    fn taint(&mut self, st: &mut State, v: &Val) {
        let id = self.opaque_id(v);
        if let Some(Some(o)) = st.objs.get_mut(id) {
            if !o.dirty {
                Rc::make_mut(o).dirty = true;
            }
        }
    }
    /// The offset into its untracked object.
    fn opaque_off(&mut self, v: &Val) -> E {
        let id = self.opaque_id(v);
        let a = self.e(v, 64);
        let b = self.ar.c(gaddr(id as u32) as u128, 64);
        self.ar.sub(a, b)
    }
    fn within(&mut self, x: E, from: E, n: E) -> E {
        let d = self.ar.sub(x, from);
        let lo = self.ar.ule(from, x);
        let hi = self.ar.ult(d, n);
        self.ar.and(lo, hi)
    }
    /// `n` bytes at `v` are overwritten: with the bytes at `from`, or with something unmarked.
    fn overwrite(&mut self, st: &mut State, v: &Val, n: &Val, from: Option<&Val>) {
        let id = self.opaque_id(v);
        let old = st.objs[id].as_ref().unwrap().marks.clone();
        let src = match from {
            Some(f) => st.objs[self.opaque_id(f)].as_ref().unwrap().marks.clone(),
            None => vec![],
        };
        if old.is_empty() && src.is_empty() {
            return;
        }
        let n = self.e(n, 64);
        let d = self.opaque_off(v);
        let mut new = vec![];
        for (o, g) in old {
            let i = self.within(o, d, n);
            let i = self.ar.not(i);
            let g = self.ar.and(g, i);
            if self.ar.cv(g) != Some(0) {
                new.push((o, g));
            }
        }
        if let Some(f) = from {
            let s = self.opaque_off(f);
            for (o, g) in src {
                let i = self.within(o, s, n);
                let g = self.ar.and(g, i);
                let o = self.ar.sub(o, s);
                let o = self.ar.add(o, d);
                if self.ar.cv(g) != Some(0) {
                    new.push((o, g));
                }
            }
        }
        Rc::make_mut(st.objs[id].as_mut().unwrap()).marks = new;
    }
    fn dirty(&self, st: &State, v: &Val) -> bool {
        matches!(st.objs.get(self.opaque_id(v)), Some(Some(o)) if o.dirty)
    }
    fn load_int(&mut self, st: &State, a: u64, w: u16) -> X<Val> {
        let n = (w as usize).div_ceil(8);
        let (id, off) = self.split(st, a, n as u64)?;
        let o = st.objs[id].as_ref().unwrap();
        if let Some(s) = &o.sym {
            let ss = &s[off..off + n];
            if ss.iter().any(|&e| e != 0) {
                let o = o.clone();
                let ss = &o.sym.as_ref().unwrap()[off..off + n];
                let mut r = 0;
                for i in 0..n {
                    let b = if ss[i] != 0 { ss[i] } else { self.ar.c(o.data[off + i] as u128, 8) };
                    r = if i == 0 { b } else { self.ar.concat(b, r) };
                }
                if w as usize != n * 8 {
                    r = self.ar.extract(r, 0, w);
                }
                let r = self.ar.norm(r);
                return Ok(self.val(r));
            }
        }
        if w <= 64 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u64::from_le_bytes(b);
            Ok(Val::I(if w == 64 { v } else { v & ((1 << w) - 1) }))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            Ok(Self::mkc(u128::from_le_bytes(b), w))
        }
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u16, v: &Val) -> X<()> {
        if self.opaque(st, &Val::I(a)) {
            if Self::cv(v) != Some(0) {
                self.taint(st, &Val::I(a));
            }
            self.overwrite(st, &Val::I(a), &Val::I((w as u64).div_ceil(8)), None);
            return Ok(());
        }
        let n = (w as usize).div_ceil(8);
        let (id, off) = self.split(st, a, n as u64)?;
        match v {
            Val::S(e) => {
                let full = if w as usize != n * 8 { self.ar.zext(*e, (n * 8) as u16) } else { *e };
                let bytes: Vec<E> = (0..n).map(|i| self.ar.extract_raw(full, (i * 8) as u16, 8)).collect();
                let consts: Vec<Option<u128>> = bytes.iter().map(|&b| self.ar.cv(b)).collect();
                let o = Self::obj_mut(st, id)?;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                for i in 0..n {
                    match consts[i] {
                        Some(c) => {
                            s[off + i] = 0;
                            o.data[off + i] = c as u8;
                        }
                        None => s[off + i] = bytes[i],
                    }
                }
            }
            _ => {
                let x = Self::cv(v).ok_or(Stop::Error("store of aggregate".into()))?;
                let o = Self::obj_mut(st, id)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &State, a: u64, t: &Ty) -> X<Val> {
        match t {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::Ptr => self.load_int(st, a, 64),
            Ty::Float(w) => self.load_int(st, a, *w),
            Ty::Vector(n, et) if tw(et) == 1 => {
                let v = self.load_int(st, a, *n as u16)?;
                self.unpack(&v, *n, 1)
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let mut r = vec![];
                for i in 0..t.count() {
                    r.push(self.load_ty(st, a + t.field_offset(i), t.field(i))?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => err("load type"),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> X<()> {
        match (t, v) {
            (Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..), Val::A(vs)) => {
                if let Ty::Vector(n, et) = t {
                    if tw(et) == 1 {
                        let p = self.pack(v, *n, 1)?;
                        return self.store_int(st, a, *n as u16, &p);
                    }
                }
                for (i, x) in vs.iter().enumerate() {
                    self.store_ty(st, a + t.field_offset(i), t.field(i), x)?;
                }
                Ok(())
            }
            (Ty::Int(w), _) => self.store_int(st, a, *w, v),
            (Ty::Ptr, _) => self.store_int(st, a, 64, v),
            (Ty::Float(w), _) => self.store_int(st, a, *w, v),
            _ => err("store type"),
        }
    }
    fn pack(&mut self, v: &Val, n: u32, w: u16) -> X<Val> {
        let Val::A(vs) = v else { return err("pack") };
        let mut r: Option<E> = None;
        for i in 0..n as usize {
            let x = self.e(&vs[i], w);
            r = Some(match r {
                None => x,
                Some(p) => self.ar.concat(x, p),
            });
        }
        Ok(self.val(r.unwrap()))
    }
    fn unpack(&mut self, v: &Val, n: u32, w: u16) -> X<Val> {
        let e = self.e(v, n as u16 * w);
        let mut r = vec![];
        for i in 0..n as u16 {
            let x = self.ar.extract(e, i * w, w);
            r.push(self.val(x));
        }
        Ok(Val::A(Rc::new(r)))
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.split(st, s, n)?;
        let (di, dof) = self.split(st, d, n)?;
        let n = n as usize;
        let src = st.objs[si].clone().unwrap();
        let o = Self::obj_mut(st, di)?;
        let len = o.data.len();
        if si == di {
            o.data.copy_within(so..so + n, dof);
        } else {
            o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        }
        match &src.sym {
            Some(ss) if ss[so..so + n].iter().any(|&x| x != 0) => {
                let s = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                s[dof..dof + n].copy_from_slice(&ss[so..so + n]);
            }
            _ => {
                if let Some(s) = &mut o.sym {
                    s[dof..dof + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> X<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.split(st, a, n)?;
        Ok(st.objs[id].as_ref().unwrap().data[off..off + n as usize].to_vec())
    }
    fn str_at(&mut self, st: &State, a: u64, n: u64) -> String {
        self.bytes(st, a, n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
    }
    fn release(&mut self, st: &mut State, a: u64) -> X<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32).wrapping_sub(BASE) as usize;
        if a & 0xffff_ffff != 0 || id < self.base.len() || st.objs.get(id).map_or(true, |o| o.is_none()) {
            return err(format!("free of {a:#x}"));
        }
        st.objs[id] = None;
        st.free.push(id as u32);
        Ok(())
    }

    // ---- control ---------------------------------------------------------------------

    fn set(st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn jump(&self, st: &mut State, to: u32) {
        let m = self.m;
        let fr = st.frames.last().unwrap();
        let from = fr.block;
        let b = &m.funcs[fr.f as usize].blocks[to as usize];
        if b.phis.is_empty() {
            let fr = st.frames.last_mut().unwrap();
            fr.block = to;
            fr.ip = 0;
            return;
        }
        let mut vals = Vec::with_capacity(b.phis.len());
        for (d, srcs) in &b.phis {
            let o = srcs.iter().find(|x| x.0 == from).map(|x| &x.1);
            vals.push((*d, o.map(|o| self.opd(st, o)).unwrap_or(Val::I(0))));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.block = to;
        fr.ip = 0;
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas {
            st.objs[a as usize] = None;
            st.free.push(a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        self.after_call(st, v)
    }
    /// Finish the call instruction the top frame stands at.
    fn after_call(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let fr = st.frames.last_mut().unwrap();
        let m = self.m;
        let ins = &m.funcs[fr.f as usize].blocks[fr.block as usize].ins[fr.ip as usize];
        let Ins::Call(c) = ins else { return err("return to a non-call") };
        if let (Some(d), Some(v)) = (c.dst, v) {
            fr.regs[d as usize] = v;
        }
        match c.cont {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
        Ok(())
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| {
            let fun = &self.m.funcs[f.f as usize];
            let l = fun.blocks.get(f.block as usize).and_then(|b| b.lines.get(f.ip as usize)).copied().unwrap_or(0);
            format!("{} (ll:{})", fun.name, l + 1)
        }).collect()
    }

    /// Run `st` until the path ends.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let m = self.m;
            let fr = st.frames.last().unwrap();
            let b = &m.funcs[fr.f as usize].blocks[fr.block as usize];
            let i = &b.ins[fr.ip as usize];
            st.steps += 1;
            self.insns += 1;
            if st.steps > self.lim.steps {
                return Stop::Violation("does not finish".into());
            }
            if let Err(s) = self.step(st, i) {
                return s;
            }
        }
    }

    fn step(&mut self, st: &mut State, i: &'m Ins) -> X<()> {
        match i {
            Ins::Bin(op, t, a, b, d) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let v = self.map2(t, &x, &y, |s, w, p, q| s.bin(*op, w, p, q))?;
                Self::set(st, *d, v);
            }
            Ins::ICmp(p, t, a, b, d) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let v = self.map2(t, &x, &y, |s, w, q, r| Ok(s.icmp(*p, w, q, r)))?;
                Self::set(st, *d, v);
            }
            Ins::Cast(k, t, a, u, d) => {
                let x = self.opd(st, a);
                let v = self.cast(*k, t, &x, u)?;
                Self::set(st, *d, v);
            }
            Ins::Select(ct, c, t, a, b, d) => {
                let cv = self.opd(st, c);
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let v = if let Ty::Vector(n, et) = ct {
                    let _ = et;
                    let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) else { return err("vector select") };
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        r.push(self.sel(&cs[i], tw(t.field(0)), &xs[i], &ys[i]));
                    }
                    Val::A(Rc::new(r))
                } else {
                    match &cv {
                        Val::I(0) => y,
                        Val::I(_) => x,
                        Val::S(e) => {
                            let w = tw(t);
                            let ptr = *t == Ty::Ptr;
                            if w == 0 || (ptr && !(Self::small(&x) && Self::small(&y))) {
                                let e = *e;
                                // run the instruction again on the other side with the branch taken
                                let (d2, x2, y2) = (*d, x.clone(), y.clone());
                                let v = self.branch(st, e, |o, v| {
                                    Self::set(o, d2, if v { x2 } else { y2 });
                                    o.frames.last_mut().unwrap().ip += 1;
                                })?;
                                if v { x } else { y }
                            } else {
                                self.sel(&cv, w, &x, &y)
                            }
                        }
                        _ => return err("select condition"),
                    }
                };
                Self::set(st, *d, v);
            }
            Ins::Load(t, p, d) => {
                let a = self.opd(st, p);
                if self.opaque(st, &a) {
                    if self.dirty(st, &a) || !matches!(t, Ty::Int(1..=64)) {
                        return err("content of an untracked buffer is read");
                    }
                    Self::set(st, *d, Val::I(0));
                    st.frames.last_mut().unwrap().ip += 1;
                    return Ok(());
                }
                if let Val::S(e) = a {
                    if let Some(v) = self.table_load(st, e, t)? {
                        Self::set(st, *d, v);
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(());
                    }
                }
                let a = self.conc(st, &a, 64)?;
                let v = self.load_ty(st, a, t)?;
                Self::set(st, *d, v);
            }
            Ins::Store(t, v, p) => {
                let a = self.opd(st, p);
                if self.opaque(st, &a) {
                    let x = self.opd(st, v);
                    if !matches!(x, Val::I(0)) {
                        self.taint(st, &a);
                    }
                    let n = t.size();
                    self.overwrite(st, &a, &Val::I(n), None);
                    st.frames.last_mut().unwrap().ip += 1;
                    return Ok(());
                }
                let a = self.conc(st, &a, 64)?;
                let x = self.opd(st, v);
                self.store_ty(st, a, t, &x)?;
            }
            Ins::Gep(b, off, dynv, d) => {
                let x = self.opd(st, b);
                let mut r = match x {
                    Val::I(a) => Val::I(a.wrapping_add(*off as u64)),
                    o => self.bin(Bin::Add, 64, &o, &Val::I(*off as u64))?,
                };
                for (o, w, scale) in dynv {
                    let i = self.opd(st, o);
                    let i = match i {
                        Val::I(x) => Val::I(sext(x as u128, *w) as u64),
                        Val::S(e) => {
                            let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                            self.val(e)
                        }
                        _ => return err("gep index"),
                    };
                    let k = self.bin(Bin::Mul, 64, &i, &Val::I(*scale))?;
                    r = self.bin(Bin::Add, 64, &r, &k)?;
                }
                Self::set(st, *d, r);
            }
            Ins::Alloca(n, d) => {
                let id = self.new_obj(st, *n)?;
                st.frames.last_mut().unwrap().allocas.push(id);
                Self::set(st, *d, Val::I(gaddr(id)));
            }
            Ins::AllocaN(n, c, d) => {
                let c = self.opd(st, c);
                let c = self.conc(st, &c, 64)?;
                let id = self.new_obj(st, n * c)?;
                st.frames.last_mut().unwrap().allocas.push(id);
                Self::set(st, *d, Val::I(gaddr(id)));
            }
            Ins::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Ins::CondBr(c, x, y) => {
                let v = match self.opd(st, c) {
                    Val::I(k) => k != 0,
                    Val::S(e) => {
                        let m = self.m;
                        let (x, y) = (*x, *y);
                        // `jump` needs self only for the module and constants
                        let this: *const Self = self;
                        let _ = m;
                        self.branch(st, e, |o, v| unsafe { (*this).jump(o, if v { x } else { y }) })?
                    }
                    _ => return err("branch condition"),
                };
                self.jump(st, if v { *x } else { *y });
                return Ok(());
            }
            Ins::Switch(w, v, def, cs) => {
                let x = self.opd(st, v);
                if let Some(k) = Self::cv(&x) {
                    let to = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    self.jump(st, to);
                    return Ok(());
                }
                let e = self.e(&x, *w);
                return self.switch(st, e, *w, *def, cs);
            }
            Ins::Call(c) => return self.call(st, c),
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.opd(st, o));
                return self.ret(st, v);
            }
            Ins::Extract(a, path, d) => {
                let mut v = self.opd(st, a);
                for p in path {
                    let Val::A(x) = &v else { return err("extractvalue") };
                    let n = x[*p as usize].clone();
                    v = n;
                }
                Self::set(st, *d, v);
            }
            Ins::Insert(t, a, b, path, d) => {
                let v = self.opd(st, a);
                let x = self.opd(st, b);
                let r = Self::insert(t, &v, x, path)?;
                Self::set(st, *d, r);
            }
            Ins::ExtractEl(_, a, ix, d) => {
                let v = self.opd(st, a);
                let ix = self.opd(st, ix);
                let w = if let Val::S(e) = &ix { self.ar.w(*e) } else { 64 };
                let ix = self.conc(st, &ix, w)? as usize;
                let Val::A(x) = &v else { return err("extractelement") };
                let r = x[ix].clone();
                Self::set(st, *d, r);
            }
            Ins::InsertEl(t, a, b, ix, d) => {
                let v = self.opd(st, a);
                let x = self.opd(st, b);
                let ix = self.opd(st, ix);
                let w = if let Val::S(e) = &ix { self.ar.w(*e) } else { 64 };
                let ix = self.conc(st, &ix, w)?;
                let r = Self::insert(t, &v, x, &[ix as u32])?;
                Self::set(st, *d, r);
            }
            Ins::Shuffle(t, a, b, mk, d) => {
                let n = t.count();
                let (Val::A(x), Val::A(y)) = (self.opd(st, a), self.opd(st, b)) else { return err("shuffle") };
                let r = mk
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            Val::I(0)
                        } else if (k as usize) < n {
                            x[k as usize].clone()
                        } else {
                            y[k as usize - n].clone()
                        }
                    })
                    .collect();
                Self::set(st, *d, Val::A(Rc::new(r)));
            }
            Ins::Rmw(op, t, p, v, d) => {
                let a = self.opd(st, p);
                let a = self.conc(st, &a, 64)?;
                let x = self.opd(st, v);
                let w = tw(t);
                let old = self.load_ty(st, a, t)?;
                let new = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Bin(b) => self.bin(*b, w, &old, &x)?,
                    RmwOp::Nand => {
                        let k = self.bin(Bin::And, w, &old, &x)?;
                        self.bin(Bin::Xor, w, &k, &Self::mkc(u128::MAX, w))?
                    }
                    RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                        let p = match op {
                            RmwOp::UMax => Pred::Ugt,
                            RmwOp::UMin => Pred::Ult,
                            RmwOp::Max => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(p, w, &old, &x);
                        self.sel(&c, w, &old, &x)
                    }
                };
                self.store_ty(st, a, t, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg(t, p, c, n, d) => {
                let a = self.opd(st, p);
                let a = self.conc(st, &a, 64)?;
                let (c, n) = (self.opd(st, c), self.opd(st, n));
                let w = tw(t);
                let old = self.load_ty(st, a, t)?;
                let ok = self.icmp(Pred::Eq, w, &old, &c);
                let new = self.sel(&ok, w, &n, &old);
                self.store_ty(st, a, t, &new)?;
                Self::set(st, *d, Val::A(Rc::new(vec![old, ok])));
            }
            Ins::Freeze(a, d) => {
                let v = self.opd(st, a);
                Self::set(st, *d, v);
            }
            Ins::Nop => {}
            Ins::Unreachable => return err("reached `unreachable`"),
            Ins::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn small(v: &Val) -> bool {
        matches!(v, Val::I(x) if *x < 1 << 32)
    }
    fn insert(t: &Ty, v: &Val, x: Val, path: &[u32]) -> X<Val> {
        if path.is_empty() {
            return Ok(x);
        }
        let mut items: Vec<Val> = match v {
            Val::A(a) => (**a).clone(),
            _ => vec![Val::I(0); t.count()],
        };
        let i = path[0] as usize;
        let n = Self::insert(t.field(i), &items[i], x, &path[1..])?;
        items[i] = n;
        Ok(Val::A(Rc::new(items)))
    }
    fn sel(&mut self, c: &Val, w: u16, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(0) => b.clone(),
            Val::S(e) => {
                let e = *e;
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.ar.ite(e, x, y);
                self.val(r)
            }
            _ => a.clone(),
        }
    }
    fn map2(&mut self, t: &Ty, a: &Val, b: &Val, f: impl Fn(&mut Self, u16, &Val, &Val) -> X<Val>) -> X<Val> {
        match t {
            Ty::Vector(n, et) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { return err("vector operands") };
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(f(self, tw(et), &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => f(self, tw(t), a, b),
        }
    }
    fn cast(&mut self, k: Cast, t: &Ty, x: &Val, u: &Ty) -> X<Val> {
        if let (Ty::Vector(n, et), Ty::Vector(m, ut)) = (t, u) {
            if n == m && k != Cast::Bitcast {
                let Val::A(xs) = x else { return err("vector cast") };
                let mut r = vec![];
                for v in xs.iter() {
                    r.push(self.cast(k, et, v, ut)?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        match k {
            Cast::Bitcast => {
                let v = match t {
                    Ty::Vector(n, et) => self.pack(x, *n, tw(et))?,
                    _ => x.clone(),
                };
                match u {
                    Ty::Vector(n, et) => self.unpack(&v, *n, tw(et)),
                    _ => Ok(v),
                }
            }
            _ => {
                let (a, b) = (tw(t), tw(u));
                match x {
                    Val::S(e) => {
                        let e = *e;
                        let r = match k {
                            Cast::ZExt => self.ar.zext(e, b),
                            Cast::SExt => self.ar.sext(e, b),
                            Cast::Trunc => self.ar.extract(e, 0, b),
                            _ => {
                                if b > a {
                                    self.ar.zext(e, b)
                                } else {
                                    self.ar.extract(e, 0, b)
                                }
                            }
                        };
                        Ok(self.val(r))
                    }
                    Val::A(_) => err("cast of aggregate"),
                    _ => {
                        let v = Self::cv(x).unwrap();
                        Ok(match k {
                            Cast::SExt => Self::mkc(sext(v, a) as u128, b),
                            _ => Self::mkc(v, b),
                        })
                    }
                }
            }
        }
    }
    /// Load from a constant table at a symbolic index, as a chain of conditionals.
    fn table_load(&mut self, st: &mut State, e: E, t: &Ty) -> X<Option<Val>> {
        let w = tw(t);
        if w == 0 || *t == Ty::Ptr || self.replaying() {
            // during replay the decision below is re-made in the same way, see conc()
            if w == 0 || *t == Ty::Ptr {
                return Ok(None);
            }
        }
        let Op::Add(_, k) = self.ar.op(e) else { return Ok(None) };
        let Some(kc) = self.ar.cv(k) else { return Ok(None) };
        let id = ((kc as u64) >> 32).wrapping_sub(BASE) as usize;
        if id >= self.m.globals.len() || !self.m.globals[id].constant {
            return Ok(None);
        }
        let base = gaddr(id as u32);
        let size = self.m.globals[id].init.len() as u64;
        let n = t.store_size();
        if size > 512 || size < n {
            return Ok(None);
        }
        if !self.replaying() {
            // the chain below is right only for aligned accesses inside the table
            let b = self.ar.c(base as u128, 64);
            let off = self.ar.sub(e, b);
            let lim = self.ar.c((size - n) as u128, 64);
            let out = self.ar.ult(lim, off);
            let al = self.ar.c(n as u128 - 1, 64);
            let rest = self.ar.and(off, al);
            let z = self.ar.c(0, 64);
            let mis = self.ar.ne(rest, z);
            let bad = self.ar.or(out, mis);
            if !n.is_power_of_two() || self.sat(st, bad)?.is_some() {
                return err("table access that cannot be bounded");
            }
        }
        let mut r: Option<E> = None;
        let mut off = size - n;
        // offsets congruent to the alignment of the element
        off -= off % n;
        loop {
            let v = self.load_ty(st, base + off, t)?;
            let v = self.e(&v, w);
            r = Some(match r {
                None => v,
                Some(p) => {
                    let a = self.ar.c((base + off) as u128, 64);
                    let c = self.ar.eq(e, a);
                    self.ar.ite(c, v, p)
                }
            });
            if off == 0 {
                break;
            }
            off -= n;
        }
        let v = self.val(r.unwrap());
        Ok(Some(v))
    }
    fn switch(&mut self, st: &mut State, e: E, w: u16, def: u32, cs: &[(u128, u32)]) -> X<()> {
        // group by target
        let mut groups: Vec<(u32, E)> = vec![];
        let mut any = self.ar.fals();
        for (k, to) in cs {
            let kc = self.ar.c(*k, w);
            let q = self.ar.eq(e, kc);
            any = self.ar.or(any, q);
            match groups.iter_mut().find(|g| g.0 == *to) {
                Some(g) => g.1 = self.ar.or(g.1, q),
                None => groups.push((*to, q)),
            }
        }
        let d = self.ar.not(any);
        match groups.iter_mut().find(|g| g.0 == def) {
            Some(g) => g.1 = self.ar.or(g.1, d),
            None => groups.push((def, d)),
        }
        if self.replaying() {
            let i = match self.take_replay(st)? {
                Dec::Alt(i) => {
                    let c = groups[i as usize].1;
                    self.add_pc(st, c);
                    i
                }
                Dec::Only(i) => i,
                _ => return err("replay mismatch (switch)"),
            };
            self.end_replay(st)?;
            self.jump(st, groups[i as usize].0);
            return Ok(());
        }
        let mut mine = None;
        let mut others = vec![];
        for (i, (_, c)) in groups.iter().enumerate() {
            if mine.is_none() && self.ev(st, *c) != 0 {
                mine = Some(i);
                continue;
            }
            if let Some(m) = self.sat(st, *c)? {
                others.push((i, m));
            }
        }
        let Some(mine) = mine else { return err("switch without a target") };
        if others.is_empty() {
            st.trace.push(Dec::Only(mine as u32));
        } else {
            for (i, m) in others {
                let mut o = st.clone();
                o.trace.push(Dec::Alt(i as u32));
                o.model = m;
                o.forks += 1;
                self.add_pc(&mut o, groups[i].1);
                self.jump(&mut o, groups[i].0);
                self.forks += 1;
                self.pending.push(o);
            }
            st.trace.push(Dec::Alt(mine as u32));
            st.forks += 1;
            let c = groups[mine].1;
            self.add_pc(st, c);
        }
        self.jump(st, groups[mine].0);
        Ok(())
    }

    fn panic_text(&mut self, st: &State, args: &[Val]) -> String {
        let mut s = String::new();
        if let Some(Val::I(l)) = args.last() {
            // &Location { file: &str, line: u32, col: u32 }
            let l = *l;
            if let (Ok(Val::I(p)), Ok(Val::I(n)), Ok(Val::I(line))) =
                (self.load_int(st, l, 64), self.load_int(st, l + 8, 64), self.load_int(st, l + 16, 32))
            {
                if n < 4096 {
                    s = format!("{}:{}", self.str_at(st, p, n).trim_end_matches('\0'), line);
                }
            }
        }
        // fmt::Arguments { template, args }: a plain string has its length in args (odd)
        if let (Some(Val::I(t)), Some(Val::I(a))) = (args.first(), args.get(1)) {
            if a & 1 == 1 && *a < 1 << 20 {
                let m = self.str_at(st, *t, a >> 1);
                s = format!("{m} at {s}");
            }
        }
        s
    }

    fn call(&mut self, st: &mut State, c: &'m CallI) -> X<()> {
        let fi = match &c.callee {
            Callee::F(f) => *f,
            Callee::Ptr(o) => {
                let v = self.opd(st, o);
                let a = self.conc(st, &v, 64)?;
                let id = (a >> 32).wrapping_sub(BASE);
                if a & 0xffff_ffff != 0 || id < self.fbase as u64 || id - self.fbase as u64 >= self.m.funcs.len() as u64 {
                    return err(format!("call of address {a:#x}"));
                }
                (id - self.fbase as u64) as u32
            }
        };
        let kind = self.kinds[fi as usize];
        if kind == Kind::Nop {
            return self.after_call(st, None);
        }
        let args: Vec<Val> = c.args.iter().map(|a| self.opd(st, &a.1)).collect();
        if kind == Kind::Def {
            let f = &self.m.funcs[fi as usize];
            if let Some(e) = &f.err {
                return err(format!("function {} not readable: {e}", f.name));
            }
            if st.frames.len() > 1000 {
                return Err(Stop::Violation("does not finish (recursion)".into()));
            }
            self.seen_funcs[fi as usize] = true;
            let mut regs = vec![Val::I(0); f.nregs as usize];
            let mut allocas = vec![];
            for (i, r) in f.params.iter().enumerate() {
                let mut v = args.get(i).cloned().unwrap_or(Val::I(0));
                if let Some(Some(n)) = c.byval.get(i) {
                    let id = self.new_obj(st, *n)?;
                    allocas.push(id);
                    if let Val::I(s) = v {
                        self.copy(st, gaddr(id), s, *n)?;
                    }
                    v = Val::I(gaddr(id));
                }
                regs[*r as usize] = v;
            }
            st.frames.push(Frame { f: fi, block: 0, ip: 0, regs, allocas });
            return Ok(());
        }
        let w = c.args.first().map(|a| tw(&a.0)).unwrap_or(0);
        let vect = c.args.first().map(|a| matches!(a.0, Ty::Vector(..))).unwrap_or(false);
        if vect && !matches!(kind, Kind::MinMax(_) | Kind::Sat(_)) {
            return err(format!("vector intrinsic {}", self.m.funcs[fi as usize].name));
        }
        let r: Option<Val> = match kind {
            Kind::Def | Kind::Nop => unreachable!(),
            Kind::Panic => {
                if st.refuse {
                    return Err(Stop::Done);
                }
                let t = self.panic_text(st, &args);
                return Err(Stop::Violation(format!("panic: {t}")));
            }
            Kind::Abort => return Err(Stop::Violation("abort".into())),
            Kind::Syscall => return Err(Stop::Violation("blocks forever (a lock that is held)".into())),
            Kind::Malloc => {
                st.heap += 1;
                let id = self.alloc(st, &args[0])?;
                Some(Val::I(gaddr(id)))
            }
            Kind::RustAlloc | Kind::RustAllocZ => {
                st.heap += 1;
                let id = self.alloc(st, &args[0])?;
                Some(Val::I(gaddr(id)))
            }
            Kind::VOpaque => {
                st.heap += 1;
                let id = self.new_opaque(st);
                Some(Val::I(gaddr(id)))
            }
            Kind::VMark => {
                let mut g = self.e(&args[2], tw(&c.args[2].0));
                if self.ar.w(g) > 1 {
                    let z = self.ar.c(0, self.ar.w(g));
                    g = self.ar.ne(g, z);
                }
                if self.ar.cv(g) != Some(0) {
                    if !self.opaque(st, &args[0]) {
                        return err("a mark outside untracked buffers");
                    }
                    self.taint(st, &args[0]);
                    let o = self.opaque_off(&args[0]);
                    let k = self.e(&args[1], 64);
                    let o = self.ar.add(o, k);
                    let id = self.opaque_id(&args[0]);
                    Rc::make_mut(st.objs[id].as_mut().unwrap()).marks.push((o, g));
                }
                None
            }
            Kind::VMarked => {
                let n = self.e(&args[1], 64);
                let mut r = self.ar.c(0, 64);
                if self.opaque(st, &args[0]) {
                    let id = self.opaque_id(&args[0]);
                    let marks = st.objs[id].as_ref().unwrap().marks.clone();
                    let s = self.opaque_off(&args[0]);
                    for (o, g) in marks {
                        let i = self.within(o, s, n);
                        let g = self.ar.and(g, i);
                        let k = self.ar.sub(o, s);
                        let one = self.ar.c(1, 64);
                        let k = self.ar.add(k, one);
                        r = self.ar.ite(g, k, r);
                    }
                } else if self.ar.cv(n) != Some(0) {
                    return err("marks are looked for outside untracked buffers");
                }
                Some(self.val(r))
            }
            Kind::VHeap => Some(Val::I(st.heap as u64)),
            Kind::VRefuse => {
                st.refuse = Self::cv(&args[0]) != Some(0);
                None
            }
            Kind::VMode => {
                st.lengths = Self::cv(&args[0]) != Some(0);
                None
            }
            Kind::ClockGettime => {
                let p = self.conc(st, &args[1], 64)?;
                self.store_int(st, p, 64, &Val::I(1000))?;
                self.store_int(st, p + 8, 64, &Val::I(0))?;
                Some(Val::I(0))
            }
            Kind::RustDealloc | Kind::Free => {
                let a = self.conc(st, &args[0], 64)?;
                st.heap -= (a != 0) as i64;
                self.release(st, a)?;
                None
            }
            Kind::RustRealloc | Kind::Realloc => {
                let a = self.conc(st, &args[0], 64)?;
                let nv = args[if kind == Kind::Realloc { 1 } else { 3 }].clone();
                let src_op = self.opaque(st, &Val::I(a));
                let id = if src_op { self.new_opaque(st) } else { self.alloc(st, &nv)? };
                if src_op || self.opaque(st, &Val::I(gaddr(id))) {
                    let clean = if src_op {
                        !self.dirty(st, &Val::I(a))
                    } else {
                        let (i, _) = self.split(st, a, 0)?;
                        let o = st.objs[i].as_ref().unwrap();
                        o.sym.is_none() && o.data.iter().all(|x| *x == 0)
                    };
                    if !clean {
                        self.taint(st, &Val::I(gaddr(id)));
                    }
                    if src_op {
                        let i = self.opaque_id(&Val::I(a));
                        let marks = st.objs[i].as_ref().unwrap().marks.clone();
                        Rc::make_mut(st.objs[id as usize].as_mut().unwrap()).marks = marks;
                    }
                    self.release(st, a)?;
                } else if a != 0 {
                    let n = self.conc(st, &nv, 64)?;
                    let (oid, _) = self.split(st, a, 0)?;
                    let old = st.objs[oid].as_ref().unwrap().data.len() as u64;
                    self.copy(st, gaddr(id), a, old.min(n))?;
                    self.release(st, a)?;
                }
                Some(Val::I(gaddr(id)))
            }
            Kind::Calloc => {
                let a = self.conc(st, &args[0], 64)?;
                let b = self.conc(st, &args[1], 64)?;
                let id = self.new_obj(st, a * b)?;
                Some(Val::I(gaddr(id)))
            }
            Kind::Memalign => {
                let p = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[2], 64)?;
                let id = self.new_obj(st, n)?;
                self.store_int(st, p, 64, &Val::I(gaddr(id)))?;
                Some(Val::I(0))
            }
            Kind::Memcpy | Kind::Memmove => {
                let lw = tw(&c.args[2].0);
                if self.opaque(st, &args[0]) {
                    let src = self.opaque(st, &args[1]).then(|| args[1].clone());
                    self.overwrite(st, &args[0], &args[2], src.as_ref());
                    if self.opaque(st, &args[1]) {
                        if self.dirty(st, &args[1]) {
                            self.taint(st, &args[0]);
                        }
                    } else if let (Val::I(s), Some(n)) = (&args[1], Self::cv(&args[2])) {
                        let n = n as u64;
                        let zero = n == 0 || match self.split(st, *s, n) {
                            Ok((i, o)) => {
                                let b = st.objs[i].as_ref().unwrap();
                                let r = o..o + n as usize;
                                b.data[r.clone()].iter().all(|x| *x == 0)
                                    && b.sym.as_ref().map_or(true, |s| s[r].iter().all(|x| *x == 0))
                            }
                            Err(_) => false,
                        };
                        if !zero {
                            self.taint(st, &args[0]);
                        }
                    } else {
                        self.taint(st, &args[0]);
                    }
                    return self.after_call(st, Some(args[0].clone()));
                }
                let n = self.conc(st, &args[2], lw)?;
                let d = self.conc(st, &args[0], 64)?;
                if n > 0 && self.opaque(st, &args[1]) {
                    if self.dirty(st, &args[1]) {
                        return err("copy out of an untracked buffer");
                    }
                    let (id, off) = self.split(st, d, n)?;
                    let o = Self::obj_mut(st, id)?;
                    o.data[off..off + n as usize].fill(0);
                    if let Some(s) = &mut o.sym {
                        s[off..off + n as usize].fill(0);
                    }
                    return self.after_call(st, Some(Val::I(d)));
                }
                if n > 0 {
                    let s = self.conc(st, &args[1], 64)?;
                    self.copy(st, d, s, n)?;
                }
                Some(Val::I(d))
            }
            Kind::Memset => {
                let lw = tw(&c.args[2].0);
                if self.opaque(st, &args[0]) {
                    if !matches!(args[1], Val::I(0)) {
                        self.taint(st, &args[0]);
                    }
                    self.overwrite(st, &args[0], &args[2], None);
                    return self.after_call(st, Some(args[0].clone()));
                }
                let n = self.conc(st, &args[2], lw)?;
                let d = self.conc(st, &args[0], 64)?;
                if n > 0 {
                    match &args[1] {
                        Val::I(b) => {
                            let (id, off) = self.split(st, d, n)?;
                            let o = Self::obj_mut(st, id)?;
                            o.data[off..off + n as usize].fill(*b as u8);
                            if let Some(s) = &mut o.sym {
                                s[off..off + n as usize].fill(0);
                            }
                        }
                        v => {
                            let v = if tw(&c.args[1].0) == 32 {
                                let e = self.e(v, 32);
                                let e = self.ar.extract(e, 0, 8);
                                self.val(e)
                            } else {
                                v.clone()
                            };
                            for k in 0..n {
                                self.store_int(st, d + k, 8, &v)?;
                            }
                        }
                    }
                }
                Some(Val::I(d))
            }
            Kind::Bcmp | Kind::Memcmp => {
                let n = self.conc(st, &args[2], 64)?;
                let rw = tw(&c.ret);
                let mut r = self.ar.c(0, rw);
                if n > 0 {
                    let a = self.conc(st, &args[0], 64)?;
                    let b = self.conc(st, &args[1], 64)?;
                    for k in (0..n).rev() {
                        let x = self.load_int(st, a + k, 8)?;
                        let y = self.load_int(st, b + k, 8)?;
                        let x = self.e(&x, 8);
                        let y = self.e(&y, 8);
                        let eq = self.ar.eq(x, y);
                        let lt = self.ar.ult(x, y);
                        let m1 = self.ar.c(u128::MAX, rw);
                        let p1 = self.ar.c(1, rw);
                        let d = if kind == Kind::Bcmp { p1 } else { self.ar.ite(lt, m1, p1) };
                        r = self.ar.ite(eq, r, d);
                    }
                }
                Some(self.val(r))
            }
            Kind::Strlen => {
                let a = self.conc(st, &args[0], 64)?;
                let mut k = 0;
                loop {
                    match self.load_int(st, a + k, 8)? {
                        Val::I(0) => break,
                        Val::I(_) => k += 1,
                        _ => return err("strlen of symbolic bytes"),
                    }
                }
                Some(Val::I(k))
            }
            Kind::VSym => {
                // (width, name ptr, name len)
                let wd = self.conc(st, &args[0], 32)? as u16;
                let (p, n) = (self.conc(st, &args[1], 64)?, self.conc(st, &args[2], 64)?);
                let name = self.str_at(st, p, n);
                let ni = match self.names.iter().position(|x| *x == name) {
                    Some(i) => i,
                    None => {
                        self.names.push(name);
                        self.names.len() - 1
                    }
                };
                let i = st.syms.len() as u32;
                st.syms.push((wd, ni as u32));
                let e = self.ar.sym(i, wd);
                let e = self.ar.zext(e, 64);
                if st.model.len() <= i as usize {
                    st.model.resize(i as usize + 1, 0);
                }
                Some(Val::S(e))
            }
            Kind::VAssume => {
                if let Val::S(e) = &args[0] {
                    let mut e = *e;
                    if self.ar.w(e) > 1 {
                        let z = self.ar.c(0, self.ar.w(e));
                        e = self.ar.ne(e, z);
                    }
                    if self.replaying() {
                        match self.take_replay(st)? {
                            Dec::Assume => {}
                            _ => return err("replay mismatch (assume)"),
                        }
                        self.add_pc(st, e);
                        self.end_replay(st)?;
                    } else if self.ev(st, e) != 0 {
                        st.trace.push(Dec::Assume);
                        self.add_pc(st, e);
                    } else {
                        match self.sat(st, e)? {
                            None => return Err(Stop::Pruned),
                            Some(m) => {
                                st.trace.push(Dec::Assume);
                                st.model = m;
                                self.add_pc(st, e);
                            }
                        }
                    }
                } else if Self::cv(&args[0]) == Some(0) {
                    return Err(Stop::Pruned);
                }
                None
            }
            Kind::VCheck => {
                let (p, n) = (self.conc(st, &args[1], 64)?, self.conc(st, &args[2], 64)?);
                let name = self.str_at(st, p, n);
                let mut bad = false;
                match &args[0] {
                    Val::S(e) => {
                        let mut e = *e;
                        if self.ar.w(e) > 1 {
                            let z = self.ar.c(0, self.ar.w(e));
                            e = self.ar.ne(e, z);
                        }
                        if !self.replaying() {
                            let ne = self.ar.not(e);
                            if let Some(m) = self.sat(st, ne)? {
                                st.model = m;
                                self.add_pc(st, ne);
                                bad = true;
                            }
                        }
                    }
                    v => bad = Self::cv(v) == Some(0),
                }
                if bad {
                    return Err(Stop::Violation(name));
                }
                *self.checks.entry(name).or_insert(0) += 1;
                None
            }
            Kind::VWitness => {
                let (p, n) = (self.conc(st, &args[1], 64)?, self.conc(st, &args[2], 64)?);
                let name = self.str_at(st, p, n);
                let mut model = None;
                let hit = match &args[0] {
                    Val::S(e) => {
                        let mut e = *e;
                        if self.ar.w(e) > 1 {
                            let z = self.ar.c(0, self.ar.w(e));
                            e = self.ar.ne(e, z);
                        }
                        if self.replaying() || self.witnesses.get(&name).copied().unwrap_or(0) > 0 {
                            false
                        } else {
                            model = self.sat(st, e)?;
                            model.is_some()
                        }
                    }
                    // on a path followed anew, what is ahead of the new decision was seen before
                    v => !self.replaying() && Self::cv(v) != Some(0),
                };
                let first = hit && self.witnesses.get(&name).copied().unwrap_or(0) == 0;
                *self.witnesses.entry(name.clone()).or_insert(0) += hit as u64;
                if first && self.samples.len() < 4 {
                    let mut r = self.report(st, "witness", name);
                    if let Some(m) = model {
                        for (i, v) in r.values.iter_mut().enumerate() {
                            v.1 = m.get(i).copied().unwrap_or(0) & mask(v.0);
                        }
                    }
                    self.samples.push(r);
                }
                None
            }
            Kind::VBound => {
                let (p, n) = (self.conc(st, &args[0], 64)?, self.conc(st, &args[1], 64)?);
                let s = self.str_at(st, p, n);
                return err(format!("model bound exceeded: {s}"));
            }
            Kind::VConc => {
                let v = self.conc(st, &args[0], 64)?;
                Some(Val::I(v))
            }
            Kind::VDbg => {
                eprintln!("dbg: {:?}", args);
                for a in &args {
                    if let Val::S(e) = a {
                        eprintln!("   {}", self.show(*e, 6));
                    }
                }
                None
            }
            Kind::OvfU(k) | Kind::OvfS(k) => {
                let signed = matches!(kind, Kind::OvfS(_));
                let (a, b) = (args[0].clone(), args[1].clone());
                let x = self.e(&a, w);
                let y = self.e(&b, w);
                let op = [Bin::Add, Bin::Sub, Bin::Mul][k as usize];
                let r = self.bin(op, w, &a, &b)?;
                let o = self.overflow(k, signed, w, x, y);
                Some(Val::A(Rc::new(vec![r, o])))
            }
            Kind::MinMax(k) => {
                let t = &c.args[0].0;
                let p = [Pred::Ugt, Pred::Ult, Pred::Sgt, Pred::Slt][k as usize];
                Some(self.map2(t, &args[0], &args[1], |s, w, a, b| {
                    let c = s.icmp(p, w, a, b);
                    Ok(s.sel(&c, w, a, b))
                })?)
            }
            Kind::Sat(k) => {
                let t = &c.args[0].0;
                Some(self.map2(t, &args[0], &args[1], |s, w, a, b| {
                    let x = s.e(a, w);
                    let y = s.e(b, w);
                    match k {
                        0 => {
                            let r = s.bin(Bin::Add, w, a, b)?;
                            let o = s.overflow(0, false, w, x, y);
                            Ok(s.sel(&o, w, &Self::mkc(u128::MAX, w), &r))
                        }
                        1 => {
                            let r = s.bin(Bin::Sub, w, a, b)?;
                            let o = s.overflow(1, false, w, x, y);
                            Ok(s.sel(&o, w, &Self::mkc(0, w), &r))
                        }
                        _ => err("signed saturating arithmetic"),
                    }
                })?)
            }
            Kind::Fsh(left) => {
                let x = self.e(&args[0], w);
                let y = self.e(&args[1], w);
                let n = match Self::cv(&args[2]) {
                    Some(n) => (n % w as u128) as u16,
                    None => return err("symbolic funnel shift"),
                };
                let cat = self.ar.concat(x, y);
                let r = if left { self.ar.extract(cat, w - n, w) } else { self.ar.extract(cat, n, w) };
                Some(self.val(r))
            }
            Kind::Ctpop => {
                let x = self.e(&args[0], w);
                let mut r = self.ar.c(0, w);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let z = self.ar.zext(b, w.max(2));
                    let z = if w == 1 { b } else { z };
                    r = self.ar.add(r, z);
                }
                Some(self.val(r))
            }
            Kind::Ctlz | Kind::Cttz => {
                let x = self.e(&args[0], w);
                let mut r = self.ar.c(w as u128, w);
                for k in 0..w {
                    let i = if kind == Kind::Ctlz { k } else { w - 1 - k };
                    let b = self.ar.extract(x, i, 1);
                    let n = if kind == Kind::Ctlz { w - 1 - i } else { i };
                    let nv = self.ar.c(n as u128, w);
                    r = self.ar.ite(b, nv, r);
                }
                Some(self.val(r))
            }
            Kind::Abs => {
                let neg = self.bin(Bin::Sub, w, &Self::mkc(0, w), &args[0])?;
                let c = self.icmp(Pred::Slt, w, &args[0], &Self::mkc(0, w));
                Some(self.sel(&c, w, &neg, &args[0]))
            }
            Kind::Bswap => {
                let x = self.e(&args[0], w);
                let mut r: Option<E> = None;
                for i in 0..w / 8 {
                    let b = self.ar.extract_raw(x, i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(p) => self.ar.concat(p, b),
                    });
                }
                let r = self.ar.norm(r.unwrap());
                Some(self.val(r))
            }
            Kind::BitRev => {
                let x = self.e(&args[0], w);
                let mut r: Option<E> = None;
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    r = Some(match r {
                        None => b,
                        Some(p) => self.ar.concat(p, b),
                    });
                }
                Some(self.val(r.unwrap()))
            }
            Kind::IsConst => Some(Val::I(0)),
            Kind::Ident | Kind::Expect => Some(args[0].clone()),
            Kind::Cmp3(signed) => {
                let rw = tw(&c.ret);
                let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, w, &args[0], &args[1]);
                let eq = self.icmp(Pred::Eq, w, &args[0], &args[1]);
                let r = self.sel(&eq, rw, &Self::mkc(0, rw), &Self::mkc(1, rw));
                Some(self.sel(&lt, rw, &Self::mkc(u128::MAX, rw), &r))
            }
            Kind::Unknown => return err(format!("call of external function {}", self.m.funcs[fi as usize].name)),
        };
        self.after_call(st, r)
    }
    fn overflow(&mut self, k: u8, signed: bool, w: u16, x: E, y: E) -> Val {
        let ar = &mut self.ar;
        let r = match (k, signed) {
            (0, false) => {
                let s = ar.add(x, y);
                ar.ult(s, x)
            }
            (1, false) => ar.ult(x, y),
            (_, false) => {
                let w2 = (w * 2).min(128);
                if w > 64 {
                    ar.fals()
                } else {
                    let a = ar.zext(x, w2);
                    let b = ar.zext(y, w2);
                    let p = ar.mul(a, b);
                    let h = ar.extract(p, w, w);
                    let z = ar.c(0, w);
                    ar.ne(h, z)
                }
            }
            (_, true) => {
                let w2 = w * 2;
                let a = ar.sext(x, w2);
                let b = ar.sext(y, w2);
                let p = match k {
                    0 => ar.add(a, b),
                    1 => ar.sub(a, b),
                    _ => ar.mul(a, b),
                };
                let lo = ar.extract(p, 0, w);
                let back = ar.sext(lo, w2);
                ar.ne(back, p)
            }
        };
        self.val(r)
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        match self.ar.op(e) {
            Op::Const(v) => format!("{v:#x}"),
            Op::Sym(i) => format!("v{i}"),
            Op::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, depth - 1), lo, self.ar.w(e)),
            o => {
                let n = format!("{o:?}");
                let n = n.split('(').next().unwrap_or("");
                let ch: Vec<String> = self.ar.children(e).iter().map(|c| self.show(*c, depth - 1)).collect();
                format!("{n}{}({})", self.ar.w(e), ch.join(", "))
            }
        }
    }
    pub fn report(&self, st: &State, kind: &'static str, msg: String) -> Report {
        let values = st
            .syms
            .iter()
            .enumerate()
            .map(|(i, (w, n))| {
                (*w, st.model.get(i).copied().unwrap_or(0) & mask(*w), self.names[*n as usize].clone())
            })
            .collect();
        Report { kind, msg, values, stack: self.stack(st) }
    }
}

#[derive(Clone, Default)]
pub struct Counters {
    pub insns: u64,
    pub forks: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub cache_hits: u64,
}
impl<'m> Exec<'m> {
    pub fn counters(&self) -> Counters {
        Counters {
            insns: self.insns,
            forks: self.forks,
            queries: self.z.queries,
            sat: self.z.sat,
            unsat: self.z.unsat,
            unknown: self.z.unknown,
            solver_s: self.z.time,
            cache_hits: self.cache_hits,
        }
    }
    pub fn take_witnesses(&mut self) -> BTreeMap<String, u64> {
        std::mem::take(&mut self.witnesses)
    }
    pub fn take_seen(&mut self) -> Vec<u32> {
        let r = (0..self.seen_funcs.len() as u32).filter(|i| self.seen_funcs[*i as usize]).collect();
        self.seen_funcs.iter_mut().for_each(|x| *x = false);
        r
    }
}
