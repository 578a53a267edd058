//! Hash-consed bit-vector terms with local simplification, evaluation under a model and
//! per-term variable sets.  Width 1 is the Boolean sort.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Sym(u32),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    SDiv(E, E),
    URem(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Not(E),
    ZExt(E),
    SExt(E),
    Extract(E, u16), // low bit; width from node
    Concat(E, E),    // high, low
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, u16), E, Fx>,
    vars: Vec<Option<Rc<Vec<u32>>>>,
    rng: Vec<(u128, u128)>,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: HashMap::default(), vars: vec![], rng: vec![] };
        // id 0 is reserved ("no term")
        a.nodes.push(Node { op: Op::Const(0), w: 0 });
        a.vars.push(None);
        a.rng.push((0, 0));
        a
    }
    fn mk(&mut self, op: Op, w: u16) -> E {
        if let Some(&e) = self.map.get(&(op, w)) {
            return e;
        }
        let e = self.nodes.len() as E;
        let r = self.range_of(op, w);
        self.nodes.push(Node { op, w });
        self.vars.push(None);
        self.rng.push(r);
        self.map.insert((op, w), e);
        e
    }
    /// Bounds of the unsigned value of a term, whatever the symbols are.
    pub fn range(&self, e: E) -> (u128, u128) {
        self.rng[e as usize]
    }
    fn range_of(&self, op: Op, w: u16) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let r = |e: E| self.rng[e as usize];
        if w > 64 {
            // products and sums below stay within u128 only for narrower terms
            return match op {
                Op::Const(v) => (v, v),
                Op::ZExt(a) => r(a),
                _ => full,
            };
        }
        match op {
            Op::Const(v) => (v, v),
            Op::Add(a, b) => {
                let (x, y) = (r(a), r(b));
                if x.1 + y.1 <= m {
                    (x.0 + y.0, x.1 + y.1)
                } else if x.0 + y.0 > m {
                    (x.0 + y.0 - m - 1, x.1 + y.1 - m - 1)
                } else {
                    full
                }
            }
            Op::Sub(a, b) => {
                let (x, y) = (r(a), r(b));
                if x.0 >= y.1 {
                    (x.0 - y.1, x.1 - y.0)
                } else {
                    full
                }
            }
            Op::Mul(a, b) => {
                let (x, y) = (r(a), r(b));
                match x.1.checked_mul(y.1) {
                    Some(h) if h <= m => (x.0 * y.0, h),
                    _ => full,
                }
            }
            Op::UDiv(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.0 > 0 {
                    (x.0 / y.1, x.1 / y.0)
                } else {
                    full
                }
            }
            Op::URem(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.0 > 0 {
                    (0, x.1.min(y.1 - 1))
                } else {
                    full
                }
            }
            Op::And(a, b) => (0, r(a).1.min(r(b).1)),
            Op::Or(a, b) => {
                let (x, y) = (r(a), r(b));
                let top = x.1 | y.1;
                let h = if top == 0 { 0 } else { (1u128 << (128 - top.leading_zeros())) - 1 };
                (x.0.max(y.0), h.min(m))
            }
            Op::Xor(a, b) => {
                let top = r(a).1 | r(b).1;
                let h = if top == 0 { 0 } else { (1u128 << (128 - top.leading_zeros())) - 1 };
                (0, h.min(m))
            }
            Op::Shl(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.0 == y.1 && y.0 < w as u128 && (x.1 << y.0) <= m {
                    (x.0 << y.0, x.1 << y.0)
                } else {
                    full
                }
            }
            Op::LShr(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.1 < 128 {
                    (x.0 >> y.1, x.1 >> y.0)
                } else {
                    (0, x.1)
                }
            }
            Op::ZExt(a) => r(a),
            Op::Extract(a, lo) => {
                let x = r(a);
                if x.1 >> lo <= m {
                    (x.0 >> lo, x.1 >> lo)
                } else {
                    full
                }
            }
            Op::Concat(h, l) => {
                let wl = self.w(l);
                let (x, y) = (r(h), r(l));
                ((x.0 << wl) + y.0, (x.1 << wl) + y.1)
            }
            Op::Ite(c, a, b) => {
                let (x, y) = (r(a), r(b));
                let mut lo = x.0.min(y.0);
                let mut hi = x.1.max(y.1);
                // minimum and maximum of two terms
                match self.op(c) {
                    Op::Ult(p, q) | Op::Ule(p, q) => {
                        if p == a && q == b {
                            hi = x.1.min(y.1);
                        } else if p == b && q == a {
                            lo = x.0.max(y.0);
                        }
                    }
                    _ => {}
                }
                (lo, hi)
            }
            _ => full,
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn op(&self, e: E) -> Op {
        self.nodes[e as usize].op
    }
    pub fn c(&mut self, v: u128, w: u16) -> E {
        self.mk(Op::Const(v & mask(w)), w)
    }
    pub fn sym(&mut self, i: u32, w: u16) -> E {
        self.mk(Op::Sym(i), w)
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn tru(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn fals(&mut self) -> E {
        self.c(0, 1)
    }

    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let ch = self.children(x);
            if !done {
                stack.push((x, true));
                for c in ch {
                    if self.vars[c as usize].is_none() {
                        stack.push((c, false));
                    }
                }
            } else {
                let r: Rc<Vec<u32>> = match self.op(x) {
                    Op::Sym(i) => Rc::new(vec![i]),
                    _ => {
                        if ch.len() == 1 {
                            self.vars[ch[0] as usize].clone().unwrap()
                        } else {
                            let mut v: Vec<u32> = vec![];
                            for c in &ch {
                                v.extend(self.vars[*c as usize].as_ref().unwrap().iter());
                            }
                            v.sort_unstable();
                            v.dedup();
                            Rc::new(v)
                        }
                    }
                };
                self.vars[x as usize] = Some(r);
            }
        }
        self.vars[e as usize].clone().unwrap()
    }
    pub fn children(&self, e: E) -> Vec<E> {
        use Op::*;
        match self.op(e) {
            Const(_) | Sym(_) => vec![],
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | SDiv(a, b) | URem(a, b)
            | SRem(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Shl(a, b) | LShr(a, b)
            | AShr(a, b) | Concat(a, b) | Eq(a, b) | Ult(a, b) | Ule(a, b) | Slt(a, b)
            | Sle(a, b) => vec![a, b],
            Not(a) | ZExt(a) | SExt(a) | Extract(a, _) => vec![a],
            Ite(a, b, c) => vec![a, b, c],
        }
    }

    // ---- constructors ----------------------------------------------------------------

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if let Op::Add(p, q) = self.op(a) {
                    if let Some(z) = self.cv(q) {
                        let k = self.c(y.wrapping_add(z), w);
                        return self.add(p, k);
                    }
                }
                // (a - q) + y stays
            }
            _ => {
                // (p - b) + b = p
                if let Op::Sub(p, q) = self.op(a) {
                    if q == b {
                        return p;
                    }
                }
                if let Op::Sub(p, q) = self.op(b) {
                    if q == a {
                        return p;
                    }
                }
            }
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            let k = self.c((0u128).wrapping_sub(y), w);
            return self.add(a, k);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Op::Add(p, q) = self.op(a) {
            if p == b {
                return q;
            }
            if q == b {
                return p;
            }
        }
        self.mk(Op::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(0), _) => return a,
            (_, Some(0)) => return b,
            (Some(1), _) => return b,
            (_, Some(1)) => return a,
            (Some(_), None) => return self.mul(b, a),
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        self.mk(Op::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x / y, w),
            (_, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
            _ => {}
        }
        self.mk(Op::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x % y, w),
            (_, Some(1)) => return self.c(0, w),
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y - 1, w);
                return self.and(a, k);
            }
            _ => {}
        }
        self.mk(Op::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let r = sext(x, w).wrapping_div(sext(y, w));
                return self.c(r as u128, w);
            }
        }
        self.mk(Op::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let r = sext(x, w).wrapping_rem(sext(y, w));
                return self.c(r as u128, w);
            }
        }
        self.mk(Op::SRem(a, b), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) => {
                if y == mask(w) {
                    return a;
                }
                // low mask -> zext(extract)
                if (y + 1).is_power_of_two() {
                    let n = (y + 1).trailing_zeros() as u16;
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
                // single bit or high mask on zext
                if let Op::ZExt(x) = self.op(a) {
                    let wx = self.w(x);
                    if y & mask(wx) == 0 {
                        return self.c(0, w);
                    }
                    let k = self.c(y, wx);
                    let r = self.and(x, k);
                    return self.zext(r, w);
                }
                if let Op::And(p, q) = self.op(a) {
                    if let Some(z) = self.cv(q) {
                        let k = self.c(y & z, w);
                        return self.and(p, k);
                    }
                }
                if let Op::Or(p, q) = self.op(a) {
                    if let Some(z) = self.cv(q) {
                        let k = self.c(y & z, w);
                        let kb = self.c(y, w);
                        let l = self.and(p, kb);
                        return self.or(l, k);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.fals();
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::And(a, b), w)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        matches!(self.op(a), Op::Not(x) if x == b) || matches!(self.op(b), Op::Not(x) if x == a)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            (None, Some(y)) => {
                if let Op::Or(p, q) = self.op(a) {
                    if let Some(z) = self.cv(q) {
                        let k = self.c(y | z, w);
                        return self.or(p, k);
                    }
                }
            }
            _ => {}
        }
        if w == 1 && self.is_not_of(a, b) {
            return self.tru();
        }
        // disjoint pieces -> concat
        if w > 1 {
            if let Some(r) = self.or_concat(a, b) {
                return r;
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Or(a, b), w)
    }
    /// The term as pieces, lowest first; None is a zero piece.
    fn pieces(&self, e: E, out: &mut Vec<(u16, Option<E>)>) {
        match self.op(e) {
            Op::Const(0) => out.push((self.w(e), None)),
            Op::Concat(h, l) => {
                self.pieces(l, out);
                self.pieces(h, out);
            }
            Op::ZExt(x) => {
                self.pieces(x, out);
                out.push((self.w(e) - self.w(x), None));
            }
            _ => out.push((self.w(e), Some(e))),
        }
    }
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let (mut p, mut q) = (vec![], vec![]);
        self.pieces(a, &mut p);
        self.pieces(b, &mut q);
        if p.len() < 2 && q.len() < 2 {
            return None;
        }
        let (mut i, mut j, mut di, mut dj) = (0, 0, 0u16, 0u16);
        let mut r: Vec<(u16, Option<(E, u16)>)> = vec![];
        while i < p.len() {
            let n = (p[i].0 - di).min(q[j].0 - dj);
            let x = match (p[i].1, q[j].1) {
                (None, None) => None,
                (Some(x), None) => Some((x, di)),
                (None, Some(y)) => Some((y, dj)),
                _ => return None,
            };
            r.push((n, x));
            di += n;
            dj += n;
            if di == p[i].0 {
                i += 1;
                di = 0;
            }
            if dj == q[j].0 {
                j += 1;
                dj = 0;
            }
        }
        let mut t: Option<E> = None;
        for (n, x) in r {
            let e = match x {
                Some((x, lo)) => self.extract_raw(x, lo, n),
                None => self.c(0, n),
            };
            t = Some(match t {
                None => e,
                Some(l) => self.concat(e, l),
            });
        }
        Some(self.norm(t.unwrap()))
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return self.not(a),
            _ => {}
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Xor(a, b), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.op(a) {
            Op::Const(v) => self.c(!v, w),
            Op::Not(x) => x,
            Op::Ult(x, y) => self.ule(y, x),
            Op::Ule(x, y) => self.ult(y, x),
            Op::Slt(x, y) => self.sle(y, x),
            Op::Sle(x, y) => self.slt(y, x),
            _ => self.mk(Op::Not(a), w),
        }
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            if let Some(x) = self.cv(a) {
                return self.c(x << k, w);
            }
            let k = k as u16;
            let lo = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(lo, z);
        }
        self.mk(Op::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u16;
            let hi = self.extract(a, k, w - k);
            return self.zext(hi, w);
        }
        self.mk(Op::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let k = (k.min(w as u128 - 1)) as u16;
            let hi = self.extract(a, k, w - k);
            return self.sext(hi, w);
        }
        self.mk(Op::AShr(a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        match self.op(a) {
            Op::Const(v) => self.c(v, w),
            Op::ZExt(x) => self.zext(x, w),
            // the dropped bits are known to be zero
            Op::Extract(x, 0) if self.w(x) <= w && self.range(x).1 <= mask(wa) => self.zext(x, w),
            _ => self.mk(Op::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.op(a) {
            Op::Const(v) => self.c(sext(v, wa) as u128, w),
            Op::ZExt(x) if self.w(x) < wa => self.zext(x, w),
            _ => self.mk(Op::SExt(a), w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, n: u16) -> E {
        let w = self.w(a);
        if lo == 0 && n == w {
            return a;
        }
        debug_assert!(lo + n <= w);
        match self.op(a) {
            Op::Const(v) => return self.c(v >> lo, n),
            Op::Extract(x, l) => return self.extract(x, l + lo, n),
            Op::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, n);
                }
                if lo + n <= wl {
                    return self.extract(l, lo, n);
                }
                let hi = self.extract(h, 0, lo + n - wl);
                let lw = self.extract(l, lo, wl - lo);
                return self.concat(hi, lw);
            }
            Op::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.c(0, n);
                }
                if lo + n <= wx {
                    return self.extract(x, lo, n);
                }
                let p = self.extract(x, lo, wx - lo);
                return self.zext(p, n);
            }
            Op::SExt(x) => {
                let wx = self.w(x);
                if lo + n <= wx {
                    return self.extract(x, lo, n);
                }
            }
            Op::Ite(c, x, y) => {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let p = self.extract(x, lo, n);
                    let q = self.extract(y, lo, n);
                    return self.ite(c, p, q);
                }
            }
            Op::And(x, y) if self.cv(y).is_some() => {
                let p = self.extract(x, lo, n);
                let q = self.extract(y, lo, n);
                return self.and(p, q);
            }
            Op::Or(x, y) if self.cv(y).is_some() => {
                let p = self.extract(x, lo, n);
                let q = self.extract(y, lo, n);
                return self.or(p, q);
            }
            Op::Add(x, y) if lo == 0 => {
                let p = self.extract(x, 0, n);
                let q = self.extract(y, 0, n);
                return self.add(p, q);
            }
            Op::Sub(x, y) if lo == 0 => {
                let p = self.extract(x, 0, n);
                let q = self.extract(y, 0, n);
                return self.sub(p, q);
            }
            _ => {}
        }
        self.mk(Op::Extract(a, lo), n)
    }
    /// Like `extract`, but never pushed into arithmetic, so that neighbouring pieces of one term
    /// put together again (`concat`) give back that very term.
    pub fn extract_raw(&mut self, a: E, lo: u16, n: u16) -> E {
        let w = self.w(a);
        if lo == 0 && n == w {
            return a;
        }
        if self.range(a).1 >> lo == 0 {
            return self.c(0, n);
        }
        match self.op(a) {
            Op::Extract(x, l) => return self.extract_raw(x, l + lo, n),
            Op::Const(_) => return self.extract(a, lo, n),
            Op::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract_raw(h, lo - wl, n);
                }
                if lo + n <= wl {
                    return self.extract_raw(l, lo, n);
                }
                let hi = self.extract_raw(h, 0, lo + n - wl);
                let lw = self.extract_raw(l, lo, wl - lo);
                return self.concat(hi, lw);
            }
            Op::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.c(0, n);
                }
                if lo + n <= wx {
                    return self.extract_raw(x, lo, n);
                }
                let p = self.extract_raw(x, lo, wx - lo);
                return self.zext(p, n);
            }
            _ => {}
        }
        self.mk(Op::Extract(a, lo), n)
    }
    /// The value of a memory read: pushes a remaining extract inwards where that helps.
    pub fn norm(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.op(a) {
            Op::Extract(x, lo) if w > 8 || (lo == 0 && self.range(x).1 <= mask(w)) => self.extract(x, lo, w),
            Op::ZExt(x) => {
                let y = self.norm(x);
                self.zext(y, w)
            }
            _ => a,
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        match (self.op(h), self.op(l)) {
            (Op::Const(x), Op::Const(y)) => return self.c((x << wl) | y, w),
            (Op::Const(0), _) => return self.zext(l, w),
            (Op::Extract(x, lx), Op::Extract(y, ly)) if x == y && lx == ly + wl => {
                return self.extract_raw(x, ly, w)
            }
            (Op::Extract(x, lx), _) if x == l && lx == wl => return self.extract_raw(x, 0, w),
            (Op::ZExt(x), _) => {
                let p = self.concat(x, l);
                return self.zext(p, w);
            }
            (Op::Concat(hh, hl), _) => {
                // right-nest so that adjacent extracts meet
                let lower = self.concat(hl, l);
                return self.concat(hh, lower);
            }
            (Op::Extract(x, lx), Op::Concat(l1, l2)) => {
                if let Op::Extract(y, ly) = self.op(l1) {
                    if x == y && lx == ly + self.w(l1) {
                        let m = self.extract_raw(x, ly, wh + self.w(l1));
                        return self.concat(m, l2);
                    }
                }
                if l1 == x && lx == self.w(l1) {
                    let m = self.extract_raw(x, 0, wh + self.w(l1));
                    return self.concat(m, l2);
                }
            }
            (Op::Const(x), Op::Concat(l1, l2)) => {
                if let Op::Const(y) = self.op(l1) {
                    let k = self.c((x << self.w(l1)) | y, wh + self.w(l1));
                    return self.concat(k, l2);
                }
            }
            _ => {}
        }
        self.mk(Op::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Op::Not(x) = self.op(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Op::Ite(c2, x, _) = self.op(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Op::Ite(c2, _, y) = self.op(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Op::Ite(c, a, b), w)
    }
    /// A rearrangement of the pieces of one term (a byte swap, say): the term, and the constant
    /// rearranged back.
    fn permuted(&self, a: E, k: u128) -> Option<(E, u128)> {
        let Op::Concat(..) = self.op(a) else { return None };
        let mut p = vec![];
        self.pieces(a, &mut p);
        let mut x = 0;
        for (_, q) in &p {
            if let Some(q) = q {
                let Op::Extract(y, _) = self.op(*q) else { return None };
                if x != 0 && x != y {
                    return None;
                }
                x = y;
            }
        }
        let (mut at, mut seen, mut kk) = (0u16, 0u128, 0u128);
        for (n, q) in &p {
            let part = (k >> at) & mask(*n);
            at += n;
            match q {
                None => {
                    if part != 0 {
                        return None;
                    }
                }
                Some(q) => {
                    let Op::Extract(_, lo) = self.op(*q) else { return None };
                    let m = mask(*n) << lo;
                    if seen & m != 0 {
                        return None;
                    }
                    seen |= m;
                    kk |= part << lo;
                }
            }
        }
        // bits not covered must be zero whatever the symbols are
        let top = self.range(x).1;
        let used = if top == 0 { 0 } else { mask((128 - top.leading_zeros()) as u16) };
        (used & !seen == 0).then_some((x, kk))
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        let (ra, rb) = (self.range(a), self.range(b));
        if w > 1 && (ra.1 < rb.0 || rb.1 < ra.0) {
            return self.fals();
        }
        match (self.cv(a), self.cv(b)) {
            (Some(_), Some(_)) => return self.fals(),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(k)) => {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                if let Some((x, kk)) = self.permuted(a, k) {
                    let c = self.c(kk, self.w(x));
                    return self.eq(x, c);
                }
                match self.op(a) {
                    Op::Or(x, y) if k == 0 => {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.and(p, q);
                    }
                    Op::ZExt(x) => {
                        let wx = self.w(x);
                        if k > mask(wx) {
                            return self.fals();
                        }
                        let c = self.c(k, wx);
                        return self.eq(x, c);
                    }
                    Op::SExt(x) => {
                        let wx = self.w(x);
                        let c = self.c(k, wx);
                        if self.cv(c).map(|v| sext(v, wx) as u128 & mask(w)) != Some(k) {
                            return self.fals();
                        }
                        return self.eq(x, c);
                    }
                    Op::Ite(c, x, y) => {
                        let (cx, cy) = (self.cv(x), self.cv(y));
                        if cx.is_some() || cy.is_some() {
                            let p = self.eq(x, b);
                            let q = self.eq(y, b);
                            return self.ite(c, p, q);
                        }
                    }
                    Op::Add(x, y) => {
                        if let Some(m) = self.cv(y) {
                            let c = self.c(k.wrapping_sub(m), w);
                            return self.eq(x, c);
                        }
                    }
                    Op::Not(x) => {
                        let c = self.c(!k, w);
                        return self.eq(x, c);
                    }
                    Op::Xor(x, y) => {
                        if let Some(m) = self.cv(y) {
                            let c = self.c(k ^ m, w);
                            return self.eq(x, c);
                        }
                    }
                    Op::Concat(h, l) => {
                        let wl = self.w(l);
                        if self.cv(h).is_some() || self.cv(l).is_some() || wl <= 8 {
                            let kh = self.c(k >> wl, w - wl);
                            let kl = self.c(k, wl);
                            let p = self.eq(h, kh);
                            let q = self.eq(l, kl);
                            return self.and(p, q);
                        }
                    }
                    _ => {}
                }
            }
            (None, None) => {
                if let (Op::ZExt(x), Op::ZExt(y)) = (self.op(a), self.op(b)) {
                    if self.w(x) == self.w(y) {
                        return self.eq(x, y);
                    }
                }
                if w == 1 {
                    let x = self.xor(a, b);
                    return self.not(x);
                }
                if let (Op::Concat(h1, l1), Op::Concat(h2, l2)) = (self.op(a), self.op(b)) {
                    if self.w(l1) == self.w(l2) {
                        let p = self.eq(h1, h2);
                        let q = self.eq(l1, l2);
                        return self.and(p, q);
                    }
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let x = self.eq(a, b);
        self.not(x)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fals();
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return if x < y { self.tru() } else { self.fals() },
            (_, Some(0)) => return self.fals(),
            (None, Some(1)) => {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            (Some(x), None) if x == mask(w) => return self.fals(),
            (Some(0), None) => {
                let z = self.c(0, w);
                return self.ne(b, z);
            }
            _ => {}
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 {
            return self.tru();
        }
        if ra.0 >= rb.1 {
            return self.fals();
        }
        if let Some(b2) = self.addend(a, b) {
            // (b + y) < b with no wrap-around
            if rb.1 + self.range(b2).1 <= mask(w) && w <= 64 {
                return self.fals();
            }
        }
        if let Some(y) = self.addend(b, a) {
            if ra.1 + self.range(y).1 <= mask(w) && w <= 64 {
                let z = self.c(0, w);
                return self.ne(y, z);
            }
        }
        if let Op::ZExt(x) = self.op(a) {
            let wx = self.w(x);
            if let Some(k) = self.cv(b) {
                if k > mask(wx) {
                    return self.tru();
                }
                let c = self.c(k, wx);
                return self.ult(x, c);
            }
            if let Op::ZExt(y) = self.op(b) {
                if self.w(y) == wx {
                    return self.ult(x, y);
                }
            }
        }
        if let Op::ZExt(y) = self.op(b) {
            let wy = self.w(y);
            if let Some(k) = self.cv(a) {
                if k >= mask(wy) {
                    return self.fals();
                }
                let c = self.c(k, wy);
                return self.ult(c, y);
            }
        }
        if let (Op::Ite(c, x, y), Some(_)) = (self.op(a), self.cv(b)) {
            if self.cv(x).is_some() || self.cv(y).is_some() {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(c, p, q);
            }
        }
        self.mk(Op::Ult(a, b), 1)
    }
    /// `s = b + y`?
    fn addend(&self, s: E, b: E) -> Option<E> {
        match self.op(s) {
            Op::Add(x, y) if x == b => Some(y),
            Op::Add(x, y) if y == b => Some(x),
            _ => None,
        }
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tru();
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return if x <= y { self.tru() } else { self.fals() },
            (Some(0), _) => return self.tru(),
            (_, Some(y)) if y == mask(w) => return self.tru(),
            (None, Some(y)) => {
                let k = self.c(y + 1, w);
                return self.ult(a, k);
            }
            (Some(x), None) => {
                let k = self.c(x - 1, w);
                return self.ult(k, b);
            }
            _ => {}
        }
        if w == 1 {
            let n = self.not(a);
            return self.or(n, b);
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 <= rb.0 {
            return self.tru();
        }
        if ra.0 > rb.1 {
            return self.fals();
        }
        if let Some(y) = self.addend(b, a) {
            if ra.1 + self.range(y).1 <= mask(w) && w <= 64 {
                return self.tru();
            }
        }
        if let (Op::ZExt(x), Op::ZExt(y)) = (self.op(a), self.op(b)) {
            if self.w(y) == self.w(x) {
                return self.ule(x, y);
            }
        }
        self.mk(Op::Ule(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fals();
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return if sext(x, w) < sext(y, w) { self.tru() } else { self.fals() };
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        self.mk(Op::Slt(a, b), 1)
    }
    fn nonneg(&self, e: E) -> bool {
        let w = self.w(e);
        match self.op(e) {
            Op::ZExt(x) => self.w(x) < w,
            Op::Const(v) => v >> (w - 1) == 0,
            _ => self.range(e).1 >> (w - 1) == 0,
        }
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tru();
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return if sext(x, w) <= sext(y, w) { self.tru() } else { self.fals() };
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ule(a, b);
        }
        if w == 1 {
            let n = self.not(b);
            return self.or(a, n);
        }
        self.mk(Op::Sle(a, b), 1)
    }

    // ---- evaluation ------------------------------------------------------------------

    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128, Fx>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const(v) => return v,
            Op::Sym(i) => return model.get(i as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w;
        let m = mask(w);
        use Op::*;
        let v = match n.op {
            Const(_) | Sym(_) => unreachable!(),
            Ite(c, a, b) => {
                if self.eval(c, model, memo) != 0 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            Not(a) => !self.eval(a, model, memo),
            ZExt(a) => self.eval(a, model, memo),
            SExt(a) => sext(self.eval(a, model, memo), self.w(a)) as u128,
            Extract(a, lo) => self.eval(a, model, memo) >> lo,
            Add(a, b) => self.eval(a, model, memo).wrapping_add(self.eval(b, model, memo)),
            Sub(a, b) => self.eval(a, model, memo).wrapping_sub(self.eval(b, model, memo)),
            Mul(a, b) => self.eval(a, model, memo).wrapping_mul(self.eval(b, model, memo)),
            UDiv(a, b) => {
                let d = self.eval(b, model, memo);
                if d == 0 { m } else { self.eval(a, model, memo) / d }
            }
            URem(a, b) => {
                let d = self.eval(b, model, memo);
                let x = self.eval(a, model, memo);
                if d == 0 { x } else { x % d }
            }
            SDiv(a, b) => {
                let d = sext(self.eval(b, model, memo), w);
                let x = sext(self.eval(a, model, memo), w);
                if d == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(d) as u128 }
            }
            SRem(a, b) => {
                let d = sext(self.eval(b, model, memo), w);
                let x = sext(self.eval(a, model, memo), w);
                if d == 0 { x as u128 } else { x.wrapping_rem(d) as u128 }
            }
            And(a, b) => self.eval(a, model, memo) & self.eval(b, model, memo),
            Or(a, b) => self.eval(a, model, memo) | self.eval(b, model, memo),
            Xor(a, b) => self.eval(a, model, memo) ^ self.eval(b, model, memo),
            Shl(a, b) => {
                let k = self.eval(b, model, memo);
                if k >= w as u128 { 0 } else { self.eval(a, model, memo) << k }
            }
            LShr(a, b) => {
                let k = self.eval(b, model, memo);
                if k >= w as u128 { 0 } else { self.eval(a, model, memo) >> k }
            }
            AShr(a, b) => {
                let k = self.eval(b, model, memo).min(w as u128 - 1);
                (sext(self.eval(a, model, memo), w) >> k) as u128
            }
            Concat(h, l) => {
                (self.eval(h, model, memo) << self.w(l)) | self.eval(l, model, memo)
            }
            Eq(a, b) => (self.eval(a, model, memo) == self.eval(b, model, memo)) as u128,
            Ult(a, b) => (self.eval(a, model, memo) < self.eval(b, model, memo)) as u128,
            Ule(a, b) => (self.eval(a, model, memo) <= self.eval(b, model, memo)) as u128,
            Slt(a, b) => {
                let k = self.w(a);
                (sext(self.eval(a, model, memo), k) < sext(self.eval(b, model, memo), k)) as u128
            }
            Sle(a, b) => {
                let k = self.w(a);
                (sext(self.eval(a, model, memo), k) <= sext(self.eval(b, model, memo), k)) as u128
            }
        } & m;
        memo.insert(e, v);
        v
    }
}
