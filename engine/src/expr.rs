//! Hash-consed bit-vector expressions over symbolic input bytes, with a simplifying constructor set.
//!
//! Boolean expressions are 1-bit vectors. A boolean that depends on one input byte only is canonicalised to `InSet`
//! (membership of that byte in a 256-bit set), so that equal conditions reached on different paths share one node and
//! one solver query.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    InSet,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Extract,
    Concat,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub type Set = [u64; 4];

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
}
pub type Bh = std::hash::BuildHasherDefault<FxH>;
pub type FxMap<K, V> = HashMap<K, V, Bh>;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    intern: FxMap<Node, Ex>,
    pub sets: Vec<Set>,
    set_intern: FxMap<Set, u32>,
    tabs: FxMap<Ex, Rc<Vec<u128>>>,
    pub nvars: u32,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub const FULL: Set = [u64::MAX; 4];
pub const EMPTY: Set = [0; 4];

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            vars: vec![],
            intern: FxMap::default(),
            sets: vec![],
            set_intern: FxMap::default(),
            tabs: FxMap::default(),
            nvars: 0,
        };
        // node 0 is never a valid symbolic byte (0 marks "concrete" in memory pages)
        a.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        a.raw(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 1 });
        a.set_id(FULL);
        a
    }
    pub fn set_id(&mut self, s: Set) -> u32 {
        if let Some(&i) = self.set_intern.get(&s) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s);
        self.set_intern.insert(s, i);
        i
    }
    fn raw(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.intern.get(&n) {
            return e;
        }
        let v = match n.op {
            Op::Const => 0,
            Op::Var | Op::InSet => 1u128 << n.a,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.vars[n.a as usize],
            Op::Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
            _ => self.vars[n.a as usize] | self.vars[n.b as usize],
        };
        let e = self.nodes.len() as Ex;
        self.nodes.push(n);
        self.vars.push(v);
        self.intern.insert(n, e);
        e
    }
    /// Intern; canonicalise booleans over one byte.
    fn mk(&mut self, n: Node) -> Ex {
        if n.w == 1 && n.op != Op::InSet && n.op != Op::Const {
            let v = match n.op {
                Op::Var => 1u128 << n.a,
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.vars[n.a as usize],
                Op::Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
                _ => self.vars[n.a as usize] | self.vars[n.b as usize],
            };
            if v.count_ones() == 1 {
                let var = v.trailing_zeros();
                let t = self.node_table(&n);
                let mut s = EMPTY;
                for (i, x) in t.iter().enumerate() {
                    if *x != 0 {
                        s[i >> 6] |= 1 << (i & 63);
                    }
                }
                return self.in_set(var, s);
            }
        }
        self.raw(n)
    }
    pub fn in_set(&mut self, var: u32, s: Set) -> Ex {
        if s == EMPTY {
            return self.c(0, 1);
        }
        if s == FULL {
            return self.c(1, 1);
        }
        let id = self.set_id(s);
        self.raw(Node { op: Op::InSet, w: 1, a: var, b: id, c: 0, k: 0 })
    }
    #[inline]
    pub fn c(&mut self, k: u128, w: u16) -> Ex {
        if w == 1 {
            return (k & 1) as Ex;
        }
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn new_var(&mut self) -> Ex {
        let i = self.nvars;
        self.nvars += 1;
        self.var(i)
    }
    pub fn var(&mut self, i: u32) -> Ex {
        assert!(i < 128, "too many symbolic bytes");
        self.raw(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, k: 0 })
    }
    #[inline]
    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Ex) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    /// Values of a single-variable node for each of the 256 values of its variable.
    pub fn table(&mut self, e: Ex) -> Rc<Vec<u128>> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let n = self.n(e);
        let t = Rc::new(self.node_table(&n));
        if self.tabs.len() > 3000 {
            self.tabs.clear();
        }
        self.tabs.insert(e, t.clone());
        t
    }
    fn node_table(&mut self, n: &Node) -> Vec<u128> {
        match n.op {
            Op::Const => vec![n.k; 256],
            Op::Var => (0..256u128).collect(),
            Op::InSet => {
                let s = self.sets[n.b as usize];
                (0..256usize).map(|i| ((s[i >> 6] >> (i & 63)) & 1) as u128).collect()
            }
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => {
                let a = self.table(n.a);
                let wa = self.w(n.a);
                a.iter().map(|x| un(n, *x, wa)).collect()
            }
            Op::Ite => {
                let a = self.table(n.a);
                let b = self.table(n.b);
                let c = self.table(n.c);
                (0..256).map(|i| if a[i] != 0 { b[i] } else { c[i] }).collect()
            }
            _ => {
                let a = self.table(n.a);
                let b = self.table(n.b);
                let wa = self.w(n.a);
                let wb = self.w(n.b);
                (0..256).map(|i| bin(n.op, n.w, a[i], b[i], wa, wb)).collect()
            }
        }
    }

    /// Evaluate under an assignment of the variables.
    pub fn eval(&self, e: Ex, m: &[u8]) -> u128 {
        let mut memo = FxMap::default();
        self.eval_m(e, m, &mut memo)
    }
    fn eval_m(&self, e: Ex, m: &[u8], memo: &mut FxMap<Ex, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *m.get(n.a as usize).unwrap_or(&0) as u128,
            Op::InSet => {
                let i = *m.get(n.a as usize).unwrap_or(&0) as usize;
                return ((self.sets[n.b as usize][i >> 6] >> (i & 63)) & 1) as u128;
            }
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let r = match n.op {
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => {
                let x = self.eval_m(n.a, m, memo);
                un(&n, x, self.w(n.a))
            }
            Op::Ite => {
                if self.eval_m(n.a, m, memo) != 0 {
                    self.eval_m(n.b, m, memo)
                } else {
                    self.eval_m(n.c, m, memo)
                }
            }
            _ => {
                let x = self.eval_m(n.a, m, memo);
                let y = self.eval_m(n.b, m, memo);
                bin(n.op, n.w, x, y, self.w(n.a), self.w(n.b))
            }
        };
        memo.insert(e, r);
        r
    }

    // ---------- constructors ----------
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.n(a);
        match n.op {
            Op::Const => return self.c(!n.k, n.w),
            Op::Not => return n.a,
            Op::InSet => {
                let s = self.sets[n.b as usize];
                return self.in_set(n.a, [!s[0], !s[1], !s[2], !s[3]]);
            }
            Op::Ult => return self.b(Op::Ule, n.b, n.a),
            Op::Ule => return self.b(Op::Ult, n.b, n.a),
            Op::Slt => return self.b(Op::Sle, n.b, n.a),
            Op::Sle => return self.b(Op::Slt, n.b, n.a),
            Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let x = self.not(n.b);
                let y = self.not(n.c);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        assert!(n.w < w);
        match n.op {
            Op::Const => return self.c(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.leafy(n.c) => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sextx(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.c(sext(n.k, n.w) as u128, w),
            Op::SExt => return self.sextx(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if n.w == 1 {
            let o = self.c(u128::MAX, w);
            let z = self.c(0, w);
            return self.ite(a, o, z);
        }
        if n.op == Op::Ite && self.as_const(n.b).is_some() && self.leafy(n.c) {
            let x = self.sextx(n.b, w);
            let y = self.sextx(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    /// `a[lo+w-1 : lo]`
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        assert!(lo + w <= n.w, "extract {lo}+{w} of {}", n.w);
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.b as u16 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.c(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sextx(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.b(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.b(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0, k: 0 })
    }
    /// high `a`, low `b`
    pub fn concat(&mut self, a: Ex, b: Ex) -> Ex {
        let na = self.n(a);
        let nb = self.n(b);
        let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const && w <= 128 {
            return self.c((na.k << nb.w) | nb.k, w);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + nb.w as u32 {
            return self.extract(na.a, nb.b as u16, w);
        }
        // a = Extract(x, k..) , b = x's low part as a plain narrower node
        if na.op == Op::ZExt {
            let inner = na.a;
            let x = self.concat(inner, b);
            return self.zext(x, w);
        }
        // right-assoc: concat(concat(p,q), b) with q,b mergeable
        if na.op == Op::Concat && nb.op == Op::Extract {
            let nq = self.n(na.b);
            if nq.op == Op::Extract && nq.a == nb.a && nq.b == nb.b + nb.w as u32 {
                let m = self.extract(nb.a, nb.b as u16, nq.w + nb.w);
                return self.concat(na.a, m);
            }
        }
        self.mk(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    fn leafy(&self, e: Ex) -> bool {
        // Ite chain whose leaves are constants (bounded depth)
        let mut e = e;
        for _ in 0..40 {
            let n = self.n(e);
            match n.op {
                Op::Const => return true,
                Op::Ite => {
                    if self.as_const(n.b).is_some() {
                        e = n.c
                    } else if self.as_const(n.c).is_some() {
                        e = n.b
                    } else {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        false
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.b(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.b(Op::And, n, b);
                }
                (_, Some(0)) => return self.b(Op::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.b(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // nested ite with same condition
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            // ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
            let cc = self.b(Op::Or, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.b(Op::Eq, a, b);
        self.not(e)
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        self.b(Op::And, a, b)
    }

    pub fn b(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        use Op::*;
        let wa = self.w(a);
        let wb = self.w(b);
        assert_eq!(wa, wb, "width mismatch in {op:?}");
        let w = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { wa };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if wa <= 128 {
                let r = bin(op, w, x, y, wa, wb);
                return self.c(r, w);
            }
        }
        if matches!(op, And | Or | Xor | Add | Mul | Eq) {
            // constants right; otherwise ordered
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        let kb = self.as_const(b);
        let ka = self.as_const(a);
        let ones = mask(wa);
        match op {
            And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(ones) {
                    return a;
                }
                if na.op == Not && na.a == b || nb.op == Not && nb.a == a {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    // low mask
                    if wa > 1 && (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros() as u16;
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if na.op == ZExt {
                        let wi = self.w(na.a);
                        let kk = self.c(k, wi);
                        let x = self.b(And, na.a, kk);
                        return self.zext(x, w);
                    }
                    if na.op == And {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.c(k & k2, w);
                            return self.b(And, na.a, kk);
                        }
                    }
                    if wa > 1 {
                        // split at contiguous zero low bits
                        let tz = k.trailing_zeros() as u16;
                        if tz > 0 && tz < wa {
                            let hi = self.extract(a, tz, wa - tz);
                            let kk = self.c(k >> tz, wa - tz);
                            let h = self.b(And, hi, kk);
                            let l = self.c(0, tz);
                            return self.concat(h, l);
                        }
                        let lz = wa - (128 - k.leading_zeros() as u16);
                        if lz > 0 && lz < wa {
                            let lo = self.extract(a, 0, wa - lz);
                            let kk = self.c(k, wa - lz);
                            let l = self.b(And, lo, kk);
                            return self.zext(l, w);
                        }
                    }
                }
                if na.op == ZExt && nb.op == ZExt {
                    let wm = self.w(na.a).max(self.w(nb.a));
                    if wm < w {
                        let x = self.zext(na.a, wm);
                        let y = self.zext(nb.a, wm);
                        let r = self.b(And, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(ones) {
                    return b;
                }
                if wa == 1 && (na.op == Not && na.a == b || nb.op == Not && nb.a == a) {
                    return self.c(1, w);
                }
                // disjoint pieces -> concat
                if let Some(r) = self.or_concat(a, b, w) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a, w) {
                    return r;
                }
                if na.op == ZExt && nb.op == ZExt {
                    let wm = self.w(na.a).max(self.w(nb.a));
                    if wm < w {
                        let x = self.zext(na.a, wm);
                        let y = self.zext(nb.a, wm);
                        let r = self.b(Or, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(ones) {
                    return self.not(a);
                }
                if let Some(k) = kb {
                    if na.op == ZExt {
                        let wi = self.w(na.a);
                        if k >> wi == 0 {
                            let kk = self.c(k, wi);
                            let x = self.b(Xor, na.a, kk);
                            return self.zext(x, w);
                        }
                    }
                }
                if wa == 1 {
                    let nbx = self.not(b);
                    return self.ite(a, nbx, b);
                }
            }
            Add => {
                if kb == Some(0) {
                    return a;
                }
                if wa == 1 {
                    return self.b(Xor, a, b);
                }
                if let Some(k) = kb {
                    if na.op == Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.c(k.wrapping_add(k2), w);
                            return self.b(Add, na.a, kk);
                        }
                    }
                }
                // pull constants outward: (x + k) + y
                if na.op == Add {
                    if let Some(k2) = self.as_const(na.b) {
                        let s = self.b(Add, na.a, b);
                        let kk = self.c(k2, w);
                        return self.b(Add, s, kk);
                    }
                }
                if nb.op == Add && kb.is_none() {
                    if let Some(k2) = self.as_const(nb.b) {
                        let s = self.b(Add, a, nb.a);
                        let kk = self.c(k2, w);
                        return self.b(Add, s, kk);
                    }
                }
            }
            Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    let kk = self.c(k.wrapping_neg(), w);
                    return self.b(Add, a, kk);
                }
                if wa == 1 {
                    return self.b(Xor, a, b);
                }
                if na.op == Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.b(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.b(LShr, a, s);
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.b(And, a, s);
                    }
                }
            }
            Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(w as u128 - 1)) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sextx(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if wa == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not(a);
                    }
                    let nbx = self.not(b);
                    return self.ite(a, b, nbx);
                }
                if let Some(k) = kb {
                    match na.op {
                        ZExt => {
                            let wi = self.w(na.a);
                            if k >> wi != 0 {
                                return self.c(0, 1);
                            }
                            let kk = self.c(k, wi);
                            return self.b(Eq, na.a, kk);
                        }
                        SExt => {
                            let wi = self.w(na.a);
                            let t = k & mask(wi);
                            if sext(t, wi) as u128 & ones != k {
                                return self.c(0, 1);
                            }
                            let kk = self.c(t, wi);
                            return self.b(Eq, na.a, kk);
                        }
                        Concat => {
                            let wl = self.w(na.b);
                            let kh = self.c(k >> wl, wa - wl);
                            let kl = self.c(k, wl);
                            let x = self.b(Eq, na.a, kh);
                            if self.as_const(x) == Some(0) {
                                return x;
                            }
                            let y = self.b(Eq, na.b, kl);
                            return self.b(And, x, y);
                        }
                        Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.c(k.wrapping_sub(k2), wa);
                                return self.b(Eq, na.a, kk);
                            }
                        }
                        Sub if k == 0 => return self.b(Eq, na.a, na.b),
                        Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.c(k ^ k2, wa);
                                return self.b(Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.b(Eq, na.a, na.b);
                            }
                        }
                        Not => {
                            let kk = self.c(!k, wa);
                            return self.b(Eq, na.a, kk);
                        }
                        Or if k == 0 => {
                            let z = self.c(0, wa);
                            let x = self.b(Eq, na.a, z);
                            let y = self.b(Eq, na.b, z);
                            return self.b(And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    if na.op == ZExt && nb.op == ZExt {
                        let wm = self.w(na.a).max(self.w(nb.a));
                        if wm < wa {
                            let x = self.zext(na.a, wm);
                            let y = self.zext(nb.a, wm);
                            return self.b(Eq, x, y);
                        }
                    }
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.b(Eq, na.a, nb.a);
                        if self.as_const(x) == Some(0) {
                            return x;
                        }
                        let y = self.b(Eq, na.b, nb.b);
                        return self.b(And, x, y);
                    }
                }
            }
            Ult => {
                if a == b || kb == Some(0) || ka == Some(ones) {
                    return self.c(0, 1);
                }
                if kb == Some(1) {
                    let z = self.c(0, wa);
                    return self.b(Eq, a, z);
                }
                if na.op == ZExt {
                    let wi = self.w(na.a);
                    if let Some(k) = kb {
                        if k > mask(wi) {
                            return self.c(1, 1);
                        }
                        let kk = self.c(k, wi);
                        return self.b(Ult, na.a, kk);
                    }
                    if nb.op == ZExt {
                        let wm = self.w(na.a).max(self.w(nb.a));
                        if wm < wa {
                            let x = self.zext(na.a, wm);
                            let y = self.zext(nb.a, wm);
                            return self.b(Ult, x, y);
                        }
                    }
                }
                if nb.op == ZExt {
                    if let Some(k) = ka {
                        let wi = self.w(nb.a);
                        if k > mask(wi) {
                            return self.c(0, 1);
                        }
                        let kk = self.c(k, wi);
                        return self.b(Ult, kk, nb.a);
                    }
                }
            }
            Ule => {
                if a == b || ka == Some(0) || kb == Some(ones) {
                    return self.c(1, 1);
                }
                if let Some(k) = kb {
                    let kk = self.c(k + 1, wa);
                    return self.b(Ult, a, kk);
                }
                if let Some(k) = ka {
                    let kk = self.c(k - 1, wa);
                    return self.b(Ult, kk, b);
                }
            }
            Slt => {
                if a == b {
                    return self.c(0, 1);
                }
                // both known non-negative -> unsigned
                if self.nonneg(a) && self.nonneg(b) {
                    return self.b(Ult, a, b);
                }
                if kb == Some(0) {
                    return self.extract(a, wa - 1, 1);
                }
                if ka == Some(ones) {
                    let s = self.extract(b, wa - 1, 1);
                    return self.not(s);
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                    return self.b(Slt, na.a, nb.a);
                }
            }
            Sle => {
                if a == b {
                    return self.c(1, 1);
                }
                if self.nonneg(a) && self.nonneg(b) {
                    return self.b(Ule, a, b);
                }
            }
            _ => {}
        }
        // lift over ite with constant leaves
        if kb.is_some() && na.op == Ite && self.leafy(a) {
            let x = self.b(op, na.b, b);
            let y = self.b(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        if ka.is_some() && nb.op == Ite && self.leafy(b) {
            let x = self.b(op, a, nb.b);
            let y = self.b(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    fn nonneg(&self, e: Ex) -> bool {
        let n = self.n(e);
        match n.op {
            Op::ZExt => true,
            Op::Const => n.w <= 128 && (n.k >> (n.w - 1)) & 1 == 0,
            Op::Ite => {
                self.as_const(n.b).is_some() && self.as_const(n.c).is_some() && self.nonneg(n.b) && self.nonneg(n.c)
            }
            _ => false,
        }
    }
    fn or_concat(&mut self, hi: Ex, lo: Ex, w: u16) -> Option<Ex> {
        // hi = Concat(A, 0_k), lo = ZExt(B), B.w <= k     (or ZExt(Concat(A,0_k)))
        let mut nh = self.n(hi);
        let mut hw = w;
        if nh.op == Op::ZExt {
            hw = self.w(nh.a);
            nh = self.n(nh.a);
        }
        if nh.op != Op::Concat {
            return None;
        }
        if self.as_const(nh.b) != Some(0) {
            return None;
        }
        let k = self.w(nh.b);
        let nl = self.n(lo);
        let bw = match nl.op {
            Op::ZExt => self.w(nl.a),
            Op::Const => 128 - nl.k.leading_zeros() as u16,
            _ => return None,
        };
        if bw > k {
            return None;
        }
        let l = self.extract(lo, 0, k);
        let r = self.concat(nh.a, l);
        let _ = hw;
        Some(self.zext(r, w))
    }
    pub fn show(&self, e: Ex, depth: usize) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "…".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.a),
            Op::InSet => format!("b{}∈s{}", n.a, n.b),
            Op::Not | Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

fn un(n: &Node, x: u128, wa: u16) -> u128 {
    match n.op {
        Op::Not => !x & mask(n.w),
        Op::Extract => (x >> n.b) & mask(n.w),
        Op::ZExt => x,
        Op::SExt => sext(x, wa) as u128 & mask(n.w),
        _ => unreachable!(),
    }
}

/// Concrete semantics (SMT-LIB conventions for division by zero).
pub fn bin(op: Op, w: u16, x: u128, y: u128, wa: u16, wb: u16) -> u128 {
    use Op::*;
    let m = mask(w);
    match op {
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Add => x.wrapping_add(y) & m,
        Sub => x.wrapping_sub(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        SDiv => {
            let (a, b) = (sext(x, wa), sext(y, wa));
            if b == 0 {
                (if a < 0 { 1 } else { m }) & m
            } else {
                a.wrapping_div(b) as u128 & m
            }
        }
        SRem => {
            let (a, b) = (sext(x, wa), sext(y, wa));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128 & m
            }
        }
        Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        AShr => {
            let s = sext(x, w);
            let k = y.min(w as u128 - 1);
            (s >> k) as u128 & m
        }
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Ule => (x <= y) as u128,
        Slt => (sext(x, wa) < sext(y, wa)) as u128,
        Sle => (sext(x, wa) <= sext(y, wa)) as u128,
        Concat => ((x << wb) | y) & m,
        _ => unreachable!("{op:?}"),
    }
}
