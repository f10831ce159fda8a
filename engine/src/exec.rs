//! Symbolic executor.
use crate::decode::*;
use crate::expr::*;
use crate::ir::{Cst, Module, Ty};
use crate::mem::*;
use crate::shared::Shared;
use crate::z3::{Res, Z3};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 0x0100_0000;
pub const GL_BASE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0xC000_0000;
const ERRNO: u64 = 0xB000_0000;
const TOP: u64 = 0x1_0000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub sp: u64,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub heap: u64,
    pub sp: u64,
    pub dom: Rc<Vec<u32>>,
    pub multi: Rc<Vec<Ex>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub steps: u64,
    pub obs: Rc<Vec<V>>,
    pub last_panic: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
    pub loc: String,
}

#[derive(Clone)]
pub struct Sample {
    pub bytes: Vec<u8>,
    pub obs: u64,
}

enum Fk {
    Body,
    Sym(&'static str),
    Ext(String),
    Panic,
}

struct Slot {
    name: String,
    kind: Fk,
    f: Option<Rc<Func>>,
}

pub enum End {
    Done,
    Killed,
    Violation,
    Err(String),
}

enum R {
    Next,
    Jump,
    End(End),
}

struct Tables {
    m: &'static Module,
    slots: Vec<Slot>,
    by_name: FxMap<String, u32>,
    globals: FxMap<String, u64>,
    gl_at: BTreeMap<u64, (String, u64, bool)>,
    next_gl: u64,
}

pub struct Opts {
    pub max_steps: u64,
    pub stack: u64,
    pub max_viol: usize,
    pub seed: u64,
    pub samples: usize,
    pub concrete: Option<Vec<u8>>,
    pub trace: bool,
}

pub struct Exec {
    pub ar: Arena,
    pub z3: Z3,
    t: Tables,
    base: Mem,
    pub pending: std::collections::VecDeque<State>,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub errors: Vec<String>,
    qcache: FxMap<Vec<Ex>, Option<Rc<Vec<(u32, u8)>>>>,
    scache: FxMap<(u32, u32), bool>,
    pub cov: FxMap<u32, Vec<bool>>,
    pub o: Opts,
    pub sh: &'static Shared,
    rng: u64,
    pub cov_new: bool,
    pub prof: FxMap<u32, u64>,
    pub profile: bool,
    pub fprof: FxMap<String, u64>,
}

fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}

fn is_panic(n: &str) -> bool {
    const PATS: [&str; 12] = [
        "9panicking9panic_fmt",
        "9panicking18panic_nounwind_fmt",
        "9panicking14panic_nounwind",
        "9panicking16panic_in_cleanup",
        "9panicking19panic_cannot_unwind",
        "5alloc18handle_alloc_error",
        "17begin_panic_handler",
        "rust_begin_unwind",
        "9panicking11begin_panic",
        "rust_panic",
        "15capacity_overflow",
        "9panicking15panic_with_hook",
    ];
    PATS.iter().any(|p| n.contains(p))
}

const SYM: [&str; 9] = [
    "sym_bytes",
    "sym_assume",
    "sym_assert",
    "sym_ite",
    "sym_reach",
    "sym_observe",
    "sym_concretize",
    "sym_is_symbolic",
    "sym_dbg",
];

impl Tables {
    fn slot(&mut self, name: &str) -> u32 {
        if let Some(&i) = self.by_name.get(name) {
            return i;
        }
        if let Some(t) = self.m.aliases.get(name).cloned() {
            let i = self.slot(&t);
            self.by_name.insert(name.into(), i);
            return i;
        }
        let kind = if let Some(s) = SYM.iter().find(|s| **s == name) {
            Fk::Sym(s)
        } else if name.contains("11RandomState") && name.contains("8hash_one") && name.contains("6string6String") {
            // tables keyed by text: any hash function will do, take a constant one
            Fk::Ext("flat_hash".into())
        } else if is_panic(name) {
            Fk::Panic
        } else if self.m.funcs.contains_key(name) && !matches!(name, "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen") {
            Fk::Body
        } else {
            Fk::Ext(name.into())
        };
        let i = self.slots.len() as u32;
        self.slots.push(Slot { name: name.into(), kind, f: None });
        self.by_name.insert(name.into(), i);
        i
    }
}

struct Rs<'a> {
    t: &'a mut Tables,
    ar: &'a mut Arena,
}
impl Resolver for Rs<'_> {
    fn global_addr(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.t.globals.get(name) {
            return a;
        }
        if self.t.m.funcs.contains_key(name) || !self.t.m.globals.contains_key(name) {
            let i = self.t.slot(name);
            return FN_BASE + 16 * i as u64;
        }
        let g = self.t.m.global(name).unwrap();
        if matches!(g.ty, Ty::Other) {
            // alias
            return match cst(self, &Ty::Ptr, &g.init.unwrap()) {
                V::C(a) => a,
                _ => panic!("alias"),
            };
        }
        let sz = g.ty.size();
        let a = crate::ir::align_up(self.t.next_gl, g.align.max(PS as u64));
        self.t.next_gl = crate::ir::align_up(a + sz.max(1), PS as u64);
        self.t.globals.insert(name.to_string(), a);
        self.t.gl_at.insert(a, (name.to_string(), sz, false));
        a
    }
    fn func_id(&mut self, name: &str) -> Option<u32> {
        Some(self.t.slot(name))
    }
    fn big(&mut self, v: u128, w: u16) -> V {
        V::E(self.ar.c(v, w))
    }
}

impl Exec {
    pub fn new(m: &'static Module, o: Opts, sh: &'static Shared) -> Self {
        Exec {
            ar: Arena::new(),
            z3: Z3::new(std::env::var("SYMX_RLIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(40_000_000)),
            t: Tables {
                m,
                slots: vec![],
                by_name: FxMap::default(),
                globals: FxMap::default(),
                gl_at: BTreeMap::new(),
                next_gl: GL_BASE,
            },
            base: Mem::new(),
            pending: Default::default(),
            viol: vec![],
            samples: vec![],
            errors: vec![],
            qcache: FxMap::default(),
            scache: FxMap::default(),
            cov: FxMap::default(),
            o,
            sh,
            rng: 0x9E37_79B9_7F4A_7C15,
            cov_new: false,
            prof: FxMap::default(),
            fprof: FxMap::default(),
            profile: std::env::var("SYMX_PROF").is_ok(),
        }
    }
    pub fn reseed(&mut self, s: u64) {
        self.rng ^= s.wrapping_mul(0xD134_2543_DE82_EF95) | 1;
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn fname(&self, id: u32) -> String {
        let n = &self.t.slots[id as usize].name;
        match self.t.m.funcs.get(n) {
            Some((_, _, c)) if !c.is_empty() => c.clone(),
            _ => n.clone(),
        }
    }
    fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.t.slots[id as usize].f {
            return f.clone();
        }
        let name = self.t.slots[id as usize].name.clone();
        let raw = self.t.m.func(&name);
        let f = lower(&mut Rs { t: &mut self.t, ar: &mut self.ar }, id, &raw);
        let f = Rc::new(f);
        self.t.slots[id as usize].f = Some(f.clone());
        f
    }
    pub fn start(&mut self, name: &str) -> State {
        let id = self.t.slot(name);
        let f = self.func(id);
        let blk = f.entry;
        let regs = vec![V::C(0); f.nregs as usize];
        State {
            frames: vec![Rc::new(Frame { f, blk, ip: 0, regs, sp: STACK_BASE, dst: u32::MAX, normal: None })],
            mem: Mem::new(),
            heap: HEAP_BASE,
            sp: STACK_BASE,
            dom: Rc::new(vec![]),
            multi: Rc::new(vec![]),
            model: Rc::new(vec![]),
            nvars: 0,
            steps: 0,
            obs: Rc::new(vec![]),
            last_panic: 0,
        }
    }

    // ---------- memory ----------
    fn materialise(&mut self, a: u64) -> bool {
        if a < GL_BASE || a >= HEAP_BASE {
            return false;
        }
        let (start, name) = match self.t.gl_at.range(..=a).next_back() {
            Some((s, (n, sz, done))) if !*done && a < crate::ir::align_up(s + (*sz).max(1), PS as u64) => {
                (*s, n.clone())
            }
            _ => return false,
        };
        self.t.gl_at.get_mut(&start).unwrap().2 = true;
        let g = self.t.m.global(&name).unwrap();
        let sz = g.ty.size();
        let mut buf = vec![0u8; crate::ir::align_up(sz.max(1), PS as u64) as usize];
        match &g.init {
            None => {
                self.errors.push(format!("external global {name} accessed"));
            }
            Some(c) => self.fill(&mut buf, 0, &g.ty, c),
        }
        for (i, ch) in buf.chunks(PS).enumerate() {
            let mut p = Page::zero();
            p.d.copy_from_slice(ch);
            self.base.insert(start + (i * PS) as u64, Rc::new(p));
        }
        true
    }
    fn fill(&mut self, buf: &mut [u8], off: usize, ty: &Ty, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Cst::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let o = match ty {
                        Ty::Arr(_, e) => i * e.size() as usize,
                        Ty::Vec(_, e) => i * e.size() as usize,
                        _ => ty.field_off(i as u64).0 as usize,
                    };
                    self.fill(buf, off + o, t, c);
                }
            }
            _ => {
                if ty.bits() > 64 && !ty.is_agg() {
                    if let Cst::Int(k) = c {
                        let n = ty.store_size() as usize;
                        buf[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                        return;
                    }
                }
                let v = cst(&mut Rs { t: &mut self.t, ar: &mut self.ar }, ty, c);
                match v {
                    V::C(k) => {
                        let n = ty.store_size() as usize;
                        buf[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    }
                    V::A(l) => {
                        let es = if let Ty::Vec(_, e) = ty { e.size() as usize } else { panic!("global init") };
                        for (i, x) in l.iter().enumerate() {
                            if let V::C(k) = x {
                                buf[off + i * es..off + (i + 1) * es].copy_from_slice(&k.to_le_bytes()[..es]);
                            }
                        }
                    }
                    V::E(_) => panic!("global init"),
                }
            }
        }
    }
    fn rbyte(&mut self, st: &State, a: u64) -> Result<(u8, Ex), End> {
        let o = (a & (PS as u64 - 1)) as usize;
        if let Some(p) = st.mem.page(a) {
            return Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o])));
        }
        if let Some(p) = self.base.page(a) {
            return Ok((p.d[o], 0));
        }
        if self.materialise(a) {
            return self.rbyte(st, a);
        }
        Err(End::Err(format!("wild read at {a:#x}\n{}", self.stack(st).join("\n"))))
    }
    fn load_int(&mut self, st: &State, a: u64, n: usize) -> Result<V, End> {
        let o = (a & (PS as u64 - 1)) as usize;
        if n <= 8 && o + n <= PS {
            let mut p = st.mem.page(a);
            if p.is_none() {
                p = self.base.page(a);
            }
            if let Some(p) = p {
                if p.s.is_none() || p.s.as_ref().unwrap()[o..o + n].iter().all(|e| *e == 0) {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&p.d[o..o + n]);
                    return Ok(V::C(u64::from_le_bytes(b)));
                }
            }
        }
        let mut k = 0u128;
        let mut sym = false;
        let mut bs = Vec::with_capacity(n);
        for i in 0..n {
            let (d, e) = self.rbyte(st, a.wrapping_add(i as u64))?;
            if i < 16 {
                k |= (d as u128) << (8 * i);
            }
            if e != 0 {
                sym = true;
            }
            bs.push((d, e));
        }
        if !sym && n <= 8 {
            return Ok(V::C(k as u64));
        }
        if !sym && n <= 16 {
            return Ok(V::E(self.ar.c(k, n as u16 * 8)));
        }
        let mut r: Option<Ex> = None;
        for (d, e) in bs {
            let x = if e != 0 { e } else { self.ar.c(d as u128, 8) };
            r = Some(match r {
                None => x,
                Some(lo) => self.ar.concat(x, lo),
            });
        }
        Ok(self.v(r.unwrap()))
    }
    fn wpage<'a>(&mut self, st: &'a mut State, a: u64) -> Result<&'a mut Page, End> {
        if st.mem.page(a).is_none() {
            if self.base.page(a).is_none() && !self.materialise(a) {
                return Err(End::Err(format!("wild write at {a:#x}\n{}", self.stack(st).join("\n"))));
            }
            let mut p = Page::zero();
            p.d = self.base.page(a).unwrap().d;
            st.mem.insert(a, Rc::new(p));
        }
        Ok(st.mem.page_mut(a).unwrap())
    }
    fn wbyte(&mut self, st: &mut State, a: u64, d: u8, e: Ex) -> Result<(), End> {
        let o = (a & (PS as u64 - 1)) as usize;
        let p = self.wpage(st, a)?;
        p.d[o] = d;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
        Ok(())
    }
    fn store_int(&mut self, st: &mut State, a: u64, n: usize, v: &V) -> Result<(), End> {
        match v {
            V::C(k) => {
                let b = k.to_le_bytes();
                let o = (a & (PS as u64 - 1)) as usize;
                if n <= 8 && o + n <= PS {
                    let p = self.wpage(st, a)?;
                    p.d[o..o + n].copy_from_slice(&b[..n]);
                    if let Some(s) = &mut p.s {
                        s[o..o + n].fill(0);
                    }
                    return Ok(());
                }
                for i in 0..n {
                    self.wbyte(st, a + i as u64, if i < 8 { b[i] } else { 0 }, 0)?;
                }
            }
            V::E(e) => {
                let w = self.ar.w(*e);
                let e = if (w as usize) < n * 8 { self.ar.zext(*e, n as u16 * 8) } else { *e };
                for i in 0..n {
                    let x = self.ar.extract(e, i as u16 * 8, 8);
                    match self.ar.as_const(x) {
                        Some(k) => self.wbyte(st, a + i as u64, k as u8, 0)?,
                        None => self.wbyte(st, a + i as u64, 0, x)?,
                    }
                }
            }
            V::A(_) => return Err(End::Err("store agg as int".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, a: u64, t: &T) -> Result<V, End> {
        Ok(match t {
            T::I(w) | T::F(w) => {
                let n = (*w as usize).div_ceil(8);
                let v = self.load_int(st, a, n)?;
                if w % 8 != 0 {
                    self.trunc(&v, n as u16 * 8, *w)
                } else {
                    v
                }
            }
            T::Vec(n, w) => {
                if w % 8 == 0 {
                    let s = (*w / 8) as u64;
                    let mut l = Vec::with_capacity(*n as usize);
                    for i in 0..*n as u64 {
                        l.push(self.load_int(st, a + i * s, s as usize)?);
                    }
                    V::A(Rc::new(l))
                } else {
                    let bits = *n as u16 * *w;
                    let v = self.load_int(st, a, (bits as usize).div_ceil(8))?;
                    self.split(&v, *n, *w)
                }
            }
            T::Agg(f) => {
                let mut l = Vec::with_capacity(f.len());
                for (o, t) in f.iter() {
                    l.push(self.load(st, a + o, t)?);
                }
                V::A(Rc::new(l))
            }
            T::Void => V::C(0),
        })
    }
    fn store(&mut self, st: &mut State, a: u64, t: &T, v: &V) -> Result<(), End> {
        match t {
            T::I(w) | T::F(w) => self.store_int(st, a, (*w as usize).div_ceil(8), v),
            T::Vec(n, w) => {
                let l = match v {
                    V::A(l) => l.clone(),
                    _ => return Err(End::Err("vector store".into())),
                };
                if w % 8 == 0 {
                    let s = (*w / 8) as u64;
                    for (i, x) in l.iter().enumerate() {
                        self.store_int(st, a + i as u64 * s, s as usize, x)?;
                    }
                    Ok(())
                } else {
                    let x = self.join(&l, *w);
                    self.store_int(st, a, (*n as usize * *w as usize).div_ceil(8), &x)
                }
            }
            T::Agg(f) => {
                if let V::A(l) = v {
                    for ((o, t), x) in f.iter().zip(l.iter()) {
                        self.store(st, a + o, t, x)?;
                    }
                }
                Ok(())
            }
            T::Void => Ok(()),
        }
    }
    fn map(&mut self, st: &mut State, from: u64, to: u64) {
        let mut p = from & !(PS as u64 - 1);
        while p < to {
            let s = st.mem.slot(p);
            if s.is_none() {
                *s = Some(Rc::new(Page::zero()));
            }
            p += PS as u64;
        }
    }
    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> Result<u64, End> {
        if n > 0x1000_0000 {
            return Err(End::Err(format!("allocation of {n} bytes")));
        }
        let a = crate::ir::align_up(st.heap, align.max(16));
        // 8-byte size header precedes the block
        let a = a + if align > 16 { align } else { 16 };
        let end = a + n.max(1);
        if end >= STACK_BASE {
            return Err(End::Err("heap exhausted".into()));
        }
        self.map(st, st.heap, end);
        self.store_int(st, a - 8, 8, &V::C(n))?;
        st.heap = end;
        Ok(a)
    }

    // ---------- values ----------
    #[inline]
    fn v(&self, e: Ex) -> V {
        let n = &self.ar.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 {
            V::C(n.k as u64)
        } else {
            V::E(e)
        }
    }
    #[inline]
    fn ex(&mut self, v: &V, w: u16) -> Ex {
        match v {
            V::C(k) => self.ar.c(*k as u128, w),
            V::E(e) => *e,
            V::A(l) => {
                // vector used as an integer
                let n = l.len() as u16;
                let x = self.join(&l.clone(), w / n.max(1));
                self.ex(&x, w)
            }
        }
    }
    fn trunc(&mut self, v: &V, wf: u16, wt: u16) -> V {
        match v {
            V::C(k) => V::C(k & m64(wt)),
            _ => {
                let e = self.ex(v, wf);
                let x = self.ar.extract(e, 0, wt);
                self.v(x)
            }
        }
    }
    fn join(&mut self, l: &[V], w: u16) -> V {
        if l.iter().all(|x| matches!(x, V::C(_))) && l.len() * w as usize <= 64 {
            let mut k = 0u64;
            for (i, x) in l.iter().enumerate() {
                if let V::C(c) = x {
                    k |= (c & m64(w)) << (i * w as usize);
                }
            }
            return V::C(k);
        }
        let mut r = self.ex(&l[0], w);
        for x in &l[1..] {
            let e = self.ex(x, w);
            r = self.ar.concat(e, r);
        }
        self.v(r)
    }
    fn split(&mut self, v: &V, n: u32, w: u16) -> V {
        let tot = n as u16 * w;
        let mut l = vec![];
        for i in 0..n as u16 {
            l.push(match v {
                V::C(k) => V::C(if i * w >= 64 { 0 } else { (k >> (i * w)) & m64(w) }),
                _ => {
                    let e = self.ex(v, tot);
                    let x = self.ar.extract(e, i * w, w);
                    self.v(x)
                }
            });
        }
        V::A(Rc::new(l))
    }
    fn bin(&mut self, op: Op, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = m64(w);
                return V::C(match op {
                    Op::Add => x.wrapping_add(*y) & m,
                    Op::Sub => x.wrapping_sub(*y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => {
                        if *y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    Op::LShr => {
                        if *y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => bin(op, w, *x as u128, *y as u128, w, w) as u64,
                });
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.b(op, x, y);
        self.v(e)
    }
    fn icmp(&mut self, p: P, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let s = |v: u64| sext(v as u128, w) as i64;
                return V::C(match p {
                    P::Eq => x == y,
                    P::Ne => x != y,
                    P::Ult => x < y,
                    P::Ule => x <= y,
                    P::Ugt => x > y,
                    P::Uge => x >= y,
                    P::Slt => s(*x) < s(*y),
                    P::Sle => s(*x) <= s(*y),
                    P::Sgt => s(*x) > s(*y),
                    P::Sge => s(*x) >= s(*y),
                } as u64);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            P::Eq => self.ar.b(Op::Eq, x, y),
            P::Ne => self.ar.ne(x, y),
            P::Ult => self.ar.b(Op::Ult, x, y),
            P::Ule => self.ar.b(Op::Ule, x, y),
            P::Ugt => self.ar.b(Op::Ult, y, x),
            P::Uge => self.ar.b(Op::Ule, y, x),
            P::Slt => self.ar.b(Op::Slt, x, y),
            P::Sle => self.ar.b(Op::Sle, x, y),
            P::Sgt => self.ar.b(Op::Slt, y, x),
            P::Sge => self.ar.b(Op::Sle, y, x),
        };
        self.v(e)
    }
    fn cast(&mut self, k: Ck, wf: u16, wt: u16, v: &V) -> Result<V, End> {
        Ok(match k {
            Ck::Id => v.clone(),
            Ck::Trunc => self.trunc(v, wf, wt),
            Ck::ZExt => match v {
                V::C(_) => v.clone(),
                _ => {
                    let e = self.ex(v, wf);
                    let x = self.ar.zext(e, wt);
                    self.v(x)
                }
            },
            Ck::SExt => match v {
                V::C(k) if wt <= 64 => V::C(sext(*k as u128, wf) as u64 & m64(wt)),
                _ => {
                    let e = self.ex(v, wf);
                    let x = self.ar.sextx(e, wt);
                    self.v(x)
                }
            },
            _ => {
                let x = match v {
                    V::C(x) => *x,
                    _ => return Err(End::Err("symbolic float".into())),
                };
                let fb = |f: f64| if wt == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                let fv = || if wf == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                V::C(match k {
                    Ck::UiToFp => fb(x as f64),
                    Ck::SiToFp => fb(sext(x as u128, wf) as f64),
                    Ck::FpToUi => (fv() as u64) & m64(wt),
                    Ck::FpToSi => (fv() as i64) as u64 & m64(wt),
                    _ => fb(fv()),
                })
            }
        })
    }
    fn select(&mut self, c: Ex, t: &T, a: &V, b: &V) -> V {
        match t {
            T::I(w) | T::F(w) => {
                if let (V::C(x), V::C(y)) = (a, b) {
                    if x == y {
                        return a.clone();
                    }
                }
                let (x, y) = (self.ex(a, *w), self.ex(b, *w));
                let e = self.ar.ite(c, x, y);
                self.v(e)
            }
            T::Vec(n, w) => {
                let (V::A(x), V::A(y)) = (a, b) else { return a.clone() };
                let l = (0..*n as usize).map(|i| self.select(c, &T::I(*w), &x[i], &y[i])).collect();
                V::A(Rc::new(l))
            }
            T::Agg(f) => {
                let (V::A(x), V::A(y)) = (a, b) else { return a.clone() };
                let l = (0..f.len()).map(|i| self.select(c, &f[i].1, &x[i], &y[i])).collect();
                V::A(Rc::new(l))
            }
            T::Void => V::C(0),
        }
    }

    // ---------- constraints ----------
    fn related(&self, st: &State, cond: Ex) -> (Vec<Ex>, u128) {
        let mut vars = self.ar.vars[cond as usize];
        let mut inc = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.multi.iter().enumerate() {
                if !inc[i] && self.ar.vars[*e as usize] & vars != 0 {
                    inc[i] = true;
                    ch = true;
                    vars |= self.ar.vars[*e as usize];
                }
            }
            if !ch {
                break;
            }
        }
        let v: Vec<Ex> = st.multi.iter().enumerate().filter(|(i, _)| inc[*i]).map(|(_, e)| *e).collect();
        (v, vars)
    }
    /// The solver's verdict that two constraints of one byte exclude each other.
    fn confirm_empty(&mut self, key: (u32, u32)) -> Result<(), End> {
        if self.scache.contains_key(&key) {
            return Ok(());
        }
        let (a, b) = (self.ar.sets[key.0 as usize], self.ar.sets[key.1 as usize]);
        let x = self.ar.in_set(0, a);
        let y = self.ar.in_set(0, b);
        match self.z3.check(&self.ar, &[x, y], 0) {
            Res::Sat(_) => return Err(End::Err("solver and domain disagree".into())),
            Res::Unsat => {}
            Res::Unknown => return Err(End::Err("solver: unknown".into())),
        }
        self.scache.insert(key, false);
        Ok(())
    }
    /// Is `cond` satisfiable with the path condition? Returns an updated model.
    fn feasible(&mut self, st: &State, cond: Ex) -> Result<Option<Rc<Vec<u8>>>, End> {
        let n = self.ar.n(cond);
        match n.op {
            Op::Const => return Ok(if n.k != 0 { Some(st.model.clone()) } else { None }),
            Op::InSet => {
                let d = st.dom[n.a as usize];
                let key = (d, n.b);
                let (a, b) = (self.ar.sets[d as usize], self.ar.sets[n.b as usize]);
                let it = [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]];
                let nonempty = it != EMPTY;
                if !nonempty {
                    self.confirm_empty(key)?;
                }
                if !nonempty {
                    return Ok(None);
                }
                let bit = 1u128 << n.a;
                if st.multi.iter().all(|e| self.ar.vars[*e as usize] & bit == 0) {
                    let mut m = (*st.model).clone();
                    let old = m[n.a as usize] as usize;
                    if (it[old >> 6] >> (old & 63)) & 1 == 0 {
                        for i in 0..256 {
                            if (it[i >> 6] >> (i & 63)) & 1 == 1 {
                                m[n.a as usize] = i as u8;
                                break;
                            }
                        }
                    }
                    return Ok(Some(Rc::new(m)));
                }
            }
            _ => {}
        }
        if self.ar.eval(cond, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        let neg = self.ar.not(cond);
        if st.multi.contains(&neg) {
            return Ok(None);
        }
        let (mut q, vars) = self.related(st, cond);
        // a conjunction of byte constraints: try the model with just those bytes changed
        if n.op == Op::And && n.w == 1 {
            let mut lits = vec![cond];
            let mut m: Option<Vec<u8>> = None;
            let mut only = vec![];
            while let Some(e) = lits.pop() {
                let l = self.ar.n(e);
                if l.op == Op::And && l.w == 1 {
                    lits.push(l.a);
                    lits.push(l.b);
                } else if l.op == Op::InSet {
                    let d = self.ar.sets[st.dom[l.a as usize] as usize];
                    let b = self.ar.sets[l.b as usize];
                    if (0..4).map(|i| (d[i] & b[i]).count_ones()).sum::<u32>() == 1 {
                        only.push(l.a);
                    }
                    let m = m.get_or_insert_with(|| (*st.model).clone());
                    let old = m[l.a as usize] as usize;
                    let ok = |i: usize| ((d[i >> 6] & b[i >> 6]) >> (i & 63)) & 1 == 1;
                    if !ok(old) {
                        match (0..256).find(|i| ok(*i)) {
                            Some(i) => m[l.a as usize] = i as u8,
                            None => {
                                self.confirm_empty((st.dom[l.a as usize], l.b))?;
                                return Ok(None);
                            }
                        }
                    }
                }
            }
            if let Some(m) = m {
                if self.ar.eval(cond, &m) != 0 && q.iter().all(|e| self.ar.eval(*e, &m) != 0) {
                    return Ok(Some(Rc::new(m)));
                }
                // every byte involved is fixed: substitution decides
                let fixed = (0..st.nvars as usize).all(|i| {
                    let s = self.ar.sets[st.dom[i] as usize];
                    let one = |s: &[u64; 4]| s.iter().map(|x| x.count_ones()).sum::<u32>() == 1;
                    (vars >> i) & 1 == 0 || one(&s) || only.contains(&(i as u32))
                });
                if fixed {
                    return Ok(None);
                }
            }
        }
        for i in 0..st.nvars {
            if (vars >> i) & 1 == 1 && st.dom[i as usize] != 0 {
                let s = self.ar.sets[st.dom[i as usize] as usize];
                q.push(self.ar.in_set(i, s));
            }
        }
        q.push(cond);
        q.sort_unstable();
        q.dedup();
        if q.first() == Some(&0) {
            return Ok(None);
        }
        let r = match self.qcache.get(&q) {
            Some(r) => r.clone(),
            None => {
                let r = match self.z3.check(&self.ar, &q, vars) {
                    Res::Sat(m) => Some(Rc::new(m)),
                    Res::Unsat => None,
                    Res::Unknown => return Err(End::Err("solver: unknown".into())),
                };
                if self.qcache.len() > 400_000 {
                    self.qcache.clear();
                }
                self.qcache.insert(q, r.clone());
                r
            }
        };
        Ok(r.map(|a| {
            let mut m = (*st.model).clone();
            for (i, v) in a.iter() {
                m[*i as usize] = *v;
            }
            Rc::new(m)
        }))
    }
    fn add(&mut self, st: &mut State, cond: Ex) {
        let n = self.ar.n(cond);
        match n.op {
            Op::Const => {}
            Op::InSet => {
                let d = self.ar.sets[st.dom[n.a as usize] as usize];
                let b = self.ar.sets[n.b as usize];
                let id = self.ar.set_id([d[0] & b[0], d[1] & b[1], d[2] & b[2], d[3] & b[3]]);
                Rc::make_mut(&mut st.dom)[n.a as usize] = id;
            }
            Op::And if n.w == 1 => {
                self.add(st, n.a);
                self.add(st, n.b);
            }
            _ => {
                if !st.multi.contains(&cond) {
                    Rc::make_mut(&mut st.multi).push(cond);
                }
            }
        }
    }
    /// Decide a symbolic condition: returns the value followed by `st`; pushes the other side via `mk` when feasible.
    fn branch(&mut self, st: &mut State, c: Ex) -> Result<(bool, Option<State>), End> {
        let val = self.ar.eval(c, &st.model) != 0;
        let nc = self.ar.not(c);
        let (yes, no) = if val { (c, nc) } else { (nc, c) };
        let other = match self.feasible(st, no)? {
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.add(&mut o, no);
                Some(o)
            }
            None => None,
        };
        if other.is_some() {
            self.add(st, yes);
        }
        Ok((val, other))
    }
    /// Force a value concrete, forking on the alternatives (the current instruction is re-executed there).
    fn conc(&mut self, st: &mut State, v: &V, w: u16) -> Result<u64, End> {
        match v {
            V::C(k) => Ok(*k),
            V::E(e) => {
                let k = self.ar.eval(*e, &st.model);
                let kk = self.ar.c(k, w);
                let c = self.ar.b(Op::Eq, *e, kk);
                let (_, o) = self.branch(st, c)?;
                if let Some(o) = o {
                    self.push(o);
                }
                Ok(k as u64)
            }
            V::A(_) => Err(End::Err("concretize aggregate".into())),
        }
    }
    fn push(&mut self, s: State) {
        if self.profile {
            let k: Vec<String> =
                s.frames.iter().rev().take(4).map(|f| format!("{}#{}.{}", self.fname(f.f.id), f.blk, f.ip)).collect();
            *self.fprof.entry(k.join("\n        ")).or_default() += 1;
        }
        self.sh.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.pending.push_back(s);
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| self.fname(f.f.id)).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, id: u64, model: &[u8], loc: String) {
        let stack = self.stack(st);
        self.viol.push(Violation { kind: kind.into(), id, bytes: model[..st.nvars as usize].to_vec(), stack, loc });
        let n = self.sh.viol.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
        if n as usize >= self.o.max_viol {
            self.sh.stop.store(1, std::sync::atomic::Ordering::SeqCst);
        }
    }

    // ---------- main loop ----------
    #[inline]
    fn get(fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn enter(&mut self, st: &mut State, from: u32, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.blk = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let p = b.preds.iter().position(|p| *p == from).expect("phi pred");
            if b.phis.len() == 1 {
                let (d, ops) = &b.phis[0];
                let v = Self::get(fr, &ops[p]);
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<V> = b.phis.iter().map(|(_, ops)| Self::get(fr, &ops[p])).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        let c = self.cov.entry(f.id).or_insert_with(|| vec![false; f.blocks.len()]);
        if !c[to as usize] {
            c[to as usize] = true;
            self.cov_new = true;
        }
    }
    fn set(st: &mut State, dst: u32, v: V) {
        if dst != u32::MAX {
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[dst as usize] = v;
        }
    }

    /// Run a state to its end.
    pub fn run(&mut self, st: &mut State) -> End {
        {
            // entry block coverage
            let f = st.frames.last().unwrap().f.clone();
            let c = self.cov.entry(f.id).or_insert_with(|| vec![false; f.blocks.len()]);
            c[f.entry as usize] = true;
        }
        let mut tick = 0u32;
        loop {
            let f = st.frames.last().unwrap().f.clone();
            loop {
                let (blk, ip) = {
                    let fr = st.frames.last().unwrap();
                    (fr.blk, fr.ip)
                };
                let ins = &f.blocks[blk as usize].ins[ip as usize];
                st.steps += 1;
                tick += 1;
                if self.profile {
                    *self.prof.entry(f.id).or_default() += 1;
                }
                if tick >= 100_000 {
                    self.sh.insns.fetch_add(tick as u64, std::sync::atomic::Ordering::Relaxed);
                    tick = 0;
                    if self.sh.stop.load(std::sync::atomic::Ordering::Relaxed) != 0 {
                        return End::Killed;
                    }
                    if self.sh.overdue() {
                        return End::Err("time limit".into());
                    }
                }
                if st.steps > self.o.max_steps {
                    let m = st.model.clone();
                    self.violation(st, "step-limit", 0, &m, String::new());
                    return End::Violation;
                }
                match self.step(st, blk, ins) {
                    Ok(R::Next) => {
                        Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                    }
                    Ok(R::Jump) => break,
                    Ok(R::End(e)) => {
                        self.sh.insns.fetch_add(tick as u64, std::sync::atomic::Ordering::Relaxed);
                        return e;
                    }
                    Err(e) => {
                        self.sh.insns.fetch_add(tick as u64, std::sync::atomic::Ordering::Relaxed);
                        return e;
                    }
                }
            }
        }
    }

    fn goto(&mut self, st: &mut State, from: u32, to: u32) -> Result<R, End> {
        self.enter(st, from, to);
        // same function: stay in the inner loop unless the frame changed
        Ok(R::Jump)
    }

    fn step(&mut self, st: &mut State, blk: u32, ins: &DIns) -> Result<R, End> {
        let dst = ins.dst;
        macro_rules! g {
            ($o:expr) => {
                Self::get(st.frames.last().unwrap(), $o)
            };
        }
        match &ins.d {
            D::Bin(op, w, n, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let r = if *n == 0 {
                    self.bin(*op, *w, &x, &y)
                } else {
                    let (V::A(x), V::A(y)) = (x, y) else { return Err(End::Err("vec bin".into())) };
                    V::A(Rc::new((0..*n as usize).map(|i| self.bin(*op, *w, &x[i], &y[i])).collect()))
                };
                Self::set(st, dst, r);
            }
            D::Icmp(p, w, n, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let r = if *n == 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    let (V::A(x), V::A(y)) = (x, y) else { return Err(End::Err("vec icmp".into())) };
                    V::A(Rc::new((0..*n as usize).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect()))
                };
                Self::set(st, dst, r);
            }
            D::Load(t, p) => {
                let p = g!(p);
                let v = self.load_at(st, &p, t)?;
                Self::set(st, dst, v);
            }
            D::Store(t, v, p) => {
                let p = g!(p);
                let a = self.conc(st, &p, 64)?;
                let v = g!(v);
                self.store(st, a, t, &v)?;
            }
            D::Gep(p, off, idx) => {
                let mut a = g!(p);
                if *off != 0 {
                    a = self.bin(Op::Add, 64, &a, &V::C(*off));
                }
                for (o, w, s) in idx {
                    let i = g!(o);
                    let i = if *w < 64 { self.cast(Ck::SExt, *w, 64, &i)? } else { i };
                    let i = if *s == 1 { i } else { self.bin(Op::Mul, 64, &i, &V::C(*s)) };
                    a = self.bin(Op::Add, 64, &a, &i);
                }
                Self::set(st, dst, a);
            }
            D::Cast(k, wf, wt, n, v) => {
                let v = g!(v);
                let r = if *n == 0 {
                    self.cast(*k, *wf, *wt, &v)?
                } else {
                    let V::A(l) = v else { return Err(End::Err("vec cast".into())) };
                    let mut o = vec![];
                    for x in l.iter() {
                        o.push(self.cast(*k, *wf, *wt, x)?);
                    }
                    V::A(Rc::new(o))
                };
                Self::set(st, dst, r);
            }
            D::BitCast(f, t, v) => {
                let v = g!(v);
                let i = match (f, &v) {
                    (T::Vec(_, w), V::A(l)) => self.join(&l.clone(), *w),
                    _ => v,
                };
                let r = match t {
                    T::Vec(n, w) => self.split(&i, *n, *w),
                    _ => i,
                };
                Self::set(st, dst, r);
            }
            D::Select(n, t, c, a, b) => {
                let c = g!(c);
                let r = if *n == 0 {
                    match c {
                        V::C(k) => {
                            if k & 1 != 0 {
                                g!(a)
                            } else {
                                g!(b)
                            }
                        }
                        V::E(e) => {
                            let (x, y) = (g!(a), g!(b));
                            let wide = matches!(t, T::I(w) if *w >= 16);
                            if wide && self.ar.vars[e as usize].count_ones() > 1 {
                                // branchless searches: split instead of building deep if-then-else indices
                                let k = self.conc(st, &V::E(e), 1)?;
                                if k != 0 {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.select(e, t, &x, &y)
                            }
                        }
                        _ => return Err(End::Err("select".into())),
                    }
                } else {
                    let (V::A(c), V::A(x), V::A(y)) = (c, g!(a), g!(b)) else { return Err(End::Err("vselect".into())) };
                    let T::Vec(_, w) = t else { return Err(End::Err("vselect".into())) };
                    let mut o = vec![];
                    for i in 0..*n as usize {
                        let e = self.ex(&c[i], 1);
                        o.push(self.select(e, &T::I(*w), &x[i], &y[i]));
                    }
                    V::A(Rc::new(o))
                };
                Self::set(st, dst, r);
            }
            D::Br(l) => return self.goto(st, blk, *l),
            D::CBr(c, t, f) => {
                let c = g!(c);
                match c {
                    V::C(k) => return self.goto(st, blk, if k & 1 != 0 { *t } else { *f }),
                    V::E(e) => {
                        let (v, o) = self.branch(st, e)?;
                        if let Some(mut o) = o {
                            self.enter(&mut o, blk, if v { *f } else { *t });
                            self.push(o);
                        }
                        return self.goto(st, blk, if v { *t } else { *f });
                    }
                    _ => return Err(End::Err("branch".into())),
                }
            }
            D::Switch(w, v, def, m, groups) => {
                let v = g!(v);
                match v {
                    V::C(k) => return self.goto(st, blk, *m.get(&(k as u128)).unwrap_or(def)),
                    V::E(e) if self.ar.as_const(e).is_some() => {
                        let k = self.ar.as_const(e).unwrap();
                        return self.goto(st, blk, *m.get(&k).unwrap_or(def));
                    }
                    V::E(e) => {
                        let mut conds: Vec<(u32, Ex)> = vec![];
                        let mut any = self.ar.c(0, 1);
                        for (l, ks) in groups {
                            let mut c = self.ar.c(0, 1);
                            for k in ks {
                                let kk = self.ar.c(*k, *w);
                                let x = self.ar.b(Op::Eq, e, kk);
                                c = self.ar.b(Op::Or, c, x);
                            }
                            any = self.ar.b(Op::Or, any, c);
                            if l != def {
                                conds.push((*l, c));
                            }
                        }
                        let mut d = self.ar.not(any);
                        for (l, ks) in groups {
                            if l == def {
                                for k in ks {
                                    let kk = self.ar.c(*k, *w);
                                    let x = self.ar.b(Op::Eq, e, kk);
                                    d = self.ar.b(Op::Or, d, x);
                                }
                            }
                        }
                        conds.push((*def, d));
                        let mut mine = None;
                        let mut n = 0;
                        for (l, c) in &conds {
                            if mine.is_none() && self.ar.eval(*c, &st.model) != 0 {
                                mine = Some((*l, *c));
                                n += 1;
                                continue;
                            }
                            if let Some(mo) = self.feasible(st, *c)? {
                                let mut o = st.clone();
                                o.model = mo;
                                self.add(&mut o, *c);
                                self.enter(&mut o, blk, *l);
                                self.push(o);
                                n += 1;
                            }
                        }
                        let (l, c) = mine.ok_or_else(|| End::Err("switch without target".into()))?;
                        if n > 1 {
                            self.add(st, c);
                        }
                        return self.goto(st, blk, l);
                    }
                    _ => return Err(End::Err("switch".into())),
                }
            }
            D::Call(t, args, normal) => return self.call(st, blk, dst, t, args, *normal),
            D::Ret(v) => {
                let r = match v {
                    Some(o) => g!(o),
                    None => V::C(0),
                };
                let fr = st.frames.pop().unwrap();
                st.sp = fr.sp;
                if st.frames.is_empty() {
                    return Ok(R::End(End::Done));
                }
                Self::set(st, fr.dst, r);
                match fr.normal {
                    Some(l) => {
                        let b = st.frames.last().unwrap().blk;
                        self.enter(st, b, l);
                    }
                    None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
                }
                return Ok(R::Jump);
            }
            D::ExtV(idx, v) => {
                let mut x = g!(v);
                for i in idx {
                    x = match &x {
                        V::A(l) => l[*i as usize].clone(),
                        _ => return Err(End::Err("extractvalue".into())),
                    };
                }
                Self::set(st, dst, x);
            }
            D::InsV(idx, v, e) => {
                let mut x = g!(v);
                let e = g!(e);
                insv(&mut x, idx, e);
                Self::set(st, dst, x);
            }
            D::ExtE(v, i) => {
                let (v, i) = (g!(v), g!(i));
                let i = self.conc(st, &i, 64)?;
                let V::A(l) = v else { return Err(End::Err("extractelement".into())) };
                Self::set(st, dst, l[i as usize].clone());
            }
            D::InsE(v, e, i) => {
                let (v, e, i) = (g!(v), g!(e), g!(i));
                let i = self.conc(st, &i, 64)?;
                let V::A(mut l) = v else { return Err(End::Err("insertelement".into())) };
                Rc::make_mut(&mut l)[i as usize] = e;
                Self::set(st, dst, V::A(l));
            }
            D::Shuf(a, b, mask) => {
                let (V::A(x), V::A(y)) = (g!(a), g!(b)) else { return Err(End::Err("shuffle".into())) };
                let n = x.len() as i32;
                let l = mask
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            V::C(0)
                        } else if i < n {
                            x[i as usize].clone()
                        } else {
                            y.get((i - n) as usize).cloned().unwrap_or(V::C(0))
                        }
                    })
                    .collect();
                Self::set(st, dst, V::A(Rc::new(l)));
            }
            D::Alloca(sz, al, n) => {
                let n = match g!(n) {
                    V::C(k) => k,
                    _ => return Err(End::Err("symbolic alloca".into())),
                };
                let a = crate::ir::align_up(st.sp, (*al).max(8));
                st.sp = a + (sz * n).max(1);
                if st.sp + 4096 >= STACK_BASE + self.o.stack {
                    let m = st.model.clone();
                    self.violation(st, "stack", 0, &m, String::new());
                    return Err(End::Violation);
                }
                let e = st.sp;
                self.map(st, a, e);
                Self::set(st, dst, V::C(a));
            }
            D::Copy(v) => {
                let v = g!(v);
                Self::set(st, dst, v);
            }
            D::Nop => {}
            D::Unreachable => {
                return Err(End::Err(format!("unreachable executed\n{}", self.stack(st).join("\n"))));
            }
            D::Rmw(op, w, p, v) => {
                let (p, v) = (g!(p), g!(v));
                let a = self.conc(st, &p, 64)?;
                let old = self.load(st, a, &T::I(*w))?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, *w, &old, &v),
                    "sub" => self.bin(Op::Sub, *w, &old, &v),
                    "and" => self.bin(Op::And, *w, &old, &v),
                    "or" => self.bin(Op::Or, *w, &old, &v),
                    "xor" => self.bin(Op::Xor, *w, &old, &v),
                    _ => return Err(End::Err(format!("atomicrmw {op}"))),
                };
                self.store(st, a, &T::I(*w), &new)?;
                Self::set(st, dst, old);
            }
            D::Cas(w, p, c, n) => {
                let (p, c, n) = (g!(p), g!(c), g!(n));
                let a = self.conc(st, &p, 64)?;
                let old = self.load(st, a, &T::I(*w))?;
                let eq = self.icmp(P::Eq, *w, &old, &c);
                let k = self.conc(st, &eq, 1)?;
                if k != 0 {
                    self.store(st, a, &T::I(*w), &n)?;
                }
                Self::set(st, dst, V::A(Rc::new(vec![old, V::C(k)])));
            }
            D::FBin(op, w, a, b) => {
                let (V::C(x), V::C(y)) = (g!(a), g!(b)) else { return Err(End::Err("symbolic float".into())) };
                let f = |v: u64| if *w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let (p, q) = (f(x), f(y));
                let r = match op {
                    b'a' => p + q,
                    b's' => p - q,
                    b'm' => p * q,
                    b'd' => p / q,
                    _ => p % q,
                };
                let r = if *w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() };
                Self::set(st, dst, V::C(r));
            }
            D::FNeg(w, a) => {
                let V::C(x) = g!(a) else { return Err(End::Err("symbolic float".into())) };
                Self::set(st, dst, V::C(x ^ (1 << (w - 1))));
            }
            D::FCmp(p, w, a, b) => {
                let (V::C(x), V::C(y)) = (g!(a), g!(b)) else { return Err(End::Err("symbolic float".into())) };
                let f = |v: u64| if *w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let (x, y) = (f(x), f(y));
                let un = x.is_nan() || y.is_nan();
                let r = match &p[1..] {
                    "eq" => x == y || (p.starts_with('u') && un),
                    "ne" => (x != y && !un) || (p.starts_with('u') && un),
                    "lt" => x < y || (p.starts_with('u') && un),
                    "le" => x <= y || (p.starts_with('u') && un),
                    "gt" => x > y || (p.starts_with('u') && un),
                    "ge" => x >= y || (p.starts_with('u') && un),
                    "rd" => !un,
                    "no" => un,
                    _ => return Err(End::Err(format!("fcmp {p}"))),
                };
                Self::set(st, dst, V::C(r as u64));
            }
            D::Bad(s) => return Err(End::Err(format!("unsupported: {s}\n{}", self.stack(st).join("\n")))),
        }
        Ok(R::Next)
    }

    /// Load through a possibly symbolic pointer.
    fn load_at(&mut self, st: &mut State, p: &V, t: &T) -> Result<V, End> {
        let e = match p {
            V::C(a) => return self.load(st, *a, t),
            V::E(e) => *e,
            _ => return Err(End::Err("load pointer".into())),
        };
        let vars = self.ar.vars[e as usize];
        if let T::I(w) = t {
            if vars.count_ones() == 1 && *w <= 64 {
                let var = vars.trailing_zeros();
                let dom = self.ar.sets[st.dom[var as usize] as usize];
                let tab = self.ar.table(e);
                let mut groups: Vec<(u64, Set)> = vec![];
                let mut idx: FxMap<u64, usize> = FxMap::default();
                let mut memo: FxMap<u64, u64> = FxMap::default();
                let mut ok = true;
                for i in 0..256usize {
                    if (dom[i >> 6] >> (i & 63)) & 1 == 0 {
                        continue;
                    }
                    let a = tab[i] as u64;
                    let v = match memo.get(&a) {
                        Some(v) => *v,
                        None => match self.load(st, a, t) {
                            Ok(V::C(v)) => {
                                memo.insert(a, v);
                                v
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        },
                    };
                    let g = *idx.entry(v).or_insert_with(|| {
                        groups.push((v, EMPTY));
                        groups.len() - 1
                    });
                    groups[g].1[i >> 6] |= 1 << (i & 63);
                }
                if ok && *w == 32 && groups.len() > 1 && groups.len() <= 24 {
                    // a table-driven state machine: split on the state instead of carrying it symbolically
                    let (v, mine) = {
                        let b = st.model[var as usize] as usize;
                        *groups.iter().find(|(_, s)| (s[b >> 6] >> (b & 63)) & 1 == 1).unwrap()
                    };
                    let c = self.ar.in_set(var, mine);
                    let (_, o) = self.branch(st, c)?;
                    if let Some(o) = o {
                        self.push(o);
                    }
                    return Ok(V::C(v));
                }
                if ok && !groups.is_empty() {
                    // largest group last (the else of the chain)
                    groups.sort_by_key(|(_, s)| s.iter().map(|x| x.count_ones()).sum::<u32>());
                    let (v, _) = groups.pop().unwrap();
                    let mut r = self.ar.c(v as u128, *w);
                    for (v, s) in groups {
                        let c = self.ar.in_set(var, s);
                        let k = self.ar.c(v as u128, *w);
                        r = self.ar.ite(c, k, r);
                    }
                    return Ok(self.v(r));
                }
            }
        }
        let a = self.conc(st, p, 64)?;
        self.load(st, a, t)
    }

    fn enter_func(&mut self, st: &mut State, id: u32, dst: u32, argv: Vec<V>, normal: Option<u32>) -> Result<(), End> {
        let f = self.func(id);
        // the call itself: return address and saved registers
        let sp = st.sp;
        st.sp += 56;
        if st.sp + 4096 >= STACK_BASE + self.o.stack {
            let m = st.model.clone();
            self.violation(st, "stack", 0, &m, String::new());
            return Err(End::Violation);
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (p, v) in f.params.iter().zip(argv) {
            regs[*p as usize] = v;
        }
        let blk = f.entry;
        let c = self.cov.entry(f.id).or_insert_with(|| vec![false; f.blocks.len()]);
        if !c[blk as usize] {
            c[blk as usize] = true;
            self.cov_new = true;
        }
        st.frames.push(Rc::new(Frame { f, blk, ip: 0, regs, sp, dst, normal }));
        Ok(())
    }

    fn call(
        &mut self,
        st: &mut State,
        blk: u32,
        dst: u32,
        t: &Target,
        args: &[(Opd, Option<u64>)],
        normal: Option<u32>,
    ) -> Result<R, End> {
        let mut argv: Vec<V> = args.iter().map(|(o, _)| Self::get(st.frames.last().unwrap(), o)).collect();
        let id = match t {
            Target::Func(id) => *id,
            Target::Ind(o) => {
                let p = Self::get(st.frames.last().unwrap(), o);
                let a = self.conc(st, &p, 64)?;
                let i = a.wrapping_sub(FN_BASE);
                if i % 16 != 0 || i / 16 >= self.t.slots.len() as u64 {
                    return Err(End::Err(format!("call through {a:#x}\n{}", self.stack(st).join("\n"))));
                }
                (i / 16) as u32
            }
            Target::Intr(n, t0, rt) => {
                let v = self.intrinsic(st, n, t0, rt, &argv)?;
                Self::set(st, dst, v);
                return match normal {
                    Some(l) => self.goto(st, blk, l),
                    None => Ok(R::Next),
                };
            }
            Target::Asm(s) => {
                let v = if s.contains("cpuid") {
                    V::A(Rc::new(vec![V::C(0); 4]))
                } else if s.starts_with('|') || s.is_empty() {
                    V::C(0) // compiler barrier
                } else if s.contains("xgetbv") {
                    V::A(Rc::new(vec![V::C(0); 2]))
                } else {
                    return Err(End::Err(format!("inline asm {s}")));
                };
                Self::set(st, dst, v);
                return Ok(R::Next);
            }
        };
        match &self.t.slots[id as usize].kind {
            Fk::Body => {
                for (i, (_, bv)) in args.iter().enumerate() {
                    if let Some(sz) = bv {
                        let src = self.conc(st, &argv[i].clone(), 64)?;
                        let a = crate::ir::align_up(st.sp, 16);
                        st.sp = a + sz;
                        let e = st.sp;
                        self.map(st, a, e);
                        self.copy(st, a, src, *sz)?;
                        argv[i] = V::C(a);
                    }
                }
                self.enter_func(st, id, dst, argv, normal)?;
                Ok(R::Jump)
            }
            Fk::Panic => {
                let name = self.t.slots[id as usize].name.clone();
                let loc = self.panic_loc(st, &argv);
                let m = st.model.clone();
                let kind = if name.contains("alloc_error") || name.contains("capacity_overflow") { "alloc" } else { "panic" };
                self.violation(st, kind, 0, &m, loc);
                Ok(R::End(End::Violation))
            }
            Fk::Sym(s) => {
                let s = *s;
                self.sym_call(st, s, dst, &argv, blk, normal)
            }
            Fk::Ext(n) => {
                let n = n.clone();
                let v = self.external(st, &n, &argv)?;
                match v {
                    Some(v) => {
                        Self::set(st, dst, v);
                        match normal {
                            Some(l) => self.goto(st, blk, l),
                            None => Ok(R::Next),
                        }
                    }
                    None => {
                        let m = st.model.clone();
                        self.violation(st, "abort", 0, &m, String::new());
                        Ok(R::End(End::Violation))
                    }
                }
            }
        }
    }
    fn panic_loc(&mut self, st: &State, argv: &[V]) -> String {
        // the last pointer argument is &Location { file: (ptr, len), line, col }
        for a in argv.iter().rev() {
            if let V::C(p) = a {
                let l = (|| {
                    let (V::C(fp), V::C(fl), V::C(ln)) =
                        (self.load_int(st, *p, 8).ok()?, self.load_int(st, p + 8, 8).ok()?, self.load_int(st, p + 16, 4).ok()?)
                    else {
                        return None;
                    };
                    if fl > 400 || ln == 0 {
                        return None;
                    }
                    let mut s = String::new();
                    for i in 0..fl {
                        let (b, e) = self.rbyte(st, fp + i).ok()?;
                        if e != 0 || !(32..127).contains(&b) {
                            if b == 0 && i + 1 == fl {
                                break;
                            }
                            return None;
                        }
                        s.push(b as char);
                    }
                    Some(format!("{s}:{ln}"))
                })();
                if let Some(l) = l {
                    return l;
                }
            }
        }
        String::new()
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), End> {
        if n == 0 || d == s {
            return Ok(());
        }
        if n > 0x400_0000 {
            return Err(End::Err(format!("memcpy of {n}")));
        }
        // gather then scatter (memmove semantics)
        let mut buf: Vec<(u8, Ex)> = Vec::with_capacity(n as usize);
        let mut i = 0;
        while i < n {
            let a = s + i;
            let o = (a & (PS as u64 - 1)) as usize;
            let k = ((PS - o) as u64).min(n - i) as usize;
            if st.mem.page(a).is_none() && self.base.page(a).is_none() && !self.materialise(a) {
                return Err(End::Err(format!("wild copy from {a:#x}\n{}", self.stack(st).join("\n"))));
            }
            let p = st.mem.page(a).or_else(|| self.base.page(a)).unwrap();
            match &p.s {
                Some(sy) => buf.extend((o..o + k).map(|j| (p.d[j], sy[j]))),
                None => buf.extend(p.d[o..o + k].iter().map(|x| (*x, 0))),
            }
            i += k as u64;
        }
        let mut i = 0usize;
        while i < n as usize {
            let a = d + i as u64;
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min(n as usize - i);
            let p = self.wpage(st, a)?;
            let sym = buf[i..i + k].iter().any(|x| x.1 != 0);
            if sym && p.s.is_none() {
                p.s = Some(Box::new([0; PS]));
            }
            for j in 0..k {
                p.d[o + j] = buf[i + j].0;
                if let Some(s) = &mut p.s {
                    s[o + j] = buf[i + j].1;
                }
            }
            i += k;
        }
        Ok(())
    }
    fn fillm(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> Result<(), End> {
        for i in 0..n {
            self.store_int(st, d + i, 1, v)?;
        }
        Ok(())
    }
    /// Three-way (or equality only) comparison of memory.
    fn cmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> Result<V, End> {
        if eq_only {
            let mut c = self.ar.c(1, 1);
            for i in 0..n {
                let (x, y) = (self.load_int(st, a + i, 1)?, self.load_int(st, b + i, 1)?);
                let e = self.icmp(P::Eq, 8, &x, &y);
                let e = self.ex(&e, 1);
                c = self.ar.and(c, e);
                if self.ar.as_const(c) == Some(0) {
                    break;
                }
            }
            let (z, o) = (self.ar.c(0, 32), self.ar.c(1, 32));
            let r = self.ar.ite(c, z, o);
            return Ok(self.v(r));
        }
        let mut r = self.ar.c(0, 32);
        let (neg, pos) = (self.ar.c(0xFFFF_FFFF, 32), self.ar.c(1, 32));
        for i in (0..n).rev() {
            let (x, y) = (self.load_int(st, a + i, 1)?, self.load_int(st, b + i, 1)?);
            let e = self.icmp(P::Eq, 8, &x, &y);
            let l = self.icmp(P::Ult, 8, &x, &y);
            let (e, l) = (self.ex(&e, 1), self.ex(&l, 1));
            let d = self.ar.ite(l, neg, pos);
            r = self.ar.ite(e, r, d);
        }
        Ok(self.v(r))
    }

    fn sym_call(
        &mut self,
        st: &mut State,
        s: &str,
        dst: u32,
        a: &[V],
        blk: u32,
        normal: Option<u32>,
    ) -> Result<R, End> {
        match s {
            "sym_bytes" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                for i in 0..n {
                    let v = st.nvars;
                    if let Some(c) = &self.o.concrete {
                        let b = c.get(v as usize).copied().unwrap_or(0);
                        self.wbyte(st, p + i, b, 0)?;
                    } else {
                        if v >= 128 {
                            return Err(End::Err("more than 128 symbolic bytes".into()));
                        }
                        let e = self.ar.var(v);
                        self.wbyte(st, p + i, 0, e)?;
                    }
                    st.nvars += 1;
                    Rc::make_mut(&mut st.dom).push(0);
                    let b = self.o.concrete.as_ref().map_or(0, |c| c.get(v as usize).copied().unwrap_or(0));
                    Rc::make_mut(&mut st.model).push(b);
                }
            }
            "sym_assume" => match &a[0] {
                V::C(k) => {
                    if k & 1 == 0 {
                        return Ok(R::End(End::Killed));
                    }
                }
                V::E(e) => match self.feasible(st, *e)? {
                    None => return Ok(R::End(End::Killed)),
                    Some(m) => {
                        st.model = m;
                        self.add(st, *e);
                    }
                },
                _ => return Err(End::Err("assume".into())),
            },
            "sym_assert" => {
                let id = match a[1] {
                    V::C(k) => k,
                    _ => 0,
                };
                self.sh.asserts.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                match &a[0] {
                    V::C(k) => {
                        if k & 1 == 0 {
                            let m = st.model.clone();
                            self.violation(st, "assert", id, &m, String::new());
                            return Ok(R::End(End::Violation));
                        }
                    }
                    V::E(e) => {
                        let ne = self.ar.not(*e);
                        if let Some(m) = self.feasible(st, ne)? {
                            self.violation(st, "assert", id, &m, String::new());
                            match self.feasible(st, *e)? {
                                None => return Ok(R::End(End::Violation)),
                                Some(m) => {
                                    st.model = m;
                                    self.add(st, *e);
                                }
                            }
                        }
                    }
                    _ => return Err(End::Err("assert".into())),
                }
            }
            "sym_ite" => {
                let r = match &a[0] {
                    V::C(k) => a[if k & 1 != 0 { 1 } else { 2 }].clone(),
                    V::E(c) => self.select(*c, &T::I(64), &a[1], &a[2]),
                    _ => return Err(End::Err("sym_ite".into())),
                };
                Self::set(st, dst, r);
            }
            "sym_reach" => {
                if let V::C(k) = a[0] {
                    self.sh.reach(k);
                }
            }
            "sym_observe" => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                for i in 0..n {
                    let v = self.load_int(st, p + i, 1)?;
                    Rc::make_mut(&mut st.obs).push(v);
                }
            }
            "sym_concretize" => {
                let k = self.conc(st, &a[0], 64)?;
                Self::set(st, dst, V::C(k));
            }
            "sym_is_symbolic" => Self::set(st, dst, V::C(matches!(a[0], V::E(_)) as u64)),
            "sym_dbg" => {
                let s = match &a[0] {
                    V::C(k) => format!("{k:#x}"),
                    V::E(e) => self.ar.show(*e, 12),
                    V::A(_) => "agg".into(),
                };
                eprintln!("dbg: {s}");
            }
            _ => unreachable!(),
        }
        match normal {
            Some(l) => self.goto(st, blk, l),
            None => Ok(R::Next),
        }
    }

    fn external(&mut self, st: &mut State, n: &str, a: &[V]) -> Result<Option<V>, End> {
        macro_rules! c {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.conc(st, &v, 64)?
            }};
        }
        Ok(Some(match n {
            "malloc" => {
                let sz = c!(0);
                V::C(self.malloc(st, sz, 16)?)
            }
            "calloc" => {
                let sz = c!(0) * c!(1);
                V::C(self.malloc(st, sz, 16)?)
            }
            "posix_memalign" => {
                let (p, al, sz) = (c!(0), c!(1), c!(2));
                let r = self.malloc(st, sz, al)?;
                self.store_int(st, p, 8, &V::C(r))?;
                V::C(0)
            }
            "aligned_alloc" => {
                let (al, sz) = (c!(0), c!(1));
                V::C(self.malloc(st, sz, al)?)
            }
            "realloc" => {
                let (p, sz) = (c!(0), c!(1));
                let r = self.malloc(st, sz, 16)?;
                if p != 0 {
                    let V::C(old) = self.load_int(st, p - 8, 8)? else { return Err(End::Err("realloc".into())) };
                    self.copy(st, r, p, old.min(sz))?;
                }
                V::C(r)
            }
            "free" => V::C(0),
            "memcpy" | "memmove" => {
                let (d, s, l) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s, l)?;
                V::C(d)
            }
            "memset" => {
                let (d, l) = (c!(0), c!(2));
                let v = self.trunc(&a[1], 32, 8);
                self.fillm(st, d, &v, l)?;
                V::C(d)
            }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (c!(0), c!(1), c!(2));
                self.cmp(st, p, q, l, n == "bcmp")?
            }
            "strlen" => {
                let p = c!(0);
                let mut i = 0;
                loop {
                    let v = self.load_int(st, p + i, 1)?;
                    let k = self.conc(st, &v, 8)?;
                    if k == 0 {
                        break;
                    }
                    i += 1;
                }
                V::C(i)
            }
            "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_mutex_lock" | "pthread_mutex_unlock"
            | "pthread_attr_destroy" | "pthread_attr_init" | "__cxa_thread_atexit_impl" | "sched_yield" => V::C(0),
            "sysconf" => V::C(if c!(0) == 84 { 1 } else { 4096 }),
            "open64" | "open" | "sched_getaffinity" | "readlink" | "stat64" | "fstat64" => {
                let a = ERRNO;
                self.map(st, a, a + 8);
                self.store_int(st, a, 4, &V::C(2))?;
                V::C(0xFFFF_FFFF)
            }
            "pthread_self" => V::C(1),
            "flat_hash" => V::C(0),
            "getrandom" => {
                let (p, l) = (c!(0), c!(1));
                self.fillm(st, p, &V::C(0x5A), l)?;
                V::C(l)
            }
            "syscall" => match c!(0) {
                202 => V::C(0),
                318 => {
                    let (p, l) = (c!(1), c!(2));
                    self.fillm(st, p, &V::C(0x5A), l)?;
                    V::C(l)
                }
                186 => V::C(1),
                k => return Err(End::Err(format!("syscall {k}"))),
            },
            "write" => V::C(c!(2)),
            "__errno_location" => {
                let a = ERRNO;
                self.map(st, a, a + 8);
                V::C(a)
            }
            "abort" => return Ok(None),
            _ => {
                return Err(End::Err(format!("external function {n}\n{}", self.stack(st).join("\n"))));
            }
        }))
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, t0: &T, rt: &T, a: &[V]) -> Result<V, End> {
        let n = &n[5..];
        let starts = |p: &str| n.starts_with(p);
        macro_rules! c {
            ($i:expr) => {{
                let v = a[$i].clone();
                self.conc(st, &v, 64)?
            }};
        }
        if starts("memcpy") || starts("memmove") {
            let (d, s, l) = (c!(0), c!(1), c!(2));
            self.copy(st, d, s, l)?;
            return Ok(V::C(0));
        }
        if starts("memset") {
            let (d, l) = (c!(0), c!(2));
            self.fillm(st, d, &a[1].clone(), l)?;
            return Ok(V::C(0));
        }
        if starts("expect") || starts("threadlocal.address") || starts("ssa.copy") || starts("launder") || starts("strip.inv") {
            return Ok(a[0].clone());
        }
        if starts("is.constant") {
            return Ok(V::C(0));
        }
        if starts("objectsize") {
            return Ok(V::C(m64(if let T::I(w) = rt { *w } else { 64 })));
        }
        if starts("trap") || starts("ubsantrap") || starts("debugtrap") {
            let m = st.model.clone();
            self.violation(st, "trap", 0, &m, String::new());
            return Err(End::Violation);
        }
        if starts("x86.sse2.pause") || starts("prefetch") {
            return Ok(V::C(0));
        }
        if starts("ptrmask") {
            return Ok(self.bin(Op::And, 64, &a[0], &a[1]));
        }
        if starts("vector.reduce") {
            let (T::Vec(cnt, w), V::A(l)) = (t0, &a[0]) else { return Err(End::Err("reduce".into())) };
            let l = l.clone();
            let mut r = l[0].clone();
            for x in &l[1..*cnt as usize] {
                r = match n.split('.').nth(2).unwrap_or("") {
                    "or" => self.bin(Op::Or, *w, &r, x),
                    "and" => self.bin(Op::And, *w, &r, x),
                    "xor" => self.bin(Op::Xor, *w, &r, x),
                    "add" => self.bin(Op::Add, *w, &r, x),
                    "umax" => self.minmax(P::Ugt, *w, &r, x),
                    "umin" => self.minmax(P::Ult, *w, &r, x),
                    _ => return Err(End::Err(format!("intrinsic {n}"))),
                };
            }
            return Ok(r);
        }
        // lane-wise intrinsics
        match t0 {
            T::Vec(cnt, w) => {
                let mut o = vec![];
                for i in 0..*cnt as usize {
                    let ai: Vec<V> = a
                        .iter()
                        .map(|x| match x {
                            V::A(l) => l[i].clone(),
                            y => y.clone(),
                        })
                        .collect();
                    o.push(self.lane_intrinsic(st, n, *w, rt, &ai)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            T::I(w) => self.lane_intrinsic(st, n, *w, rt, a),
            _ => Err(End::Err(format!("intrinsic {n}"))),
        }
    }
    fn minmax(&mut self, p: P, w: u16, a: &V, b: &V) -> V {
        let c = self.icmp(p, w, a, b);
        let c = self.ex(&c, 1);
        self.select(c, &T::I(w), a, b)
    }
    fn lane_intrinsic(&mut self, st: &mut State, n: &str, w: u16, rt: &T, a: &[V]) -> Result<V, End> {
        let _ = st;
        let key = n.split('.').next().unwrap_or("");
        let z = V::C(0);
        Ok(match key {
            "umax" => self.minmax(P::Ugt, w, &a[0], &a[1]),
            "umin" => self.minmax(P::Ult, w, &a[0], &a[1]),
            "smax" => self.minmax(P::Sgt, w, &a[0], &a[1]),
            "smin" => self.minmax(P::Slt, w, &a[0], &a[1]),
            "abs" => {
                let ng = self.bin(Op::Sub, w, &z, &a[0]);
                let c = self.icmp(P::Slt, w, &a[0], &z);
                let c = self.ex(&c, 1);
                self.select(c, &T::I(w), &ng, &a[0])
            }
            "ctpop" => {
                if let (V::C(k), true) = (&a[0], w <= 64) {
                    return Ok(V::C(k.count_ones() as u64));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ar.c(0, w);
                for i in 0..w {
                    let b = self.ar.extract(e, i, 1);
                    let b = self.ar.zext(b, w);
                    r = self.ar.b(Op::Add, r, b);
                }
                self.v(r)
            }
            "cttz" | "ctlz" => {
                if let (V::C(k), true) = (&a[0], w <= 64) {
                    let r = if *k == 0 {
                        w as u64
                    } else if key == "cttz" {
                        k.trailing_zeros() as u64
                    } else {
                        k.leading_zeros() as u64 - (64 - w as u64)
                    };
                    return Ok(V::C(r));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ar.c(w as u128, w);
                for j in 0..w {
                    let i = if key == "cttz" { w - 1 - j } else { j };
                    let b = self.ar.extract(e, i, 1);
                    let k = self.ar.c(if key == "cttz" { i as u128 } else { (w - 1 - i) as u128 }, w);
                    r = self.ar.ite(b, k, r);
                }
                self.v(r)
            }
            "bswap" => {
                if let (V::C(k), true) = (&a[0], w <= 64) {
                    return Ok(V::C(k.swap_bytes() >> (64 - w)));
                }
                let e = self.ex(&a[0], w);
                let mut r = self.ar.extract(e, w - 8, 8);
                let mut i = w - 8;
                while i > 0 {
                    i -= 8;
                    let b = self.ar.extract(e, i, 8);
                    r = self.ar.concat(b, r);
                }
                self.v(r)
            }
            "bitreverse" => {
                if let (V::C(k), true) = (&a[0], w <= 64) {
                    return Ok(V::C(k.reverse_bits() >> (64 - w)));
                }
                return Err(End::Err("symbolic bitreverse".into()));
            }
            "fshl" | "fshr" => {
                let s = self.bin(Op::URem, w, &a[2], &V::C(w as u64));
                if let V::C(s) = s {
                    let s = if key == "fshl" { s } else { (w as u64 - s) % w as u64 };
                    if s == 0 {
                        return Ok(if key == "fshl" { a[0].clone() } else { a[1].clone() });
                    }
                    let h = self.bin(Op::Shl, w, &a[0], &V::C(s));
                    let l = self.bin(Op::LShr, w, &a[1], &V::C(w as u64 - s));
                    return Ok(self.bin(Op::Or, w, &h, &l));
                }
                // general: shifts by w are zero in SMT semantics
                let inv = self.bin(Op::Sub, w, &V::C(w as u64), &s);
                let (hs, ls) = if key == "fshl" { (s, inv) } else { (inv, s) };
                let h = self.bin(Op::Shl, w, &a[0], &hs);
                let l = self.bin(Op::LShr, w, &a[1], &ls);
                self.bin(Op::Or, w, &h, &l)
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let op = match &key[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = key.starts_with('s');
                let (ww, r, ov);
                ww = if op == Op::Mul { 2 * w } else { w + 1 };
                if ww > 128 {
                    // 64x64 multiplication fits 128
                    return Err(End::Err(format!("intrinsic {n} wide")));
                }
                let k = if signed { Ck::SExt } else { Ck::ZExt };
                if let (V::C(x), V::C(y), true) = (&a[0], &a[1], w <= 64) {
                    let (x, y) = if signed {
                        (sext(*x as u128, w), sext(*y as u128, w))
                    } else {
                        (*x as i128, *y as i128)
                    };
                    let full = match op {
                        Op::Add => x + y,
                        Op::Sub => x - y,
                        _ => {
                            if signed {
                                x.wrapping_mul(y)
                            } else {
                                (x as u128).wrapping_mul(y as u128) as i128
                            }
                        }
                    };
                    let r64 = (full as u128 & mask(w)) as u64;
                    let o = if signed {
                        sext(r64 as u128, w) != full
                    } else {
                        r64 as u128 != full as u128
                    };
                    if n.contains(".with.overflow") {
                        return Ok(V::A(Rc::new(vec![V::C(r64), V::C(o as u64)])));
                    }
                    let s = if !o {
                        r64
                    } else if !signed {
                        if op == Op::Sub {
                            0
                        } else {
                            m64(w)
                        }
                    } else if full < 0 {
                        1u64 << (w - 1)
                    } else {
                        m64(w - 1)
                    };
                    return Ok(V::C(s));
                }
                let (x0, y0) = (self.ex(&a[0], w), self.ex(&a[1], w));
                r = self.bin(op, w, &a[0], &a[1]);
                // cheap overflow conditions
                let oe = if !signed && op == Op::Add {
                    let re = self.ex(&r, w);
                    self.ar.b(Op::Ult, re, x0)
                } else if !signed && op == Op::Sub {
                    self.ar.b(Op::Ult, x0, y0)
                } else if let (false, Op::Mul, true, V::C(m), _) | (false, Op::Mul, true, _, V::C(m)) =
                    (signed, op, w <= 64, &a[0], &a[1])
                {
                    // x * m overflows exactly when x > floor((2^w - 1) / m)
                    if *m == 0 {
                        self.ex(&V::C(0), 1)
                    } else {
                        let lim = self.ex(&V::C(m64(w) / *m), w);
                        let x = if matches!(a[0], V::C(_)) { y0 } else { x0 };
                        self.ar.b(Op::Ult, lim, x)
                    }
                } else {
                    let x = self.cast(k, w, ww, &V::E(x0))?;
                    let y = self.cast(k, w, ww, &V::E(y0))?;
                    let full = self.bin(op, ww, &x, &y);
                    let back = self.cast(k, w, ww, &r)?;
                    let (f, b) = (self.ex(&full, ww), self.ex(&back, ww));
                    self.ar.ne(f, b)
                };
                ov = self.v(oe);
                if n.contains(".with.overflow") {
                    return Ok(V::A(Rc::new(vec![r, ov])));
                }
                let sat = if !signed {
                    if op == Op::Sub {
                        V::C(0)
                    } else {
                        V::C(m64(w))
                    }
                } else {
                    return Err(End::Err(format!("symbolic {n}")));
                };
                self.select(oe, &T::I(w), &sat, &r)
            }
            "scmp" | "ucmp" => {
                let rw = if let T::I(w) = rt { *w } else { 8 };
                let (lt, gt) = if key == "scmp" { (P::Slt, P::Sgt) } else { (P::Ult, P::Ugt) };
                let l = self.icmp(lt, w, &a[0], &a[1]);
                let g = self.icmp(gt, w, &a[0], &a[1]);
                let (l, g) = (self.ex(&l, 1), self.ex(&g, 1));
                let (m1, z0, p1) = (self.ar.c(u128::MAX, rw), self.ar.c(0, rw), self.ar.c(1, rw));
                let x = self.ar.ite(g, p1, z0);
                let r = self.ar.ite(l, m1, x);
                self.v(r)
            }
            _ => return Err(End::Err(format!("intrinsic {n}\n{}", self.stack(st).join("\n")))),
        })
    }

    /// A path ended normally: keep a reservoir of samples for replay.
    pub fn finish(&mut self, st: &State) {
        use std::sync::atomic::Ordering::Relaxed;
        let k = self.sh.paths.fetch_add(1, Relaxed) + 1;
        let want = self.samples.len() < self.o.samples || self.rnd() % (k + 1) < self.o.samples as u64;
        if want {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for v in st.obs.iter() {
                let b = match v {
                    V::C(k) => *k as u8,
                    V::E(e) => self.ar.eval(*e, &st.model) as u8,
                    _ => 0,
                };
                h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            let s = Sample { bytes: st.model[..st.nvars as usize].to_vec(), obs: h };
            if self.samples.len() < self.o.samples {
                self.samples.push(s);
            } else {
                let i = self.rnd() as usize % self.samples.len();
                self.samples[i] = s;
            }
        }
    }
}

fn insv(x: &mut V, idx: &[u32], e: V) {
    if idx.is_empty() {
        *x = e;
        return;
    }
    if let V::A(l) = x {
        insv(&mut Rc::make_mut(l)[idx[0] as usize], &idx[1..], e);
    }
}
