//! Lowering of parsed IR functions to a compact executable form.
use crate::expr::{FxMap, Op};
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Debug)]
pub enum T {
    I(u16),
    F(u16),
    /// n lanes of w bits
    Vec(u32, u16),
    Agg(Rc<Vec<(u64, T)>>),
    Void,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ck {
    Trunc,
    ZExt,
    SExt,
    Id,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Target {
    Func(u32),
    Ind(Opd),
    Intr(String, T, T),
    Asm(String),
}

#[derive(Debug)]
pub enum D {
    Bin(Op, u16, u32, Opd, Opd),
    FBin(u8, u16, Opd, Opd),
    FNeg(u16, Opd),
    FCmp(String, u16, Opd, Opd),
    Icmp(P, u16, u32, Opd, Opd),
    Load(T, Opd),
    Store(T, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u16, u64)>),
    Cast(Ck, u16, u16, u32, Opd),
    BitCast(T, T, Opd),
    Select(u32, T, Opd, Opd, Opd),
    Call(Target, Vec<(Opd, Option<u64>)>, Option<u32>),
    ExtV(Vec<u32>, Opd),
    InsV(Vec<u32>, Opd, Opd),
    ExtE(Opd, Opd),
    InsE(Opd, Opd, Opd),
    Shuf(Opd, Opd, Vec<i32>),
    Alloca(u64, u64, Opd),
    Br(u32),
    CBr(Opd, u32, u32),
    Switch(u16, Opd, u32, FxMap<u128, u32>, Vec<(u32, Vec<u128>)>),
    Ret(Option<Opd>),
    Unreachable,
    Rmw(String, u16, Opd, Opd),
    Cas(u16, Opd, Opd, Opd),
    Copy(Opd),
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct DIns {
    pub dst: u32,
    pub d: D,
}

#[derive(Debug, Default)]
pub struct Block {
    pub preds: Vec<u32>,
    pub phis: Vec<(u32, Vec<Opd>)>,
    pub ins: Vec<DIns>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub entry: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

/// Resolves global names to addresses.
pub trait Resolver {
    fn global_addr(&mut self, name: &str) -> u64;
    fn func_id(&mut self, name: &str) -> Option<u32>;
    fn big(&mut self, v: u128, w: u16) -> V;
}

pub fn tconv(t: &Ty) -> T {
    match t {
        Ty::Int(w) => T::I(*w as u16),
        Ty::Ptr => T::I(64),
        Ty::F32 => T::F(32),
        Ty::F64 => T::F(64),
        Ty::Vec(n, e) => T::Vec(*n, e.bits() as u16),
        Ty::Arr(n, e) => {
            let s = e.size();
            let t = tconv(e);
            T::Agg(Rc::new((0..*n).map(|i| (i * s, t.clone())).collect()))
        }
        Ty::Struct(f, _) => {
            T::Agg(Rc::new((0..f.len() as u64).map(|i| t.field_off(i)).map(|(o, x)| (o, tconv(&x))).collect()))
        }
        Ty::Void | Ty::Other => T::Void,
    }
}

pub fn zero(t: &T) -> V {
    match t {
        T::I(w) if *w > 64 => V::C(0), // widened by the consumer
        T::I(_) | T::F(_) => V::C(0),
        T::Vec(n, _) => V::A(Rc::new(vec![V::C(0); *n as usize])),
        T::Agg(f) => V::A(Rc::new(f.iter().map(|(_, t)| zero(t)).collect())),
        T::Void => V::C(0),
    }
}

pub fn cst<R: Resolver>(r: &mut R, ty: &Ty, c: &Cst) -> V {
    match c {
        Cst::Int(v) => {
            let w = ty.bits() as u16;
            if w > 64 {
                r.big(*v, w)
            } else {
                V::C(*v as u64)
            }
        }
        Cst::Null => V::C(0),
        Cst::Zero | Cst::Undef => zero(&tconv(ty)),
        Cst::Global(n) => V::C(r.global_addr(n)),
        Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| cst(r, t, c)).collect())),
        Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
        Cst::Splat(t, c) => {
            let n = if let Ty::Vec(n, _) = ty { *n } else { 0 };
            let v = cst(r, t, c);
            V::A(Rc::new(vec![v; n as usize]))
        }
        Cst::Gep(base, ops) => {
            let mut vals = vec![];
            for (t, c) in &ops[1..] {
                let w = t.bits();
                match cst(r, t, c) {
                    V::C(k) => vals.push(crate::expr::sext(k as u128, w as u16) as i64),
                    _ => panic!("gep const"),
                }
            }
            let b = match cst(r, &ops[0].0, &ops[0].1) {
                V::C(k) => k,
                _ => panic!("gep const"),
            };
            let mut a = b.wrapping_add((vals[0] as u64).wrapping_mul(base.size()));
            let mut t = base.clone();
            for i in &vals[1..] {
                match &t {
                    Ty::Struct(..) => {
                        let (o, x) = t.field_off(*i as u64);
                        a = a.wrapping_add(o);
                        t = x;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        a = a.wrapping_add((*i as u64).wrapping_mul(e.size()));
                        t = (**e).clone();
                    }
                    _ => panic!("gep const"),
                }
            }
            V::C(a)
        }
        Cst::Cast(_, f, c, t) => match cst(r, f, c) {
            V::C(k) => {
                let w = t.bits().min(64) as u16;
                V::C(k & crate::expr::mask(w) as u64)
            }
            v => v,
        },
        Cst::Bin(op, t, a, b) => {
            let (x, y) = (cst(r, t, a), cst(r, t, b));
            let w = t.bits() as u16;
            match (x, y) {
                (V::C(x), V::C(y)) => {
                    let o = binop(op).unwrap();
                    V::C(crate::expr::bin(o, w, x as u128, y as u128, w, w) as u64)
                }
                _ => panic!("const bin"),
            }
        }
        Cst::Local(_) => panic!("local in constant"),
    }
}

pub fn binop(s: &str) -> Option<Op> {
    Some(match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        _ => return None,
    })
}

fn lanes(t: &Ty) -> (u32, u16) {
    match t {
        Ty::Vec(n, e) => (*n, e.bits() as u16),
        _ => (0, t.bits() as u16),
    }
}

pub fn lower<R: Resolver>(r: &mut R, id: u32, f: &RawFunc) -> Func {
    let mut blocks = vec![];
    for b in &f.blocks {
        let mut nb = Block::default();
        for i in &b[..] {
            if let I::Phi { ty, inc } = &i.i {
                if nb.phis.is_empty() {
                    nb.preds = inc.iter().map(|(_, l)| *l).collect();
                }
                let ops = nb
                    .preds
                    .iter()
                    .map(|p| inc.iter().find(|(_, l)| l == p).unwrap())
                    .map(|(c, _)| opd(r, ty, c))
                    .collect();
                nb.phis.push((i.dst.unwrap(), ops));
                continue;
            }
            let d = lower_ins(r, &i.i);
            if matches!(d, D::Nop) {
                continue;
            }
            nb.ins.push(DIns { dst: i.dst.unwrap_or(u32::MAX), d });
        }
        blocks.push(nb);
    }
    Func {
        id,
        name: f.name.clone(),
        nregs: f.nregs,
        entry: f.entry,
        params: f.params.iter().map(|p| p.0).collect(),
        blocks,
    }
}

fn opd<R: Resolver>(r: &mut R, ty: &Ty, c: &Cst) -> Opd {
    match c {
        Cst::Local(n) => Opd::R(*n),
        _ => Opd::K(cst(r, ty, c)),
    }
}

fn lower_ins<R: Resolver>(r: &mut R, i: &I) -> D {
    match i {
        I::Bin { op, ty, a, b } => {
            let (n, w) = lanes(ty);
            let (x, y) = (opd(r, ty, a), opd(r, ty, b));
            match binop(op) {
                Some(o) => D::Bin(o, w, n, x, y),
                None if n == 0 => D::FBin(op.as_bytes()[1], w, x, y),
                None => D::Bad("vector float".into()),
            }
        }
        I::FNeg { ty, a } => D::FNeg(ty.bits() as u16, opd(r, ty, a)),
        I::Icmp { pred, ty, a, b } => {
            let (n, w) = lanes(ty);
            let p = match pred.as_str() {
                "eq" => P::Eq,
                "ne" => P::Ne,
                "ult" => P::Ult,
                "ule" => P::Ule,
                "ugt" => P::Ugt,
                "uge" => P::Uge,
                "slt" => P::Slt,
                "sle" => P::Sle,
                "sgt" => P::Sgt,
                "sge" => P::Sge,
                _ => return D::Bad(format!("icmp {pred}")),
            };
            D::Icmp(p, w, n, opd(r, ty, a), opd(r, ty, b))
        }
        I::Fcmp { pred, ty, a, b } => D::FCmp(pred.clone(), ty.bits() as u16, opd(r, ty, a), opd(r, ty, b)),
        I::Load { ty, p } => D::Load(tconv(ty), opd(r, &Ty::Ptr, p)),
        I::Store { ty, v, p } => D::Store(tconv(ty), opd(r, ty, v), opd(r, &Ty::Ptr, p)),
        I::Gep { base, ops } => {
            let p = opd(r, &ops[0].0, &ops[0].1);
            if ops.iter().any(|(t, _)| matches!(t, Ty::Vec(..))) {
                return D::Bad("vector gep".into());
            }
            let mut off = 0u64;
            let mut idx = vec![];
            let mut t = base.clone();
            for (k, (ity, c)) in ops[1..].iter().enumerate() {
                let w = ity.bits() as u16;
                let scale;
                if k == 0 {
                    scale = base.size();
                } else {
                    match &t {
                        Ty::Struct(..) => {
                            let i = match c {
                                Cst::Int(i) => *i as u64,
                                Cst::Zero => 0,
                                _ => panic!("struct gep"),
                            };
                            let (o, x) = t.field_off(i);
                            off = off.wrapping_add(o);
                            t = x;
                            continue;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            scale = e.size();
                            t = (**e).clone();
                        }
                        _ => panic!("gep"),
                    }
                }
                match opd(r, ity, c) {
                    Opd::K(V::C(i)) => {
                        let s = crate::expr::sext(i as u128, w) as i64;
                        off = off.wrapping_add((s as u64).wrapping_mul(scale));
                    }
                    o => idx.push((o, w, scale)),
                }
            }
            D::Gep(p, off, idx)
        }
        I::Cast { op, from, v, to } => {
            let x = opd(r, from, v);
            let (n, wf) = lanes(from);
            let (_, wt) = lanes(to);
            let k = match op.as_str() {
                "trunc" => Ck::Trunc,
                "zext" => Ck::ZExt,
                "sext" => Ck::SExt,
                "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                    if wf > wt {
                        Ck::Trunc
                    } else if wf < wt {
                        Ck::ZExt
                    } else {
                        Ck::Id
                    }
                }
                "addrspacecast" => Ck::Id,
                "bitcast" => return D::BitCast(tconv(from), tconv(to), x),
                "uitofp" => Ck::UiToFp,
                "sitofp" => Ck::SiToFp,
                "fptoui" => Ck::FpToUi,
                "fptosi" => Ck::FpToSi,
                "fptrunc" => Ck::FpTrunc,
                "fpext" => Ck::FpExt,
                _ => return D::Bad(op.clone()),
            };
            D::Cast(k, wf, wt, n, x)
        }
        I::Select { cty, c, ty, a, b } => {
            let n = if let Ty::Vec(n, _) = cty { *n } else { 0 };
            D::Select(n, tconv(ty), opd(r, cty, c), opd(r, ty, a), opd(r, ty, b))
        }
        I::Phi { .. } => unreachable!(),
        I::Call { ret, callee, args, normal } => {
            let mut ops = vec![];
            for a in args {
                ops.push((opd(r, &a.ty, &a.v), a.byval.as_ref().map(|t| t.size())));
            }
            let t = match callee {
                Callee::Name(n) => {
                    if n.starts_with("llvm.") {
                        if n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.experimental.noalias")
                            || n == "llvm.sideeffect"
                            || n == "llvm.donothing"
                        {
                            return match normal {
                                Some(l) => D::Br(*l),
                                None => D::Nop,
                            };
                        }
                        let a0 = args.first().map(|a| tconv(&a.ty)).unwrap_or(T::Void);
                        Target::Intr(n.clone(), a0, tconv(ret))
                    } else {
                        match r.func_id(n) {
                            Some(id) => Target::Func(id),
                            None => panic!("callee {n}"),
                        }
                    }
                }
                Callee::Val(c) => Target::Ind(opd(r, &Ty::Ptr, c)),
                Callee::Asm(s) => Target::Asm(s.clone()),
            };
            D::Call(t, ops, *normal)
        }
        I::ExtractValue { ty, v, idx } => D::ExtV(idx.clone(), opd(r, ty, v)),
        I::InsertValue { ty, v, ety, e, idx } => D::InsV(idx.clone(), opd(r, ty, v), opd(r, ety, e)),
        I::ExtractElt { ty, v, i } => D::ExtE(opd(r, ty, v), opd(r, &Ty::Int(64), i)),
        I::InsertElt { ty, v, e, i } => {
            let et = if let Ty::Vec(_, e) = ty { (**e).clone() } else { Ty::Int(8) };
            D::InsE(opd(r, ty, v), opd(r, &et, e), opd(r, &Ty::Int(64), i))
        }
        I::Shuffle { ty, a, b, mask } => D::Shuf(opd(r, ty, a), opd(r, ty, b), mask.clone()),
        I::Alloca { ty, n, align } => D::Alloca(ty.size(), *align, opd(r, &Ty::Int(64), n)),
        I::Br(l) => D::Br(*l),
        I::CondBr { c, t, f } => D::CBr(opd(r, &Ty::Int(1), c), *t, *f),
        I::Switch { ty, v, def, cases } => {
            let w = ty.bits() as u16;
            let mut m = FxMap::default();
            let mut g: Vec<(u32, Vec<u128>)> = vec![];
            for (k, l) in cases {
                m.insert(*k, *l);
                match g.iter_mut().find(|(x, _)| x == l) {
                    Some((_, v)) => v.push(*k),
                    None => g.push((*l, vec![*k])),
                }
            }
            D::Switch(w, opd(r, ty, v), *def, m, g)
        }
        I::Ret(None) => D::Ret(None),
        I::Ret(Some((t, c))) => D::Ret(Some(opd(r, t, c))),
        I::Unreachable => D::Unreachable,
        I::AtomicRmw { op, p, ty, v } => D::Rmw(op.clone(), ty.bits() as u16, opd(r, &Ty::Ptr, p), opd(r, ty, v)),
        I::CmpXchg { p, ty, cmp, new } => {
            D::Cas(ty.bits() as u16, opd(r, &Ty::Ptr, p), opd(r, ty, cmp), opd(r, ty, new))
        }
        I::Nop => D::Nop,
        I::Freeze { ty, v } => D::Copy(opd(r, ty, v)),
        I::Bad(s) => D::Bad(s.clone()),
    }
}
