//! Lazy parser for rustc-emitted textual LLVM IR.
use crate::expr::FxMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    /// Alloc size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => align_up((*w as u64).div_ceil(8), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                let b = (*n as u64 * t.bits() as u64).div_ceil(8);
                b.next_power_of_two()
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f.iter() {
                    if !packed {
                        o = align_up(o, x.align());
                    }
                    o += x.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| x.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, x) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, x.align());
                    }
                    if j as u64 == i {
                        return (o, x.clone());
                    }
                    o += x.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field_off of {self:?}"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

/// Parsed constant / operand.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Null,
    Zero,
    Undef,
    Global(String),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Splat(Rc<Ty>, Rc<Cst>),
    Gep(Ty, Vec<(Ty, Cst)>),
    Cast(String, Ty, Rc<Cst>, Ty),
    Bin(String, Ty, Rc<Cst>, Rc<Cst>),
    Local(u32),
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub ty: Ty,
    pub v: Cst,
    pub byval: Option<Ty>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Val(Cst),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: String, ty: Ty, a: Cst, b: Cst },
    FNeg { ty: Ty, a: Cst },
    Icmp { pred: String, ty: Ty, a: Cst, b: Cst },
    Fcmp { pred: String, ty: Ty, a: Cst, b: Cst },
    Load { ty: Ty, p: Cst },
    Store { ty: Ty, v: Cst, p: Cst },
    Gep { base: Ty, ops: Vec<(Ty, Cst)> },
    Cast { op: String, from: Ty, v: Cst, to: Ty },
    Select { cty: Ty, c: Cst, ty: Ty, a: Cst, b: Cst },
    Phi { ty: Ty, inc: Vec<(Cst, u32)> },
    Call { ret: Ty, callee: Callee, args: Vec<Arg>, normal: Option<u32> },
    ExtractValue { ty: Ty, v: Cst, idx: Vec<u32> },
    InsertValue { ty: Ty, v: Cst, ety: Ty, e: Cst, idx: Vec<u32> },
    ExtractElt { ty: Ty, v: Cst, i: Cst },
    InsertElt { ty: Ty, v: Cst, e: Cst, i: Cst },
    Shuffle { ty: Ty, a: Cst, b: Cst, mask: Vec<i32> },
    Alloca { ty: Ty, n: Cst, align: u64 },
    Br(u32),
    CondBr { c: Cst, t: u32, f: u32 },
    Switch { ty: Ty, v: Cst, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Cst)>),
    Unreachable,
    AtomicRmw { op: String, p: Cst, ty: Ty, v: Cst },
    CmpXchg { p: Cst, ty: Ty, cmp: Cst, new: Cst },
    Nop,
    Freeze { ty: Ty, v: Cst },
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub dst: Option<u32>,
    pub i: I,
}

#[derive(Debug)]
pub struct RawFunc {
    pub name: String,
    pub params: Vec<(u32, Ty, Option<Ty>)>,
    pub ret: Ty,
    pub nregs: u32,
    pub entry: u32,
    pub blocks: Vec<Vec<Ins>>,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
}

pub struct Module {
    text: &'static [u8],
    pub funcs: FxMap<String, (usize, usize, String)>,
    pub globals: FxMap<String, (usize, usize)>,
    pub aliases: FxMap<String, String>,
    pub types: FxMap<String, Ty>,
}

fn find(h: &[u8], from: usize, n: &[u8]) -> Option<usize> {
    // simple memchr-on-newline search
    let mut i = from;
    while i + n.len() <= h.len() {
        match h[i..].iter().position(|&c| c == n[0]) {
            None => return None,
            Some(p) => {
                i += p;
                if h[i..].starts_with(n) {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}

impl Module {
    pub fn load(path: &str) -> Self {
        let data = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
        let text: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module {
            text,
            funcs: FxMap::default(),
            globals: FxMap::default(),
            aliases: FxMap::default(),
            types: FxMap::default(),
        };
        let mut i = 0;
        let mut comment = String::new();
        while i < text.len() {
            let eol = text[i..].iter().position(|&c| c == b'\n').map(|p| i + p).unwrap_or(text.len());
            let line = &text[i..eol];
            if line.starts_with(b"define ") {
                let end = find(text, eol, b"\n}\n").map(|p| p + 2).unwrap_or(text.len());
                let mut p = Ps { m: None, t: text, i, names: FxMap::default(), nr: 0 };
                let name = p.find_global_name(eol);
                m.funcs.insert(name, (i, end, std::mem::take(&mut comment)));
                i = end;
                continue;
            } else if line.starts_with(b"@") {
                let mut p = Ps { m: None, t: text, i, names: FxMap::default(), nr: 0 };
                let name = p.global_name();
                m.globals.insert(name, (i, eol));
                comment.clear();
            } else if line.starts_with(b"%") {
                // named type
                let mut p = Ps { m: None, t: text, i: i + 1, names: FxMap::default(), nr: 0 };
                let name = p.name();
                p.expect(b"=");
                p.word_is("type");
                let t = p.ty();
                m.types.insert(name, t);
            } else if line.starts_with(b"; ") {
                if !line.starts_with(b"; Function Attrs") {
                    comment = String::from_utf8_lossy(&line[2..]).into_owned();
                }
            } else if line.is_empty() {
                comment.clear();
            }
            i = eol + 1;
        }
        m
    }
    pub fn global(&self, name: &str) -> Option<GlobalDef> {
        let &(i, _e) = self.globals.get(name)?;
        let mut p = Ps { m: Some(self), t: self.text, i, names: FxMap::default(), nr: 0 };
        p.global_name();
        p.expect(b"=");
        let mut external = false;
        loop {
            p.ws();
            let w = p.word();
            match w.as_str() {
                "constant" | "global" => break,
                "alias" => {
                    // alias <ty>, ptr @x
                    let _ = p.ty();
                    p.expect(b",");
                    let _ = p.ty();
                    let c = p.cst(&Ty::Ptr);
                    return Some(GlobalDef { ty: Ty::Other, init: Some(c), align: 1 });
                }
                "external" | "extern_weak" => external = true,
                "" => panic!("global {name}: {}", p.ctx()),
                _ => p.opt_paren(),
            }
        }
        let ty = p.ty();
        p.ws();
        let init = if external || p.peek() == b',' || p.peek() == b'\n' { None } else { Some(p.cst(&ty)) };
        let mut align = ty.align();
        // scan ", align N"
        loop {
            p.ws();
            if p.peek() != b',' {
                break;
            }
            p.i += 1;
            p.ws();
            let w = p.word();
            if w == "align" {
                align = p.uint();
            } else {
                break;
            }
        }
        Some(GlobalDef { ty, init, align })
    }
    pub fn func(&self, name: &str) -> RawFunc {
        let (s, e, _) = &self.funcs[name];
        let mut p = Ps { m: Some(self), t: &self.text[..*e], i: *s, names: FxMap::default(), nr: 0 };
        p.function(name)
    }
}

struct Ps<'a> {
    m: Option<&'a Module>,
    t: &'a [u8],
    i: usize,
    names: FxMap<String, u32>,
    nr: u32,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl<'a> Ps<'a> {
    fn ctx(&self) -> String {
        let e = (self.i + 120).min(self.t.len());
        String::from_utf8_lossy(&self.t[self.i.min(e)..e]).into_owned()
    }
    #[inline]
    fn peek(&self) -> u8 {
        *self.t.get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn ws_nl(&mut self) {
        loop {
            while matches!(self.peek(), b' ' | b'\t' | b'\n') {
                self.i += 1;
            }
            if self.peek() == b';' {
                self.eol();
            } else {
                break;
            }
        }
    }
    fn eol(&mut self) {
        while self.i < self.t.len() && self.t[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn eat(&mut self, s: &[u8]) -> bool {
        self.ws();
        if self.t[self.i..].starts_with(s) {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, s: &[u8]) {
        if !self.eat(s) {
            panic!("IR parse: expected {:?} at: {}", String::from_utf8_lossy(s), self.ctx());
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let s = self.i;
        while idc(self.peek()) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.t[s..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        self.ws();
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn word_is(&mut self, w: &str) -> bool {
        self.ws();
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let mut v = 0u64;
        while self.peek().is_ascii_digit() {
            v = v * 10 + (self.peek() - b'0') as u64;
            self.i += 1;
        }
        v
    }
    /// name after % or @ (maybe quoted)
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            self.i += 1;
            let s = self.i;
            while self.peek() != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.t[s..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let s = self.i;
            while idc(self.peek()) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.t[s..self.i]).into_owned()
        }
    }
    fn global_name(&mut self) -> String {
        self.ws();
        assert_eq!(self.peek(), b'@', "{}", self.ctx());
        self.i += 1;
        self.name()
    }
    fn find_global_name(&mut self, eol: usize) -> String {
        while self.i < eol && self.peek() != b'@' {
            self.i += 1;
        }
        self.global_name()
    }
    fn opt_paren(&mut self) {
        self.ws();
        if self.peek() == b'(' {
            self.skip_paren();
        }
    }
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.peek() != b'"' {
                        self.i += 1;
                    }
                }
                0 => panic!("paren"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(
                    w.as_str(),
                    "ptr" | "void" | "float" | "double" | "half" | "x86_fp80" | "metadata" | "label" | "token" | "fp128"
                ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.uint();
                self.word_is("x");
                let t = self.ty();
                self.expect(b"]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if self.eat(b"}") {
                    return Ty::Struct(Rc::new(f), false);
                }
                loop {
                    f.push(self.ty());
                    if self.eat(b"}") {
                        break;
                    }
                    self.expect(b",");
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b"{") {
                    let mut f = vec![];
                    if self.eat(b"}") {
                        self.expect(b">");
                        return Ty::Struct(Rc::new(f), true);
                    }
                    loop {
                        f.push(self.ty());
                        if self.eat(b"}") {
                            break;
                        }
                        self.expect(b",");
                    }
                    self.expect(b">");
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = self.uint();
                self.word_is("x");
                let t = self.ty();
                self.expect(b">");
                Ty::Vec(n as u32, Rc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.and_then(|m| m.types.get(&n).cloned()).unwrap_or_else(|| panic!("type %{n}"))
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "ptr" => {
                        if self.word_is("addrspace") {
                            self.opt_paren();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ => {
                        let n = w[1..].parse::<u32>().unwrap_or_else(|_| panic!("type {w} at {}", self.ctx()));
                        Ty::Int(n)
                    }
                }
            }
        }
    }
    fn local(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.names.get(n) {
            return r;
        }
        let r = self.nr;
        self.nr += 1;
        self.names.insert(n.to_string(), r);
        r
    }
    fn label(&mut self) -> u32 {
        // caller is at %name ; labels share a namespace with values but get their own ids via prefix
        self.ws();
        assert_eq!(self.peek(), b'%', "{}", self.ctx());
        self.i += 1;
        let n = self.name();
        self.label_id(&n)
    }
    fn label_id(&mut self, n: &str) -> u32 {
        let k = format!("\u{1}{n}");
        if let Some(&r) = self.names.get(&k) {
            return r;
        }
        let c = self.names.entry("\u{2}".into()).or_insert(0);
        let r = *c;
        *c += 1;
        self.names.insert(k, r);
        r
    }
    fn typed(&mut self) -> (Ty, Cst) {
        let t = self.ty();
        let c = self.cst(&t);
        (t, c)
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        self.ws();
        match self.peek() {
            b'%' => {
                self.i += 1;
                let n = self.name();
                Cst::Local(self.local(&n))
            }
            b'@' => Cst::Global(self.global_name()),
            b'-' | b'0'..=b'9' => {
                let s = self.i;
                let w = self.word();
                if matches!(ty, Ty::F32 | Ty::F64) {
                    return Cst::Int(parse_float(&w, self, s, ty));
                }
                // decimal integer (possibly negative)
                let neg = w.starts_with('-');
                let d = w.trim_start_matches('-');
                let v = d.parse::<u128>().unwrap_or_else(|_| panic!("int {w} at {}", self.ctx()));
                let bits = ty.bits();
                let m = if bits >= 128 { u128::MAX } else { (1 << bits) - 1 };
                Cst::Int(if neg { v.wrapping_neg() & m } else { v & m })
            }
            b'[' => {
                self.i += 1;
                self.agg(b"]")
            }
            b'{' => {
                self.i += 1;
                self.agg(b"}")
            }
            b'<' => {
                self.i += 1;
                if self.eat(b"{") {
                    let a = self.agg(b"}");
                    self.expect(b">");
                    a
                } else {
                    self.agg(b">")
                }
            }
            b'c' if self.t.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b'"' => break,
                        b'\\' => {
                            if self.peek() == b'\\' {
                                v.push(b'\\');
                                self.i += 1;
                            } else {
                                let h = std::str::from_utf8(&self.t[self.i..self.i + 2]).unwrap();
                                v.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 2;
                            }
                        }
                        _ => v.push(c),
                    }
                }
                Cst::Bytes(v)
            }
            b'!' => {
                // metadata operand: skip until , or )
                let mut d = 0;
                loop {
                    match self.peek() {
                        b'(' | b'{' => d += 1,
                        b')' | b'}' if d > 0 => d -= 1,
                        b',' | b')' if d == 0 => break,
                        b'"' => {
                            self.i += 1;
                            while self.peek() != b'"' {
                                self.i += 1;
                            }
                        }
                        b'\n' | 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                Cst::Undef
            }
            _ => {
                let s = self.i;
                let w = self.word();
                match w.as_str() {
                    "true" => Cst::Int(1),
                    "false" => Cst::Int(0),
                    "null" => Cst::Null,
                    "zeroinitializer" | "none" => Cst::Zero,
                    "undef" | "poison" => Cst::Undef,
                    "splat" => {
                        self.expect(b"(");
                        let (t, c) = self.typed();
                        self.expect(b")");
                        Cst::Splat(Rc::new(t), Rc::new(c))
                    }
                    "getelementptr" => {
                        while !self.eat(b"(") {
                            self.word();
                            self.ws();
                            if self.peek() == b'(' && self.peek_after_paren_is_range() {
                                self.skip_paren();
                            }
                        }
                        let base = self.ty();
                        let mut ops = vec![];
                        while self.eat(b",") {
                            self.word_is("inrange");
                            ops.push(self.typed());
                        }
                        self.expect(b")");
                        Cst::Gep(base, ops)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                        while !self.eat(b"(") {
                            self.word();
                        }
                        let (f, c) = self.typed();
                        self.word_is("to");
                        let t = self.ty();
                        self.expect(b")");
                        Cst::Cast(w, f, Rc::new(c), t)
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "ashr" => {
                        while !self.eat(b"(") {
                            self.word();
                        }
                        let (t, a) = self.typed();
                        self.expect(b",");
                        let (_, b) = self.typed();
                        self.expect(b")");
                        Cst::Bin(w, t, Rc::new(a), Rc::new(b))
                    }
                    "asm" => Cst::Undef,
                    _ => {
                        self.i = s;
                        if matches!(ty, Ty::F32 | Ty::F64) {
                            let w = self.word();
                            return Cst::Int(parse_float(&w, self, s, ty));
                        }
                        panic!("const '{w}' at: {}", self.ctx())
                    }
                }
            }
        }
    }
    fn peek_after_paren_is_range(&self) -> bool {
        // inrange(-16, 32) on constant geps
        let t = &self.t[self.i + 1..];
        matches!(t.first(), Some(b'-' | b'0'..=b'9'))
    }
    fn agg(&mut self, end: &[u8]) -> Cst {
        let mut v = vec![];
        if self.eat(end) {
            return Cst::Agg(v);
        }
        loop {
            v.push(self.typed());
            if self.eat(end) {
                break;
            }
            self.expect(b",");
        }
        Cst::Agg(v)
    }
    fn skip_flags(&mut self) {
        loop {
            let s = self.i;
            let w = self.word();
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "samesign" | "fast" | "nnan" | "ninf"
                | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nusw" | "volatile" | "atomic" | "weak" => {}
                "inrange" => self.opt_paren(),
                _ => {
                    self.i = s;
                    return;
                }
            }
        }
    }
    fn function(&mut self, name: &str) -> RawFunc {
        self.word(); // define
        // skip until type
        while !self.at_type() {
            let w = self.word();
            if w.is_empty() {
                panic!("define {}", self.ctx());
            }
            self.attr_tail(&w);
        }
        let mut ret = self.ty();
        // e.g. `range(i8 ...)` handled above because not a type; but attributes after? no
        if self.peek() != b'@' {
            self.ws();
        }
        while {
            self.ws();
            self.peek() != b'@'
        } {
            // misparsed attribute type (shouldn't happen)
            ret = self.ty();
        }
        self.global_name();
        self.expect(b"(");
        let mut params = vec![];
        if !self.eat(b")") {
            loop {
                self.ws();
                if self.eat(b"...") {
                    self.expect(b")");
                    break;
                }
                let t = self.ty();
                let byval = self.param_attrs();
                self.ws();
                let n = if self.peek() == b'%' {
                    self.i += 1;
                    self.name()
                } else {
                    format!("\u{3}{}", params.len())
                };
                let r = self.local(&n);
                let unnamed = n.bytes().all(|c| c.is_ascii_digit());
                params.push((r, t, byval, unnamed));
                if self.eat(b")") {
                    break;
                }
                self.expect(b",");
            }
        }
        // to end of line
        self.eol();
        let mut blocks: Vec<Option<Vec<Ins>>> = vec![];
        let mut cur: Option<u32> = None;
        let mut entry: Option<u32> = None;
        loop {
            // start of line
            self.i += 1;
            if self.i >= self.t.len() {
                break;
            }
            let c = self.peek();
            if c == b'}' {
                break;
            }
            if c == b'\n' {
                continue;
            }
            if c == b';' {
                self.eol();
                continue;
            }
            if c != b' ' {
                // label
                let n = self.name();
                assert_eq!(self.peek(), b':', "label {}", self.ctx());
                let id = self.label_id(&n);
                if entry.is_none() {
                    entry = Some(id);
                }
                while blocks.len() <= id as usize {
                    blocks.push(None);
                }
                blocks[id as usize] = Some(vec![]);
                cur = Some(id);
                self.eol();
                continue;
            }
            self.ws();
            if self.peek() == b';' {
                self.eol();
                continue;
            }
            if self.t[self.i..].starts_with(b"#dbg_") {
                self.eol();
                continue;
            }
            let id = match cur {
                Some(i) => i,
                None => {
                    // unnamed entry block: numbered after the unnamed params
                    let n = params.iter().filter(|(_, _, _, u)| *u).count();
                    let id = self.label_id(&n.to_string());
                    entry = Some(id);
                    while blocks.len() <= id as usize {
                        blocks.push(None);
                    }
                    blocks[id as usize] = Some(vec![]);
                    cur = Some(id);
                    id
                }
            };
            let ins = self.instr();
            self.eol();
            blocks[id as usize].as_mut().unwrap().push(ins);
        }
        let blocks: Vec<Vec<Ins>> = blocks.into_iter().map(|b| b.unwrap_or_default()).collect();
        let params = params.into_iter().map(|(r, t, b, _)| (r, t, b)).collect();
        RawFunc { name: name.to_string(), params, ret, nregs: self.nr, entry: entry.unwrap(), blocks }
    }
    fn attr_tail(&mut self, w: &str) {
        self.ws();
        if self.peek() == b'(' {
            self.skip_paren();
        } else if w == "align" || w == "dereferenceable" {
            self.uint();
        } else if w.is_empty() {
            // quoted attribute or #N
            if self.peek() == b'#' {
                self.i += 1;
                self.uint();
            } else if self.peek() == b'"' {
                self.i += 1;
                while self.peek() != b'"' {
                    self.i += 1;
                }
                self.i += 1;
            }
        }
    }
    /// Skip parameter attributes; returns byval type.
    fn param_attrs(&mut self) -> Option<Ty> {
        let mut bv = None;
        loop {
            self.ws();
            let c = self.peek();
            if !c.is_ascii_lowercase() && c != b'"' {
                return bv;
            }
            let s = self.i;
            if c == b'"' {
                self.attr_tail("");
                continue;
            }
            let w = self.word();
            match w.as_str() {
                "byval" => {
                    self.expect(b"(");
                    bv = Some(self.ty());
                    self.expect(b")");
                }
                "align" => {
                    if self.eat(b"(") {
                        self.uint();
                        self.expect(b")");
                    } else {
                        self.uint();
                    }
                }
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "splat" | "none" | "c" | "trunc" | "sub" | "add" | "xor" | "mul" | "bitcast"
                | "asm" | "ptrtoaddr" => {
                    self.i = s;
                    return bv;
                }
                _ => self.opt_paren(),
            }
        }
    }
    fn instr(&mut self) -> Ins {
        let mut dst = None;
        self.ws();
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = Some(self.local(&n));
            self.expect(b"=");
        }
        let start = self.i;
        let op = self.word();
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags();
                let ty = self.ty();
                let a = self.cst(&ty);
                self.expect(b",");
                let b = self.cst(&ty);
                I::Bin { op, ty, a, b }
            }
            "fneg" => {
                self.skip_flags();
                let (ty, a) = self.typed();
                I::FNeg { ty, a }
            }
            "icmp" | "fcmp" => {
                self.skip_flags();
                let pred = self.word();
                let ty = self.ty();
                let a = self.cst(&ty);
                self.expect(b",");
                let b = self.cst(&ty);
                if op == "icmp" {
                    I::Icmp { pred, ty, a, b }
                } else {
                    I::Fcmp { pred, ty, a, b }
                }
            }
            "load" => {
                self.skip_flags();
                let ty = self.ty();
                self.expect(b",");
                let (_, p) = self.typed();
                I::Load { ty, p }
            }
            "store" => {
                self.skip_flags();
                let (ty, v) = self.typed();
                self.expect(b",");
                let (_, p) = self.typed();
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                self.skip_flags();
                let base = self.ty();
                let mut ops = vec![];
                while self.eat(b",") {
                    self.ws();
                    if self.peek() == b'!' {
                        break;
                    }
                    ops.push(self.typed());
                }
                I::Gep { base, ops }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint"
            | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_flags();
                let (from, v) = self.typed();
                assert!(self.word_is("to"));
                let to = self.ty();
                I::Cast { op, from, v, to }
            }
            "select" => {
                self.skip_flags();
                let (cty, c) = self.typed();
                self.expect(b",");
                let (ty, a) = self.typed();
                self.expect(b",");
                let (_, b) = self.typed();
                I::Select { cty, c, ty, a, b }
            }
            "phi" => {
                self.skip_flags();
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect(b"[");
                    let v = self.cst(&ty);
                    self.expect(b",");
                    let l = self.label();
                    self.expect(b"]");
                    inc.push((v, l));
                    if !self.eat(b",") {
                        break;
                    }
                    self.ws();
                    if self.peek() != b'[' {
                        break;
                    }
                }
                I::Phi { ty, inc }
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.word();
                }
                self.call(false)
            }
            "invoke" => self.call(true),
            "extractvalue" => {
                let (ty, v) = self.typed();
                let idx = self.idx_list();
                I::ExtractValue { ty, v, idx }
            }
            "insertvalue" => {
                let (ty, v) = self.typed();
                self.expect(b",");
                let (ety, e) = self.typed();
                let idx = self.idx_list();
                I::InsertValue { ty, v, ety, e, idx }
            }
            "extractelement" => {
                let (ty, v) = self.typed();
                self.expect(b",");
                let (_, i) = self.typed();
                I::ExtractElt { ty, v, i }
            }
            "insertelement" => {
                let (ty, v) = self.typed();
                self.expect(b",");
                let (_, e) = self.typed();
                self.expect(b",");
                let (_, i) = self.typed();
                I::InsertElt { ty, v, e, i }
            }
            "shufflevector" => {
                let (ty, a) = self.typed();
                self.expect(b",");
                let (_, b) = self.typed();
                self.expect(b",");
                let (mt, m) = self.typed();
                let n = match &mt {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let mask = match m {
                    Cst::Zero => vec![0; n as usize],
                    Cst::Undef => vec![-1; n as usize],
                    Cst::Splat(_, c) => vec![if let Cst::Int(k) = *c { k as i32 } else { -1 }; n as usize],
                    Cst::Agg(v) => v.iter().map(|(_, c)| if let Cst::Int(k) = c { *k as i32 } else { -1 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                I::Shuffle { ty, a, b, mask }
            }
            "alloca" => {
                let ty = self.ty();
                let mut n = Cst::Int(1);
                let mut align = ty.align();
                while self.eat(b",") {
                    self.ws();
                    if self.word_is("align") {
                        align = self.uint();
                    } else if self.peek() == b'!' {
                        break;
                    } else {
                        n = self.typed().1;
                    }
                }
                I::Alloca { ty, n, align }
            }
            "br" => {
                self.ws();
                if self.word_is("label") {
                    I::Br(self.label())
                } else {
                    let (_, c) = self.typed();
                    self.expect(b",");
                    self.word_is("label");
                    let t = self.label();
                    self.expect(b",");
                    self.word_is("label");
                    let f = self.label();
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.typed();
                self.expect(b",");
                self.word_is("label");
                let def = self.label();
                self.expect(b"[");
                let mut cases = vec![];
                loop {
                    self.ws_nl();
                    if self.eat(b"]") {
                        break;
                    }
                    let (_, c) = self.typed();
                    self.expect(b",");
                    self.word_is("label");
                    let l = self.label();
                    if let Cst::Int(k) = c {
                        cases.push((k, l));
                    }
                }
                I::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let c = self.cst(&t);
                    I::Ret(Some((t, c)))
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "freeze" => {
                let (ty, v) = self.typed();
                I::Freeze { ty, v }
            }
            "atomicrmw" => {
                self.skip_flags();
                let op = self.word();
                let (_, p) = self.typed();
                self.expect(b",");
                let (ty, v) = self.typed();
                I::AtomicRmw { op, p, ty, v }
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.typed();
                self.expect(b",");
                let (ty, cmp) = self.typed();
                self.expect(b",");
                let (_, new) = self.typed();
                I::CmpXchg { p, ty, cmp, new }
            }
            "landingpad" => {
                // continuation lines: `          cleanup` / `filter` / `catch`
                loop {
                    self.eol();
                    let s = self.i;
                    self.i += 1;
                    self.ws();
                    let w = self.peek_word();
                    if !matches!(w.as_str(), "cleanup" | "filter" | "catch") {
                        self.i = s;
                        break;
                    }
                }
                I::Bad("landingpad".into())
            }
            "resume" | "cleanupret" | "va_arg" | "indirectbr" => I::Bad(op),
            _ => {
                self.i = start;
                I::Bad(format!("instruction {}", self.ctx()))
            }
        };
        Ins { dst, i }
    }
    fn idx_list(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.eat(b",") {
            self.ws();
            if !self.peek().is_ascii_digit() {
                break;
            }
            v.push(self.uint() as u32);
        }
        v
    }
    fn call(&mut self, invoke: bool) -> I {
        // calling conv / ret attrs until a type
        while !self.at_type() {
            let w = self.word();
            if w.is_empty() && self.peek() != b'#' && self.peek() != b'"' {
                panic!("call at {}", self.ctx());
            }
            self.attr_tail(&w);
        }
        let ret = self.ty();
        self.ws();
        if self.peek() == b'(' {
            self.skip_paren(); // function type of a vararg call
        }
        self.ws();
        let callee = if self.peek() == b'@' {
            Callee::Name(self.global_name())
        } else if self.word_is("asm") {
            let mut s = String::new();
            loop {
                self.ws();
                if self.peek() == b'"' {
                    self.i += 1;
                    let b = self.i;
                    while self.peek() != b'"' {
                        self.i += 1;
                    }
                    s.push_str(&String::from_utf8_lossy(&self.t[b..self.i]));
                    s.push('|');
                    self.i += 1;
                    self.eat(b",");
                } else if self.peek() == b'(' {
                    break;
                } else {
                    let w = self.word();
                    if w.is_empty() {
                        panic!("asm {}", self.ctx());
                    }
                }
            }
            Callee::Asm(s)
        } else {
            Callee::Val(self.cst(&Ty::Ptr))
        };
        self.expect(b"(");
        let mut args = vec![];
        if !self.eat(b")") {
            loop {
                let ty = self.ty();
                if ty == Ty::Other {
                    // metadata etc.
                    self.ws();
                    if self.peek() == b'!' {
                        let v = self.cst(&ty);
                        args.push(Arg { ty, v, byval: None });
                    } else {
                        let (t2, v) = if self.at_type() { self.typed() } else { (Ty::Other, self.cst(&Ty::Other)) };
                        let _ = t2;
                        args.push(Arg { ty, v, byval: None });
                    }
                } else {
                    let byval = self.param_attrs();
                    let v = self.cst(&ty);
                    args.push(Arg { ty, v, byval });
                }
                if self.eat(b")") {
                    break;
                }
                self.expect(b",");
            }
        }
        let mut normal = None;
        if invoke {
            // attributes, newline, "to label %x unwind label %y"
            loop {
                self.ws_nl();
                let w = self.word();
                if w == "to" {
                    break;
                }
                if w.is_empty() {
                    self.i += 1;
                }
            }
            self.word_is("label");
            normal = Some(self.label());
        }
        I::Call { ret, callee, args, normal }
    }
}

fn parse_float(w: &str, p: &mut Ps, start: usize, ty: &Ty) -> u128 {
    // forms: 1.000000e+00 , 0x3FF0000000000000 , f0x...
    let mut s = w.to_string();
    // '+' is not an identifier char: re-scan
    let mut i = start;
    let t = p.t;
    let mut raw = String::new();
    while i < t.len() && (idc(t[i]) || t[i] == b'+') {
        raw.push(t[i] as char);
        i += 1;
    }
    if raw.len() > s.len() {
        s = raw;
        p.i = i;
    }
    if let Some(h) = s.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("0x") {
        let b = u64::from_str_radix(h, 16).unwrap();
        return if *ty == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 };
    }
    let v: f64 = s.parse().unwrap_or_else(|_| panic!("float {s}"));
    if *ty == Ty::F32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}
