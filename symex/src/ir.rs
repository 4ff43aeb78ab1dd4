//! Textual LLVM IR (LLVM >= 17, opaque pointers) reader.  Function bodies are decoded on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete, width <= 64, already masked
    C(u64),
    /// concrete, width in 65..=128
    W(Box<u128>),
    /// symbolic expression id
    S(u32),
    /// aggregate or vector
    A(Rc<Vec<Val>>),
    /// undef / poison
    U,
}

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Struct(Vec<Ty>, bool),
    Array(u64, Ty),
    Vector(u64, Ty),
    Label,
    Meta,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(usize),
    Ind(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, ty: Ty, d: u32, a: O, b: O },
    Icmp { p: Pred, ty: Ty, d: u32, a: O, b: O },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: O },
    Select { d: u32, cty: Ty, ty: Ty, c: O, a: O, b: O },
    Load { d: u32, ty: Ty, p: O, align: u64 },
    Store { ty: Ty, v: O, p: O, align: u64 },
    Gep { d: u32, base: O, off: u64, terms: Vec<(O, u64, u16)> },
    Alloca { d: u32, size: u64, align: u64 },
    Call { d: Option<u32>, f: Callee, args: Vec<O>, tys: Vec<Ty>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { ty: Ty, v: O, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, O)>),
    Unreachable,
    ExtractValue { d: u32, a: O, path: Vec<u32> },
    InsertValue { d: u32, ty: Ty, a: O, v: O, path: Vec<u32> },
    ExtractElement { d: u32, a: O, i: O },
    InsertElement { d: u32, ty: Ty, a: O, v: O, i: O },
    Shuffle { d: u32, ty: Ty, a: O, b: O, mask: O },
    Rmw { d: u32, op: String, ty: Ty, p: O, v: O },
    CmpXchg { d: u32, ty: Ty, p: O, cmp: O, new: O },
    Freeze { d: u32, a: O },
    Neg,
    Nop,
    Fp { op: String, from: Ty, to: Ty, d: u32, a: O, b: Option<O> },
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub d: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, O)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Body {
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: usize,
}
pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>, // byte range of the define
    pub weak: bool,
    pub body: Option<Rc<Body>>,
}
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub bytes: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub src: String,
    pub types: Vec<T>,
    tmap: HashMap<T, Ty>,
    named: HashMap<String, String>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, usize>,
    pub gaddr: HashMap<String, u64>,
    pub globals: Vec<Global>,
}

pub const FUNC_BASE: u64 = 0x1_0000_0000;
pub const GLOBAL_BASE: u64 = 0x2_0000_0000;

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<X> = Result<X, String>;

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl<'a> P<'a> {
    fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // whole-word match for alphabetic tokens
            let last = *t.as_bytes().last().unwrap();
            if is_word(last) {
                if let Some(&c) = self.s.get(self.i + t.len()) {
                    if is_word(c) {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        let e = (self.i + 100).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i.min(e)..e]).into_owned()
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    /// after '%' or '@'
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_word(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn int(&mut self) -> R<i128> {
        let w = self.word();
        w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("bad int {:?} at {:?}", w, self.rest()))
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                w == "ptr"
                    || w == "void"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "label"
                    || w == "metadata"
                    || w == "token"
                    || w == "x86_fp80"
                    || w == "fp128"
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    cur: u32,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn label(&mut self, n: &str) -> R<u32> {
        self.labels.get(n).copied().ok_or_else(|| format!("no label {}", n))
    }
}

impl Module {
    pub fn load(src: String) -> R<Module> {
        let mut m = Module {
            src: String::new(),
            types: vec![],
            tmap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            gaddr: HashMap::new(),
            globals: vec![],
        };
        // pass 1: index
        let bytes = src.as_bytes();
        let mut i = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        while i < bytes.len() {
            let e = memchr(bytes, i, b'\n');
            let line = &src[i..e];
            if line.starts_with("define ") {
                // until a line "}"
                let mut j = e + 1;
                loop {
                    let je = memchr(bytes, j, b'\n');
                    if &src[j..je] == "}" {
                        j = je;
                        break;
                    }
                    j = je + 1;
                    if j >= bytes.len() {
                        return Err("unterminated define".into());
                    }
                }
                let at = line.find('@').ok_or("define without name")?;
                let mut p = P::new(&line[at + 1..]);
                let name = p.name();
                let id = m.funcs.len();
                m.fmap.insert(name.clone(), id);
                m.funcs.push(Func { name, text: Some((i, j)), weak: false, body: None });
                i = j + 1;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').ok_or("declare without name")?;
                let mut p = P::new(&line[at + 1..]);
                let name = p.name();
                let id = m.funcs.len();
                m.fmap.insert(name.clone(), id);
                m.funcs.push(Func { name, text: None, weak: line.contains("extern_weak"), body: None });
            } else if line.starts_with('@') {
                if line.contains(" alias ") && !line.contains(" global ") && !line.contains(" constant ") {
                    let mut p = P::new(&line[1..]);
                    let name = p.name();
                    aliases.push((name, i, e));
                } else {
                    glines.push((i, e));
                }
            } else if line.starts_with('%') {
                let mut p = P::new(&line[1..]);
                let name = p.name();
                if let Some(pos) = line.find(" = type ") {
                    m.named.insert(name, line[pos + 8..].to_string());
                }
            }
            i = e + 1;
        }
        // pass 2: allocate globals
        let mut addr = GLOBAL_BASE;
        let mut inits: Vec<(usize, Ty, usize, usize)> = vec![];
        for &(s, e) in &glines {
            let line = &src[s..e];
            let mut p = P::new(line);
            p.i = 1;
            let name = p.name();
            p.expect("=")?;
            let mut constant = false;
            let mut external = false;
            loop {
                let w = p.word();
                if w == "global" {
                    break;
                }
                if w == "constant" {
                    constant = true;
                    break;
                }
                if w == "external" || w == "extern_weak" {
                    external = true;
                }
                if w.is_empty() {
                    return Err(format!("global: {}", line));
                }
                if p.peek() == b'(' {
                    p.skip_parens();
                }
            }
            let ty = m.ty(&mut p)?;
            let init_at = s + p.i;
            let (size, tal) = m.size_align(ty);
            let mut align = tal;
            if let Some(pos) = line.rfind(", align ") {
                let mut q = P::new(&line[pos + 8..]);
                if let Ok(x) = q.int() {
                    align = x as u64;
                }
            }
            addr = (addr + align - 1) / align * align;
            if addr % (2 * align) == 0 {
                addr += align;
            }
            m.gaddr.insert(name.clone(), addr);
            let gi = m.globals.len();
            m.globals.push(Global { name, addr, size, align, bytes: vec![0; size as usize], constant });
            if !external {
                inits.push((gi, ty, init_at, e));
            }
            addr += size + 64;
        }
        for (name, s, e) in aliases {
            let line = &src[s..e];
            let pos = line.find(" alias ").unwrap();
            let t = &line[pos..];
            if let Some(at) = t.rfind('@') {
                let mut p = P::new(&t[at + 1..]);
                let target = p.name();
                if let Some(&f) = m.fmap.get(&target) {
                    m.fmap.insert(name, f);
                } else if let Some(&a) = m.gaddr.get(&target) {
                    m.gaddr.insert(name, a);
                }
            }
        }
        for (gi, ty, s, e) in inits {
            let line = &src[s..e];
            let mut p = P::new(line);
            let v = m.constant(&mut p, ty, None).map_err(|x| format!("{} in global {}", x, m.globals[gi].name))?;
            let mut buf = std::mem::take(&mut m.globals[gi].bytes);
            m.write_const(&v, ty, &mut buf, 0)?;
            m.globals[gi].bytes = buf;
        }
        m.src = src;
        Ok(m)
    }

    pub fn t(&self, t: Ty) -> &T {
        &self.types[t as usize]
    }
    pub fn intern(&mut self, t: T) -> Ty {
        if let Some(&x) = self.tmap.get(&t) {
            return x;
        }
        let id = self.types.len() as Ty;
        self.types.push(t.clone());
        self.tmap.insert(t, id);
        id
    }
    fn ty(&mut self, p: &mut P) -> R<Ty> {
        let t = match p.peek() {
            b'{' => {
                p.i += 1;
                let mut v = vec![];
                while p.peek() != b'}' {
                    v.push(self.ty(p)?);
                    p.eat(",");
                }
                p.i += 1;
                T::Struct(v, false)
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let mut v = vec![];
                    while p.peek() != b'}' {
                        v.push(self.ty(p)?);
                        p.eat(",");
                    }
                    p.i += 1;
                    p.expect(">")?;
                    T::Struct(v, true)
                } else {
                    let n = p.int()? as u64;
                    p.expect("x")?;
                    let e = self.ty(p)?;
                    p.expect(">")?;
                    T::Vector(n, e)
                }
            }
            b'[' => {
                p.i += 1;
                let n = p.int()? as u64;
                p.expect("x")?;
                let e = self.ty(p)?;
                p.expect("]")?;
                T::Array(n, e)
            }
            b'%' => {
                p.i += 1;
                let n = p.name();
                let d = self.named.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n))?;
                let mut q = P::new(&d);
                return self.ty(&mut q);
            }
            _ => {
                let w = p.word();
                match w.as_str() {
                    "ptr" => {
                        if p.eat("addrspace") {
                            p.ws();
                            p.skip_parens();
                        }
                        T::Ptr
                    }
                    "void" => T::Void,
                    "float" => T::Float(32),
                    "double" => T::Float(64),
                    "half" => T::Float(16),
                    "x86_fp80" => T::Float(80),
                    "fp128" => T::Float(128),
                    "label" => T::Label,
                    "metadata" | "token" => T::Meta,
                    _ if w.starts_with('i') => T::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?),
                    _ => return Err(format!("bad type {:?} at {:?}", w, p.rest())),
                }
            }
        };
        Ok(self.intern(t))
    }
    pub fn size_align(&self, t: Ty) -> (u64, u64) {
        match self.t(t) {
            T::Void | T::Label | T::Meta => (0, 1),
            T::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let s = b.next_power_of_two();
                if *w > 64 {
                    ((b + 15) / 16 * 16, 16)
                } else {
                    (s, s)
                }
            }
            T::Ptr => (8, 8),
            T::Float(w) => {
                let s = (*w as u64 / 8).next_power_of_two();
                (s, s)
            }
            T::Struct(v, packed) => {
                let mut off = 0;
                let mut al = 1;
                for &e in v {
                    let (s, a) = self.size_align(e);
                    if !packed {
                        off = (off + a - 1) / a * a;
                        al = al.max(a);
                    }
                    off += s;
                }
                ((off + al - 1) / al * al, al)
            }
            T::Array(n, e) => {
                let (s, a) = self.size_align(*e);
                (s * n, a)
            }
            T::Vector(n, e) => {
                let bits = self.bitw(*e) as u64 * n;
                let s = ((bits + 7) / 8).next_power_of_two();
                (s, s)
            }
        }
    }
    pub fn field_off(&self, t: Ty, idx: usize) -> (u64, Ty) {
        match self.t(t) {
            T::Struct(v, packed) => {
                let mut off = 0;
                for (i, &e) in v.iter().enumerate() {
                    let (s, a) = self.size_align(e);
                    if !packed {
                        off = (off + a - 1) / a * a;
                    }
                    if i == idx {
                        return (off, e);
                    }
                    off += s;
                }
                panic!("field")
            }
            T::Array(_, e) | T::Vector(_, e) => (self.size_align(*e).0 * idx as u64, *e),
            _ => panic!("field_off"),
        }
    }
    pub fn bitw(&self, t: Ty) -> u16 {
        match self.t(t) {
            T::Int(w) | T::Float(w) => *w,
            T::Ptr => 64,
            _ => 0,
        }
    }
    fn write_const(&self, v: &Val, t: Ty, buf: &mut [u8], off: usize) -> R<()> {
        match self.t(t) {
            T::Int(_) | T::Ptr | T::Float(_) => {
                let (sz, _) = self.size_align(t);
                let x = match v {
                    Val::C(x) => *x as u128,
                    Val::W(x) => **x,
                    Val::U => 0,
                    _ => return Err("write_const".into()),
                };
                for i in 0..sz as usize {
                    buf[off + i] = (x >> (8 * i)) as u8;
                }
            }
            T::Struct(es, _) => {
                if let Val::A(vs) = v {
                    for i in 0..es.len() {
                        let (o, e) = self.field_off(t, i);
                        self.write_const(&vs[i], e, buf, off + o as usize)?;
                    }
                }
            }
            T::Array(_, e) | T::Vector(_, e) => {
                if let Val::A(vs) = v {
                    let s = self.size_align(*e).0 as usize;
                    for (i, x) in vs.iter().enumerate() {
                        self.write_const(x, *e, buf, off + i * s)?;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn zero(&self, t: Ty) -> Val {
        match self.t(t) {
            T::Int(w) | T::Float(w) if *w > 64 => Val::W(Box::new(0)),
            T::Struct(v, _) => Val::A(Rc::new(v.iter().map(|&e| self.zero(e)).collect())),
            T::Array(n, e) | T::Vector(n, e) => Val::A(Rc::new(vec![self.zero(*e); *n as usize])),
            _ => Val::C(0),
        }
    }
    fn mkint(w: u16, v: i128) -> Val {
        if w > 64 {
            Val::W(Box::new(v as u128 & crate::expr::mask(w)))
        } else {
            Val::C((v as u128 & crate::expr::mask(w)) as u64)
        }
    }
    fn global_ref(&self, n: &str) -> R<Val> {
        if let Some(&a) = self.gaddr.get(n) {
            return Ok(Val::C(a));
        }
        if let Some(&f) = self.fmap.get(n) {
            if self.funcs[f].weak {
                return Ok(Val::C(0));
            }
            return Ok(Val::C(FUNC_BASE + 16 * f as u64));
        }
        Err(format!("unknown global @{}", n))
    }
    /// constant of a known type; with `fx` also registers
    fn constant(&mut self, p: &mut P, ty: Ty, _fx: Option<()>) -> R<Val> {
        match p.peek() {
            b'@' => {
                p.i += 1;
                let n = p.name();
                return self.global_ref(&n);
            }
            b'{' | b'[' => {
                let close = if p.peek() == b'{' { "}" } else { "]" };
                p.i += 1;
                let mut v = vec![];
                while !p.eat(close) {
                    let t = self.ty(p)?;
                    v.push(self.constant(p, t, None)?);
                    p.eat(",");
                }
                return Ok(Val::A(Rc::new(v)));
            }
            b'<' => {
                p.i += 1;
                let packed = p.peek() == b'{';
                if packed {
                    p.i += 1;
                }
                let mut v = vec![];
                while !p.eat(if packed { "}" } else { ">" }) {
                    let t = self.ty(p)?;
                    v.push(self.constant(p, t, None)?);
                    p.eat(",");
                }
                if packed {
                    p.expect(">")?;
                }
                return Ok(Val::A(Rc::new(v)));
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        if p.s[p.i + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u64));
                            p.i += 2;
                            continue;
                        }
                        v.push(Val::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                        p.i += 3;
                    } else {
                        v.push(Val::C(p.s[p.i] as u64));
                        p.i += 1;
                    }
                }
                p.i += 1;
                return Ok(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        let w = p.word();
        match w.as_str() {
            "null" | "false" => return Ok(Val::C(0)),
            "true" => return Ok(Val::C(1)),
            "undef" | "poison" => return Ok(Val::U),
            "zeroinitializer" => return Ok(self.zero(ty)),
            "splat" => {
                p.expect("(")?;
                let t = self.ty(p)?;
                let v = self.constant(p, t, None)?;
                p.expect(")")?;
                if let T::Vector(n, _) = self.t(ty) {
                    return Ok(Val::A(Rc::new(vec![v; *n as usize])));
                }
                return Err("splat".into());
            }
            "getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.peek() == b'(' && !self.gep_paren(p) {
                        p.skip_parens();
                    }
                }
                p.expect("(")?;
                let st = self.ty(p)?;
                p.expect(",")?;
                let pt = self.ty(p)?;
                let base = self.constant(p, pt, None)?;
                let mut addr = match base {
                    Val::C(x) => x,
                    _ => return Err("const gep base".into()),
                };
                let mut cur = st;
                let mut first = true;
                while p.eat(",") {
                    let it = self.ty(p)?;
                    let w = self.bitw(it);
                    let idx = match self.constant(p, it, None)? {
                        Val::C(x) => crate::expr::sext(x as u128, w) as i64,
                        _ => return Err("const gep index".into()),
                    };
                    if first {
                        addr = addr.wrapping_add((idx as u64).wrapping_mul(self.size_align(cur).0));
                        first = false;
                    } else {
                        match self.t(cur).clone() {
                            T::Struct(..) => {
                                let (o, e) = self.field_off(cur, idx as usize);
                                addr = addr.wrapping_add(o);
                                cur = e;
                            }
                            T::Array(_, e) | T::Vector(_, e) => {
                                addr = addr.wrapping_add((idx as u64).wrapping_mul(self.size_align(e).0));
                                cur = e;
                            }
                            _ => return Err("const gep type".into()),
                        }
                    }
                }
                p.expect(")")?;
                return Ok(Val::C(addr));
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                p.expect("(")?;
                let t = self.ty(p)?;
                let v = self.constant(p, t, None)?;
                p.expect("to")?;
                let to = self.ty(p)?;
                p.expect(")")?;
                if let Val::C(x) = v {
                    return Ok(Self::mkint(self.bitw(to), x as i128));
                }
                return Ok(v);
            }
            "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect("(")?;
                let t = self.ty(p)?;
                let a = self.constant(p, t, None)?;
                p.expect(",")?;
                let t2 = self.ty(p)?;
                let b = self.constant(p, t2, None)?;
                p.expect(")")?;
                if let (Val::C(a), Val::C(b)) = (a, b) {
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        _ => a.wrapping_mul(b),
                    };
                    return Ok(Self::mkint(self.bitw(t), r as i128));
                }
                return Err("const expr operands".into());
            }
            _ => {}
        }
        // number
        match self.t(ty) {
            T::Float(fw) => {
                let fw = *fw;
                // decimal exponent forms contain '+' which `word` does not consume
                let mut s = w.clone();
                while p.i < p.s.len() && (p.s[p.i] == b'+' || is_word(p.s[p.i])) {
                    s.push(p.s[p.i] as char);
                    p.i += 1;
                }
                let bits64 = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h.trim_start_matches(|c: char| c == 'K' || c == 'L' || c == 'H'), 16).map_err(|e| e.to_string())?
                } else {
                    s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()
                };
                if fw == 32 {
                    Ok(Val::C((f64::from_bits(bits64) as f32).to_bits() as u64))
                } else {
                    Ok(Val::C(bits64))
                }
            }
            _ => {
                let v: i128 = w
                    .parse::<i128>()
                    .or_else(|_| w.parse::<u128>().map(|x| x as i128))
                    .map_err(|_| format!("bad constant {:?} at {:?}", w, p.rest()))?;
                Ok(Self::mkint(self.bitw(ty), v))
            }
        }
    }
    fn gep_paren(&mut self, p: &mut P) -> bool {
        // is this '(' the operand list (type follows) or an attribute group like inrange(-8, 16)?
        let save = p.i;
        p.i += 1;
        let r = p.at_type();
        p.i = save;
        r
    }

    fn operand(&mut self, p: &mut P, ty: Ty, fx: &mut FnCtx) -> R<O> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(O::R(fx.reg(n)));
        }
        Ok(O::C(self.constant(p, ty, None)?))
    }
    fn typed(&mut self, p: &mut P, fx: &mut FnCtx) -> R<(Ty, O)> {
        let t = self.ty(p)?;
        let o = self.operand(p, t, fx)?;
        Ok((t, o))
    }
    fn label(&mut self, p: &mut P, fx: &mut FnCtx) -> R<u32> {
        p.expect("label")?;
        p.expect("%")?;
        let n = p.name();
        fx.label(&n)
    }

    pub fn body(&mut self, f: usize) -> R<Rc<Body>> {
        if let Some(b) = &self.funcs[f].body {
            return Ok(b.clone());
        }
        let (s, e) = self.funcs[f].text.ok_or_else(|| format!("no body: {}", self.funcs[f].name))?;
        let src = std::mem::take(&mut self.src);
        let r = self.decode(&src[s..e]);
        self.src = src;
        let b = Rc::new(r.map_err(|x| format!("{} in {}", x, self.funcs[f].name))?);
        self.funcs[f].body = Some(b.clone());
        Ok(b)
    }

    fn decode(&mut self, text: &str) -> R<Body> {
        // join continuation lines
        let mut lines: Vec<String> = vec![];
        for (n, l) in text.lines().enumerate() {
            if n == 0 {
                lines.push(l.to_string());
                continue;
            }
            let l = strip_comment(l);
            if l.trim().is_empty() {
                continue;
            }
            if l.starts_with("    ") || l.starts_with("  ]") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(l.trim());
            } else {
                lines.push(l.to_string());
            }
        }
        let mut fx = FnCtx { regs: HashMap::new(), labels: HashMap::new(), cur: 0 };
        // header
        let head = lines.remove(0);
        let at = head.find('@').unwrap();
        let mut p = P::new(&head);
        p.i = at + 1;
        p.name();
        p.expect("(")?;
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(")") {
            if p.eat("...") {
                continue;
            }
            self.ty(&mut p)?;
            // attributes
            loop {
                match p.peek() {
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        params.push(fx.reg(n));
                        break;
                    }
                    b',' | b')' => {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        params.push(fx.reg(n));
                        break;
                    }
                    b'(' => p.skip_parens(),
                    b'"' => {
                        p.name();
                    }
                    _ => {
                        let w = p.word();
                        if w.is_empty() {
                            return Err(format!("param attrs {:?}", p.rest()));
                        }
                    }
                }
            }
            p.eat(",");
        }
        // labels
        let mut nb = 0u32;
        let first_is_label = lines.first().map(|l| !l.starts_with(' ')).unwrap_or(false);
        if !first_is_label {
            // implicit entry block, numbered after the unnamed parameters
            fx.labels.insert(format!("{}", unnamed), 0);
            nb = 1;
        }
        for l in &lines {
            if !l.starts_with(' ') {
                let name = l.trim_end().trim_end_matches(':').trim_matches('"').to_string();
                fx.labels.insert(name, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
        let mut cur: i64 = if first_is_label { -1 } else { 0 };
        for l in &lines {
            if !l.starts_with(' ') {
                cur += 1;
                continue;
            }
            fx.cur = cur as u32;
            let mut p = P::new(l);
            let mut d: Option<u32> = None;
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                p.expect("=")?;
                d = Some(fx.reg(n));
            }
            let save = p.i;
            let op = p.word();
            if op == "phi" {
                // fast-math flags not expected
                let ty = self.ty(&mut p)?;
                let mut inc = vec![];
                loop {
                    p.expect("[")?;
                    let v = self.operand(&mut p, ty, &mut fx)?;
                    p.expect(",")?;
                    p.expect("%")?;
                    let n = p.name();
                    let b = fx.label(&n)?;
                    p.expect("]")?;
                    inc.push((b, v));
                    // stop at metadata
                    if p.peek() == b',' {
                        let sv = p.i;
                        p.i += 1;
                        if p.peek() == b'[' {
                            continue;
                        }
                        p.i = sv;
                    }
                    break;
                }
                blocks[cur as usize].phis.push(Phi { d: d.unwrap(), ty, inc });
                continue;
            }
            p.i = save;
            let ins = match self.instr(&mut p, d, &mut fx) {
                Ok(i) => i,
                Err(e) => I::Unsupported(format!("{} [{}]", l.trim(), e)),
            };
            blocks[cur as usize].ins.push(ins);
        }
        Ok(Body { params, blocks, nregs: fx.regs.len() })
    }

    fn instr(&mut self, p: &mut P, d: Option<u32>, fx: &mut FnCtx) -> R<I> {
        let mut op = p.word();
        while op == "tail" || op == "musttail" || op == "notail" {
            op = p.word();
        }
        let dd = d.unwrap_or(u32::MAX);
        let bin = |s: &str| {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            while !p.at_type() {
                p.word();
            }
            let ty = self.ty(p)?;
            let a = self.operand(p, ty, fx)?;
            p.expect(",")?;
            let c = self.operand(p, ty, fx)?;
            return Ok(I::Bin { op: b, ty, d: dd, a, b: c });
        }
        match op.as_str() {
            "icmp" => {
                let mut pr = p.word();
                if pr == "samesign" {
                    pr = p.word();
                }
                let pred = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("pred {}", pr)),
                };
                let ty = self.ty(p)?;
                let a = self.operand(p, ty, fx)?;
                p.expect(",")?;
                let b = self.operand(p, ty, fx)?;
                Ok(I::Icmp { p: pred, ty, d: dd, a, b })
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while !p.at_type() {
                    p.word();
                }
                let (from, a) = self.typed(p, fx)?;
                p.expect("to")?;
                let to = self.ty(p)?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "bitcast" => Cast::Bitcast,
                    _ => Cast::PtrInt,
                };
                Ok(I::Cast { k, from, to, d: dd, a })
            }
            "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" => {
                while !p.at_type() {
                    p.word();
                }
                let (from, a) = self.typed(p, fx)?;
                p.expect("to")?;
                let to = self.ty(p)?;
                Ok(I::Fp { op: op.clone(), from, to, d: dd, a, b: None })
            }
            "fneg" => {
                while !p.at_type() {
                    p.word();
                }
                let (from, a) = self.typed(p, fx)?;
                Ok(I::Fp { op: op.clone(), from, to: from, d: dd, a, b: None })
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" => {
                let mut pred = String::new();
                while !p.at_type() {
                    pred = p.word();
                }
                let ty = self.ty(p)?;
                let a = self.operand(p, ty, fx)?;
                p.expect(",")?;
                let b = self.operand(p, ty, fx)?;
                Ok(I::Fp { op: if op == "fcmp" { pred } else { op.clone() }, from: ty, to: ty, d: dd, a, b: Some(b) })
            }
            "select" => {
                while !p.at_type() {
                    p.word();
                }
                let (cty, c) = self.typed(p, fx)?;
                p.expect(",")?;
                let (ty, a) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, b) = self.typed(p, fx)?;
                Ok(I::Select { d: dd, cty, ty, c, a, b })
            }
            "load" => {
                p.eat("atomic");
                p.eat("volatile");
                let ty = self.ty(p)?;
                p.expect(",")?;
                let (_, ptr) = self.typed(p, fx)?;
                let align = self.align_suffix(p);
                Ok(I::Load { d: dd, ty, p: ptr, align })
            }
            "store" => {
                p.eat("atomic");
                p.eat("volatile");
                let (ty, v) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, ptr) = self.typed(p, fx)?;
                let align = self.align_suffix(p);
                Ok(I::Store { ty, v, p: ptr, align })
            }
            "getelementptr" => {
                while !p.at_type() {
                    p.word();
                    if p.peek() == b'(' {
                        p.skip_parens();
                    }
                }
                let st = self.ty(p)?;
                p.expect(",")?;
                let (bt, base) = self.typed(p, fx)?;
                if let T::Vector(..) = self.t(bt) {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = st;
                let mut first = true;
                while p.peek() == b',' {
                    let sv = p.i;
                    p.i += 1;
                    if !p.at_type() {
                        p.i = sv;
                        break;
                    }
                    let (it, idx) = self.typed(p, fx)?;
                    let w = self.bitw(it);
                    let elem = if first {
                        first = false;
                        cur
                    } else {
                        match self.t(cur).clone() {
                            T::Struct(..) => {
                                let i = match idx {
                                    O::C(Val::C(x)) => x,
                                    _ => return Err("gep struct index".into()),
                                };
                                let (o, e) = self.field_off(cur, i as usize);
                                off = off.wrapping_add(o);
                                cur = e;
                                continue;
                            }
                            T::Array(_, e) | T::Vector(_, e) => {
                                cur = e;
                                e
                            }
                            _ => return Err("gep type".into()),
                        }
                    };
                    let sz = self.size_align(elem).0;
                    match idx {
                        O::C(Val::C(x)) => {
                            let x = crate::expr::sext(x as u128, w) as i64 as u64;
                            off = off.wrapping_add(x.wrapping_mul(sz));
                        }
                        o => terms.push((o, sz, w)),
                    }
                }
                Ok(I::Gep { d: dd, base, off, terms })
            }
            "alloca" => {
                let ty = self.ty(p)?;
                let (mut size, mut align) = self.size_align(ty);
                if p.eat(",") {
                    if p.at_type() {
                        let (_, n) = self.typed(p, fx)?;
                        match n {
                            O::C(Val::C(x)) => size *= x,
                            _ => return Err("dynamic alloca".into()),
                        }
                        p.eat(",");
                    }
                    if p.eat("align") {
                        align = p.int()? as u64;
                    }
                }
                Ok(I::Alloca { d: dd, size, align })
            }
            "call" | "invoke" => {
                // skip calling convention / return attributes until a type
                loop {
                    if p.at_type() {
                        break;
                    }
                    if p.peek() == b'(' {
                        p.skip_parens();
                        continue;
                    }
                    let w = p.word();
                    if w.is_empty() {
                        return Err(format!("call attrs {:?}", p.rest()));
                    }
                }
                let ret = self.ty(p)?;
                if p.peek() == b'(' {
                    p.skip_parens();
                }
                let callee = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        let n = p.name();
                        let f = *self.fmap.get(&n).ok_or_else(|| format!("unknown function {}", n))?;
                        Callee::F(f)
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        Callee::Ind(O::R(fx.reg(n)))
                    }
                    _ => {
                        if p.peek_word() == "asm" {
                            // compiler barriers (empty asm) only
                            let r = p.rest();
                            if r.contains("\"\",") || r.contains("\"\" ,") || r.starts_with("asm sideeffect \"\"") || r.contains(" \"\", ") {
                                return Ok(I::Nop);
                            }
                            return Err("inline asm".into());
                        }
                        let pt = self.intern(T::Ptr);
                        let v = self.constant(p, pt, None)?;
                        Callee::Ind(O::C(v))
                    }
                };
                p.expect("(")?;
                let mut args = vec![];
                let mut tys = vec![];
                while !p.eat(")") {
                    let t = self.ty(p)?;
                    if matches!(self.t(t), T::Meta) {
                        // metadata argument: skip to , or )
                        let mut depth = 0;
                        loop {
                            match p.peek() {
                                b'(' => depth += 1,
                                b')' if depth == 0 => break,
                                b')' => depth -= 1,
                                b',' if depth == 0 => break,
                                0 => return Err("metadata arg".into()),
                                _ => {}
                            }
                            p.i += 1;
                        }
                        p.eat(",");
                        continue;
                    }
                    // attributes before the value
                    loop {
                        match p.peek() {
                            b'%' | b'@' | b'{' | b'[' | b'<' => break,
                            b'(' => {
                                p.skip_parens();
                                continue;
                            }
                            b'"' => {
                                p.name();
                                continue;
                            }
                            _ => {}
                        }
                        let w = p.peek_word();
                        let c = w.as_bytes().first().copied().unwrap_or(0);
                        if c.is_ascii_digit()
                            || c == b'-'
                            || matches!(
                                w.as_str(),
                                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "trunc"
                            )
                            || (c == b'c' && p.s.get(p.i + 1) == Some(&b'"'))
                        {
                            break;
                        }
                        p.word();
                        if w == "align" && p.peek() != b'(' {
                            p.int()?;
                        }
                        if w.is_empty() {
                            return Err(format!("arg attrs {:?}", p.rest()));
                        }
                    }
                    let v = self.operand(p, t, fx)?;
                    args.push(v);
                    tys.push(t);
                    p.eat(",");
                }
                let mut normal = None;
                if op == "invoke" {
                    let l = p.s;
                    let txt = String::from_utf8_lossy(&l[p.i..]).into_owned();
                    let pos = txt.find("to label ").ok_or("invoke dest")?;
                    let mut q = P::new(&txt[pos + 3..]);
                    normal = Some(self.label(&mut q, fx)?);
                }
                Ok(I::Call { d, f: callee, args, tys, ret, normal })
            }
            "br" => {
                if p.peek_word() == "label" {
                    return Ok(I::Br(self.label(p, fx)?));
                }
                let (_, c) = self.typed(p, fx)?;
                p.expect(",")?;
                let t = self.label(p, fx)?;
                p.expect(",")?;
                let f = self.label(p, fx)?;
                Ok(I::CondBr { c, t, f })
            }
            "switch" => {
                let (ty, v) = self.typed(p, fx)?;
                p.expect(",")?;
                let def = self.label(p, fx)?;
                p.expect("[")?;
                let mut cases = vec![];
                while !p.eat("]") {
                    let t = self.ty(p)?;
                    let k = match self.constant(p, t, None)? {
                        Val::C(x) => x as u128,
                        Val::W(x) => *x,
                        _ => return Err("case".into()),
                    };
                    p.expect(",")?;
                    cases.push((k, self.label(p, fx)?));
                }
                Ok(I::Switch { ty, v, def, cases })
            }
            "ret" => {
                let t = self.ty(p)?;
                if matches!(self.t(t), T::Void) {
                    return Ok(I::Ret(None));
                }
                let v = self.operand(p, t, fx)?;
                Ok(I::Ret(Some((t, v))))
            }
            "unreachable" => Ok(I::Unreachable),
            "extractvalue" => {
                let (_, a) = self.typed(p, fx)?;
                let mut path = vec![];
                while p.peek() == b',' {
                    let sv = p.i;
                    p.i += 1;
                    if !p.peek().is_ascii_digit() {
                        p.i = sv;
                        break;
                    }
                    path.push(p.int()? as u32);
                }
                Ok(I::ExtractValue { d: dd, a, path })
            }
            "insertvalue" => {
                let (ty, a) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, v) = self.typed(p, fx)?;
                let mut path = vec![];
                while p.peek() == b',' {
                    let sv = p.i;
                    p.i += 1;
                    if !p.peek().is_ascii_digit() {
                        p.i = sv;
                        break;
                    }
                    path.push(p.int()? as u32);
                }
                Ok(I::InsertValue { d: dd, ty, a, v, path })
            }
            "extractelement" => {
                let (_, a) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, i) = self.typed(p, fx)?;
                Ok(I::ExtractElement { d: dd, a, i })
            }
            "insertelement" => {
                let (ty, a) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, v) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, i) = self.typed(p, fx)?;
                Ok(I::InsertElement { d: dd, ty, a, v, i })
            }
            "shufflevector" => {
                let (ty, a) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, b) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, mask) = self.typed(p, fx)?;
                Ok(I::Shuffle { d: dd, ty, a, b, mask })
            }
            "atomicrmw" => {
                p.eat("volatile");
                let o = p.word();
                let (_, ptr) = self.typed(p, fx)?;
                p.expect(",")?;
                let (ty, v) = self.typed(p, fx)?;
                Ok(I::Rmw { d: dd, op: o, ty, p: ptr, v })
            }
            "cmpxchg" => {
                p.eat("weak");
                p.eat("volatile");
                let (_, ptr) = self.typed(p, fx)?;
                p.expect(",")?;
                let (ty, cmp) = self.typed(p, fx)?;
                p.expect(",")?;
                let (_, new) = self.typed(p, fx)?;
                Ok(I::CmpXchg { d: dd, ty, p: ptr, cmp, new })
            }
            "fence" => Ok(I::Nop),
            "freeze" => {
                let (_, a) = self.typed(p, fx)?;
                Ok(I::Freeze { d: dd, a })
            }
            _ => Err(format!("opcode {}", op)),
        }
    }
    fn align_suffix(&mut self, p: &mut P) -> u64 {
        let s = String::from_utf8_lossy(&p.s[p.i..]).into_owned();
        if let Some(pos) = s.find(", align ") {
            let mut q = P::new(&s[pos + 8..]);
            if let Ok(x) = q.int() {
                return x as u64;
            }
        }
        1
    }
}

fn strip_comment(l: &str) -> &str {
    // comments start with ';' outside quotes
    let b = l.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        match b[i] {
            b'"' => q = !q,
            b';' if !q => return l[..i].trim_end(),
            _ => {}
        }
    }
    l
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    b[from..].iter().position(|&x| x == c).map(|x| from + x).unwrap_or(b.len())
}
