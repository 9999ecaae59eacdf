//! Parser for the subset of textual LLVM IR that rustc emits.
//!
//! The module text is indexed first (functions, globals, named types); bodies
//! are parsed on demand, when the executor reaches them.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => {
                let s = self.size();
                s.next_power_of_two()
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Void => 0,
            Ty::Other(s) => match s.as_str() {
                "float" => 4,
                "double" => 8,
                _ => 0,
            },
        }
    }
    /// The bytes that a load or store of this type touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field_off of scalar {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => *n as u32 * t.bits(),
            Ty::Other(s) if s == "float" => 32,
            Ty::Other(s) if s == "double" => 64,
            _ => 0,
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..))
    }
}

#[derive(Debug, Clone)]
pub enum Opnd {
    Reg(u32),
    Int(u32, u128),
    Agg(Rc<Vec<Opnd>>),
    /// metadata and such: never read
    None,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Fn(String),
    Ind(Opnd),
}

#[derive(Debug, Clone)]
pub enum Ins {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Opnd },
    Store { ty: Ty, val: Opnd, ptr: Opnd },
    Gep { dst: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u64)> },
    Bin { dst: u32, op: BinOp, ty: Ty, a: Opnd, b: Opnd },
    Icmp { dst: u32, pred: Pred, ty: Ty, a: Opnd, b: Opnd },
    Cast { dst: u32, op: CastOp, from: Ty, to: Ty, a: Opnd },
    Select { dst: u32, c: Opnd, ty: Ty, a: Opnd, b: Opnd, vec: bool },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, default: u32, cases: Vec<(u128, u32)> },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, cont: Option<u32>, noreturn: bool },
    Ret(Option<Opnd>),
    Unreachable,
    Extract { dst: u32, a: Opnd, path: Vec<u32> },
    Insert { dst: u32, aty: Ty, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElem { dst: u32, a: Opnd, i: Opnd },
    InsertElem { dst: u32, n: u64, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, mask: Vec<Option<u32>> },
    Copy { dst: u32, a: Opnd },
    Fence,
    Unsupported(String),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CastOp { Zext, Sext, Trunc, Bit }

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Opnd, u32)>)>,
    pub ins: Vec<Ins>,
    pub preds: u32,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub live_in: Vec<Vec<u32>>, // sorted regs live at block start (after phis)
    pub rpo: Vec<u32>,
    pub loops: Vec<Vec<u32>>, // block -> headers of enclosing loops, outermost first
    pub live_after: std::cell::RefCell<HashMap<(u32, u32), Rc<Vec<u32>>>>,
    pub live_out: Vec<Vec<u32>>,
}

#[derive(Clone, Debug)]
pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // text range of initializer
    pub constant: bool,
    pub addr: u64,
    pub size: u64,
}

pub struct Module {
    pub text: String,
    pub fn_text: HashMap<String, (usize, usize)>, // body range (from 'define' line start to '}')
    pub decls: HashMap<String, usize>,
    pub glob_line: HashMap<String, (usize, usize)>,
    pub types: HashMap<String, (usize, usize)>,
    pub attrs_noreturn: std::collections::HashSet<String>,
    pub globals: HashMap<String, GlobalDef>,
    pub glob_by_addr: std::collections::BTreeMap<u64, String>,
    pub next_glob: u64,
    pub fn_addr: HashMap<String, u64>,
    pub addr_fn: HashMap<u64, String>,
    pub funcs: HashMap<String, Rc<Func>>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000_0000;

// ---------------------------------------------------------------- tokenizer

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Attr(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Num(String),
    P(char),
    Eof,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn isw(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' | b'!' | b'#' => {
                let k = c;
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1
                    }
                    let n = String::from_utf8_lossy(&unescape(&b[st..i])).into_owned();
                    i += 1;
                    out.push(if k == b'%' { Tok::Local(n) } else if k == b'@' { Tok::Global(n) } else { Tok::Meta(n) });
                } else {
                    let st = i;
                    while i < b.len() && isw(b[i]) {
                        i += 1
                    }
                    let n = s[st..i].to_string();
                    out.push(match k {
                        b'%' => Tok::Local(n),
                        b'@' => Tok::Global(n),
                        b'!' => Tok::Meta(n),
                        _ => Tok::Attr(n),
                    });
                }
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1
                }
                out.push(Tok::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1
                }
                out.push(Tok::CStr(unescape(&b[st..i])));
                i += 1;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') {
                    i += 1
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isw(b[i]) {
                    i += 1
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out.push(Tok::Eof);
    out
}

struct Lx {
    t: Vec<Tok>,
    i: usize,
}
impl Lx {
    fn peek(&self) -> &Tok {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn p(&mut self, c: char) -> bool {
        if *self.peek() == Tok::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn w(&mut self, s: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if x == s {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        if self.p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c, self.peek()))
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
}

const TYPE_WORDS: &[&str] = &["ptr", "void", "float", "double", "half", "x86_fp80", "fp128", "label", "metadata", "token"];
fn is_type_word(w: &str) -> bool {
    TYPE_WORDS.contains(&w)
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn fresh(&mut self) -> u32 {
        let n = format!(" {}", self.regs.len());
        self.reg(&n)
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            fn_text: HashMap::new(),
            decls: HashMap::new(),
            glob_line: HashMap::new(),
            types: HashMap::new(),
            attrs_noreturn: Default::default(),
            globals: HashMap::new(),
            glob_by_addr: Default::default(),
            next_glob: GLOB_BASE,
            fn_addr: HashMap::new(),
            addr_fn: HashMap::new(),
            funcs: HashMap::new(),
            text: String::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = text[i..].find('\n').map(|k| i + k).unwrap_or(b.len());
            let line = &text[i..e];
            if line.starts_with("define ") {
                let name = fn_name(line);
                let end = text[e..].find("\n}\n").map(|k| e + k + 1).unwrap_or(b.len());
                m.fn_text.insert(name, (i, end));
                i = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                m.decls.insert(fn_name(line), i);
            } else if line.starts_with('@') {
                let t = if line.starts_with("@\"") {
                    let k = line[2..].find('"').unwrap();
                    line[2..2 + k].to_string()
                } else {
                    let k = line.find(' ').unwrap();
                    line[1..k].to_string()
                };
                m.glob_line.insert(t, (i, e));
            } else if line.starts_with('%') {
                if let Some(k) = line.find(" = type ") {
                    let n = line[1..k].trim_matches('"').to_string();
                    m.types.insert(n, (i + k + 8, e));
                }
            } else if line.starts_with("attributes #") {
                let k = line["attributes #".len()..].find(' ').unwrap();
                let id = line["attributes #".len().."attributes #".len() + k].to_string();
                if line.split(' ').any(|w| w == "noreturn") {
                    m.attrs_noreturn.insert(id);
                }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }

    pub fn header_noreturn(&self, name: &str) -> bool {
        let line = if let Some(&(s, _)) = self.fn_text.get(name) {
            s
        } else if let Some(&s) = self.decls.get(name) {
            s
        } else {
            return false;
        };
        let e = self.text[line..].find('\n').map(|k| line + k).unwrap();
        for t in lex(&self.text[line..e]) {
            if let Tok::Attr(a) = t {
                if self.attrs_noreturn.contains(&a) {
                    return true;
                }
            }
        }
        false
    }

    pub fn func_addr(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.fn_addr.get(name) {
            return a;
        }
        let a = FN_BASE + 16 * self.fn_addr.len() as u64;
        self.fn_addr.insert(name.to_string(), a);
        self.addr_fn.insert(a, name.to_string());
        a
    }

    pub fn sym_addr(&mut self, name: &str) -> Result<u64, String> {
        if self.fn_text.contains_key(name) || self.decls.contains_key(name) {
            return Ok(self.func_addr(name));
        }
        if let Some(g) = self.globals.get(name) {
            return Ok(g.addr);
        }
        let (s, e) = *self.glob_line.get(name).ok_or_else(|| format!("unknown symbol @{name}"))?;
        // @name = [linkage etc] (global|constant|alias) type init
        let line = self.text[s..e].to_string();
        let mut lx = Lx { t: lex(&line), i: 0 };
        lx.next();
        lx.expect('=')?;
        let mut constant = false;
        let mut external = false;
        loop {
            match lx.next() {
                Tok::Word(w) if w == "global" => break,
                Tok::Word(w) if w == "constant" => {
                    constant = true;
                    break;
                }
                Tok::Word(w) if w == "alias" => {
                    // alias <ty>, ptr @target
                    let _ = self.ty(&mut lx)?;
                    lx.expect(',')?;
                    let _ = self.ty(&mut lx)?;
                    if let Tok::Global(g) = lx.next() {
                        return self.sym_addr(&g);
                    }
                    return Err(format!("alias {name}"));
                }
                Tok::Word(w) if w == "external" || w == "extern_weak" => external = true,
                Tok::Eof => return Err(format!("global {name}")),
                _ => {}
            }
        }
        let ty = self.ty(&mut lx)?;
        let size = ty.size();
        let addr = self.next_glob;
        self.next_glob += (size + 64 + 63) / 64 * 64;
        self.globals.insert(
            name.to_string(),
            GlobalDef { ty, init: if external { None } else { Some((s, e)) }, constant, addr, size },
        );
        self.glob_by_addr.insert(addr, name.to_string());
        Ok(addr)
    }

    /// Materialise a global's initial bytes.
    pub fn global_bytes(&mut self, name: &str) -> Result<Vec<u8>, String> {
        let g = self.globals[name].clone();
        let (s, e) = g.init.ok_or_else(|| format!("external global @{name}"))?;
        let line = self.text[s..e].to_string();
        let mut lx = Lx { t: lex(&line), i: 0 };
        loop {
            match lx.next() {
                Tok::Word(w) if w == "global" || w == "constant" => break,
                Tok::Eof => return Err("global".into()),
                _ => {}
            }
        }
        let ty = self.ty(&mut lx)?;
        let mut out = vec![0u8; ty.size() as usize];
        self.init_bytes(&mut lx, &ty, &mut out)?;
        Ok(out)
    }

    fn init_bytes(&mut self, lx: &mut Lx, ty: &Ty, out: &mut [u8]) -> Result<(), String> {
        match ty {
            Ty::Arr(n, t) => {
                if let Tok::CStr(s) = lx.peek().clone() {
                    lx.next();
                    out[..s.len()].copy_from_slice(&s);
                    return Ok(());
                }
                if lx.w("zeroinitializer") || lx.w("undef") || lx.w("poison") {
                    return Ok(());
                }
                lx.expect('[')?;
                let sz = t.size() as usize;
                for i in 0..*n as usize {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let et = self.ty(lx)?;
                    self.init_bytes(lx, &et, &mut out[i * sz..(i + 1) * sz])?;
                }
                lx.expect(']')
            }
            Ty::Struct(fs, packed) => {
                if lx.w("zeroinitializer") || lx.w("undef") || lx.w("poison") {
                    return Ok(());
                }
                if *packed {
                    lx.expect('<')?;
                }
                lx.expect('{')?;
                for i in 0..fs.len() {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let et = self.ty(lx)?;
                    let (o, _) = ty.field_off(i);
                    let sz = et.size();
                    self.init_bytes(lx, &et, &mut out[o as usize..(o + sz) as usize])?;
                }
                lx.expect('}')?;
                if *packed {
                    lx.expect('>')?;
                }
                Ok(())
            }
            Ty::Vector(n, t) => {
                if lx.w("zeroinitializer") || lx.w("undef") || lx.w("poison") {
                    return Ok(());
                }
                lx.expect('<')?;
                let sz = t.size() as usize;
                for i in 0..*n as usize {
                    if i > 0 {
                        lx.expect(',')?;
                    }
                    let et = self.ty(lx)?;
                    self.init_bytes(lx, &et, &mut out[i * sz..(i + 1) * sz])?;
                }
                lx.expect('>')
            }
            _ => {
                let mut c = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
                match self.val(lx, ty, &mut c)? {
                    Opnd::Int(_, v) => {
                        let n = out.len();
                        for k in 0..n {
                            out[k] = if k < 16 { (v >> (8 * k)) as u8 } else { 0 };
                        }
                        Ok(())
                    }
                    o => Err(format!("global init {:?}", o)),
                }
            }
        }
    }

    fn ty(&mut self, lx: &mut Lx) -> Result<Ty, String> {
        match lx.next() {
            Tok::Word(w) => {
                if w == "ptr" {
                    if lx.w("addrspace") {
                        lx.skip_parens();
                    }
                    Ok(Ty::Ptr)
                } else if w == "void" {
                    Ok(Ty::Void)
                } else if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 {
                    Ok(Ty::Int(w[1..].parse().unwrap()))
                } else if is_type_word(&w) {
                    Ok(Ty::Other(w))
                } else {
                    Err(format!("type word {w}"))
                }
            }
            Tok::P('[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                    t => return Err(format!("array len {:?}", t)),
                };
                if !lx.w("x") {
                    return Err("array x".into());
                }
                let t = self.ty(lx)?;
                lx.expect(']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            Tok::P('{') => {
                let mut fs = vec![];
                if !lx.p('}') {
                    loop {
                        fs.push(self.ty(lx)?);
                        if lx.p('}') {
                            break;
                        }
                        lx.expect(',')?;
                    }
                }
                Ok(Ty::Struct(fs, false))
            }
            Tok::P('<') => {
                if *lx.peek() == Tok::P('{') {
                    let t = self.ty(lx)?;
                    lx.expect('>')?;
                    if let Ty::Struct(fs, _) = t {
                        return Ok(Ty::Struct(fs, true));
                    }
                    unreachable!()
                }
                let n = match lx.next() {
                    Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                    t => return Err(format!("vec len {:?}", t)),
                };
                if !lx.w("x") {
                    return Err("vec x".into());
                }
                let t = self.ty(lx)?;
                lx.expect('>')?;
                Ok(Ty::Vector(n, Box::new(t)))
            }
            Tok::Local(n) => {
                let (s, e) = *self.types.get(&n).ok_or_else(|| format!("type %{n}"))?;
                let line = self.text[s..e].to_string();
                let mut l2 = Lx { t: lex(&line), i: 0 };
                self.ty(&mut l2)
            }
            t => Err(format!("type {:?}", t)),
        }
    }

    fn skip_attrs(&mut self, lx: &mut Lx) {
        loop {
            match lx.peek().clone() {
                Tok::Word(w) => {
                    if is_type_word(&w) || is_const_word(&w) {
                        return;
                    }
                    lx.next();
                    if w == "align" {
                        if let Tok::Num(_) = lx.peek() {
                            lx.next();
                            continue;
                        }
                    }
                    if *lx.peek() == Tok::P('(') {
                        lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.p('=') {
                        lx.next();
                    }
                }
                Tok::Attr(_) => {
                    lx.next();
                }
                _ => return,
            }
        }
    }

    fn val(&mut self, lx: &mut Lx, ty: &Ty, c: &mut FnCtx) -> Result<Opnd, String> {
        if let Ty::Other(w) = ty {
            if w == "metadata" {
                // metadata operand: skip tokens to , or ) at depth 0
                let mut d = 0;
                loop {
                    match lx.peek() {
                        Tok::P('(') => d += 1,
                        Tok::P(')') => {
                            if d == 0 {
                                break;
                            }
                            d -= 1
                        }
                        Tok::P(',') if d == 0 => break,
                        Tok::Eof => break,
                        _ => {}
                    }
                    lx.next();
                }
                return Ok(Opnd::None);
            }
        }
        match lx.next() {
            Tok::Local(n) => Ok(Opnd::Reg(c.reg(&n))),
            Tok::Global(n) => Ok(Opnd::Int(64, self.sym_addr(&n)? as u128)),
            Tok::Num(n) => {
                if n.contains('.') || n.contains('x') || n.contains('e') {
                    return Ok(Opnd::Int(ty.bits(), 0)); // floating point: unsupported downstream
                }
                let w = ty.bits();
                let v: u128 = if let Some(r) = n.strip_prefix('-') {
                    (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                } else {
                    n.parse::<u128>().map_err(|e| format!("{e} {n}"))?
                };
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                Ok(Opnd::Int(w, v & m))
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Opnd::Int(1, 1)),
                "false" => Ok(Opnd::Int(1, 0)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(zero_of(ty)),
                "splat" => {
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let v = self.val(lx, &t, c)?;
                    lx.expect(')')?;
                    Ok(Opnd::Agg(Rc::new(vec![v; ty.nfields()])))
                }
                "getelementptr" => {
                    while let Tok::Word(_) = lx.peek() {
                        let x = lx.next();
                        if x == Tok::Word("inrange".into()) {
                            lx.skip_parens();
                        }
                    }
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    lx.expect(',')?;
                    let pt = self.ty(lx)?;
                    let base = self.cint(lx, &pt, c)?;
                    let mut a = base as u64;
                    let mut cur = t;
                    let mut first = true;
                    while lx.p(',') {
                        let it = self.ty(lx)?;
                        let iv = self.cint(lx, &it, c)?;
                        let sv = sext128(iv, it.bits()) as i64;
                        if first {
                            a = a.wrapping_add((sv as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            let (o, ft) = cur.field_off(sv as usize);
                            a = a.wrapping_add(o);
                            cur = ft;
                        }
                    }
                    lx.expect(')')?;
                    Ok(Opnd::Int(64, a as u128))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" => {
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let v = self.cint(lx, &t, c)?;
                    if !lx.w("to") {
                        return Err("const cast".into());
                    }
                    let to = self.ty(lx)?;
                    lx.expect(')')?;
                    let m = if to.bits() >= 128 { u128::MAX } else { (1u128 << to.bits()) - 1 };
                    let v = if w == "sext" { sext128(v, t.bits()) as u128 } else { v };
                    Ok(Opnd::Int(to.bits(), v & m))
                }
                "add" | "sub" | "xor" | "and" | "or" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect('(')?;
                    let t = self.ty(lx)?;
                    let a = self.cint(lx, &t, c)?;
                    lx.expect(',')?;
                    let t2 = self.ty(lx)?;
                    let b = self.cint(lx, &t2, c)?;
                    lx.expect(')')?;
                    let m = if t.bits() >= 128 { u128::MAX } else { (1u128 << t.bits()) - 1 };
                    let v = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        _ => a | b,
                    };
                    Ok(Opnd::Int(t.bits(), v & m))
                }
                _ => Err(format!("value word {w}")),
            },
            Tok::P('{') => {
                let mut vs = vec![];
                if !lx.p('}') {
                    loop {
                        let t = self.ty(lx)?;
                        vs.push(self.val(lx, &t, c)?);
                        if lx.p('}') {
                            break;
                        }
                        lx.expect(',')?;
                    }
                }
                Ok(Opnd::Agg(Rc::new(vs)))
            }
            Tok::P('[') => {
                let mut vs = vec![];
                if !lx.p(']') {
                    loop {
                        let t = self.ty(lx)?;
                        vs.push(self.val(lx, &t, c)?);
                        if lx.p(']') {
                            break;
                        }
                        lx.expect(',')?;
                    }
                }
                Ok(Opnd::Agg(Rc::new(vs)))
            }
            Tok::P('<') => {
                let packed = lx.p('{');
                let mut vs = vec![];
                loop {
                    let t = self.ty(lx)?;
                    vs.push(self.val(lx, &t, c)?);
                    if packed && lx.p('}') {
                        lx.expect('>')?;
                        break;
                    }
                    if !packed && lx.p('>') {
                        break;
                    }
                    lx.expect(',')?;
                }
                Ok(Opnd::Agg(Rc::new(vs)))
            }
            Tok::CStr(s) => Ok(Opnd::Agg(Rc::new(s.iter().map(|b| Opnd::Int(8, *b as u128)).collect()))),
            t => Err(format!("value {:?}", t)),
        }
    }

    fn cint(&mut self, lx: &mut Lx, ty: &Ty, c: &mut FnCtx) -> Result<u128, String> {
        match self.val(lx, ty, c)? {
            Opnd::Int(_, v) => Ok(v),
            o => Err(format!("const int {:?}", o)),
        }
    }

    fn tv(&mut self, lx: &mut Lx, c: &mut FnCtx) -> Result<(Ty, Opnd), String> {
        let t = self.ty(lx)?;
        let v = self.val(lx, &t, c)?;
        Ok((t, v))
    }

    fn label(&mut self, lx: &mut Lx, c: &mut FnCtx) -> Result<u32, String> {
        if !lx.w("label") {
            return Err("label".into());
        }
        match lx.next() {
            Tok::Local(n) => c.labels.get(&n).copied().ok_or(format!("label {n}")),
            t => Err(format!("label {:?}", t)),
        }
    }

    pub fn func(&mut self, name: &str) -> Result<Option<Rc<Func>>, String> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(Some(f.clone()));
        }
        let Some(&(s, e)) = self.fn_text.get(name) else { return Ok(None) };
        let text = self.text[s..e].to_string();
        let f = self.parse_func(name, &text).map_err(|e| format!("{name}: {e}"))?;
        let f = Rc::new(f);
        self.funcs.insert(name.to_string(), f.clone());
        Ok(Some(f))
    }

    fn parse_func(&mut self, name: &str, text: &str) -> Result<Func, String> {
        let mut lines: Vec<String> = Vec::new();
        for l in text.lines() {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t == "}" {
                continue;
            }
            // continuation lines
            if let Some(last) = lines.last_mut() {
                let open = last.trim_start();
                let is_sw = open.starts_with("switch ") && !last.ends_with(']') && !last.contains("], !") && !last.contains("],");
                if (is_sw && !sw_closed(last)) || t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                    last.push(' ');
                    last.push_str(t);
                    continue;
                }
            }
            lines.push(l.to_string());
        }
        let mut c = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        // header
        let mut lx = Lx { t: lex(&lines[0]), i: 0 };
        while !matches!(lx.peek(), Tok::Global(_)) {
            lx.next();
        }
        lx.next();
        lx.expect('(')?;
        let mut params = vec![];
        let mut auto = 0u32;
        if !lx.p(')') {
            loop {
                if lx.p('.') {
                    return Err("varargs".into());
                }
                let _t = self.ty(&mut lx)?;
                // attributes until Local / , / )
                loop {
                    match lx.peek().clone() {
                        Tok::Local(n) => {
                            lx.next();
                            params.push(c.reg(&n));
                            break;
                        }
                        Tok::P(',') | Tok::P(')') => {
                            params.push(c.reg(&auto.to_string()));
                            auto += 1;
                            break;
                        }
                        Tok::P('(') => lx.skip_parens(),
                        Tok::Eof => return Err("params".into()),
                        _ => {
                            lx.next();
                        }
                    }
                }
                if lx.p(')') {
                    break;
                }
                lx.expect(',')?;
            }
        }
        // labels
        let mut bl: Vec<(String, Vec<&String>)> = vec![];
        let nparams_unnamed = params.len();
        for l in &lines[1..] {
            if !l.starts_with(' ') && !l.starts_with('\t') {
                let lab = if l.starts_with('"') {
                    let k = l[1..].find("\":").ok_or("label")?;
                    String::from_utf8_lossy(&unescape(l[1..1 + k].as_bytes())).into_owned()
                } else {
                    let k = l.find(':').ok_or_else(|| format!("label line {l}"))?;
                    l[..k].to_string()
                };
                bl.push((lab, vec![]));
            } else {
                if bl.is_empty() {
                    // unnamed entry block: numbered after the params
                    bl.push((nparams_unnamed.to_string(), vec![]));
                }
                bl.last_mut().unwrap().1.push(l);
            }
        }
        for (i, (n, _)) in bl.iter().enumerate() {
            c.labels.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        for (_, ls) in &bl {
            let mut b = Block { phis: vec![], ins: vec![], preds: 0 };
            for l in ls {
                self.ins(l, &mut c, &mut b).map_err(|e| format!("{e} in `{}`", l.trim()))?;
            }
            blocks.push(b);
        }
        Ok(finish_func(name.to_string(), params, c.regs.len(), blocks))
    }

    fn ins(&mut self, line: &str, c: &mut FnCtx, b: &mut Block) -> Result<(), String> {
        let mut lx = Lx { t: lex(line), i: 0 };
        let mut dst = None;
        if let Tok::Local(n) = lx.peek().clone() {
            if lx.t.get(1) == Some(&Tok::P('=')) {
                lx.next();
                lx.next();
                dst = Some(c.reg(&n));
            }
        }
        let op = match lx.next() {
            Tok::Word(w) => w,
            t => return Err(format!("op {:?}", t)),
        };
        let d = || dst.ok_or_else(|| "dst".to_string());
        let ins = match op.as_str() {
            "alloca" => {
                let t = self.ty(&mut lx)?;
                let mut n = 1u64;
                let mut al = 16;
                while lx.p(',') {
                    if lx.w("align") {
                        if let Tok::Num(k) = lx.next() {
                            al = k.parse().unwrap();
                        }
                    } else if let Tok::Meta(_) = lx.peek() {
                        break;
                    } else {
                        let (_, v) = self.tv(&mut lx, c)?;
                        if let Opnd::Int(_, k) = v {
                            n = k as u64
                        } else {
                            return Err("dyn alloca".into());
                        }
                    }
                }
                Ins::Alloca { dst: d()?, size: n * t.size(), align: al }
            }
            "load" => {
                if lx.w("atomic") {}
                lx.w("volatile");
                let t = self.ty(&mut lx)?;
                lx.expect(',')?;
                let (_, p) = self.tv(&mut lx, c)?;
                Ins::Load { dst: d()?, ty: t, ptr: p }
            }
            "store" => {
                lx.w("atomic");
                lx.w("volatile");
                let (t, v) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, p) = self.tv(&mut lx, c)?;
                Ins::Store { ty: t, val: v, ptr: p }
            }
            "getelementptr" => {
                loop {
                    match lx.peek().clone() {
                        Tok::Word(w) if !is_type_word(&w) => {
                            lx.next();
                            if w == "inrange" {
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let t = self.ty(&mut lx)?;
                lx.expect(',')?;
                let (bt, base) = self.tv(&mut lx, c)?;
                if bt != Ty::Ptr {
                    b.ins.push(Ins::Unsupported(line.trim().to_string()));
                    return Ok(());
                }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while lx.p(',') {
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                    let (it, iv) = self.tv(&mut lx, c)?;
                    let scale = if first { cur.size() } else { 0 };
                    match iv {
                        Opnd::Int(w, v) => {
                            let sv = sext128(v, w) as i64;
                            if first {
                                off = off.wrapping_add((sv as u64).wrapping_mul(scale));
                            } else {
                                let (o, ft) = cur.field_off(sv as usize);
                                off = off.wrapping_add(o);
                                cur = ft;
                            }
                        }
                        _ => {
                            if it.bits() != 64 {
                                return Err("gep index width".into());
                            }
                            if first {
                                idx.push((iv, scale));
                            } else {
                                let (_, ft) = cur.field_off(0);
                                idx.push((iv, ft.size()));
                                cur = ft;
                            }
                        }
                    }
                    first = false;
                }
                Ins::Gep { dst: d()?, base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                loop {
                    match lx.peek() {
                        Tok::Word(w) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint") => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let t = self.ty(&mut lx)?;
                let a = self.val(&mut lx, &t, c)?;
                lx.expect(',')?;
                let bb = self.val(&mut lx, &t, c)?;
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Ins::Bin { dst: d()?, op: o, ty: t, a, b: bb }
            }
            "icmp" => {
                lx.w("samesign");
                let p = match lx.next() {
                    Tok::Word(w) => w,
                    _ => return Err("icmp".into()),
                };
                let t = self.ty(&mut lx)?;
                let a = self.val(&mut lx, &t, c)?;
                lx.expect(',')?;
                let bb = self.val(&mut lx, &t, c)?;
                let pred = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("pred".into()),
                };
                Ins::Icmp { dst: d()?, pred, ty: t, a, b: bb }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                loop {
                    match lx.peek() {
                        Tok::Word(w) if matches!(w.as_str(), "nneg" | "nuw" | "nsw") => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let (t, a) = self.tv(&mut lx, c)?;
                if !lx.w("to") {
                    return Err("cast".into());
                }
                let to = self.ty(&mut lx)?;
                let o = match op.as_str() {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    _ => CastOp::Bit,
                };
                Ins::Cast { dst: d()?, op: o, from: t, to, a }
            }
            "select" => {
                let (ct, cv) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (t, a) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, bb) = self.tv(&mut lx, c)?;
                Ins::Select { dst: d()?, c: cv, ty: t, a, b: bb, vec: ct != Ty::Int(1) }
            }
            "phi" => {
                let t = self.ty(&mut lx)?;
                let mut inc = vec![];
                loop {
                    lx.expect('[')?;
                    let v = self.val(&mut lx, &t, c)?;
                    lx.expect(',')?;
                    let l = match lx.next() {
                        Tok::Local(n) => *c.labels.get(&n).ok_or("phi label")?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    lx.expect(']')?;
                    inc.push((v, l));
                    if !lx.p(',') {
                        break;
                    }
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                }
                b.phis.push((d()?, t, inc));
                return Ok(());
            }
            "br" => {
                if let Tok::Word(w) = lx.peek() {
                    if w == "label" {
                        let l = self.label(&mut lx, c)?;
                        b.ins.push(Ins::Br(l));
                        return Ok(());
                    }
                }
                let (_, cv) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let l1 = self.label(&mut lx, c)?;
                lx.expect(',')?;
                let l2 = self.label(&mut lx, c)?;
                Ins::CondBr(cv, l1, l2)
            }
            "switch" => {
                let (t, v) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let dl = self.label(&mut lx, c)?;
                lx.expect('[')?;
                let mut cases = vec![];
                while !lx.p(']') {
                    let (_, k) = self.tv(&mut lx, c)?;
                    lx.expect(',')?;
                    let l = self.label(&mut lx, c)?;
                    if let Opnd::Int(_, k) = k {
                        cases.push((k, l));
                    } else {
                        return Err("switch case".into());
                    }
                }
                Ins::Switch { w: t.bits(), v, default: dl, cases }
            }
            "ret" => {
                if lx.w("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tv(&mut lx, c)?;
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.next();
                }
                let inv = op == "invoke";
                // flags / cconv / ret attrs
                loop {
                    match lx.peek().clone() {
                        Tok::Word(w) if !is_type_word(&w) => {
                            lx.next();
                            if w == "align" {
                                if let Tok::Num(_) = lx.peek() {
                                    lx.next();
                                }
                            }
                            if *lx.peek() == Tok::P('(') {
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let ret = self.ty(&mut lx)?;
                // optional function type
                if *lx.peek() == Tok::P('(') {
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    Tok::Global(n) => Callee::Fn(n),
                    Tok::Local(n) => Callee::Ind(Opnd::Reg(c.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        b.ins.push(Ins::Unsupported(line.trim().to_string()));
                        return Ok(());
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                lx.expect('(')?;
                let mut args = vec![];
                if !lx.p(')') {
                    loop {
                        let t = self.ty(&mut lx)?;
                        self.skip_attrs(&mut lx);
                        let v = self.val(&mut lx, &t, c)?;
                        args.push((t, v));
                        if lx.p(')') {
                            break;
                        }
                        lx.expect(',')?;
                    }
                }
                let mut noreturn = false;
                loop {
                    match lx.peek().clone() {
                        Tok::Attr(a) => {
                            if self.attrs_noreturn.contains(&a) {
                                noreturn = true
                            }
                            lx.next();
                        }
                        Tok::Word(w) if w == "noreturn" => {
                            noreturn = true;
                            lx.next();
                        }
                        Tok::Word(w) if w == "to" => break,
                        Tok::Word(_) => {
                            lx.next();
                            if *lx.peek() == Tok::P('(') {
                                lx.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let mut cont = None;
                if inv {
                    while !lx.w("to") {
                        if *lx.peek() == Tok::Eof {
                            return Err("invoke".into());
                        }
                        lx.next();
                    }
                    cont = Some(self.label(&mut lx, c)?);
                }
                Ins::Call { dst, ret, callee, args, cont, noreturn }
            }
            "extractvalue" => {
                let (_, a) = self.tv(&mut lx, c)?;
                let mut path = vec![];
                while lx.p(',') {
                    if let Tok::Num(n) = lx.next() {
                        path.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Ins::Extract { dst: d()?, a, path }
            }
            "insertvalue" => {
                let (aty, a) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, v) = self.tv(&mut lx, c)?;
                let mut path = vec![];
                while lx.p(',') {
                    if let Tok::Num(n) = lx.next() {
                        path.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Ins::Insert { dst: d()?, aty, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, i) = self.tv(&mut lx, c)?;
                Ins::ExtractElem { dst: d()?, a, i }
            }
            "insertelement" => {
                let (t, a) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, v) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, i) = self.tv(&mut lx, c)?;
                Ins::InsertElem { dst: d()?, n: t.nfields() as u64, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, bb) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let mt = self.ty(&mut lx)?;
                let mut mask = vec![];
                if lx.w("zeroinitializer") {
                    mask = vec![Some(0); mt.nfields()];
                } else if lx.w("poison") {
                    mask = vec![None; mt.nfields()];
                } else {
                    lx.expect('<')?;
                    loop {
                        let _ = self.ty(&mut lx)?;
                        if lx.w("poison") || lx.w("undef") {
                            mask.push(None);
                        } else if let Tok::Num(n) = lx.next() {
                            mask.push(Some(n.parse().unwrap()));
                        }
                        if lx.p('>') {
                            break;
                        }
                        lx.expect(',')?;
                    }
                }
                Ins::Shuffle { dst: d()?, a, b: bb, mask }
            }
            "freeze" => {
                let (_, a) = self.tv(&mut lx, c)?;
                Ins::Copy { dst: d()?, a }
            }
            "fence" => Ins::Fence,
            // there is one thread
            "atomicrmw" => {
                lx.w("volatile");
                let how = match lx.next() {
                    Tok::Word(w) => w,
                    t => return Err(format!("atomicrmw {:?}", t)),
                };
                let (_, p) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (ty, v) = self.tv(&mut lx, c)?;
                let (old, n, e) = (d()?, c.fresh(), c.fresh());
                let bin = |op| Ins::Bin { dst: n, op, ty: ty.clone(), a: Opnd::Reg(old), b: v.clone() };
                let pick = |pred| {
                    vec![
                        Ins::Icmp { dst: e, pred, ty: ty.clone(), a: Opnd::Reg(old), b: v.clone() },
                        Ins::Select { dst: n, c: Opnd::Reg(e), ty: ty.clone(), a: Opnd::Reg(old), b: v.clone(), vec: false },
                    ]
                };
                let mid = match how.as_str() {
                    "xchg" => vec![Ins::Copy { dst: n, a: v.clone() }],
                    "add" => vec![bin(BinOp::Add)],
                    "sub" => vec![bin(BinOp::Sub)],
                    "and" => vec![bin(BinOp::And)],
                    "or" => vec![bin(BinOp::Or)],
                    "xor" => vec![bin(BinOp::Xor)],
                    "max" => pick(Pred::Sgt),
                    "min" => pick(Pred::Slt),
                    "umax" => pick(Pred::Ugt),
                    "umin" => pick(Pred::Ult),
                    _ => vec![Ins::Unsupported(line.trim().to_string())],
                };
                b.ins.push(Ins::Load { dst: old, ty: ty.clone(), ptr: p.clone() });
                b.ins.extend(mid);
                Ins::Store { ty, val: Opnd::Reg(n), ptr: p }
            }
            "cmpxchg" => {
                lx.w("weak");
                lx.w("volatile");
                let (_, p) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (ty, was) = self.tv(&mut lx, c)?;
                lx.expect(',')?;
                let (_, new) = self.tv(&mut lx, c)?;
                let (old, e, n, half) = (c.fresh(), c.fresh(), c.fresh(), c.fresh());
                let aty = Ty::Struct(vec![ty.clone(), Ty::Int(1)], false);
                b.ins.push(Ins::Load { dst: old, ty: ty.clone(), ptr: p.clone() });
                b.ins.push(Ins::Icmp { dst: e, pred: Pred::Eq, ty: ty.clone(), a: Opnd::Reg(old), b: was });
                b.ins.push(Ins::Select { dst: n, c: Opnd::Reg(e), ty: ty.clone(), a: new, b: Opnd::Reg(old), vec: false });
                b.ins.push(Ins::Store { ty, val: Opnd::Reg(n), ptr: p });
                let none = Opnd::Agg(Rc::new(vec![Opnd::None, Opnd::None]));
                b.ins.push(Ins::Insert { dst: half, aty: aty.clone(), a: none, v: Opnd::Reg(old), path: vec![0] });
                Ins::Insert { dst: d()?, aty, a: Opnd::Reg(half), v: Opnd::Reg(e), path: vec![1] }
            }
            _ => Ins::Unsupported(line.trim().to_string()),
        };
        b.ins.push(ins);
        Ok(())
    }
}

fn sw_closed(l: &str) -> bool {
    let mut d = 0;
    let mut seen = false;
    for ch in l.chars() {
        match ch {
            '[' => {
                d += 1;
                seen = true
            }
            ']' => d -= 1,
            _ => {}
        }
    }
    seen && d == 0
}

fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint"
            | "bitcast" | "trunc" | "splat" | "add" | "sub" | "xor" | "and" | "or"
    )
}

pub fn zero_of(ty: &Ty) -> Opnd {
    match ty {
        Ty::Struct(fs, _) => Opnd::Agg(Rc::new(fs.iter().map(zero_of).collect())),
        Ty::Arr(n, t) | Ty::Vector(n, t) => Opnd::Agg(Rc::new((0..*n).map(|_| zero_of(t)).collect())),
        Ty::Void => Opnd::None,
        _ => Opnd::Int(ty.bits(), 0),
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn fn_name(line: &str) -> String {
    let k = line.find('@').unwrap();
    let r = &line[k + 1..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        let e = r.find('(').unwrap();
        r[..e].to_string()
    }
}

pub fn opnd_regs(o: &Opnd, f: &mut dyn FnMut(u32)) {
    match o {
        Opnd::Reg(r) => f(*r),
        Opnd::Agg(v) => {
            for x in v.iter() {
                opnd_regs(x, f)
            }
        }
        _ => {}
    }
}

pub fn ins_uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    match i {
        Ins::Load { ptr, .. } => opnd_regs(ptr, f),
        Ins::Store { val, ptr, .. } => {
            opnd_regs(val, f);
            opnd_regs(ptr, f)
        }
        Ins::Gep { base, idx, .. } => {
            opnd_regs(base, f);
            for (o, _) in idx {
                opnd_regs(o, f)
            }
        }
        Ins::Bin { a, b, .. } | Ins::Icmp { a, b, .. } | Ins::Shuffle { a, b, .. } => {
            opnd_regs(a, f);
            opnd_regs(b, f)
        }
        Ins::Cast { a, .. } | Ins::Copy { a, .. } | Ins::Extract { a, .. } => opnd_regs(a, f),
        Ins::Select { c, a, b, .. } => {
            opnd_regs(c, f);
            opnd_regs(a, f);
            opnd_regs(b, f)
        }
        Ins::CondBr(c, _, _) => opnd_regs(c, f),
        Ins::Switch { v, .. } => opnd_regs(v, f),
        Ins::Call { callee, args, .. } => {
            if let Callee::Ind(o) = callee {
                opnd_regs(o, f)
            }
            for (_, a) in args {
                opnd_regs(a, f)
            }
        }
        Ins::Ret(Some(o)) => opnd_regs(o, f),
        Ins::Insert { a, v, .. } => {
            opnd_regs(a, f);
            opnd_regs(v, f)
        }
        Ins::ExtractElem { a, i, .. } => {
            opnd_regs(a, f);
            opnd_regs(i, f)
        }
        Ins::InsertElem { a, v, i, .. } => {
            opnd_regs(a, f);
            opnd_regs(v, f);
            opnd_regs(i, f)
        }
        _ => {}
    }
}

pub fn ins_def(i: &Ins) -> Option<u32> {
    match i {
        Ins::Alloca { dst, .. }
        | Ins::Load { dst, .. }
        | Ins::Gep { dst, .. }
        | Ins::Bin { dst, .. }
        | Ins::Icmp { dst, .. }
        | Ins::Cast { dst, .. }
        | Ins::Select { dst, .. }
        | Ins::Extract { dst, .. }
        | Ins::Insert { dst, .. }
        | Ins::ExtractElem { dst, .. }
        | Ins::InsertElem { dst, .. }
        | Ins::Shuffle { dst, .. }
        | Ins::Copy { dst, .. } => Some(*dst),
        Ins::Call { dst, .. } => *dst,
        _ => None,
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last() {
        Some(Ins::Br(l)) => vec![*l],
        Some(Ins::CondBr(_, a, c)) => vec![*a, *c],
        Some(Ins::Switch { default, cases, .. }) => {
            let mut v = vec![*default];
            for (_, l) in cases {
                v.push(*l)
            }
            v.sort();
            v.dedup();
            v
        }
        Some(Ins::Call { cont: Some(l), .. }) => vec![*l],
        _ => vec![],
    }
}

struct Bits(Vec<u64>);
impl Bits {
    fn new(n: usize) -> Self {
        Bits(vec![0; (n + 63) / 64])
    }
    fn set(&mut self, i: u32) {
        self.0[i as usize / 64] |= 1 << (i % 64)
    }
    fn clear(&mut self, i: u32) {
        self.0[i as usize / 64] &= !(1 << (i % 64))
    }
    fn or(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            if *b & !*a != 0 {
                ch = true;
                *a |= *b
            }
        }
        ch
    }
    fn list(&self) -> Vec<u32> {
        let mut v = vec![];
        for (k, w) in self.0.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                v.push(k as u32 * 64 + w.trailing_zeros());
                w &= w - 1
            }
        }
        v
    }
}

fn finish_func(name: String, params: Vec<u32>, nregs: usize, mut blocks: Vec<Block>) -> Func {
    let n = blocks.len();
    let sc: Vec<Vec<u32>> = blocks.iter().map(succs).collect();
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in sc.iter().enumerate() {
        for t in s {
            preds[*t as usize].push(i as u32)
        }
    }
    for i in 0..n {
        blocks[i].preds = preds[i].len() as u32;
    }
    // rpo
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut st: Vec<(u32, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((b, k)) = st.pop() {
        if k < sc[b as usize].len() {
            st.push((b, k + 1));
            let t = sc[b as usize][k];
            if !seen[t as usize] {
                seen[t as usize] = true;
                st.push((t, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut rpo = vec![u32::MAX; n];
    for (i, b) in order.iter().enumerate() {
        rpo[*b as usize] = i as u32
    }
    // dominators (Cooper-Harvey-Kennedy)
    let mut idom = vec![u32::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut new = u32::MAX;
            for &p in &preds[b as usize] {
                if idom[p as usize] == u32::MAX {
                    continue;
                }
                if new == u32::MAX {
                    new = p
                } else {
                    let (mut x, mut y) = (p, new);
                    while x != y {
                        while rpo[x as usize] > rpo[y as usize] {
                            x = idom[x as usize]
                        }
                        while rpo[y as usize] > rpo[x as usize] {
                            y = idom[y as usize]
                        }
                    }
                    new = x;
                }
            }
            if idom[b as usize] != new {
                idom[b as usize] = new;
                ch = true
            }
        }
    }
    let dom = |a: u32, mut b: u32| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b as usize] == u32::MAX {
                return false;
            }
            b = idom[b as usize];
        }
    };
    // natural loops
    let mut loop_body: HashMap<u32, Vec<bool>> = HashMap::new();
    for &b in &order {
        for &s in &sc[b as usize] {
            if dom(s, b) {
                let body = loop_body.entry(s).or_insert_with(|| {
                    let mut v = vec![false; n];
                    v[s as usize] = true;
                    v
                });
                let mut w = vec![b];
                while let Some(x) = w.pop() {
                    if body[x as usize] {
                        continue;
                    }
                    body[x as usize] = true;
                    for &p in &preds[x as usize] {
                        w.push(p)
                    }
                }
            }
        }
    }
    let mut hs: Vec<u32> = loop_body.keys().copied().collect();
    // outermost first: a header nested in another loop comes later
    hs.sort_by_key(|h| (hs_depth(*h, &loop_body), rpo[*h as usize]));
    let mut loops = vec![vec![]; n];
    for b in 0..n {
        for h in &hs {
            if loop_body[h][b] {
                loops[b].push(*h)
            }
        }
    }
    // liveness
    let mut live_in: Vec<Bits> = (0..n).map(|_| Bits::new(nregs.max(1))).collect();
    let mut live_out: Vec<Bits> = (0..n).map(|_| Bits::new(nregs.max(1))).collect();
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            let bi = b as usize;
            let mut out = Bits::new(nregs.max(1));
            for &s in &sc[bi] {
                let mut l = Bits(live_in[s as usize].0.clone());
                for (dst, _, _) in &blocks[s as usize].phis {
                    l.clear(*dst)
                }
                for (_, _, inc) in &blocks[s as usize].phis {
                    for (o, p) in inc {
                        if *p == b {
                            opnd_regs(o, &mut |r| l.set(r))
                        }
                    }
                }
                out.or(&l);
            }
            if live_out[bi].or(&out) {
                ch = true
            }
            let mut l = Bits(live_out[bi].0.clone());
            for i in blocks[bi].ins.iter().rev() {
                if let Some(d) = ins_def(i) {
                    l.clear(d)
                }
                ins_uses(i, &mut |r| l.set(r));
            }
            if live_in[bi].or(&l) {
                ch = true
            }
        }
    }
    Func {
        name,
        params,
        nregs,
        blocks,
        live_in: live_in.iter().map(|b| b.list()).collect(),
        live_out: live_out.iter().map(|b| b.list()).collect(),
        rpo,
        loops,
        live_after: Default::default(),
    }
}

fn hs_depth(h: u32, bodies: &HashMap<u32, Vec<bool>>) -> usize {
    bodies.values().filter(|b| b[h as usize]).count()
}

impl Func {
    /// Registers live after instruction `i` of block `b` (excluding its result).
    pub fn live_after(&self, b: u32, i: u32) -> Rc<Vec<u32>> {
        if let Some(v) = self.live_after.borrow().get(&(b, i)) {
            return v.clone();
        }
        let mut l = Bits::new(self.nregs.max(1));
        for r in &self.live_out[b as usize] {
            l.set(*r)
        }
        let ins = &self.blocks[b as usize].ins;
        for k in (i as usize + 1..ins.len()).rev() {
            if let Some(d) = ins_def(&ins[k]) {
                l.clear(d)
            }
            ins_uses(&ins[k], &mut |r| l.set(r));
        }
        if let Some(d) = ins_def(&ins[i as usize]) {
            l.clear(d)
        }
        let v = Rc::new(l.list());
        self.live_after.borrow_mut().insert((b, i), v.clone());
        v
    }
}
