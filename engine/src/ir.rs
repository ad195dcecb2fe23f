//! Textual LLVM IR reader. Function bodies are parsed on first use.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vec(u32, Box<Ty>), Other }

impl Ty {
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, Ty::Vec(n, t) => n * t.bits(), _ => 0 }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => { let a = self.align(); (self.store_size() + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, _) => {
                let e = self.offset(fs.len());
                let a = self.align();
                (e + a - 1) / a * a
            }
            Ty::Vec(..) => self.store_size(),
            _ => 0,
        }
    }
    /// offset of field i (or end of the last field when i == len)
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed { let a = f.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(u64), Big(u128), Agg(Rc<Vec<Opd>>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Intr(String), Ind(Opd) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, Opd, Opd),
    Lanes(u32, Box<I>, Vec<Opd>), // per lane, operands as registers 0, 1, 2
    ExtElem(Opd, Opd), InsElem(Opd, Opd, Opd), Shuffle(Opd, Opd, Vec<u32>), VCast(Ty, Ty, Opd),
    Icmp(Pred, u32, Opd, Opd),
    Fcmp(u8, u32, Opd, Opd), // bits: equal, greater, less, unordered
    Fbin(u8, u32, Opd, Opd), FNeg(u32, Opd), FConv(&'static str, u32, u32, Opd),
    Select(Ty, Opd, Opd, Opd),
    ZExt(u32, u32, Opd), SExt(u32, u32, Opd), Trunc(u32, u32, Opd),
    Copy(Opd),
    Load(Ty, Opd), Store(Ty, Opd, Opd), // value, ptr
    Gep(Opd, i64, Vec<(Opd, i64, u32)>),
    Alloca(u64),
    Br(u32), CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>), Unreachable,
    Call { callee: Callee, args: Vec<(Ty, Opd)>, rty: Ty, normal: Option<u32> },
    Extract(Opd, Vec<u32>), Insert(Ty, Opd, Opd, Vec<u32>),
    Rmw(String, Ty, Opd, Opd), CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst { pub i: I, pub dst: u32, pub dbg: u32 } // dst = u32::MAX when void
#[derive(Debug)]
pub struct Block { pub name: String, pub phis: Vec<(u32, HashMap<u32, Opd>)>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub name: String, pub nregs: u32, pub nparams: u32, pub blocks: Vec<Block>, pub dbg: u32 }

pub struct FEnt { pub name: String, pub lines: Option<(usize, usize)>, pub parsed: RefCell<Option<Rc<Func>>> }
pub struct GEnt { pub name: String, pub addr: u64, pub size: u64, pub ro: bool, pub init: Vec<u8>, pub defined: bool }

pub struct Module {
    text: Vec<u8>,
    lines: Vec<(usize, usize)>,
    pub funcs: Vec<FEnt>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GEnt>,
    pub gmap: HashMap<String, usize>,
    types: HashMap<String, Ty>,
    meta: Vec<u32>, // metadata id -> line number + 1
}

pub const G_BASE: u64 = 1 << 32;
pub const F_BASE: u64 = 2 << 32;

struct Cur<'a> { s: &'a [u8], p: usize }
type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') { self.p += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.p).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at: {}", c as char, self.rest())) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..(self.p + 80).min(self.s.len())]).into_owned() }
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut q = self.p;
        while q < self.s.len() && (self.s[q].is_ascii_alphanumeric() || matches!(self.s[q], b'_' | b'.' | b'-' | b'$')) { q += 1; }
        &self.s[self.p..q]
    }
    fn word(&mut self) -> &'a [u8] { let w = self.peek_word(); self.p += w.len(); w }
    fn eatw(&mut self, w: &str) -> bool { if self.peek_word() == w.as_bytes() { self.p += w.len(); true } else { false } }
    /// after a % or @ sigil
    fn name(&mut self) -> R<String> {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let st = self.p + 1; let mut q = st;
            while self.s[q] != b'"' { q += 1; }
            self.p = q + 1;
            return Ok(String::from_utf8_lossy(&self.s[st..q]).into_owned());
        }
        let w = self.word();
        if w.is_empty() { return Err(format!("name expected at {}", self.rest())); }
        Ok(String::from_utf8_lossy(w).into_owned())
    }
    fn skip_parens(&mut self) {
        self.ws();
        if self.p >= self.s.len() || self.s[self.p] != b'(' { return; }
        let mut d = 0; let mut q = false;
        while self.p < self.s.len() {
            let c = self.s[self.p]; self.p += 1;
            match c { b'"' => q = !q, b'(' if !q => d += 1, b')' if !q => { d -= 1; if d == 0 { break; } } _ => {} }
        }
    }
    fn int(&mut self) -> R<i128> {
        let w = self.word();
        let s = std::str::from_utf8(w).unwrap();
        s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("int expected, got '{s}' {}", self.rest()))
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            let w = self.peek_word();
            match w {
                b"align" => { self.p += 5; self.ws(); if self.peek() == b'(' { self.skip_parens(); } else { self.word(); } }
                b"noalias" | b"noundef" | b"nonnull" | b"nofree" | b"nocapture" | b"readonly" | b"readnone" | b"writeonly" | b"zeroext"
                | b"signext" | b"inreg" | b"returned" | b"immarg" | b"noext" | b"writable" | b"dead_on_unwind" | b"nest" | b"swiftself"
                | b"allocptr" | b"allocalign" | b"dead_on_return" | b"noinline" => { self.p += w.len(); if w == b"dead_on_return" { self.skip_parens(); } }
                b"dereferenceable" | b"dereferenceable_or_null" | b"captures" | b"range" | b"sret" | b"byval" | b"initializes" | b"elementtype"
                | b"nofpclass" | b"preallocated" | b"byref" | b"inalloca" => { self.p += w.len(); self.skip_parens(); }
                _ => return,
            }
        }
    }
}

fn mask64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        let mut lines = vec![];
        let mut st = 0;
        for (i, &b) in text.iter().enumerate() { if b == b'\n' { lines.push((st, i)); st = i + 1; } }
        if st < text.len() { lines.push((st, text.len())); }
        let mut m = Module { text, lines, funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), types: HashMap::new(), meta: vec![] };
        // pass 1: index
        let mut gl = vec![]; let mut tl = vec![];
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            if l.starts_with(b"define ") {
                let name = fname(l)?;
                let mut e = i;
                while m.line(e) != b"}" { e += 1; }
                m.add_func(name, Some((i, e)));
                i = e;
            } else if l.starts_with(b"declare ") {
                let name = fname(l)?;
                m.add_func(name, None);
            } else if l.starts_with(b"@") { gl.push(i); }
            else if l.starts_with(b"%") { tl.push(i); }
            else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let e = l.iter().position(|&c| c == b' ').unwrap_or(l.len());
                let n: usize = std::str::from_utf8(&l[1..e]).unwrap().parse().unwrap();
                if m.meta.len() <= n { m.meta.resize(n + 1, 0); }
                m.meta[n] = i as u32 + 1;
            }
            i += 1;
        }
        for &l in &tl {
            let s = m.line(l).to_vec();
            let mut c = Cur { s: &s, p: 1 };
            let n = c.name()?;
            c.expect(b'=')?;
            c.eatw("type");
            let t = m.ty(&mut c)?;
            m.types.insert(n, t);
        }
        // globals: types and addresses
        let mut addr = G_BASE + 4096;
        let mut inits = vec![];
        for &l in &gl {
            let s = m.line(l).to_vec();
            let mut c = Cur { s: &s, p: 1 };
            let n = c.name()?;
            c.expect(b'=')?;
            let mut ro = false; let mut defined = true; let mut alias = false;
            loop {
                let w = c.peek_word();
                match w {
                    b"constant" => { ro = true; c.p += w.len(); break; }
                    b"global" => { c.p += w.len(); break; }
                    b"alias" | b"ifunc" => { alias = true; c.p += w.len(); break; }
                    b"external" | b"extern_weak" => { defined = false; c.p += w.len(); }
                    b"thread_local" | b"addrspace" => { c.p += w.len(); c.skip_parens(); }
                    b"" => return Err(format!("global: {}", c.rest())),
                    _ => { c.p += w.len(); }
                }
            }
            let t = m.ty(&mut c)?;
            if alias { continue; }
            let size = t.size();
            addr = (addr + 63) / 64 * 64;
            let gi = m.globals.len();
            m.gmap.insert(n.clone(), gi);
            m.globals.push(GEnt { name: n, addr, size, ro, init: vec![], defined });
            addr += size.max(1) + 16;
            inits.push((gi, l, c.p, t));
        }
        for (gi, l, p, t) in inits {
            if !m.globals[gi].defined { m.globals[gi].init = vec![0; t.size() as usize]; continue; }
            let s = m.line(l).to_vec();
            let mut c = Cur { s: &s, p };
            let mut out = vec![];
            m.const_bytes(&mut c, &t, &mut out).map_err(|e| format!("{e} in global {}", m.globals[gi].name))?;
            out.resize(t.size() as usize, 0);
            m.globals[gi].init = out;
        }
        Ok(m)
    }
    fn add_func(&mut self, name: String, lines: Option<(usize, usize)>) {
        let id = self.funcs.len() as u32;
        self.fmap.insert(name.clone(), id);
        self.funcs.push(FEnt { name, lines, parsed: RefCell::new(None) });
    }
    fn line(&self, i: usize) -> &[u8] { let (a, b) = self.lines[i]; &self.text[a..b] }
    pub fn meta_line(&self, id: u32) -> Option<&str> {
        let l = *self.meta.get(id as usize)?;
        if l == 0 { return None; }
        std::str::from_utf8(self.line(l as usize - 1)).ok()
    }
    pub fn faddr(id: u32) -> u64 { F_BASE + id as u64 * 16 }

    fn ty(&self, c: &mut Cur) -> R<Ty> {
        let t = match c.peek() {
            b'[' => {
                c.p += 1; let n = c.int()? as u64; if !c.eatw("x") { return Err("x".into()); }
                let t = self.ty(c)?; c.expect(b']')?; Ty::Arr(n, Box::new(t))
            }
            b'{' => { c.p += 1; let f = self.ty_list(c, b'}')?; Ty::Struct(f, false) }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' { c.p += 1; let f = self.ty_list(c, b'}')?; c.expect(b'>')?; Ty::Struct(f, true) }
                else { let n = c.int()? as u32; c.eatw("x"); let t = self.ty(c)?; c.expect(b'>')?; Ty::Vec(n, Box::new(t)) }
            }
            b'%' => { c.p += 1; let n = c.name()?; self.types.get(&n).cloned().ok_or_else(|| format!("type %{n}"))? }
            _ => {
                let w = c.word();
                match w {
                    b"void" => Ty::Void, b"ptr" => Ty::Ptr, b"float" => Ty::F32, b"double" => Ty::F64,
                    b"metadata" | b"label" | b"token" => Ty::Other,
                    _ if w.first() == Some(&b'i') => Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().map_err(|_| format!("type {}", String::from_utf8_lossy(w)))?),
                    _ => return Err(format!("type? '{}' {}", String::from_utf8_lossy(w), c.rest())),
                }
            }
        };
        // function type "ret (args...)": only in call with varargs; caller handles
        Ok(t)
    }
    fn ty_list(&self, c: &mut Cur, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if c.eat(end) { return Ok(v); }
        loop { v.push(self.ty(c)?); if c.eat(end) { return Ok(v); } c.expect(b',')?; }
    }

    fn const_bytes(&self, c: &mut Cur, t: &Ty, out: &mut Vec<u8>) -> R<()> {
        match t {
            Ty::Struct(fs, packed) => {
                if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") { out.resize(out.len() + t.size() as usize, 0); return Ok(()); }
                let st = out.len();
                if *packed { c.expect(b'<')?; }
                c.expect(b'{')?;
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 { c.expect(b',')?; }
                    let _ = self.ty(c)?;
                    out.resize(st + t.offset(i) as usize, 0);
                    self.const_bytes(c, f, out)?;
                }
                c.expect(b'}')?;
                if *packed { c.expect(b'>')?; }
                out.resize(st + t.size() as usize, 0);
                Ok(())
            }
            Ty::Arr(n, et) => {
                if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") { out.resize(out.len() + t.size() as usize, 0); return Ok(()); }
                if c.peek() == b'c' {
                    c.p += 1; c.expect(b'"')?;
                    loop {
                        let b = c.s[c.p];
                        c.p += 1;
                        if b == b'"' { break; }
                        if b == b'\\' {
                            if c.s[c.p] == b'\\' { out.push(b'\\'); c.p += 1; continue; }
                            let h = std::str::from_utf8(&c.s[c.p..c.p + 2]).unwrap();
                            out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                            c.p += 2;
                        } else { out.push(b); }
                    }
                    return Ok(());
                }
                c.expect(b'[')?;
                for i in 0..*n {
                    if i > 0 { c.expect(b',')?; }
                    let _ = self.ty(c)?;
                    self.const_bytes(c, et, out)?;
                }
                c.expect(b']')
            }
            Ty::Vec(n, et) if et.bits() % 8 == 0 => {
                if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") { out.resize(out.len() + t.size() as usize, 0); return Ok(()); }
                if c.eatw("splat") {
                    c.expect(b'(')?; self.ty(c)?;
                    let mut one = vec![];
                    self.const_bytes(c, et, &mut one)?;
                    c.expect(b')')?;
                    for _ in 0..*n { out.extend_from_slice(&one); }
                    return Ok(());
                }
                c.expect(b'<')?;
                for i in 0..*n { if i > 0 { c.expect(b',')?; } self.ty(c)?; self.const_bytes(c, et, out)?; }
                c.expect(b'>')
            }
            _ => {
                let v = self.const_scalar(c, t)?;
                let n = t.size() as usize;
                out.extend_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }
    fn const_scalar(&self, c: &mut Cur, t: &Ty) -> R<u128> {
        match c.peek() {
            b'@' => {
                c.p += 1; let n = c.name()?;
                return self.sym_addr(&n).map(|x| x as u128);
            }
            _ => {}
        }
        let w = c.word();
        let m = if t.bits() >= 128 || t.bits() == 0 { u128::MAX } else { (1u128 << t.bits()) - 1 };
        match w {
            b"null" | b"zeroinitializer" | b"undef" | b"poison" | b"false" | b"none" => Ok(0),
            b"true" => Ok(1),
            b"getelementptr" => {
                while matches!(c.peek_word(), b"inbounds" | b"nuw" | b"nusw") { c.word(); }
                if c.eatw("inrange") { c.skip_parens(); }
                c.expect(b'(')?;
                let bt = self.ty(c)?; c.expect(b',')?;
                let pt = self.ty(c)?;
                let mut a = self.const_scalar(c, &pt)? as i128;
                let mut cur = bt; let mut first = true;
                while c.eat(b',') {
                    let it = self.ty(c)?;
                    let v = self.const_scalar(c, &it)?;
                    let v = super::expr::sx(v, it.bits() as u8);
                    if first { a += v * cur.size() as i128; first = false; }
                    else { a += cur.offset(v as usize) as i128; cur = match cur { Ty::Struct(f, _) => f[v as usize].clone(), Ty::Arr(_, t) => *t, _ => return Err("gep".into()) }; }
                }
                c.expect(b')')?;
                Ok(a as u128 & m)
            }
            b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"zext" | b"addrspacecast" | b"ptrtoaddr" => {
                c.expect(b'(')?;
                let ft = self.ty(c)?;
                let v = self.const_scalar(c, &ft)?;
                c.eatw("to"); let _ = self.ty(c)?;
                c.expect(b')')?;
                Ok(v & m)
            }
            b"sub" | b"add" | b"xor" | b"mul" => {
                while matches!(c.peek_word(), b"nuw" | b"nsw") { c.word(); }
                c.expect(b'(')?;
                let t1 = self.ty(c)?; let a = self.const_scalar(c, &t1)?; c.expect(b',')?;
                let t2 = self.ty(c)?; let b = self.const_scalar(c, &t2)?; c.expect(b')')?;
                Ok(match w { b"sub" => a.wrapping_sub(b), b"add" => a.wrapping_add(b), b"mul" => a.wrapping_mul(b), _ => a ^ b } & m)
            }
            _ => {
                let s = std::str::from_utf8(w).unwrap_or("");
                if matches!(t, Ty::F32 | Ty::F64) {
                    // hex double or decimal
                    let mut s = s.to_string();
                    if c.p < c.s.len() && c.s[c.p] == b'+' { c.p += 1; s.push('+'); s.push_str(std::str::from_utf8(c.word()).unwrap_or("")); }
                    let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) }
                        else if let Some(h) = s.strip_prefix("f0x") {
                            let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(b as u128);
                        } else { s.parse::<f64>().map_err(|e| format!("float {s}: {e}"))? };
                    return Ok(if *t == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 });
                }
                s.parse::<i128>().map(|x| x as u128).or_else(|_| s.parse::<u128>()).map(|x| x & m)
                    .map_err(|_| format!("constant '{s}' {}", c.rest()))
            }
        }
    }
    fn sym_addr(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.gmap.get(n) { return Ok(self.globals[g].addr); }
        if let Some(&f) = self.fmap.get(n) { return Ok(Self::faddr(f)); }
        Err(format!("unknown symbol @{n}"))
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        let e = &self.funcs[id as usize];
        if let Some(f) = &*e.parsed.borrow() { return Some(f.clone()); }
        let (a, b) = e.lines?;
        let f = Rc::new(self.parse_func(id, &e.name, a, b));
        *e.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }

    fn parse_func(&self, id: u32, name: &str, a: usize, b: usize) -> Func {
        let mut regs: HashMap<String, u32> = HashMap::new();
        // params
        let hdr = self.line(a).to_vec();
        let mut nparams = 0;
        let mut unnamed = 0;
        let dbg = dbg_id(&hdr);
        {
            let at = hdr.iter().position(|&c| c == b'@').unwrap();
            let mut c = Cur { s: &hdr, p: at + 1 };
            let _ = c.name();
            c.expect(b'(').unwrap();
            if !c.eat(b')') {
                loop {
                    if c.s[c.p..].starts_with(b"...") { c.p += 3; }
                    else {
                        self.ty(&mut c).unwrap(); c.attrs();
                        if c.peek() != b'%' { panic!("param of {name}: {}", c.rest()); }
                        c.p += 1;
                        let n = c.name().unwrap();
                        if n.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; }
                        regs.insert(n, nparams); nparams += 1;
                    }
                    if c.eat(b')') { break; }
                    c.expect(b',').unwrap();
                }
            }
        }
        // block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut raw: Vec<(String, Vec<Vec<u8>>)> = vec![];
        let mut i = a + 1;
        while i < b {
            let l = self.line(i);
            if l.is_empty() || l.starts_with(b";") { i += 1; continue; }
            if l[0] != b' ' {
                let mut c = Cur { s: l, p: 0 };
                let n = c.name().unwrap();
                labels.insert(n.clone(), raw.len() as u32);
                raw.push((n, vec![]));
                i += 1; continue;
            }
            let mut t = l.to_vec();
            let tr = &l[2..];
            if tr.starts_with(b"#dbg") || tr.starts_with(b";") { i += 1; continue; }
            if tr.starts_with(b"switch ") {
                while !self.line(i).ends_with(b"]") && !self.line(i).starts_with(b"  ]") { i += 1; t.push(b' '); t.extend_from_slice(self.line(i)); }
            } else {
                while i + 1 < b && self.line(i + 1).starts_with(b"          ") { i += 1; t.push(b' '); t.extend_from_slice(self.line(i)); }
            }
            if raw.is_empty() { labels.insert(unnamed.to_string(), 0); raw.push((String::from("<entry>"), vec![])); }
            raw.last_mut().unwrap().1.push(t);
            i += 1;
        }
        let mut blocks = vec![];
        let mut next = nparams;
        for (bn, ls) in &raw {
            let mut blk = Block { name: bn.clone(), phis: vec![], insts: vec![] };
            for l in ls {
                let dbg = dbg_id(l);
                let mut c = Cur { s: l, p: 0 };
                let mut dst = u32::MAX;
                if c.peek() == b'%' {
                    c.p += 1; let n = c.name().unwrap();
                    c.expect(b'=').unwrap();
                    dst = *regs.entry(n).or_insert_with(|| { next += 1; next - 1 });
                }
                let st = c.p;
                if c.peek_word() == b"phi" {
                    c.word();
                    match self.parse_phi(&mut c, &mut regs, &mut next, &labels) {
                        Ok(p) => blk.phis.push((dst, p)),
                        Err(e) => panic!("phi in {name}: {e}"),
                    }
                    continue;
                }
                let i = match self.parse_inst(&mut c, &mut regs, &mut next, &labels) {
                    Ok(i) => i,
                    Err(e) => I::Unsupported(format!("{e}: {}", String::from_utf8_lossy(&l[st..l.len().min(st + 160)]))),
                };
                blk.insts.push(Inst { i, dst, dbg });
            }
            blocks.push(blk);
        }
        Func { id, name: name.to_string(), nregs: next, nparams, blocks, dbg }
    }

    fn opd(&self, c: &mut Cur, t: &Ty, regs: &mut HashMap<String, u32>, next: &mut u32) -> R<Opd> {
        if c.peek() == b'%' {
            c.p += 1; let n = c.name()?;
            let r = *regs.entry(n).or_insert_with(|| { *next += 1; *next - 1 });
            return Ok(Opd::Reg(r));
        }
        match t {
            Ty::Struct(fs, packed) => {
                if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") {
                    return Ok(Opd::Agg(Rc::new(fs.iter().map(|f| zero_opd(f)).collect())));
                }
                if *packed { c.expect(b'<')?; }
                c.expect(b'{')?;
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() { if i > 0 { c.expect(b',')?; } self.ty(c)?; v.push(self.opd(c, f, regs, next)?); }
                c.expect(b'}')?;
                if *packed { c.expect(b'>')?; }
                Ok(Opd::Agg(Rc::new(v)))
            }
            Ty::Arr(n, et) => {
                if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") {
                    return Ok(Opd::Agg(Rc::new((0..*n).map(|_| zero_opd(et)).collect())));
                }
                c.expect(b'[')?;
                let mut v = vec![];
                for i in 0..*n { if i > 0 { c.expect(b',')?; } self.ty(c)?; v.push(self.opd(c, et, regs, next)?); }
                c.expect(b']')?;
                Ok(Opd::Agg(Rc::new(v)))
            }
            Ty::Vec(n, et) => {
                if c.eatw("zeroinitializer") || c.eatw("undef") || c.eatw("poison") {
                    return Ok(Opd::Agg(Rc::new((0..*n).map(|_| zero_opd(et)).collect())));
                }
                if c.eatw("splat") {
                    c.expect(b'(')?; self.ty(c)?;
                    let o = self.opd(c, et, regs, next)?;
                    c.expect(b')')?;
                    return Ok(Opd::Agg(Rc::new(vec![o; *n as usize])));
                }
                c.expect(b'<')?;
                let mut v = vec![];
                for i in 0..*n { if i > 0 { c.expect(b',')?; } self.ty(c)?; v.push(self.opd(c, et, regs, next)?); }
                c.expect(b'>')?;
                Ok(Opd::Agg(Rc::new(v)))
            }
            Ty::Other => { // metadata
                while c.p < c.s.len() && !matches!(c.s[c.p], b',' | b')') { if c.s[c.p] == b'(' { c.skip_parens(); } else { c.p += 1; } }
                Ok(Opd::C(0))
            }
            _ => {
                let v = self.const_scalar(c, t)?;
                if t.bits() > 64 { Ok(Opd::Big(v)) } else { Ok(Opd::C(v as u64 & mask64(t.bits()))) }
            }
        }
    }
    fn parse_phi(&self, c: &mut Cur, regs: &mut HashMap<String, u32>, next: &mut u32, labels: &HashMap<String, u32>) -> R<HashMap<u32, Opd>> {
        let t = self.ty(c)?;
        let mut m = HashMap::new();
        loop {
            c.expect(b'[')?;
            let o = self.opd(c, &t, regs, next)?;
            c.expect(b',')?; c.expect(b'%')?;
            let n = c.name()?;
            c.expect(b']')?;
            m.insert(*labels.get(&n).ok_or_else(|| format!("label {n}"))?, o);
            if !c.eat(b',') { break; }
            if c.peek() != b'[' { break; }
        }
        Ok(m)
    }
    fn label(&self, c: &mut Cur, labels: &HashMap<String, u32>) -> R<u32> {
        if !c.eatw("label") { return Err(format!("label expected {}", c.rest())); }
        c.expect(b'%')?;
        let n = c.name()?;
        labels.get(&n).copied().ok_or_else(|| format!("label {n}"))
    }

    fn parse_inst(&self, c: &mut Cur, regs: &mut HashMap<String, u32>, next: &mut u32, labels: &HashMap<String, u32>) -> R<I> {
        let mut w = c.word();
        if matches!(w, b"tail" | b"musttail" | b"notail") { w = c.word(); }
        let skip_flags = |c: &mut Cur| while matches!(c.peek_word(), b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"volatile" | b"atomic" | b"weak" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc") { c.word(); };
        let binop = |w: &[u8]| Some(match w {
            b"add" => BinOp::Add, b"sub" => BinOp::Sub, b"mul" => BinOp::Mul, b"udiv" => BinOp::UDiv, b"sdiv" => BinOp::SDiv,
            b"urem" => BinOp::URem, b"srem" => BinOp::SRem, b"and" => BinOp::And, b"or" => BinOp::Or, b"xor" => BinOp::Xor,
            b"shl" => BinOp::Shl, b"lshr" => BinOp::LShr, b"ashr" => BinOp::AShr, _ => return None });
        if let Some(op) = binop(w) {
            skip_flags(c);
            let t = self.ty(c)?;
            let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
            let b = self.opd(c, &t, regs, next)?;
            let (l, t) = lanes(&t);
            if !matches!(t, Ty::Int(w) if *w <= 128) { return Err("binop type".into()); }
            return Ok(vec2(l, |a, b| I::Bin(op, t.bits(), a, b), a, b));
        }
        match w {
            b"icmp" => {
                skip_flags(c);
                let p = match c.word() {
                    b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge, b"ult" => Pred::Ult, b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, b"slt" => Pred::Slt, b"sle" => Pred::Sle, _ => return Err("pred".into()) };
                let t = self.ty(c)?;
                let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let b = self.opd(c, &t, regs, next)?;
                let (l, t) = lanes(&t);
                if !t.is_scalar() { return Err("icmp type".into()); }
                Ok(vec2(l, |a, b| I::Icmp(p, t.bits(), a, b), a, b))
            }
            b"fcmp" => {
                skip_flags(c);
                let p = match c.word() {
                    b"false" => 0, b"oeq" => 1, b"ogt" => 2, b"oge" => 3, b"olt" => 4, b"ole" => 5, b"one" => 6, b"ord" => 7,
                    b"uno" => 8, b"ueq" => 9, b"ugt" => 10, b"uge" => 11, b"ult" => 12, b"ule" => 13, b"une" => 14, b"true" => 15, _ => return Err("fcmp".into()) };
                let t = self.ty(c)?;
                let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let b = self.opd(c, &t, regs, next)?;
                let (l, t) = lanes(&t);
                if !matches!(t, Ty::F32 | Ty::F64) { return Err("fcmp type".into()); }
                Ok(vec2(l, |a, b| I::Fcmp(p, t.bits(), a, b), a, b))
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"fneg" => {
                skip_flags(c);
                let t = self.ty(c)?;
                let a = self.opd(c, &t, regs, next)?;
                let (l, et) = lanes(&t);
                if !matches!(et, Ty::F32 | Ty::F64) { return Err("float type".into()); }
                if w == b"fneg" { return Ok(vec1(l, |a| I::FNeg(et.bits(), a), a)); }
                c.expect(b',')?;
                let b = self.opd(c, &t, regs, next)?;
                Ok(vec2(l, |a, b| I::Fbin(w[1], et.bits(), a, b), a, b))
            }
            b"fpext" | b"fptrunc" | b"sitofp" | b"uitofp" | b"fptosi" | b"fptoui" => {
                skip_flags(c);
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?;
                if !c.eatw("to") { return Err("to".into()); }
                let to = self.ty(c)?;
                let k = match w { b"fpext" => "ext", b"fptrunc" => "trunc", b"sitofp" => "froms", b"uitofp" => "fromu", b"fptosi" => "tos", _ => "tou" };
                let (l, t) = lanes(&t);
                let (_, to) = lanes(&to);
                let fl = |t: &Ty| matches!(t, Ty::F32 | Ty::F64);
                let it = |t: &Ty| matches!(t, Ty::Int(n) if *n <= 64);
                let fit = match k { "ext" | "trunc" => fl(t) && fl(to), "froms" | "fromu" => it(t) && fl(to), _ => fl(t) && it(to) };
                if !fit { return Err("float conversion".into()); }
                Ok(vec1(l, |a| I::FConv(k, t.bits(), to.bits(), a), a))
            }
            b"select" => {
                skip_flags(c);
                let ct = self.ty(c)?; let q = self.opd(c, &ct, regs, next)?; c.expect(b',')?;
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let _ = self.ty(c)?; let b = self.opd(c, &t, regs, next)?;
                if let (Ty::Vec(n, _), (_, et)) = (&ct, lanes(&t)) { return Ok(I::Lanes(*n, Box::new(I::Select(et.clone(), Opd::Reg(0), Opd::Reg(1), Opd::Reg(2))), vec![q, a, b])); }
                if ct != Ty::Int(1) { return Err("select condition".into()); }
                Ok(I::Select(t, q, a, b))
            }
            b"zext" | b"sext" | b"trunc" | b"bitcast" | b"inttoptr" | b"ptrtoint" | b"freeze" | b"ptrtoaddr" => {
                skip_flags(c);
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?;
                if w == b"freeze" { return Ok(I::Copy(a)); }
                if !c.eatw("to") { return Err("to".into()); }
                let to = self.ty(c)?;
                if w == b"bitcast" && (lanes(&t).0 > 0 || lanes(&to).0 > 0) {
                    if t.bits() != to.bits() { return Err("bitcast".into()); }
                    return Ok(I::VCast(t, to, a));
                }
                let (l, et) = lanes(&t);
                let (_, to) = lanes(&to);
                let (f, g) = (et.bits(), to.bits());
                if f == 0 || g == 0 || f > 128 || g > 128 { return Err("cast type".into()); }
                let k = match w {
                    b"bitcast" => { if f != g { return Err("bitcast".into()); } 2 }
                    b"zext" => 0, b"sext" => 1, b"trunc" => 3,
                    _ => if f == g { 2 } else if f < g { 0 } else { 3 },
                };
                Ok(vec1(l, |a| match k { 0 => I::ZExt(f, g, a), 1 => I::SExt(f, g, a), 3 => I::Trunc(f, g, a), _ => I::Copy(a) }, a))
            }
            b"extractelement" => {
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let it = self.ty(c)?; let i = self.opd(c, &it, regs, next)?;
                Ok(I::ExtElem(a, i))
            }
            b"insertelement" => {
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let vt = self.ty(c)?; let v = self.opd(c, &vt, regs, next)?; c.expect(b',')?;
                let it = self.ty(c)?; let i = self.opd(c, &it, regs, next)?;
                Ok(I::InsElem(a, v, i))
            }
            b"shufflevector" => {
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let _ = self.ty(c)?; let b = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let mt = self.ty(c)?; let m = self.opd(c, &mt, regs, next)?;
                let Opd::Agg(m) = m else { return Err("shuffle mask".into()) };
                Ok(I::Shuffle(a, b, m.iter().map(|o| match o { Opd::C(k) => *k as u32, _ => 0 }).collect()))
            }
            b"load" => {
                skip_flags(c);
                let t = self.ty(c)?; c.expect(b',')?;
                let pt = self.ty(c)?; let p = self.opd(c, &pt, regs, next)?;
                Ok(I::Load(t, p))
            }
            b"store" => {
                skip_flags(c);
                let t = self.ty(c)?; let v = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let pt = self.ty(c)?; let p = self.opd(c, &pt, regs, next)?;
                Ok(I::Store(t, v, p))
            }
            b"getelementptr" => {
                skip_flags(c);
                let bt = self.ty(c)?; c.expect(b',')?;
                let pt = self.ty(c)?; let p = self.opd(c, &pt, regs, next)?;
                if pt != Ty::Ptr { return Err("vector gep".into()); }
                let mut off = 0i64; let mut idx = vec![];
                let mut cur = bt; let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' { break; }
                    let it = self.ty(c)?;
                    let o = self.opd(c, &it, regs, next)?;
                    let k = match &o { Opd::C(v) => Some(super::expr::sx(*v as u128, it.bits() as u8) as i64), _ => None };
                    if first {
                        first = false;
                        match k { Some(v) => off += v * cur.size() as i64, None => idx.push((o, cur.size() as i64, it.bits())) }
                    } else {
                        match cur.clone() {
                            Ty::Struct(f, _) => { let k = k.ok_or("gep struct idx")?; off += cur.offset(k as usize) as i64; cur = f[k as usize].clone(); }
                            Ty::Arr(_, t) => { match k { Some(v) => off += v * t.size() as i64, None => idx.push((o, t.size() as i64, it.bits())) }; cur = *t; }
                            _ => return Err("gep".into()),
                        }
                    }
                }
                Ok(I::Gep(p, off, idx))
            }
            b"alloca" => {
                let t = self.ty(c)?;
                if c.eat(b',') && c.peek_word() != b"align" && c.peek() != b'!' { return Err("dynamic alloca".into()); }
                Ok(I::Alloca(t.size()))
            }
            b"br" => {
                if c.peek_word() == b"label" { return Ok(I::Br(self.label(c, labels)?)); }
                let t = self.ty(c)?; let q = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let a = self.label(c, labels)?; c.expect(b',')?;
                let b = self.label(c, labels)?;
                Ok(I::CondBr(q, a, b))
            }
            b"switch" => {
                let t = self.ty(c)?; let v = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let d = self.label(c, labels)?;
                c.expect(b'[')?;
                let mut cs = vec![];
                while !c.eat(b']') {
                    let _ = self.ty(c)?; let k = self.const_scalar(c, &t)?; c.expect(b',')?;
                    cs.push((k, self.label(c, labels)?));
                }
                Ok(I::Switch(t.bits(), v, d, cs))
            }
            b"ret" => {
                let t = self.ty(c)?;
                if t == Ty::Void { return Ok(I::Ret(None)); }
                Ok(I::Ret(Some(self.opd(c, &t, regs, next)?)))
            }
            b"unreachable" => Ok(I::Unreachable),
            b"extractvalue" => {
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?;
                let mut ix = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } ix.push(c.int()? as u32); }
                Ok(I::Extract(a, ix))
            }
            b"insertvalue" => {
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let vt = self.ty(c)?; let v = self.opd(c, &vt, regs, next)?;
                let mut ix = vec![];
                while c.eat(b',') { if c.peek() == b'!' { break; } ix.push(c.int()? as u32); }
                Ok(I::Insert(t, a, v, ix))
            }
            b"fence" => Ok(I::Nop),
            b"atomicrmw" => {
                skip_flags(c);
                let op = String::from_utf8_lossy(c.word()).into_owned();
                let pt = self.ty(c)?; let p = self.opd(c, &pt, regs, next)?; c.expect(b',')?;
                let t = self.ty(c)?; let v = self.opd(c, &t, regs, next)?;
                Ok(I::Rmw(op, t, p, v))
            }
            b"cmpxchg" => {
                skip_flags(c);
                let pt = self.ty(c)?; let p = self.opd(c, &pt, regs, next)?; c.expect(b',')?;
                let t = self.ty(c)?; let a = self.opd(c, &t, regs, next)?; c.expect(b',')?;
                let _ = self.ty(c)?; let b = self.opd(c, &t, regs, next)?;
                Ok(I::CmpXchg(t, p, a, b))
            }
            b"landingpad" | b"resume" => Err("unwinding".into()),
            b"call" | b"invoke" => {
                loop {
                    let w = c.peek_word();
                    match w {
                        b"fastcc" | b"ccc" | b"coldcc" | b"tailcc" | b"nnan" | b"ninf" | b"nsz" | b"fast" | b"preserve_mostcc" | b"preserve_nonecc" => { c.p += w.len(); }
                        b"cc" => { c.word(); c.word(); }
                        _ => { let p = c.p; c.attrs(); if c.p == p { break; } }
                    }
                }
                let rty = self.ty(c)?;
                c.attrs();
                if c.peek() == b'(' { c.skip_parens(); } // function type for varargs
                if c.eatw("asm") { return Err("inline asm".into()); }
                let callee = match c.peek() {
                    b'@' => {
                        c.p += 1; let n = c.name()?;
                        if n.starts_with("llvm.") { Callee::Intr(n) }
                        else { Callee::Func(*self.fmap.get(&n).ok_or_else(|| format!("callee {n}"))?) }
                    }
                    _ => Callee::Ind(self.opd(c, &Ty::Ptr, regs, next)?),
                };
                c.expect(b'(')?;
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.ty(c)?; c.attrs();
                        let o = self.opd(c, &t, regs, next)?;
                        args.push((t, o));
                        if c.eat(b')') { break; }
                        c.expect(b',')?;
                    }
                }
                let mut normal = None;
                if w == b"invoke" {
                    // skip function attributes up to "to label"
                    let rest = &c.s[c.p..];
                    let k = find(rest, b"to label %").ok_or("invoke")?;
                    c.p += k + 3;
                    normal = Some(self.label(c, labels)?);
                }
                Ok(I::Call { callee, args, rty, normal })
            }
            _ => Err("instruction".into()),
        }
    }
}

fn zero_opd(t: &Ty) -> Opd {
    match t {
        Ty::Struct(fs, _) => Opd::Agg(Rc::new(fs.iter().map(zero_opd).collect())),
        Ty::Arr(n, e) => Opd::Agg(Rc::new((0..*n).map(|_| zero_opd(e)).collect())),
        Ty::Vec(n, e) => Opd::Agg(Rc::new((0..*n).map(|_| zero_opd(e)).collect())),
        _ if t.bits() > 64 => Opd::Big(0),
        _ => Opd::C(0),
    }
}
/// number of lanes (0: scalar) and element type
fn lanes(t: &Ty) -> (u32, &Ty) { match t { Ty::Vec(n, e) => (*n, e), _ => (0, t) } }
fn vec1(l: u32, f: impl Fn(Opd) -> I, a: Opd) -> I { if l == 0 { f(a) } else { I::Lanes(l, Box::new(f(Opd::Reg(0))), vec![a]) } }
fn vec2(l: u32, f: impl Fn(Opd, Opd) -> I, a: Opd, b: Opd) -> I { if l == 0 { f(a, b) } else { I::Lanes(l, Box::new(f(Opd::Reg(0), Opd::Reg(1))), vec![a, b]) } }
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
fn dbg_id(l: &[u8]) -> u32 {
    match find(l, b"!dbg !") {
        Some(k) => { let mut v = 0u32; for &b in &l[k + 6..] { if b.is_ascii_digit() { v = v * 10 + (b - b'0') as u32 } else { break } } v }
        None => u32::MAX,
    }
}
fn fname(l: &[u8]) -> R<String> {
    let at = l.iter().position(|&c| c == b'@').ok_or("no function name")?;
    let mut c = Cur { s: l, p: at + 1 };
    c.name()
}
