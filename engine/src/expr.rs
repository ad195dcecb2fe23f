//! Hash-consed bit-vector expressions with light simplification.
//! Every node carries its width, known bits, an unsigned interval and the set of
//! symbolic input bytes it depends on.
use std::collections::HashMap;
use std::rc::Rc;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, // IEEE 754 on the bits, nearest even; every NaN result is the positive quiet one
}
/// conversions between floating point formats and integers; out of range integers are excluded by the caller
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fc { Ext, Trunc, FromS, FromU, ToS, ToU, Floor, Ceil, Rtz, Rne, Rna }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(Op, Eid, Eid),
    Ite(Eid, Eid, Eid),
    ZExt(Eid),
    SExt(Eid),
    Extract(Eid, u8),
    Concat(Eid, Eid), // hi, lo
    Conv(Fc, Eid),
}

pub const NV: usize = 8; // 512 symbolic bytes
pub type VarSet = [u64; NV];

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub kz: u128, // known zero bits
    pub ko: u128, // known one bits
    pub lo: u128,
    pub hi: u128,
    pub vs: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u8), Eid>,
    pub vsets: Vec<VarSet>,
    vmap: HashMap<VarSet, u32>,
    vunion: HashMap<(u32, u32), u32>,
    // evaluation scratch
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    ev_cur: u32,
    lins: HashMap<Eid, Rc<Lin>>,
    tabs: HashMap<Eid, Dom>,
    uconst: HashMap<(Eid, Dom), Option<u128>>,
    pub uses_fp: bool,
    single: Vec<Option<u32>>, // per variable set: the one variable it holds
}

/// set of values of one input byte
pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_not(a: &Dom) -> Dom { [!a[0], !a[1], !a[2], !a[3]] }
pub fn dom_empty(a: &Dom) -> bool { a.iter().all(|x| *x == 0) }
pub fn dom_has(a: &Dom, v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_count(a: &Dom) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn dom_vals(a: &Dom) -> Vec<u8> { (0..=255u8).filter(|v| dom_has(a, *v)).collect() }

/// sum of coefficient * term, plus a constant, modulo 2^width
#[derive(Clone, Default)]
pub struct Lin { pub t: Vec<(Eid, u128)>, pub c: u128 }

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn f32b(x: f32) -> u128 { if x.is_nan() { 0x7FC0_0000 } else { x.to_bits() as u128 } }
fn f64b(x: f64) -> u128 { if x.is_nan() { 0x7FF8_0000_0000_0000 } else { x.to_bits() as u128 } }

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![], map: HashMap::new(), vsets: vec![[0; NV]], vmap: HashMap::new(),
            vunion: HashMap::new(), ev_stamp: vec![], ev_val: vec![], ev_cur: 0, lins: HashMap::new(), tabs: HashMap::new(), uconst: HashMap::new(), single: vec![], uses_fp: false,
        };
        a.vmap.insert([0; NV], 0);
        a.cst(0, 1); // id 0 is reserved so that 0 can mean "concrete byte"
        a
    }
    #[inline] pub fn n(&self, e: Eid) -> &Node { &self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: Eid) -> u8 { self.nodes[e as usize].w }
    #[inline] pub fn as_const(&self, e: Eid) -> Option<u128> {
        if let K::Const(c) = self.nodes[e as usize].k { Some(c) } else { None }
    }
    fn vset_id(&mut self, s: VarSet) -> u32 {
        if let Some(&i) = self.vmap.get(&s) { return i; }
        let i = self.vsets.len() as u32;
        self.vsets.push(s); self.vmap.insert(s, i); i
    }
    fn vunion(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.vunion.get(&key) { return r; }
        let mut s = self.vsets[a as usize];
        for i in 0..NV { s[i] |= self.vsets[b as usize][i]; }
        let r = self.vset_id(s);
        self.vunion.insert(key, r); r
    }
    pub fn vars(&self, e: Eid) -> &VarSet { &self.vsets[self.n(e).vs as usize] }

    fn intern(&mut self, k: K, w: u8) -> Eid {
        if let Some(&e) = self.map.get(&(k, w)) { return e; }
        let (kz, ko, mut lo, mut hi, vs) = self.facts(k, w);
        let m = mask(w);
        // combine
        lo = lo.max(ko); hi = hi.min(m & !kz);
        if lo > hi { lo = ko; hi = m & !kz; }
        if !matches!(k, K::Const(_)) {
            if (kz | ko) & m == m { return self.cst(ko, w); }
            if lo == hi { return self.cst(lo, w); }
        }
        if matches!(k, K::Conv(..) | K::Bin(Op::FAdd | Op::FSub | Op::FMul | Op::FDiv, ..)) { self.uses_fp = true; }
        let e = self.nodes.len() as Eid;
        self.nodes.push(Node { k, w, kz, ko, lo, hi, vs });
        self.map.insert((k, w), e);
        e
    }
    fn facts(&mut self, k: K, w: u8) -> (u128, u128, u128, u128, u32) {
        let m = mask(w);
        match k {
            K::Const(c) => (m & !c, c, c, c, 0),
            K::Var(i) => {
                let mut s = [0; NV];
                s[(i / 64) as usize] |= 1 << (i % 64);
                let v = self.vset_id(s);
                (0, 0, 0, m, v)
            }
            K::ZExt(a) => { let n = *self.n(a); (n.kz | (m & !mask(n.w)), n.ko, n.lo, n.hi, n.vs) }
            K::SExt(a) => {
                let n = *self.n(a); let im = mask(n.w); let top = 1u128 << (n.w - 1);
                let ext = m & !im;
                let kz = (n.kz & im) | if n.kz & top != 0 { ext } else { 0 };
                let ko = n.ko | if n.ko & top != 0 { ext } else { 0 };
                (kz, ko, 0, m, n.vs)
            }
            K::Extract(a, lo) => {
                let n = *self.n(a);
                let (l, h) = if lo == 0 && n.hi <= m { (n.lo, n.hi) }
                    else if w + lo == n.w { (n.lo >> lo, n.hi >> lo) } else { (0, m) };
                ((n.kz >> lo) & m, (n.ko >> lo) & m, l, h, n.vs)
            }
            K::Concat(h, l) => {
                let (nh, nl) = (*self.n(h), *self.n(l));
                let vs = self.vunion(nh.vs, nl.vs);
                ((nh.kz << nl.w) | nl.kz, (nh.ko << nl.w) | nl.ko,
                 (nh.lo << nl.w) | nl.lo, (nh.hi << nl.w) | nl.hi, vs)
            }
            K::Ite(c, a, b) => {
                let (nc, na, nb) = (*self.n(c), *self.n(a), *self.n(b));
                let v = self.vunion(na.vs, nb.vs); let vs = self.vunion(v, nc.vs);
                (na.kz & nb.kz, na.ko & nb.ko, na.lo.min(nb.lo), na.hi.max(nb.hi), vs)
            }
            K::Conv(_, a) => (0, 0, 0, m, self.n(a).vs),
            K::Bin(op, a, b) => {
                let (na, nb) = (*self.n(a), *self.n(b));
                let vs = self.vunion(na.vs, nb.vs);
                let cb = self.as_const(b);
                let full = (0u128, 0u128, 0u128, m);
                let (kz, ko, lo, hi) = match op {
                    Op::And => (na.kz | nb.kz, na.ko & nb.ko, 0, na.hi.min(nb.hi)),
                    Op::Or => (na.kz & nb.kz, na.ko | nb.ko, na.lo.max(nb.lo), m),
                    Op::Xor => ((na.kz & nb.kz) | (na.ko & nb.ko), (na.kz & nb.ko) | (na.ko & nb.kz), 0, m),
                    Op::Shl => match cb {
                        Some(s) if s < w as u128 => {
                            let s = s as u32;
                            let low = (1u128 << s) - 1;
                            let (l, h) = if na.hi.leading_zeros() >= s && (na.hi << s) <= m { (na.lo << s, na.hi << s) } else { (0, m) };
                            (((na.kz << s) | low) & m, (na.ko << s) & m, l, h)
                        }
                        _ => full,
                    },
                    Op::LShr => match cb {
                        Some(s) if s < w as u128 => {
                            let s = s as u32;
                            (((na.kz >> s) | (m & !(m >> s))) & m, na.ko >> s, na.lo >> s, na.hi >> s)
                        }
                        _ => (0, 0, 0, na.hi),
                    },
                    Op::Add => {
                        let (l, h) = match na.hi.checked_add(nb.hi) {
                            Some(h) if h <= m => (na.lo + nb.lo, h), _ => (0, m) };
                        let tz = (!na.kz).trailing_zeros().min((!nb.kz).trailing_zeros());
                        let k = if tz == 0 { 0 } else if tz >= 128 { m } else { ((1u128 << tz) - 1) & m };
                        (k, 0, l, h)
                    }
                    Op::Sub => { if na.lo >= nb.hi { (0, 0, na.lo - nb.hi, na.hi - nb.lo) } else { full } }
                    Op::Mul => {
                        let (l, h) = match na.hi.checked_mul(nb.hi) {
                            Some(h) if h <= m => (na.lo * nb.lo, h), _ => (0, m) };
                        let tz = ((!na.kz).trailing_zeros() + (!nb.kz).trailing_zeros()).min(127);
                        (((1u128 << tz) - 1) & m, 0, l, h)
                    }
                    Op::UDiv => match cb { Some(c) if c != 0 => (0, 0, na.lo / c, na.hi / c), _ => full },
                    Op::URem => match cb { Some(c) if c != 0 => (0, 0, 0, (c - 1).min(na.hi)), _ => full },
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 0, 0, 1),
                    _ => full,
                };
                (kz & m, ko & m, lo, hi, vs)
            }
        }
    }
    pub fn cst(&mut self, v: u128, w: u8) -> Eid { self.intern(K::Const(v & mask(w)), w) }
    pub fn var(&mut self, i: u32) -> Eid { self.intern(K::Var(i), 8) }
    pub fn tru(&mut self) -> Eid { self.cst(1, 1) }
    pub fn fls(&mut self) -> Eid { self.cst(0, 1) }
    pub fn not(&mut self, e: Eid) -> Eid { let o = self.tru(); self.bin(Op::Xor, e, o) }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid { self.bin(Op::Or, a, b) }
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid { self.bin(Op::Eq, a, b) }

    pub fn zext(&mut self, a: Eid, w: u8) -> Eid {
        let aw = self.w(a);
        if aw == w { return a; }
        assert!(w > aw);
        match self.n(a).k {
            K::Const(c) => return self.cst(c, w),
            K::ZExt(b) => return self.zext(b, w),
            _ => {}
        }
        self.intern(K::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Eid, w: u8) -> Eid {
        let n = *self.n(a);
        if n.w == w { return a; }
        if let K::Const(c) = n.k { return self.cst(sx(c, n.w) as u128, w); }
        if n.kz & (1u128 << (n.w - 1)) != 0 || n.hi < 1u128 << (n.w - 1) { return self.zext(a, w); }
        if let K::SExt(b) = n.k { return self.sext(b, w); }
        self.intern(K::SExt(a), w)
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: Eid, lo: u8, w: u8) -> Eid {
        let n = *self.n(a);
        if lo == 0 && w == n.w { return a; }
        assert!(lo + w <= n.w, "extract {lo}+{w} of {}", n.w);
        match n.k {
            K::Const(c) => return self.cst(c >> lo, w),
            K::Extract(b, l2) => return self.extract(b, lo + l2, w),
            K::ZExt(b) => {
                let bw = self.w(b);
                if lo >= bw { return self.cst(0, w); }
                if lo + w <= bw { return self.extract(b, lo, w); }
                let x = self.extract(b, lo, bw - lo);
                return self.zext(x, w);
            }
            K::SExt(b) => {
                let bw = self.w(b);
                if lo + w <= bw { return self.extract(b, lo, w); }
                if lo == 0 { return self.sext(b, w); }
            }
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, w); }
                if lo + w <= lw { return self.extract(l, lo, w); }
                let lowpart = self.extract(l, lo, lw - lo);
                let hipart = self.extract(h, 0, w - (lw - lo));
                return self.concat(hipart, lowpart);
            }
            K::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            K::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                return self.bin(op, x, y);
            }
            K::Bin(Op::Shl, x, s) => if let Some(s) = self.as_const(s) {
                if s < n.w as u128 {
                    let s = s as u8;
                    if lo >= s { return self.extract(x, lo - s, w); }
                    if lo + w <= s { return self.cst(0, w); }
                    let keep = w - (s - lo);
                    let x = self.extract(x, 0, keep);
                    let z = self.cst(0, s - lo);
                    return self.concat(x, z);
                }
            },
            K::Bin(Op::LShr, x, s) => if let Some(s) = self.as_const(s) {
                if s < n.w as u128 {
                    let s = s as u8;
                    if lo + s >= n.w { return self.cst(0, w); }
                    if lo + s + w <= n.w { return self.extract(x, lo + s, w); }
                    let k = n.w - lo - s;
                    let x = self.extract(x, lo + s, k);
                    return self.zext(x, w);
                }
            },
            K::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() || lo == 0 {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    return self.ite(c, x, y);
                }
            }
            _ => {}
        }
        self.intern(K::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (nh, nl) = (*self.n(h), *self.n(l));
        let w = nh.w + nl.w;
        match (nh.k, nl.k) {
            (K::Const(a), K::Const(b)) => return self.cst((a << nl.w) | b, w),
            (K::Const(0), _) => return self.zext(l, w),
            (K::Extract(x, hl), K::Extract(y, ll)) if x == y && hl == ll + nl.w =>
                return self.extract(x, ll, w),
            // hi part is the extract just above a plain low operand
            (K::Extract(x, hl), _) if hl == nl.w && {
                let xw = self.w(x);
                hl + nh.w <= xw && self.extract(x, 0, nl.w) == l
            } => return self.extract(x, 0, w),
            (K::Extract(x, hl), K::Concat(lh, ll)) => if let K::Extract(y, l2) = self.n(lh).k {
                if x == y && hl == l2 + self.w(lh) {
                    let t = self.extract(x, l2, nh.w + self.w(lh));
                    return self.concat(t, ll);
                }
            },
            (K::ZExt(x), _) => {
                let xl = self.concat(x, l);
                return self.zext(xl, w);
            }
            _ => {}
        }
        self.intern(K::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b { return a; }
        match self.as_const(c) { Some(0) => return b, Some(_) => return a, None => {} }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        // ite(!c, a, b) => ite(c, b, a)
        if let K::Bin(Op::Xor, x, y) = self.n(c).k {
            if self.as_const(y) == Some(1) { return self.ite(x, b, a); }
        }
        if let K::Ite(c2, x, _) = self.n(a).k { if c2 == c { return self.ite(c, x, b); } }
        if let K::Ite(c2, _, y) = self.n(b).k { if c2 == c { return self.ite(c, a, y); } }
        if let K::Bin(Op::Eq, y, k) = self.n(c).k {
            if let Some(k) = self.as_const(k) {
                if let (Some(p), Some(q)) = (self.under(a, y, k, 3), self.under(b, y, k, 3)) {
                    if p == q && self.as_const(b).is_none() { return b; }
                }
            }
        }
        // |x| where the sign of x is known
        if let K::Bin(Op::Slt, x, z) = self.n(c).k {
            if x == b && self.as_const(z) == Some(0) {
                if let K::Bin(Op::Sub, z2, y) = self.n(a).k {
                    if y == x && z2 == z {
                        let r = self.srange(x, 6);
                        if r.1 <= 0 { return a; }
                        if r.0 >= 0 { return b; }
                    }
                }
            }
        }
        self.intern(K::Ite(c, a, b), w)
    }
    pub fn fold(op: Op, a: u128, b: u128, w: u8) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
            Op::UDiv => if b == 0 { m } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
            Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
            Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { a << b },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => { let s = b.min(w as u128 - 1) as u32; (sx(a, w) >> s) as u128 }
            Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
            Op::Slt => (sx(a, w) < sx(b, w)) as u128, Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                f32b(match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y })
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                f64b(match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y })
            },
        };
        match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r, _ => r & m }
    }
    pub fn conv(&mut self, f: Fc, a: Eid, w: u8) -> Eid {
        if let Some(c) = self.as_const(a) { let v = Self::fold_conv(f, c, self.w(a), w); return self.cst(v, w); }
        self.intern(K::Conv(f, a), w)
    }
    fn fold_conv(f: Fc, c: u128, fw: u8, tw: u8) -> u128 {
        let x = if fw == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
        match f {
            Fc::Ext => f64b(x),
            Fc::Trunc => f32b(x as f32),
            Fc::FromS => if tw == 32 { f32b(sx(c, fw) as f32) } else { f64b(sx(c, fw) as f64) },
            Fc::FromU => if tw == 32 { f32b(c as f32) } else { f64b(c as f64) },
            Fc::ToS => (x as i128 as u128) & mask(tw),
            Fc::ToU => (x as u128) & mask(tw),
            _ => {
                let r = match f { Fc::Floor => x.floor(), Fc::Ceil => x.ceil(), Fc::Rtz => x.trunc(), Fc::Rna => x.round(), _ => x.round_ties_even() };
                if tw == 32 { f32b(r as f32) } else { f64b(r) }
            }
        }
    }
    /// comparison of two IEEE values: (less, equal, unordered)
    pub fn fcmp(&mut self, x: Eid, y: Eid) -> (Eid, Eid, Eid) {
        let w = self.w(x);
        let mag = self.cst(mask(w) >> 1, w);
        let z = self.cst(0, w);
        let (ax, ay) = (self.bin(Op::And, x, mag), self.bin(Op::And, y, mag));
        let (nx, ny) = (self.fnan(x), self.fnan(y));
        let un = self.or(nx, ny); let ord = self.not(un);
        let same = self.eq(x, y);
        let both = self.or(ax, ay); let both0 = self.eq(both, z);
        let e = self.or(same, both0); let eq = self.and(e, ord);
        let (sx, sy) = (self.extract(x, w - 1, 1), self.extract(y, w - 1, 1));
        let (l1, l2) = (self.bin(Op::Ult, x, y), self.bin(Op::Ult, y, x));
        let neg = self.ite(sy, l2, sx); // x negative: y negative too, or less
        let nsx = self.not(sx); let nsy = self.not(sy);
        let pos = self.and(nsy, l1);
        let l = self.ite(nsx, pos, neg);
        let nb = self.not(both0); let l = self.and(l, nb); let lt = self.and(l, ord);
        (lt, eq, un)
    }
    pub fn finf(w: u8) -> u128 { if w == 32 { 0x7F80_0000 } else { 0x7FF0_0000_0000_0000 } }
    pub fn fnan(&mut self, x: Eid) -> Eid {
        let w = self.w(x);
        let mag = self.cst(mask(w) >> 1, w); let inf = self.cst(Self::finf(w), w);
        let a = self.bin(Op::And, x, mag);
        self.bin(Op::Ult, inf, a)
    }
    /// the LLVM class bits of `m` that a value belongs to
    pub fn fclass(&mut self, x: Eid, m: u32) -> Eid {
        let w = self.w(x);
        let (inf, quiet) = (Self::finf(w), 1u128 << (if w == 32 { 22 } else { 51 }));
        let minn = 1u128 << (if w == 32 { 23 } else { 52 });
        let mag = self.cst(mask(w) >> 1, w);
        let a = self.bin(Op::And, x, mag);
        let s = self.extract(x, w - 1, 1);
        let mut r = self.fls();
        for (bit, lo, hi, sign) in [(0u32, inf + 1, inf + quiet - 1, None), (1, inf + quiet, mask(w) >> 1, None), (2, inf, inf, Some(1)), (3, minn, inf - 1, Some(1)), (4, 1, minn - 1, Some(1)), (5, 0, 0, Some(1)),
            (6, 0, 0, Some(0)), (7, 1, minn - 1, Some(0)), (8, minn, inf - 1, Some(0)), (9, inf, inf, Some(0))] {
            if m >> bit & 1 == 0 { continue; }
            let (l, h) = (self.cst(lo, w), self.cst(hi, w));
            let p = self.bin(Op::Ule, l, a); let q = self.bin(Op::Ule, a, h);
            let mut c = self.and(p, q);
            if let Some(v) = sign { let t = if v == 1 { s } else { self.not(s) }; c = self.and(c, t); }
            r = self.or(r, c);
        }
        r
    }
    pub fn bin(&mut self, op: Op, mut a: Eid, mut b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let is_cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if is_cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = Self::fold(op, x, y, w);
            return self.cst(v, rw);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            let ca = self.as_const(a).is_some();
            let cb = self.as_const(b).is_some();
            if ca || (!cb && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(w);
        let (na, nb) = (*self.n(a), *self.n(b));
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let (Some(c), K::Bin(Op::Add, x, y)) = (cb, na.k) {
                    if let Some(d) = self.as_const(y) {
                        let s = self.cst(c.wrapping_add(d), w);
                        return self.bin(Op::Add, x, s);
                    }
                }
                // disjoint bits: canonicalise to Or
                if ((na.kz | nb.kz) & m) == m { return self.bin(Op::Or, a, b); }
            }
            Op::Sub => {
                if a == b { return self.cst(0, w); }
                if let Some(c) = cb { let n = self.cst(c.wrapping_neg(), w); return self.bin(Op::Add, a, n); }
                if let (Some(c), K::Bin(Op::Sub, k, y)) = (ca, nb.k) { if let Some(k) = self.as_const(k) { let t = self.cst(c.wrapping_sub(k), w); return self.bin(Op::Add, y, t); } }
            }
            Op::Mul => {
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    Some(c) if c.is_power_of_two() => { let s = self.cst(c.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); }
                    Some(c) if c == m && w > 1 => { let z = self.cst(0, w); return self.bin(Op::Sub, z, a); }
                    _ => {}
                }
            }
            Op::UDiv => match cb {
                Some(1) => return a,
                Some(c) if c.is_power_of_two() => { let s = self.cst(c.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); }
                _ => {}
            },
            Op::URem => match cb {
                Some(c) if c != 0 && na.hi < c => return a,
                Some(c) if c.is_power_of_two() => { let s = self.cst(c - 1, w); return self.bin(Op::And, a, s); }
                _ => {}
            },
            Op::And => {
                if a == b { return a; }
                match cb {
                    Some(0) => return b,
                    Some(c) if c == m => return a,
                    Some(c) if (na.kz | c) & m == m => return a,
                    _ => {}
                }
                if let (Some(c), K::ZExt(x)) = (cb, na.k) {
                    let xw = self.w(x);
                    let cc = self.cst(c, xw);
                    let r = self.bin(Op::And, x, cc);
                    return self.zext(r, w);
                }
                if let (K::ZExt(x), K::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { let r = self.bin(op, x, y); return self.zext(r, w); }
                }
                if let (Some(c), K::Bin(Op::And, x, y)) = (cb, na.k) {
                    if let Some(d) = self.as_const(y) { let s = self.cst(c & d, w); return self.bin(Op::And, x, s); }
                }
                if let Some(c) = cb { // low mask -> zext(extract)
                    if c != 0 && (c & (c + 1)) == 0 {
                        let k = c.count_ones() as u8;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && self.not(a) == b { return self.fls(); }
            }
            Op::Or => {
                if a == b { return a; }
                match cb { Some(0) => return a, Some(c) if c == m => return b, _ => {} }
                if let (K::ZExt(x), K::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { let r = self.bin(op, x, y); return self.zext(r, w); }
                }
                if w == 1 && self.not(a) == b { return self.tru(); }
                if w > 1 {
                    // (x << k) | y with y < 2^k: concat
                    for (p, q) in [(a, b), (b, a)] {
                        if let K::Bin(Op::Shl, x, s) = self.n(p).k {
                            if let Some(s) = self.as_const(s) {
                                if s > 0 && s < w as u128 && self.n(q).hi < (1u128 << s) {
                                    let s = s as u8;
                                    let h = self.extract(x, 0, w - s);
                                    let l = self.extract(q, 0, s);
                                    return self.concat(h, l);
                                }
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b { return self.cst(0, w); }
                if cb == Some(0) { return a; }
                if let (Some(c), K::Bin(Op::Xor, x, y)) = (cb, na.k) {
                    if let Some(d) = self.as_const(y) { let s = self.cst(c ^ d, w); return self.bin(Op::Xor, x, s); }
                }
                if w == 1 && cb == Some(1) {
                    match na.k {
                        // !(a<b) => b<=a
                        K::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                        K::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                        K::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                        K::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                        _ => {}
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 && op != Op::AShr { return self.cst(0, w); }
                    if op == Op::AShr && na.kz & (1u128 << (w - 1)) != 0 { return self.bin(Op::LShr, a, b); }
                    if op == Op::LShr {
                        let k = c as u8;
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    }
                    if op == Op::AShr {
                        let k = (c as u8).min(w - 1);
                        let x = self.extract(a, k, w - k);
                        return self.sext(x, w);
                    }
                    if let K::Bin(Op::Shl, x, s) = na.k {
                        if let Some(d) = self.as_const(s) { let t = self.cst((c + d).min(w as u128), w); return self.bin(Op::Shl, x, t); }
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.tru(); }
                if na.hi < nb.lo || nb.hi < na.lo { return self.fls(); }
                if (na.ko & nb.kz) | (na.kz & nb.ko) != 0 { return self.fls(); }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let Some(c) = cb {
                    match na.k {
                        K::ZExt(x) => { let xw = self.w(x); let cc = self.cst(c, xw); return self.bin(Op::Eq, x, cc); }
                        K::SExt(x) => {
                            let xw = self.w(x);
                            if sx(c, w) == sx(c & mask(xw), xw) { let cc = self.cst(c, xw); return self.bin(Op::Eq, x, cc); }
                            return self.fls();
                        }
                        K::Concat(h, l) => {
                            let (hw, lw) = (self.w(h), self.w(l));
                            let ch = self.cst(c >> lw, hw); let cl = self.cst(c, lw);
                            let p = self.bin(Op::Eq, h, ch); let q = self.bin(Op::Eq, l, cl);
                            return self.and(p, q);
                        }
                        K::Bin(Op::Xor, x, y) => if let Some(d) = self.as_const(y) { let t = self.cst(c ^ d, w); return self.bin(Op::Eq, x, t); },
                        K::Bin(Op::Add, x, y) => {
                            if let Some(d) = self.as_const(y) { let t = self.cst(c.wrapping_sub(d), w); return self.bin(Op::Eq, x, t); }
                        }
                        K::Bin(Op::Sub, x, y) => if let Some(d) = self.as_const(x) { let t = self.cst(d.wrapping_sub(c), w); return self.bin(Op::Eq, y, t); },
                        K::Bin(Op::Mul, x, y) if c == 0 && self.as_const(y).is_some_and(|k| k != 0 && self.n(x).hi.checked_mul(k).is_some_and(|h| h <= mask(w))) => return self.bin(Op::Eq, x, b),
                        K::Ite(q, x, y) => {
                            if let Some(xc) = self.as_const(x) {
                                let r = self.bin(Op::Eq, y, b);
                                return if xc == c { self.or(q, r) } else { let nq = self.not(q); self.and(nq, r) };
                            }
                            if let Some(yc) = self.as_const(y) {
                                let r = self.bin(Op::Eq, x, b);
                                let nq = self.not(q);
                                return if yc == c { self.or(nq, r) } else { self.and(q, r) };
                            }
                        }
                        _ => {}
                    }
                } else if let (K::ZExt(x), K::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Eq, x, y); }
                }
                if let Some(r) = self.eq_lin(a, b) { return r; }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.cst((op == Op::Ule) as u128, 1); }
                if op == Op::Ult {
                    if na.hi < nb.lo { return self.tru(); }
                    if na.lo >= nb.hi { return self.fls(); }
                    if cb == Some(1) { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                } else {
                    if na.hi <= nb.lo { return self.tru(); }
                    if na.lo > nb.hi { return self.fls(); }
                }
                if let (K::ZExt(x), Some(c)) = (na.k, cb) {
                    let xw = self.w(x); // c <= mask(xw) is implied by the interval tests above except c == mask+1 for Ult
                    if c <= mask(xw) { let cc = self.cst(c, xw); return self.bin(op, x, cc); }
                }
                if let (Some(c), K::ZExt(y)) = (ca, nb.k) {
                    let yw = self.w(y);
                    if c <= mask(yw) { let cc = self.cst(c, yw); return self.bin(op, cc, y); }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (na.k, nb.k) {
                    if self.w(x) == self.w(y) { return self.bin(op, x, y); }
                }
                // x + c against a constant, where the sum cannot wrap
                if let (K::Bin(Op::Add, x, c1), Some(c2)) = (na.k, cb) {
                    if let Some(c1) = self.as_const(c1) {
                        if self.n(x).hi.checked_add(c1).is_some_and(|h| h <= m) {
                            if c2 < c1 { return self.fls(); }
                            let k = self.cst(c2 - c1, w);
                            return self.bin(op, x, k);
                        }
                    }
                }
                if let (Some(c2), K::Bin(Op::Add, x, c1)) = (ca, nb.k) {
                    if let Some(c1) = self.as_const(c1) {
                        if self.n(x).hi.checked_add(c1).is_some_and(|h| h <= m) {
                            if c2 < c1 { return self.tru(); }
                            let k = self.cst(c2 - c1, w);
                            return self.bin(op, k, x);
                        }
                    }
                }
                // sums that cannot wrap: y <= y + b, and what the difference of the two sides tells
                if let Some(r) = self.ucmp_lin(op, a, b) { return self.cst(r as u128, 1); }
                // equal known high bits cancel
                let unk = (!(na.kz | na.ko) | !(nb.kz | nb.ko)) & mask(w);
                let h = 128 - unk.leading_zeros() as u8;
                if h > 0 && h < w && (na.ko >> h) == (nb.ko >> h) {
                    let (x, y) = (self.extract(a, 0, h), self.extract(b, 0, h));
                    return self.bin(op, x, y);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.cst((op == Op::Sle) as u128, 1); }
                let top = 1u128 << (w - 1);
                if na.kz & top != 0 && nb.kz & top != 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.ko & top != 0 && nb.kz & top != 0 { return self.tru(); }
                if na.kz & top != 0 && nb.ko & top != 0 { return self.fls(); }
                let ((al, ah), (bl, bh)) = (self.srange2(a), self.srange2(b));
                if op == Op::Slt { if ah < bl { return self.tru(); } if al >= bh { return self.fls(); } }
                else { if ah <= bl { return self.tru(); } if al > bh { return self.fls(); } }
                // comparisons that only the end of an interval can decide
                let (cav, cbv) = (ca.map(|c| sx(c, w)), cb.map(|c| sx(c, w)));
                let mut edge = None;
                if let Some(c) = cbv {
                    let c = if op == Op::Slt { c } else { c + 1 }; // a < c
                    if al == c - 1 { edge = Some((a, al, true)); } else if ah == c { edge = Some((a, ah, false)); }
                } else if let Some(c) = cav {
                    let c = if op == Op::Slt { c } else { c - 1 }; // c < b
                    if bh == c + 1 { edge = Some((b, bh, true)); } else if bl == c { edge = Some((b, bl, false)); }
                }
                if let Some((x, v, is)) = edge {
                    let k = self.cst(v as u128, w);
                    let q = self.bin(Op::Eq, x, k);
                    return if is { q } else { self.not(q) };
                }
            }
            _ => {}
        }
        self.intern(K::Bin(op, a, b), rw)
    }

    /// `e` with some sub-expressions replaced
    pub fn subst(&mut self, e: Eid, map: &HashMap<Eid, Eid>, doms: &HashMap<u32, Dom>, memo: &mut HashMap<Eid, Eid>) -> Eid {
        if let Some(&r) = map.get(&e) { return r; }
        if let Some(&r) = memo.get(&e) { return r; }
        let n = *self.n(e);
        if !doms.is_empty() && !matches!(n.k, K::Const(_) | K::Var(_)) {
            if let Some(v) = self.single_var(e) {
                if let Some(d) = doms.get(&v) { if let Some(c) = self.const_on(e, v, d) { let r = self.cst(c, n.w); memo.insert(e, r); return r; } }
            }
        }
        let r = match n.k {
            K::Const(_) | K::Var(_) => e,
            K::ZExt(x) => { let y = self.subst(x, map, doms, memo); if x == y { e } else { self.zext(y, n.w) } }
            K::SExt(x) => { let y = self.subst(x, map, doms, memo); if x == y { e } else { self.sext(y, n.w) } }
            K::Extract(x, lo) => { let y = self.subst(x, map, doms, memo); if x == y { e } else { self.extract(y, lo, n.w) } }
            K::Conv(f, x) => { let y = self.subst(x, map, doms, memo); if x == y { e } else { self.conv(f, y, n.w) } }
            K::Concat(h, l) => { let (p, q) = (self.subst(h, map, doms, memo), self.subst(l, map, doms, memo)); if (p, q) == (h, l) { e } else { self.concat(p, q) } }
            K::Bin(op, x, y) => { let (p, q) = (self.subst(x, map, doms, memo), self.subst(y, map, doms, memo)); if (p, q) == (x, y) { e } else { self.bin(op, p, q) } }
            K::Ite(c, x, y) => {
                let d = self.subst(c, map, doms, memo);
                match self.as_const(d) {
                    Some(0) => self.subst(y, map, doms, memo),
                    Some(_) => self.subst(x, map, doms, memo),
                    None => { let (p, q) = (self.subst(x, map, doms, memo), self.subst(y, map, doms, memo)); if (d, p, q) == (c, x, y) { e } else { self.ite(d, p, q) } }
                }
            }
        };
        memo.insert(e, r);
        r
    }
    /// an equivalent conjunction in which what the narrow members say is used to simplify the wide ones
    pub fn reduce(&mut self, cs: &[Eid]) -> Vec<Eid> {
        let mut cs: Vec<Eid> = cs.to_vec();
        for _ in 0..3 {
            cs.sort_by_key(|&c| (self.vars(c).iter().map(|x| x.count_ones()).sum::<u32>(), c));
            let (mut facts, mut out, mut doms) = (HashMap::new(), vec![], HashMap::<u32, Dom>::new());
            let mut changed = false;
            let one = self.tru(); let zero = self.fls();
            for c in cs.clone() {
                let d = self.subst(c, &facts, &doms, &mut HashMap::new());
                changed |= d != c;
                for k in self.conjuncts(d) {
                    match self.as_const(k) { Some(0) => return vec![zero], Some(_) => continue, None => {} }
                    if out.contains(&k) { continue; }
                    out.push(k);
                    if let Some(v) = self.single_var(k) {
                        let d = dom_and(doms.get(&v).unwrap_or(&FULL), &self.table(k, v));
                        if dom_empty(&d) { return vec![zero]; }
                        doms.insert(v, d);
                    }
                    let nk = self.not(k);
                    facts.insert(k, one); facts.insert(nk, zero);
                    if let K::Bin(Op::Eq, x, v) = self.n(k).k { if self.as_const(v).is_some() { facts.insert(x, v); } }
                }
            }
            cs = out;
            if !changed { break; }
        }
        cs
    }
    /// unsigned comparison of sums that cannot wrap, by the interval of their difference
    fn ucmp_lin(&mut self, op: Op, a: Eid, b: Eid) -> Option<bool> {
        let w = self.w(a);
        if !(8..=64).contains(&w) { return None; }
        let m = mask(w);
        let mut sum = false;
        for e in [a, b] {
            if let K::Bin(Op::Add, x, y) = self.n(e).k {
                sum = true;
                let o = if e == a { b } else { a };
                if (x == o || y == o) && self.n(x).hi.checked_add(self.n(y).hi).is_some_and(|h| h <= m) {
                    if e == a && op == Op::Ult { return Some(false); }
                    if e == b && op == Op::Ule { return Some(true); }
                }
            }
        }
        if !sum { return None; }
        let (la, lb) = (self.lin(a), self.lin(b));
        for l in [&la, &lb] {
            let mut h = l.c;
            if h > m { return None; }
            for &(t, k) in &l.t {
                if k > m / 2 { return None; } // so that the coefficients of the difference keep their sign
                h = self.n(t).hi.checked_mul(k).and_then(|x| x.checked_add(h))?;
                if h > m { return None; }
            }
        }
        let d = Self::lin_add(&la, &lb, m, m); // coefficients of a - b, modulo 2^w
        let (mut lo, mut hi) = (la.c as i128 - lb.c as i128, la.c as i128 - lb.c as i128);
        for &(t, k) in &d.t {
            let k = sx(k, w);
            let (x, y) = (self.n(t).lo as i128 * k, self.n(t).hi as i128 * k);
            lo += x.min(y); hi += x.max(y);
        }
        if op == Op::Ult { if hi < 0 { return Some(true); } if lo >= 0 { return Some(false); } }
        else { if hi <= 0 { return Some(true); } if lo > 0 { return Some(false); } }
        None
    }
    /// signed interval
    pub fn srange(&self, e: Eid, depth: u32) -> (i128, i128) {
        let n = self.n(e);
        let w = n.w;
        if w > 120 { return (i128::MIN, i128::MAX); }
        let top = 1u128 << (w - 1);
        let full = (-(top as i128), top as i128 - 1);
        let fit = |l: i128, h: i128| if l < full.0 || h > full.1 { full } else { (l, h) };
        if n.hi < top { return (n.lo as i128, n.hi as i128); }
        if n.lo >= top { return (sx(n.lo, w), sx(n.hi, w)); }
        if depth == 0 { return full; }
        match n.k {
            K::SExt(a) => { let r = self.srange(a, depth - 1); fit(r.0, r.1) }
            K::Bin(Op::Add, a, b) => { let (a, b) = (self.srange(a, depth - 1), self.srange(b, depth - 1)); fit(a.0 + b.0, a.1 + b.1) }
            K::Bin(Op::Sub, a, b) => { let (a, b) = (self.srange(a, depth - 1), self.srange(b, depth - 1)); fit(a.0 - b.1, a.1 - b.0) }
            K::Ite(_, a, b) => { let (a, b) = (self.srange(a, depth - 1), self.srange(b, depth - 1)); (a.0.min(b.0), a.1.max(b.1)) }
            K::Bin(Op::Mul, a, b) if w <= 64 => {
                let (a, b) = (self.srange(a, depth - 1), self.srange(b, depth - 1));
                let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1]; // at most 126 bits
                fit(*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
            K::Bin(Op::Shl, a, s) if w <= 64 => match self.as_const(s) {
                Some(s) if s < w as u128 => { let a = self.srange(a, depth - 1); fit(a.0 << s, a.1 << s) }
                _ => full,
            },
            K::Bin(Op::SRem, a, c) => match self.as_const(c).map(|c| sx(c, w)) {
                Some(c) if c > 0 => { let a = self.srange(a, depth - 1); (if a.0 < 0 { a.0.max(1 - c) } else { 0 }, if a.1 > 0 { a.1.min(c - 1) } else { 0 }) }
                _ => full,
            },
            K::Bin(Op::SDiv, a, c) => match self.as_const(c).map(|c| sx(c, w)) {
                Some(c) if c > 0 => { let a = self.srange(a, depth - 1); (a.0 / c, a.1 / c) }
                _ => full,
            },
            _ => full,
        }
    }
    /// signed range; falls back on the linear form when the intervals of the parts say nothing
    pub fn srange2(&mut self, e: Eid) -> (i128, i128) {
        let r = self.srange(e, 6);
        let w = self.w(e);
        if w > 64 || w < 8 { return r; }
        let top = 1i128 << (w - 1);
        if r != (-top, top - 1) { return r; }
        if !matches!(self.n(e).k, K::Bin(Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::Xor, _, _)) { return r; }
        let l = self.lin(e);
        let c = sx(l.c, w);
        let (mut lo, mut hi) = (c, c);
        for &(t, k) in &l.t {
            if t == e { return r; }
            let k = sx(k, w);
            let (a, b) = self.srange(t, 3);
            let (Some(a), Some(b)) = (a.checked_mul(k), b.checked_mul(k)) else { return r; };
            let (Some(x), Some(y)) = (lo.checked_add(a.min(b)), hi.checked_add(a.max(b))) else { return r; };
            (lo, hi) = (x, y);
        }
        if lo < -top || hi >= top { r } else { (lo, hi) }
    }
    /// the only variable `e` depends on, if there is exactly one
    pub fn single_var(&mut self, e: Eid) -> Option<u32> {
        while self.single.len() < self.vsets.len() {
            let s = &self.vsets[self.single.len()];
            let r = if s.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                s.iter().position(|x| *x != 0).map(|k| k as u32 * 64 + s[k].trailing_zeros())
            } else { None };
            self.single.push(r);
        }
        self.single[self.n(e).vs as usize]
    }
    /// values of the single variable under which a condition holds
    pub fn table(&mut self, e: Eid, v: u32) -> Dom {
        if let Some(t) = self.tabs.get(&e) { return *t; }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; v as usize + 1];
        for x in 0..256usize { m[v as usize] = x as u8; if self.eval(e, &m) != 0 { t[x >> 6] |= 1 << (x & 63); } }
        self.tabs.insert(e, t);
        t
    }
    /// the value of `e` if it is the same for every value in `d` of its single variable
    pub fn const_on(&mut self, e: Eid, v: u32, d: &Dom) -> Option<u128> {
        if let Some(r) = self.uconst.get(&(e, *d)) { return *r; }
        let mut m = vec![0u8; v as usize + 1];
        let mut r = None;
        for x in dom_vals(d) {
            m[v as usize] = x;
            let y = self.eval(e, &m);
            match r { None => r = Some(y), Some(z) if z == y => {} _ => { r = None; break; } }
        }
        self.uconst.insert((e, *d), r);
        r
    }
    /// a sum that cannot wrap is zero iff both parts are
    pub fn expand_zero(&mut self, e: Eid) -> Eid {
        if let K::Bin(Op::Xor, x, o) = self.n(e).k { if self.as_const(o) == Some(1) { let y = self.expand_zero(x); return if y == x { e } else { self.not(y) }; } }
        if let K::Bin(Op::Eq, s, z) = self.n(e).k {
            if self.as_const(z) == Some(0) {
                if let K::Bin(Op::Add, x, y) = self.n(s).k {
                    let m = mask(self.w(s));
                    if self.n(x).hi.checked_add(self.n(y).hi).is_some_and(|h| h <= m) {
                        let (p, q) = (self.eq(x, z), self.eq(y, z));
                        let (p, q) = (self.expand_zero(p), self.expand_zero(q));
                        return self.and(p, q);
                    }
                }
            }
        }
        e
    }
    /// value of `e`, built from `y` and constants, when y == k
    fn under(&self, e: Eid, y: Eid, k: u128, d: u32) -> Option<u128> {
        if e == y { return Some(k); }
        let n = self.n(e);
        match n.k {
            K::Const(c) => Some(c),
            K::Bin(op @ (Op::Add | Op::Sub), a, b) if d > 0 => { let (a, b) = (self.under(a, y, k, d - 1)?, self.under(b, y, k, d - 1)?); Some(Self::fold(op, a, b, n.w)) }
            _ => None,
        }
    }
    pub fn conjuncts(&mut self, e: Eid) -> Vec<Eid> {
        let (mut out, mut todo, mut seen) = (vec![], vec![e], std::collections::HashSet::new());
        while let Some(e) = todo.pop() {
            let e = self.expand_zero(e);
            if !seen.insert(e) { continue; }
            match self.n(e).k {
                K::Bin(Op::And, a, b) => { todo.push(b); todo.push(a); }
                K::Bin(Op::Xor, a, o) if self.as_const(o) == Some(1) => match self.n(a).k {
                    K::Bin(Op::Or, x, y) => { let (x, y) = (self.not(x), self.not(y)); todo.push(y); todo.push(x); }
                    _ => out.push(e),
                },
                _ => out.push(e),
            }
        }
        out
    }
    /// a + k*b
    fn lin_add(a: &Lin, b: &Lin, k: u128, m: u128) -> Lin {
        let mut r = Lin { t: Vec::with_capacity(a.t.len() + b.t.len()), c: a.c.wrapping_add(b.c.wrapping_mul(k)) & m };
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            let (e, c) = if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) { i += 1; a.t[i - 1] }
                else if i >= a.t.len() || b.t[j].0 < a.t[i].0 { j += 1; (b.t[j - 1].0, b.t[j - 1].1.wrapping_mul(k) & m) }
                else { i += 1; j += 1; (a.t[i - 1].0, a.t[i - 1].1.wrapping_add(b.t[j - 1].1.wrapping_mul(k)) & m) };
            if c != 0 { r.t.push((e, c)); }
        }
        r
    }
    /// linear normal form over terms that are themselves not sums
    pub fn lin(&mut self, e: Eid) -> Rc<Lin> {
        if let Some(l) = self.lins.get(&e) { return l.clone(); }
        let n = *self.n(e);
        let m = mask(n.w);
        let zero = Lin::default();
        let atom = |e: Eid| Lin { t: vec![(e, 1)], c: 0 };
        let l = match n.k {
            K::Const(c) => Lin { t: vec![], c },
            K::Bin(Op::Add, a, b) => { let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, 1, m) }
            K::Bin(Op::Sub, a, b) => { let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, m, m) }
            K::Bin(Op::Or, a, b) if n.w > 1 && (self.n(a).kz | self.n(b).kz) & m == m => { let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, 1, m) }
            K::Bin(Op::Xor, a, b) if n.w > 1 && self.as_const(b) == Some(m) => { let a = self.lin(a); let mut r = Self::lin_add(&zero, &a, m, m); r.c = r.c.wrapping_sub(1) & m; r }
            K::Bin(Op::Mul, a, b) => match self.as_const(b) { Some(c) => { let a = self.lin(a); Self::lin_add(&zero, &a, c, m) } None => atom(e) },
            K::Bin(Op::Shl, a, b) => match self.as_const(b) { Some(c) if c < n.w as u128 => { let a = self.lin(a); Self::lin_add(&zero, &a, 1u128 << c, m) } _ => atom(e) },
            K::Concat(h, l) => {
                let lw = self.w(l);
                let (h, l) = (self.zext(h, n.w), self.zext(l, n.w));
                let (h, l) = (self.lin(h), self.lin(l));
                Self::lin_add(&l, &h, 1u128 << lw, m)
            }
            K::ZExt(x) => {
                // distributes when the inner operation cannot wrap
                let xn = *self.n(x);
                let xm = mask(xn.w);
                match xn.k {
                    K::Bin(Op::Add, a, b) if self.n(a).hi + self.n(b).hi <= xm => { let (a, b) = (self.zext(a, n.w), self.zext(b, n.w)); let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, 1, m) }
                    K::Bin(Op::Or, a, b) if xn.w > 1 && (self.n(a).kz | self.n(b).kz) & xm == xm => { let (a, b) = (self.zext(a, n.w), self.zext(b, n.w)); let (a, b) = (self.lin(a), self.lin(b)); Self::lin_add(&a, &b, 1, m) }
                    K::Bin(Op::Mul, a, b) if self.as_const(b).is_some_and(|c| self.n(a).hi.checked_mul(c).is_some_and(|h| h <= xm)) => { let c = self.as_const(b).unwrap(); let a = self.zext(a, n.w); let a = self.lin(a); Self::lin_add(&zero, &a, c, m) }
                    K::Bin(Op::Shl, a, b) if self.as_const(b).is_some_and(|c| c < 64 && self.n(a).hi < 1u128 << 64 && self.n(a).hi << c <= xm) => { let c = self.as_const(b).unwrap(); let a = self.zext(a, n.w); let a = self.lin(a); Self::lin_add(&zero, &a, 1u128 << c, m) }
                    K::Concat(h, l) => {
                        let lw = self.w(l);
                        let (h, l) = (self.zext(h, n.w), self.zext(l, n.w));
                        let (h, l) = (self.lin(h), self.lin(l));
                        Self::lin_add(&l, &h, 1u128 << lw, m)
                    }
                    _ => atom(e),
                }
            }
            _ => atom(e),
        };
        let l = Rc::new(l);
        self.lins.insert(e, l.clone());
        l
    }
    fn is_sum(&self, e: Eid) -> bool { matches!(self.n(e).k, K::Bin(Op::Add | Op::Sub | Op::Mul, ..)) || matches!(self.n(e).k, K::ZExt(x) if matches!(self.n(x).k, K::Bin(Op::Add | Op::Sub | Op::Mul, ..))) }
    /// a == b through their difference; None if that does not simplify
    fn eq_lin(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        if w < 2 || !(self.is_sum(a) || self.is_sum(b)) { return None; }
        let m = mask(w);
        let (la, lb) = (self.lin(a), self.lin(b));
        let mut d = Self::lin_add(&la, &lb, m, m);
        if d.t.is_empty() { return Some(self.cst((d.c == 0) as u128, 1)); }
        // long sums get one canonical form; short ones are only touched if something cancels
        if d.t.len() >= la.t.len() + lb.t.len() && d.t.len() < 4 { return None; }
        if d.t[0].1 > m / 2 { for x in &mut d.t { x.1 = x.1.wrapping_neg() & m; } d.c = d.c.wrapping_neg() & m; }
        let (mut p, mut q) = (self.cst(0, w), self.cst(d.c.wrapping_neg() & m, w));
        for (e, c) in d.t {
            // keep coefficients small: move the large ones to the other side
            let neg = c > m / 2;
            let k = self.cst(if neg { c.wrapping_neg() & m } else { c }, w);
            let x = self.bin(Op::Mul, e, k);
            if neg { q = self.bin(Op::Add, q, x); } else { p = self.bin(Op::Add, p, x); }
        }
        if p == a && q == b || p == b && q == a { return None; }
        if let (Some(x), Some(y)) = (self.as_const(p), self.as_const(q)) { return Some(self.cst((x == y) as u128, 1)); }
        Some(self.bin(Op::Eq, p, q))
    }

    pub fn eval(&mut self, e: Eid, model: &[u8]) -> u128 {
        self.ev_cur += 1;
        let n = self.nodes.len();
        if self.ev_stamp.len() < n { self.ev_stamp.resize(n, 0); self.ev_val.resize(n, 0); }
        self.eval_rec(e, model)
    }
    /// evaluate several expressions under the same model, sharing the memo
    pub fn eval_more(&mut self, e: Eid, model: &[u8]) -> u128 {
        let n = self.nodes.len();
        if self.ev_stamp.len() < n { self.ev_stamp.resize(n, 0); self.ev_val.resize(n, 0); }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: Eid, model: &[u8]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        if let K::Const(c) = n.k { return c; }
        if self.ev_stamp[i] == self.ev_cur { return self.ev_val[i]; }
        let v = match n.k {
            K::Const(c) => c,
            K::Var(v) => *model.get(v as usize).unwrap_or(&0) as u128,
            K::ZExt(a) => self.eval_rec(a, model),
            K::SExt(a) => { let aw = self.w(a); (sx(self.eval_rec(a, model), aw) as u128) & mask(n.w) }
            K::Extract(a, lo) => (self.eval_rec(a, model) >> lo) & mask(n.w),
            K::Concat(h, l) => { let lw = self.w(l); (self.eval_rec(h, model) << lw) | self.eval_rec(l, model) }
            K::Ite(c, a, b) => if self.eval_rec(c, model) != 0 { self.eval_rec(a, model) } else { self.eval_rec(b, model) },
            K::Conv(f, a) => { let aw = self.w(a); Self::fold_conv(f, self.eval_rec(a, model), aw, n.w) }
            K::Bin(op, a, b) => { let aw = self.w(a); let x = self.eval_rec(a, model); let y = self.eval_rec(b, model); Self::fold(op, x, y, aw) }
        };
        self.ev_stamp[i] = self.ev_cur; self.ev_val[i] = v; v
    }

    /// SMT-LIB2 text of an expression (for cross-checking with another solver)
    pub fn smt(&self, roots: &[Eid]) -> String {
        use std::fmt::Write;
        let mut out = String::from("(set-logic QF_BV)\n");
        let mut seen: HashMap<Eid, ()> = HashMap::new();
        let mut order = vec![];
        fn visit(a: &Arena, e: Eid, seen: &mut HashMap<Eid, ()>, order: &mut Vec<Eid>) {
            if seen.insert(e, ()).is_some() { return; }
            match a.n(e).k {
                K::Const(_) | K::Var(_) => {}
                K::ZExt(x) | K::SExt(x) | K::Extract(x, _) | K::Conv(_, x) => visit(a, x, seen, order),
                K::Bin(_, x, y) | K::Concat(x, y) => { visit(a, x, seen, order); visit(a, y, seen, order); }
                K::Ite(c, x, y) => { visit(a, c, seen, order); visit(a, x, seen, order); visit(a, y, seen, order); }
            }
            order.push(e);
        }
        for &r in roots { visit(self, r, &mut seen, &mut order); }
        for e in order {
            let n = self.n(e);
            let r = |x: Eid| format!("e{x}");
            let body = match n.k {
                K::Var(i) => { let _ = writeln!(out, "(declare-const v{i} (_ BitVec 8))"); format!("v{i}") }
                K::Const(c) => format!("(_ bv{c} {})", n.w),
                K::ZExt(a) => format!("((_ zero_extend {}) {})", n.w - self.w(a), r(a)),
                K::SExt(a) => format!("((_ sign_extend {}) {})", n.w - self.w(a), r(a)),
                K::Extract(a, lo) => format!("((_ extract {} {}) {})", lo + n.w - 1, lo, r(a)),
                K::Conv(f, a) => format!("(conv-{f:?} {})", r(a)),
                K::Concat(a, b) => format!("(concat {} {})", r(a), r(b)),
                K::Ite(c, a, b) => format!("(ite (= {} (_ bv1 1)) {} {})", r(c), r(a), r(b)),
                K::Bin(op, a, b) => {
                    let (s, cmp) = match op {
                        Op::Add => ("bvadd", false), Op::Sub => ("bvsub", false), Op::Mul => ("bvmul", false),
                        Op::UDiv => ("bvudiv", false), Op::SDiv => ("bvsdiv", false), Op::URem => ("bvurem", false),
                        Op::SRem => ("bvsrem", false), Op::And => ("bvand", false), Op::Or => ("bvor", false),
                        Op::Xor => ("bvxor", false), Op::Shl => ("bvshl", false), Op::LShr => ("bvlshr", false),
                        Op::AShr => ("bvashr", false), Op::Eq => ("=", true), Op::Ult => ("bvult", true),
                        Op::Ule => ("bvule", true), Op::Slt => ("bvslt", true), Op::Sle => ("bvsle", true),
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => ("fp", false),
                    };
                    if cmp { format!("(ite ({s} {} {}) (_ bv1 1) (_ bv0 1))", r(a), r(b)) } else { format!("({s} {} {})", r(a), r(b)) }
                }
            };
            let _ = writeln!(out, "(define-fun e{e} () (_ BitVec {}) {body})", n.w);
        }
        for &r in roots { let _ = writeln!(out, "(assert (= e{r} (_ bv1 1)))"); }
        out.push_str("(check-sat)\n");
        out
    }
}
