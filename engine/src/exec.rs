//! Symbolic interpreter for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { C(u64), S(Eid), A(Rc<Vec<V>>) }

#[derive(Clone, Default)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<Eid>, pub ro: bool }

impl Obj {
    fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: vec![], ro: false } }
    #[inline] fn any_sym(&self, o: usize, n: usize) -> bool { !self.sym.is_empty() && self.sym[o..o + n].iter().any(|&e| e != 0) }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>, regs: Vec<V>, bb: u32, ip: u32, allocas: Vec<u32>,
    ret_dst: u32, ret_normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    glob: HashMap<u32, Rc<Obj>>,
    pc: Vec<Eid>,
    dom: Rc<Vec<Dom>>,   // per input byte: values not excluded by constraints on that byte alone
    multi: VarSet,       // bytes that occur in a constraint with other bytes
    model: Rc<Vec<u8>>,
    nvars: u32,
    insts: u64,
    obs: Vec<Eid>,
    file: Rc<Vec<Eid>>,  // content of the only file there is
    fpos: u64,
    tag: u64,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub input: Vec<u8>, pub bt: String }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub dropped: u64, pub insts: u64, pub forks: u64,
    pub obligations: u64, pub obligations_const: u64, pub obligations_query: u64,
    pub stats: Stats,
    pub cov: HashSet<(u32, u32)>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // evaluated, symbolic
    pub violations: Vec<Violation>,
    pub nviol: u64,
    pub errors: Vec<String>,
    pub incomplete: Option<String>,
    pub samples: Vec<(Vec<u8>, Vec<u8>)>, // input, observations
    pub smt: Vec<String>,
    pub max_vars: u32, pub unary: u64,
}

pub enum End { Drop, Stop(String), Viol(String, String), Err(String) }
type X<T> = Result<T, End>;

pub struct Cfg {
    pub concrete: Option<Vec<u8>>,
    pub params: Vec<u64>,
    pub max_insts_path: u64,
    pub deadline: Instant,
    pub max_viol: usize,
    pub sample_cap: usize,
    pub seed: u64,
}

pub struct Eng {
    pub ar: Arena,
    pub sv: Solver,
    pub m: Module,
    gobj: Vec<Option<Rc<Obj>>>,
    gaddr: Vec<(u64, u32)>,
    pub stack: Vec<State>,
    pub rep: Report,
    pub cfg: Cfg,
    panic_fns: HashMap<u32, &'static str>,
    ext: HashMap<u32, String>,
    rng: u64,
    path_seen: u64,
    viol_by: HashMap<String, u32>,
}

const OBJ0: u64 = 16;
fn base_of(slot: u32) -> u64 { (OBJ0 + slot as u64) << 32 }

enum Loc { G(u32), M(u32) }

impl Eng {
    pub fn new(m: Module, cfg: Cfg, timeout_ms: u32) -> Eng {
        let mut gaddr: Vec<(u64, u32)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i as u32)).collect();
        gaddr.sort();
        let n = m.globals.len();
        let mut panic_fns = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            let nm = &f.name;
            for (pat, k) in [("4core9panicking", "panic"), ("18handle_alloc_error", "alloc-error"), ("___rustc10rust_panic", "panic"), ("9panicking11begin_panic", "panic")] {
                if nm.contains(pat) { panic_fns.insert(i as u32, k); }
            }
        }
        let seed = cfg.seed;
        Eng { ar: Arena::new(), sv: Solver::new(timeout_ms), m, gobj: vec![None; n], gaddr, stack: vec![], rep: Report::default(), cfg,
            panic_fns, ext: HashMap::new(), rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, path_seen: 0, viol_by: HashMap::new() }
    }
    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    pub fn start(&mut self, fname: &str) -> Result<(), String> {
        let id = *self.m.fmap.get(fname).ok_or(format!("no function {fname}"))?;
        let f = self.m.func(id).ok_or("declared only")?;
        let regs = vec![V::C(0); f.nregs as usize];
        let fr = Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret_dst: u32::MAX, ret_normal: None };
        let st = State { frames: vec![Rc::new(fr)], mem: vec![], free: vec![], glob: HashMap::new(), pc: vec![], dom: Rc::new(vec![]), multi: [0; NV],
            model: Rc::new(vec![0; NV * 64]), nvars: 0, insts: 0, obs: vec![], file: Rc::new(vec![]), fpos: 0, tag: 0 };
        self.rep.cov.insert((id, 0));
        self.stack.push(st);
        Ok(())
    }

    /// Run states until `stop` says so (checked between paths) or none remain.
    pub fn explore(&mut self, mut stop: impl FnMut(&Eng) -> bool) {
        while !self.stack.is_empty() {
            if stop(self) { return; }
            if Instant::now() > self.cfg.deadline { self.rep.incomplete = Some("time limit".into()); return; }
            if self.rep.violations.len() >= self.cfg.max_viol { self.rep.incomplete = Some("stopped at violation limit".into()); return; }
            if self.rep.errors.len() >= 5 { return; }
            let st = self.stack.pop().unwrap();
            self.run(st);
        }
    }
    /// breadth-first variant used to build a frontier
    pub fn explore_bfs(&mut self, limit: usize) {
        while !self.stack.is_empty() && self.stack.len() < limit {
            if Instant::now() > self.cfg.deadline || self.rep.errors.len() >= 5 || self.rep.violations.len() >= self.cfg.max_viol { return; }
            let st = self.stack.remove(0);
            self.run(st);
        }
    }

    fn run(&mut self, mut st: State) {
        loop {
            match self.step(&mut st) {
                Ok(true) => {
                    if st.insts & 0xfff == 0 && Instant::now() > self.cfg.deadline { self.rep.incomplete = Some("time limit".into()); return; }
                    if st.insts > self.cfg.max_insts_path { let m = format!("more than {} instructions on one path", self.cfg.max_insts_path); self.violation(&st, "hang", &m, None); self.rep.paths += 1; return; }
                }
                Ok(false) => { self.finish(&mut st, None); return; }
                Err(End::Drop) => { self.rep.dropped += 1; self.rep.insts += st.insts; return; }
                Err(End::Stop(_)) => { self.finish(&mut st, None); return; }
                Err(End::Viol(k, m)) => { self.violation(&st, &k, &m, None); self.finish(&mut st, Some(k)); return; }
                Err(End::Err(e)) => { let bt = self.backtrace(&st); self.rep.errors.push(format!("{e} at {bt} input={}", hex(&st.model[..st.nvars as usize]))); return; }
            }
        }
    }
    fn finish(&mut self, st: &mut State, viol: Option<String>) {
        self.rep.paths += 1;
        self.rep.insts += st.insts;
        self.rep.max_vars = self.rep.max_vars.max(st.nvars);
        if viol.is_some() { return; }
        if self.cfg.sample_cap > 0 {
            self.path_seen += 1;
            let keep = if self.rep.samples.len() < self.cfg.sample_cap { Some(self.rep.samples.len()) } else {
                let j = (self.rand() % self.path_seen) as usize;
                if j < self.cfg.sample_cap { Some(j) } else { None }
            };
            if let Some(j) = keep {
                let inp = st.model[..st.nvars as usize].to_vec();
                let model = st.model.clone();
                let obs: Vec<u8> = st.obs.iter().map(|&e| self.ar.eval(e, &model) as u8).collect();
                if j == self.rep.samples.len() { self.rep.samples.push((inp, obs)); } else { self.rep.samples[j] = (inp, obs); }
            }
        }
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: Option<&[u8]>) {
        self.rep.nviol += 1;
        let bt = self.backtrace(st);
        let key = if kind == "check" { format!("{kind}|{msg}") } else { format!("{kind}|{bt}") };
        let c = self.viol_by.entry(key).or_insert(0);
        *c += 1;
        if *c > 2 { return; }
        let m = model.unwrap_or(&st.model);
        self.rep.violations.push(Violation { kind: kind.into(), msg: msg.into(), input: m[..st.nvars as usize].to_vec(), bt });
    }

    pub fn dbg_loc(&self, id: u32) -> Vec<(String, u32, String)> {
        // (file, line, function) from innermost to outermost inlined scope
        let mut out = vec![];
        let mut cur = id;
        for _ in 0..32 {
            if cur == u32::MAX { break; }
            let Some(l) = self.m.meta_line(cur) else { break };
            let line = field_num(l, "line: ").unwrap_or(0);
            let Some(scope) = field_ref(l, "scope: !") else { break };
            let (file, func) = self.scope_info(scope);
            out.push((file, line, func));
            cur = field_ref(l, "inlinedAt: !").unwrap_or(u32::MAX);
        }
        out
    }
    fn scope_info(&self, mut s: u32) -> (String, String) {
        let mut file = String::new();
        for _ in 0..64 {
            let Some(l) = self.m.meta_line(s) else { break };
            if file.is_empty() { if let Some(f) = field_ref(l, "file: !") { file = self.file_name(f); } }
            if l.contains("!DISubprogram(") { return (file, field_str(l, "name: \"").unwrap_or_default()); }
            match field_ref(l, "scope: !") { Some(n) => s = n, None => break }
        }
        (file, String::new())
    }
    fn file_name(&self, f: u32) -> String {
        let Some(l) = self.m.meta_line(f) else { return String::new() };
        let n = field_str(l, "filename: \"").unwrap_or_default();
        let d = field_str(l, "directory: \"").unwrap_or_default();
        if n.starts_with('/') || d.is_empty() { n } else { format!("{d}/{n}") }
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.bb as usize];
            let Some(i) = b.insts.get(fr.ip as usize) else { continue };
            for (f, l, n) in self.dbg_loc(i.dbg) {
                let short = f.rsplit("/src/").next().unwrap_or(&f).to_string();
                let k = if f.starts_with("/repo") { format!("{f}:{l} ({n})") } else if f.contains("harness") { format!("harness:{short}:{l}") } else { continue };
                v.push(k);
            }
            if v.len() > 6 { break; }
        }
        if v.is_empty() { if let Some(fr) = st.frames.last() { v.push(fr.f.name.clone()); } }
        v.truncate(6);
        v.join(" < ")
    }

    // ---- values ----
    #[inline] fn ex(&mut self, v: &V, w: u32) -> Eid {
        match v { V::C(c) => self.ar.cst(*c as u128, w as u8), V::S(e) => *e, V::A(_) => panic!("aggregate as scalar") }
    }
    #[inline] fn nv(&self, e: Eid) -> V {
        let n = self.ar.n(e);
        if n.w <= 64 { if let K::Const(c) = n.k { return V::C(c as u64); } }
        V::S(e)
    }
    fn opd(&mut self, fr: &[V], o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::Big(b) => V::S(self.ar.cst(*b, 128)), // width fixed up by users via bigv
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.opd(fr, x)).collect())),
        }
    }
    fn opdw(&mut self, fr: &[V], o: &Opd, w: u32) -> V {
        match o { Opd::Big(b) => { let e = self.ar.cst(*b, w as u8); self.nv(e) } _ => self.opd(fr, o) }
    }

    // ---- path decisions ----
    fn slice(&self, pc: &[Eid], c: Eid, maxv: u32) -> Vec<Eid> {
        let mut vs = *self.ar.vars(c);
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] { continue; }
                let pv = self.ar.vars(p);
                if maxv < 1000 && pv.iter().map(|x| x.count_ones()).sum::<u32>() > maxv { continue; }
                if (0..NV).any(|k| pv[k] & vs[k] != 0) {
                    used[i] = true; out.push(p);
                    for k in 0..NV { if pv[k] & !vs[k] != 0 { ch = true; vs[k] |= pv[k]; } }
                }
            }
            if !ch { return out; }
        }
    }
    /// model satisfying pc and c, if any
    fn sat_with(&mut self, st: &State, c: Eid) -> X<Option<Vec<u8>>> {
        match self.ar.as_const(c) { Some(0) => return Ok(None), Some(_) => return Ok(Some((*st.model).clone())), None => {} }
        let nc = self.ar.not(c);
        if st.pc.contains(&nc) { return Ok(None); }
        let mut q = self.slice(&st.pc, c, u32::MAX);
        // stage 1: only the narrow constraints; enough for most infeasible branches
        let small = self.slice(&st.pc, c, 4);
        if small.len() + 2 < q.len() || small.len() < q.len() && q.len() < 4 {
            let mut q1 = small;
            q1.push(c);
            match self.sv.check(&self.ar, q1) {
                Res::Unsat => return Ok(None),
                Res::Sat(m) => {
                    let mut mm = (*st.model).clone();
                    for (i, b) in m { mm[i as usize] = b; }
                    // the narrow model may already satisfy everything
                    let mut ok = self.ar.eval(c, &mm) != 0;
                    for &p in &q { if !ok { break; } ok = self.ar.eval_more(p, &mm) != 0; }
                    if ok { self.sv.stats.model_hits += 1; return Ok(Some(mm)); }
                }
                Res::Unknown => {}
            }
        }
        q.push(c);
        let dbg = q.clone();
        let t0 = Instant::now();
        let res = match self.sv.check(&self.ar, q) {
            Res::Unknown => { let r = self.hard(st, &dbg); self.sv.settled(dbg.clone(), &r); r }
            r => r,
        };
        if t0.elapsed().as_millis() > 300 { if let Ok(f) = std::env::var("SYMX_DUMPQ") { eprintln!("Q {} {:?}", self.backtrace(st), t0.elapsed()); let _ = std::fs::write(f, self.ar.smt(&dbg)); } }
        match res {
            Res::Sat(m) => {
                let mut mm = (*st.model).clone();
                for (i, b) in m { mm[i as usize] = b; }
                Ok(Some(mm))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => {
                if let Ok(f) = std::env::var("SYMX_DUMP") { let _ = std::fs::write(f, self.ar.smt(&dbg)); }
                Err(End::Err("solver returned unknown".into()))
            }
        }
    }
    /// a question the incremental solver could not settle quickly: simplify it as a whole, give it to a solver
    /// of its own, and split on bytes with few values left if that is not enough
    fn hard(&mut self, st: &State, q: &[Eid]) -> Res {
        let total = self.sv.limit_ms() as u128;
        let t0 = Instant::now();
        let mut todo: Vec<(Vec<Eid>, Vec<(u32, u8)>)> = vec![(q.to_vec(), vec![])];
        while let Some((cs, fixed)) = todo.pop() {
            let cs = self.ar.reduce(&cs);
            if cs.iter().any(|&c| self.ar.as_const(c) == Some(0)) { continue; }
            let left = total.saturating_sub(t0.elapsed().as_millis());
            if left == 0 { self.sv.stats.unknown += 1; return Res::Unknown; }
            // the byte with the fewest values left among those that occur
            let mut best: Option<(u32, Dom)> = None;
            for v in 0..(NV * 64) as u32 {
                if !cs.iter().any(|&c| self.ar.vars(c)[(v / 64) as usize] >> (v % 64) & 1 == 1) { continue; }
                let mut d = self.dom(st, v);
                for &c in &cs { if self.ar.single_var(c) == Some(v) { d = dom_and(&d, &self.ar.table(c, v)); } }
                if dom_count(&d) < 256 && best.is_none_or(|(_, b)| dom_count(&d) < dom_count(&b)) { best = Some((v, d)); }
            }
            let share = if best.is_some() { (left / 4).max(500).min(left) } else { left };
            match self.sv.check_fresh(&self.ar, &cs, share as u32) {
                Res::Unsat => continue,
                Res::Sat(mut m) => {
                    for &(v, b) in &fixed { m.retain(|x| x.0 != v); m.push((v, b)); }
                    // bytes that dropped out of the simplified question are free
                    let have: Vec<u32> = m.iter().map(|x| x.0).collect();
                    let mut mm = (*st.model).clone();
                    for &(i, b) in &m { mm[i as usize] = b; }
                    self.ar.eval(0, &mm);
                    if q.iter().all(|&c| self.ar.eval_more(c, &mm) != 0) {
                        for (i, b) in mm.iter().enumerate() {
                            if !have.contains(&(i as u32)) && q.iter().any(|&c| self.ar.vars(c)[i / 64] >> (i % 64) & 1 == 1) { m.push((i as u32, *b)); }
                        }
                        return Res::Sat(m);
                    }
                    self.sv.stats.unknown += 1;
                    return Res::Unknown;
                }
                Res::Unknown => {
                    let Some((v, d)) = best else { self.sv.stats.unknown += 1; return Res::Unknown };
                    let e = self.ar.var(v);
                    for b in dom_vals(&d) {
                        let k = self.ar.cst(b as u128, 8);
                        let map = std::iter::once((e, k)).collect();
                        let mut memo = Default::default();
                        let cs = cs.iter().map(|&c| self.ar.subst(c, &map, &HashMap::new(), &mut memo)).collect();
                        let mut f = fixed.clone(); f.push((v, b));
                        todo.push((cs, f));
                    }
                }
            }
        }
        Res::Unsat
    }
    /// add a constraint to the path condition
    fn constrain(&mut self, st: &mut State, c: Eid) {
        for c in self.ar.conjuncts(c) {
            if self.ar.as_const(c).is_some() { continue; }
            if let Some(v) = self.ar.single_var(c) {
                let t = self.ar.table(c, v);
                let old = self.dom(st, v);
                let d = dom_and(&t, &old);
                if d == old { continue; } // already implied
                let ds = Rc::make_mut(&mut st.dom);
                if ds.len() <= v as usize { ds.resize(v as usize + 1, FULL); }
                ds[v as usize] = d;
            } else {
                let vs = self.ar.vars(c);
                for k in 0..NV { st.multi[k] |= vs[k]; }
            }
            if !st.pc.contains(&c) { st.pc.push(c); }
        }
    }
    fn dom(&self, st: &State, v: u32) -> Dom { st.dom.get(v as usize).copied().unwrap_or(FULL) }
    /// replace an expression over one byte that is constant on the values left to it
    fn simp(&mut self, st: &State, e: Eid) -> Eid {
        if self.ar.as_const(e).is_some() { return e; }
        if let Some(v) = self.ar.single_var(e) {
            let d = self.dom(st, v);
            if d != FULL { if let Some(c) = self.ar.const_on(e, v, &d) { let w = self.ar.w(e); return self.ar.cst(c, w); } }
        }
        e
    }
    /// Some(model) with the byte changed so that its value lies in `d`, if nothing else stands in the way
    fn nudge(&mut self, st: &State, v: u32, d: &Dom) -> Option<Vec<u8>> {
        let mut m = (*st.model).clone();
        if st.multi[(v / 64) as usize] >> (v % 64) & 1 == 0 {
            m[v as usize] = *dom_vals(d).first()?;
            return Some(m);
        }
        let ps: Vec<Eid> = st.pc.iter().copied().filter(|&p| self.ar.vars(p)[(v / 64) as usize] >> (v % 64) & 1 == 1).collect();
        let vals = dom_vals(d);
        for k in [0, vals.len() / 2, vals.len() - 1] {
            m[v as usize] = vals[k];
            self.ar.eval(0, &m);
            let mut ok = true;
            for &p in &ps { if self.ar.eval_more(p, &m) == 0 { ok = false; break; } }
            if ok { return Some(m); }
        }
        None
    }
    /// like sat_with, but answers from the byte domains where they settle it
    fn feasible(&mut self, st: &State, c: Eid) -> X<Option<Vec<u8>>> {
        if let Some(x) = self.ar.single_var(c) {
            let t = self.ar.table(c, x);
            let d = dom_and(&self.dom(st, x), &t);
            if dom_empty(&d) { self.rep.unary += 1; return Ok(None); }
            if let Some(m) = self.nudge(st, x, &d) { self.rep.unary += 1; return Ok(Some(m)); }
        }
        self.sat_with(st, c)
    }
    fn decide(&mut self, st: &mut State, c: Eid) -> X<bool> {
        let c = self.ar.expand_zero(c);
        if let Some(v) = self.ar.as_const(c) { return Ok(v != 0); }
        if st.pc.contains(&c) { return Ok(true); }
        let nc = self.ar.not(c);
        if st.pc.contains(&nc) { return Ok(false); }
        let model = st.model.clone();
        let v = self.ar.eval(c, &model) != 0;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m2) = self.feasible(st, other)? {
            let mut b = st.clone();
            self.constrain(&mut b, other);
            b.model = Rc::new(m2);
            self.stack.push(b);
            self.rep.forks += 1;
            if std::env::var_os("SYMX_FORKS").is_some() {
                let fr = st.frames.last().unwrap();
                let b = &fr.f.blocks[fr.bb as usize];
                eprintln!("FORK {} {:?} :: {} :: {:?}", fr.f.name, fr.bb, b.insts.get(fr.ip as usize).map(|i| self.dbg_loc(i.dbg).iter().map(|x| format!("{}:{}", x.0.rsplit('/').next().unwrap_or(""), x.1)).collect::<Vec<_>>().join(" < ")).unwrap_or_default(), self.ar.n(c).k);
            }
            self.constrain(st, mine);
        }
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                let e = &self.simp(st, *e);
                if let Some(c) = self.ar.as_const(*e) { return Ok(c as u64); }
                let model = st.model.clone();
                let x = self.ar.eval(*e, &model);
                let w = self.ar.w(*e);
                let k = self.ar.cst(x, w);
                let c = self.ar.eq(*e, k);
                if self.decide(st, c)? { Ok(x as u64) } else { Err(End::Err("concretization".into())) }
            }
            V::A(_) => Err(End::Err("aggregate address".into())),
        }
    }

    // ---- memory ----
    fn locate(&self, st: &State, a: u64) -> Option<(Loc, u64, u64)> {
        let hi = a >> 32;
        if hi == 1 {
            let k = self.gaddr.partition_point(|x| x.0 <= a);
            if k == 0 { return None; }
            let gi = self.gaddr[k - 1].1;
            let g = &self.m.globals[gi as usize];
            if a > g.addr + g.size { return None; }
            return Some((Loc::G(gi), g.addr, g.size));
        }
        if hi < OBJ0 { return None; }
        let s = (hi - OBJ0) as usize;
        match st.mem.get(s) { Some(Some(o)) => Some((Loc::M(s as u32), base_of(s as u32), o.data.len() as u64)), _ => None }
    }
    fn gobj(&mut self, gi: u32) -> Rc<Obj> {
        if let Some(o) = &self.gobj[gi as usize] { return o.clone(); }
        let g = &self.m.globals[gi as usize];
        let o = Rc::new(Obj { data: g.init.clone(), sym: vec![], ro: g.ro });
        self.gobj[gi as usize] = Some(o.clone());
        o
    }
    fn obj(&mut self, st: &State, l: &Loc) -> Rc<Obj> {
        match l {
            Loc::M(s) => st.mem[*s as usize].as_ref().unwrap().clone(),
            Loc::G(g) => match st.glob.get(g) { Some(o) => o.clone(), None => self.gobj(*g) },
        }
    }
    fn find(&mut self, st: &State, a: u64, n: u64, what: &str) -> X<(Loc, usize)> {
        match self.locate(st, a) {
            Some((l, b, sz)) if a >= b && a - b + n <= sz => Ok((l, (a - b) as usize)),
            Some((_, b, sz)) => Err(End::Viol("memory".into(), format!("out-of-bounds {what} of {n} bytes at offset {} in object of size {sz}", a as i64 - b as i64))),
            None => Err(End::Viol("memory".into(), format!("{what} of {n} bytes at invalid address {a:#x}"))),
        }
    }
    fn objm<'a>(&mut self, st: &'a mut State, l: &Loc) -> X<&'a mut Obj> {
        match l {
            Loc::M(s) => Ok(Rc::make_mut(st.mem[*s as usize].as_mut().unwrap())),
            Loc::G(g) => {
                if self.m.globals[*g as usize].ro { return Err(End::Viol("memory".into(), format!("write to constant {}", self.m.globals[*g as usize].name))); }
                if !st.glob.contains_key(g) { let o = self.gobj(*g); st.glob.insert(*g, o); }
                Ok(Rc::make_mut(st.glob.get_mut(g).unwrap()))
            }
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n > 1 << 24 { return Err(End::Err(format!("allocation of {n} bytes"))); }
        let o = Some(Rc::new(Obj::new(n as usize)));
        let s = match st.free.pop() { Some(s) => { st.mem[s as usize] = o; s } None => { st.mem.push(o); st.mem.len() as u32 - 1 } };
        Ok(base_of(s))
    }
    fn release(&mut self, st: &mut State, a: u64) -> X<()> {
        if a == 0 { return Ok(()); }
        match self.locate(st, a) {
            Some((Loc::M(s), b, _)) if a == b => { st.mem[s as usize] = None; st.free.push(s); Ok(()) }
            _ => Err(End::Viol("memory".into(), format!("invalid free of {a:#x}"))),
        }
    }
    fn rd(&mut self, o: &Obj, off: usize, n: usize, bits: u32) -> V {
        if !o.any_sym(off, n) {
            if n <= 8 {
                let mut v = 0u64;
                for i in 0..n { v |= (o.data[off + i] as u64) << (8 * i); }
                if bits < 64 { v &= (1u64 << bits) - 1; }
                return V::C(v);
            }
            let mut v = 0u128;
            for i in 0..n { v |= (o.data[off + i] as u128) << (8 * i); }
            return V::S(self.ar.cst(v, bits as u8));
        }
        let mut e = self.byte(o, off);
        for i in 1..n { let b = self.byte(o, off + i); e = self.ar.concat(b, e); }
        let e = self.ar.extract(e, 0, bits as u8);
        self.nv(e)
    }
    #[inline] fn byte(&mut self, o: &Obj, i: usize) -> Eid {
        if !o.sym.is_empty() && o.sym[i] != 0 { o.sym[i] } else { self.ar.cst(o.data[i] as u128, 8) }
    }
    fn put_byte(&mut self, o: &mut Obj, i: usize, e: Eid) {
        match self.ar.as_const(e) {
            Some(c) => { o.data[i] = c as u8; if !o.sym.is_empty() { o.sym[i] = 0; } }
            None => { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.sym[i] = e; }
        }
    }
    fn load(&mut self, st: &mut State, t: &Ty, a: &V) -> X<V> {
        match t {
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() { let p = self.addr_off(a, t.offset(i)); v.push(self.load(st, f, &p)?); }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Arr(n, et) => {
                let mut v = vec![];
                for i in 0..*n { let p = self.addr_off(a, i * et.size()); v.push(self.load(st, et, &p)?); }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Vec(n, et) => {
                if et.bits() % 8 != 0 {
                    if *n > 128 { return Err(End::Err("vector load".into())); }
                    let t = Ty::Int((*n * et.bits() + 7) / 8 * 8);
                    let v = self.load(st, &t, a)?;
                    let e = self.ex(&v, t.bits());
                    let mut v = vec![];
                    for i in 0..*n { let x = self.ar.extract(e, (i * et.bits()) as u8, et.bits() as u8); v.push(self.nv(x)); }
                    return Ok(V::A(Rc::new(v)));
                }
                let mut v = vec![];
                for i in 0..*n { let p = self.addr_off(a, i as u64 * et.size()); v.push(self.load(st, et, &p)?); }
                return Ok(V::A(Rc::new(v)));
            }
            _ => {}
        }
        let n = t.store_size();
        let bits = t.bits();
        if bits == 0 || bits > 128 { return Err(End::Err(format!("load of type {t:?}"))); }
        match a {
            V::C(a) => {
                let (l, off) = self.find(st, *a, n, "read")?;
                let o = self.obj(st, &l);
                Ok(self.rd(&o, off, n as usize, bits))
            }
            V::S(e) => {
                let e = self.simp(st, *e);
                if let Some(c) = self.ar.as_const(e) { return self.load(st, t, &V::C(c as u64)); }
                let model = st.model.clone();
                let av = self.ar.eval(e, &model) as u64;
                let (l, _) = self.find(st, av, n, "read")?;
                let (b, sz) = { let (_, b, s) = self.locate(st, av).unwrap(); (b, s) };
                let nd = *self.ar.n(e);
                if !(nd.lo >= b as u128 && nd.hi <= (b + sz - n) as u128) {
                    let kb = self.ar.cst(b as u128, 64);
                    let off = self.ar.bin(Op::Sub, e, kb);
                    let lim = self.ar.cst((sz - n) as u128, 64);
                    let c = self.ar.bin(Op::Ule, off, lim);
                    if !self.decide(st, c)? { return Err(End::Err("inbounds".into())); }
                }
                let o = self.obj(st, &l);
                let nd = *self.ar.n(e);
                let lo = (nd.lo.max(b as u128) as u64 - b) as usize;
                let hi = (nd.hi.min((b + sz - n) as u128) as u64 - b) as usize;
                let mut cands: Vec<usize> = vec![];
                let one = if hi - lo > 256 { self.ar.single_var(e) } else { None };
                if let Some(x) = one {
                    // an address that depends on one byte: the offsets that byte can reach
                    let d = self.dom(st, x);
                    let mut m = vec![0u8; x as usize + 1];
                    for y in dom_vals(&d) {
                        m[x as usize] = y;
                        let k = (self.ar.eval(e, &m) as u64).wrapping_sub(b);
                        if k <= sz - n { cands.push(k as usize); }
                    }
                    cands.sort();
                    cands.dedup();
                } else if o.sym.is_empty() || hi - lo <= 64 {
                    for k in lo..=hi {
                        let x = (b + k as u64) as u128;
                        if x & nd.kz == 0 && !x & nd.ko & mask(64) == 0 { cands.push(k); }
                        if cands.len() > 1024 { break; }
                    }
                }
                if cands.is_empty() || cands.len() > 1024 {
                    let a = self.conc(st, &V::S(e))?;
                    return self.load(st, t, &V::C(a));
                }
                // runs of equal values
                let mut runs: Vec<(usize, Eid)> = vec![]; // (last offset of the run, value)
                for &k in &cands {
                    let v = self.rd(&o, k, n as usize, bits);
                    let v = self.ex(&v, bits);
                    match runs.last_mut() { Some(r) if r.1 == v => r.0 = k, _ => runs.push((k, v)) }
                }
                let r = self.tree(e, b, &runs);
                Ok(self.nv(r))
            }
            V::A(_) => Err(End::Err("load from aggregate".into())),
        }
    }
    fn tree(&mut self, e: Eid, b: u64, runs: &[(usize, Eid)]) -> Eid {
        if runs.len() == 1 { return runs[0].1; }
        let mid = (runs.len() - 1) / 2;
        let l = self.tree(e, b, &runs[..=mid]);
        let r = self.tree(e, b, &runs[mid + 1..]);
        let k = self.ar.cst((b + runs[mid].0 as u64) as u128, 64);
        let c = self.ar.bin(Op::Ule, e, k);
        self.ar.ite(c, l, r)
    }
    fn addr_off(&mut self, a: &V, off: u64) -> V {
        match a {
            V::C(c) => V::C(c.wrapping_add(off)),
            V::S(e) => { let k = self.ar.cst(off as u128, 64); let r = self.ar.bin(Op::Add, *e, k); self.nv(r) }
            V::A(_) => a.clone(),
        }
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &V, a: &V) -> X<()> {
        let a = self.conc(st, a)?;
        self.store_at(st, t, v, a)
    }
    fn store_at(&mut self, st: &mut State, t: &Ty, v: &V, a: u64) -> X<()> {
        match t {
            Ty::Struct(fs, _) => {
                let V::A(vs) = v else { return Err(End::Err("store struct".into())) };
                for (i, f) in fs.iter().enumerate() { self.store_at(st, f, &vs[i], a + t.offset(i))?; }
                return Ok(());
            }
            Ty::Arr(n, et) => {
                let V::A(vs) = v else { return Err(End::Err("store array".into())) };
                for i in 0..*n { self.store_at(st, et, &vs[i as usize], a + i * et.size())?; }
                return Ok(());
            }
            Ty::Vec(n, et) => {
                let V::A(vs) = v else { return Err(End::Err("store vector".into())) };
                if et.bits() % 8 != 0 { return Err(End::Err("vector store".into())); }
                for i in 0..*n as u64 { self.store_at(st, et, &vs[i as usize], a + i * et.size())?; }
                return Ok(());
            }
            _ => {}
        }
        let n = t.store_size() as usize;
        let bits = t.bits();
        if bits == 0 || bits > 128 { return Err(End::Err(format!("store of type {t:?}"))); }
        let (l, off) = self.find(st, a, n as u64, "write")?;
        match v {
            V::C(c) => {
                let o = self.objm(st, &l)?;
                for i in 0..n { o.data[off + i] = if i < 8 { (c >> (8 * i)) as u8 } else { 0 }; if !o.sym.is_empty() { o.sym[off + i] = 0; } }
            }
            V::S(e) => {
                let mut e = *e;
                if (bits as usize) < n * 8 { e = self.ar.zext(e, (n * 8) as u8); }
                let bs: Vec<Eid> = (0..n).map(|i| self.ar.extract(e, (8 * i) as u8, 8)).collect();
                // borrow dance: objm needs &mut self only for globals
                let mut tmp = { let o = self.objm(st, &l)?; std::mem::take(o) };
                for (i, b) in bs.into_iter().enumerate() { self.put_byte(&mut tmp, off + i, b); }
                *self.objm(st, &l)? = tmp;
            }
            V::A(_) => return Err(End::Err("store aggregate".into())),
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s { return Ok(()); }
        let (ls, os) = self.find(st, s, n, "copy-read")?;
        let (ld, od) = self.find(st, d, n, "copy-write")?;
        let so = self.obj(st, &ls);
        let n = n as usize;
        let data = so.data[os..os + n].to_vec();
        let sym = if so.any_sym(os, n) { so.sym[os..os + n].to_vec() } else { vec![] };
        drop(so);
        let o = self.objm(st, &ld)?;
        o.data[od..od + n].copy_from_slice(&data);
        if !sym.is_empty() {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[od..od + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() { o.sym[od..od + n].fill(0); }
        Ok(())
    }
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> X<Vec<Eid>> {
        if n == 0 { return Ok(vec![]); }
        let (l, off) = self.find(st, a, n, "read")?;
        let o = self.obj(st, &l);
        Ok((0..n as usize).map(|i| self.byte(&o, off + i)).collect())
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> X<String> {
        let b = self.bytes(st, a, n)?;
        Ok(b.iter().map(|&e| self.ar.as_const(e).unwrap_or(b'?' as u128) as u8 as char).collect())
    }

    // ---- instructions ----
    fn binop(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let (x, y) = (*x, *y);
                let fast = match op {
                    BinOp::Add => Some(x.wrapping_add(y)), BinOp::Sub => Some(x.wrapping_sub(y)), BinOp::Mul => Some(x.wrapping_mul(y)),
                    BinOp::And => Some(x & y), BinOp::Or => Some(x | y), BinOp::Xor => Some(x ^ y),
                    BinOp::Shl if y < w as u64 => Some(x << y), BinOp::LShr if y < w as u64 => Some(x >> y),
                    _ => None,
                };
                if let Some(r) = fast { return V::C(r & m); }
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        let r = self.ar.bin(o, x, y);
        self.nv(r)
    }
    /// p: bits equal, greater, less, unordered
    fn fcmp(&mut self, p: u8, x: Eid, y: Eid) -> Eid {
        let (lt, eq, un) = self.ar.fcmp(x, y);
        let a = self.ar.or(lt, eq); let a = self.ar.or(a, un); let gt = self.ar.not(a);
        let mut r = self.ar.fls();
        for (i, c) in [eq, gt, lt, un].into_iter().enumerate() { if p >> i & 1 == 1 { r = self.ar.or(r, c); } }
        r
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let s = |v: u64| sx(v as u128, w as u8) as i64;
                let (x, y) = (*x, *y);
                let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                    Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) };
                return V::C(r as u64);
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.ar.eq(x, y), Pred::Ne => { let e = self.ar.eq(x, y); self.ar.not(e) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y), Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x), Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y), Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x), Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.nv(r)
    }
    fn select(&mut self, t: &Ty, c: &V, a: V, b: V) -> X<V> {
        match c {
            V::C(0) => Ok(b),
            V::C(_) => Ok(a),
            V::S(q) => {
                let q = *q;
                match (t, &a, &b) {
                    (Ty::Struct(fs, _), V::A(x), V::A(y)) => {
                        let mut v = vec![];
                        for (i, f) in fs.iter().enumerate() { v.push(self.select(f, c, x[i].clone(), y[i].clone())?); }
                        Ok(V::A(Rc::new(v)))
                    }
                    (Ty::Arr(_, f), V::A(x), V::A(y)) | (Ty::Vec(_, f), V::A(x), V::A(y)) => {
                        let mut v = vec![];
                        for i in 0..x.len() { v.push(self.select(f, c, x[i].clone(), y[i].clone())?); }
                        Ok(V::A(Rc::new(v)))
                    }
                    _ if t.bits() > 0 => {
                        let (x, y) = (self.ex(&a, t.bits()), self.ex(&b, t.bits()));
                        let r = self.ar.ite(q, x, y);
                        Ok(self.nv(r))
                    }
                    _ => Err(End::Err("select type".into())),
                }
            }
            V::A(_) => Err(End::Err("select cond".into())),
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let prev = fr.bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, m) in &b.phis { let o = &m[&prev]; vals.push((*d, self.opd(&fr.regs, o))); }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to; fr.ip = 0;
        self.rep.cov.insert((f.id, to));
    }
    fn set(&mut self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != u32::MAX { fr.regs[d as usize] = v; }
        fr.ip += 1;
    }

    /// instructions that only compute a value from registers
    fn pure(&mut self, st: &State, fr: &[V], i: &I) -> X<V> {
        Ok(match i {
            I::Bin(op, w, a, b) => { let (a, b) = (self.opdw(fr, a, *w), self.opdw(fr, b, *w)); self.binop(*op, *w, &a, &b) }
            I::Lanes(n, i, ops) => {
                let mut vs = vec![];
                for o in ops { let V::A(v) = self.opd(fr, o) else { return Err(End::Err("vector operand".into())) }; vs.push(v); }
                let mut out = Vec::with_capacity(*n as usize);
                for k in 0..*n as usize { let r: Vec<V> = vs.iter().map(|v| v[k].clone()).collect(); out.push(self.pure(st, &r, i)?); }
                V::A(Rc::new(out))
            }
            I::ExtElem(a, i) => {
                let (V::A(v), i) = (self.opd(fr, a), self.opd(fr, i)) else { return Err(End::Err("extractelement".into())) };
                match i {
                    V::C(i) => v.get(i as usize).cloned().unwrap_or(V::C(0)),
                    V::S(i) => {
                        let w = self.lane_width(&v)?;
                        let iw = self.ar.w(i);
                        let mut r = self.ex(&v[0], w);
                        for k in 1..v.len() { let x = self.ex(&v[k], w); let kk = self.ar.cst(k as u128, iw); let c = self.ar.eq(i, kk); r = self.ar.ite(c, x, r); }
                        self.nv(r)
                    }
                    _ => return Err(End::Err("extractelement".into())),
                }
            }
            I::InsElem(a, x, i) => {
                let (V::A(v), x, V::C(i)) = (self.opd(fr, a), self.opd(fr, x), self.opd(fr, i)) else { return Err(End::Err("insertelement".into())) };
                let mut v = (*v).clone();
                if (i as usize) < v.len() { v[i as usize] = x; }
                V::A(Rc::new(v))
            }
            I::Shuffle(a, b, m) => {
                let (V::A(a), V::A(b)) = (self.opd(fr, a), self.opd(fr, b)) else { return Err(End::Err("shufflevector".into())) };
                V::A(Rc::new(m.iter().map(|&k| if (k as usize) < a.len() { a[k as usize].clone() } else { b[k as usize - a.len()].clone() }).collect()))
            }
            I::VCast(f, t, a) => {
                let a = self.opd(fr, a);
                self.vcast(f, t, a)?
            }
            I::Icmp(p, w, a, b) => { let (a, b) = (self.opdw(fr, a, *w), self.opdw(fr, b, *w)); self.icmp(*p, *w, &a, &b) }
            I::Fcmp(p, w, a, b) => {
                let (a, b) = (self.opd(fr, a), self.opd(fr, b));
                let (a, b) = (self.ex(&a, *w), self.ex(&b, *w));
                let r = self.fcmp(*p, a, b);
                self.nv(r)
            }
            I::Fbin(k, w, a, b) => {
                let (a, b) = (self.opd(fr, a), self.opd(fr, b));
                let (a, b) = (self.ex(&a, *w), self.ex(&b, *w));
                let op = match k { b'a' => Op::FAdd, b's' => Op::FSub, b'm' => Op::FMul, _ => Op::FDiv };
                let r = self.ar.bin(op, a, b);
                self.nv(r)
            }
            I::FNeg(w, a) => {
                let a = self.opd(fr, a); let a = self.ex(&a, *w);
                let s = self.ar.cst(1u128 << (w - 1), *w as u8);
                let r = self.ar.bin(Op::Xor, a, s);
                self.nv(r)
            }
            I::FConv(k, f, t, a) => {
                let a = self.opd(fr, a); let a = self.ex(&a, *f);
                let k = match *k { "ext" => Fc::Ext, "trunc" => Fc::Trunc, "froms" => Fc::FromS, "fromu" => Fc::FromU, "tos" => Fc::ToS, _ => Fc::ToU };
                let r = self.ar.conv(k, a, *t as u8);
                self.nv(r)
            }
            I::Select(t, c, a, b) => {
                let c = self.opd(fr, c);
                let w = t.bits();
                let (a, b) = (self.opdw(fr, a, w), self.opdw(fr, b, w));
                let c = match c { V::S(e) => { let e = self.simp(st, e); self.nv(e) } c => c };
                self.select(t, &c, a, b)?
            }
            I::ZExt(_, g, a) => match self.opdw(fr, a, 0) { V::C(c) if *g <= 64 => V::C(c), V::C(c) => { let e = self.ar.cst(c as u128, *g as u8); self.nv(e) } V::S(e) => { let r = self.ar.zext(e, *g as u8); self.nv(r) } _ => return Err(End::Err("zext".into())) },
            I::SExt(fw, g, a) => { let a = self.opd(fr, a); let e = self.ex(&a, *fw); let r = self.ar.sext(e, *g as u8); self.nv(r) }
            I::Trunc(fw, g, a) => { let a = self.opdw(fr, a, *fw); match a { V::C(c) => V::C(if *g >= 64 { c } else { c & ((1u64 << g) - 1) }), _ => { let e = self.ex(&a, *fw); let r = self.ar.extract(e, 0, *g as u8); self.nv(r) } } }
            I::Copy(a) => self.opd(fr, a),
            I::Gep(p, off, idx) => {
                let mut a = self.opd(fr, p);
                if *off != 0 { a = self.addr_off(&a, *off as u64); }
                for (o, scale, w) in idx {
                    let iv = self.opd(fr, o);
                    a = match (&a, &iv) {
                        (V::C(x), V::C(i)) => V::C(x.wrapping_add((sx(*i as u128, *w as u8) as i64).wrapping_mul(*scale) as u64)),
                        _ => {
                            let i = self.ex(&iv, *w); let i = self.ar.sext(i, 64);
                            let k = self.ar.cst(*scale as u64 as u128, 64);
                            let i = self.ar.bin(Op::Mul, i, k);
                            let x = self.ex(&a, 64);
                            let r = self.ar.bin(Op::Add, x, i);
                            self.nv(r)
                        }
                    };
                }
                a
            }
            I::Extract(a, ix) => {
                let mut v = self.opd(fr, a);
                for i in ix { let V::A(x) = &v else { return Err(End::Err("extractvalue".into())) }; v = x[*i as usize].clone(); }
                v
            }
            I::Insert(_, a, v, ix) => {
                let a = self.opd(fr, a); let v = self.opd(fr, v);
                insert(a, ix, v)?
            }
            _ => return Err(End::Err("instruction".into())),
        })
    }
    fn lane_width(&self, v: &[V]) -> X<u32> {
        for x in v { if let V::S(e) = x { return Ok(self.ar.w(*e) as u32); } }
        Ok(64)
    }
    /// the bits of a vector seen as another type of the same size
    fn vcast(&mut self, f: &Ty, t: &Ty, a: V) -> X<V> {
        let (src, sw): (Vec<V>, u32) = match (f, &a) { (Ty::Vec(_, e), V::A(v)) => ((**v).clone(), e.bits()), _ => (vec![a.clone()], f.bits()) };
        let (n, tw) = match t { Ty::Vec(n, e) => (*n as usize, e.bits()), _ => (1, t.bits()) };
        if sw > 128 || tw > 128 { return Err(End::Err("bitcast width".into())); }
        let mut out = vec![];
        if sw == tw { out = src; }
        else if sw < tw && tw % sw == 0 {
            let k = (tw / sw) as usize;
            for g in src.chunks(k) {
                let mut e = self.ex(&g[0], sw);
                for x in &g[1..] { let h = self.ex(x, sw); e = self.ar.concat(h, e); }
                out.push(self.nv(e));
            }
        } else if sw % tw == 0 {
            for x in &src { let e = self.ex(x, sw); for i in 0..sw / tw { let p = self.ar.extract(e, (i * tw) as u8, tw as u8); out.push(self.nv(p)); } }
        } else { return Err(End::Err("bitcast lanes".into())); }
        if out.len() != n { return Err(End::Err("bitcast lanes".into())); }
        Ok(if matches!(t, Ty::Vec(..)) { V::A(Rc::new(out)) } else { out.pop().unwrap() })
    }
    /// Ok(true): keep going; Ok(false): path finished
    fn step(&mut self, st: &mut State) -> X<bool> {
        st.insts += 1;
        let fr = st.frames.last().unwrap().clone();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        let d = inst.dst;
        let v = match &inst.i {
            I::Load(t, p) => { let a = self.opd(&fr.regs, p); self.load(st, t, &a)? }
            I::Store(t, v, p) => {
                let v = self.opdw(&fr.regs, v, t.bits().max(1)); let a = self.opd(&fr.regs, p);
                drop(fr);
                self.store(st, t, &v, &a)?; self.set(st, u32::MAX, V::C(0)); return Ok(true);
            }
            I::Alloca(n) => {
                drop(fr);
                let a = self.alloc(st, *n)?;
                let slot = ((a >> 32) - OBJ0) as u32;
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(slot);
                self.set(st, d, V::C(a));
                return Ok(true);
            }
            I::Br(t) => { drop(fr); self.jump(st, *t); return Ok(true); }
            I::CondBr(c, a, b) => {
                let c = self.opd(&fr.regs, c);
                drop(fr);
                let t = match c { V::C(x) => x & 1 != 0, V::S(e) => self.decide(st, e)?, _ => return Err(End::Err("br".into())) };
                self.jump(st, if t { *a } else { *b });
                return Ok(true);
            }
            I::Switch(w, v, def, cases) => {
                let v = self.opdw(&fr.regs, v, *w);
                drop(fr);
                let t = self.switch(st, *w, &v, *def, cases)?;
                self.jump(st, t);
                return Ok(true);
            }
            I::Ret(v) => {
                let v = match v { Some(o) => { self.opd(&fr.regs, o) } None => V::C(0) };
                let (rd, rn) = (fr.ret_dst, fr.ret_normal);
                for &s in &fr.allocas { st.mem[s as usize] = None; st.free.push(s); }
                drop(fr);
                st.frames.pop();
                if st.frames.is_empty() { return Ok(false); }
                self.ret(st, rd, rn, v);
                return Ok(true);
            }
            I::Unreachable => return Err(End::Viol("unreachable".into(), "executed LLVM unreachable".into())),
            I::Call { callee, args, rty, normal } => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args { let b = t.bits(); av.push(self.opdw(&fr.regs, o, b.max(1))); }
                let tys: Vec<&Ty> = args.iter().map(|x| &x.0).collect();
                match callee {
                    Callee::Intr(n) => { drop(fr); let v = self.intrinsic(st, n, &tys, &av, rty)?; self.ret_ext(st, d, *normal, v); return Ok(true); }
                    Callee::Func(id) => { drop(fr); return self.call(st, *id, av, d, *normal); }
                    Callee::Ind(o) => {
                        let p = self.opd(&fr.regs, o);
                        drop(fr);
                        let a = self.conc(st, &p)?;
                        if a < F_BASE || a >= F_BASE + (1 << 32) || a & 15 != 0 { return Err(End::Viol("memory".into(), format!("call through {a:#x}"))); }
                        return self.call(st, ((a - F_BASE) / 16) as u32, av, d, *normal);
                    }
                }
            }
            I::Rmw(op, t, p, v) => {
                let a = self.opd(&fr.regs, p); let v = self.opd(&fr.regs, v);
                drop(fr);
                let a = V::C(self.conc(st, &a)?);
                let old = self.load(st, t, &a)?;
                let w = t.bits();
                let nv = match op.as_str() {
                    "add" => self.binop(BinOp::Add, w, &old, &v), "sub" => self.binop(BinOp::Sub, w, &old, &v),
                    "and" => self.binop(BinOp::And, w, &old, &v), "or" => self.binop(BinOp::Or, w, &old, &v),
                    "xor" => self.binop(BinOp::Xor, w, &old, &v), "xchg" => v,
                    _ => return Err(End::Err(format!("atomicrmw {op}"))),
                };
                self.store(st, t, &nv, &a)?;
                self.set(st, d, old);
                return Ok(true);
            }
            I::CmpXchg(t, p, a, b) => {
                let p = self.opd(&fr.regs, p); let a = self.opd(&fr.regs, a); let b = self.opd(&fr.regs, b);
                drop(fr);
                let p = V::C(self.conc(st, &p)?);
                let old = self.load(st, t, &p)?;
                let eq = self.icmp(Pred::Eq, t.bits(), &old, &a);
                let ok = match &eq { V::C(c) => *c != 0, V::S(e) => self.decide(st, *e)?, _ => false };
                if ok { self.store(st, t, &b, &p)?; }
                self.set(st, d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                return Ok(true);
            }
            I::Nop => { drop(fr); self.set(st, u32::MAX, V::C(0)); return Ok(true); }
            I::Unsupported(s) => return Err(End::Err(format!("unsupported instruction: {s}"))),
            i => self.pure(st, &fr.regs, i)?,
        };
        drop(fr);
        self.set(st, d, v);
        Ok(true)
    }
    fn switch(&mut self, st: &mut State, w: u32, v: &V, def: u32, cases: &[(u128, u32)]) -> X<u32> {
        let e = match v {
            V::C(c) => return Ok(cases.iter().find(|x| x.0 as u64 == *c).map(|x| x.1).unwrap_or(def)),
            V::S(e) => *e,
            _ => return Err(End::Err("switch".into())),
        };
        let model = st.model.clone();
        let cv = self.ar.eval(e, &model);
        let cur = cases.iter().find(|x| x.0 == cv).map(|x| x.1).unwrap_or(def);
        // targets in order
        let mut targets: Vec<u32> = vec![];
        for (_, t) in cases { if !targets.contains(t) { targets.push(*t); } }
        if !targets.contains(&def) { targets.push(def); }
        let mut conds = vec![];
        for &t in &targets {
            let c = if t == def {
                let mut c = self.ar.tru();
                for (k, t2) in cases { if *t2 != def { let kk = self.ar.cst(*k, w as u8); let q = self.ar.eq(e, kk); let q = self.ar.not(q); c = self.ar.and(c, q); } }
                c
            } else {
                let mut c = self.ar.fls();
                for (k, t2) in cases { if *t2 == t { let kk = self.ar.cst(*k, w as u8); let q = self.ar.eq(e, kk); c = self.ar.or(c, q); } }
                c
            };
            conds.push(c);
        }
        let me = targets.iter().position(|&t| t == cur).unwrap();
        if st.pc.contains(&conds[me]) { return Ok(cur); }
        let mut any = false;
        for (i, &c) in conds.iter().enumerate() {
            if i == me { continue; }
            if self.ar.as_const(c) == Some(0) { continue; }
            if let Some(m2) = self.feasible(st, c)? {
                let mut b = st.clone();
                self.constrain(&mut b, c);
                b.model = Rc::new(m2);
                self.stack.push(b);
                self.rep.forks += 1;
                any = true;
            }
        }
        if any { self.constrain(st, conds[me]); }
        Ok(cur)
    }
    fn ret(&mut self, st: &mut State, d: u32, normal: Option<u32>, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != u32::MAX { fr.regs[d as usize] = v; }
        match normal { Some(b) => self.jump(st, b), None => fr.ip += 1 }
    }
    fn ret_ext(&mut self, st: &mut State, d: u32, normal: Option<u32>, v: V) { self.ret(st, d, normal, v) }

    fn call(&mut self, st: &mut State, id: u32, args: Vec<V>, d: u32, normal: Option<u32>) -> X<bool> {
        if let Some(k) = self.panic_fns.get(&id) {
            return Err(End::Viol(k.to_string(), format!("{k} reached ({})", short(&self.m.funcs[id as usize].name))));
        }
        if let Some(f) = self.m.func(id) {
            if st.frames.len() > 400 { return Err(End::Viol("stack".into(), "call depth exceeds 400".into())); }
            let mut regs = args;
            regs.resize(f.nregs as usize, V::C(0));
            self.rep.cov.insert((f.id, 0));
            st.frames.push(Rc::new(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret_dst: d, ret_normal: normal }));
            return Ok(true);
        }
        if !self.ext.contains_key(&id) { let n = self.m.funcs[id as usize].name.clone(); self.ext.insert(id, n); }
        let name = self.ext[&id].clone();
        let v = self.external(st, &name, &args)?;
        self.ret_ext(st, d, normal, v);
        Ok(true)
    }

    fn external(&mut self, st: &mut State, n: &str, a: &[V]) -> X<V> {
        Ok(match n {
            "malloc" => { let s = self.conc(st, &a[0])?; V::C(self.alloc(st, s)?) }
            "calloc" => { let (x, y) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?); V::C(self.alloc(st, x * y)?) }
            "posix_memalign" => {
                let s = self.conc(st, &a[2])?; let p = self.conc(st, &a[0])?;
                let r = self.alloc(st, s)?;
                self.store_at(st, &Ty::Ptr, &V::C(r), p)?; V::C(0)
            }
            "realloc" => {
                let (p, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let r = self.alloc(st, s)?;
                if p != 0 {
                    let old = match self.locate(st, p) { Some((Loc::M(_), b, sz)) if b == p => sz, _ => return Err(End::Viol("memory".into(), "invalid realloc".into())) };
                    self.copy(st, r, p, old.min(s))?;
                    self.release(st, p)?;
                }
                V::C(r)
            }
            "free" => { let p = self.conc(st, &a[0])?; self.release(st, p)?; V::C(0) }
            "bcmp" | "memcmp" => {
                let (p, q, l) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let (x, y) = (self.bytes(st, p, l)?, self.bytes(st, q, l)?);
                let mut r = self.ar.cst(0, 32);
                let (one, neg) = (self.ar.cst(1, 32), self.ar.cst(0xffff_ffff, 32));
                for i in (0..l as usize).rev() {
                    let eq = self.ar.eq(x[i], y[i]);
                    let other = if n == "bcmp" { one } else { let lt = self.ar.bin(Op::Ult, x[i], y[i]); self.ar.ite(lt, neg, one) };
                    r = self.ar.ite(eq, r, other);
                }
                self.nv(r)
            }
            "strlen" => {
                let p = self.conc(st, &a[0])?;
                let mut k = 0;
                loop {
                    let b = self.bytes(st, p + k, 1)?[0];
                    let z = self.ar.cst(0, 8);
                    let c = self.ar.eq(b, z);
                    if self.decide(st, c)? { break; }
                    k += 1;
                }
                V::C(k)
            }
            "vh_any" => {
                let (p, l) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                if st.nvars as u64 + l > (NV * 64) as u64 { return Err(End::Err("too many symbolic bytes".into())); }
                if l > 0 {
                    let (loc, off) = self.find(st, p, l, "write")?;
                    let nv = st.nvars;
                    let bs: Vec<Eid> = match &self.cfg.concrete {
                        Some(v) => { let v = v.clone(); (0..l).map(|i| self.ar.cst(*v.get((nv as u64 + i) as usize).unwrap_or(&0) as u128, 8)).collect() }
                        None => (0..l).map(|i| self.ar.var(nv + i as u32)).collect(),
                    };
                    if let Some(v) = self.cfg.concrete.clone() { let m = Rc::make_mut(&mut st.model); for i in 0..l as usize { m[nv as usize + i] = *v.get(nv as usize + i).unwrap_or(&0); } }
                    let mut tmp = std::mem::take(self.objm(st, &loc)?);
                    for (i, e) in bs.into_iter().enumerate() { self.put_byte(&mut tmp, off + i, e); }
                    *self.objm(st, &loc)? = tmp;
                    st.nvars += l as u32;
                }
                V::C(0)
            }
            "vh_assume" => {
                match &a[0] {
                    V::C(c) => if c & 1 == 0 { return Err(End::Drop) },
                    V::S(e) => {
                        let e = *e;
                        if !st.pc.contains(&e) {
                            let model = st.model.clone();
                            if self.ar.eval(e, &model) == 0 {
                                match self.sat_with(st, e)? { Some(m) => st.model = Rc::new(m), None => return Err(End::Drop) }
                            }
                            self.constrain(st, e);
                        }
                    }
                    _ => {}
                }
                V::C(0)
            }
            "vh_check" => {
                let (p, l) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let msg = self.cstr(st, p, l)?;
                self.rep.obligations += 1;
                for x in [0xCC, msg.len() as u8, msg.bytes().next().unwrap_or(0)] { let e = self.ar.cst(x as u128, 8); st.obs.push(e); }
                let ent = self.rep.checks.entry(msg.clone()).or_insert((0, 0));
                ent.0 += 1;
                match &a[0] {
                    V::C(c) => { self.rep.obligations_const += 1; if c & 1 == 0 { return Err(End::Viol("check".into(), msg)); } }
                    V::S(e) => {
                        let e = *e;
                        ent.1 += 1;
                        self.rep.obligations_query += 1;
                        // a conjunction holds iff each part does: small separate queries
                        let mut bad = None;
                        for c in self.ar.conjuncts(e) {
                            let nc = self.ar.not(c);
                            if self.ar.as_const(nc) == Some(0) { continue; }
                            if let Some(m) = self.sat_with(st, nc)? { bad = Some(m); break; }
                        }
                        if let Some(m) = bad {
                            self.violation(st, "check", &msg, Some(&m));
                            // continue with the passing side, if any
                            match self.sat_with(st, e)? { Some(m) => { st.model = Rc::new(m); self.constrain(st, e); } None => return Err(End::Drop) }
                        }
                    }
                    _ => {}
                }
                V::C(0)
            }
            "vh_cover" => {
                let (p, l) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let msg = self.cstr(st, p, l)?;
                for x in [0xC0, msg.len() as u8, msg.bytes().next().unwrap_or(0)] { let e = self.ar.cst(x as u128, 8); st.obs.push(e); }
                *self.rep.covers.entry(msg).or_insert(0) += 1;
                V::C(0)
            }
            "vh_fork" => { V::C(self.conc(st, &a[0])?) }
            "vh_param" => { let i = self.conc(st, &a[0])?; V::C(*self.cfg.params.get(i as usize).unwrap_or(&0)) }
            "vh_obs" => {
                let (p, l) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let b = self.bytes(st, p, l)?;
                st.obs.extend(b);
                V::C(0)
            }
            "vh_file" => {
                let (p, l) = (self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                st.file = Rc::new(self.bytes(st, p, l)?);
                st.fpos = 0;
                V::C(0)
            }
            // the file system: one file, always readable
            "open64" | "open" => { st.fpos = 0; V::C(3) }
            "close" => V::C(0),
            "fstat64" | "fstat" => {
                let p = self.conc(st, &a[1])?;
                for k in 0..18 { let x = match k { 3 => 0o100644, 6 => st.file.len() as u64, _ => 0 }; self.store_at(st, &Ty::Int(64), &V::C(x), p + 8 * k)?; }
                V::C(0)
            }
            "statx" => {
                let p = self.conc(st, &a[4])?;
                for k in 0..32 { let x = match k { 0 => 0xfff, 3 => 0o100644 << 32, 5 => st.file.len() as u64, _ => 0 }; self.store_at(st, &Ty::Int(64), &V::C(x), p + 8 * k)?; }
                V::C(0)
            }
            "__errno_location" => V::C(self.alloc(st, 4)?),
            "dlsym" | "__cxa_thread_atexit_impl" | "__cxa_atexit" | "sched_yield" => V::C(0),
            // keys of hash maps: one fixed value stands for all
            "getrandom" => {
                let (p, l) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                for i in 0..l { self.store_at(st, &Ty::Int(8), &V::C((i * 37 + 11) & 255), p + i)?; }
                V::C(l)
            }
            // the environment is empty
            "getenv" => V::C(0),
            "lseek64" | "lseek" => {
                let (off, wh) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                st.fpos = match wh { 0 => off, 1 => st.fpos.wrapping_add(off), _ => (st.file.len() as u64).wrapping_add(off) };
                V::C(st.fpos)
            }
            "read" => {
                let (p, l) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let f = st.file.clone();
                let k = l.min((f.len() as u64).saturating_sub(st.fpos));
                for i in 0..k { let v = self.nv(f[(st.fpos + i) as usize]); self.store_at(st, &Ty::Int(8), &v, p + i)?; }
                st.fpos += k;
                V::C(k)
            }
            "memchr" | "memrchr" => {
                let (p, c, l) = (self.conc(st, &a[0])?, self.ex(&a[1], 32), self.conc(st, &a[2])?);
                let c = self.ar.extract(c, 0, 8);
                let b = self.bytes(st, p, l)?;
                let mut r = 0;
                for k in 0..l as usize {
                    let k = if n == "memchr" { k } else { l as usize - 1 - k };
                    let q = self.ar.eq(b[k], c);
                    if self.decide(st, q)? { r = p + k as u64; break; }
                }
                V::C(r)
            }
            "vh_stop" => return Err(End::Stop(String::new())),
            "abort" | "__assert_fail" => return Err(End::Viol("abort".into(), n.into())),
            _ => return Err(End::Err(format!("call to external function {n}"))),
        })
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, tys: &[&Ty], a: &[V], rty: &Ty) -> X<V> {
        let n = n.strip_prefix("llvm.").unwrap();
        let w = rty.bits();
        let aw = tys.first().map(|t| t.bits()).unwrap_or(0);
        let pre = |p: &str| n.starts_with(p);
        if pre("lifetime.") || pre("dbg.") || pre("experimental.noalias") || pre("noalias.") || pre("sideeffect") || pre("prefetch") { return Ok(V::C(0)); }
        if pre("assume") {
            return Ok(V::C(0));
        }
        if pre("memcpy") || pre("memmove") {
            let l = self.conc(st, &a[2])?;
            let (d, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
            self.copy(st, d, s, l)?;
            return Ok(V::C(0));
        }
        if pre("memset") {
            let l = self.conc(st, &a[2])?;
            let d = self.conc(st, &a[0])?;
            if l == 0 { return Ok(V::C(0)); }
            let e = self.ex(&a[1], 8);
            let (loc, off) = self.find(st, d, l, "memset")?;
            let mut tmp = std::mem::take(self.objm(st, &loc)?);
            for i in 0..l as usize { self.put_byte(&mut tmp, off + i, e); }
            *self.objm(st, &loc)? = tmp;
            return Ok(V::C(0));
        }
        if pre("threadlocal.address") || pre("expect") || pre("launder") || pre("strip.inv") || pre("ssa.copy") { return Ok(a[0].clone()); }
        if pre("is.constant") { return Ok(V::C(0)); }
        if pre("trap") || pre("ubsantrap") || pre("debugtrap") { return Err(End::Viol("trap".into(), "llvm.trap executed".into())); }
        if pre("load.relative") {
            let off = a[1].clone();
            let p = match (&a[0], &off) {
                (V::C(x), V::C(y)) => V::C(x.wrapping_add(*y)),
                _ => { let (x, y) = (self.ex(&a[0], 64), self.ex(&off, 64)); let r = self.ar.bin(Op::Add, x, y); self.nv(r) }
            };
            let v = self.load(st, &Ty::Int(32), &p)?;
            let e = self.ex(&v, 32); let e = self.ar.sext(e, 64);
            let b = self.ex(&a[0], 64);
            let r = self.ar.bin(Op::Add, b, e);
            return Ok(self.nv(r));
        }
        if pre("x86.sse2.pause") || pre("donothing") { return Ok(V::C(0)); }
        if let (true, Some(Ty::Vec(_, et)), Some(V::A(v))) = (pre("vector.reduce."), tys.first(), a.first()) {
            let w = et.bits();
            let mut r = v[0].clone();
            for y in &v[1..] {
                r = match n.split('.').nth(2).unwrap_or("") {
                    "add" => self.binop(BinOp::Add, w, &r, y), "mul" => self.binop(BinOp::Mul, w, &r, y), "and" => self.binop(BinOp::And, w, &r, y),
                    "or" => self.binop(BinOp::Or, w, &r, y), "xor" => self.binop(BinOp::Xor, w, &r, y),
                    k @ ("umax" | "umin" | "smax" | "smin") => self.intrinsic(st, &format!("llvm.{k}.i{w}"), &[et, et], &[r, y.clone()], et)?,
                    _ => return Err(End::Err(format!("intrinsic {n}"))),
                };
            }
            return Ok(r);
        }
        if let (Some(Ty::Vec(k, et)), Ty::Vec(_, ret)) = (tys.first(), rty) {
            // lane by lane, with scalar operands handed on as they are
            let mut out = vec![];
            for i in 0..*k as usize {
                let xs: Vec<V> = a.iter().map(|v| match v { V::A(v) => v[i].clone(), v => v.clone() }).collect();
                let ts: Vec<&Ty> = tys.iter().map(|t| match t { Ty::Vec(_, e) => &**e, t => *t }).collect();
                let _ = et;
                out.push(self.intrinsic(st, &format!("llvm.{n}"), &ts, &xs, ret)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if aw == 0 || aw > 128 { return Err(End::Err(format!("intrinsic {n}"))); }
        let x = self.ex(&a[0], aw);
        let aw8 = aw as u8;
        if pre("fabs") { let m = self.ar.cst(mask(aw8) >> 1, aw8); let r = self.ar.bin(Op::And, x, m); return Ok(self.nv(r)); }
        if pre("is.fpclass") { let V::C(m) = a[1] else { return Err(End::Err(n.into())) }; let r = self.ar.fclass(x, m as u32); return Ok(self.nv(r)); }
        if let Some(f) = [("floor.", Fc::Floor), ("ceil.", Fc::Ceil), ("trunc.f", Fc::Rtz), ("rint.", Fc::Rne), ("nearbyint.", Fc::Rne), ("roundeven.", Fc::Rne), ("round.", Fc::Rna)].iter().find(|f| pre(f.0)) {
            let r = self.ar.conv(f.1, x, aw8); return Ok(self.nv(r));
        }
        if pre("fptosi.sat") || pre("fptoui.sat") {
            let s = pre("fptosi");
            let tw = w as u8;
            // 2^(tw-1) or 2^tw, exactly representable
            let e = if s { tw - 1 } else { tw } as u128;
            let lim = if aw == 32 { (127 + e) << 23 } else { (1023 + e) << 52 };
            let hi = self.ar.cst(lim, aw8);
            let sign = 1u128 << (aw - 1);
            let lo = self.ar.cst(if s { lim | sign } else { 0 }, aw8);
            let (below, _, nan) = self.ar.fcmp(x, lo);
            let inr = self.fcmp(4, x, hi);
            let c = self.ar.conv(if s { Fc::ToS } else { Fc::ToU }, x, tw);
            let (max, min, z) = (self.ar.cst(if s { mask(tw) >> 1 } else { mask(tw) }, tw), self.ar.cst(if s { 1u128 << (tw - 1) } else { 0 }, tw), self.ar.cst(0, tw));
            let r = self.ar.ite(inr, c, max); let r = self.ar.ite(below, min, r); let r = self.ar.ite(nan, z, r);
            return Ok(self.nv(r));
        }
        if pre("powi.") {
            // as compiler-rt does it
            let k = sx(self.conc(st, &a[1])? as u128, 32) as i64;
            let one = self.ar.cst(if aw == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, aw8);
            let (mut r, mut b, mut m) = (one, k.unsigned_abs(), x);
            loop {
                if b & 1 == 1 { r = self.ar.bin(Op::FMul, r, m); }
                b /= 2;
                if b == 0 { break; }
                m = self.ar.bin(Op::FMul, m, m);
            }
            if k < 0 { r = self.ar.bin(Op::FDiv, one, r); }
            return Ok(self.nv(r));
        }
        if pre("ctpop") {
            let mut r = self.ar.cst(0, aw8);
            for i in 0..aw { let b = self.ar.extract(x, i as u8, 1); let b = self.ar.zext(b, aw8); r = self.ar.bin(Op::Add, r, b); }
            return Ok(self.nv(r));
        }
        if pre("ctlz") || pre("cttz") {
            let mut r = self.ar.cst(aw as u128, aw8);
            for k in 0..aw {
                let bit = if pre("ctlz") { k } else { aw - 1 - k };
                let cnt = if pre("ctlz") { aw - 1 - k } else { aw - 1 - k };
                let b = self.ar.extract(x, bit as u8, 1);
                let c = self.ar.cst(cnt as u128, aw8);
                r = self.ar.ite(b, c, r);
            }
            return Ok(self.nv(r));
        }
        if pre("bswap") {
            let mut r = self.ar.extract(x, 0, 8);
            for i in 1..aw / 8 { let b = self.ar.extract(x, (8 * i) as u8, 8); r = self.ar.concat(r, b); }
            return Ok(self.nv(r));
        }
        if pre("bitreverse") {
            let mut r = self.ar.extract(x, 0, 1);
            for i in 1..aw { let b = self.ar.extract(x, i as u8, 1); r = self.ar.concat(r, b); }
            return Ok(self.nv(r));
        }
        if pre("abs") {
            let z = self.ar.cst(0, aw8);
            let m = self.ar.bin(Op::Sub, z, x);
            let (lo, hi) = self.ar.srange2(x);
            if hi <= 0 { return Ok(self.nv(m)); }
            if lo >= 0 { return Ok(self.nv(x)); }
            let c = self.ar.bin(Op::Slt, x, z);
            let r = self.ar.ite(c, m, x);
            return Ok(self.nv(r));
        }
        if a.len() < 2 { return Err(End::Err(format!("intrinsic {n}"))); }
        let y = self.ex(&a[1], aw);
        if pre("umax") { let c = self.ar.bin(Op::Ult, x, y); let r = self.ar.ite(c, y, x); return Ok(self.nv(r)); }
        if pre("umin") { let c = self.ar.bin(Op::Ult, x, y); let r = self.ar.ite(c, x, y); return Ok(self.nv(r)); }
        if pre("smax") { let c = self.ar.bin(Op::Slt, x, y); let r = self.ar.ite(c, y, x); return Ok(self.nv(r)); }
        if pre("smin") { let c = self.ar.bin(Op::Slt, x, y); let r = self.ar.ite(c, x, y); return Ok(self.nv(r)); }
        if pre("ucmp") || pre("scmp") {
            let o = if pre("ucmp") { Op::Ult } else { Op::Slt };
            let lt = self.ar.bin(o, x, y); let gt = self.ar.bin(o, y, x);
            let (m1, z, p1) = (self.ar.cst(u128::MAX, w as u8), self.ar.cst(0, w as u8), self.ar.cst(1, w as u8));
            let r = self.ar.ite(gt, p1, z); let r = self.ar.ite(lt, m1, r);
            return Ok(self.nv(r));
        }
        if pre("copysign") {
            let m = self.ar.cst(mask(aw8) >> 1, aw8); let s = self.ar.cst(1u128 << (aw - 1), aw8);
            let (p, q) = (self.ar.bin(Op::And, x, m), self.ar.bin(Op::And, y, s));
            let r = self.ar.or(p, q); return Ok(self.nv(r));
        }
        if pre("minnum") || pre("maxnum") || pre("minimumnum") || pre("maximumnum") {
            let (xn, yn) = (self.ar.fnan(x), self.ar.fnan(y));
            let c = if pre("min") { self.fcmp(4, y, x) } else { self.fcmp(4, x, y) };
            let r = self.ar.ite(c, y, x); let r = self.ar.ite(yn, x, r); let r = self.ar.ite(xn, y, r);
            return Ok(self.nv(r));
        }
        if pre("ssub.sat") || pre("sadd.sat") {
            let ww = aw8 + 1;
            let (ex, ey) = (self.ar.sext(x, ww), self.ar.sext(y, ww));
            let r = self.ar.bin(if pre("sadd") { Op::Add } else { Op::Sub }, ex, ey);
            let (hi, lo) = (self.ar.cst(mask(aw8) >> 1, ww), self.ar.cst((!0u128) << (aw - 1), ww));
            let c = self.ar.bin(Op::Slt, hi, r); let r2 = self.ar.ite(c, hi, r);
            let c = self.ar.bin(Op::Slt, r, lo); let r2 = self.ar.ite(c, lo, r2);
            let r = self.ar.extract(r2, 0, aw8); return Ok(self.nv(r));
        }
        if pre("usub.sat") {
            let c = self.ar.bin(Op::Ult, x, y); let s = self.ar.bin(Op::Sub, x, y); let z = self.ar.cst(0, aw8);
            let r = self.ar.ite(c, z, s); return Ok(self.nv(r));
        }
        if pre("uadd.sat") {
            let s = self.ar.bin(Op::Add, x, y); let c = self.ar.bin(Op::Ult, s, x); let m = self.ar.cst(u128::MAX, aw8);
            let r = self.ar.ite(c, m, s); return Ok(self.nv(r));
        }
        if pre("fshl") || pre("fshr") {
            let s = self.ex(&a[2], aw);
            let k = self.ar.cst(aw as u128, aw8);
            let s = self.ar.bin(Op::URem, s, k);
            let inv = self.ar.bin(Op::Sub, k, s);
            // shifts by the full width give 0 in SMT semantics, which is what is wanted here
            let (l, r) = if pre("fshl") { (self.ar.bin(Op::Shl, x, s), self.ar.bin(Op::LShr, y, inv)) } else { (self.ar.bin(Op::Shl, x, inv), self.ar.bin(Op::LShr, y, s)) };
            let r = self.ar.or(l, r);
            return Ok(self.nv(r));
        }
        if n.contains(".with.overflow") {
            if aw > 64 { return Err(End::Err(format!("intrinsic {n}"))); }
            let ww = (aw * 2) as u8;
            let signed = pre("s");
            let (ex, ey) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
            let op = match &n[1..4] { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, _ => return Err(End::Err(format!("intrinsic {n}"))) };
            let r = self.ar.bin(op, x, y);
            let (nx, ny) = (*self.ar.n(x), *self.ar.n(y));
            let lim = if signed { mask(aw8) >> 1 } else { mask(aw8) };
            if nx.hi <= lim && ny.hi <= lim {
                let safe = match op {
                    Op::Add => nx.hi + ny.hi <= lim,
                    Op::Mul => nx.hi.checked_mul(ny.hi).map_or(false, |p| p <= lim),
                    _ => signed || nx.lo >= ny.hi,
                };
                if safe { let r = self.nv(r); return Ok(V::A(Rc::new(vec![r, V::C(0)]))); }
            }
            if signed {
                let ((xl, xh), (yl, yh)) = (self.ar.srange2(x), self.ar.srange2(y));
                let c = match op {
                    Op::Add => [xl + yl, xh + yh, xl + yl, xh + yh],
                    Op::Sub => [xl - yh, xh - yl, xl - yh, xh - yl],
                    _ => [xl * yl, xl * yh, xh * yl, xh * yh],
                };
                let top = 1i128 << (aw - 1);
                if c.iter().all(|v| (-top..top).contains(v)) { let r = self.nv(r); return Ok(V::A(Rc::new(vec![r, V::C(0)]))); }
            }
            // cheap forms first
            let konst = self.ar.as_const(y).map(|c| (x, c)).or(self.ar.as_const(x).map(|c| (y, c)));
            let ov = if !signed && op == Op::Sub { self.ar.bin(Op::Ult, x, y) }
                else if !signed && op == Op::Add { self.ar.bin(Op::Ult, r, x) }
                else if let (Op::Mul, Some((v, c))) = (op, konst) {
                    if c == 0 { self.ar.fls() }
                    else if !signed { let k = self.ar.cst(mask(aw8) / c, aw8); self.ar.bin(Op::Ult, k, v) }
                    else {
                        // the values of v for which v * c fits are an interval
                        let (c, top) = (sx(c, aw8), 1i128 << (aw - 1));
                        let (p, q) = if c > 0 { (-(top / c), (top - 1) / c) } else { (-((top - 1) / -c), (top / -c).min(top - 1)) };
                        let (p, q) = (self.ar.cst(p as u128, aw8), self.ar.cst(q as u128, aw8));
                        let (u, o) = (self.ar.bin(Op::Slt, v, p), self.ar.bin(Op::Slt, q, v));
                        self.ar.or(u, o)
                    }
                }
                else if op != Op::Mul {
                    // the sign of the result differs from what both operands call for
                    let (sx_, sy, sr) = (self.ar.extract(x, aw8 - 1, 1), self.ar.extract(y, aw8 - 1, 1), self.ar.extract(r, aw8 - 1, 1));
                    let same = { let d = self.ar.bin(Op::Xor, sx_, sy); if op == Op::Add { self.ar.not(d) } else { d } };
                    let flip = self.ar.bin(Op::Xor, sx_, sr);
                    self.ar.and(same, flip)
                }
                else {
                    let wide = self.ar.bin(op, ex, ey);
                    let back = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                    let e = self.ar.eq(wide, back);
                    self.ar.not(e)
                };
            let (r, ov) = (self.nv(r), self.nv(ov));
            return Ok(V::A(Rc::new(vec![r, ov])));
        }
        Err(End::Err(format!("intrinsic {n}")))
    }
}

fn insert(a: V, ix: &[u32], v: V) -> X<V> {
    if ix.is_empty() { return Ok(v); }
    let V::A(x) = a else { return Err(End::Err("insertvalue".into())) };
    let mut n = (*x).clone();
    n[ix[0] as usize] = insert(n[ix[0] as usize].clone(), &ix[1..], v)?;
    Ok(V::A(Rc::new(n)))
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn field_num(l: &str, k: &str) -> Option<u32> { let p = l.find(k)?; let r = &l[p + k.len()..]; let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()); r[..e].parse().ok() }
fn field_ref(l: &str, k: &str) -> Option<u32> { field_num(l, k) }
fn field_str(l: &str, k: &str) -> Option<String> { let p = l.find(k)?; let r = &l[p + k.len()..]; let e = r.find('"')?; Some(r[..e].to_string()) }
fn short(n: &str) -> String { n.rsplit("17h").last().unwrap_or(n).to_string() }
