mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o
}
fn one(s: &str) -> String { s.replace(['\n', '\t'], " ") }

fn write_report(e: &mut Eng, path: &str) {
    let r = &e.rep;
    let s = &e.sv.stats;
    let mut o = String::new();
    let _ = writeln!(o, "N\tpaths\t{}\nN\tdropped\t{}\nN\tinsts\t{}\nN\tforks\t{}\nN\tobligations\t{}\nN\tobligations_const\t{}\nN\tobligations_query\t{}\nN\tviolating\t{}\nN\tdomain_decided\t{}",
        r.paths, r.dropped, r.insts, r.forks, r.obligations, r.obligations_const, r.obligations_query, r.nviol, r.unary);
    let _ = writeln!(o, "N\tqueries\t{}\nN\tsat\t{}\nN\tunsat\t{}\nN\tunknown\t{}\nN\tcache_hits\t{}\nN\tsolver_us\t{}\nM\tmax_query_us\t{}\nM\tmax_vars\t{}\nM\tnodes\t{}",
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.time_us, s.max_us, r.max_vars, e.ar.nodes.len());
    let mut cov: Vec<_> = r.cov.iter().collect();
    cov.sort();
    for (f, b) in cov { let _ = writeln!(o, "C\t{f}\t{b}"); }
    for (k, v) in &r.covers { let _ = writeln!(o, "R\t{}\t{v}", one(k)); }
    for (k, (a, b)) in &r.checks { let _ = writeln!(o, "K\t{}\t{a}\t{b}", one(k)); }
    for v in &r.violations { let _ = writeln!(o, "V\t{}\t{}\t{}\t{}", one(&v.kind), one(&v.msg), hex(&v.input), one(&v.bt)); }
    for x in &r.errors { let _ = writeln!(o, "E\t{}", one(x)); }
    if let Some(x) = &r.incomplete { let _ = writeln!(o, "I\t{}", one(x)); }
    for (i, b) in &r.samples { let _ = writeln!(o, "S\t{}\t{}", hex(i), hex(b)); }
    let logged = std::mem::take(&mut e.sv.log_unsat);
    for q in logged { let _ = writeln!(o, "Q\t{}", e.ar.smt(&q).replace('\n', "\u{1}")); }
    std::fs::write(path, o).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let mut params = vec![];
    let (mut jobs, mut secs, mut seed, mut samples, mut smt, mut maxviol, mut timeout_ms, mut maxi) = (1i64, 600u64, 1u64, 0usize, 0usize, 6usize, 60_000u32, 30_000_000u64);
    let mut concrete = None;
    let mut out = String::new();
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "-p" => { params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); i += 1; }
            "-j" => { jobs = v.parse().unwrap(); i += 1; }
            "-t" => { secs = v.parse().unwrap(); i += 1; }
            "--seed" => { seed = v.parse().unwrap(); i += 1; }
            "--samples" => { samples = v.parse().unwrap(); i += 1; }
            "--smt" => { smt = v.parse().unwrap(); i += 1; }
            "--max-viol" => { maxviol = v.parse().unwrap(); i += 1; }
            "--query-ms" => { timeout_ms = v.parse().unwrap(); i += 1; }
            "--max-insts" => { maxi = v.parse().unwrap(); i += 1; }
            "--concrete" => { concrete = Some(unhex(&v)); i += 1; }
            "-o" => { out = v; i += 1; }
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    if pos.len() < 2 { eprintln!("usage: symx MODULE.ll FUNCTION [-p params] [-j jobs] [-t secs] [-o out.json]"); std::process::exit(2); }
    let t0 = Instant::now();
    let m = match ir::Module::load(&pos[0]) { Ok(m) => m, Err(e) => { eprintln!("load: {e}"); std::process::exit(2) } };
    if concrete.is_some() { jobs = 1; }
    let cfg = Cfg { concrete, params, max_insts_path: maxi, deadline: t0 + Duration::from_secs(secs), max_viol: maxviol, sample_cap: samples, seed };
    let mut e = Eng::new(m, cfg, timeout_ms);
    e.sv.log_cap = smt;
    if let Err(x) = e.start(&pos[1]) { eprintln!("{x}"); std::process::exit(2); }
    let dir = std::env::temp_dir().join(format!("symx.{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    // shared: [0] active workers, [1] sequence number, [2] stop flag
    let sh: &[AtomicI64; 4] = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const [AtomicI64; 4]) };
    sh[0].store(1, Ordering::SeqCst);
    let mut kids: Vec<i32> = vec![];
    let mut is_root = true;
    let mut my = sh[1].fetch_add(1, Ordering::SeqCst);
    loop {
        e.explore(|e| (e.stack.len() >= 2 && sh[0].load(Ordering::Relaxed) < jobs) || sh[2].load(Ordering::Relaxed) != 0);
        if sh[2].load(Ordering::SeqCst) != 0 { break; }
        if e.rep.incomplete.is_some() || e.rep.errors.len() >= 5 { sh[2].store(1, Ordering::SeqCst); break; }
        if e.stack.is_empty() { break; }
        let a = sh[0].load(Ordering::SeqCst);
        if a < jobs && sh[0].compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            let n = sh[1].fetch_add(1, Ordering::SeqCst);
            let p = unsafe { fork() };
            let half = e.stack.len() / 2;
            if p == 0 {
                is_root = false; my = n; kids.clear();
                e.stack.truncate(half.max(1));
                e.rep = Report::default();
                e.sv.stats = Default::default();
                e.sv.log_unsat.clear();
                e.cfg.seed = e.cfg.seed.wrapping_add(n as u64);
                if n > 24 { e.cfg.sample_cap = (samples / 8).min(2); e.sv.log_cap = smt.min(2); }
            } else if p > 0 { kids.push(p); e.stack.drain(0..half.max(1)); }
            else { sh[0].fetch_sub(1, Ordering::SeqCst); }
        }
    }
    let left = e.stack.len();
    if left > 0 && e.rep.incomplete.is_none() { e.rep.incomplete = Some("stopped".into()); }
    write_report(&mut e, dir.join(format!("r{my}")).to_str().unwrap());
    sh[0].fetch_sub(1, Ordering::SeqCst);
    let mut bad = 0;
    for k in kids { let mut st = 0; unsafe { waitpid(k, &mut st, 0); } if st != 0 { bad += 1; } }
    if !is_root { unsafe { _exit(if bad > 0 { 1 } else { 0 }) } }
    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut cov: BTreeSet<(u32, u32)> = BTreeSet::new();
    let mut covers: BTreeMap<String, u64> = BTreeMap::new();
    let mut checks: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let (mut viol, mut errs, mut smp, mut qs) = (vec![], vec![], vec![], vec![]);
    let mut incomplete: Option<String> = None;
    let total = sh[1].load(Ordering::SeqCst);
    for k in 0..total {
        let Ok(s) = std::fs::read_to_string(dir.join(format!("r{k}"))) else { bad += 1; continue };
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "N" => *n.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "M" => { let x = n.entry(f[1].into()).or_insert(0); *x = (*x).max(f[2].parse().unwrap()); }
                "C" => { cov.insert((f[1].parse().unwrap(), f[2].parse().unwrap())); }
                "R" => *covers.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "K" => { let x = checks.entry(f[1].into()).or_insert((0, 0)); x.0 += f[2].parse::<u64>().unwrap(); x.1 += f[3].parse::<u64>().unwrap(); }
                "V" => viol.push((f[1].to_string(), f[2].to_string(), f[3].to_string(), f[4].to_string())),
                "E" => errs.push(f[1].to_string()),
                "I" => { if incomplete.is_none() || f[1] != "stopped" { incomplete = Some(f[1].to_string()); } }
                "S" => smp.push((f[1].to_string(), f.get(2).unwrap_or(&"").to_string())),
                "Q" => qs.push(f[1].replace('\u{1}', "\n")),
                _ => {}
            }
        }
    }
    if bad > 0 { errs.push(format!("{bad} worker(s) failed")); }
    let _ = std::fs::remove_dir_all(&dir);
    // coverage by source line
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut funs: BTreeSet<(String, String)> = BTreeSet::new();
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let mut other: BTreeSet<String> = BTreeSet::new();
    for &(f, b) in &cov {
        if let Some(fun) = e.m.func(f) {
            let mut any = false;
            for i in &fun.blocks[b as usize].insts {
                if i.dbg == u32::MAX || !seen.insert(i.dbg) { continue; }
                for (file, line, func) in e.dbg_loc(i.dbg) {
                    if let Some(p) = file.strip_prefix("/repo/") { if line > 0 { lines.insert((p.to_string(), line)); } funs.insert((p.to_string(), func)); any = true; }
                }
            }
            if !any { other.insert(fun.name.clone()); }
        }
    }
    let mut o = String::new();
    o.push_str("{\n");
    let _ = writeln!(o, " \"function\": \"{}\", \"wall_s\": {:.3}, \"workers\": {},", esc(&pos[1]), t0.elapsed().as_secs_f64(), total);
    let _ = writeln!(o, " \"params\": {:?},", e.cfg.params);
    for (k, v) in &n { let _ = writeln!(o, " \"{k}\": {v},"); }
    let _ = writeln!(o, " \"incomplete\": {},", match &incomplete { Some(s) => format!("\"{}\"", esc(s)), None => "null".into() });
    let _ = writeln!(o, " \"errors\": [{}],", errs.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"violations\": [{}],", viol.iter().map(|v| format!("{{\"kind\":\"{}\",\"msg\":\"{}\",\"input\":\"{}\",\"bt\":\"{}\"}}", esc(&v.0), esc(&v.1), v.2, esc(&v.3))).collect::<Vec<_>>().join(",\n  "));
    let _ = writeln!(o, " \"covers\": {{{}}},", covers.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"checks\": {{{}}},", checks.iter().map(|(k, v)| format!("\"{}\":[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"samples\": [{}],", smp.iter().map(|(a, b)| format!("[\"{a}\",\"{b}\"]")).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"smt\": [{}],", qs.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, " \"lines\": [{}],", lines.iter().map(|(f, l)| format!("[\"{f}\",{l}]")).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"functions\": [{}],", funs.iter().map(|(f, l)| format!("[\"{f}\",\"{}\"]", esc(l))).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, " \"other_functions\": {}", other.len());
    o.push_str("}\n");
    if out.is_empty() { print!("{o}"); } else { std::fs::write(&out, o).unwrap(); }
    let code = if !errs.is_empty() || incomplete.is_some() && viol.is_empty() { 3 } else if !viol.is_empty() { 1 } else { 0 };
    std::process::exit(code);
}
