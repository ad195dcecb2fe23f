//! Hex files and error rendering.
use super::vh::*;
use crate::harnesses;
use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::utils::read_test_file;
use winnow::error::{AddContext, ErrorConvert, FromExternalError, ParserError, StrContext, StrContextValue};
use winnow::stream::Stream;
use winnow::Bytes;

static HEX: [u8; 256] = {
    let mut t = [0xFF; 256];
    let mut i = 0;
    while i < 10 { t[b'0' as usize + i] = i as u8; i += 1; }
    i = 0;
    while i < 6 { t[b'a' as usize + i] = 10 + i as u8; t[b'A' as usize + i] = 10 + i as u8; i += 1; }
    t
};
fn space(c: u8) -> bool { matches!(c, 9..=13 | 32) }

harnesses! {
    // p0 = file length, p1 = name, p2: restrict to 0 nothing, 1 ASCII, 2 hex digits, spaces and line ends, 3 see below
    fn hex_file() {
        let n = param(0) as usize;
        let name = ["vh-file.hex", "vh-file.bin", "vh-file.HEX", ".hex", "vh-filehex", "vh.hex.bin"][param(1) as usize];
        let mut v = vec![0u8; n];
        // p2 = 3: a list of numbers ended by a line end, but bytes p3..p4 arbitrary
        if param(2) == 3 {
            for i in 0..n { v[i] = if i + 1 == n { b'\n' } else { [b"0123456789abcdefABCDEF"[(i / 3 * 5 + i) % 22], b' '][(i % 3 == 2) as usize] }; }
            fill(&mut v[param(3) as usize..param(4) as usize]);
        } else { fill(&mut v); }
        if param(2) == 1 { for x in &v { assume(*x < 0x80); } }
        if param(2) == 2 { for x in &v { assume((HEX[*x as usize] < 16) | (*x == b' ') | (*x == b'\n')); } }
        file(name, &v);
        let r = read_test_file(name);
        if !name.ends_with(".hex") {
            match r {
                Ok(x) => { cover("verbatim"); let mut ok = x.len() == n; if ok { for i in 0..n { ok &= x[i] == v[i]; } } check(ok, "file bytes"); }
                Err(_) => check(false, "a readable file was rejected"),
            }
            return;
        }
        // numbers of hexadecimal digits up to FFh, one space between them, white space around them
        let (mut ascii, mut plus) = (true, false);
        for c in &v { ascii &= *c < 0x80; plus |= *c == b'+'; }
        if fork((!ascii | plus) as u64) == 1 { return; } // outside the claim: a sign, and what counts as white space beyond ASCII
        let (mut a, mut b) = (0, n);
        while a < b && space(v[a]) { a += 1; }
        while b > a && space(v[b - 1]) { b -= 1; }
        let mut want = vec![];
        let (mut ok, mut digits, mut x) = (true, 0, 0u32);
        for k in a..=b {
            if k == b || v[k] == b' ' { ok &= digits > 0; want.push(x as u8); (digits, x) = (0, 0); }
            else {
                let d = HEX[v[k] as usize];
                ok &= d < 16;
                digits += 1;
                x = (x & 0xFFF) << 4 | (d & 15) as u32;
                ok &= x < 256;
            }
        }
        match r {
            Ok(x) => { cover("ok"); check(ok, "accepted what is no list of hexadecimal numbers"); check_eq(&x, &want); }
            Err(_) => { cover("err"); check(!ok, "rejected a well formed file"); }
        }
    }
    // a list of p0 numbers, every digit free within its class (decimal, upper or lower case letter), p1 = which classes
    fn hex_list() {
        let mut g = param(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut below = |n: u64| { g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((g >> 33) * n) >> 31 };
        let (mut v, mut want) = (vec![], vec![]);
        for _ in 0..below(3) { v.push([b' ', b'\n', b'\t'][below(3) as usize]); }
        for k in 0..param(0) {
            if k > 0 { v.push(b' '); }
            let mut x = 0;
            let digits = if below(5) == 0 { 1 } else { 2 };
            if below(20) == 0 { for _ in 0..below(4) { v.push(b'0'); } }
            for _ in 0..digits {
                let d = byte();
                let d = match below(4) { 0 => { assume(d < 6); v.push(b'A' + d); d + 10 } 1 => { assume(d < 6); v.push(b'a' + d); d + 10 } _ => { assume(d < 10); v.push(b'0' + d); d } };
                x = x << 4 | d;
            }
            want.push(x);
        }
        match below(4) { 0 => (), 1 => v.push(b'\n'), 2 => v.extend_from_slice(b"\r\n"), _ => v.extend_from_slice(b" \n\n") }
        file("vh-file.hex", &v);
        match read_test_file("vh-file.hex") {
            Ok(x) => { cover("ok"); check_eq(&x, &want); }
            Err(_) => check(false, "rejected a well formed file"),
        }
    }
    // p0 = contexts, p1 = kind of error they are added to (0 new, 1 assertion, 2 with a cause)
    fn error_text() {
        let (n, kind) = (param(0) as usize, param(1));
        let b: &Bytes = Bytes::new(&[1u8, 2, 3]);
        let start = b.checkpoint();
        let w = any::<2>();
        for x in w { assume((x >= 0x20) & (x < 0x7F)); }
        let word = String::from_utf8(w.to_vec()).unwrap();
        let mut want: Vec<u8> = vec![];
        let mut depth = 0usize;
        let mut seen = false;
        let mut e: MBusError = match kind {
            0 => MBusError::new(),
            2 => { let c = core::str::from_utf8(&[0xFF]).unwrap_err(); want.extend_from_slice(b"invalid utf-8 sequence of 1 bytes from index 0\n"); FromExternalError::<&Bytes, _>::from_external_error(&b, c) }
            _ => ParserError::<&Bytes>::from_input(&b),
        };
        // p2: 0 every sequence, else one that depends on it
        let mut g = param(2).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        for _ in 0..n {
            g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = if param(2) == 0 { fork((byte() & 7) as u64) } else { g >> 61 };
            let (c, text, own) = match k {
                0 => (MBusContext::Label("alpha"), "invalid alpha".to_string(), true),
                1 => (MBusContext::ComputedLabel(word.clone()), { let mut s = "invalid ".to_string(); s.push_str(&word); s }, true),
                2 => (MBusContext::Assertion("no gamma"), "assertion failed: no gamma".to_string(), true),
                3 => (MBusContext::Expected(StrContextValue::Description("delta")), "expected delta".to_string(), false),
                4 => (StrContext::Label("epsilon").into(), "invalid epsilon".to_string(), true),
                5 => (StrContext::Expected(StrContextValue::StringLiteral("zeta")).into(), "expected `zeta`".to_string(), false),
                6 => (MBusContext::Label(""), "invalid ".to_string(), true),
                _ => (MBusContext::ComputedLabel(String::new()), "invalid ".to_string(), true),
            };
            if own { if seen { depth += 1; } seen = true; }
            for _ in 0..depth { want.push(b' '); }
            want.extend_from_slice(text.as_bytes());
            want.push(b'\n');
            e = e.add_context(&b, &start, c);
        }
        let e: MBusError = e.convert();
        check(e.context().count() == n, "number of contexts");
        check(e.cause().is_some() == (kind == 2), "cause");
        let s = format!("{e}");
        cover("rendered");
        check_eq(s.as_bytes(), &want);
    }
    // p0 = contexts, p1 = 0 with StrContext, 1 with MBusContext
    fn error_convert() {
        use winnow::error::{ContextError, ErrMode};
        let (n, kind) = (param(0) as usize, param(1));
        let b: &Bytes = Bytes::new(&[1u8, 2, 3]);
        let start = b.checkpoint();
        let mut want: Vec<u64> = vec![];
        let mut s: ContextError<StrContext> = ContextError::new();
        let mut m: ContextError<MBusContext> = ContextError::new();
        let mut g = param(2).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        for _ in 0..n {
            g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = if param(2) == 0 { fork((byte() & 3) as u64) } else { g >> 62 };
            want.push(k);
            let c = match k {
                0 => StrContext::Label("alpha"),
                1 => StrContext::Label("beta"),
                2 => StrContext::Expected(StrContextValue::Description("alpha")),
                _ => StrContext::Expected(StrContextValue::StringLiteral("zeta")),
            };
            if kind == 0 { s = s.add_context(&b, &start, c); } else { m = m.add_context(&b, &start, c.into()); }
        }
        let e: MBusError = if kind == 0 { s.convert() } else { m.convert() };
        let e: ErrMode<MBusError> = e.convert();
        let e = match e { ErrMode::Backtrack(e) => e, _ => { check(false, "kind of converted error"); return } };
        check(e.context().count() == n, "number of contexts");
        for (g, k) in e.context().zip(want) {
            let ok = match (g, k) {
                (MBusContext::Label(l), 0) => *l == "alpha",
                (MBusContext::Label(l), 1) => *l == "beta",
                (MBusContext::Expected(StrContextValue::Description(l)), 2) => *l == "alpha",
                (MBusContext::Expected(StrContextValue::StringLiteral(l)), 3) => *l == "zeta",
                _ => false,
            };
            check(ok, "converted context");
        }
        cover("converted");
    }
}
fn check_eq(a: &[u8], b: &[u8]) {
    let mut ok = a.len() == b.len();
    if ok { for i in 0..a.len() { ok &= a[i] == b[i]; } }
    check(ok, "content");
}
