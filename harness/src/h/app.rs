//! Data records: DIB, VIB, values, whole records.
use super::model as m;
use super::real::*;
use super::vh::*;
use crate::harnesses;
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::application_layer::vib::ValueInfoBlock;
use libmbus::parse::types::date::*;
use libmbus::parse::types::number::*;
use libmbus::parse::types::string::*;
use winnow::{Bytes, Parser};

fn vec(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }

harnesses! {
    // ---- numbers: p0 = width, p1 = bytes available
    fn int_signed() {
        let (n, l) = (param(0) as usize, param(1) as usize);
        let v = vec(l);
        let mut i = Bytes::new(&v[..]);
        let r = parse_binary_signed(n).parse_next(&mut i);
        match r {
            Ok(x) => { cover("ok"); check(l >= n, "enough bytes"); if l >= n { check(x == m::sint(&v[..n]), "value"); check(i.len() == l - n, "bytes used"); } }
            Err(_) => { cover("err"); check(l < n, "rejected although long enough"); }
        }
    }
    fn int_unsigned() {
        let (n, l) = (param(0) as usize, param(1) as usize);
        let v = vec(l);
        let mut i = Bytes::new(&v[..]);
        let r = parse_binary_unsigned(n).parse_next(&mut i);
        match r {
            Ok(x) => { cover("ok"); check(l >= n, "enough bytes"); if l >= n { check(x == m::uint(&v[..n]), "value"); check(i.len() == l - n, "bytes used"); } }
            Err(_) => { cover("err"); check(l < n, "rejected although long enough"); }
        }
    }
    fn real() {
        let l = param(0) as usize;
        let v = vec(l);
        let mut i = Bytes::new(&v[..]);
        match parse_real(&mut i) {
            Ok(x) => { cover("ok"); check(l >= 4, "enough bytes"); if l >= 4 { check(x.to_bits() == m::uint(&v[..4]) as u32, "value"); check(i.len() == l - 4, "bytes used"); } }
            Err(_) => { cover("err"); check(l < 4, "rejected although long enough"); }
        }
    }
    fn bcd() {
        let (n, l) = (param(0) as usize, param(1) as usize);
        let v = vec(l);
        let mut i = Bytes::new(&v[..]);
        let r = parse_bcd(n).parse_next(&mut i);
        if l < n { cover("err"); check(r.is_err(), "accepted although too short"); return; }
        match r {
            Ok(x) => { cover("ok"); check(m::bcd_ok(&v[..n]), "accepted a non-decimal digit"); check(x == m::bcd(&v[..n]), "value"); check(i.len() == l - n, "bytes used"); }
            Err(_) => { cover("err"); check(!m::bcd_ok(&v[..n]), "rejected valid digits"); }
        }
    }
    fn bcd_text() {
        let (n, l) = (param(0) as usize, param(1) as usize);
        let v = vec(l);
        let mut i = Bytes::new(&v[..]);
        let r = parse_invalid_bcd(n).parse_next(&mut i);
        match r {
            Ok(x) => {
                cover("ok");
                check(l >= n, "enough bytes");
                if l >= n { check_data(&libmbus::parse::types::DataType::ErrorValue(x), &m::Data::BadBcd(&v[..n])); check(i.len() == l - n, "bytes used"); }
            }
            Err(_) => { cover("err"); check(l < n, "rejected although long enough"); }
        }
    }
    // ---- dates: p0 = bytes available
    fn date_f() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        let e = if l >= 4 { m::f(&v) } else { None };
        match (TypeFDateTime::parse(&mut i), e) { (Ok(a), Some(b)) => { cover("ok"); check_f(&a, &b); check(i.len() == l - 4, "bytes used"); } (Err(_), None) => cover("err"), (Ok(_), None) => check(false, "accepted an invalid value"), (Err(_), Some(_)) => check(false, "rejected a valid value") }
    }
    fn date_g() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        let e = if l >= 2 { m::dmy(v[0], v[1]) } else { None };
        match (TypeGDate::parse(&mut i), e) { (Ok(a), Some(b)) => { cover("ok"); check_g(&a, &b); check(i.len() == l - 2, "bytes used"); } (Err(_), None) => cover("err"), (Ok(_), None) => check(false, "accepted an invalid value"), (Err(_), Some(_)) => check(false, "rejected a valid value") }
    }
    fn date_i() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        let e = if l >= 6 { m::i(&v) } else { None };
        match (TypeIDateTime::parse(&mut i), e) { (Ok(a), Some(b)) => { cover("ok"); check_i(&a, &b); check(i.len() == l - 6, "bytes used"); } (Err(_), None) => cover("err"), (Ok(_), None) => check(false, "accepted an invalid value"), (Err(_), Some(_)) => check(false, "rejected a valid value") }
    }
    fn date_j() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        let e = if l >= 3 { m::j(&v) } else { None };
        match (TypeJTime::parse(&mut i), e) { (Ok(a), Some(b)) => { cover("ok"); check_j(&a, &b); check(i.len() == l - 3, "bytes used"); } (Err(_), None) => cover("err"), (Ok(_), None) => check(false, "accepted an invalid value"), (Err(_), Some(_)) => check(false, "rejected a valid value") }
    }
    fn date_k() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        let e = if l >= 4 { m::k(&v) } else { None };
        match (TypeKDST::parse(&mut i), e) { (Ok(a), Some(b)) => { cover("ok"); check_k(&a, &b); check(i.len() == l - 4, "bytes used"); } (Err(_), None) => cover("err"), (Ok(_), None) => check(false, "accepted an invalid value"), (Err(_), Some(_)) => check(false, "rejected a valid value") }
    }
    // ---- text: p0 = length, p1 = bytes available, p2/p3: only bytes p2..p3 are free, the others are 'A'
    fn latin1() {
        let (n, l, a, b) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
        let mut v = vec![0x41u8; l];
        if a < b { fill(&mut v[a..b]); }
        let mut i = Bytes::new(&v[..]);
        let r = parse_latin1(n).parse_next(&mut i);
        match r {
            Ok(s) => { cover("ok"); check(l >= n, "enough bytes"); if l >= n { check_text(&s, &v[..n]); check(i.len() == l - n, "bytes used"); } }
            Err(_) => { cover("err"); check(l < n, "rejected although long enough"); }
        }
    }
    // ---- texts whose every character is free within a class of its own: p0 = bytes, p1 = which classes
    fn text_classes() {
        let n = param(0) as usize;
        let mut v = vec(n);
        let mut g = param(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
        for x in v.iter_mut() {
            g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *x = match (param(1), g >> 60) { (0, _) => *x & 0x7F, (1, _) => *x & 0x1F | 0xC0, (_, 0..=5) => *x & 0x3F | 0x40, (_, 6) => *x & 0x1F, (_, 7 | 8) => *x & 0x0F | 0x20, (_, 9) => *x & 7 | 0x30, (_, 10 | 11) => *x & 0x1F | 0xA0, (_, 12 | 13) => *x & 0x1F | 0xC0, _ => *x & 0x1F | 0xE0 };
        }
        let mut i = Bytes::new(&v[..]);
        let r = parse_latin1(n).parse_next(&mut i);
        match r {
            Ok(s) => { cover("ok"); check_text(&s, &v); check(i.is_empty(), "bytes used"); }
            Err(_) => check(false, "rejected although long enough"),
        }
    }
    // ---- DIB: p0 = bytes available
    fn dib() {
        let l = param(0) as usize;
        let v = vec(l);
        let e = m::dib(&v);
        let mut i = (Bytes::new(&v[..]), 0usize);
        match (DataInfoBlock::parse(&mut i), e) {
            (Ok(a), Some(b)) => {
                cover("ok");
                check_dib(&a, &b);
                check(i.1 == 0, "ends on a byte");
                check(i.0.len() == l - b.len, "bytes used");
                if b.obis { cover("obis"); }
                if b.len == 11 { cover("ten DIFEs"); }
            }
            (Err(_), None) => cover("err"),
            (Ok(_), None) => check(false, "accepted an undecodable block"),
            (Err(_), Some(_)) => check(false, "rejected a decodable block"),
        }
    }
    // ---- VIB: p0 = bytes available
    fn vib() {
        let l = param(0) as usize;
        let v = vec(l);
        let e = m::vib(&v);
        if let Some(b) = &e { if !modelled_text(b, &v) { cover("non-ASCII"); let mut i = (Bytes::new(&v[..]), 0usize); let _ = ValueInfoBlock::parse(&mut i); return; } }
        let mut i = (Bytes::new(&v[..]), 0usize);
        match (ValueInfoBlock::parse(&mut i), e) {
            (Ok(a), Some(b)) => {
                cover("ok");
                check_vib(&a, &b, b.vt, &v);
                check(i.1 == 0, "ends on a byte");
                check(i.0.len() == l - b.len, "bytes used");
                if b.extra.1 > 0 { cover("further VIFEs"); }
                if b.text.1 > 0 { cover("plain text"); }
            }
            (Err(_), None) => cover("err"),
            (Ok(_), None) => check(false, "accepted an undecodable block"),
            (Err(_), Some(_)) => check(false, "rejected a decodable block"),
        }
    }
    // ---- whole record, every byte free: p0 = bytes available
    fn record() {
        let l = param(0) as usize;
        let v = vec(l);
        record_check(&v);
    }
    // ---- record with DIF p0, VIF p1 and VIFE p2 (256: free, 257: absent), p3 data bytes
    fn record_shape() {
        let mut v = Vec::new();
        for j in 0..3 { let p = param(j); if p < 256 { v.push(p as u8); } else if p == 256 { v.push(byte()); } }
        let n = param(3) as usize;
        let s = v.len();
        v.resize(s + n, 0);
        fill(&mut v[s..]);
        record_check(&v);
    }
    // ---- record with data field p0, p1 DIFEs, VIF p2 (256: free), p3 VIFEs, p4 of them (the last ones) free, p5 data bytes
    fn record_long() {
        let (k, m, free) = (param(1) as usize, param(3) as usize, param(4) as usize);
        let mut v = vec![byte() & 0x70 | param(0) as u8 | if k > 0 { 0x80 } else { 0 }];
        for j in 0..k { v.push(byte() & 0x7F | if j + 1 < k { 0x80 } else { 0 }); }
        let x = if param(2) < 256 { param(2) as u8 } else { byte() };
        v.push(x & 0x7F | if m > 0 { 0x80 } else { 0 });
        for j in 0..m { let e = if j + free >= m { byte() & 0x7F } else { (0x20 + 7 * j as u8) & 0x7F }; v.push(e | if j + 1 < m { 0x80 } else { 0 }); }
        let s = v.len();
        v.resize(s + param(5) as usize, 0);
        fill(&mut v[s..]);
        record_check(&v);
    }
    // ---- variable length value: p0 = LVAR byte (256: free), p1 = bytes behind it, p2..p3 = the free ones, p4 = value of the others, p5 = VIF, p6 = VIFE (257: absent)
    fn lvar() {
        let mut v = vec![0x0D, param(5) as u8];
        if param(6) < 256 { v.push(param(6) as u8); }
        v.push(if param(0) < 256 { param(0) as u8 } else { fork(byte() as u64) as u8 });
        let s = v.len();
        v.resize(s + param(1) as usize, param(4) as u8);
        let (a, b) = (s + param(2) as usize, s + param(3) as usize);
        if a < b { fill(&mut v[a..b]); }
        record_check(&v);
    }
    // ---- no proper prefix of a decodable record decodes: shape as in record_shape
    fn record_cut() {
        let mut v = Vec::new();
        for j in 0..3 { let p = param(j); if p < 256 { v.push(p as u8); } else if p == 256 { v.push(byte()); } }
        let n = param(3) as usize;
        let s = v.len();
        v.resize(s + n, 0);
        fill(&mut v[s..]);
        let mut i = Bytes::new(&v[..]);
        if Record::parse(&mut i).is_err() { cover("err"); return; }
        cover("ok");
        let used = v.len() - i.len();
        for k in 0..used { check(Record::parse(&mut Bytes::new(&v[..k])).is_err(), "truncated record accepted"); }
        // what follows does not matter
        let mut i = Bytes::new(&v[..used]);
        check(Record::parse(&mut i).is_ok(), "record needs what follows it");
        check(i.len() == 0, "bytes used");
    }
    // ---- fixed size values cut short: p0 = which
    fn value_cut() {
        let (k, n) = match param(0) { 0 => (0, 4), 1 => (1, 2), 2 => (2, 6), 3 => (3, 3), 4 => (4, 4), 5 => (5, 4), 6 => (6, 12), _ => (7, 4) };
        let v = vec(n);
        for c in 0..n {
            let i = &mut Bytes::new(&v[..c]);
            let bad = match k { 0 => TypeFDateTime::parse(i).is_err(), 1 => TypeGDate::parse(i).is_err(), 2 => TypeIDateTime::parse(i).is_err(), 3 => TypeJTime::parse(i).is_err(), 4 => TypeKDST::parse(i).is_err(),
                5 => parse_real(i).is_err(), 6 => libmbus::parse::transport_layer::header::LongHeader::parse(i).is_err(), _ => libmbus::parse::transport_layer::header::ShortHeader::parse(i).is_err() };
            check(bad, "truncated value accepted");
        }
        cover("done");
    }
    // ---- length prefixed ASCII text: p0 = length byte, p1 = bytes behind it
    fn ascii() {
        let (n, l) = (param(0) as usize, param(1) as usize);
        let mut v = vec(l);
        let mut plain = true;
        for x in &v { plain &= *x < 0x80; }
        assume(plain);
        v.insert(0, n as u8);
        let mut i = Bytes::new(&v[..]);
        match parse_length_prefix_ascii(&mut i) {
            Ok(s) => {
                cover("ok");
                check(l >= n, "enough bytes");
                if l >= n { let s = s.as_bytes(); check(s.len() == n, "text length"); if s.len() == n { let mut ok = true; for k in 0..n { ok &= s[k] == v[n - k]; } check(ok, "text characters"); } check(i.len() == l - n, "bytes used"); }
            }
            Err(_) => { cover("err"); check(l < n, "rejected although long enough"); }
        }
    }
}

pub fn record_check(v: &[u8]) {
    let l = v.len();
    let e = m::record(v);
    if let Some(d) = m::dib(v) { if let Some(b) = m::vib(&v[d.len..]) { if !modelled_text(&b, &v[d.len..]) { cover("non-ASCII"); let _ = Record::parse(&mut Bytes::new(v)); return; } } }
    let mut i = Bytes::new(v);
    match (Record::parse(&mut i), e) {
        (Ok(a), Some(b)) => { cover("ok"); check_record(&a, &b); check(i.len() == l - b.len, "bytes used"); }
        (Err(_), None) => cover("err"),
        (Ok(_), None) => check(false, "accepted an undecodable record"),
        (Err(_), Some(_)) => check(false, "rejected a decodable record"),
    }
}
