//! Reference decoder for the link and transport layers.
#![allow(dead_code)]

// -------------------------------------------------------------- control ----
pub const NO: u8 = 0xFF;
/// index: FCV << 4 | function
pub static PRIMARY: [u8; 32] = [
    0, 1, NO, NO, 3, NO, NO, NO, 4, 5, NO, NO, NO, NO, NO, NO,
    NO, NO, NO, 2, NO, NO, NO, NO, NO, NO, 6, 7, NO, NO, NO, NO,
];
/// index: function
pub static SECONDARY: [u8; 16] = [0, 1, NO, NO, NO, NO, NO, NO, 2, 3, NO, 4, NO, NO, 5, 6];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ctl { pub prm: bool, pub b5: bool, pub b4: bool, pub kind: u8 }
pub fn control(c: u8) -> (bool, Ctl) {
    let prm = c & 0x40 != 0;
    let p = PRIMARY[(c & 0x1F) as usize];
    let s = SECONDARY[(c & 0x0F) as usize];
    let kind = if prm { p } else { s };
    ((c & 0x80 == 0) & (kind != NO), Ctl { prm, b5: c & 0x20 != 0, b4: c & 0x10 != 0, kind })
}

// --------------------------------------------------------------- CI field ----
pub const H_NONE: u8 = 0; pub const H_SHORT: u8 = 1; pub const H_LONG: u8 = 2; pub const H_BAD: u8 = 3;
macro_rules! msgs { ($($n:ident)*) => { #[repr(u8)] #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum M { $($n),* } } }
msgs! { Reset Select SelRequest SelResponse SelectDevice Baud SyncAction TimeAdjust TimeSync Alarm AppError Command Response Auth Dlms Image Manufacturer Security Specific Wireless Unsupported Reserved }
type R = (u8, u8, u8, M);
static ROWS: &[R] = &[
    (0x00, 0x1F, H_NONE, M::Dlms),
    (0x50, 0x50, H_NONE, M::Reset), (0x51, 0x51, H_NONE, M::Command), (0x52, 0x52, H_NONE, M::SelectDevice), (0x53, 0x53, H_LONG, M::Reset),
    (0x54, 0x54, H_NONE, M::SelRequest), (0x55, 0x55, H_LONG, M::SelRequest),
    (0x5A, 0x5A, H_SHORT, M::Command), (0x5B, 0x5B, H_LONG, M::Command), (0x5C, 0x5C, H_NONE, M::SyncAction),
    (0x5F, 0x5F, H_LONG, M::Specific), (0x60, 0x60, H_LONG, M::Dlms), (0x61, 0x61, H_SHORT, M::Dlms),
    (0x64, 0x64, H_LONG, M::Unsupported), (0x65, 0x65, H_SHORT, M::Unsupported),
    (0x66, 0x66, H_NONE, M::SelResponse), (0x67, 0x67, H_SHORT, M::SelResponse), (0x68, 0x68, H_LONG, M::SelResponse),
    (0x69, 0x69, H_NONE, M::Unsupported), (0x6A, 0x6A, H_SHORT, M::Unsupported), (0x6B, 0x6B, H_LONG, M::Unsupported),
    (0x6C, 0x6C, H_LONG, M::TimeSync), (0x6D, 0x6D, H_LONG, M::TimeAdjust),
    (0x6E, 0x6E, H_SHORT, M::AppError), (0x6F, 0x6F, H_LONG, M::AppError), (0x70, 0x70, H_NONE, M::AppError),
    (0x71, 0x71, H_NONE, M::Alarm), (0x72, 0x72, H_LONG, M::Response), (0x73, 0x73, H_LONG, M::Unsupported),
    (0x74, 0x74, H_SHORT, M::Alarm), (0x75, 0x75, H_LONG, M::Alarm), (0x78, 0x78, H_NONE, M::Response), (0x79, 0x79, H_NONE, M::Unsupported),
    (0x7A, 0x7A, H_SHORT, M::Response), (0x7B, 0x7B, H_SHORT, M::Unsupported), (0x7C, 0x7C, H_LONG, M::Dlms), (0x7D, 0x7D, H_SHORT, M::Dlms),
    (0x80, 0x80, H_LONG, M::Wireless), (0x81, 0x81, H_NONE, M::Wireless), (0x82, 0x82, H_LONG, M::Wireless), (0x83, 0x83, H_NONE, M::Wireless),
    (0x84, 0x85, H_LONG, M::Unsupported), (0x86, 0x86, H_NONE, M::Wireless), (0x87, 0x87, H_LONG, M::Wireless), (0x88, 0x88, H_SHORT, M::Wireless),
    (0x89, 0x89, H_NONE, M::Wireless), (0x8A, 0x8A, H_SHORT, M::Wireless), (0x8B, 0x8B, H_LONG, M::Wireless), (0x8C, 0x8F, H_NONE, M::Wireless),
    (0x90, 0x90, H_NONE, M::Auth), (0x9E, 0x9E, H_SHORT, M::Specific), (0x9F, 0x9F, H_LONG, M::Specific),
    (0xA0, 0xB7, H_NONE, M::Manufacturer), (0xB8, 0xBF, H_NONE, M::Baud),
    (0xC0, 0xC0, H_LONG, M::Image), (0xC1, 0xC1, H_SHORT, M::Image), (0xC2, 0xC2, H_LONG, M::Image),
    (0xC3, 0xC3, H_LONG, M::Security), (0xC4, 0xC4, H_SHORT, M::Security), (0xC5, 0xC5, H_LONG, M::Security),
];
const fn build() -> [[u8; 256]; 2] {
    let mut t = [[H_BAD; 256], [M::Reserved as u8; 256]];
    let mut i = 0;
    while i < ROWS.len() {
        let (a, b, h, m) = ROWS[i];
        let mut c = a as usize;
        while c <= b as usize { t[0][c] = h; t[1][c] = m as u8; c += 1; }
        i += 1;
    }
    t
}
pub static CI: [[u8; 256]; 2] = build();

// ---------------------------------------------------------------- headers ----
/// security modes the library lets through without decrypting anything
pub static OPAQUE_MODES: [bool; 32] = {
    let mut t = [false; 32];
    t[6] = true; t[11] = true; t[12] = true; t[14] = true;
    let mut i = 16;
    while i < 32 { t[i] = true; i += 1; }
    t
};
#[derive(Clone, Copy, Debug)]
pub struct Short { pub access: u8, pub status: u8, pub cfg: u16, pub opaque: bool }
pub fn short(b: &[u8]) -> Option<Short> {
    if b.len() < 4 { return None; }
    let cfg = b[2] as u16 | (b[3] as u16) << 8;
    let opaque = OPAQUE_MODES[((cfg >> 8) & 31) as usize];
    if (cfg == 0) | opaque { Some(Short { access: b[0], status: b[1], cfg, opaque }) } else { None }
}
#[derive(Clone, Copy, Debug)]
pub struct Long { pub id: u32, pub man: [u8; 3], pub code: u16, pub version: u8, pub device: u8, pub short: Short }
fn letters(code: u16) -> [u8; 3] { [((code >> 10) & 31) as u8 + 64, ((code >> 5) & 31) as u8 + 64, (code & 31) as u8 + 64] }
/// the identification number uses decimal digits only (a minus sign is outside the model)
pub fn plain_id(b: &[u8]) -> bool { b.len() < 4 || b[3] >> 4 != 15 }
pub fn id_ok(b: &[u8]) -> bool { let mut ok = true; for i in 0..4 { ok &= (b[i] & 15 < 10) & (b[i] >> 4 < 10); } ok }
pub fn id(b: &[u8]) -> u32 { let mut v = 0u32; let mut s = 1u32; for i in 0..4 { v += (b[i] & 15) as u32 * s + (b[i] >> 4) as u32 * (s * 10); if i < 3 { s *= 100; } } v }
/// whether twelve bytes are a header, without a branch
pub fn long_valid(b: &[u8]) -> bool {
    let mut ok = id_ok(b);
    for c in letters(b[4] as u16 | (b[5] as u16) << 8) { ok &= (c >= b'A') & (c <= b'Z'); }
    ok & short(&b[8..]).is_some()
}
pub fn long(b: &[u8]) -> Option<Long> {
    if b.len() < 12 || !id_ok(b) { return None; }
    let code = b[4] as u16 | (b[5] as u16) << 8;
    let man = letters(code);
    let mut ok = true;
    for c in man { ok &= (c >= b'A') & (c <= b'Z'); }
    if !ok { return None; }
    Some(Long { id: id(b), man, code, version: b[6], device: b[7], short: short(&b[8..])? })
}

// -------------------------------------------------------------- medium ----
macro_rules! media { ($($n:ident)*) => { #[repr(u8)] #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum D { $($n),* } } }
media! { Other Oil Electricity Gas HeatOutlet HeatInlet CoolOutlet CoolInlet HeatCool Steam WaterPotable WaterIrrigation WaterCold WaterWarm WaterHot WaterDual WaterWaste
 Hca Air Bus Unknown WaterLogger GasLogger GasConverter Calorific Pressure Ad Smoke Room GasDetector ResSensor Breaker Valve ResSwitch Customer ResCustomer Garbage
 ResCo2 ResEnv Service Gateway UniRepeater BiRepeater ResSystem RadioSystem RadioMeter BusMeter Reserved Wildcard }
static MEDIA: &[(u8, u8, D)] = &[
    (0x00, 0x00, D::Other), (0x01, 0x01, D::Oil), (0x02, 0x02, D::Electricity), (0x03, 0x03, D::Gas), (0x04, 0x04, D::HeatOutlet), (0x05, 0x05, D::Steam),
    (0x06, 0x06, D::WaterWarm), (0x07, 0x07, D::WaterPotable), (0x08, 0x08, D::Hca), (0x09, 0x09, D::Air), (0x0A, 0x0A, D::CoolOutlet), (0x0B, 0x0B, D::CoolInlet),
    (0x0C, 0x0C, D::HeatInlet), (0x0D, 0x0D, D::HeatCool), (0x0E, 0x0E, D::Bus), (0x0F, 0x0F, D::Unknown), (0x10, 0x10, D::WaterIrrigation),
    (0x11, 0x11, D::WaterLogger), (0x12, 0x12, D::GasLogger), (0x13, 0x13, D::GasConverter), (0x14, 0x14, D::Calorific), (0x15, 0x15, D::WaterHot),
    (0x16, 0x16, D::WaterCold), (0x17, 0x17, D::WaterDual), (0x18, 0x18, D::Pressure), (0x19, 0x19, D::Ad), (0x1A, 0x1A, D::Smoke), (0x1B, 0x1B, D::Room),
    (0x1C, 0x1C, D::GasDetector), (0x1D, 0x1F, D::ResSensor), (0x20, 0x20, D::Breaker), (0x21, 0x21, D::Valve), (0x22, 0x24, D::ResSwitch),
    (0x25, 0x25, D::Customer), (0x26, 0x27, D::ResCustomer), (0x28, 0x28, D::WaterWaste), (0x29, 0x29, D::Garbage), (0x2A, 0x2A, D::ResCo2), (0x2B, 0x2F, D::ResEnv),
    (0x30, 0x30, D::Service), (0x31, 0x31, D::Gateway), (0x32, 0x32, D::UniRepeater), (0x33, 0x33, D::BiRepeater), (0x34, 0x35, D::ResSystem),
    (0x36, 0x36, D::RadioSystem), (0x37, 0x37, D::RadioMeter), (0x38, 0x38, D::BusMeter), (0x39, 0x3F, D::ResSystem), (0x40, 0xFE, D::Reserved), (0xFF, 0xFF, D::Wildcard),
];
const fn media() -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < MEDIA.len() { let (a, b, d) = MEDIA[i]; let mut c = a as usize; while c <= b as usize { t[c] = d as u8; c += 1; } i += 1; }
    t
}
pub static MEDIUM: [u8; 256] = media();

// -------------------------------------------------------------- products ----
/// manufacturer, first and last version, device type byte (None: any), name
pub type P = (&'static str, u8, u8, Option<u8>, &'static str);
pub static PRODUCTS: &[P] = &[
    ("ABB", 0x02, 0x02, None, "ABB Delta-Meter"), ("ABB", 0x20, 0x20, None, "ABB B21 113-100"),
    ("ACW", 0x09, 0x09, None, "Itron CF Echo 2"), ("ACW", 0x0A, 0x0A, None, "Itron CF 51"), ("ACW", 0x0B, 0x0B, None, "Itron CF 55"),
    ("ACW", 0x0E, 0x0E, None, "Itron BM +m"), ("ACW", 0x0F, 0x0F, None, "Itron CF 800"), ("ACW", 0x14, 0x14, None, "Itron CYBLE M-Bus 1.4"),
    ("AMT", 0x00, 0x3F, None, "Aquametro AMTRON"), ("AMT", 0x40, 0x7F, None, "Aquametro SAPHIR"), ("AMT", 0x80, 0xBF, None, "Aquametro CALEC MB"), ("AMT", 0xC0, 0xFF, None, "Aquametro CALEC ST"),
    ("BEC", 0x00, 0x00, Some(2), "Berg DCMi"), ("BEC", 0x07, 0x07, Some(2), "Berg BLMi"), ("BEC", 0x71, 0x71, Some(0x0F), "Berg BMB-10S0"),
    ("EFE", 0x00, 0x00, Some(6), "Engelmann WaterStar"), ("EFE", 0x00, 0x00, None, "Engelmann / Elster SensoStar 2"), ("EFE", 0x01, 0x01, None, "Engelmann SensoStar 2C"),
    ("ELS", 0x02, 0x02, None, "Elster TMP-A"), ("ELS", 0x0A, 0x0A, None, "Elster Falcon"), ("ELS", 0x2F, 0x2F, None, "Elster F96 Plus"),
    ("ELV", 0x14, 0x1D, None, "Elvaco CMa10"), ("ELV", 0x32, 0x3B, None, "Elvaco CMa11"),
    ("EMH", 0x00, 0x00, None, "EMH DIZ"), ("EMU", 0x10, 0x10, Some(2), "EMU Professional 3/75 M-Bus"),
    ("GAV", 0x2D, 0x30, Some(2), "Carlo Gavazzi EM24"), ("GAV", 0x39, 0x3A, Some(2), "Carlo Gavazzi EM21"), ("GAV", 0x40, 0x40, Some(2), "Carlo Gavazzi EM33"),
    ("GMC", 0xE6, 0xE6, None, "GMC-I A230 EMMOD 206"), ("HYD", 0x28, 0x28, None, "ABB F95 Typ US770"), ("HYD", 0x2F, 0x2F, None, "Hydrometer Sharky 775"),
    ("JAN", 0x09, 0x09, Some(2), "Janitza UMG 96S"), ("KAM", 0x01, 0x01, None, "Kamstrup 382 (6850-005)"), ("KAM", 0x08, 0x08, None, "Kamstrup Multical 601"),
    ("LSE", 0x99, 0x99, None, "Siemens WFH21"), ("LUG", 0x02, 0x02, None, "Landis & Gyr Ultraheat 2WR5"), ("LUG", 0x03, 0x03, None, "Landis & Gyr Ultraheat 2WR6"),
    ("LUG", 0x04, 0x04, None, "Landis & Gyr Ultraheat UH50"), ("LUG", 0x07, 0x07, None, "Landis & Gyr Ultraheat T230"),
    ("NZR", 0x01, 0x01, None, "NZR DHZ 5/63"), ("NZR", 0x50, 0x50, None, "NZR IC-M2"), ("RAM", 0x03, 0x03, None, "Rossweiner ETK/ETW Modularis"),
    ("REL", 0x08, 0x08, None, "Relay PadPuls M1"), ("REL", 0x12, 0x12, None, "Relay PadPuls M4"), ("REL", 0x20, 0x20, None, "Relay Padin 4"),
    ("REL", 0x30, 0x30, None, "Relay AnDi 4"), ("REL", 0x40, 0x40, None, "Relay PadPuls M2"), ("RKE", 0x69, 0x69, None, "Ista sensonic II mbus"),
    ("SBC", 0x10, 0x10, None, "Saia-Burgess ALE3"), ("SBC", 0x19, 0x19, None, "Saia-Burgess ALE3"), ("SBC", 0x11, 0x11, None, "Saia-Burgess AWD3"),
    ("SEN", 0x08, 0x08, None, "Sensus PolluCom E"), ("SEN", 0x19, 0x19, None, "Sensus PolluCom E"), ("SEN", 0x0B, 0x0B, None, "Sensus PolluTherm"), ("SEN", 0x0E, 0x0E, None, "Sensus PolluStat E"),
    ("SEO", 0x30, 0x30, None, "Sensoco PT100"), ("SEO", 0x41, 0x41, None, "Sensoco 2-NTC"), ("SEO", 0x45, 0x45, None, "Sensoco Laser Light"), ("SEO", 0x48, 0x48, None, "Sensoco ADIO"),
    ("SEO", 0x51, 0x51, None, "Sensoco THU"), ("SEO", 0x61, 0x61, None, "Sensoco THU"), ("SEO", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
    ("GTE", 0x30, 0x30, None, "Sensoco PT100"), ("GTE", 0x41, 0x41, None, "Sensoco 2-NTC"), ("GTE", 0x45, 0x45, None, "Sensoco Laser Light"), ("GTE", 0x48, 0x48, None, "Sensoco ADIO"),
    ("GTE", 0x51, 0x51, None, "Sensoco THU"), ("GTE", 0x61, 0x61, None, "Sensoco THU"), ("GTE", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
    ("SLB", 0x02, 0x02, None, "Allmess Megacontrol CF-50"), ("SLB", 0x06, 0x06, None, "CF Compact / Integral MK MaXX"), ("SON", 0x0D, 0x0D, None, "Sontex Supercal 531"),
    ("SPX", 0x31, 0x31, None, "Sensus PolluTherm"), ("SPX", 0x34, 0x34, None, "Sensus PolluTherm"), ("SVM", 0x08, 0x08, None, "Elster F2 / Deltamess F2"), ("SVM", 0x09, 0x09, None, "Elster F4 / Kamstrup SVM F22"),
    ("TCH", 0x26, 0x26, None, "Techem m-bus S"), ("TCH", 0x40, 0x40, None, "Techem ultra S3"), ("WZG", 0x03, 0x03, None, "Modularis ETW-EAX"),
    ("ZRM", 0x81, 0x81, None, "Minol Minocal C2"), ("ZRM", 0x82, 0x82, None, "Minol Minocal WR3"),
];
pub const fn num(s: &str) -> u16 { let b = s.as_bytes(); ((b[0] - 64) as u16) << 10 | ((b[1] - 64) as u16) << 5 | (b[2] - 64) as u16 }
const fn nums() -> [u16; 96] { let mut t = [0xFFFF; 96]; let mut i = 0; while i < PRODUCTS.len() { t[i] = num(PRODUCTS[i].0); i += 1; } t }
static NUMS: [u16; 96] = nums();
/// index of the product row that applies, or PRODUCTS.len(); no branches on the inputs
pub fn product(id: &[u8], code: u16, version: u8, device: u8) -> usize {
    let own = (code == num("SBC")) | (code == num("SEO")) | (code == num("GTE"));
    let v = if own { id[3] } else { version };
    let mut r = PRODUCTS.len();
    for i in (0..PRODUCTS.len()).rev() {
        let (_, lo, hi, d, _) = PRODUCTS[i];
        let hit = (code == NUMS[i]) & (v >= lo) & (v <= hi) & match d { None => true, Some(d) => device == d };
        r = if hit { i } else { r };
    }
    r
}

// ------------------------------------------------------------ application ----
/// None: not decodable; Some(None): empty; Some((application, block, bytes used))
pub fn select(b: &[u8]) -> Option<Option<(u8, u64, usize)>> {
    if b.is_empty() { return Some(None); }
    let n = if b.len() > 10 { 10 } else { b.len() };
    let (mut a, mut k, mut open) = (0u64, 0u64, true);
    for i in 0..n {
        let hi = (b[i] >> 4) as u64;
        a += if open { hi } else { 0 };
        open &= hi != 15;
        k = k << 4 | (b[i] & 15) as u64;
    }
    if (a <= 15) | ((a >= 26) & (a <= 45)) { Some(Some((a as u8, k, n))) } else { None }
}
pub const E_DYNAMIC: u8 = 0x40; pub const E_MANUFACTURER: u8 = 0x41;
pub static APP_ERRORS: [u8; 256] = {
    let mut t = [NO; 256];
    let l = [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x08, 0x09, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x20, 0x21, 0x22];
    let mut i = 0;
    while i < l.len() { t[l[i]] = l[i] as u8; i += 1; }
    t[0xF0] = E_DYNAMIC;
    let mut i = 0xF1;
    while i < 256 { t[i] = E_MANUFACTURER; i += 1; }
    t
};

// ------------------------------------------------------------------ frame ----
pub struct Frame<'a> { pub records: Vec<super::model::Record<'a>>, pub more: bool, pub rest: &'a [u8] }
pub fn frame(b: &[u8]) -> Option<Frame<'_>> {
    let mut p = 0;
    let mut records = vec![];
    loop {
        if p == b.len() { return Some(Frame { records, more: false, rest: &[] }); }
        let x = b[p];
        if x == 0x1F || x == 0x0F { return Some(Frame { records, more: x == 0x1F, rest: &b[p + 1..] }); }
        if x == 0x2F { p += 1; continue; }
        let r = super::model::record(&b[p..])?;
        p += r.len;
        records.push(r);
    }
}
/// does every record's unit text stay within what the record model covers?
pub fn frame_modelled(b: &[u8]) -> bool {
    use super::model as m;
    let mut p = 0;
    while p < b.len() {
        let x = b[p];
        if x == 0x1F || x == 0x0F { break; }
        if x == 0x2F { p += 1; continue; }
        let Some(d) = m::dib(&b[p..]) else { break };
        let Some(v) = m::vib(&b[p + d.len..]) else { break };
        if !super::real::modelled_text(&v, &b[p + d.len..]) { return false; }
        match m::record(&b[p..]) { Some(r) => p += r.len, None => break }
    }
    true
}
