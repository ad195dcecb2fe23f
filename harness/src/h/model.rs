//! Reference decoder for the M-Bus application layer, written from the wire
//! format (EN 13757-3/-7 tables), not from the parser's structure: straight
//! byte arithmetic on slices, no parser combinators, no dependency on libmbus.
#![allow(dead_code)]

// ---------------------------------------------------------------- kinds ----
macro_rules! kinds { ($($n:ident)*) => { #[allow(non_camel_case_types)] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum K { None0 = 0, $($n),* } } }
kinds! { Any Plain Manufacturer Retired Reserved Invalid
 Energy Volume Mass OnTime OperatingTime Power VolumeFlow MassFlow FlowTemperature ReturnTemperature TemperatureDifference ExternalTemperature Pressure
 DateG DateVar DateF TimeJ DateI DateM Hca AveragingDuration ActualityDuration FabricationNumber EnhancedIdentification Address
 Credit Debit UniqueMessageIdentification DeviceType ManufacturerName ParameterSetIdentification ModelVersion HardwareVersion MetrologyFirmware OtherSoftware
 CustomerLocation Customer AccessUser AccessOperator AccessSystemOperator AccessDeveloper Password ErrorFlags ErrorMask SecurityKey DigitalOutput DigitalInput
 BaudRate ResponseDelay Retry RemoteControl FirstStorage LastStorage SizeOfStorageBlock DescriptorTariffSubunit StorageInterval OperatorSpecific TimePointSecond
 DurationSinceReadout StartOfTariff DurationOfTariff PeriodOfTariff Dimensionless WirelessContainer PeriodOfNominalTransmissions Volts Amperes
 ResetCounter CumulationCounter ControlSignal DayOfWeek WeekNumber TimePointOfDayChange StateOfParameterActivation SpecialSupplier
 DurationSinceCumulation OperatingTimeBattery BatteryChange RfLevel DstK ListeningWindow RemainingBattery TimesStopped ManufacturerContainer
 CurrentApplication ReactiveEnergy ApparentEnergy ReactivePower RelativeHumidity PhaseUU PhaseUI Frequency ApparentPower TemperatureLimit CumulativeMaxPower
 PowerFactorK FactorKq FactorKc FactorKcr FactorKch FactorKt FactorKd
}

// sub codes
pub const WH: u8 = 1; pub const J: u8 = 2; pub const MWH: u8 = 3; pub const MCAL: u8 = 4; pub const GJ: u8 = 5;
pub const W: u8 = 1; pub const JPH: u8 = 2; pub const MW: u8 = 3; pub const GJPH: u8 = 4;
pub const M3: u8 = 1; pub const FEET3: u8 = 2;
pub const KG: u8 = 1; pub const TON: u8 = 2;
pub const SEC: u8 = 1; pub const MIN: u8 = 2; pub const HOUR: u8 = 3; pub const DAY: u8 = 4; pub const MONTH: u8 = 5; pub const YEAR: u8 = 6;
pub const T10: u8 = 10; pub const T12: u8 = 12; pub const T13: u8 = 13; pub const T14: u8 = 14;

/// how the low bits of the code are used
#[derive(Clone, Copy)]
enum L { Fix(u8, i8), Exp(u8, u8, i8) /* sub, bits, offset */, Nn, Pp, Val(u8) /* the code itself, sub */ }
use L::*;
type Row = (u8, u8, K, L);

static PRIMARY: &[Row] = &[
    (0x00, 0x07, K::Energy, Exp(WH, 3, -3)), (0x08, 0x0F, K::Energy, Exp(J, 3, 0)),
    (0x10, 0x17, K::Volume, Exp(M3, 3, -6)), (0x18, 0x1F, K::Mass, Exp(KG, 3, -3)),
    (0x20, 0x23, K::OnTime, Nn), (0x24, 0x27, K::OperatingTime, Nn),
    (0x28, 0x2F, K::Power, Exp(W, 3, -3)), (0x30, 0x37, K::Power, Exp(JPH, 3, 0)),
    (0x38, 0x3F, K::VolumeFlow, Exp(HOUR, 3, -6)), (0x40, 0x47, K::VolumeFlow, Exp(MIN, 3, -7)), (0x48, 0x4F, K::VolumeFlow, Exp(SEC, 3, -9)),
    (0x50, 0x57, K::MassFlow, Exp(HOUR, 3, -3)),
    (0x58, 0x5B, K::FlowTemperature, Exp(0, 2, -3)), (0x5C, 0x5F, K::ReturnTemperature, Exp(0, 2, -3)),
    (0x60, 0x63, K::TemperatureDifference, Exp(0, 2, -3)), (0x64, 0x67, K::ExternalTemperature, Exp(0, 2, -3)),
    (0x68, 0x6B, K::Pressure, Exp(0, 2, -3)),
    (0x6C, 0x6C, K::DateG, Fix(0, 0)), (0x6D, 0x6D, K::DateVar, Fix(0, 0)), (0x6E, 0x6E, K::Hca, Fix(0, 0)),
    (0x6F, 0x6F, K::Reserved, Val(T10)),
    (0x70, 0x73, K::AveragingDuration, Nn), (0x74, 0x77, K::ActualityDuration, Nn),
    (0x78, 0x78, K::FabricationNumber, Fix(0, 0)), (0x79, 0x79, K::EnhancedIdentification, Fix(0, 0)), (0x7A, 0x7A, K::Address, Fix(0, 0)),
];
static MAIN_EXT: &[Row] = &[
    (0x00, 0x03, K::Credit, Exp(0, 2, -3)), (0x04, 0x07, K::Debit, Exp(0, 2, -3)),
    (0x08, 0x08, K::UniqueMessageIdentification, Fix(0, 0)), (0x09, 0x09, K::DeviceType, Fix(0, 0)), (0x0A, 0x0A, K::ManufacturerName, Fix(0, 0)),
    (0x0B, 0x0B, K::ParameterSetIdentification, Fix(0, 0)), (0x0C, 0x0C, K::ModelVersion, Fix(0, 0)), (0x0D, 0x0D, K::HardwareVersion, Fix(0, 0)),
    (0x0E, 0x0E, K::MetrologyFirmware, Fix(0, 0)), (0x0F, 0x0F, K::OtherSoftware, Fix(0, 0)),
    (0x10, 0x10, K::CustomerLocation, Fix(0, 0)), (0x11, 0x11, K::Customer, Fix(0, 0)),
    (0x12, 0x12, K::AccessUser, Fix(0, 0)), (0x13, 0x13, K::AccessOperator, Fix(0, 0)), (0x14, 0x14, K::AccessSystemOperator, Fix(0, 0)), (0x15, 0x15, K::AccessDeveloper, Fix(0, 0)),
    (0x16, 0x16, K::Password, Fix(0, 0)), (0x17, 0x17, K::ErrorFlags, Fix(0, 0)), (0x18, 0x18, K::ErrorMask, Fix(0, 0)), (0x19, 0x19, K::SecurityKey, Fix(0, 0)),
    (0x1A, 0x1A, K::DigitalOutput, Fix(0, 0)), (0x1B, 0x1B, K::DigitalInput, Fix(0, 0)), (0x1C, 0x1C, K::BaudRate, Fix(0, 0)),
    (0x1D, 0x1D, K::ResponseDelay, Fix(0, 0)), (0x1E, 0x1E, K::Retry, Fix(0, 0)), (0x1F, 0x1F, K::RemoteControl, Fix(0, 0)),
    (0x20, 0x20, K::FirstStorage, Fix(0, 0)), (0x21, 0x21, K::LastStorage, Fix(0, 0)), (0x22, 0x22, K::SizeOfStorageBlock, Fix(0, 0)),
    (0x23, 0x23, K::DescriptorTariffSubunit, Fix(0, 0)), (0x24, 0x27, K::StorageInterval, Nn),
    (0x28, 0x28, K::StorageInterval, Fix(MONTH, 0)), (0x29, 0x29, K::StorageInterval, Fix(YEAR, 0)),
    (0x2A, 0x2A, K::OperatorSpecific, Fix(0, 0)), (0x2B, 0x2B, K::TimePointSecond, Fix(0, 0)), (0x2C, 0x2F, K::DurationSinceReadout, Nn),
    (0x30, 0x30, K::StartOfTariff, Fix(0, 0)), (0x31, 0x33, K::DurationOfTariff, Nn), (0x34, 0x37, K::PeriodOfTariff, Nn),
    (0x38, 0x38, K::PeriodOfTariff, Fix(MONTH, 0)), (0x39, 0x39, K::PeriodOfTariff, Fix(YEAR, 0)),
    (0x3A, 0x3A, K::Dimensionless, Fix(0, 0)), (0x3B, 0x3B, K::WirelessContainer, Fix(0, 0)), (0x3C, 0x3F, K::PeriodOfNominalTransmissions, Nn),
    (0x40, 0x4F, K::Volts, Exp(0, 4, -9)), (0x50, 0x5F, K::Amperes, Exp(0, 4, -12)),
    (0x60, 0x60, K::ResetCounter, Fix(0, 0)), (0x61, 0x61, K::CumulationCounter, Fix(0, 0)), (0x62, 0x62, K::ControlSignal, Fix(0, 0)),
    (0x63, 0x63, K::DayOfWeek, Fix(0, 0)), (0x64, 0x64, K::WeekNumber, Fix(0, 0)), (0x65, 0x65, K::TimePointOfDayChange, Fix(0, 0)),
    (0x66, 0x66, K::StateOfParameterActivation, Fix(0, 0)), (0x67, 0x67, K::SpecialSupplier, Fix(0, 0)),
    (0x68, 0x6B, K::DurationSinceCumulation, Pp), (0x6C, 0x6F, K::OperatingTimeBattery, Pp),
    (0x70, 0x70, K::BatteryChange, Fix(0, 0)), (0x71, 0x71, K::RfLevel, Fix(0, 0)), (0x72, 0x72, K::DstK, Fix(0, 0)),
    (0x73, 0x73, K::ListeningWindow, Fix(0, 0)), (0x74, 0x74, K::RemainingBattery, Fix(DAY, 0)), (0x75, 0x75, K::TimesStopped, Fix(0, 0)),
    (0x76, 0x76, K::ManufacturerContainer, Fix(0, 0)), (0x77, 0x7F, K::Reserved, Val(T12)),
];
static SECOND_EXT: &[Row] = &[
    (0x00, 0x00, K::CurrentApplication, Fix(0, 0)), (0x01, 0x01, K::Reserved, Val(T13)),
    (0x02, 0x02, K::RemainingBattery, Fix(MONTH, 0)), (0x03, 0x03, K::RemainingBattery, Fix(YEAR, 0)), (0x04, 0x7F, K::Reserved, Val(T13)),
];
static ALT_EXT: &[Row] = &[
    (0x00, 0x01, K::Energy, Exp(MWH, 1, -1)), (0x02, 0x03, K::ReactiveEnergy, Exp(0, 1, 0)), (0x04, 0x05, K::ApparentEnergy, Exp(0, 1, 0)),
    (0x06, 0x07, K::Reserved, Val(T14)), (0x08, 0x09, K::Energy, Exp(GJ, 1, -1)), (0x0A, 0x0B, K::Reserved, Val(T14)),
    (0x0C, 0x0F, K::Energy, Exp(MCAL, 2, -1)), (0x10, 0x11, K::Volume, Exp(M3, 1, 2)), (0x12, 0x13, K::Reserved, Val(T14)),
    (0x14, 0x17, K::ReactivePower, Exp(0, 2, -3)), (0x18, 0x19, K::Mass, Exp(TON, 1, 2)), (0x1A, 0x1B, K::RelativeHumidity, Exp(0, 1, -1)),
    (0x1C, 0x1F, K::Reserved, Val(T14)), (0x20, 0x20, K::Volume, Fix(FEET3, 0)), (0x21, 0x21, K::Volume, Fix(FEET3, -1)),
    (0x22, 0x26, K::Retired, Val(T14)), (0x27, 0x27, K::Reserved, Val(T14)), (0x28, 0x29, K::Power, Exp(MW, 1, -1)),
    (0x2A, 0x2A, K::PhaseUU, Fix(0, 0)), (0x2B, 0x2B, K::PhaseUI, Fix(0, 0)), (0x2C, 0x2F, K::Frequency, Exp(0, 2, -3)),
    (0x30, 0x31, K::Power, Exp(GJPH, 1, -1)), (0x32, 0x33, K::Reserved, Val(T14)), (0x34, 0x37, K::ApparentPower, Exp(0, 2, -1)),
    (0x38, 0x57, K::Reserved, Val(T14)), (0x58, 0x67, K::Retired, Val(T14)),
    (0x68, 0x68, K::PowerFactorK, Fix(0, 0)), (0x69, 0x69, K::FactorKq, Fix(0, 0)), (0x6A, 0x6A, K::FactorKc, Fix(0, 0)), (0x6B, 0x6B, K::FactorKcr, Fix(0, 0)),
    (0x6C, 0x6C, K::FactorKch, Fix(0, 0)), (0x6D, 0x6D, K::FactorKt, Fix(0, 0)), (0x6E, 0x6E, K::FactorKd, Fix(0, 0)), (0x6F, 0x6F, K::Reserved, Val(T14)),
    (0x70, 0x73, K::Retired, Val(T14)), (0x74, 0x77, K::TemperatureLimit, Exp(0, 2, -3)), (0x78, 0x7F, K::CumulativeMaxPower, Exp(0, 3, -3)),
];

/// code -> (kind, sub code, exponent or raw value)
pub type Table = [[u8; 128]; 3];
const fn build(rows: &[Row]) -> Table {
    let mut t = [[0u8; 128]; 3];
    let mut i = 0;
    while i < rows.len() {
        let (a, b, k, l) = rows[i];
        let mut v = a;
        while v <= b {
            let low = (v & 3) as u8;
            let (s, e) = match l {
                Fix(s, e) => (s, e),
                Exp(s, bits, off) => (s, (v & ((1 << bits) - 1)) as i8 + off),
                Nn => (SEC + low, 0),
                Pp => (HOUR + low, 0),
                Val(s) => (s, v as i8),
            };
            t[0][v as usize] = k as u8; t[1][v as usize] = s; t[2][v as usize] = e as u8;
            v += 1;
        }
        i += 1;
    }
    t
}
pub static TAB10: Table = build(PRIMARY);
pub static TAB12: Table = build(MAIN_EXT);
pub static TAB13: Table = build(SECOND_EXT);
pub static TAB14: Table = build(ALT_EXT);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Vt { pub k: u8, pub s: u8, pub e: u8 }
pub const fn vt(k: K, s: u8, e: i8) -> Vt { Vt { k: k as u8, s, e: e as u8 } }
pub fn look(t: &Table, code: u8) -> Vt { let i = (code & 0x7F) as usize; Vt { k: t[0][i], s: t[1][i], e: t[2][i] } }

/// value kinds whose integer data is unsigned: 1; signed: 0; not claimed: 2
const fn unsigned_kinds() -> [u8; 256] {
    let mut u = [0u8; 256];
    let l = [K::UniqueMessageIdentification, K::DeviceType, K::ManufacturerName, K::ParameterSetIdentification, K::ModelVersion, K::HardwareVersion,
        K::MetrologyFirmware, K::OtherSoftware, K::CustomerLocation, K::Customer, K::AccessUser, K::AccessOperator, K::AccessDeveloper, K::Password,
        K::ErrorMask, K::SecurityKey, K::BaudRate, K::ResponseDelay, K::FirstStorage, K::LastStorage, K::SizeOfStorageBlock, K::DescriptorTariffSubunit,
        K::TimePointSecond, K::DurationSinceReadout, K::DurationOfTariff, K::PeriodOfTariff, K::PeriodOfNominalTransmissions, K::DayOfWeek, K::WeekNumber,
        K::StateOfParameterActivation, K::SpecialSupplier, K::DurationSinceCumulation, K::RemainingBattery, K::TimesStopped, K::RelativeHumidity,
        K::PowerFactorK, K::FactorKch, K::FactorKc, K::FactorKcr, K::FactorKq];
    let mut i = 0;
    while i < l.len() { u[l[i] as usize] = 1; i += 1; }
    u[K::AccessSystemOperator as usize] = 2;
    u
}
pub static UNSIGNED: [u8; 256] = unsigned_kinds();

// ------------------------------------------------------------------ DIB ----
pub const D_NONE: u8 = 0; pub const D_BIN: u8 = 1; pub const D_REAL: u8 = 2; pub const D_BCD: u8 = 3; pub const D_LVAR: u8 = 4; pub const D_BAD: u8 = 9;
//                                0       1      2      3      4      5       6      7      8      9      A      B      C      D       E      F
pub static DATA_KIND: [u8; 16] = [D_NONE, D_BIN, D_BIN, D_BIN, D_BIN, D_REAL, D_BIN, D_BIN, D_BAD, D_BCD, D_BCD, D_BCD, D_BCD, D_LVAR, D_BCD, D_BAD];
pub static DATA_LEN: [u8; 16] =  [0,      1,     2,     3,     4,     4,      6,     8,     0,     1,     2,     3,     4,     0,      6,     0];

pub struct Dib { pub len: usize, pub kind: u8, pub n: u8, pub function: u8, pub storage: u64, pub tariff: u64, pub device: u64, pub obis: bool }
pub fn dib(b: &[u8]) -> Option<Dib> {
    if b.is_empty() { return None; }
    let dif = b[0];
    let kind = DATA_KIND[(dif & 15) as usize];
    if kind == D_BAD { return None; }
    let mut d = Dib { len: 1, kind, n: DATA_LEN[(dif & 15) as usize], function: (dif >> 4) & 3, storage: ((dif >> 6) & 1) as u64, tariff: 0, device: 0, obis: false };
    let mut more = dif & 0x80 != 0;
    let mut j = 0;
    while more {
        if j == 10 || d.len >= b.len() { return None; }
        let e = b[d.len];
        d.len += 1;
        d.storage |= ((e & 15) as u64) << (1 + 4 * j);
        d.tariff |= (((e >> 4) & 3) as u64) << (2 * j);
        d.device |= (((e >> 6) & 1) as u64) << j;
        d.obis = e == 0;
        more = e & 0x80 != 0;
        j += 1;
    }
    Some(d)
}

// ------------------------------------------------------------------ VIB ----
/// `text`: start and length of a plain text unit; `extra`: start and length of the further VIFEs
pub struct Vib { pub len: usize, pub vt: Vt, pub text: (usize, usize), pub extra: (usize, usize) }
/// None: not decodable. Non-ASCII plain text is outside the model (see `ascii`).
pub fn vib(b: &[u8]) -> Option<Vib> {
    if b.is_empty() { return None; }
    let v = b[0];
    let mut more = v & 0x80 != 0;
    let mut p = 1;
    let mut text = (0, 0);
    let code = v & 0x7F;
    let t = if code <= 0x7A { look(&TAB10, code) }
    else if code == 0x7C {
        if p >= b.len() { return None; }
        let n = b[p] as usize;
        if p + 1 + n > b.len() { return None; }
        text = (p + 1, n);
        p += 1 + n;
        vt(K::Plain, 0, 0)
    }
    else if code == 0x7E { vt(K::Any, 0, 0) }
    else if code == 0x7F { vt(K::Manufacturer, 0, 0) }
    else if !more { vt(K::Invalid, 0, code as i8) }
    else {
        if p >= b.len() { return None; }
        let w = b[p];
        p += 1;
        more = w & 0x80 != 0;
        if code == 0x7B { look(&TAB14, w) }
        else if w & 0x7F != 0x7D { look(&TAB12, w) }
        else {
            if !more || p >= b.len() { return None; }
            let x = b[p];
            p += 1;
            more = x & 0x80 != 0;
            look(&TAB13, x)
        }
    };
    let s = p;
    while more {
        if p >= b.len() { return None; }
        more = b[p] & 0x80 != 0;
        p += 1;
    }
    Some(Vib { len: p, vt: t, text, extra: (s, p - s) })
}

// --------------------------------------------------------------- values ----
/// little endian
pub fn uint(b: &[u8]) -> u64 { let mut v = 0u64; for (i, x) in b.iter().enumerate() { v |= (*x as u64) << (8 * i); } v }
/// little endian, two's complement over exactly b.len() bytes
pub fn sint(b: &[u8]) -> i64 {
    if b.is_empty() { return 0; }
    let s = 64 - 8 * b.len() as u32;
    ((uint(b) << s) as i64) >> s
}
pub const fn digit(n: u8) -> bool { n < 10 }
/// every nibble a decimal digit, except that the most significant one may be F (minus)
pub fn bcd_ok(b: &[u8]) -> bool {
    let mut ok = true;
    for (i, x) in b.iter().enumerate() {
        let hi = x >> 4;
        ok &= digit(x & 15) & (digit(hi) | ((i + 1 == b.len()) & (hi == 15)));
    }
    ok
}
pub fn bcd_neg(b: &[u8]) -> bool { !b.is_empty() && b[b.len() - 1] >> 4 == 15 }
pub fn bcd(b: &[u8]) -> i64 {
    let mut v = 0i64;
    let mut scale = 1i64;
    let neg = super::vh::fork(bcd_neg(b) as u64) == 1;
    for (i, x) in b.iter().enumerate() {
        let hi = if i + 1 == b.len() && neg { 0 } else { (x >> 4) as i64 };
        v += (x & 15) as i64 * scale + hi * (scale * 10);
        if i + 1 < b.len() { scale *= 100; }
    }
    if neg { -v } else { v }
}
pub fn hex_digit(n: u8) -> u8 { b"0123456789ABCDEF"[(n & 15) as usize] }
/// what an undecodable BCD field of these bytes reads as: character i of 2*b.len()
pub fn bcd_char(b: &[u8], i: usize) -> u8 {
    let x = b[b.len() - 1 - i / 2];
    if i % 2 == 0 { if i == 0 && x >> 4 == 15 { b'-' } else { hex_digit(x >> 4) } } else { hex_digit(x) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dmy { pub day: u8, pub month: u8, pub year: u8 }
pub fn dmy(a: u8, b: u8) -> Option<Dmy> {
    let d = Dmy { day: a & 31, month: b & 15, year: (a >> 5) | ((b >> 4) << 3) };
    let ok = !((a == 0xFF) & (b == 0xFF)) & ((d.month <= 12) | (d.month == 15)) & ((d.year <= 99) | (d.year == 127));
    if ok { Some(d) } else { None }
}
fn min_ok(v: u8) -> bool { (v <= 59) | (v == 63) }
fn hour_ok(v: u8) -> bool { (v <= 23) | (v == 31) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F { pub minute: u8, pub hour: u8, pub d: Dmy, pub century: u8, pub dst: bool }
pub fn f(b: &[u8]) -> Option<F> {
    let d = dmy(b[2], b[3])?;
    let (minute, hour, c) = (b[0] & 63, b[1] & 31, (b[1] >> 5) & 3);
    if !((b[0] & 0xC0 == 0) & min_ok(minute) & hour_ok(hour)) { return None; }
    let century = if (c == 0) & (d.year <= 80) { 1 } else { c };
    Some(F { minute, hour, d, century, dst: b[1] & 0x80 != 0 })
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct I { pub second: u8, pub minute: u8, pub hour: u8, pub d: Dmy, pub dow: u8, pub week: u8, pub dst: bool, pub leap: bool, pub offset: i8 }
pub fn i(b: &[u8]) -> Option<I> {
    let d = dmy(b[3], b[4])?;
    let r = I { second: b[0] & 63, minute: b[1] & 63, hour: b[2] & 31, d, dow: b[2] >> 5, week: b[5] & 63, dst: b[0] & 0x40 != 0, leap: b[0] & 0x80 != 0,
        offset: if b[1] & 0x40 != 0 { (b[5] >> 6) as i8 } else { -((b[5] >> 6) as i8) } };
    if (b[1] & 0x80 == 0) & min_ok(r.second) & min_ok(r.minute) & hour_ok(r.hour) & (r.week <= 53) { Some(r) } else { None }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Jt { pub second: u8, pub minute: u8, pub hour: u8 }
pub fn j(b: &[u8]) -> Option<Jt> {
    let r = Jt { second: b[0], minute: b[1], hour: b[2] };
    if min_ok(b[0]) & min_ok(b[1]) & hour_ok(b[2]) { Some(r) } else { None }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Kt { pub sh: u8, pub sd: u8, pub sm: u8, pub ed: u8, pub em: u8, pub enable: bool, pub dst: i8, pub local: u8 }
pub fn k(b: &[u8]) -> Option<Kt> {
    let dev = ((b[2] >> 5) & 3) as i8;
    let r = Kt { sh: b[0] & 31, sd: b[1] & 31, sm: b[3] & 15, ed: b[2] & 31, em: b[3] >> 4, enable: b[1] & 0x80 != 0,
        dst: if b[2] & 0x80 != 0 { dev } else { -dev }, local: (b[0] >> 5) | (((b[1] >> 5) & 3) << 3) };
    let m = |v: u8| (v >= 1) & (v <= 12);
    if hour_ok(r.sh) & (r.sd >= 1) & (r.ed >= 1) & m(r.sm) & m(r.em) & hour_ok(r.local) { Some(r) } else { None }
}

// --------------------------------------------------------------- record ----
#[derive(Clone, Copy, Debug)]
pub enum Data<'a> { None, Unsigned(u64), Signed(i64), AnySign(&'a [u8]), Real(u32), F(F), I(I), G(Dmy), J(Jt), K(Kt), Text(&'a [u8]), BadBcd(&'a [u8]), Big(&'a [u8]) }
/// the VIF's meaning once the data field is known
pub fn resolve(d: &Dib, v: Vt) -> Vt {
    let bin = |n: u8| d.kind == D_BIN && d.n == n;
    if v.k == K::DateG as u8 { if bin(2) { v } else { vt(K::Invalid, 0, 0x6C) } }
    else if v.k == K::DateVar as u8 {
        if d.kind == D_LVAR { vt(K::DateM, 0, 0) } else if bin(4) { vt(K::DateF, 0, 0) } else if bin(3) { vt(K::TimeJ, 0, 0) } else if bin(6) { vt(K::DateI, 0, 0) }
        else { vt(K::Invalid, 0, 0x6D) }
    }
    else if v.k == K::DstK as u8 { if bin(4) { v } else { vt(K::Invalid, 0, 0x72) } }
    else { v }
}
fn integer<'a>(k: u8, b: &'a [u8]) -> Data<'a> {
    match UNSIGNED[k as usize] { 0 => Data::Signed(sint(b)), 1 => Data::Unsigned(uint(b)), _ => Data::AnySign(b) }
}
/// number of bytes a variable length field takes after its length byte
pub fn lvar_len(l: u8) -> Option<usize> {
    Some(match l {
        0x00..=0xBF => l as usize,
        0xC0..=0xC9 => (l - 0xC0) as usize,
        0xD0..=0xD9 => (l - 0xD0) as usize,
        0xE0..=0xEF => (l - 0xE0) as usize,
        0xF0..=0xF4 => 16 + 4 * (l - 0xF0) as usize,
        0xF5 => 48,
        0xF6 => 64,
        _ => return None,
    })
}
/// decoded value and bytes used
pub fn data<'a>(d: &Dib, t: Vt, b: &'a [u8]) -> Option<(Data<'a>, usize)> {
    if d.kind == D_LVAR {
        if b.is_empty() { return None; }
        let l = b[0];
        let n = lvar_len(l)?;
        if 1 + n > b.len() { return None; }
        let c = &b[1..1 + n];
        let v = if l <= 0xBF { Data::Text(c) }
        else if l <= 0xDF {
            if !bcd_ok(c) { return None; }
            let x = bcd(c);
            if l <= 0xC9 { if x < 0 { return None; } Data::Signed(x) } else { Data::Signed(if super::vh::fork(bcd_neg(c) as u64) == 1 { x } else { -x }) }
        }
        else if l <= 0xE8 { integer(t.k, c) }
        else { Data::Big(c) };
        return Some((v, 1 + n));
    }
    let n = d.n as usize;
    if n > b.len() { return None; }
    let c = &b[..n];
    let v = if t.k == K::DateF as u8 { Data::F(f(c)?) }
    else if t.k == K::DateG as u8 { Data::G(dmy(c[0], c[1])?) }
    else if t.k == K::DateI as u8 { Data::I(i(c)?) }
    else if t.k == K::TimeJ as u8 { Data::J(j(c)?) }
    else if t.k == K::DstK as u8 { Data::K(k(c)?) }
    else if d.kind == D_NONE { Data::None }
    else if d.kind == D_BIN { integer(t.k, c) }
    else if d.kind == D_REAL { Data::Real(uint(c) as u32) }
    else if bcd_ok(c) { Data::Signed(bcd(c)) } else { Data::BadBcd(c) };
    Some((v, n))
}
pub struct Record<'a> { pub dib: Dib, pub vib: Vib, pub vt: Vt, pub raw: &'a [u8] /* from the VIF on */, pub data: Data<'a>, pub len: usize }
pub fn record(b: &[u8]) -> Option<Record<'_>> {
    let d = dib(b)?;
    let raw = &b[d.len..];
    let v = vib(raw)?;
    let t = resolve(&d, v.vt);
    let (x, n) = data(&d, t, &raw[v.len..])?;
    let len = d.len + v.len + n;
    Some(Record { dib: d, vib: v, vt: t, raw, data: x, len })
}

/// Windows-1252 reading of 80..9F
pub static CP1252: [u16; 32] = [
    0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D, 0x8F,
    0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
];
