//! Comparison of what the library returns with the reference decoder.
#![allow(dead_code)]
use super::model as m;
use super::model::{Vt, K};
use super::vh::*;
use libmbus::parse::application_layer::dib::{DataFunction, DataInfoBlock, RawDataType};
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::application_layer::vib::*;
use libmbus::parse::types::DataType;
use libmbus::parse::types::date::*;

fn dur(d: &DurationType) -> u8 {
    match d { DurationType::Seconds => m::SEC, DurationType::Minutes => m::MIN, DurationType::Hours => m::HOUR, DurationType::Days => m::DAY, DurationType::Months => m::MONTH, DurationType::Years => m::YEAR }
}
fn tab(t: &VIFTable) -> u8 { match t { VIFTable::Table10 => m::T10, VIFTable::Table12 => m::T12, VIFTable::Table13 => m::T13, VIFTable::Table14 => m::T14 } }
pub fn vt_of(v: &ValueType) -> Vt {
    use ValueType as V;
    let n = |k: K| m::vt(k, 0, 0);
    let e = |k: K, e: &i8| m::vt(k, 0, *e);
    let d = |k: K, u: &DurationType| m::vt(k, dur(u), 0);
    match v {
        V::Any => n(K::Any), V::PlainText(_) => n(K::Plain), V::ManufacturerSpecific => n(K::Manufacturer),
        V::RetiredCode(t, c) => m::vt(K::Retired, tab(t), *c as i8), V::ReservedCode(t, c) => m::vt(K::Reserved, tab(t), *c as i8),
        V::Invalid(c) => m::vt(K::Invalid, 0, *c as i8),
        V::Energy(u, x) => m::vt(K::Energy, match u { EnergyUnit::Wh => m::WH, EnergyUnit::J => m::J, EnergyUnit::MWh => m::MWH, EnergyUnit::MCal => m::MCAL, EnergyUnit::GJ => m::GJ }, *x),
        V::Volume(u, x) => m::vt(K::Volume, match u { VolumeUnit::M3 => m::M3, VolumeUnit::Feet3 => m::FEET3 }, *x),
        V::Mass(u, x) => m::vt(K::Mass, match u { MassUnit::Kg => m::KG, MassUnit::T => m::TON }, *x),
        V::OnTime(u) => d(K::OnTime, u), V::OperatingTime(u) => d(K::OperatingTime, u),
        V::Power(u, x) => m::vt(K::Power, match u { PowerUnit::W => m::W, PowerUnit::Jph => m::JPH, PowerUnit::MW => m::MW, PowerUnit::GJph => m::GJPH }, *x),
        V::VolumeFlow(u, x) => m::vt(K::VolumeFlow, dur(u), *x), V::MassFlow(u, x) => m::vt(K::MassFlow, dur(u), *x),
        V::FlowTemperature(x) => e(K::FlowTemperature, x), V::ReturnTemperature(x) => e(K::ReturnTemperature, x),
        V::TemperatureDifference(x) => e(K::TemperatureDifference, x), V::ExternalTemperature(x) => e(K::ExternalTemperature, x), V::Pressure(x) => e(K::Pressure, x),
        V::TypeGDate => n(K::DateG), V::VariableDateTime => n(K::DateVar), V::TypeFDateTime => n(K::DateF), V::TypeJTime => n(K::TimeJ), V::TypeIDateTime => n(K::DateI), V::TypeMDatetime => n(K::DateM),
        V::HCA => n(K::Hca), V::AveragingDuration(u) => d(K::AveragingDuration, u), V::ActualityDuration(u) => d(K::ActualityDuration, u),
        V::FabricationNumber => n(K::FabricationNumber), V::EnhancedIdentification => n(K::EnhancedIdentification), V::Address => n(K::Address),
        V::Credit(x) => e(K::Credit, x), V::Debit(x) => e(K::Debit, x),
        V::UniqueMessageIdentification => n(K::UniqueMessageIdentification), V::DeviceType => n(K::DeviceType), V::Manufacturer => n(K::ManufacturerName),
        V::ParameterSetIdentification => n(K::ParameterSetIdentification), V::ModelVersion => n(K::ModelVersion), V::HardwareVersionNumber => n(K::HardwareVersion),
        V::MetrologyFirmwareVersionNumber => n(K::MetrologyFirmware), V::OtherSoftwareVersionNumber => n(K::OtherSoftware),
        V::CustomerLocation => n(K::CustomerLocation), V::Customer => n(K::Customer), V::AccessCodeUser => n(K::AccessUser), V::AccessCodeOperator => n(K::AccessOperator),
        V::AccessCodeSystemOperator => n(K::AccessSystemOperator), V::AccessCodeDeveloper => n(K::AccessDeveloper), V::Password => n(K::Password),
        V::ErrorFlags => n(K::ErrorFlags), V::ErrorMask => n(K::ErrorMask), V::SecurityKey => n(K::SecurityKey), V::DigitalOutput => n(K::DigitalOutput), V::DigitalInput => n(K::DigitalInput),
        V::BaudRate => n(K::BaudRate), V::ResponseDelayTime => n(K::ResponseDelay), V::Retry => n(K::Retry), V::RemoteControl => n(K::RemoteControl),
        V::FirstStorageNumberForCyclicStorage => n(K::FirstStorage), V::LastStorageNumberForCyclicStorage => n(K::LastStorage), V::SizeOfStorageBlock => n(K::SizeOfStorageBlock),
        V::DescriptorForTariffAndSubunit => n(K::DescriptorTariffSubunit), V::StorageInterval(u) => d(K::StorageInterval, u), V::OperatorSpecific => n(K::OperatorSpecific),
        V::TimePointSecond => n(K::TimePointSecond), V::DurationSinceLastReadout(u) => d(K::DurationSinceReadout, u), V::StartDateTimeOfTariff => n(K::StartOfTariff),
        V::DurationOfTariff(u) => d(K::DurationOfTariff, u), V::PeriodOfTarrif(u) => d(K::PeriodOfTariff, u), V::Dimensionless => n(K::Dimensionless), V::WirelessContainer => n(K::WirelessContainer),
        V::PeriodOfNominalDataTransmissions(u) => d(K::PeriodOfNominalTransmissions, u), V::Volts(x) => e(K::Volts, x), V::Amperes(x) => e(K::Amperes, x),
        V::ResetCounter => n(K::ResetCounter), V::CumulationCounter => n(K::CumulationCounter), V::ControlSignal => n(K::ControlSignal), V::DayOfWeek => n(K::DayOfWeek), V::WeekNumber => n(K::WeekNumber),
        V::TimePointOfDayChange => n(K::TimePointOfDayChange), V::StateOfParameterActivation => n(K::StateOfParameterActivation), V::SpecialSupplierInformation => n(K::SpecialSupplier),
        V::DurationSinceLastCumulation(u) => d(K::DurationSinceCumulation, u), V::OperatingTimeBattery(u) => d(K::OperatingTimeBattery, u), V::DateAndTimeOfBatteryChange => n(K::BatteryChange),
        V::RFLevel => n(K::RfLevel), V::DSTTypeK => n(K::DstK), V::ListeningWindowManagement => n(K::ListeningWindow), V::RemainingBatteryLife(u) => d(K::RemainingBattery, u),
        V::NumberTimesMeterStopped => n(K::TimesStopped), V::ManufacturerSpecificContainer => n(K::ManufacturerContainer), V::CurrentlySelectedApplication => n(K::CurrentApplication),
        V::ReactiveEnergy(x) => e(K::ReactiveEnergy, x), V::ApparentEnergy(x) => e(K::ApparentEnergy, x), V::ReactivePower(x) => e(K::ReactivePower, x), V::RelativeHumidity(x) => e(K::RelativeHumidity, x),
        V::PhaseUU => n(K::PhaseUU), V::PhaseUI => n(K::PhaseUI), V::Frequency(x) => e(K::Frequency, x), V::ApparentPower(x) => e(K::ApparentPower, x),
        V::ColdWarmTemperatureLimit(x) => e(K::TemperatureLimit, x), V::CumulativeMaxOfActivePower(x) => e(K::CumulativeMaxPower, x),
        V::ResultingPowerFactorK => n(K::PowerFactorK), V::ThermalOutputRatingFactorKq => n(K::FactorKq), V::ThermalCouplingRatingFactorOverallKc => n(K::FactorKc),
        V::ThermalCouplingRatingFactorRoomSideKcr => n(K::FactorKcr), V::ThermalCouplingRatingFactorHeaterSideKch => n(K::FactorKch),
        V::LowTemperatureRatingFactorKt => n(K::FactorKt), V::DisplayOutputScalingFactorKD => n(K::FactorKd),
    }
}

pub fn check_dib(a: &DataInfoBlock, b: &m::Dib) {
    let (k, n) = match a.raw_type { RawDataType::None => (m::D_NONE, 0), RawDataType::Binary(n) => (m::D_BIN, n), RawDataType::Real => (m::D_REAL, 4), RawDataType::BCD(n) => (m::D_BCD, n), RawDataType::LVAR => (m::D_LVAR, 0) };
    check(k == b.kind, "data field kind");
    check(n == b.n as usize, "data field length");
    let f = match a.function { DataFunction::InstantaneousValue => 0, DataFunction::MaximumValue => 1, DataFunction::MinimumValue => 2, DataFunction::ValueDuringErrorState => 3 };
    check(f == b.function, "function field");
    check(a.storage == b.storage, "storage number");
    check(a.tariff as u64 == b.tariff, "tariff");
    check(a.device as u64 == b.device, "sub-unit");
    check(a.is_obis == b.obis, "OBIS register marker");
}

/// `raw`: the bytes from the VIF on
pub fn check_vib(a: &ValueInfoBlock, b: &m::Vib, t: Vt, raw: &[u8]) {
    let v = vt_of(&a.value_type);
    check(v.k == t.k, "value kind");
    check(v.s == t.s, "unit or time base");
    check(v.e == t.e, "exponent or code");
    if let ValueType::PlainText(s) = &a.value_type {
        let s = s.as_bytes();
        let (p, n) = b.text;
        // ASCII text only: anything else is outside the claim
        let mut ascii = true;
        for x in &raw[p..p + n] { ascii &= *x < 0x80; }
        if ascii {
            check(s.len() == n, "plain text unit length");
            if s.len() == n { let mut ok = true; for i in 0..n { ok &= s[i] == raw[p + n - 1 - i]; } check(ok, "plain text unit characters"); }
        }
    }
    let (p, n) = b.extra;
    match &a.extra_vifes {
        None => check(n == 0, "further VIFEs present"),
        Some(x) => {
            check(n > 0, "further VIFEs absent");
            check(x.len() == n, "number of further VIFEs");
            if x.len() == n { let mut ok = true; for i in 0..n { ok &= x[i] == raw[p + i] & 0x7F; } check(ok, "further VIFE values"); }
        }
    }
}

pub fn check_f(a: &TypeFDateTime, b: &m::F) {
    check(a.minute == b.minute, "F minute"); check(a.hour == b.hour, "F hour"); check(a.day == b.d.day, "F day"); check(a.month == b.d.month, "F month");
    check(a.year == b.d.year, "F year"); check(a.hundred_year == b.century, "F century"); check(a.in_dst == b.dst, "F summer time");
}
pub fn check_g(a: &TypeGDate, b: &m::Dmy) { check(a.day == b.day, "G day"); check(a.month == b.month, "G month"); check(a.year == b.year, "G year"); }
pub fn check_i(a: &TypeIDateTime, b: &m::I) {
    check(a.second == b.second, "I second"); check(a.minute == b.minute, "I minute"); check(a.hour == b.hour, "I hour");
    check(a.day == b.d.day, "I day"); check(a.month == b.d.month, "I month"); check(a.year == b.d.year, "I year");
    check(a.day_of_week == b.dow, "I day of week"); check(a.week == b.week, "I week"); check(a.in_dst == b.dst, "I summer time"); check(a.leap_year == b.leap, "I leap year");
    check(a.dst_offset == b.offset, "I summer time offset");
}
pub fn check_j(a: &TypeJTime, b: &m::Jt) { check(a.second == b.second, "J second"); check(a.minute == b.minute, "J minute"); check(a.hour == b.hour, "J hour"); }
pub fn check_k(a: &TypeKDST, b: &m::Kt) {
    check(a.starts_hour == b.sh, "K start hour"); check(a.starts_day == b.sd, "K start day"); check(a.starts_month == b.sm, "K start month");
    check(a.ends_day == b.ed, "K end day"); check(a.ends_month == b.em, "K end month"); check(a.enable == b.enable, "K enable");
    check(a.dst_deviation == b.dst, "K summer deviation"); check(a.local_deviation == b.local, "K local deviation");
}

/// one character per byte, last byte first
pub fn check_text(s: &str, raw: &[u8]) {
    let s = s.as_bytes();
    let mut p = 0;
    let mut ok = true;
    for i in 0..raw.len() {
        let x = raw[raw.len() - 1 - i];
        if x < 0x80 { if p >= s.len() { ok = false; break; } check(s[p] == x, "text characters"); p += 1; }
        else if x >= 0xA0 { if p + 2 > s.len() { ok = false; break; } check((s[p] == 0xC0 | (x >> 6)) & (s[p + 1] == 0x80 | (x & 0x3F)), "text characters"); p += 2; }
        else {
            // 80..9F: one character, a C1 control or its Windows-1252 reading
            if p >= s.len() { ok = false; break; }
            let w = if s[p] < 0x80 { 1 } else if s[p] < 0xE0 { 2 } else { 3 };
            if p + w > s.len() { ok = false; break; }
            let mut cp = [0u32; 2];
            cp[0] = x as u32;
            cp[1] = m::CP1252[(x & 0x1F) as usize] as u32;
            let got = if w == 1 { s[p] as u32 } else if w == 2 { ((s[p] as u32 & 0x1F) << 6) | (s[p + 1] as u32 & 0x3F) } else { ((s[p] as u32 & 0xF) << 12) | ((s[p + 1] as u32 & 0x3F) << 6) | (s[p + 2] as u32 & 0x3F) };
            check((got == cp[0]) | (got == cp[1]), "text characters");
            p += w;
        }
    }
    check(ok, "text characters");
    if ok { check(p == s.len(), "text length"); }
}

pub fn check_data(a: &DataType, b: &m::Data) {
    use m::Data as D;
    match (a, b) {
        (DataType::None, D::None) => (),
        (DataType::Unsigned(x), D::Unsigned(y)) => check(*x == *y, "unsigned value"),
        (DataType::Signed(x), D::Signed(y)) => check(*x == *y, "signed value"),
        (DataType::Unsigned(x), D::AnySign(y)) => check(*x == m::uint(y), "unsigned value"),
        (DataType::Signed(x), D::AnySign(y)) => check(*x == m::sint(y), "signed value"),
        (DataType::Real(x), D::Real(y)) => check(x.to_bits() == *y, "real value"),
        (DataType::DateTimeF(x), D::F(y)) => check_f(x, y),
        (DataType::DateTimeI(x), D::I(y)) => check_i(x, y),
        (DataType::Date(x), D::G(y)) => check_g(x, y),
        (DataType::Time(x), D::J(y)) => check_j(x, y),
        (DataType::DST(x), D::K(y)) => check_k(x, y),
        (DataType::String(x), D::Text(y)) => check_text(x, y),
        (DataType::ErrorValue(x), D::BadBcd(y)) => {
            let x = x.as_bytes();
            check(x.len() == 2 * y.len(), "undecodable BCD text length");
            if x.len() == 2 * y.len() { let mut ok = true; for i in 0..x.len() { ok &= x[i] == m::bcd_char(y, i); } check(ok, "undecodable BCD text"); }
        }
        (DataType::VariableLengthNumber(x), D::Big(y)) => check_bytes(x, y, "long number"),
        _ => check(false, "kind of data"),
    }
}
pub fn check_bytes(a: &[u8], b: &[u8], msg: &'static str) {
    let mut ok = a.len() == b.len();
    if ok { for i in 0..a.len() { ok &= a[i] == b[i]; } }
    check(ok, msg);
}
pub fn check_record(a: &Record, b: &m::Record) {
    check_dib(&a.dib, &b.dib);
    check_vib(&a.vib, &b.vib, b.vt, b.raw);
    check_data(&a.data, &b.data);
}
/// is the record's unit text (if any) plain ASCII? the rest is not modelled
pub fn modelled_text(v: &m::Vib, raw: &[u8]) -> bool {
    let mut ascii = true;
    for x in &raw[v.text.0..v.text.0 + v.text.1] { ascii &= *x < 0x80; }
    ascii
}
