//! Frames, control byte, CI field, headers, application messages, record lists.
use super::frames::FRAMES;
use super::mlink as m;
use super::model;
use super::real::*;
use super::vh::*;
use crate::harnesses;
use libmbus::parse::application_layer::application::*;
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::parse::link_layer::*;
use libmbus::parse::transport_layer::control_info::*;
use libmbus::parse::transport_layer::header::*;
use libmbus::parse::transport_layer::manufacturer::*;
use winnow::error::ErrMode;
use winnow::Bytes;

fn vec(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }

// ------------------------------------------------------------- comparison ----
pub fn check_control(c: &Control, raw: u8) {
    let (ok, e) = m::control(raw);
    check(ok, "control byte accepted although reserved");
    match c {
        Control::Primary { frame_count_bit, message } => {
            use PrimaryControlMessage as P;
            let k = match message { P::ResetRemoteLink => 0, P::ResetUserProcess => 1, P::SendUserDataConfirmed => 2, P::SendUserDataUnconfirmed => 3, P::RequestAccessDemand => 4, P::RequestLinkStatus => 5, P::RequestUserData1 => 6, P::RequestUserData2 => 7 };
            check(e.prm, "direction");
            check(k == e.kind, "primary function");
            check(*frame_count_bit == e.b5, "frame count bit");
        }
        Control::Secondary { access_demand, data_flow_control, message } => {
            use SecondaryControlMessage as S;
            let k = match message { S::ACK => 0, S::NACK => 1, S::UserData => 2, S::UserDataUnavailable => 3, S::Status => 4, S::LinkNotFunctioning => 5, S::LinkNotImplemented => 6 };
            check(!e.prm, "direction");
            check(k == e.kind, "secondary function");
            check(*access_demand == e.b5, "access demand");
            let pause = match data_flow_control { DataFlowControl::Pause => true, DataFlowControl::Continue => false };
            check(pause == e.b4, "data flow control");
        }
    }
}
fn check_short(access: u8, s: &MeterStatus, c: &SecurityMode, x: &Option<ExtraHeader>, e: &m::Short) {
    check(access == e.access, "access number");
    let b = e.status;
    check(s.manufacturer_2 == (b & 0x80 != 0), "status bit 7");
    check(s.manufacturer_1 == (b & 0x40 != 0), "status bit 6");
    check(s.manufacturer_0 == (b & 0x20 != 0), "status bit 5");
    check(s.temporary_error == (b & 0x10 != 0), "status temporary error");
    check(s.permanent_error == (b & 0x08 != 0), "status permanent error");
    check(s.power_low == (b & 0x04 != 0), "status power low");
    let a = match s.application { ApplicationError::None => 0, ApplicationError::Busy => 1, ApplicationError::Error => 2, ApplicationError::Alarm => 3 };
    check(a == b & 3, "status application state");
    match c {
        SecurityMode::None => check(e.cfg == 0, "unencrypted although a security mode is set"),
        SecurityMode::Reserved(x) => { check(e.opaque, "security mode"); check(*x == e.cfg, "configuration field"); }
    }
    check(x.is_none(), "extra header");
}
fn medium(d: &DeviceType) -> m::D {
    use m::D;
    use DeviceType as T;
    match d {
        T::Other => D::Other, T::OilMeter => D::Oil, T::ElectricityMeter => D::Electricity, T::GasMeter => D::Gas,
        T::ThermalEnergyMeter(t) => match t { ThermalMeterType::OutletHeat => D::HeatOutlet, ThermalMeterType::InletHeat => D::HeatInlet, ThermalMeterType::OutletCooling => D::CoolOutlet, ThermalMeterType::InletCooling => D::CoolInlet, ThermalMeterType::Combined => D::HeatCool },
        T::SteamMeter => D::Steam,
        T::WaterMeter(t) => match t { WaterMeterType::Potable => D::WaterPotable, WaterMeterType::Irrigation => D::WaterIrrigation, WaterMeterType::Cold => D::WaterCold, WaterMeterType::Warm => D::WaterWarm, WaterMeterType::Hot => D::WaterHot, WaterMeterType::DualRegister => D::WaterDual, WaterMeterType::Waste => D::WaterWaste },
        T::HeatCostAllocator => D::Hca, T::CompressedAir => D::Air, T::BusOrSystemComponent => D::Bus, T::Unknown => D::Unknown,
        T::WaterDataLogger => D::WaterLogger, T::GasDataLogger => D::GasLogger, T::GasConverter => D::GasConverter, T::CalorificValue => D::Calorific,
        T::PressureMeter => D::Pressure, T::ADConverter => D::Ad, T::SmokeDetector => D::Smoke, T::RoomSensor => D::Room, T::GasDetector => D::GasDetector,
        T::ReservedSensor => D::ResSensor, T::ElectricalBreaker => D::Breaker, T::Valve => D::Valve, T::ReservedSwitchingDevice => D::ResSwitch,
        T::CustomerUnit => D::Customer, T::ReservedCustomerUnit => D::ResCustomer, T::Garbage => D::Garbage, T::ReservedCO2 => D::ResCo2, T::ReservedEnvironmental => D::ResEnv,
        T::ServiceTool => D::Service, T::CommunicationController => D::Gateway, T::UnidirectionalRepeater => D::UniRepeater, T::BidirectionalRepeater => D::BiRepeater,
        T::ReservedSystemDevice => D::ResSystem, T::RadioConverterSystemSide => D::RadioSystem, T::RadioConverterMeterSide => D::RadioMeter, T::BusConverterMeterSide => D::BusMeter,
        T::Reserved => D::Reserved, T::Wildcard => D::Wildcard,
    }
}
fn check_name(name: Option<&'static str>, raw: &[u8], e: &m::Long) {
    let k = fork(m::product(&raw[..4], e.code, e.version, e.device) as u64) as usize;
    match name {
        None => check(k == m::PRODUCTS.len(), "product name missing"),
        Some(n) => {
            if k >= m::PRODUCTS.len() { check(false, "product name for an unknown product"); return; }
            let w = m::PRODUCTS[k].4;
            check(n == w, "product name");
        }
    }
}
/// `hk`: kind of header the CI field calls for; `b`: bytes after it. False if the content cannot be compared.
fn check_header(h: &TPLHeader, hk: u8, b: &[u8]) -> bool {
    match h {
        TPLHeader::None => { check(hk == m::H_NONE, "header kind"); hk == m::H_NONE }
        TPLHeader::Short(s) => {
            check(hk == m::H_SHORT, "header kind");
            if hk != m::H_SHORT { return false; }
            match m::short(b) { Some(e) => { check_short(s.access_number, &s.status, &s.configuration_field, &s.extra_header, &e); true } None => { check(false, "header accepted although undecodable"); false } }
        }
        TPLHeader::Long(l) => {
            check(hk == m::H_LONG, "header kind");
            if hk != m::H_LONG { return false; }
            if !m::plain_id(b) { return true; }
            match m::long(b) {
                Some(e) => {
                    check(l.identifier == e.id, "identification number");
                    check(l.manufacturer.as_bytes() == e.man, "manufacturer");
                    check(l.version == e.version, "version");
                    check(medium(&l.device_type) as u8 == m::MEDIUM[e.device as usize], "device type");
                    check_name(l.device_name, b, &e);
                    check_short(l.access_number, &l.status, &l.configuration_field, &l.extra_header, &e.short);
                    true
                }
                None => { check(false, "header accepted although undecodable"); false }
            }
        }
    }
}
fn check_frame(f: &Frame, b: &[u8]) {
    if !m::frame_modelled(b) { cover("non-ASCII"); return; }
    match m::frame(b) {
        None => check(false, "record list accepted although undecodable"),
        Some(e) => {
            check(f.records.len() == e.records.len(), "number of records");
            check(f.more_data_follows == e.more, "more records follow");
            check_bytes(&f.manufacturer_specific, e.rest, "manufacturer specific data");
            if f.records.len() == e.records.len() { for i in 0..e.records.len() { check_record(&f.records[i], &e.records[i]); } }
        }
    }
}
#[cfg(libmburs_verif)]
fn check_select(a: &ApplicationMessage, e: (u8, u64, usize)) {
    use MessageApplication as A;
    let (k, n) = a.verif_parts();
    let c = match k {
        A::All => 0, A::UserData => 1, A::SimpleBilling => 2, A::EnhancedBilling => 3, A::MultiTariffBilling => 4, A::InstantaneousValues => 5, A::LoadProfileValuesForManagement => 6,
        A::StaticContent => 7, A::InstallationAndStartup => 8, A::Testing => 9, A::Calibration => 10, A::Manufacturing => 11, A::Development => 12, A::SelfTest => 13, A::ConfigurationData => 14,
        A::UserDefinedData => 15, A::ManufacturerSpecific(x) => { check(*x >= 26, "application"); *x }
    };
    check(c == e.0, "application");
    check(n == e.1, "block number");
    cover("select content");
}
#[cfg(not(libmburs_verif))]
fn check_select(_: &ApplicationMessage, _: (u8, u64, usize)) {}

fn check_app_error(a: &ApplicationErrorMessage, b: &[u8]) -> Option<usize> {
    use ApplicationErrorMessage as E;
    if b.is_empty() { check(matches!(a, E::Unspecified), "error without a code"); return Some(0); }
    let e = m::APP_ERRORS[b[0] as usize];
    let k = match a {
        E::Unspecified => 0x00, E::CIFieldError => 0x01, E::BufferOverflow => 0x02, E::RecordOverflow => 0x03, E::RecordError => 0x04, E::DIFEOverflow => 0x05, E::VIFEOverflow => 0x06,
        E::ApplicationBusy => 0x08, E::CreditOverflow => 0x09, E::NoFunction => 0x11, E::DataError => 0x12, E::RoutingOrRelayingError => 0x13, E::AccessViolation => 0x14, E::ParameterError => 0x15,
        E::SizeError => 0x16, E::SecurityError => 0x20, E::SecurityMechanismNotSupported => 0x21, E::InadequateSecurityMethod => 0x22,
        E::DynamicError(r) => {
            check(e == m::E_DYNAMIC, "error kind");
            if let (Some(d), true) = (model::dib(&b[1..]), b.len() > 1) { if let Some(v) = model::vib(&b[1 + d.len..]) { if !modelled_text(&v, &b[1 + d.len..]) { return None; } } }
            match model::record(&b[1..]) { Some(x) => { check_record(r, &x); return Some(1 + x.len); } None => check(false, "error record accepted although undecodable") }
            return None;
        }
        E::ManufacturerSpecific(c, rest) => { check(e == m::E_MANUFACTURER, "error kind"); check(*c == b[0], "manufacturer error code"); check_bytes(rest, &b[1..], "manufacturer error data"); return Some(b.len()); }
    };
    check(k == e, "error kind");
    Some(1)
}
/// is the message the reference decoder's verdict? None: outside the model
fn acceptable(b: &[u8]) -> Option<bool> {
    if b.is_empty() { return Some(false); }
    let hk = m::CI[0][b[0] as usize];
    let mk = m::CI[1][b[0] as usize];
    if hk == m::H_BAD || mk == m::M::Unsupported as u8 { return Some(false); }
    let r = &b[1..];
    let n = match hk {
        m::H_NONE => 0,
        m::H_SHORT => { if m::short(r).is_none() { return Some(false); } 4 }
        _ => { if r.len() >= 12 && !m::plain_id(r) { return None; } if m::long(r).is_none() { return Some(false); } 12 }
    };
    let r = &r[n..];
    Some(if mk == m::M::Reset as u8 { m::select(r).is_some() }
    else if mk == m::M::SelResponse as u8 { matches!(m::select(r), Some(Some(_))) }
    else if mk == m::M::AppError as u8 {
        if r.is_empty() { true } else {
            let k = m::APP_ERRORS[r[0] as usize];
            if k == m::E_DYNAMIC {
                if let Some(d) = model::dib(&r[1..]) { if let Some(v) = model::vib(&r[1 + d.len..]) { if !modelled_text(&v, &r[1 + d.len..]) { return None; } } }
                model::record(&r[1..]).is_some()
            } else { k != m::NO }
        }
    }
    else if mk == m::M::Response as u8 { if !m::frame_modelled(r) { return None; } m::frame(r).is_some() }
    else { true })
}
fn check_message(a: &MBusMessage, b: &[u8]) {
    use m::M;
    use MBusMessage as R;
    if b.is_empty() { check(false, "message without a CI field"); return; }
    let ci = b[0];
    let hk = m::CI[0][ci as usize];
    let mk = m::CI[1][ci as usize];
    let r = &b[1..];
    let skip = |h: &TPLHeader| match h { TPLHeader::None => 0, TPLHeader::Short(_) => 4, TPLHeader::Long(_) => 12 };
    let (kind, hdr, code, data): (M, Option<&TPLHeader>, Option<u8>, Option<&Vec<u8>>) = match a {
        R::ApplicationReset(h) => (M::Reset, Some(h), None, None),
        R::ApplicationSelect(h, _) => (M::Reset, Some(h), None, None),
        R::SelectedApplicationRequest(h) => (M::SelRequest, Some(h), None, None),
        R::SelectedApplicationResponse(h, _) => (M::SelResponse, Some(h), None, None),
        R::SelectionOfDevice(d) => (M::SelectDevice, None, None, Some(d)),
        R::SetBaudRate(_) => (M::Baud, None, None, None),
        R::SynchroniseAction => (M::SyncAction, None, None, None),
        R::TimeAdjustmentToDevice(h, d) => (M::TimeAdjust, Some(h), None, Some(d)),
        R::TimeSyncToDevice(h, d) => (M::TimeSync, Some(h), None, Some(d)),
        R::AlarmFromDevice(h, d) => (M::Alarm, Some(h), None, Some(d)),
        R::ApplicationErrorFromDevice(h, _) => (M::AppError, Some(h), None, None),
        R::CommandToDevice(h, d) => (M::Command, Some(h), None, Some(d)),
        R::ResponseFromDevice(h, _) => (M::Response, Some(h), None, None),
        R::AuthenticationAndFrgamentation(d) => (M::Auth, None, None, Some(d)),
        R::Dlms(c, h, d) => (M::Dlms, Some(h), Some(*c), Some(d)),
        R::ImageTransfer(c, h, d) => (M::Image, Some(h), Some(*c), Some(d)),
        R::ManufacturerSpecific(c, d) => (M::Manufacturer, None, Some(*c), Some(d)),
        R::SecurityTransfer(c, h, d) => (M::Security, Some(h), Some(*c), Some(d)),
        R::SpecificUsage(c, h, d) => (M::Specific, Some(h), Some(*c), Some(d)),
        R::Wireless(c, h) => (M::Wireless, Some(h), Some(*c), None),
    };
    check(kind as u8 == mk, "kind of message");
    if let Some(c) = code { check(c == ci, "CI field kept"); }
    let mut n = 0;
    if let Some(h) = hdr {
        n = skip(h);
        check(r.len() >= n, "header longer than the message");
        if r.len() < n { return; }
        if !check_header(h, hk, r) { return; }
    } else { check(hk == m::H_NONE, "header dropped"); }
    let r = &r[n..];
    if let Some(d) = data { check_bytes(d, r, "message data"); }
    match a {
        R::ApplicationReset(_) => check(r.is_empty(), "reset although an application is selected"),
        R::ApplicationSelect(_, s) | R::SelectedApplicationResponse(_, s) => match m::select(r) { Some(Some(e)) => check_select(s, e), _ => check(false, "application selection accepted although undecodable") },
        R::SetBaudRate(x) => {
            let k = match x { BaudRate::Rate300 => 0, BaudRate::Rate600 => 1, BaudRate::Rate1200 => 2, BaudRate::Rate2400 => 3, BaudRate::Rate4800 => 4, BaudRate::Rate9600 => 5, BaudRate::Rate19200 => 6, BaudRate::Rate38400 => 7 };
            check(k == ci & 7, "baud rate");
        }
        R::ApplicationErrorFromDevice(_, e) => { check_app_error(e, r); }
        R::ResponseFromDevice(_, f) => check_frame(f, r),
        _ => (),
    }
}
/// link layer verdict: payload range of an acceptable long frame
fn envelope(v: &[u8]) -> bool {
    let n = v.len();
    if n < 8 { return false; }
    let mut sum = 0u8;
    for x in &v[4..n - 2] { sum = sum.wrapping_add(*x); }
    (v[1] as usize == n - 6) & (v[2] == v[1]) & (v[3] == 0x68) & m::control(v[4]).0 & (v[n - 2] == sum) & (v[n - 1] == 0x16)
}
fn labelled(e: &MBusError, l: &str) -> bool { let mut r = false; for c in e.context() { if let MBusContext::Label(s) = c { if s.len() == l.len() && *s == l { r = true; } } } r }
fn mentions(e: &MBusError, w: &str) -> bool {
    let mut r = false;
    for c in e.context() { if let MBusContext::Label(s) = c { let s = s.as_bytes(); let w = w.as_bytes(); for k in 0..s.len() { if k + w.len() <= s.len() && s[k..k + w.len()] == *w { r = true; } } } }
    r
}
fn inner(e: ErrMode<MBusError>) -> Option<MBusError> { match e { ErrMode::Backtrack(e) | ErrMode::Cut(e) => Some(e), ErrMode::Incomplete(_) => { check(false, "asked for more input"); None } } }

/// any packet against the reference
fn packet_check(v: &[u8]) { let mut i = Bytes::new(v); let r = Packet::parse(&mut i); packet_judge(r, i.len(), v) }
/// `r`: what the library made of `v`, `left`: how many bytes of it are left
fn packet_judge(r: Result<Packet, ErrMode<MBusError>>, left: usize, v: &[u8]) {
    let l = v.len();
    if l == 0 { check(r.is_err(), "empty input accepted"); return; }
    if v[0] == 0xE5 {
        match r { Ok(Packet::Ack) => { cover("ack"); check(left == l - 1, "bytes used"); } _ => check(false, "acknowledge not recognised") }
        return;
    }
    if v[0] == 0x10 {
        let e = l >= 5 && m::control(v[1]).0 & (v[3] == v[1].wrapping_add(v[2])) & (v[4] == 0x16);
        match r {
            Ok(Packet::Short { control, address }) => { cover("short"); check(e, "short frame accepted although damaged"); if l >= 5 { check_control(&control, v[1]); check(address == v[2], "address"); check(left == l - 5, "bytes used"); } }
            Ok(_) => check(false, "short frame read as something else"),
            Err(x) => { cover("short rejected"); check(!e, "intact short frame rejected"); if let Some(x) = inner(x) { check(labelled(&x, "short frame header") & !labelled(&x, "long frame header"), "error attribution"); } }
        }
        return;
    }
    if v[0] == 0x68 {
        let e = envelope(v);
        match r {
            Ok(Packet::Long { control, address, message }) => {
                cover("long");
                check(e, "long frame accepted although damaged");
                if l >= 8 {
                    check_control(&control, v[4]);
                    check(address == v[5], "address");
                    check(left == 0, "bytes used");
                    check_message(&message, &v[6..l - 2]);
                }
            }
            Ok(_) => check(false, "long frame read as something else"),
            Err(x) => {
                cover("long rejected");
                if e { match acceptable(&v[6..l - 2]) { Some(ok) => check(!ok, "intact long frame rejected"), None => cover("unmodelled") } }
                if let Some(x) = inner(x) { check(labelled(&x, "long frame header") & !labelled(&x, "short frame header"), "error attribution"); }
            }
        }
        return;
    }
    cover("other");
    check(r.is_err(), "unknown start byte accepted");
}
fn message_check(v: &[u8]) {
    let mut i = Bytes::new(v);
    match MBusMessage::parse(&mut i) {
        Ok(a) => { cover("ok"); check_message(&a, v); }
        Err(_) => { cover("err"); match acceptable(v) { Some(ok) => check(!ok, "decodable message rejected"), None => cover("unmodelled") } }
    }
}
/// a frame around `data` whose checksum is right plus `delta`
fn wrap(c: u8, a: u8, data: &[u8], delta: u8) -> Vec<u8> {
    let n = (data.len() + 2) as u8;
    let mut v = vec![0x68, n, n, 0x68, c, a];
    v.extend_from_slice(data);
    let mut s = c.wrapping_add(a);
    for x in data { s = s.wrapping_add(*x); }
    v.push(s.wrapping_add(delta));
    v.push(0x16);
    v
}

/// user data (CI field on) of frames as meters send them
fn template_bytes(k: u64) -> Vec<u8> {
    let long = [0x78u8, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00];
    let mut v = vec![];
    match k {
        0 => {
            v.push(0x72); v.extend_from_slice(&long);
            v.extend_from_slice(&[0x0C, 0x13, 0x78, 0x56, 0x34, 0x12]); // BCD volume
            v.extend_from_slice(&[0x42, 0x6C, 0xBF, 0x1C]); // date
            v.extend_from_slice(&[0x8C, 0x11, 0x03, 0x01, 0x02, 0x03, 0x04]); // BCD energy, storage and tariff
            v.extend_from_slice(&[0x04, 0x6D, 0x1E, 0x0A, 0xC1, 0x19]); // date and time
            v.extend_from_slice(&[0x2F, 0x2F]);
            v.extend_from_slice(&[0x05, 0x2B, 0x00, 0x00, 0x80, 0x3F]); // real power
            v.extend_from_slice(&[0x02, 0xFD, 0x17, 0x01, 0x00]); // error flags
            v.extend_from_slice(&[0x0D, 0x78, 0x05, b'1', b'2', b'3', b'4', b'5']); // text
            v.extend_from_slice(&[0x06, 0x6D, 0x00, 0x1E, 0x0A, 0xC1, 0x19, 0x00]); // date and time I
            v.extend_from_slice(&[0x94, 0x01, 0xFD, 0xC8, 0x40, 0x01, 0x02, 0x03, 0x04]); // storage, unit with a further VIFE
            v.extend_from_slice(&[0x0F, 0x01, 0x02, 0x03]); // manufacturer specific
        }
        1 => {
            v.extend_from_slice(&[0x7A, 0x55, 0x00, 0x00, 0x00]);
            v.extend_from_slice(&[0x01, 0xFC, 0x03, b'C', b'%', b'x', 0x17, 0x09]); // unit in plain text
            v.extend_from_slice(&[0x07, 0x79, 0xEF, 0xCD, 0xAB, 0x90, 0x78, 0x56, 0x34, 0x12]);
            v.extend_from_slice(&[0x03, 0x6D, 0x1E, 0x2D, 0x0A]); // time
            v.extend_from_slice(&[0x04, 0xFD, 0x72, 0x43, 0x9D, 0x3A, 0xA3]); // daylight saving
            v.extend_from_slice(&[0x0D, 0x13, 0xC3, 0x56, 0x34, 0x12]); // variable length BCD
            v.extend_from_slice(&[0x0D, 0x13, 0xD2, 0x34, 0x12]);
            v.extend_from_slice(&[0x0D, 0x13, 0xE4, 0x78, 0x56, 0x34, 0x12]);
            v.extend_from_slice(&[0x0E, 0x83, 0x3C, 0x99, 0x99, 0x99, 0x99, 0x99, 0xF9]); // negative BCD
            v.extend_from_slice(&[0x0A, 0x5A, 0xBB, 0x0C]); // undecodable BCD
            v.extend_from_slice(&[0x00, 0x13, 0x80, 0x41, 0x13]);
            v.extend_from_slice(&[0x1F]);
        }
        2 => {
            v.push(0x78);
            for i in 0..11u8 { v.extend_from_slice(&[0x84 | (i & 1) << 6, 0x80 | i, 0x80, 0x40 | i, 0x93, 0xFF, 0x7F, i, 2, 3, 4]); }
        }
        _ => {
            // as long as a frame can be
            v.push(0x72); v.extend_from_slice(&long);
            for i in 0..40u8 { v.extend_from_slice(&[0x03, 0x13, i, 0, 0]); }
            while v.len() < 245 { v.push(0x2F); }
            v.extend_from_slice(&[0x0F, 1, 2, 3, 4, 5, 6, 7]);
        }
    }
    v
}

/// numbers that depend on the seed only
struct Lcg(u64);
impl Lcg {
    fn below(&mut self, n: u64) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) * n) >> 31 }
    fn pick(&mut self, v: &[u8]) -> u8 { v[self.below(v.len() as u64) as usize] }
}
/// one record of some shape, decodable with the values put in
fn some_record(g: &mut Lcg) -> Vec<u8> {
    let mut v = vec![];
    let field = g.pick(&[0, 1, 2, 2, 3, 4, 4, 4, 5, 6, 7, 9, 10, 11, 12, 12, 14, 13, 13]);
    let difes = if g.below(3) > 0 { 0 } else if g.below(8) == 0 { 10 } else { 1 + g.below(3) };
    v.push(field | (g.below(4) as u8) << 4 | if g.below(3) == 0 { 0x40 } else { 0 } | if difes > 0 { 0x80 } else { 0 });
    for k in 0..difes { v.push(g.below(128) as u8 | if k + 1 < difes { 0x80 } else { 0 }); }
    let vifes = if g.below(4) > 0 { 0 } else if g.below(8) == 0 { 9 } else { 1 + g.below(3) };
    let more = |l: bool| if l { 0x80u8 } else { 0 };
    match g.below(10) {
        0 => { v.push(0xFD); v.push(g.below(128) as u8 | more(vifes > 0)); }
        1 => { v.push(0xFB); v.push(g.below(128) as u8 | more(vifes > 0)); }
        2 => { v.push(0x7C | more(vifes > 0)); let n = g.below(5); v.push(n as u8); for _ in 0..n { v.push(0x20 + g.below(95) as u8); } }
        3 if field == 2 => v.push(0x6C | more(vifes > 0)),
        3 | 4 if matches!(field, 3 | 4 | 6) => v.push(0x6D | more(vifes > 0)),
        3 if field == 4 => { v.push(0xFD); v.push(0x72 | more(vifes > 0)); }
        _ => v.push(g.below(0x7B) as u8 | more(vifes > 0)),
    }
    for k in 0..vifes { v.push(g.below(128) as u8 | more(k + 1 < vifes)); }
    match field {
        0 => (),
        2 => v.extend_from_slice(&[0xC1, 0x19]),
        3 => v.extend_from_slice(&[0x1E, 0x2D, 0x0A]),
        4 => if v.ends_with(&[0xFD, 0x72]) { v.extend_from_slice(&[0x43, 0x9D, 0x3A, 0xA3]) } else { v.extend_from_slice(&[0x1E, 0x0A, 0xC1, 0x19]) },
        6 => v.extend_from_slice(&[0x00, 0x1E, 0x0A, 0xC1, 0x19, 0x00]),
        13 => {
            let l = match g.below(6) { 0 => 0xC0 + g.below(10), 1 => 0xD0 + g.below(10), 2 => 0xE0 + g.below(16), 3 => 0xF0 + g.below(2), _ => g.below(12) } as u8;
            v.push(l);
            let n = model::lvar_len(l).unwrap_or(0);
            v.resize(v.len() + n, 0x20);
            if (0xC0..0xE0).contains(&l) { let s = v.len() - n; for x in &mut v[s..] { *x = 0x11; } }
        }
        n => { let n = model::dib(&[n]).map_or(0, |d| d.n as usize); v.resize(v.len() + n, 0) }
    }
    v
}
/// every value up to `until` free among those the field can hold, the shape as it is; `b` is a decodable list of records
fn free_values(b: &mut [u8], until: usize) {
    let mut p = 0;
    let mut signs = 0;
    while p < b.len() && b[p] != 0x0F && b[p] != 0x1F {
        if b[p] == 0x2F { p += 1; continue; }
        let (mut from, to, kind, l) = match model::record(&b[p..]) {
            Some(r) => {
                let kind = match r.data { model::Data::F(_) => 1, model::Data::G(_) => 2, model::Data::I(_) => 3, model::Data::J(_) => 4, model::Data::K(_) => 5, model::Data::BadBcd(_) => 6, model::Data::Text(_) => 7, _ => 0 };
                (p + r.dib.len + r.vib.len, p + r.len, if r.dib.kind == model::D_BCD && kind == 0 { 8 } else { kind }, if r.dib.kind == model::D_LVAR { 1 } else { 0 })
            }
            None => return,
        };
        let n = if l == 1 { b[from] } else { 0 };
        if to > until { return; }
        from += l;
        let kind = if l == 1 && (0xC0..=0xDF).contains(&n) { 8 } else { kind };
        let c = &mut b[from..to];
        if kind != 6 { fill(c); }
        match kind {
            1 => assume(model::f(c).is_some()),
            2 => assume(model::dmy(c[0], c[1]).is_some()),
            3 => assume(model::i(c).is_some()),
            4 => assume(model::j(c).is_some()),
            5 => assume(model::k(c).is_some()),
            7 => { let mut ok = true; for x in c.iter() { ok &= *x < 0x80; } assume(ok) }
            8 if !c.is_empty() => {
                // the first of them may be negative
                assume(model::bcd_ok(c));
                if l == 1 || signs > 0 { assume(!model::bcd_neg(c)) }
                signs += 1;
            }
            _ => (),
        }
        p = to;
    }
}
/// user data of a telegram whose shape depends on the seed
fn layout_bytes(seed: u64, size: usize) -> (Vec<u8>, usize) {
    let mut g = Lcg(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..4 { g.below(2); }
    let mut v = vec![g.pick(&[0x72, 0x72, 0x7A, 0x78])];
    match v[0] {
        0x72 => {
            for _ in 0..4 { v.push((g.below(10) << 4 | g.below(10)) as u8); }
            let m = [*b"KAM", *b"LUG", *b"EFE", *b"SON", *b"TCH", *b"NZR", *b"ITW", *b"DFS", *b"ELV", *b"XYZ"][g.below(10) as usize];
            let c = (m[0] as u16 - 64) << 10 | (m[1] as u16 - 64) << 5 | (m[2] as u16 - 64);
            v.extend_from_slice(&c.to_le_bytes());
            v.push(g.below(256) as u8);
            v.push(g.below(0x40) as u8);
            v.extend_from_slice(&[0, 0, 0, 0]);
        }
        0x7A => v.extend_from_slice(&[0, 0, 0, 0]),
        _ => (),
    }
    let start = v.len();
    loop {
        let r = some_record(&mut g);
        if v.len() + r.len() > size { break; }
        match model::record(&r) { Some(x) if x.len == r.len() && modelled_text(&x.vib, x.raw) => v.extend_from_slice(&r), _ => () }
        if g.below(12) == 0 && v.len() < size { v.push(0x2F); }
    }
    if g.below(3) == 0 && v.len() + 6 < size { v.push(g.pick(&[0x0F, 0x1F])); for _ in 0..g.below(5) { v.push(g.below(256) as u8); } }
    (v, start)
}

/// user data and where its records begin: 0..4 as above, 10000.. recorded frames, else a shape of its own
fn source(k: u64, size: usize) -> (Vec<u8>, usize) {
    match k {
        0..=3 => (template_bytes(k), [13, 5, 1, 13][k as usize]),
        10000.. => { let f = FRAMES[k as usize - 10000]; let d = f[6..f.len() - 2].to_vec(); let n = match d[0] { 0x72 => 13, 0x7A => 5, 0x78 => 1, _ => d.len() }; let n = n.min(d.len()); (d, n) }
        _ => layout_bytes(k, size),
    }
}
/// access number, status and the low configuration byte of a header that ends before `start`
fn free_header(d: &mut [u8], start: usize, until: usize) {
    if (start == 5 || start == 13) && until >= start { let mut x = [0u8; 3]; fill(&mut x); d[start - 4] = x[0]; d[start - 3] = x[1]; d[start - 2] = x[2]; }
}

/// acknowledgement, short frame, intact and arbitrary long frames
fn stream_frame(k: u64) -> Vec<u8> {
    match k {
        0 => vec![0xE5],
        1 => vec![0x10, byte(), byte(), byte(), byte()],
        2 => wrap(byte(), byte(), &[0xA0, byte(), byte(), byte()], 0),
        3 => { let mut v = wrap(0x08, 0xFE, &[0x78, 0x01, 0x13, byte(), 0x0F, byte()], 0); let l = v.len(); v[l - 2] = byte(); v[l - 1] = byte(); v }
        4 => { let x = byte(); wrap(0x08, 0xFE, &[x, byte(), byte()], 0) }
        5 => wrap(0x08, byte(), &template_bytes(1), 0),
        1000.. => { let (mut d, start) = source(k - 1000, 40 + (k as usize - 1000) % 160); let n = d.len(); free_header(&mut d, start, n); free_values(&mut d[start..], n); wrap(0x08, byte(), &d, 0) }
        n => vec(n as usize - 5),
    }
}

harnesses! {
    // ---- any bytes at all: p0 = length
    fn packet() { let v = vec(param(0) as usize); packet_check(&v); }
    // ---- p0 = bytes after the start byte
    fn short_frame() { let mut v = vec(param(0) as usize); v.insert(0, 0x10); packet_check(&v); }
    // ---- right length and checksum: p0 = user data length, p1 = CI field (256: free), rest free
    fn long_ok() {
        let (n, ci) = (param(0) as usize, param(1));
        let mut d = vec(n);
        if n > 0 && ci < 256 { d[0] = ci as u8; }
        let (c, a) = (byte(), byte());
        packet_check(&wrap(c, a, &d, 0));
    }
    // ---- as above, with the checksum off by a free amount
    fn long_sum() {
        let (n, ci) = (param(0) as usize, param(1));
        let mut d = vec(n);
        if n > 0 && ci < 256 { d[0] = ci as u8; }
        let (a, x) = (byte(), byte());
        packet_check(&wrap(0x08, a, &d, x));
    }
    // ---- as above, with one free byte at offset p2 of the frame (counted from the end if p3 is set), and p4 free bytes behind it
    fn long_damaged() {
        let (n, ci) = (param(0) as usize, param(1));
        let mut d = vec(n);
        if n > 0 && ci < 256 { d[0] = ci as u8; }
        let mut v = wrap(0x08, 0xFE, &d, 0);
        let at = if param(3) != 0 { v.len() - 1 - param(2) as usize } else { param(2) as usize };
        v[at] = byte();
        for _ in 0..param(4) { v.push(byte()); }
        packet_check(&v);
    }
    // ---- both length bytes free, p0 = total bytes, user data is manufacturer specific
    fn long_lengths() {
        let l = param(0) as usize;
        let mut v = vec![0u8; l];
        if l <= 40 { fill(&mut v); } else { fill(&mut v[4..16]); fill(&mut v[l - 12..]); }
        let x: [u8; 2] = [byte(), byte()];
        for (k, y) in [0x68, x[0], x[1], 0x68, 0x08].into_iter().enumerate() { if k < l { v[k] = y; } }
        if l > 6 { v[6] = 0xA0; }
        if l > 7 { v[l - 1] = 0x16; let mut s = 0u8; for y in &v[4..l - 2] { s = s.wrapping_add(*y); } v[l - 2] = s; }
        packet_check(&v);
    }
    // ---- frame cut short: p0 = user data length, p1 = CI, p2 = bytes missing
    fn long_cut() {
        let (n, ci) = (param(0) as usize, param(1));
        let mut d = vec(n);
        if n > 0 && ci < 256 { d[0] = ci as u8; }
        let (c, a) = (byte(), byte());
        let v = wrap(c, a, &d, 0);
        let k = v.len() - param(2) as usize;
        let mut i = Bytes::new(&v[..k]);
        check(Packet::parse(&mut i).is_err(), "truncated frame accepted");
    }
    // ---- message behind the CI field: p0 = bytes, p1 = CI (256: free)
    fn message() {
        let (n, ci) = (param(0) as usize, param(1));
        let mut v = vec(n);
        if n > 0 && ci < 256 { v[0] = ci as u8; }
        message_check(&v);
    }
    // ---- message with an intact long header, p0 = CI, p1 = bytes after the header
    fn message_long() {
        let mut v = vec![param(0) as u8];
        v.extend_from_slice(&[0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00]);
        let s = v.len();
        v.resize(s + param(1) as usize, 0);
        fill(&mut v[s..]);
        message_check(&v);
    }
    // ---- message with an intact short header, p0 = CI, p1 = bytes after the header
    fn message_short() {
        let mut v = vec![param(0) as u8, 0x55, 0, 0, 0];
        v.resize(5 + param(1) as usize, 0);
        fill(&mut v[5..]);
        message_check(&v);
    }
    // ---- a whole realistic frame, p1 neighbouring bytes of it free (every position from p2 up to p3); checksum made to match
    fn template() {
        let mut d = template_bytes(param(0));
        let (w, from, to) = (param(1) as usize, param(2) as usize, param(3) as usize);
        let to = if to < d.len() { to } else { d.len() };
        if from + w > to { return; }
        let x: u8 = byte();
        let at = from as u64 + fork({ assume((x as usize) <= to - from - w); x as u64 });
        for k in 0..w { d[at as usize + k] = byte(); }
        packet_check(&wrap(0x08, 0xFE, &d, 0));
    }
    // ---- telegrams with all their values free at the same time: p0 = source, p1 = size,
    //      p2 = 1: those before one arbitrary byte, 2: those before the point where the user data is cut
    fn layout() {
        let (mut d, start) = source(param(0), param(1) as usize);
        let a = byte();
        let mut at = d.len();
        if param(2) > 0 {
            let x: u8 = byte();
            at = fork({ assume((x as usize) < d.len()); x as u64 }) as usize;
        }
        free_header(&mut d, start, at);
        free_values(&mut d[start..], at.saturating_sub(start));
        if param(2) == 1 { d[at] = byte(); }
        if param(2) == 2 { d.truncate(at); }
        packet_check(&wrap(0x08, a, &d, 0));
    }
    // ---- a telegram with any other header in front of it: p0, p1 = source, p2 = which parts of the header are free, p3 = whether values are, p4 = CI if another
    fn header_layout() {
        let (mut d, start) = source(param(0), param(1) as usize);
        let (mut v, what) = (d[1..start].to_vec(), param(2));
        if start == 13 {
            if what & 1 != 0 { fill(&mut v[..4]); }
            if what & 2 != 0 { fill(&mut v[4..7]); }
            if what & 4 != 0 { fill(&mut v[7..8]); }
            if what & 8 != 0 { fill(&mut v[8..12]); }
            assume(m::long_valid(&v));
        } else if start == 5 { fill(&mut v); assume(m::short(&v).is_some()); }
        d[1..start].copy_from_slice(&v);
        let n = d.len();
        if param(3) > 0 { free_values(&mut d[start..], n); }
        if param(4) > 0 { d[0] = param(4) as u8; }
        cover("telegram");
        message_check(&d);
    }
    // ---- any header in front of any payload: p0 = CI, p1 = payload bytes, p2 = which parts of a long header are free (0: short header)
    fn header_payload() {
        let mut v = vec![param(0) as u8];
        if param(2) == 0 { let x: [u8; 4] = any(); assume(m::short(&x).is_some()); v.extend_from_slice(&x); } else {
            let mut x = [0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00];
            if param(2) & 1 != 0 { fill(&mut x[..4]); }
            if param(2) & 2 != 0 { fill(&mut x[4..7]); }
            if param(2) & 4 != 0 { fill(&mut x[7..8]); }
            if param(2) & 8 != 0 { fill(&mut x[8..12]); }
            assume(m::long_valid(&x));
            v.extend_from_slice(&x);
        }
        let s = v.len();
        v.resize(s + param(1) as usize, 0);
        fill(&mut v[s..]);
        message_check(&v);
    }
    // ---- recorded frames as they are
    fn recorded() { packet_check(FRAMES[param(0) as usize]); }
    // ---- one telegram after another, values free: p0, p2 = sources, p1, p3 = sizes
    fn history_layout() {
        for k in [0, 2, 0] {
            let (mut d, start) = source(param(k), param(k + 1) as usize);
            let n = d.len();
            free_header(&mut d, start, n);
            free_values(&mut d[start..], n);
            packet_check(&wrap(0x08, byte(), &d, 0));
        }
        cover("thrice");
    }
    // ---- exactly one thing wrong with a long frame: p0 = which, p1 = user data length
    fn one_fault() {
        let mut d = vec(param(1) as usize);
        d[0] = 0xA0;
        let mut v = wrap(0x08, byte(), &d, 0);
        let l = v.len();
        let x = byte();
        let want = match param(0) {
            0 => { assume(x != v[2]); v[2] = x; "length" }
            1 => { assume(x != 0x68); v[3] = x; "marker" }
            2 => { assume(!m::control(x).0); v[4] = x; let mut s = 0u8; for y in &v[4..l - 2] { s = s.wrapping_add(*y); } v[l - 2] = s; "control" }
            3 => { assume(x != v[l - 2]); v[l - 2] = x; "checksum" }
            4 => { assume(x != 0x16); v[l - 1] = x; "tail" }
            _ => { assume(x < 2); v[1] = x; v[2] = x; "length" }
        };
        match Packet::parse(&mut Bytes::new(&v[..])) {
            Ok(_) => check(false, "damaged frame accepted"),
            Err(e) => { cover("rejected"); match inner(e) { Some(e) => check(mentions(&e, want) & labelled(&e, "long frame header"), "error names what is wrong"), None => check(false, "error without a description") } }
        }
    }
    /// the same with a realistic telegram: p1, p2 = source
    fn one_fault_telegram() {
        let (mut d, start) = source(param(1), param(2) as usize);
        let n = d.len();
        free_header(&mut d, start, n);
        free_values(&mut d[start..], n);
        let mut v = wrap(0x08, byte(), &d, 0);
        let l = v.len();
        let x = byte();
        let want = match param(0) {
            0 => { assume(x != v[2]); v[2] = x; "length" }
            1 => { assume(x != 0x68); v[3] = x; "marker" }
            2 => { assume(!m::control(x).0); v[4] = x; let mut s = 0u8; for y in &v[4..l - 2] { s = s.wrapping_add(*y); } v[l - 2] = s; "control" }
            3 => { assume(x != v[l - 2]); v[l - 2] = x; "checksum" }
            4 => { assume(x != 0x16); v[l - 1] = x; "tail" }
            _ => { let at = 5 + fork({ assume((x as usize) < l - 7); x as u64 }) as usize; let y = byte(); assume(y != v[at]); v[at] = y; "checksum" }
        };
        match Packet::parse(&mut Bytes::new(&v[..])) {
            Ok(_) => check(false, "damaged frame accepted"),
            Err(e) => { cover("rejected"); match inner(e) { Some(e) => check(mentions(&e, want) & labelled(&e, "long frame header"), "error names what is wrong"), None => check(false, "error without a description") } }
        }
    }
    // ---- a realistic telegram with any control byte and address: p0, p1 = source
    fn control_telegram() {
        let (mut d, start) = source(param(0), param(1) as usize);
        let n = d.len();
        free_header(&mut d, start, n);
        free_values(&mut d[start..], n);
        packet_check(&wrap(byte(), byte(), &d, 0));
    }
    // ---- message of any CI in a frame of any control byte: p0 = payload bytes, p1 = CI or FREE
    fn control_message() {
        let mut d = vec(param(0) as usize + 1);
        if param(1) < 256 { d[0] = param(1) as u8; }
        packet_check(&wrap(byte(), byte(), &d, 0));
    }
    fn one_fault_short() {
        let mut v = [0x10, byte(), byte(), 0, 0x16];
        assume(m::control(v[1]).0);
        v[3] = v[1].wrapping_add(v[2]);
        let x = byte();
        let want = match param(0) {
            0 => { assume(!m::control(x).0); v[1] = x; v[3] = x.wrapping_add(v[2]); "control" }
            1 => { assume(x != v[3]); v[3] = x; "checksum" }
            _ => { assume(x != 0x16); v[4] = x; "tail" }
        };
        match Packet::parse(&mut Bytes::new(&v[..])) {
            Ok(_) => check(false, "damaged frame accepted"),
            Err(e) => { cover("rejected"); match inner(e) { Some(e) => check(mentions(&e, want) & labelled(&e, "short frame header"), "error names what is wrong"), None => check(false, "error without a description") } }
        }
    }
    // ---- headers alone: p0 = bytes
    fn header_short() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        match ShortHeader::parse(&mut i) {
            Ok(h) => { cover("ok"); check(matches!(h, TPLHeader::Short(_)), "header kind"); if check_header(&h, m::H_SHORT, &v) { check(i.len() == l - 4, "bytes used"); } }
            Err(_) => { cover("err"); check(m::short(&v).is_none(), "decodable header rejected"); }
        }
    }
    fn header_long() {
        let l = param(0) as usize; let v = vec(l);
        assume(m::plain_id(&v));
        let mut i = Bytes::new(&v[..]);
        match LongHeader::parse(&mut i) {
            Ok(h) => { cover("ok"); check(matches!(h, TPLHeader::Long(_)), "header kind"); if check_header(&h, m::H_LONG, &v) { check(i.len() == l - 12, "bytes used"); } }
            Err(_) => { cover("err"); check(m::long(&v).is_none(), "decodable header rejected"); }
        }
    }
    // ---- manufacturer code
    fn manufacturer() {
        let v: [u8; 2] = any();
        let c = u16::from_le_bytes(v);
        match unpack_manufacturer_code(c) {
            Ok(s) => {
                cover("ok");
                let s = s.as_bytes();
                check(s.len() == 3, "three letters");
                if s.len() == 3 {
                    let back = ((s[0] & 31) as u16) << 10 | ((s[1] & 31) as u16) << 5 | (s[2] & 31) as u16;
                    check(back == c & 0x7FFF, "letters encode the code");
                    for x in s { check((*x >= 0x40) & (*x <= 0x5F), "letter range"); }
                }
            }
            Err(_) => check(false, "manufacturer code rejected"),
        }
    }
    // ---- application reset/select: p0 = bytes
    fn select() {
        let l = param(0) as usize; let v = vec(l); let mut i = Bytes::new(&v[..]);
        match (ApplicationMessage::parse(&mut i), m::select(&v)) {
            (Ok(None), Some(None)) => { cover("empty"); check(i.len() == 0, "bytes used"); }
            (Ok(Some(a)), Some(Some(e))) => { cover("ok"); check_select(&a, e); check(i.len() == l - e.2, "bytes used"); }
            (Err(_), None) => cover("err"),
            (Ok(Some(_)), Some(None)) | (Ok(None), Some(Some(_))) => check(false, "selection present"),
            (Ok(_), None) => check(false, "accepted an undecodable selection"),
            (Err(_), Some(_)) => check(false, "rejected a decodable selection"),
        }
    }
    // ---- application error: p0 = bytes, p1 = first byte (256: free)
    fn app_error() {
        let l = param(0) as usize; let mut v = vec(l);
        if l > 0 && param(1) < 256 { v[0] = param(1) as u8; }
        let mut i = Bytes::new(&v[..]);
        match ApplicationErrorMessage::parse(&mut i) {
            Ok(a) => { cover("ok"); if let Some(n) = check_app_error(&a, &v) { check(i.len() == l - n, "bytes used"); } }
            Err(_) => {
                cover("err");
                check(l > 0, "empty error rejected");
                if l > 0 {
                    let k = m::APP_ERRORS[v[0] as usize];
                    if k == m::E_DYNAMIC {
                        let mut ok = true;
                        if let Some(d) = model::dib(&v[1..]) { if let Some(b) = model::vib(&v[1 + d.len..]) { ok = modelled_text(&b, &v[1 + d.len..]); } }
                        if ok { check(model::record(&v[1..]).is_none(), "decodable error record rejected"); }
                    } else { check(k == m::NO, "known error code rejected"); }
                }
            }
        }
    }
    // ---- record list, every byte free: p0 = bytes
    fn frame() { let v = vec(param(0) as usize); frame_check(&v); }
    // ---- p0 slots, each one of: record without data, record with one data byte, fillers, end markers; then p1 free bytes
    fn frame_slots() {
        let mut v = vec![];
        for _ in 0..param(0) {
            let x = byte();
            assume(x < 6);
            match fork(x as u64) { 0 => v.extend_from_slice(&[0x00, 0x13]), 1 => v.extend_from_slice(&[0x01, 0x13, byte()]), 2 => v.push(0x2F), 3 => v.extend_from_slice(&[0x2F, 0x2F]), 4 => v.push(0x0F), _ => v.push(0x1F) }
        }
        for _ in 0..param(1) { v.push(byte()); }
        frame_check(&v);
    }
    // ---- p0 records of kind p1 (DIF) with free data, filler p2 between, marker p3 (256: none), p4 free bytes behind it
    fn frame_long() {
        let mut v = vec![];
        let n = model::DATA_LEN[(param(1) & 15) as usize];
        for _ in 0..param(0) {
            v.extend_from_slice(&[param(1) as u8, 0x13]);
            for _ in 0..n { v.push(byte()); }
            for _ in 0..param(2) { v.push(0x2F); }
        }
        if param(3) < 256 { v.push(param(3) as u8); }
        for _ in 0..param(4) { v.push(byte()); }
        frame_check(&v);
    }
    // ---- p1 records of the same quantity (every VIF of table p2: 0 primary, 1 FBh, 2 FDh) and data field p0, all values arbitrary, p3: the second is of data field p3 instead; p4: +1 the last of a quantity of its own, +2 two arbitrary DIFEs each, +4 two arbitrary VIFEs each, +8 an arbitrary function and storage bit each; p5: the last is of table p5-1 instead
    fn record_pairs() {
        let x = byte();
        assume(x < if param(2) == 0 { 0x7B } else { 0x80 });
        let x = fork(x as u64) as u8;
        let mut v = vec![];
        for k in 0..param(1) {
            let d = if k == 1 && param(3) > 0 { param(3) } else { param(0) };
            let e = param(4);
            let t = if param(5) > 0 && k + 1 == param(1) { param(5) - 1 } else { param(2) };
            let y = if e & 1 != 0 && k + 1 == param(1) { let y = byte(); assume(y < if t == 0 { 0x7B } else { 0x80 }); fork(y as u64) as u8 } else { x };
            v.push(d as u8 | if e & 2 != 0 { 0x80 } else { 0 } | if e & 8 != 0 { byte() & 0x70 } else { 0 });
            if e & 2 != 0 { chain(&mut v, 2); }
            let m = if e & 4 != 0 { 0x80 } else { 0 };
            match t { 0 => v.push(y | m), 1 => v.extend_from_slice(&[0xFB, y | m]), _ => v.extend_from_slice(&[0xFD, y | m]) }
            if e & 4 != 0 { chain(&mut v, 2); }
            let c = v.len();
            if d == 0x0D { v.push(2); }
            for _ in 0..if d == 0x0D { 2 } else { model::DATA_LEN[(d & 15) as usize] } { v.push(byte()); }
            if d & 8 != 0 && d != 0x0D { assume(model::bcd_ok(&v[c..]) & (!model::bcd_neg(&v[c..]) | (k == 0))); }
            if d == 0x0D { assume((v[c + 1] < 0x80) & (v[c + 2] < 0x80)); }
        }
        cover("list");
        frame_check(&v);
    }
    // ---- the same frame through other kinds of input: p0 = kind of frame, p1 = kind of input
    fn stream_kind() {
        use winnow::stream::{BStr, LocatingSlice, Partial, Stateful, Stream, StreamIsPartial};
        let v = stream_frame(param(0));
        let b = &v[..];
        match param(1) {
            0 => { let mut i = b; let r = Packet::parse(&mut i); packet_judge(r, i.len(), b) }
            1 => { let mut i = BStr::new(b); let r = Packet::parse(&mut i); packet_judge(r, i.len(), b) }
            2 => { let mut i = LocatingSlice::new(b); let r = Packet::parse(&mut i); packet_judge(r, i.eof_offset(), b) }
            3 => { let mut i = LocatingSlice::new(Bytes::new(b)); let r = Packet::parse(&mut i); packet_judge(r, i.eof_offset(), b) }
            4 => { let mut i = Stateful { input: b, state: 7u32 }; let r = Packet::parse(&mut i); check(i.state == 7, "the caller's state"); packet_judge(r, i.eof_offset(), b) }
            _ => { let mut i = Partial::new(Bytes::new(b)); let _ = i.complete(); let r = Packet::parse(&mut i); packet_judge(r, i.eof_offset(), b) }
        }
        cover("done");
    }
    // ---- a frame that has arrived only in part: p0 = kind of frame, p1 = bytes missing (1000: all numbers of them)
    fn stream_partial() {
        use winnow::stream::{Partial, Stream};
        let v = stream_frame(param(0));
        let mut i = Bytes::new(&v[..]);
        if Packet::parse(&mut i).is_err() || i.len() != 0 { cover("unacceptable"); return; }
        for k in 0..v.len() {
            if param(1) < 1000 && v.len() - k != param(1) as usize { continue; }
            let mut i = Partial::new(&v[..k]);
            match Packet::parse(&mut i) { Err(ErrMode::Incomplete(n)) => { cover("incomplete"); if let winnow::error::Needed::Size(n) = n { check(n.get() <= v.len() - k, "asks for more input than is missing") } } Err(_) => check(false, "frame still arriving was rejected"), Ok(_) => check(false, "frame still arriving was accepted") }
        }
        let mut i = Partial::new(&v[..]);
        let r = Packet::parse(&mut i);
        packet_judge(r, i.eof_offset(), &v);
    }
    // ---- frames one after the other in one input: p0 of them acknowledgements or short frames, then p1: 0 nothing, 1 a long frame, 2.. that many free bytes
    fn sequence() {
        let mut v = vec![];
        let mut at = vec![];
        for _ in 0..param(0) {
            at.push(v.len());
            if fork((byte() & 1) as u64) == 0 { v.push(0xE5); } else { let x = byte(); v.extend_from_slice(&[0x10, x, byte()]); v.push(byte()); v.push(0x16); }
        }
        at.push(v.len());
        match param(1) { 0 => (), 1 => v.extend_from_slice(&wrap(0x08, byte(), &[0xA0, byte(), byte()], 0)), n => { let s = v.len(); v.resize(s + n as usize, 0); fill(&mut v[s..]); } }
        let mut i = Bytes::new(&v[..]);
        for a in at {
            if i.len() != v.len() - a { check(false, "where the next frame begins"); return; }
            let r = Packet::parse(&mut i);
            let stop = r.is_err();
            packet_judge(r, i.len(), &v[a..]);
            if stop { return; }
        }
        cover("all");
    }
    // ---- nothing decoded before matters: p0 = what, p1 = how often something concrete is decoded first, p2 = size
    fn history() {
        let n = param(2) as usize;
        for k in 0..param(1) {
            let t = template_bytes(k % 3);
            let w = wrap(0x08, k as u8, &t, 0);
            check(Packet::parse(&mut Bytes::new(&w[..])).is_ok(), "template rejected");
            check(Packet::parse(&mut Bytes::new(&w[..w.len() - 1])).is_err(), "cut template accepted");
        }
        for _ in 0..2 { history_step(param(0), n); }
        cover("twice");
    }
    // ---- one thing decoded after another: p0, p2 = what, p1, p3 = size; p4 = rejected frames decoded concretely first and last, with equal errors
    fn history_mixed() {
        let bad: [&[u8]; 4] = [&[0x68, 3, 3, 0x68, 0x08, 1, 0x51, 0, 0x16], &[0x10, 0x40, 1, 0x42, 0x16], &[0x10, 0xC0, 1, 0xC1, 0x16], &[0x68, 4, 3]];
        let before: Vec<String> = bad.iter().map(|b| text(b)).collect();
        history_step(param(0), param(1) as usize);
        history_step(param(2), param(3) as usize);
        for (b, t) in bad.iter().zip(&before) { check(text(b) == *t, "the error differs from what it was"); }
        cover("both");
    }
    // ---- p0 times one small input: p1 = which; then each kind of small input
    fn history_count() {
        let rec: [&[u8]; 6] = [&[0x01, 0x13, 5], &[0x02, 0x6C, 0xC1, 0x19], &[0x0D, 0x13, 2, 0x41, 0xE4], &[0x84, 0x11, 0x93, 0x20, 1, 2, 3, 4], &[0x0A, 0x5A, 0xBB, 0x0C], &[0x00, 0x7C, 2, 0x43, 0x25]];
        for _ in 0..param(0) {
            match param(1) {
                0..=5 => { super::app::record_check(rec[param(1) as usize]); }
                6 => { packet_check(&[0x10, 0x40, 1, 0x41, 0x16]); }
                7 => { packet_check(&[0x10, 0x40, 1, 0x42, 0x16]); }
                8 => { packet_check(&[0xE5]); }
                9 => { message_check(&[0x70, 8]); }
                10 => { message_check(&[0x50, 0x10]); }
                12 => { packet_check(&[0x68, 3, 3, 0x68, 0x18, 1, 0x78, 0x91, 0x16]); }
                13 => { packet_check(&[0x68, 3, 3, 0x68, 0x73, 1, 0x51, 0xC5, 0x16]); }
                14 => { packet_check(&[0x68, 3, 3, 0x68, 0x18, 1, 0x78, 0x92, 0x16]); }
                15 => { packet_check(&[0x10, 0x7B, 1, 0x7C, 0x16]); }
                16 => { message_check(&[0x7A, 0x40, 1, 0x30, 0x05]); }
                17 => { frame_check(&[0x1F]); }
                18 => { frame_check(&[0x2F, 0x00, 0x13, 0x0F, 1]); }
                19..=25 => { let rec: [&[u8]; 7] = [&[0x04, 0x6D, 0x1E, 0x2A, 0xC1, 0x19], &[0x06, 0x6D, 1, 0x1E, 0x2A, 0xC1, 0x19, 1], &[0x03, 0x6D, 1, 2, 3], &[0x05, 0x2B, 0, 0, 0x80, 0x3F], &[0x01, 0xFD, 0x17, 1], &[0x0D, 0xFD, 0x0E, 0xE9, 1, 2, 3, 4, 5, 6, 7, 8, 9], &[0x04, 0xFD, 0x72, 0, 0, 0, 0]]; super::app::record_check(rec[param(1) as usize - 19]); }
                _ => { message_check(&[0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0, 0, 0]); }
            }
        }
        cover("decoded");
        let k = byte() as u64;
        assume((k < 31) & (k != 27) & (k != 2) & (k != 7) & (k != 5) & (k != 3) & (k != 0));
        history_step(fork(k), 0);
    }
    // ---- everything concrete p0 times, then p1 (one of the steps above, size p2) once more: recorded frames, messages of every CI, every application error, selections, texts
    fn history_all() {
        for k in 0..param(0) as u8 {
            for f in FRAMES.iter() { if f.len() < 120 { let _ = Packet::parse(&mut Bytes::new(f)); } }
            for ci in 0..=255u8 { let _ = MBusMessage::parse(&mut Bytes::new(&[ci, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, k, 7, 0x55, 0, 0, 0, 1, 0x13, k])); }
            for c in 0..=255u8 { let _ = ApplicationErrorMessage::parse(&mut Bytes::new(&[c, 0x01, 0x13, k])); }
            for c in 0..16u8 { let _ = ApplicationMessage::parse(&mut Bytes::new(&[c << 4 | k & 15, 0xF1, 2])); }
            for x in 0..128u8 { for r in [&[0x01, x, k, 1, 2][..], &[0x0D, 0x13, 2, b'A' + k % 26, x], &[0x02, 0xFD, x, k, 1], &[0x02, 0xFB, x, k, 1], &[0x84, x, 0x6D, 0x1E, 0x0A, 0xC1, 0x19], &[0x00, 0x7C, 1, x]] { let _ = libmbus::parse::application_layer::record::Record::parse(&mut Bytes::new(r)); } }
        }
        cover("decoded");
        let kind = if param(1) < 256 { param(1) } else { let k = byte() as u64; assume((k < 31) & (k != 27) & (k != 2) & (k != 7) & (k != 5) & (k != 3)); fork(k) };
        history_step(kind, param(2) as usize);
    }
    // ---- nothing panics, whatever the bytes: p0 = bytes, p1 = entry point
    fn no_panic() {
        let v = vec(param(0) as usize);
        let i = &mut Bytes::new(&v[..]);
        let e = match param(1) {
            0 => match Packet::parse(i) { Ok(_) => None, Err(e) => inner(e) },
            1 => MBusMessage::parse(i).err(),
            2 => Frame::parse(i).err(),
            3 => libmbus::parse::application_layer::record::Record::parse(i).err(),
            4 => LongHeader::parse(i).err(),
            5 => ApplicationErrorMessage::parse(i).err(),
            _ => ApplicationMessage::parse(i).err(),
        };
        match e { Some(e) => { cover("err"); let s = e.to_string(); obs(s.as_bytes()); check(s.is_empty() || s.as_bytes()[s.len() - 1] == b'\n', "error text"); } None => cover("ok") }
    }
}

/// one of 0..n, each on a path of its own
fn pick(n: u64) -> usize { let x = byte() as u64; assume(x < n); fork(x) as usize }
fn text(b: &[u8]) -> String {
    match Packet::parse(&mut Bytes::new(b)) { Ok(_) => { check(false, "damaged frame accepted"); String::new() } Err(e) => inner(e).map_or(String::new(), |e| e.to_string()) }
}
fn history_step(kind: u64, n: usize) {
    match kind {
        0 => { let v = vec(n); packet_check(&v); }
        1 => { let v = [0x10, byte(), byte(), byte(), 0x16]; packet_check(&v); }
        2 => { let c = [m::num("BEC"), m::num("EFE"), m::num("SBC")][fork({ let x = byte(); assume(x < 3); x as u64 }) as usize]; let mut v = vec![0x72, 0x78, 0x56, 0x34, byte() & 0x77, c as u8, (c >> 8) as u8, byte(), byte() & 15, 1, 0, 0, 0]; if n > 0 { v[9] = byte(); v[10] = byte(); } message_check(&v); }
        3 => { let v = vec(n); super::app::record_check(&v); }
        4 => { let mut v = vec![0x02, 0x6C]; v.push(byte()); v.push(byte()); super::app::record_check(&v); }
        5 => { let v = [0x0D, 0x13, 3, byte(), byte(), byte()]; super::app::record_check(&v); }
        6 => { let v = [0x0C, 0x13, byte(), byte(), byte(), byte()]; super::app::record_check(&v); }
        7 => { let v = vec(n); frame_check(&v); }
        8 => { let v = [0x0F, byte(), byte()]; frame_check(&v); }
        9 => { let mut v = vec![0x50]; v.push(byte()); v.push(byte()); message_check(&v); }
        10 => { let v = [0x70, byte()]; message_check(&v); }
        11 => { let v = [0x04, 0x6D, byte(), byte(), byte(), byte()]; super::app::record_check(&v); }
        12 => { let v = [0x84, byte(), byte() & 0x7F, 0x13, byte(), 0, 0, 0]; super::app::record_check(&v); }
        13 => { let v = [0x01, 0xFD, byte(), byte() & 0x7F, byte()]; super::app::record_check(&v); }
        15 => { let c = m::num("BEC"); message_check(&[0x72, 0x78, 0x56, 0x34, 0x12, c as u8, (c >> 8) as u8, byte() & 7, byte() & 3, byte(), 0, 0, 0]); }
        16 => super::app::record_check(&[byte() & 15, 0x13, 1, 2, 3, 4, 5, 6, 7, 8]),
        17 => super::app::record_check(&[0x0D, 0x13, 1, byte()]),
        18 => super::app::record_check(&[0x00, 0x7C, 2, byte() & 0x7F, byte() & 0x7F]),
        19 => super::app::record_check(&[0x05, 0x13, byte(), byte(), 0, 0x40]),
        20 => { let k = [0xC2, 0xD2, 0xE2, 0xEA, 0xF0][pick(5)]; let mut v = vec![0x0D, 0x13, k, byte(), byte()]; v.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]); super::app::record_check(&v); }
        21 => { let k = pick(3); let mut v = vec![[0x06, 0x03, 0x04][k], [0x6D, 0x6D, 0xFD][k]]; if k == 2 { v.push(0x72); } v.push(byte()); v.push(byte()); v.extend_from_slice(&[0x0A, 0x21, 0x31, 0x05]); super::app::record_check(&v); }
        22 => super::app::record_check(&[0x81, byte() & 0x7F, 0x13, byte()]),
        23 => message_check(&[0x7A, byte(), byte(), 0, 0, 0x01, 0x13, byte()]),
        24 => message_check(&[byte(), 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0, 0, 0]),
        25 => packet_check(&wrap(byte(), byte(), &[0x51, 1], 0)),
        26 => packet_check(&[0x68, 3, 3, 0x68, 0x08, 1, 0xA0, byte(), byte()]),
        27 => super::app::record_check(&[0x01, byte(), byte()]),
        28 => message_check(&[0x72, byte() & 0x77, byte() & 0x77, 0, 0, 0x24, 0x40, 1, 4, 1, 0, 0, 0]),
        29 => super::app::record_check(&[0x02, 0x13, byte(), byte()]),
        30 => super::app::record_check(&[0x00, 0x93, byte() & 0x7F | 0x80, byte() & 0x7F]),
        31 => { let mut v = vec![0x01, 0x93]; chain(&mut v, n); v.push(byte()); super::app::record_check(&v); }
        32 => { let mut v = vec![0x81]; chain(&mut v, n); v.extend_from_slice(&[0x13, byte()]); super::app::record_check(&v); }
        33 => { let mut v = vec![0x00, 0x7C, n as u8]; for _ in 0..n { v.push(byte() & 0x7F); } super::app::record_check(&v); }
        34 => { let mut v = vec![0x0D, 0x13, n as u8]; for _ in 0..n { v.push(byte() & 0x7F); } super::app::record_check(&v); }
        35 => { let mut v = vec![0x0D, 0x13, 0xE0 + n as u8]; for _ in 0..n { v.push(byte()); } super::app::record_check(&v); }
        36 => { let mut v = vec![[0, 1, 2, 3, 4, 0, 6, 0, 7][n], 0x13]; for _ in 0..n { v.push(byte()); } super::app::record_check(&v); }
        37 => { let mut v = vec![0x0F]; for _ in 0..n { v.push(byte()); } frame_check(&v); }
        38 => { let mut v = vec![0x6C, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, byte(), byte(), 0, 0]; for _ in 0..n { v.push(byte()); } message_check(&v); }
        39 => { let mut v = vec![0x72]; for _ in 0..4 { v.push(byte()); } v.extend_from_slice(&[0x24, 0x40, byte(), 4, byte(), byte(), byte(), byte()]); assume(m::long_valid(&v[1..])); message_check(&v); }
        40 => { let mut v = vec![0x70, 0xF3]; for _ in 0..n { v.push(byte()); } message_check(&v); }
        41 => { let mut v = vec![0x0D, 0x13, 0xC0 + n as u8]; for _ in 0..n { v.push(byte()); } assume(super::model::bcd_ok(&v[3..]) & !super::model::bcd_neg(&v[3..])); super::app::record_check(&v); }
        42 => { let mut v = vec![0x0D, 0x6D, n as u8]; for _ in 0..n { v.push(byte() & 0x7F); } super::app::record_check(&v); }
        43 => { let mut v = vec![0x01, 0xFD, 0x8E]; chain(&mut v, n); v.push(byte()); super::app::record_check(&v); }
        44 => { let mut v = vec![0x51]; for _ in 0..n { v.push(byte()); } packet_check(&wrap(0x53, byte(), &v, 0)); }
        45 => { let mut v = vec![0x0D, 0x13, 0xD0 + n as u8]; for _ in 0..n { v.push(byte()); } assume(super::model::bcd_ok(&v[3..]) & !super::model::bcd_neg(&v[3..])); super::app::record_check(&v); }
        46 => { let mut v = vec![]; for _ in 0..n { v.extend_from_slice(&[0x02, 0x13, byte(), byte()]); } frame_check(&v); }
        47 => { let mut v = vec![0x81]; chain(&mut v, n); v.push(0x93); chain(&mut v, n); v.push(byte()); super::app::record_check(&v); }
        48 => { let w = wrap(byte(), byte(), &[0x51, byte(), byte(), byte()], 0); partial(&w[..n], w.len() - n); packet_check(&wrap(byte(), byte(), &[0x51, byte(), byte(), byte()], 0)); }
        49 => { let w = [0x10, byte(), byte(), byte(), 0x16]; partial(&w[..n], w.len() - n); packet_check(&[0x10, byte(), byte(), byte(), 0x16]); }
        50 => { let mut d = template_bytes(1); d[0] = 0x7A; let w = wrap(byte(), byte(), &d, 0); partial(&w[..n], w.len() - n); }
        _ => { let mut d = template_bytes(0); d[1] = byte(); d[18] = byte(); packet_check(&wrap(0x08, 0xFE, &d, 0)); }
    }
}
/// a frame of which m bytes are still to come
fn partial(b: &[u8], m: usize) {
    if let Err(ErrMode::Incomplete(winnow::error::Needed::Size(n))) = Packet::parse(&mut winnow::stream::Partial::new(b)) { check(n.get() <= m, "asks for more input than is missing"); }
}
/// n arbitrary bytes, of which only the last one ends the chain
fn chain(v: &mut Vec<u8>, n: usize) { for k in 0..n { v.push(if k + 1 < n { byte() | 0x80 } else { byte() & 0x7F }); } }
fn frame_check(v: &[u8]) {
    let mut i = Bytes::new(v);
    match Frame::parse(&mut i) {
        Ok(f) => { cover("ok"); check_frame(&f, v); check(i.len() == 0, "bytes used"); }
        Err(_) => { cover("err"); if m::frame_modelled(v) { check(m::frame(v).is_none(), "decodable record list rejected"); } else { cover("non-ASCII"); } }
    }
}
