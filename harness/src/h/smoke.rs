use super::vh::*;
use crate::harnesses;
use libmbus::parse::types::date::*;
use libmbus::parse::link_layer::*;
use winnow::Bytes;

harnesses! {
    fn smoke_dateg() {
        let b = any::<2>();
        let mut i = Bytes::new(&b[..]);
        if let Ok(d) = TypeGDate::parse(&mut i) {
            check(d.day == b[0] & 0x1f, "day");
            obs64(d.day as u64);
        }
    }
    fn smoke_frame() {
        let n = param(0) as usize;
        let mut v = vec![0u8; n];
        fill(&mut v);
        let mut i = Bytes::new(&v[..]);
        let r = Packet::parse(&mut i);
        let s = match &r { Ok(p) => format!("{p:?}"), Err(e) => format!("{e:?}") };
        obs(s.as_bytes());
    }
    fn smoke_pkt() {
        let n = param(0) as usize;
        let mut v = vec![0u8; n];
        fill(&mut v);
        let mut i = Bytes::new(&v[..]);
        if Packet::parse(&mut i).is_ok() { cover("ok"); check(i.len() == 0, "eof"); }
    }
}
