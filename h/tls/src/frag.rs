//! C05: fragmentation of outgoing messages.
use std::collections::VecDeque;
use tls_core::msgs::{base::Payload, enums::*, fragmenter::MessageFragmenter, message::*};
use vk::{any, assume, harnesses_m, idx, reach};

fn owned<const N: usize>(max: usize, n: usize) {
    let (t, v): (u8, u16) = (any(), any());
    let buf: [u8; N] = any();
    let f = MessageFragmenter::new(Some(max)).unwrap();
    let lim = max - 5;
    let mut out = VecDeque::with_capacity(8);
    f.fragment(
        PlainMessage { typ: ContentType::from(t), version: ProtocolVersion::from(v), payload: Payload(buf[..n].to_vec()) },
        &mut out,
    );
    let want = if n == 0 { 1 } else { n.div_ceil(lim) };
    assert!(out.len() == want);
    let mut k = 0;
    while k < want {
        let m = &out[k];
        let l = lim.min(n - k * lim);
        assert!(m.typ.get_u8() == t && m.version.get_u16() == v);
        assert!(m.payload.0.len() == l && l + 5 <= max);
        if l > 0 {
            let i = idx(l);
            assert!(m.payload.0[i] == buf[k * lim + i]);
        }
        k += 1;
    }
    reach!(t == 22 && v == 0x0303);
}

fn borrowed<const N: usize>(max: usize, n: usize) {
    let (t, v): (u8, u16) = (any(), any());
    let buf: [u8; N] = any();
    let f = MessageFragmenter::new(Some(max)).unwrap();
    let lim = max - 5;
    let mut out = VecDeque::with_capacity(8);
    f.fragment_borrow(ContentType::from(t), ProtocolVersion::from(v), &buf[..n], &mut out);
    let want = n.div_ceil(lim);
    assert!(out.len() == want);
    let mut k = 0;
    while k < want {
        let m = &out[k];
        let l = lim.min(n - k * lim);
        assert!(m.typ.get_u8() == t && m.version.get_u16() == v);
        assert!(m.payload.len() == l && l > 0 && l + 5 <= max);
        let i = idx(l);
        assert!(m.payload[i] == buf[k * lim + i]);
        k += 1;
    }
    reach!(t == 22 && v == 0x0303);
}

harnesses_m! {
    fn owned_0() unwind 6 { owned::<60>(32, 0) }
    fn owned_1() unwind 6 { owned::<60>(32, 1) }
    fn owned_lim() unwind 6 { owned::<60>(32, 27) }
    fn owned_lim1() unwind 6 { owned::<60>(32, 28) }
    fn owned_2lim() unwind 6 { owned::<60>(32, 54) }
    fn owned_2lim1() unwind 6 { owned::<60>(32, 55) }
    fn owned_33() unwind 6 { owned::<60>(33, 57) }
    fn borrowed_0() unwind 6 { borrowed::<60>(32, 0) }
    fn borrowed_1() unwind 6 { borrowed::<60>(32, 1) }
    fn borrowed_lim() unwind 6 { borrowed::<60>(32, 27) }
    fn borrowed_lim1() unwind 6 { borrowed::<60>(32, 28) }
    fn borrowed_2lim() unwind 6 { borrowed::<60>(32, 54) }
    fn borrowed_2lim1() unwind 6 { borrowed::<60>(32, 55) }
    fn limits() unwind 4 {
        // every configured limit is accepted or refused as stated; a refused one leaves the old limit
        let sz: usize = any();
        let some: bool = any();
        let cfg = if some { Some(sz) } else { None };
        let ok = !some || (32..=16389).contains(&sz);
        assert!(MessageFragmenter::new(cfg).is_ok() == ok);
        let mut f = MessageFragmenter::new(Some(40)).unwrap();
        assert!(f.set_max_fragment_size(cfg).is_ok() == ok);
        // the limit in force, observed through borrowed fragments of a long payload
        let lim = if !ok { 35 } else if some { sz - 5 } else { 16384 };
        static BIG: [u8; 20000] = [0; 20000];
        let mut out = VecDeque::with_capacity(4);
        let n: usize = any();
        assume(n > lim && n <= 2 * lim && n <= 20000);
        f.fragment_borrow(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &BIG[..n], &mut out);
        assert!(out.len() == 2 && out[0].payload.len() == lim && out[1].payload.len() == n - lim);
        reach!(some && sz == 31);
        reach!(some && sz == 32);
        reach!(some && sz == 16389);
        reach!(some && sz == 16390);
        reach!(!some && n == 16385);
    }
}
