//! C01, C02, C03, C05: codec primitives, record framing, deframing, fragmentation.
use tls_core::msgs::{
    base::{Payload, PayloadU8, PayloadU16, PayloadU24},
    codec::*,
    enums::*,
    message::*,
};
use vk::{any, assume, harnesses, idx, len, reach};

/// Bytes of `buf[..n]` as an owned vector.
fn vec_of(buf: &[u8], n: usize) -> Vec<u8> {
    buf[..n].to_vec()
}

const N: usize = 6;

harnesses! {
    // ---------------------------------------------------------------- C01
    fn int_roundtrip() unwind 12 {
        let pre: u8 = any();
        let mut out = vec![pre];
        let (a, b, c, d): (u8, u16, u32, u64) = (any(), any(), any(), any());
        let t: u32 = any();
        assume(t < 1 << 24);
        a.encode(&mut out);
        b.encode(&mut out);
        c.encode(&mut out);
        d.encode(&mut out);
        u24(t).encode(&mut out);
        assert!(out.len() == 1 + 1 + 2 + 4 + 8 + 3);
        assert!(out[0] == pre);
        assert!(out[1] == a);
        assert!(out[2..4] == b.to_be_bytes());
        assert!(out[4..8] == c.to_be_bytes());
        assert!(out[8..16] == d.to_be_bytes());
        assert!(out[16] == (t >> 16) as u8 && out[17] == (t >> 8) as u8 && out[18] == t as u8);
        let mut r = Reader::init(&out[1..]);
        assert!(u8::read(&mut r) == Some(a) && r.used() == 1);
        assert!(u16::read(&mut r) == Some(b) && r.used() == 3);
        assert!(u32::read(&mut r) == Some(c) && r.used() == 7);
        assert!(u64::read(&mut r) == Some(d) && r.used() == 15);
        assert!(u24::read(&mut r).unwrap().0 == t && r.used() == 18);
        assert!(!r.any_left() && r.left() == 0);
        let mut two = [0u8; 3];
        put_u16(b, &mut two);
        assert!(two[..2] == b.to_be_bytes() && two[2] == 0);
        let mut eight = [0u8; 9];
        put_u64(d, &mut eight);
        assert!(eight[..8] == d.to_be_bytes() && eight[8] == 0);
        reach!(t > 70000 && d > u32::MAX as u64);
    }
    fn int_truncated() unwind 12 {
        // A short input is refused for every integer width; an adequate one is read big-endian.
        let buf: [u8; 9] = any();
        let n = len(9);
        let s = &buf[..n];
        let be = |k: usize| { let mut v = 0u64; let mut i = 0; while i < k { v = v << 8 | buf[i] as u64; i += 1; } v };
        assert!(u8::read_bytes(s) == if n >= 1 { Some(be(1) as u8) } else { None });
        assert!(u16::read_bytes(s) == if n >= 2 { Some(be(2) as u16) } else { None });
        assert!(u24::read_bytes(s).map(|x| x.0) == if n >= 3 { Some(be(3) as u32) } else { None });
        assert!(u32::read_bytes(s) == if n >= 4 { Some(be(4) as u32) } else { None });
        assert!(u64::read_bytes(s) == if n >= 8 { Some(be(8)) } else { None });
        reach!(n == 7);
        reach!(n == 9);
    }
    fn reader_bounds() unwind 12 {
        // take/sub/rest/left/used agree on the position and never go beyond the input.
        let buf: [u8; N] = any();
        let n = len(N);
        let mut r = Reader::init(&buf[..n]);
        let a: usize = any();
        let b: usize = any();
        let first = r.take(a).map(|s| s.to_vec());
        assert!(first.is_some() == (a <= n));
        let mut pos = 0;
        if let Some(v) = &first {
            assert!(v.len() == a && v[..] == buf[..a]);
            pos = a;
        }
        assert!(r.used() == pos && r.left() == n - pos && r.any_left() == (pos < n));
        match r.sub(b) {
            Some(mut s) => {
                assert!(b <= n - pos);
                assert!(s.left() == b && s.used() == 0);
                assert!(s.rest() == &buf[pos..pos + b]);
                assert!(!s.any_left() && s.used() == b);
                pos += b;
            }
            None => assert!(b > n - pos),
        }
        assert!(r.used() == pos && r.left() == n - pos);
        assert!(r.rest() == &buf[pos..n]);
        assert!(r.left() == 0 && r.take(1).is_none() && r.take(0).is_some());
        reach!(a == 2 && b == 3 && n == N);
        reach!(a == usize::MAX);
    }
    fn payload_roundtrip() unwind 12 {
        let buf: [u8; 4] = any();
        let tail: u8 = any();
        let mut n = 0;
        while n <= 4 {
            let mut o1 = Vec::new();
            PayloadU8::new(vec_of(&buf, n)).encode(&mut o1);
            let mut o2 = Vec::new();
            PayloadU16::new(vec_of(&buf, n)).encode(&mut o2);
            let mut o3 = Vec::new();
            PayloadU24::new(vec_of(&buf, n)).encode(&mut o3);
            let mut o4 = Vec::new();
            tls_core::key::Certificate(vec_of(&buf, n)).encode(&mut o4);
            let mut o5 = Vec::new();
            PayloadU16::encode_slice(&buf[..n], &mut o5);
            assert!(o1.len() == n + 1 && o2.len() == n + 2 && o3.len() == n + 3 && o4.len() == n + 3);
            assert!(o1[0] as usize == n);
            assert!(o2[0] == 0 && o2[1] as usize == n);
            assert!(o3[0] == 0 && o3[1] == 0 && o3[2] as usize == n);
            assert!(o4 == o3 && o5 == o2);
            assert!(o1[1..] == buf[..n] && o2[2..] == buf[..n] && o3[3..] == buf[..n]);
            o1.push(tail);
            o2.push(tail);
            o3.push(tail);
            let mut r = Reader::init(&o1);
            assert!(PayloadU8::read(&mut r).unwrap().into_inner()[..] == buf[..n] && r.left() == 1);
            let mut r = Reader::init(&o2);
            assert!(PayloadU16::read(&mut r).unwrap().0[..] == buf[..n] && r.left() == 1);
            let mut r = Reader::init(&o3);
            assert!(PayloadU24::read(&mut r).unwrap().0[..] == buf[..n] && r.left() == 1);
            let mut r = Reader::init(&o3);
            assert!(tls_core::key::Certificate::read(&mut r).unwrap().0[..] == buf[..n] && r.left() == 1);
            n += 1;
        }
        reach!(buf[0] != buf[3]);
    }
    fn payload_decode() unwind 16 {
        // Any bytes: accepted exactly if the declared length fits, and then exactly those bytes.
        let buf: [u8; 9] = any();
        let n = len(9);
        let which: u8 = any();
        let mut r = Reader::init(&buf[..n]);
        let (hdr, got) = match which % 4 {
            0 => (1, PayloadU8::read(&mut r).map(|p| p.into_inner())),
            1 => (2, PayloadU16::read(&mut r).map(|p| p.0)),
            2 => (3, PayloadU24::read(&mut r).map(|p| p.0)),
            _ => (3, tls_core::key::Certificate::read(&mut r).map(|p| p.0)),
        };
        let mut want = 0usize;
        let mut i = 0;
        while i < hdr && i < n { want = want << 8 | buf[i] as usize; i += 1; }
        match got {
            Some(v) => {
                assert!(n >= hdr && want <= n - hdr);
                assert!(v.len() == want && v[..] == buf[hdr..hdr + want]);
                assert!(r.used() == hdr + want);
            }
            None => assert!(n < hdr || want > n - hdr),
        }
        reach!(which % 4 == 1 && n == 9 && want == 7);
        reach!(which % 4 == 2 && n == 9 && want == 7);
    }
    fn payload_long_prefix() unwind 70000 {
        // Lengths around the carries of the prefix bytes; contents concrete, one byte symbolic.
        let x: u8 = any();
        for n in [255usize, 256, 257] {
            let mut body = vec![0u8; n];
            body[n - 1] = x;
            if n < 256 {
                let mut out = Vec::new();
                PayloadU8::new(body.clone()).encode(&mut out);
                assert!(out.len() == n + 1 && out[0] as usize == n && out[n] == x);
            }
            let mut out = Vec::new();
            PayloadU16::new(body.clone()).encode(&mut out);
            assert!(out.len() == n + 2 && out[0] as usize == n >> 8 && out[1] as usize == n & 255 && out[n + 1] == x);
            assert!(PayloadU16::read_bytes(&out).unwrap().0.len() == n);
            let mut out = Vec::new();
            PayloadU24::new(body).encode(&mut out);
            assert!(out.len() == n + 3 && out[0] == 0 && out[1] as usize == n >> 8 && out[2] as usize == n & 255);
            assert!(PayloadU24::read_bytes(&out).unwrap().0.len() == n);
        }
        reach!(x == 7);
    }
    fn vec_roundtrip() unwind 12 {
        let v: [u16; 3] = any();
        let tail: u8 = any();
        let mut n = 0;
        while n <= 3 {
            let items = v[..n].to_vec();
            let mut hdr = 1;
            while hdr <= 3 {
                let mut out = vec![tail];
                match hdr {
                    1 => encode_vec_u8(&mut out, &items),
                    2 => encode_vec_u16(&mut out, &items),
                    _ => encode_vec_u24(&mut out, &items),
                }
                assert!(out.len() == 1 + hdr + 2 * n && out[0] == tail);
                assert!(out[hdr] as usize == 2 * n && (hdr < 2 || out[1] == 0) && (hdr < 3 || out[2] == 0));
                out.push(tail);
                let mut r = Reader::init(&out[1..]);
                let got: Option<Vec<u16>> = match hdr {
                    1 => read_vec_u8(&mut r),
                    2 => read_vec_u16(&mut r),
                    _ => read_vec_u24_limited(&mut r, 2 * n),
                };
                assert!(r.left() == 1);
                assert!(got.unwrap() == items);
                if hdr == 3 && n > 0 {
                    assert!(read_vec_u24_limited::<u16>(&mut Reader::init(&out[1..]), 2 * n - 1).is_none());
                }
                hdr += 1;
            }
            n += 1;
        }
        reach!(v[0] > v[1]);
    }
    fn vec_decode() unwind 12 {
        // Any bytes as a list of 16-bit items.
        let buf: [u8; 8] = any();
        let n = len(8);
        let which: u8 = any();
        let max: usize = any();
        let mut r = Reader::init(&buf[..n]);
        let (hdr, got): (usize, Option<Vec<u16>>) = match which % 3 {
            0 => (1, read_vec_u8(&mut r)),
            1 => (2, read_vec_u16(&mut r)),
            _ => (3, read_vec_u24_limited(&mut r, max)),
        };
        let mut want = 0usize;
        let mut i = 0;
        while i < hdr && i < n { want = want << 8 | buf[i] as usize; i += 1; }
        let ok = n >= hdr && want <= n - hdr && want % 2 == 0 && (hdr != 3 || want <= max);
        assert!(got.is_some() == ok);
        if let Some(v) = got {
            assert!(v.len() == want / 2 && r.used() == hdr + want);
            let mut i = 0;
            while i < v.len() {
                assert!(v[i] == (buf[hdr + 2 * i] as u16) << 8 | buf[hdr + 2 * i + 1] as u16);
                i += 1;
            }
        }
        reach!(ok && want == 4 && hdr == 3);
        reach!(ok && want == 6 && hdr == 1);
    }
    // ---------------------------------------------------------------- C02
    fn record_read() unwind 24 {
        let buf: [u8; 12] = any();
        let n = len(12);
        let mut r = Reader::init(&buf[..n]);
        let got = OpaqueMessage::read(&mut r);
        let used = r.used();
        if n < 5 {
            assert!(matches!(got, Err(MessageError::TooShortForHeader)));
            return;
        }
        let l = (buf[3] as usize) << 8 | buf[4] as usize;
        let known = (20..=24).contains(&buf[0]);
        let good = known && buf[1] == 3 && l < 16384 + 2048 && (l != 0 || buf[0] == 23);
        match got {
            Ok(m) => {
                assert!(good && l <= n - 5);
                assert!(used == 5 + l);
                let (t, v) = (m.typ.get_u8(), m.version.get_u16());
                assert!(t == buf[0] && v == (buf[1] as u16) << 8 | buf[2] as u16);
                assert!(m.payload.0.len() == l);
                let wire = m.encode();
                assert!(wire.len() == 5 + l);
                let i = idx(12);
                if i < 5 + l { assert!(wire[i] == buf[i]); }
            }
            Err(MessageError::TooShortForLength) => assert!(good && l > n - 5),
            Err(MessageError::TooShortForHeader) => assert!(false),
            Err(_) => assert!(!good),
        }
        reach!(good && l == 7 && n == 12);
        reach!(good && l == 0);
        reach!(good && l == 18431);
        reach!(!good && l == 18432);
    }
    fn record_encode() unwind 24 {
        let t: u8 = any();
        let v: u16 = any();
        let buf: [u8; 6] = any();
        let n = len(6);
        let m = PlainMessage { typ: ContentType::from(t), version: ProtocolVersion::from(v), payload: Payload(vec_of(&buf, n)) };
        let b = m.borrow();
        assert!(b.typ.get_u8() == t && b.version.get_u16() == v && b.payload == &buf[..n]);
        let o = m.clone().into_unencrypted_opaque();
        assert!(o.typ.get_u8() == t && o.version.get_u16() == v && o.payload.0[..] == buf[..n]);
        let back = o.clone().into_plain_message();
        assert!(back.typ.get_u8() == t && back.version.get_u16() == v && back.payload.0[..] == buf[..n]);
        let wire = o.encode();
        assert!(wire.len() == 5 + n && wire[0] == t && wire[1] == (v >> 8) as u8 && wire[2] == v as u8);
        assert!(wire[3] == 0 && wire[4] as usize == n && wire[5..] == buf[..n]);
        let mut r = Reader::init(&wire);
        let ok = (20..=24).contains(&t) && v >> 8 == 3 && (n > 0 || t == 23);
        assert!(OpaqueMessage::read(&mut r).is_ok() == ok);
        reach!(ok && n == 6);
    }
}
