//! C04: reassembly of handshake messages from handshake records.
use std::{collections::VecDeque, mem::ManuallyDrop};
use tls_core::msgs::{base::Payload, codec::*, enums::*, handshake::*, hsjoiner::HandshakeJoiner, message::*};
use vk::{any, assume, harnesses_m, idx, reach};

/// A joiner whose queue does not have to grow, and that is not dropped at the end (the destructor of
/// every possible message type is only a cost here).
fn fresh() -> ManuallyDrop<HandshakeJoiner> {
    let mut j = HandshakeJoiner::new();
    j.frames = VecDeque::with_capacity(8);
    ManuallyDrop::new(j)
}

fn record(b: &[u8]) -> PlainMessage {
    // spare capacity: a slice that ends where its allocation ends costs the solver its constants
    let mut v = Vec::with_capacity(32);
    v.extend_from_slice(b);
    PlainMessage { typ: ContentType::Handshake, version: ProtocolVersion::TLSv1_2, payload: Payload(v) }
}

/// A stream of Finished (type 20) messages with the given body lengths and symbolic bodies.
fn stream<const N: usize>(lens: &[usize]) -> [u8; N] {
    let mut s: [u8; N] = any();
    let mut pos = 0;
    for &l in lens {
        let head = [20, 0, 0, l as u8];
        for i in 0..4 {
            if pos + i < N {
                s[pos + i] = head[i];
            }
        }
        pos += 4 + l;
    }
    s
}

fn expect(j: &HandshakeJoiner, s: &[u8], lens: &[usize]) {
    assert!(j.frames.len() == lens.len());
    let (mut pos, mut k) = (0, 0);
    for &l in lens {
        let m = &j.frames[k];
        assert!(m.version == ProtocolVersion::TLSv1_2);
        match &m.payload {
            MessagePayload::Handshake(h) => {
                assert!(h.typ == HandshakeType::Finished);
                match &h.payload {
                    HandshakePayload::Finished(p) => {
                        assert!(p.0.len() == l);
                        if l > 0 {
                            let i = idx(l);
                            assert!(p.0[i] == s[pos + 4 + i]);
                        }
                    }
                    _ => assert!(false, "another payload"),
                }
            }
            _ => assert!(false, "not a handshake message"),
        }
        pos += 4 + l;
        k += 1;
    }
}

/// Messages of 0, 2 and 1 bytes and five bytes of a fourth: 4 + 6 + 5 + 5 bytes.
const LENS: [usize; 4] = [0, 2, 1, 9];
const ENDS: [usize; 3] = [4, 10, 15];

fn complete(n: usize) -> usize {
    (n >= ENDS[0]) as usize + (n >= ENDS[1]) as usize + (n >= ENDS[2]) as usize
}

fn cuts(range: &[(usize, usize)]) {
    let s: [u8; 20] = stream(&LENS);
    for &(a, b) in range {
        let mut j = fresh();
        assert!(j.take_message(record(&s[..a])) == Some(complete(a)));
        assert!(j.frames.len() == complete(a));
        assert!(j.is_empty() == (a == 0 || ENDS.contains(&a)));
        assert!(j.take_message(record(&s[a..b])) == Some(complete(b) - complete(a)));
        if b < 20 {
            assert!(j.take_message(record(&s[b..])) == Some(3 - complete(b)));
        }
        expect(&j, &s, &LENS[..3]);
        assert!(!j.is_empty());
    }
    reach!(s[8] == 20 && s[9] == 7);
}

/// One message of type `t` whose body announces and has `l` symbolic bytes, then a complete Finished.
fn one<const N: usize>(t: u8, s: &mut [u8; N]) -> (Option<usize>, ManuallyDrop<HandshakeJoiner>) {
    s[0] = t;
    s[1] = 0;
    s[2] = 0;
    s[3] = (N - 4) as u8;
    let mut j = fresh();
    let r = j.take_message(record(s));
    (r, j)
}

/// A message parser that refuses everything: for streams in which no message is complete.
pub fn refuse(_r: &mut Reader, _v: ProtocolVersion) -> Option<HandshakeMessagePayload> {
    None
}

harnesses_m! {

    fn cut_0() unwind 6 { cuts(&[(1, 20), (3, 20)]) }
    fn cut_1() unwind 6 { cuts(&[(4, 20), (5, 20)]) }
    fn cut_2() unwind 6 { cuts(&[(7, 20), (9, 20)]) }
    fn cut_3() unwind 6 { cuts(&[(10, 20), (12, 20)]) }
    fn cut_4() unwind 6 { cuts(&[(15, 20), (17, 20)]) }
    fn cut_5() unwind 6 { cuts(&[(3, 12), (5, 11)]) }
    fn cut_6() unwind 6 { cuts(&[(4, 10), (8, 9)]) }
    fn more_0() unwind 6 { cuts(&[(0, 20), (2, 20), (6, 20)]) }
    fn more_1() unwind 6 { cuts(&[(8, 20), (11, 20), (13, 20)]) }
    fn more_2() unwind 6 { cuts(&[(14, 20), (16, 20), (18, 20)]) }
    fn more_3() unwind 6 { cuts(&[(19, 20), (20, 20), (1, 2)]) }
    fn more_4() unwind 6 { cuts(&[(1, 5), (3, 6), (4, 7)]) }
    fn more_5() unwind 6 { cuts(&[(5, 6), (6, 10), (6, 13)]) }
    fn more_6() unwind 6 { cuts(&[(10, 14), (8, 15), (15, 19)]) }
    fn byte_by_byte() unwind 16 {
        let s: [u8; 13] = stream(&[2, 0, 9]);
        let mut j = fresh();
        for i in 0..13 {
            let r = j.take_message(record(&s[i..i + 1]));
            assert!(r == Some((i == 5 || i == 9) as usize));
            assert!(j.frames.len() == (i >= 5) as usize + (i >= 9) as usize);
            assert!(j.is_empty() == (i == 5 || i == 9));
        }
        expect(&j, &s, &[2, 0]);
        reach!(s[4] == 1);
    }
    #[kani::stub(tls_core::msgs::handshake::HandshakeMessagePayload::read_version, refuse)]
    fn too_large() unwind 6 {
        // Any announced length above 65535 is an error at once, and nothing is delivered from then on.
        let mut s: [u8; 8] = any();
        s[0] = 20;
        assume(s[1] != 0);
        let good: [u8; 4] = [14, 0, 0, 0];
        let mut j = fresh();
        assert!(j.take_message(record(&s[..3])) == Some(0));
        assert!(j.take_message(record(&s[3..])).is_none());
        assert!(j.frames.is_empty());
        assert!(j.take_message(record(&good)).is_none());
        assert!(j.frames.is_empty());
        reach!(s[1] == 1 && s[2] == 0 && s[3] == 0);
    }
    #[kani::stub(tls_core::msgs::handshake::HandshakeMessagePayload::read_version, refuse)]
    fn not_early() unwind 6 {
        // Announced lengths up to 65535 beyond the bytes at hand: nothing yet, no error.
        let mut s: [u8; 8] = any();
        s[0] = 20;
        assume(s[1] == 0 && (s[2] != 0 || s[3] > 4));
        let mut j = fresh();
        assert!(j.take_message(record(&s)) == Some(0));
        assert!(j.frames.is_empty() && !j.is_empty());
        reach!(s[2] == 255 && s[3] == 255);
        reach!(s[2] == 0 && s[3] == 5);
    }
    fn unparsable() unwind 6 {
        // A done message with a body is corrupt, and so are the types that never appear on the wire.
        let b: [u8; 2] = any();
        let mut s = [0, 0, 0, 0, b[0], b[1]];
        let (r, j) = one(14, &mut s);
        assert!(r.is_none() && j.frames.is_empty());
        let (r, j) = one(254, &mut s);
        assert!(r.is_none() && j.frames.is_empty());
        let (r, j) = one(6, &mut s);
        assert!(r.is_none() && j.frames.is_empty());
        reach!(b[0] == 0);
    }
    fn corrupt_second() unwind 6 {
        // A good message followed by a corrupt one: error, the good one stays, nothing else is delivered.
        let b: u8 = any();
        let s = [20, 0, 0, 1, b, 14, 0, 0, 1, b, 20, 0, 0, 0];
        let mut j = fresh();
        assert!(j.take_message(record(&s)).is_none());
        assert!(j.frames.len() == 1);
        assert!(j.take_message(record(&s[10..])).is_none());
        expect(&j, &s, &[1]);
        reach!(b == 0);
    }
    fn want() unwind 6 {
        let t: u8 = any();
        let m = PlainMessage { typ: ContentType::from(t), version: ProtocolVersion::TLSv1_2, payload: Payload(Vec::new()) };
        assert!(HandshakeJoiner::new().want_message(&m) == (t == 22));
        reach!(t == 22);
        reach!(t == 23);
    }
}
