//! C03: extraction of records from a byte stream, with the record payload limit reduced to 12
//! (so the deframer's buffer holds 16 bytes).
use tls_core::msgs::deframer::MessageDeframer;
use vk::{any, harnesses_m, idx, reach};

/// A reader that hands out `buf` in chunks of the given sizes (never more than asked for).
struct Chunks<'a> {
    buf: &'a [u8],
    pos: usize,
    next: usize,
}

impl std::io::Read for Chunks<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let k = self.next.min(out.len()).min(self.buf.len() - self.pos);
        out[..k].copy_from_slice(&self.buf[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

impl futures::AsyncRead for Chunks<'_> {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, out: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Ready(std::io::Read::read(&mut *self, out))
    }
}

/// One asynchronous read; the transport always has something to say.
fn read_async(d: &mut MessageDeframer, src: &mut Chunks<'_>) -> usize {
    let fut = std::pin::pin!(d.read_async(src));
    match std::future::Future::poll(fut, &mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(n) => n.unwrap(),
        std::task::Poll::Pending => panic!(),
    }
}

/// Reads `buf` in one or more calls, cutting after `a` and after `b` bytes.
fn feed(d: &mut MessageDeframer, buf: &[u8], a: usize, b: usize) {
    let mut src = Chunks { buf, pos: 0, next: a };
    if a > 0 {
        assert!(d.read(&mut src).unwrap() == a.min(16));
    }
    src.next = b;
    if b > 0 {
        assert!(d.read(&mut src).is_ok());
    }
    src.next = buf.len();
    while src.pos < src.buf.len() {
        let n = d.read(&mut src).unwrap();
        assert!(n > 0);
    }
}

/// A stream of records with the given payload lengths: application data, TLS 1.2, symbolic payload.
fn stream<const N: usize>(lens: &[usize]) -> [u8; N] {
    let mut s: [u8; N] = any();
    let mut pos = 0;
    for &l in lens {
        if pos + 5 <= N {
            s[pos] = 23;
            s[pos + 1] = 3;
            s[pos + 2] = 3;
            s[pos + 3] = 0;
            s[pos + 4] = l as u8;
        }
        pos += 5 + l;
    }
    s
}

fn expect(d: &MessageDeframer, s: &[u8], lens: &[usize], pending: bool) {
    assert!(d.frames.len() == lens.len());
    assert!(!d.desynced);
    assert!(d.has_pending() == (pending || !lens.is_empty()));
    let mut pos = 0;
    let mut k = 0;
    for &l in lens {
        let m = &d.frames[k];
        assert!(m.typ.get_u8() == s[pos] && m.version.get_u16() == 0x0303);
        assert!(m.payload.0.len() == l);
        if l > 0 {
            let i = idx(l);
            assert!(m.payload.0[i] == s[pos + 5 + i]);
        }
        pos += 5 + l;
        k += 1;
    }
}

/// A deframer whose output queue does not have to grow (growing it is the standard library's affair).
fn fresh() -> MessageDeframer {
    let mut d = MessageDeframer::new();
    d.frames = std::collections::VecDeque::with_capacity(8);
    d
}


/// Records of 2, 0 and 1 bytes and two bytes of a fourth.
const LENS: [usize; 4] = [2, 0, 1, 9];

fn cuts(range: &[(usize, usize)]) {
    let s: [u8; 20] = stream(&LENS);
    for &(a, b) in range {
        let mut d = fresh();
        feed(&mut d, &s, a, b);
        expect(&d, &s, &LENS[..3], true);
    }
    reach!(s[5] == 23 && s[6] == 3);
}

fn async_cuts(range: &[(usize, usize)]) {
    let s: [u8; 20] = stream(&LENS);
    for &(a, b) in range {
        let mut d = fresh();
        let mut src = Chunks { buf: &s, pos: 0, next: a };
        assert!(read_async(&mut d, &mut src) == a);
        src.next = b;
        assert!(read_async(&mut d, &mut src) == b);
        src.next = 20;
        while src.pos < 20 {
            assert!(read_async(&mut d, &mut src) > 0);
        }
        expect(&d, &s, &LENS[..3], true);
    }
    reach!(s[5] == 23 && s[6] == 3);
}

harnesses_m! {
    fn one_cut_0() unwind 6 { cuts(&[(1, 0), (2, 0), (3, 0), (4, 0)]) }
    fn one_cut_1() unwind 6 { cuts(&[(5, 0), (6, 0), (7, 0), (8, 0)]) }
    fn one_cut_2() unwind 6 { cuts(&[(9, 0), (10, 0), (11, 0), (12, 0)]) }
    fn one_cut_3() unwind 6 { cuts(&[(13, 0), (14, 0), (15, 0), (16, 0), (0, 0)]) }
    fn two_cuts_0() unwind 6 { cuts(&[(1, 1), (1, 5), (4, 1), (4, 9)]) }
    fn two_cuts_1() unwind 6 { cuts(&[(5, 1), (5, 7), (6, 1), (7, 5)]) }
    fn two_cuts_2() unwind 6 { cuts(&[(6, 8), (8, 9), (9, 4), (13, 6)]) }
    fn byte_by_byte() unwind 22 {
        let s: [u8; 13] = stream(&[2, 0, 9]);
        let mut d = fresh();
        for i in 0..13 {
            let mut src = Chunks { buf: &s[i..i + 1], pos: 0, next: 1 };
            assert!(d.read(&mut src).unwrap() == 1);
            assert!(d.frames.len() == (i >= 6) as usize + (i >= 11) as usize);
            assert!(d.has_pending());
        }
        expect(&d, &s, &[2, 0], true);
        reach!(s[5] == 1);
    }
    fn full_buffer() unwind 6 {
        // A record of the largest size fills the buffer exactly; reading it needs no more room.
        let s: [u8; 22] = stream(&[11, 1]);
        let mut d = fresh();
        let mut src = Chunks { buf: &s, pos: 0, next: 22 };
        let n = d.read(&mut src).unwrap();
        assert!(n >= 16);
        assert!(d.frames.len() == 1 && !d.desynced);
        while src.pos < 22 {
            assert!(d.read(&mut src).unwrap() > 0);
        }
        expect(&d, &s, &[11, 1], false);
        // end of stream: nothing more, nothing lost
        assert!(d.read(&mut src).unwrap() == 0);
        expect(&d, &s, &[11, 1], false);
        reach!(s[5] == 23);
    }
    fn empty_stream() unwind 6 {
        let mut d = fresh();
        let mut src = Chunks { buf: &[], pos: 0, next: 0 };
        assert!(d.read(&mut src).unwrap() == 0);
        assert!(!d.has_pending() && !d.desynced && d.frames.is_empty());
        reach!(!d.desynced);
    }
    fn any_type_version() unwind 3 {
        // One good record, then a header with arbitrary type and version, and its payload.
        let mut s: [u8; 13] = stream(&[1, 2]);
        let h: [u8; 3] = any();
        s[6] = h[0]; s[7] = h[1]; s[8] = h[2];
        let mut d = fresh();
        let mut src = Chunks { buf: &s, pos: 0, next: 13 };
        assert!(d.read(&mut src).unwrap() == 13);
        let good = (20..=24).contains(&h[0]) && h[1] == 3;
        assert!(d.desynced == !good);
        assert!(d.frames.len() == 1 + good as usize);
        assert!(d.frames[0].payload.0.len() == 1 && d.frames[0].payload.0[0] == s[5]);
        if good {
            let m = &d.frames[1];
            assert!(m.typ.get_u8() == h[0] && m.version.get_u16() == 0x0300 | h[2] as u16);
            assert!(m.payload.0.len() == 2 && m.payload.0[0] == s[11] && m.payload.0[1] == s[12]);
        }
        reach!(good);
        reach!(h[0] == 25);
        reach!(h[1] == 2);
    }
    fn bad_length() unwind 3 {
        // A good record, then a header announcing too much, or nothing for a handshake record; then more bytes.
        let mut s: [u8; 14] = stream(&[1]);
        let (l, t): (u16, u8) = (any(), any());
        vk::assume((t == 22 && l == 0) || (t == 23 && l >= 12));
        s[6] = t; s[7] = 3; s[8] = 3; s[9] = (l >> 8) as u8; s[10] = l as u8;
        let mut d = fresh();
        let mut src = Chunks { buf: &s, pos: 0, next: 11 };
        assert!(d.read(&mut src).unwrap() == 11);
        assert!(d.desynced);
        assert!(d.frames.len() == 1 && d.frames[0].payload.0[0] == s[5]);
        reach!(t == 22);
        reach!(l == 12);
    }
    fn stays_desynced() unwind 6 {
        // After a malformed header nothing is produced, even if good records follow.
        let mut s: [u8; 15] = stream(&[0, 0, 0]);
        s[5] = 99;
        let mut d = fresh();
        let mut src = Chunks { buf: &s, pos: 0, next: 10 };
        assert!(d.read(&mut src).unwrap() == 10);
        assert!(d.desynced && d.frames.len() == 1 && d.has_pending());
        src.next = 5;
        let _ = d.read(&mut src);
        assert!(d.desynced && d.frames.len() == 1);
        reach!(d.desynced);
    }
    fn async_cut_0() unwind 6 { async_cuts(&[(1, 4), (4, 6), (6, 1)]) }
    fn async_cut_1() unwind 6 { async_cuts(&[(7, 5), (8, 9), (9, 3), (13, 3)]) }
    fn async_bad() unwind 6 {
        for (typ, ver, len) in [(25u8, 3u8, 2u8), (19, 3, 2), (23, 2, 2), (23, 3, 12), (22, 3, 0)] {
            let mut s: [u8; 13] = stream(&[1, 2]);
            s[6] = typ; s[7] = ver; s[10] = len;
            let mut d = fresh();
            let mut src = Chunks { buf: &s, pos: 0, next: 13 };
            assert!(read_async(&mut d, &mut src) == 13);
            assert!(d.desynced && d.frames.len() == 1);
            assert!(d.frames[0].payload.0.len() == 1 && d.frames[0].payload.0[0] == s[5]);
            reach!(s[5] == 9);
        }
    }
    fn async_empty_stream() unwind 6 {
        let mut d = fresh();
        let mut src = Chunks { buf: &[], pos: 0, next: 0 };
        assert!(read_async(&mut d, &mut src) == 0);
        assert!(!d.has_pending() && !d.desynced && d.frames.is_empty());
        reach!(!d.desynced);
    }
}
