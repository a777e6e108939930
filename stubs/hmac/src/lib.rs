//! Stands in for the `hmac` crate. Natively it is the `hmac` crate. Under Kani HMAC is an uninterpreted
//! function of (key, message): the output is arbitrary, but equal for equal arguments.
#[cfg(not(kani))]
pub use real::*;

#[cfg(kani)]
pub use model::*;

#[cfg(kani)]
mod model {
    use core::marker::PhantomData;

    /// Longest key and message.
    const MAX: usize = 56;
    const CALLS: usize = 24;

    #[derive(Clone, Copy)]
    struct Call {
        kl: usize,
        ml: usize,
        key: [u8; MAX],
        msg: [u8; MAX],
        out: [u8; 32],
    }
    static mut CALLED: [Call; CALLS] = [Call { kl: 0, ml: 0, key: [0; MAX], msg: [0; MAX], out: [0; 32] }; CALLS];
    static mut N: usize = 0;

    #[derive(Debug)]
    pub struct InvalidLength;
    pub mod digest {
        pub use super::InvalidLength;
    }

    #[derive(Clone)]
    pub struct Hmac<D> {
        kl: usize,
        ml: usize,
        key: [u8; MAX],
        msg: [u8; MAX],
        d: PhantomData<D>,
    }
    pub type SimpleHmac<D> = Hmac<D>;

    pub struct CtOutput([u8; 32]);
    impl CtOutput {
        pub fn into_bytes(self) -> [u8; 32] {
            self.0
        }
    }

    pub trait Mac: Sized + Clone {
        fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength>;
        fn update(&mut self, data: &[u8]);
        fn finalize(self) -> CtOutput;
        fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
            self.update(data.as_ref());
            self
        }
        fn finalize_reset(&mut self) -> CtOutput;
        fn reset(&mut self);
    }

    fn eq(a: &[u8; MAX], b: &[u8; MAX], n: usize) -> bool {
        let mut i = 0;
        let mut same = true;
        while i < n {
            same &= a[i] == b[i];
            i += 1;
        }
        same
    }

    impl<D: Clone> Mac for Hmac<D> {
        fn new_from_slice(k: &[u8]) -> Result<Self, InvalidLength> {
            let mut h = Hmac { kl: k.len(), ml: 0, key: [0; MAX], msg: [0; MAX], d: PhantomData };
            assert!(k.len() <= MAX, "model: key too long");
            let mut i = 0;
            while i < k.len() {
                h.key[i] = k[i];
                i += 1;
            }
            Ok(h)
        }
        fn update(&mut self, data: &[u8]) {
            assert!(self.ml + data.len() <= MAX, "model: message too long");
            let mut i = 0;
            while i < data.len() {
                self.msg[self.ml] = data[i];
                self.ml += 1;
                i += 1;
            }
        }
        fn finalize(self) -> CtOutput {
            unsafe {
                let fresh: [u8; 32] = kani::any();
                let mut out = fresh;
                let mut i = 0;
                let mut hit = false;
                while i < N {
                    let c = &CALLED[i];
                    if c.kl == self.kl && c.ml == self.ml {
                        if !hit && eq(&c.key, &self.key, self.kl) && eq(&c.msg, &self.msg, self.ml) {
                            hit = true;
                            out = c.out;
                        }
                    }
                    i += 1;
                }
                assert!(N < CALLS, "model: too many calls");
                CALLED[N] = Call { kl: self.kl, ml: self.ml, key: self.key, msg: self.msg, out };
                N += 1;
                CtOutput(out)
            }
        }
        fn finalize_reset(&mut self) -> CtOutput {
            let c = self.clone();
            self.ml = 0;
            c.finalize()
        }
        fn reset(&mut self) {
            self.ml = 0;
        }
    }
}
