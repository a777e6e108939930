//! Thin layer over Kani's API so that one harness body serves both the solver (`cfg(kani)`) and the
//! native replay of a counterexample (stable rustc, dev and release).
//!
//! Under Kani `any` is `kani::any`; natively it pops the concrete byte chunks that Kani's concrete
//! playback printed, in the same order.

#![cfg_attr(kani, feature(allocator_api))]
#[cfg(kani)]
pub use imp_kani::*;
#[cfg(not(kani))]
pub use imp_native::*;

#[cfg(kani)]
mod imp_kani {
    pub trait Any: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Any for T {}
    #[inline(always)]
    pub fn any<T: Any>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp_native {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
        static SHORT: RefCell<bool> = const { RefCell::new(false) };
    }

    pub const ASSUME_FAILED: &str = "VK-ASSUME-FAILED";
    pub const REACHED: &str = "VK-COVER-REACHED";

    pub fn set_vals(v: Vec<Vec<u8>>) {
        VALS.with(|x| *x.borrow_mut() = v.into());
    }

    fn pop(n: usize) -> Vec<u8> {
        VALS.with(|x| match x.borrow_mut().pop_front() {
            Some(v) if v.len() == n => v,
            Some(v) => panic!("{ASSUME_FAILED}: chunk of {} bytes where {n} are wanted", v.len()),
            // Kani leaves out trailing values the property does not depend on.
            None => vec![0; n],
        })
    }

    pub trait Any {
        fn any() -> Self;
    }
    macro_rules! prim { ($($t:ty),*) => {$(
        impl Any for $t { fn any() -> Self { <$t>::from_le_bytes(pop(size_of::<$t>()).try_into().unwrap()) } }
    )*} }
    prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Any for bool {
        fn any() -> Self {
            match pop(1)[0] {
                0 => false,
                1 => true,
                _ => panic!("{ASSUME_FAILED}: bool"),
            }
        }
    }
    impl<T: Any, const N: usize> Any for [T; N] {
        fn any() -> Self {
            std::array::from_fn(|_| T::any())
        }
    }
    pub fn any<T: Any>() -> T {
        T::any()
    }
    pub fn assume(c: bool) {
        if !c {
            panic!("{ASSUME_FAILED}");
        }
    }

    /// `replay HARNESS FILE`
    pub fn replay_args(mods: &[(&str, &[(&str, fn())])]) -> i32 {
        let a: Vec<String> = std::env::args().collect();
        let text = std::fs::read_to_string(&a[2]).unwrap();
        let mut all: Vec<(String, fn())> = Vec::new();
        for (m, hs) in mods {
            for (n, f) in hs.iter() {
                all.push((format!("{m}::{n}"), *f));
            }
        }
        let v: Vec<(&str, fn())> = all.iter().map(|(n, f)| (n.as_str(), *f)).collect();
        replay(&a[1], &text, &v)
    }

    /// Runs one harness body on the values in `text` (one line per value, hex bytes).
    pub fn replay(name: &str, text: &str, harnesses: &[(&str, fn())]) -> i32 {
        let mut vals = Vec::new();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            vals.push(
                (0..l.len() / 2)
                    .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                    .collect(),
            );
        }
        let Some((_, f)) = harnesses.iter().find(|(n, _)| *n == name) else {
            eprintln!("no harness {name}");
            return 3;
        };
        set_vals(vals);
        match std::panic::catch_unwind(|| f()) {
            Ok(()) => {
                println!("REPLAY-PASSED {name}");
                0
            }
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                if msg.contains(ASSUME_FAILED) {
                    println!("REPLAY-ASSUME {name}");
                    0
                } else {
                    println!("REPLAY-FAILED {name}: {msg}");
                    1
                }
            }
        }
    }
}

/// Reachability witness: must be satisfiable under Kani; no effect natively.
#[macro_export]
macro_rules! reach {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::cover!($c);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// A length in `0..=max` (inclusive).
#[inline(always)]
pub fn len(max: usize) -> usize {
    let n: usize = any();
    assume(n <= max);
    n
}

/// An index below `n`.
#[inline(always)]
pub fn idx(n: usize) -> usize {
    let i: usize = any();
    assume(i < n);
    i
}

/// Declares harnesses: each is a Kani proof under `cfg(kani)` and an entry of `HARNESSES` natively.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() unwind $u:literal $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            $(#[cfg_attr(kani, $m)])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const HARNESSES: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// `harnesses!` with the element-wise copy models of [`models`] in place of memcpy/memmove.
#[macro_export]
macro_rules! harnesses_m {
    ($( $(#[$m:meta])* fn $name:ident() unwind $u:literal $body:block )*) => {
        $crate::harnesses! { $(
            #[kani::stub(core::ptr::copy, vk::models::copy)]
            #[kani::stub(core::ptr::copy_nonoverlapping, vk::models::copy_nonoverlapping)]
            $(#[$m])*
            fn $name() unwind $u $body
        )* }
    };
}

/// Element-wise models of the two bulk copies, for CBMC: they keep constants constant, which its
/// memcpy/memmove models do not. Same contract as `core::ptr::{copy, copy_nonoverlapping}`.
/// Sixteen elements per loop iteration, so that a small unwinding bound suffices.
pub mod models {
    use core::mem::MaybeUninit;

    macro_rules! sixteen { ($i:ident, $count:expr, $e:expr) => {
        while $i < $count {
            sixteen!(@ $i, $count, $e; 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0);
        }
    }; (@ $i:ident, $count:expr, $e:expr; $($z:tt)*) => { $( if $i < $count { let _ = $z; $e; $i += 1; } )* } }

    pub unsafe fn copy<T>(src: *const T, dst: *mut T, count: usize) {
        // at most 64 elements; a longer copy fails the assertion and so is never silently cut
        assert!(count <= 64);
        unsafe {
            let mut tmp: [MaybeUninit<T>; 64] = [const { MaybeUninit::uninit() }; 64];
            let mut i = 0;
            sixteen!(i, count, tmp[i].write(src.add(i).read()));
            let mut j = 0;
            sixteen!(j, count, dst.add(j).write(tmp[j].assume_init_read()));
        }
    }
    pub unsafe fn copy_nonoverlapping<T>(src: *const T, dst: *mut T, count: usize) {
        unsafe {
            let mut i = 0;
            sixteen!(i, count, dst.add(i).write(src.add(i).read()));
        }
    }
}

/// A model of `std::collections::HashSet` for sets that only grow: the elements are kept in a list and
/// compared with `Eq`. One live set at a time; `new` starts a new one.
#[cfg(kani)]
pub mod hashset {
    use std::alloc::Allocator;
    use std::collections::HashSet;
    use std::hash::{BuildHasher, Hash, RandomState};
    const MAX: usize = 8;
    static mut ITEMS: [*const u8; MAX] = [core::ptr::null(); MAX];
    static mut N: usize = 0;

    pub fn new<T>() -> HashSet<T, RandomState> {
        unsafe {
            N = 0;
            HashSet::with_hasher(core::mem::transmute::<[u64; 2], RandomState>([1, 2]))
        }
    }
    pub fn with_capacity<T>(_: usize) -> HashSet<T, RandomState> {
        new()
    }
    fn find<T: Eq>(v: &T) -> bool {
        unsafe {
            let mut i = 0;
            let mut hit = false;
            while i < N {
                hit |= *(ITEMS[i] as *const T) == *v;
                i += 1;
            }
            hit
        }
    }
    /// The generic parameters have to come in the same two groups as those of the original.
    pub struct Model<T, S, A>(core::marker::PhantomData<(T, S, A)>);
    impl<T: Eq + Hash, S: BuildHasher, A: Allocator> Model<T, S, A> {
        pub fn contains<Q: ?Sized>(_: &HashSet<T, S, A>, v: &Q) -> bool
        where
            T: core::borrow::Borrow<Q>,
            Q: Hash + Eq,
        {
            unsafe {
                let mut i = 0;
                let mut hit = false;
                while i < N {
                    hit |= *(*(ITEMS[i] as *const T)).borrow() == *v;
                    i += 1;
                }
                hit
            }
        }
    }
    pub fn insert<T: Eq + Hash, S: BuildHasher, A: Allocator>(_: &mut HashSet<T, S, A>, v: T) -> bool {
        unsafe {
            if find(&v) {
                return false;
            }
            assert!(N < MAX);
            ITEMS[N] = Box::into_raw(Box::new(v)) as *const u8;
            N += 1;
            true
        }
    }
}
