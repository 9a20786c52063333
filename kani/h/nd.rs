//! Nondeterministic inputs.
//!
//! Under Kani every call is a fresh symbolic value.  Natively (replay) every call takes the next
//! value of the counterexample the solver returned, so the same harness code runs on concrete inputs.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 {
        kani::any()
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        kani::any()
    }
    #[inline(always)]
    pub fn bool() -> bool {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        pub static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    /// Sets the values to replay.
    pub fn load(v: Vec<Vec<u8>>) {
        VALS.with(|x| *x.borrow_mut() = v.into_iter().collect());
    }
    fn next(n: usize) -> Vec<u8> {
        let v = VALS.with(|v| v.borrow_mut().pop_front());
        let mut v = v.unwrap_or_default();
        if v.len() != n && !v.is_empty() {
            println!("REPLAY-MISALIGNED");
            std::process::exit(43);
        }
        v.resize(n, 0);
        v
    }
    pub fn u8() -> u8 {
        next(1)[0]
    }
    pub fn u64() -> u64 {
        let v = next(8);
        let mut b = [0u8; 8];
        b.copy_from_slice(&v);
        u64::from_le_bytes(b)
    }
    pub fn bool() -> bool {
        next(1)[0] & 1 == 1
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUMPTION-FAILED");
            std::process::exit(42);
        }
    }
}

pub use imp::*;

/// A value in `0..n`.
#[inline(always)]
pub fn below(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}

/// A `u64` in `lo..=hi`, symbolic over 8 bits only.
#[inline(always)]
pub fn in_range(lo: u64, hi: u64) -> u64 {
    let x = u8() as u64;
    assume(x >= lo && x <= hi);
    x
}

/// Reachability witness: must be satisfiable in every harness that declares it.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            if $c {
                println!("WITNESS: {}", $m);
            }
        }
    };
}

/// A proof harness: tier, unwinding bound, name, stubs (Kani only), body.
#[macro_export]
macro_rules! harness {
    ($(#[doc = $d:literal])* $tier:ident $unw:literal $name:ident [$($o:path => $s:path),* $(,)?] $body:block) => {
        $(#[doc = $d])*
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unw))]
        $(#[cfg_attr(kani, kani::stub($o, $s))])*
        pub fn $name() $body
    };
}
