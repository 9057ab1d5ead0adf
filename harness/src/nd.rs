//! Nondeterministic input.  Under Kani every draw is a fresh symbolic variable.  Natively the
//! draws are read back, in order, from a counterexample the solver produced, so that the very
//! same harness body replays the counterexample against the real build.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 {
        kani::any()
    }
    #[inline(always)]
    pub fn u16() -> u16 {
        kani::any()
    }
    #[inline(always)]
    pub fn u32() -> u32 {
        kani::any()
    }
    #[inline(always)]
    pub fn u64() -> u64 {
        kani::any()
    }
    #[inline(always)]
    pub fn u128() -> u128 {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// Reachability witness: the end of the harness is reached for some input.
    #[inline(always)]
    pub fn done() {
        kani::cover!(true, "end of harness reached");
    }
    #[inline(always)]
    pub fn quiet() {}
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    /// Exit code of a replay whose input violates an assumption of the harness.
    pub const EXIT_ASSUME: i32 = 77;
    /// Exit code of a replay whose input does not fit the draws the harness makes.
    pub const EXIT_INPUT: i32 = 78;

    thread_local! {
        static INPUT: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
        static DONE: RefCell<u32> = const { RefCell::new(0) };
    }

    pub fn load(vals: Vec<Vec<u8>>) {
        INPUT.with(|i| *i.borrow_mut() = vals.into());
    }

    pub fn left() -> usize {
        INPUT.with(|i| i.borrow().len())
    }

    pub fn dones() -> u32 {
        DONE.with(|d| *d.borrow())
    }

    fn pop<const N: usize>() -> [u8; N] {
        let v = INPUT.with(|i| i.borrow_mut().pop_front());
        match v {
            // Draws the solver's trace does not mention are irrelevant to the failure.
            None => [0; N],
            Some(v) => match <[u8; N]>::try_from(v.as_slice()) {
                Ok(a) => a,
                Err(_) => {
                    eprintln!("replay: draw of {N} bytes, input has {}", v.len());
                    std::process::exit(EXIT_INPUT)
                }
            },
        }
    }

    pub fn u8() -> u8 {
        u8::from_le_bytes(pop())
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(pop())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(pop())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(pop())
    }
    pub fn u128() -> u128 {
        u128::from_le_bytes(pop())
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("replay: input violates an assumption");
            std::process::exit(EXIT_ASSUME)
        }
    }
    pub fn done() {
        DONE.with(|d| *d.borrow_mut() += 1);
    }
}

pub use imp::*;

#[inline(always)]
pub fn flag() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}

/// A symbolic number below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let b = u8() as usize;
    assume(b < n);
    b
}
