//! Interface to the symbolic executor; with feature `native` the same calls replay a concrete input vector.
#[cfg(not(feature = "native"))]
mod raw {
    unsafe extern "C" {
        pub fn rv_bool() -> bool;
        pub fn rv_u8() -> u8;
        pub fn rv_u16() -> u16;
        pub fn rv_u32() -> u32;
        pub fn rv_u64() -> u64;
        pub fn rv_f32() -> f32;
        pub fn rv_range(lo: u32, hi: u32) -> u32;
        pub fn rv_case(n: u32) -> u32;
        pub fn rv_assume(c: bool);
        pub fn rv_check(c: bool, id: u32);
        pub fn rv_cover(c: bool, id: u32);
        pub fn rv_observe(v: u64);
        pub fn rv_policy(p: u32);
        pub fn rv_concretize(v: u64) -> u64;
    }
}
#[cfg(feature = "native")]
pub mod raw {
    use std::sync::Mutex;
    static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
    static FAILED: Mutex<Vec<u32>> = Mutex::new(Vec::new());
    /// # Safety
    /// `p` points at `n` values
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn rv_set_inputs(p: *const u64, n: usize) {
        let v = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
        *INPUTS.lock().unwrap() = (v, 0);
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn rv_finish() -> u32 {
        FAILED.lock().unwrap().len() as u32
    }
    fn next() -> u64 {
        let mut g = INPUTS.lock().unwrap();
        let i = g.1;
        g.1 += 1;
        g.0.get(i).copied().unwrap_or(0)
    }
    pub unsafe fn rv_bool() -> bool {
        next() != 0
    }
    pub unsafe fn rv_u8() -> u8 {
        next() as u8
    }
    pub unsafe fn rv_u16() -> u16 {
        next() as u16
    }
    pub unsafe fn rv_u32() -> u32 {
        next() as u32
    }
    pub unsafe fn rv_u64() -> u64 {
        next()
    }
    pub unsafe fn rv_f32() -> f32 {
        f32::from_bits(next() as u32)
    }
    pub unsafe fn rv_range(_lo: u32, _hi: u32) -> u32 {
        next() as u32
    }
    pub unsafe fn rv_case(_n: u32) -> u32 {
        next() as u32
    }
    pub unsafe fn rv_assume(c: bool) {
        if !c {
            eprintln!("RV_ASSUME_FAIL");
            std::process::exit(102);
        }
    }
    pub unsafe fn rv_check(c: bool, id: u32) {
        if !c {
            eprintln!("RV_CHECK_FAIL {id}");
            FAILED.lock().unwrap().push(id);
        }
    }
    pub unsafe fn rv_cover(c: bool, id: u32) {
        if c {
            println!("RV_COVER {id}");
        }
    }
    pub unsafe fn rv_observe(v: u64) {
        println!("RV_OBS {v}");
    }
    pub unsafe fn rv_policy(_p: u32) {}
    pub unsafe fn rv_concretize(v: u64) -> u64 {
        v
    }
}

pub fn boolean() -> bool {
    unsafe { raw::rv_bool() }
}
pub fn u8() -> u8 {
    unsafe { raw::rv_u8() }
}
pub fn u16() -> u16 {
    unsafe { raw::rv_u16() }
}
pub fn u32() -> u32 {
    unsafe { raw::rv_u32() }
}
pub fn u64() -> u64 {
    unsafe { raw::rv_u64() }
}
pub fn f32() -> f32 {
    unsafe { raw::rv_f32() }
}
/// symbolic value in lo..=hi
pub fn range(lo: u32, hi: u32) -> u32 {
    unsafe { raw::rv_range(lo, hi) }
}
/// one concrete branch of the exploration per value in 0..n
pub fn case(n: u32) -> u32 {
    unsafe { raw::rv_case(n) }
}
pub fn assume(c: bool) {
    unsafe { raw::rv_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { raw::rv_check(c, id) }
}
pub fn cover(c: bool, id: u32) {
    unsafe { raw::rv_cover(c, id) }
}
pub fn obs(v: u64) {
    unsafe { raw::rv_observe(v) }
}
pub fn policy(p: u32) {
    unsafe { raw::rv_policy(p) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::rv_concretize(v) }
}
