//! Interface to the C run-time of the simulator (rt.c).
use serde::{Deserialize, Serialize};
use std::os::raw::{c_char, c_int};

#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sw {
    /// callbacks thread `from` had made when it was switched away from
    pub ev: u64,
    pub from: c_int,
    pub to: c_int,
    pub forced: c_int,
}
extern "C" {
    pub fn rt_setup(threads: c_int, mode: c_int, seed: u64, p: f64, pts: *const u64, npts: c_int, r: *const Sw, nr: c_int, limit: u64, wall: u64, psp: f64, psh: f64, pei: f64);
    pub fn rt_enter(t: c_int, entropy: u64);
    pub fn rt_leave();
    pub fn rt_go();
    pub fn rt_wait() -> c_int;
    pub fn rt_stamp() -> u64;
    pub fn rt_work(ns: u64);
    pub fn rt_point();
    fn rt_output(p: *mut *const c_char) -> usize;
    pub fn rt_output_reset();
    fn rt_events(ev: *mut u64, iv: *mut u64);
    fn rt_log(p: *mut *const Sw) -> c_int;
    fn rt_counts(o: *mut u64);
    pub fn rt_solo(entropy: u64, wall: u64, limit: u64);
    pub fn rt_final();
}
pub fn stamp() -> u64 {
    unsafe { rt_stamp() }
}
/// what this thread printed since the last call
pub fn take_output() -> String {
    unsafe {
        let mut p: *const c_char = std::ptr::null();
        let n = rt_output(&mut p);
        let s = if n == 0 { String::new() } else { String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() };
        rt_output_reset();
        s
    }
}
pub fn events() -> (u64, u64) {
    let (mut a, mut b) = (0, 0);
    unsafe { rt_events(&mut a, &mut b) };
    (a, b)
}
pub fn log() -> Vec<Sw> {
    unsafe {
        let mut p: *const Sw = std::ptr::null();
        let n = rt_log(&mut p);
        std::slice::from_raw_parts(p, n as usize).to_vec()
    }
}
pub fn counts() -> [u64; 6] {
    let mut o = [0; 6];
    unsafe { rt_counts(o.as_mut_ptr()) };
    o
}
