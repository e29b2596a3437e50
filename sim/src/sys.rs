//! The few system calls needed: fatal signals become reported failures, a CPU-time limit per run
//! turns endless loops into reported failures, and address randomisation is switched off.
use std::os::raw::{c_int, c_ulong, c_void};

#[repr(C)]
struct SigAction {
    handler: extern "C" fn(c_int),
    mask: [u64; 16],
    flags: c_int,
    restorer: *mut c_void,
}
#[repr(C)]
struct ITimer {
    interval: [i64; 2],
    value: [i64; 2],
}
extern "C" {
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut c_void) -> c_int;
    fn setitimer(which: c_int, new: *const ITimer, old: *mut c_void) -> c_int;
    fn personality(p: c_ulong) -> c_int;
    fn setrlimit(what: c_int, l: *const [u64; 2]) -> c_int;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn mallopt(param: c_int, value: c_int) -> c_int;
}
const SA_ONSTACK: c_int = 0x0800_0000;
const SA_NODEFER: c_int = 0x4000_0000;

extern "C" fn on_signal(sig: c_int) {
    static ONCE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    if ONCE.swap(true, std::sync::atomic::Ordering::SeqCst) {
        // failed while reporting
        unsafe { crate::ctx::_exit(100 + sig) }
    }
    match sig {
        26 => crate::ctx::fatal("no-progress", "call did not finish (CPU time limit)".into()),
        12 => crate::ctx::fatal("no-progress", "call never returns: every thread waits for ever".into()),
        6 => crate::ctx::fatal("crash", "process aborted (panic that cannot unwind)".into()),
        _ => crate::ctx::fatal("crash", format!("memory fault (signal {sig})")),
    }
}

pub fn install_handlers() {
    for sig in [4, 6, 7, 8, 11, 12, 26] {
        let a = SigAction { handler: on_signal, mask: [0; 16], flags: SA_ONSTACK | SA_NODEFER, restorer: std::ptr::null_mut() };
        unsafe {
            sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

/// All threads use one heap, so that addresses (printed by exports with `BoxStorage`) always have
/// the same number of digits.
pub fn one_heap() {
    unsafe {
        mallopt(-8, 1);
    }
}

/// A run that asks for ever more memory ends, instead of taking all the machine's.
pub fn limit_memory() {
    unsafe {
        setrlimit(9, &[6 << 30; 2]);
    }
}

/// The run may use this much CPU time.
pub fn run_timer(seconds: i64) {
    let t = ITimer { interval: [0, 0], value: [seconds, 0] };
    unsafe {
        setitimer(1, &t, std::ptr::null_mut());
    }
}

/// Children get the same addresses every time.
pub fn no_randomisation() {
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 {
            personality(p as c_ulong | 0x0040000);
        }
    }
}

/// If every thread of a child is asleep: the processor time it has used so far (in ticks).
pub fn asleep(pid: u32) -> Option<u64> {
    let mut total = 0;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
        let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
        if *f.first()? != "S" {
            return None;
        }
        total += f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    }
    Some(total)
}

/// Asks a child that waits for itself to report where it is.
pub fn tell_stuck(pid: u32) {
    unsafe {
        kill(pid as c_int, 12);
    }
}
