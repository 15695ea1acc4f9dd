//! Memory shortage: while it is on, every allocation attempted by the code
//! under test fails. The simulator and the caller's code are not affected.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

/// This run has the shortage (property C19).
pub static SHORTAGE: AtomicBool = AtomicBool::new(false);
static DENY: AtomicBool = AtomicBool::new(false);
/// Look at every form of a digest.
pub const FORMS: bool = true;
/// Calls made without memory.
pub static CALLS: AtomicU64 = AtomicU64::new(0);

pub struct Scope(bool, work::Saved);

impl Drop for Scope {
    fn drop(&mut self) {
        DENY.store(self.0, Relaxed);
        work::leave(&self.1);
    }
}

/// Inside the code under test.
pub fn scarce<T>(f: impl FnOnce() -> T) -> T {
    let on = SHORTAGE.load(Relaxed);
    if on {
        CALLS.fetch_add(1, Relaxed);
    }
    let _s = Scope(DENY.swap(on, Relaxed), work::enter());
    f()
}

/// Inside the caller's code that it calls.
pub fn plenty() -> Scope {
    Scope(DENY.swap(false, Relaxed), work::pause())
}

#[allow(dead_code)]
pub fn denied() -> bool {
    DENY.load(Relaxed)
}

/// Accepts whatever is rendered.
struct Sink;

impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

/// Render without memory.
pub fn render(x: &dyn std::fmt::Debug) {
    use std::fmt::Write;
    if SHORTAGE.load(Relaxed) {
        scarce(|| write!(Sink, "{:?} {:#?}", x, x)).expect("rendering");
    }
}

/// Counting of the work done by the code under test (property C23), in edges
/// of its control flow graph. Needs the compiler's instrumentation.
#[cfg(b2counted)]
pub mod work {
    use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::Relaxed};

    /// What a call may do, what it may do for each object handed to it, and
    /// for each byte. About fifty times what the code does when this was
    /// written.
    const PER_CALL: u64 = 20_000;
    const PER_OBJECT: u64 = 2_000;
    const PER_BYTE: u64 = 16;
    /// Exit status of a process whose code under test did more.
    const STATUS: i32 = 78;

    /// This run counts.
    pub static COUNTING: AtomicBool = AtomicBool::new(false);
    pub static CALLS: AtomicU64 = AtomicU64::new(0);
    pub static EDGES: AtomicU64 = AtomicU64::new(0);
    /// The largest part of an allowance that was used, per mille.
    pub static WORST: AtomicU64 = AtomicU64::new(0);

    /// Granted in advance, to the next call.
    static PENDING: AtomicU64 = AtomicU64::new(0);
    /// The bytes of all jobs there are, and of the longest.
    static JOBS: AtomicU64 = AtomicU64::new(0);
    static LONGEST: AtomicU64 = AtomicU64::new(0);
    static GRANTED: AtomicU64 = AtomicU64::new(0);
    #[no_mangle]
    static B2_WORK_ON: AtomicU8 = AtomicU8::new(0);
    #[no_mangle]
    static B2_WORK_LEFT: AtomicI64 = AtomicI64::new(0);

    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc_guard",
        "__sanitizer_cov_trace_pc_guard:",
        "cmp byte ptr [rip + B2_WORK_ON], 0",
        "jne 1f",
        "ret",
        "1: dec qword ptr [rip + B2_WORK_LEFT]",
        "js 2f",
        "ret",
        "2: mov byte ptr [rip + B2_WORK_ON], 0",
        "jmp b2_work_over",
        ".globl __sanitizer_cov_trace_pc_guard_init",
        "__sanitizer_cov_trace_pc_guard_init:",
        "ret",
    );

    #[no_mangle]
    extern "C" fn b2_work_over() -> ! {
        let msg = format!("WORK-LIMIT a call took more than {} steps\n", GRANTED.load(Relaxed));
        unsafe {
            libc::write(2, msg.as_ptr() as *const libc::c_void, msg.len());
            libc::_exit(STATUS);
        }
    }

    pub struct Saved {
        on: u8,
        left: i64,
        granted: u64,
        call: bool,
    }

    fn save(call: bool) -> Saved {
        Saved {
            on: B2_WORK_ON.swap(0, Relaxed),
            left: B2_WORK_LEFT.load(Relaxed),
            granted: GRANTED.load(Relaxed),
            call,
        }
    }

    /// A call begins.
    pub fn enter() -> Saved {
        let s = save(true);
        if COUNTING.load(Relaxed) {
            let n = PER_CALL + PENDING.swap(0, Relaxed);
            GRANTED.store(n, Relaxed);
            B2_WORK_LEFT.store(n as i64, Relaxed);
            B2_WORK_ON.store(1, Relaxed);
        }
        s
    }

    /// The caller's code begins that is called from a call.
    pub fn pause() -> Saved {
        save(false)
    }

    /// Either ends.
    pub fn leave(s: &Saved) {
        if s.call && B2_WORK_ON.swap(0, Relaxed) != 0 {
            let granted = GRANTED.load(Relaxed);
            let used = granted - B2_WORK_LEFT.load(Relaxed) as u64;
            CALLS.fetch_add(1, Relaxed);
            EDGES.fetch_add(used, Relaxed);
            WORST.fetch_max(used * 1000 / granted, Relaxed);
        }
        if s.call {
            B2_WORK_LEFT.store(s.left, Relaxed);
            GRANTED.store(s.granted, Relaxed);
        }
        B2_WORK_ON.store(s.on, Relaxed);
    }

    /// The next call is given so many bytes.
    pub fn allow(bytes: usize) {
        PENDING.store(bytes as u64 * PER_BYTE, Relaxed);
    }

    /// The call in progress is given an object and some bytes.
    pub fn credit(objects: u64, bytes: usize) {
        if B2_WORK_ON.load(Relaxed) != 0 {
            let n = objects * PER_OBJECT + bytes as u64 * PER_BYTE;
            GRANTED.fetch_add(n, Relaxed);
            B2_WORK_LEFT.fetch_add(n as i64, Relaxed);
        }
    }

    /// There is another job; `None`: as long as any other.
    pub fn job(bytes: Option<usize>) {
        let n = bytes.map(|n| n as u64).unwrap_or(LONGEST.load(Relaxed));
        LONGEST.fetch_max(n, Relaxed);
        JOBS.fetch_add(n, Relaxed);
    }

    /// The next call may be given all jobs.
    pub fn allow_jobs() {
        allow(JOBS.load(Relaxed) as usize);
    }

    /// A run begins.
    pub fn begin(counting: bool) {
        COUNTING.store(counting, Relaxed);
        for x in [&PENDING, &JOBS, &LONGEST, &CALLS, &EDGES, &WORST] {
            x.store(0, Relaxed);
        }
    }
}

#[cfg(not(b2counted))]
pub mod work {
    pub struct Saved;
    pub fn enter() -> Saved {
        Saved
    }
    pub fn pause() -> Saved {
        Saved
    }
    pub fn leave(_: &Saved) {}
    pub fn allow(_: usize) {}
    pub fn credit(_: u64, _: usize) {}
    pub fn job(_: Option<usize>) {}
    pub fn allow_jobs() {}
    pub fn begin(_: bool) {}
}
