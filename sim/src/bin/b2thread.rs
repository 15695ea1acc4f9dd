//! b2thread: deterministic simulation of threads.
//!
//! Every run is a forked process with up to four real threads, of which
//! exactly one runs at any time. The scheduler follows the scenario: it starts
//! a call in a thread and suspends it after a given number of machine
//! instructions (single-stepping) or callbacks, starts others, and resumes
//! them. Futex waits and yields are simulated, so that locks in the code under
//! test block only simulated threads.
//!
//! Built with the compiler's coverage instrumentation (--cfg b2traced) it does
//! not step through instructions: the scheduling points are then the edges of
//! the control flow graph and, apart, the accesses to static data.
//!
//!   b2thread search PROP SEED WORKER WORKERS COUNT TIER OUTPREFIX SECONDS
//!   b2thread gen PROP SEED INDEX TIER
//!   b2thread exec FILE
//!   b2thread log PROP SEED FROM TO TIER STEP

#![allow(dead_code)]

#[path = "../guard.rs"]
mod guard;
/// Memory shortage is not simulated here.
mod heap {
    #[inline(always)]
    pub fn scarce<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn render(_: &dyn std::fmt::Debug) {}
    pub mod work {
        pub fn allow(_: usize) {}
        pub fn credit(_: u64, _: usize) {}
        pub fn job(_: Option<usize>) {}
        pub fn allow_jobs() {}
    }
    /// The forms of digests are looked at where there is one thread.
    pub const FORMS: bool = false;
}
#[path = "../model.rs"]
mod model;
#[path = "../rng.rs"]
mod rng;
#[path = "../scenario.rs"]
mod scenario;
#[path = "../stats.rs"]
mod stats;
#[path = "../sut.rs"]
mod sut;

use model::{hex, Model, Spec, Variant};
use rng::{fill_content, mix, Rng};
use scenario::{Op, Scenario};
use stats::Stats;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- allocator

/// In a simulated process memory comes from one region and is never reused:
/// no locks, and the same addresses in every execution.
struct Bump;

static SIMULATED: AtomicBool = AtomicBool::new(false);
static BUMP_BASE: AtomicUsize = AtomicUsize::new(0);
static BUMP_NEXT: AtomicUsize = AtomicUsize::new(0);
const BUMP_SIZE: usize = 1 << 30;

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !SIMULATED.load(SeqCst) {
            return System.alloc(l);
        }
        let align = l.align().max(16);
        let at = BUMP_NEXT.fetch_add(l.size() + align, SeqCst);
        let p = (at + align - 1) / align * align;
        if p + l.size() > BUMP_BASE.load(SeqCst) + BUMP_SIZE {
            return std::ptr::null_mut();
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !SIMULATED.load(SeqCst) {
            System.dealloc(p, l)
        }
    }
}

#[global_allocator]
static ALLOC: Bump = Bump;

fn reserve_bump() {
    unsafe {
        let p = libc::mmap(
            0x6000_0000_0000usize as *mut libc::c_void,
            BUMP_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        BUMP_BASE.store(p as usize, SeqCst);
        BUMP_NEXT.store(p as usize, SeqCst);
    }
}

// ------------------------------------------------------------------ threads

#[inline(always)]
unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    r
}

const THREADS: usize = 4;
const SYS_FUTEX: usize = 202;

struct Thread {
    /// Instructions left before the next suspension; 0: none.
    steps: AtomicI64,
    /// Callbacks left before the next suspension.
    callbacks: AtomicI64,
    /// Accesses to static data left before the next suspension.
    accesses: AtomicI64,
    state: AtomicU32,
    blocked_on: AtomicUsize,
    blocked_val: AtomicU32,
    parked_at: AtomicUsize,
    executed: AtomicU64,
    tid: AtomicU32,
    task: UnsafeCell<Option<Box<dyn FnOnce()>>>,
}
unsafe impl Sync for Thread {}

const IDLE: u32 = 0;
const RUNNING: u32 = 1;
const PARKED: u32 = 2;
const BLOCKED: u32 = 3;
const DONE: u32 = 4;
const PANICKED: u32 = 5;

const NEW_THREAD: Thread = Thread {
    steps: AtomicI64::new(0),
    callbacks: AtomicI64::new(0),
    accesses: AtomicI64::new(0),
    state: AtomicU32::new(IDLE),
    blocked_on: AtomicUsize::new(0),
    blocked_val: AtomicU32::new(0),
    parked_at: AtomicUsize::new(0),
    executed: AtomicU64::new(0),
    tid: AtomicU32::new(0),
    task: UnsafeCell::new(None),
};
static TH: [Thread; THREADS] = [NEW_THREAD; THREADS];

/// 0: the scheduler runs, k: thread k - 1 runs. Nobody else does.
#[no_mangle]
static B2_BATON: AtomicU32 = AtomicU32::new(0);
static RUN_ACTIVE: AtomicBool = AtomicBool::new(false);

// Handing over and waiting is one piece of assembly: of a thread that does not
// hold the baton nothing instrumented may run.
std::arch::global_asm!(
    "b2_hand_wait:",
    "push rbx",
    "push r12",
    "mov ebx, esi",
    "mov r12, rdx",
    "cmp edi, -1",
    "je 2f",
    "mov ecx, edi",
    "xchg dword ptr [rip + B2_BATON], edi",
    "mov r9d, 1",
    "shl r9d, cl",
    "mov eax, 202",
    "lea rdi, [rip + B2_BATON]",
    "mov esi, 138", // wake those that wait for this bit
    "mov edx, 1",
    "xor r10d, r10d",
    "xor r8d, r8d",
    "syscall",
    "2: mov edx, dword ptr [rip + B2_BATON]",
    "cmp edx, ebx",
    "je 4f",
    "mov ecx, ebx",
    "mov r9d, 1",
    "shl r9d, cl",
    "mov eax, 202",
    "lea rdi, [rip + B2_BATON]",
    "mov esi, 137", // wait with a bit
    "mov r10, r12",
    "xor r8d, r8d",
    "syscall",
    "cmp rax, -110",
    "jne 2b",
    "cmp dword ptr [rip + B2_BATON], ebx",
    "je 4f",
    "xor eax, eax",
    "jmp 5f",
    "4: mov eax, 1",
    "5: pop r12",
    "pop rbx",
    "ret",
);

extern "C" {
    /// Give the baton to `to` (none: u32::MAX) and wait for it to come to
    /// `me`. 0: the time is up.
    fn b2_hand_wait(to: u32, me: u32, until: *const libc::timespec) -> u32;
}

const NOBODY: u32 = u32::MAX;

fn hand_wait(to: u32, me: u32) {
    unsafe { b2_hand_wait(to, me, std::ptr::null()) };
}

/// Waits with a limit; false: time is up.
fn hand_wait_limited(to: u32, me: u32, ms: i64) -> bool {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts);
        let ns = ts.tv_nsec + ms * 1_000_000;
        ts.tv_sec += ns / 1_000_000_000;
        ts.tv_nsec = ns % 1_000_000_000;
        b2_hand_wait(to, me, &ts) == 1
    }
}

/// Suspend the running thread until the scheduler resumes it.
fn park(me: u32, state: u32, at: usize) {
    hook_off();
    let t = &TH[me as usize - 1];
    t.parked_at.store(at, SeqCst);
    t.state.store(state, SeqCst);
    hand_wait(0, me);
    t.state.store(RUNNING, SeqCst);
}

const TF: i64 = 0x100;

extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let u = ctx as *mut libc::ucontext_t;
        let regs = &mut (*u).uc_mcontext.gregs;
        let me = B2_BATON.load(SeqCst);
        if me == 0 {
            regs[libc::REG_EFL as usize] &= !TF;
            return;
        }
        let t = &TH[me as usize - 1];
        t.executed.fetch_add(1, SeqCst);
        let left = t.steps.fetch_sub(1, SeqCst) - 1;
        if left > 0 {
            return;
        }
        t.steps.store(0, SeqCst);
        let saved = *libc::__errno_location();
        park(me, PARKED, regs[libc::REG_RIP as usize] as usize);
        *libc::__errno_location() = saved;
        if t.steps.load(SeqCst) > 0 {
            regs[libc::REG_EFL as usize] |= TF;
        } else {
            regs[libc::REG_EFL as usize] &= !TF;
        }
    }
}

/// Forced suspension of a thread that does not come back (a spinning loop).
extern "C" fn on_force(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let u = ctx as *mut libc::ucontext_t;
        let me = B2_BATON.load(SeqCst);
        if me == 0 || raw(libc::SYS_gettid as usize, 0, 0, 0, 0, 0, 0) as u32 != TH[me as usize - 1].tid.load(SeqCst) {
            return;
        }
        let saved = *libc::__errno_location();
        park(me, PARKED, (*u).uc_mcontext.gregs[libc::REG_RIP as usize] as usize);
        *libc::__errno_location() = saved;
    }
}

fn install_handlers() {
    unsafe {
        for (sig, f) in [
            (libc::SIGTRAP, on_trap as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void)),
            (libc::SIGUSR1, on_force),
        ] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

/// Whether the instrumentation's callbacks are scheduling points now: 1 in a
/// simulated thread's call and outside the scheduler.
#[no_mangle]
static B2_HOOK_ON: AtomicU8 = AtomicU8::new(0);
#[no_mangle]
static B2_DATA_LO: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
static B2_DATA_HI: AtomicUsize = AtomicUsize::new(0);

#[cfg(b2traced)]
std::arch::global_asm!(
    ".macro B2ACCESS name",
    ".globl \\name",
    "\\name:",
    "cmp byte ptr [rip + B2_HOOK_ON], 0",
    "jne 1f",
    "ret",
    "1: cmp rdi, qword ptr [rip + B2_DATA_LO]",
    "jae 2f",
    "ret",
    "2: cmp rdi, qword ptr [rip + B2_DATA_HI]",
    "jb 3f",
    "ret",
    "3: mov byte ptr [rip + B2_HOOK_ON], 0",
    "mov rdi, qword ptr [rsp]",
    "mov esi, 1",
    "jmp b2_enter",
    ".endm",
    "b2_enter:",
    "sub rsp, 8",
    "call b2_point",
    "add rsp, 8",
    "mov byte ptr [rip + B2_HOOK_ON], al",
    "ret",
    "B2ACCESS __sanitizer_cov_load1",
    "B2ACCESS __sanitizer_cov_load2",
    "B2ACCESS __sanitizer_cov_load4",
    "B2ACCESS __sanitizer_cov_load8",
    "B2ACCESS __sanitizer_cov_load16",
    "B2ACCESS __sanitizer_cov_store1",
    "B2ACCESS __sanitizer_cov_store2",
    "B2ACCESS __sanitizer_cov_store4",
    "B2ACCESS __sanitizer_cov_store8",
    "B2ACCESS __sanitizer_cov_store16",
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "cmp byte ptr [rip + B2_HOOK_ON], 0",
    "jne 1f",
    "ret",
    "1: mov byte ptr [rip + B2_HOOK_ON], 0",
    "mov rdi, qword ptr [rsp]",
    "xor esi, esi",
    "jmp b2_enter",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
);

/// A scheduling point of the instrumented build: an edge of the control flow
/// graph, or just before an access to static data. Called with the hook off.
#[no_mangle]
extern "C" fn b2_point(pc: usize, access: u32) -> u8 {
    let me = B2_BATON.load(SeqCst);
    if me == 0 {
        return 0;
    }
    let t = &TH[me as usize - 1];
    t.executed.fetch_add(1, SeqCst);
    let stop = if t.steps.load(SeqCst) > 0 && t.steps.fetch_sub(1, SeqCst) == 1 {
        true
    } else {
        access == 1 && t.accesses.load(SeqCst) > 0 && t.accesses.fetch_sub(1, SeqCst) == 1
    };
    if stop {
        t.steps.store(0, SeqCst);
        t.accesses.store(0, SeqCst);
        park(me, PARKED, pc);
    }
    wanted(t) as u8
}

const TRACED: bool = cfg!(b2traced);

/// Scheduling points count from here on, if any are asked for.
fn wanted(t: &Thread) -> bool {
    TRACED && (t.steps.load(SeqCst) > 0 || t.accesses.load(SeqCst) > 0)
}

fn hook_on(t: &Thread) {
    if wanted(t) {
        B2_HOOK_ON.store(1, SeqCst);
    }
}

fn hook_off() {
    B2_HOOK_ON.store(0, SeqCst);
}

#[cfg(b2traced)]
fn find_static_data() {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe {
        B2_DATA_LO.store(&__data_start as *const u8 as usize, SeqCst);
        B2_DATA_HI.store(&_end as *const u8 as usize, SeqCst);
    }
}

#[cfg(not(b2traced))]
fn find_static_data() {}

#[inline(never)]
fn trap_on() {
    if TRACED {
        return;
    }
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop") }
}

#[inline(never)]
fn trap_off() {
    if TRACED {
        return;
    }
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq", "nop") }
}

fn sim_thread() -> u32 {
    if RUN_ACTIVE.load(SeqCst) {
        let me = B2_BATON.load(SeqCst);
        if me != 0
            && unsafe { raw(libc::SYS_gettid as usize, 0, 0, 0, 0, 0, 0) } as u32
                == TH[me as usize - 1].tid.load(SeqCst)
        {
            return me;
        }
    }
    0
}

/// The standard library's futexes come through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && matches!(b & 0x7f, 0 | 9) {
        let me = sim_thread();
        if me != 0 {
            // A wait: blocked until the value changes.
            let hooked = B2_HOOK_ON.swap(0, SeqCst) == 1;
            let word = &*(a as *const AtomicU32);
            if word.load(SeqCst) == c as u32 {
                let t = &TH[me as usize - 1];
                t.blocked_on.store(a, SeqCst);
                t.blocked_val.store(c as u32, SeqCst);
                let left = t.steps.swap(0, SeqCst);
                park(me, BLOCKED, 0);
                if left > 0 && t.steps.load(SeqCst) == 0 {
                    // The rest of the call runs unstepped.
                }
                hook_on(t);
            } else if hooked {
                B2_HOOK_ON.store(1, SeqCst);
            }
            return 0;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub extern "C" fn sched_yield() -> libc::c_int {
    let me = sim_thread();
    if me != 0 {
        TH[me as usize - 1].steps.store(0, SeqCst);
        TH[me as usize - 1].accesses.store(0, SeqCst);
        park(me, PARKED, 1);
        hook_on(&TH[me as usize - 1]);
    }
    0
}

/// A point inside a caller's iterator or accessor.
fn callback() {
    hook_off();
    let me = B2_BATON.load(SeqCst);
    if me == 0 {
        return;
    }
    let t = &TH[me as usize - 1];
    if t.callbacks.fetch_sub(1, SeqCst) == 1 {
        // The rest of the call runs without stepping unless resumed so.
        t.steps.store(i64::MAX, SeqCst);
        trap_off();
        t.steps.store(0, SeqCst);
        t.accesses.store(0, SeqCst);
        park(me, PARKED, 2);
        if t.steps.load(SeqCst) > 0 {
            trap_on();
        }
    }
    hook_on(t);
}

extern "C" fn thread_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    let me = arg as usize as u32;
    let t = &TH[me as usize - 1];
    t.tid.store(unsafe { raw(libc::SYS_gettid as usize, 0, 0, 0, 0, 0, 0) } as u32, SeqCst);
    hand_wait(NOBODY, me);
    loop {
        let task = unsafe { (*t.task.get()).take() };
        let ok = match task {
            Some(f) => {
                t.state.store(RUNNING, SeqCst);
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if t.steps.load(SeqCst) > 0 {
                        trap_on();
                    }
                    hook_on(t);
                    f();
                    hook_off();
                    t.steps.store(i64::MAX, SeqCst);
                    trap_off();
                    t.steps.store(0, SeqCst);
                }))
                .is_ok()
            }
            None => true,
        };
        hook_off();
        t.state.store(if ok { DONE } else { PANICKED }, SeqCst);
        hand_wait(0, me);
    }
}

// ------------------------------------------------------------------ objects

enum Obj {
    B(blake2b_simd::State),
    S(blake2s_simd::State),
    Bp(blake2b_simd::blake2bp::State),
    Sp(blake2s_simd::blake2sp::State),
}

macro_rules! on {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Obj::B($x) => $e,
            Obj::S($x) => $e,
            Obj::Bp($x) => $e,
            Obj::Sp($x) => $e,
        }
    };
}

enum Builder {
    B(blake2b_simd::Params),
    S(blake2s_simd::Params),
    Bp(blake2b_simd::blake2bp::Params),
    Sp(blake2s_simd::blake2sp::Params),
}

impl Builder {
    fn new(s: &Spec) -> Builder {
        match s.variant {
            Variant::B => Builder::B(sut::params_b(s, 0)),
            Variant::S => Builder::S(sut::params_s(s, 0)),
            Variant::Bp => Builder::Bp(sut::params_bp(s, 0)),
            Variant::Sp => Builder::Sp(sut::params_sp(s, 0)),
        }
    }
    fn open(&self) -> Obj {
        match self {
            Builder::B(p) => Obj::B(p.to_state()),
            Builder::S(p) => Obj::S(p.to_state()),
            Builder::Bp(p) => Obj::Bp(p.to_state()),
            Builder::Sp(p) => Obj::Sp(p.to_state()),
        }
    }
    fn hash(&self, input: &[u8]) -> Vec<u8> {
        match self {
            Builder::B(p) => p.hash(input).as_bytes().to_vec(),
            Builder::S(p) => p.hash(input).as_bytes().to_vec(),
            Builder::Bp(p) => p.hash(input).as_bytes().to_vec(),
            Builder::Sp(p) => p.hash(input).as_bytes().to_vec(),
        }
    }
}

fn spec_of(variant: Variant, kind: u64) -> Spec {
    let mut s = Spec::new(variant);
    let full = variant.out();
    if kind & 1 != 0 {
        s.key = (0..1 + kind as usize * 7 % full).map(|i| (i as u8) ^ kind as u8).collect();
    }
    if kind & 2 != 0 {
        s.hash_length = 1 + kind as usize * 5 % full;
    }
    if kind & 4 != 0 && !variant.parallel() {
        s.salt = vec![kind as u8; if variant.big() { 16 } else { 8 }];
        s.node_offset = 1000 + kind;
        s.fanout = 3;
        s.max_depth = 2;
    }
    s.last_node = kind & 8 != 0 && !variant.parallel();
    s
}

/// Added to a number of steps: count accesses to static data instead.
const ACCESSES: u64 = 1 << 20;

const HASHERS: usize = 10;
const BUILDERS: usize = 6;
const CONTENT: usize = 1 << 16;

struct Slots {
    hashers: [*mut Obj; HASHERS],
    builders: [*mut Builder; BUILDERS],
    initial: Vec<Spec>,
}

/// Builder p, made by the call that first needs it if the run begins cold.
unsafe fn builder(s: *mut Slots, p: usize) -> &'static Builder {
    if (*s).builders[p].is_null() {
        let b = Box::into_raw(Box::new(Builder::new(&(&(*s).initial)[p])));
        (*s).builders[p] = b;
    }
    &*(*s).builders[p]
}
struct Shared(UnsafeCell<Slots>);
unsafe impl Sync for Shared {}

// ------------------------------------------------------------------- events

/// What an event uses: (object number, exclusively).
type Uses = Vec<(usize, bool)>;

struct Flight {
    uses: Uses,
    out: *mut Vec<Vec<u8>>,
    expected: Vec<Vec<u8>>,
    what: String,
    event: u64,
}

pub struct Violation {
    class: &'static str,
    msg: String,
}

struct World {
    slots: &'static Shared,
    models: Vec<Option<Model>>,
    specs: Vec<Spec>,
    content: &'static [u8],
    flights: Vec<Option<Flight>>,
    log: u64,
    stats: Stats,
    forced: u64,
    base: usize,
    trans: Vec<u64>,
    /// The degrees of parallelism seen first.
    degrees: Option<Vec<u8>>,
}

fn slice_of(content: &'static [u8], off: u64, len: u64) -> &'static [u8] {
    let len = (len % 20000) as usize;
    let off = off as usize % (CONTENT - len);
    &content[off..off + len]
}

/// Lengths of batch members vary around a base.
fn vary(len: u64, i: u64) -> u64 {
    match i % 4 {
        0 => len,
        1 => len / 2,
        2 => len + 1,
        _ => len + 130,
    }
}

#[derive(Clone, Copy)]
struct Nested {
    kind: u64,
    at: u64,
    target: usize,
}

/// Runs inside another call's iterator or accessor.
struct Hook {
    nested: Nested,
    seen: UnsafeCell<u64>,
    slots: &'static Shared,
    content: &'static [u8],
    out: *mut Vec<Vec<u8>>,
    specs: *const Vec<Spec>,
}

impl Hook {
    fn tick(&self) {
        callback();
        unsafe {
            let n = *self.seen.get();
            *self.seen.get() = n + 1;
            if self.nested.kind == 0 || n != self.nested.at {
                return;
            }
            let s = self.slots.0.get();
            let input = slice_of(self.content, 77, 333);
            match self.nested.kind {
                1 => (*self.out).push(builder(s, self.nested.target % BUILDERS).hash(input)),
                2 => {
                    let h = &mut *(*s).hashers[self.nested.target];
                    on!(h, x => { x.update(input); });
                }
                3 => {
                    let h = &*(*s).hashers[self.nested.target];
                    (*self.out).push(on!(h, x => x.finalize().as_bytes().to_vec()));
                }
                4 => {
                    let mut a: Vec<blake2b_simd::State> = (0..5).map(|_| blake2b_simd::State::new()).collect();
                    blake2b_simd::many::update_many(a.iter_mut().map(|x| (x, input)));
                    let mut b: Vec<blake2s_simd::State> = (0..9).map(|_| blake2s_simd::State::new()).collect();
                    blake2s_simd::many::update_many(b.iter_mut().map(|x| (x, input)));
                    for x in &a {
                        (*self.out).push(x.finalize().as_bytes().to_vec());
                    }
                    for x in &b {
                        (*self.out).push(x.finalize().as_bytes().to_vec());
                    }
                }
                _ => {
                    let pb = blake2b_simd::Params::new();
                    let mut a: Vec<_> = (0..5).map(|_| blake2b_simd::many::HashManyJob::new(&pb, input)).collect();
                    blake2b_simd::many::hash_many(a.iter_mut());
                    let ps = blake2s_simd::Params::new();
                    let mut b: Vec<_> = (0..9).map(|_| blake2s_simd::many::HashManyJob::new(&ps, input)).collect();
                    blake2s_simd::many::hash_many(b.iter_mut());
                    for x in &a {
                        (*self.out).push(x.to_hash().as_bytes().to_vec());
                    }
                    for x in &b {
                        (*self.out).push(x.to_hash().as_bytes().to_vec());
                    }
                }
            }
        }
    }
}

struct Acc<'a> {
    data: &'static [u8],
    hook: &'a Hook,
}

impl<'a> AsRef<[u8]> for Acc<'a> {
    fn as_ref(&self) -> &[u8] {
        self.hook.tick();
        self.data
    }
}

struct Ticking<'a, I> {
    inner: I,
    hook: &'a Hook,
}

impl<'a, I: Iterator> Iterator for Ticking<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.hook.tick();
        self.inner.next()
    }
}

impl World {
    fn note(&mut self, v: u64) {
        self.log = mix(self.log.wrapping_mul(31) ^ v);
    }

    /// Give thread t the processor until it stops. Ok(false): it is blocked
    /// and made no progress.
    fn go(&mut self, t: usize) -> Result<bool, Violation> {
        let th = &TH[t];
        if th.state.load(SeqCst) == BLOCKED {
            let word = unsafe { &*(th.blocked_on.load(SeqCst) as *const AtomicU32) };
            if word.load(SeqCst) == th.blocked_val.load(SeqCst) {
                return Ok(false);
            }
        }
        let mut to = t as u32 + 1;
        while !hand_wait_limited(to, 0, 500) {
            to = NOBODY;
            self.forced += 1;
            if self.forced > 40 {
                return Err(Violation { class: "hang", msg: format!("thread {} does not come to an end", t) });
            }
            unsafe {
                raw(
                    libc::SYS_tgkill as usize,
                    raw(libc::SYS_getpid as usize, 0, 0, 0, 0, 0, 0) as usize,
                    th.tid.load(SeqCst) as usize,
                    libc::SIGUSR1 as usize,
                    0,
                    0,
                    0,
                );
            }
        }
        let st = th.state.load(SeqCst);
        if st == PARKED || st == BLOCKED {
            let at = th.parked_at.load(SeqCst);
            let rel = if at > 16 { at.wrapping_sub(self.base) } else { at };
            if self.forced == 0 {
                self.note(rel as u64);
            }
            let ev = self.flights[t].as_ref().map(|f| f.event).unwrap_or(0);
            self.trans.push(mix(rel as u64 ^ ev << 48));
            self.stats.hit(match (st, at) {
                (BLOCKED, _) => "fault:blocked_on_lock",
                (_, 1) => "fault:yielded",
                (_, 2) => "fault:suspended_in_callback",
                _ => "fault:suspended_at_a_point",
            });
        }
        if st == DONE || st == PANICKED {
            self.finish(t)?;
        }
        Ok(true)
    }

    /// The call of thread t has returned.
    fn finish(&mut self, t: usize) -> Result<(), Violation> {
        let th = &TH[t];
        let st = th.state.swap(IDLE, SeqCst);
        let f = match self.flights[t].take() {
            Some(f) => f,
            None => return Ok(()),
        };
        if st == PANICKED {
            return Err(Violation { class: "panic", msg: format!("{} panicked in thread {}", f.what, t) });
        }
        let out = unsafe { &*f.out };
        if self.forced == 0 {
            self.note(f.event);
            for d in out {
                for c in d.chunks(8) {
                    let mut b = [0u8; 8];
                    b[..c.len()].copy_from_slice(c);
                    self.note(u64::from_le_bytes(b));
                }
            }
        }
        let mut expected = f.expected;
        if f.event >> 8 == 13 {
            let d = self.degrees.get_or_insert_with(|| out[0].clone());
            expected.push(d.clone());
        }
        if *out != expected {
            let k = (0..out.len().min(expected.len())).find(|&k| out[k] != expected[k]);
            return Err(Violation {
                class: "result",
                msg: match k {
                    Some(k) => format!(
                        "{} in thread {}: result {} is {}, alone it is {}",
                        f.what,
                        t,
                        k,
                        hex(&out[k]),
                        hex(&expected[k])
                    ),
                    None => format!("{} in thread {}: {} results, alone {}", f.what, t, out.len(), expected.len()),
                },
            });
        }
        Ok(())
    }

    /// Let thread t run to the end of its call, others too if they hold what
    /// it waits for.
    fn complete(&mut self, t: usize) -> Result<(), Violation> {
        let mut rounds = 0;
        while self.flights[t].is_some() {
            Self::limit(t, 0, 0);
            let mut progress = self.go(t)?;
            if self.flights[t].is_none() {
                return Ok(());
            }
            for u in 0..THREADS {
                if u != t && self.flights[u].is_some() {
                    Self::limit(u, 0, 0);
                    progress |= self.go(u)?;
                }
            }
            rounds += 1;
            if !progress || rounds > 10_000 {
                return Err(Violation {
                    class: "deadlock",
                    msg: format!(
                        "{} in thread {} never ends: it waits for a lock",
                        self.flights[t].as_ref().unwrap().what,
                        t
                    ),
                });
            }
        }
        Ok(())
    }

    /// How far thread t may run next. The instrumented build counts accesses
    /// to static data if the flag is set.
    fn limit(t: usize, steps: u64, callbacks: u64) {
        let (n, access) = (steps & (ACCESSES - 1), TRACED && steps & ACCESSES != 0);
        TH[t].steps.store(if access { 0 } else { n.min(60_000) as i64 }, SeqCst);
        TH[t].accesses.store(if access { n as i64 } else { 0 }, SeqCst);
        TH[t].callbacks.store(callbacks as i64, SeqCst);
    }

    fn reserve(&mut self, t: usize, uses: &Uses) -> Result<(), Violation> {
        self.complete(t)?;
        for u in 0..THREADS {
            let clash = match &self.flights[u] {
                Some(f) => f.uses.iter().any(|a| uses.iter().any(|b| a.0 == b.0 && (a.1 || b.1))),
                None => false,
            };
            if clash {
                self.complete(u)?;
            }
        }
        Ok(())
    }

    fn start(
        &mut self,
        t: usize,
        steps: u64,
        callbacks: u64,
        event: u64,
        uses: Uses,
        expected: Vec<Vec<u8>>,
        what: String,
        out: *mut Vec<Vec<u8>>,
        task: Box<dyn FnOnce()>,
    ) -> Result<(), Violation> {
        self.stats.hit("calls");
        if self.flights.iter().any(|f| f.is_some()) {
            self.stats.hit("calls_while_others_suspended");
        }
        self.flights[t] = Some(Flight { uses, out, expected, what, event });
        Self::limit(t, steps, callbacks);
        unsafe { *TH[t].task.get() = Some(task) };
        self.go(t)?;
        Ok(())
    }

    fn step(&mut self, op: &Op) -> Result<(), Violation> {
        let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
        let t = a(0) as usize % THREADS;
        if op.name == "resume" {
            if self.flights[t].is_some() {
                if a(1) == 0 {
                    self.complete(t)?;
                } else {
                    Self::limit(t, a(1), a(2));
                    self.go(t)?;
                }
            }
            return Ok(());
        }
        if op.name != "run" {
            return Ok(());
        }
        let (steps, callbacks, what) = (a(1), a(2), a(3) % 14);
        let (x, y, z, w) = (a(4), a(5), a(6), a(7));
        let h = x as usize % HASHERS;
        let slots = self.slots;
        let content = self.content;
        let out: *mut Vec<Vec<u8>> = Box::into_raw(Box::new(Vec::with_capacity(64)));
        let hobj = |h: usize| h;
        let bobj = |p: usize| HASHERS + p;
        let s = slots.0.get();
        // In-flight calls may still write the slots they reserved, so objects
        // are looked at only after reserving them.
        let name;
        let uses: Uses;
        let mut expected = Vec::new();
        let task: Box<dyn FnOnce()>;
        match what {
            0 => {
                let p = y as usize % BUILDERS;
                uses = vec![(hobj(h), true), (bobj(p), false)];
                self.reserve(t, &uses)?;
                name = format!("open {} from builder {}", h, p);
                self.models[h] = Some(Model::new(&self.specs[p]));
                task = Box::new(move || unsafe {
                    let o = builder(s, p).open();
                    (*s).hashers[h] = Box::into_raw(Box::new(o));
                });
            }
            1 | 8 => {
                if self.models[h].is_none() {
                    return Ok(());
                }
                uses = vec![(hobj(h), true)];
                self.reserve(t, &uses)?;
                let input = slice_of(content, y, z);
                name = format!("update of hasher {} with {} bytes", h, input.len());
                self.models[h].as_mut().unwrap().update(input);
                let writer = what == 8;
                task = Box::new(move || unsafe {
                    let o = &mut *(*s).hashers[h];
                    if writer {
                        #[cfg(feature = "std")]
                        on!(o, x => { x.write_all(input).expect("write"); });
                        #[cfg(not(feature = "std"))]
                        on!(o, x => { x.update(input); });
                    } else {
                        on!(o, x => { x.update(input); });
                    }
                });
            }
            2 | 9 => {
                if self.models[h].is_none() {
                    return Ok(());
                }
                uses = vec![(hobj(h), false)];
                self.reserve(t, &uses)?;
                name = format!("finalize and count of hasher {}", h);
                let m = self.models[h].as_ref().unwrap();
                expected.push(m.digest());
                expected.push(m.count().to_le_bytes().to_vec());
                task = Box::new(move || unsafe {
                    let o = &*(*s).hashers[h];
                    (*out).push(on!(o, x => x.finalize().as_bytes().to_vec()));
                    (*out).push(on!(o, x => (x.count() as u128).to_le_bytes().to_vec()));
                });
            }
            3 => {
                let g = y as usize % HASHERS;
                if self.models[h].is_none() || g == h {
                    return Ok(());
                }
                uses = vec![(hobj(h), false), (hobj(g), true)];
                self.reserve(t, &uses)?;
                name = format!("clone of hasher {} into {}", h, g);
                self.models[g] = self.models[h].clone();
                task = Box::new(move || unsafe {
                    let o = &*(*s).hashers[h];
                    let c = match o {
                        Obj::B(x) => Obj::B(x.clone()),
                        Obj::S(x) => Obj::S(x.clone()),
                        Obj::Bp(x) => Obj::Bp(x.clone()),
                        Obj::Sp(x) => Obj::Sp(x.clone()),
                    };
                    (*s).hashers[g] = Box::into_raw(Box::new(c));
                });
            }
            4 => {
                let big = y & 1 == 0;
                let members: Vec<usize> = (0..HASHERS)
                    .filter(|&i| x >> i & 1 == 1)
                    .filter(|&i| {
                        self.models[i]
                            .as_ref()
                            .map(|m| m.variant == if big { Variant::B } else { Variant::S })
                            .unwrap_or(false)
                    })
                    .collect();
                let mut nested = Nested { kind: w % 6, at: w >> 8 & 31, target: (w >> 3 & 15) as usize };
                let mut u: Uses = members.iter().map(|&i| (hobj(i), true)).collect();
                match nested.kind {
                    1 => {
                        nested.target %= BUILDERS;
                        u.push((bobj(nested.target), false));
                    }
                    2 | 3 => {
                        nested.target %= HASHERS;
                        if self.models[nested.target].is_none() || members.contains(&nested.target) {
                            nested.kind = 0;
                        } else {
                            u.push((hobj(nested.target), nested.kind == 2));
                        }
                    }
                    _ => {}
                }
                uses = u;
                self.reserve(t, &uses)?;
                let inputs: Vec<&'static [u8]> = (0..members.len())
                    .map(|i| slice_of(content, y + i as u64 * 100, vary(z, i as u64 + y / 2)))
                    .collect();
                // Each accessor call and each `next` is one callback, so the
                // hook may not come to its turn: only then its effect counts.
                nested.at %= members.len() as u64 + 1;
                name = format!("batched update of {:?} (nested {})", members, nested.kind);
                for (k, &i) in members.iter().enumerate() {
                    self.models[i].as_mut().unwrap().update(inputs[k]);
                }
                self.nested_expectation(nested, &mut expected);
                let specs: *const Vec<Spec> = &self.specs;
                task = Box::new(move || unsafe {
                    let hook = Hook { nested, seen: UnsafeCell::new(0), slots, content, out, specs };
                    let accs: Vec<Acc> = inputs.iter().map(|d| Acc { data: d, hook: &hook }).collect();
                    if big {
                        blake2b_simd::many::update_many(Ticking {
                            inner: members.iter().zip(&accs).map(|(&i, a)| match &mut *(*s).hashers[i] {
                                Obj::B(x) => (x, a),
                                _ => unreachable!(),
                            }),
                            hook: &hook,
                        });
                    } else {
                        blake2s_simd::many::update_many(Ticking {
                            inner: members.iter().zip(&accs).map(|(&i, a)| match &mut *(*s).hashers[i] {
                                Obj::S(x) => (x, a),
                                _ => unreachable!(),
                            }),
                            hook: &hook,
                        });
                    }
                });
            }
            5 => {
                let p = x as usize % BUILDERS;
                let n = y % 13;
                let variant = self.specs[p].variant;
                if variant.parallel() {
                    return Ok(());
                }
                let mut nested = Nested { kind: w % 6, at: (w >> 8) % (n + 1), target: (w >> 3 & 15) as usize };
                let mut u: Uses = vec![(bobj(p), false)];
                match nested.kind {
                    1 => {
                        nested.target %= BUILDERS;
                        u.push((bobj(nested.target), false));
                    }
                    2 | 3 => {
                        nested.target %= HASHERS;
                        if self.models[nested.target].is_none() {
                            nested.kind = 0;
                        } else {
                            u.push((hobj(nested.target), nested.kind == 2));
                        }
                    }
                    _ => {}
                }
                uses = u;
                self.reserve(t, &uses)?;
                let inputs: Vec<&'static [u8]> = (0..n).map(|i| slice_of(content, z + i * 50, vary(z, i))).collect();
                name = format!("batched hash of {} jobs from builder {} (nested {})", n, p, nested.kind);
                self.nested_expectation(nested, &mut expected);
                for i in &inputs {
                    expected.push(Model::hash(&self.specs[p], i));
                }
                let specs: *const Vec<Spec> = &self.specs;
                task = Box::new(move || unsafe {
                    let hook = Hook { nested, seen: UnsafeCell::new(0), slots, content, out, specs };
                    match builder(s, p) {
                        Builder::B(b) => {
                            let mut jobs: Vec<_> =
                                inputs.iter().map(|i| blake2b_simd::many::HashManyJob::new(b, i)).collect();
                            blake2b_simd::many::hash_many(Ticking { inner: jobs.iter_mut(), hook: &hook });
                            for j in &jobs {
                                (*out).push(j.to_hash().as_bytes().to_vec());
                            }
                        }
                        Builder::S(b) => {
                            let mut jobs: Vec<_> =
                                inputs.iter().map(|i| blake2s_simd::many::HashManyJob::new(b, i)).collect();
                            blake2s_simd::many::hash_many(Ticking { inner: jobs.iter_mut(), hook: &hook });
                            for j in &jobs {
                                (*out).push(j.to_hash().as_bytes().to_vec());
                            }
                        }
                        _ => unreachable!(),
                    }
                });
            }
            6 => {
                let p = x as usize % BUILDERS;
                uses = vec![(bobj(p), false)];
                self.reserve(t, &uses)?;
                let input = slice_of(content, y, z);
                name = format!("hash of {} bytes with builder {}", input.len(), p);
                expected.push(Model::hash(&self.specs[p], input));
                task = Box::new(move || unsafe { (*out).push(builder(s, p).hash(input)) });
            }
            7 => {
                let p = x as usize % BUILDERS;
                uses = vec![(bobj(p), true)];
                self.reserve(t, &uses)?;
                let spec = spec_of(self.specs[p].variant, y % 16);
                name = format!("rebuilding builder {}", p);
                self.specs[p] = spec.clone();
                task = Box::new(move || unsafe { (*s).builders[p] = Box::into_raw(Box::new(Builder::new(&spec))) });
            }
            10 => {
                if self.models[h].is_none() {
                    return Ok(());
                }
                uses = vec![(hobj(h), true)];
                self.reserve(t, &uses)?;
                name = format!("move of hasher {}", h);
                task = Box::new(move || unsafe {
                    let o = *Box::from_raw((*s).hashers[h]);
                    (*s).hashers[h] = Box::into_raw(Box::new(o));
                });
            }
            11 => {
                if self.models[h].as_ref().map(|m| m.variant.parallel()).unwrap_or(true) {
                    return Ok(());
                }
                uses = vec![(hobj(h), true)];
                self.reserve(t, &uses)?;
                name = format!("last-node flag of hasher {}", h);
                self.models[h].as_mut().unwrap().set_last_node(y & 1 == 1);
                let v = y & 1 == 1;
                task = Box::new(move || unsafe {
                    match &mut *(*s).hashers[h] {
                        Obj::B(x) => {
                            x.set_last_node(v);
                        }
                        Obj::S(x) => {
                            x.set_last_node(v);
                        }
                        _ => {}
                    }
                });
            }
            13 => {
                uses = vec![];
                self.reserve(t, &uses)?;
                name = "degree of parallelism".to_string();
                task = Box::new(move || unsafe {
                    (*out).push(vec![blake2b_simd::many::degree() as u8, blake2s_simd::many::degree() as u8]);
                });
            }
            _ => {
                uses = vec![];
                self.reserve(t, &uses)?;
                name = "one-call hashes".to_string();
                let input = slice_of(content, y, z);
                for v in [Variant::B, Variant::S, Variant::Bp, Variant::Sp] {
                    expected.push(Model::hash(&Spec::new(v), input));
                }
                task = Box::new(move || unsafe {
                    (*out).push(blake2b_simd::blake2b(input).as_bytes().to_vec());
                    (*out).push(blake2s_simd::blake2s(input).as_bytes().to_vec());
                    (*out).push(blake2b_simd::blake2bp::blake2bp(input).as_bytes().to_vec());
                    (*out).push(blake2s_simd::blake2sp::blake2sp(input).as_bytes().to_vec());
                });
            }
        }
        let event = what << 8 | (t as u64);
        self.trans.push(mix(event << 20 | (64 - z.leading_zeros() as u64) << 8 | (w % 6)));
        self.start(t, steps, callbacks, event, uses, expected, name, out, task)
    }

    fn nested_expectation(&mut self, n: Nested, expected: &mut Vec<Vec<u8>>) {
        let input = slice_of(self.content, 77, 333);
        if n.kind != 0 {
            self.stats.hit("fault:reentrant_call");
        }
        match n.kind {
            0 => {}
            1 => expected.push(Model::hash(&self.specs[n.target % BUILDERS], input)),
            2 => self.models[n.target].as_mut().unwrap().update(input),
            3 => expected.push(self.models[n.target].as_ref().unwrap().digest()),
            _ => {
                for _ in 0..5 {
                    expected.push(Model::hash(&Spec::new(Variant::B), input));
                }
                for _ in 0..9 {
                    expected.push(Model::hash(&Spec::new(Variant::S), input));
                }
            }
        }
    }

    fn end(&mut self) -> Result<(), Violation> {
        for t in 0..THREADS {
            self.complete(t)?;
        }
        for h in 0..HASHERS {
            if let Some(m) = &self.models[h] {
                let o = unsafe { &*(*self.slots.0.get()).hashers[h] };
                let d = on!(o, x => x.finalize().as_bytes().to_vec());
                let c = on!(o, x => x.count() as u128);
                if d != m.digest() || c != m.count() {
                    return Err(Violation {
                        class: "result",
                        msg: format!(
                            "at the end hasher {} has digest {} and count {}, alone {} and {}",
                            h,
                            hex(&d),
                            c,
                            hex(&m.digest()),
                            m.count()
                        ),
                    });
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------ one run, one process

const TRANS: usize = 400;
const COUNTERS: [&str; 9] = [
    "calls",
    "calls_while_others_suspended",
    "fault:blocked_on_lock",
    "fault:yielded",
    "fault:suspended_in_callback",
    "fault:suspended_at_a_point",
    "fault:reentrant_call",
    "scheduling_points_passed",
    "forced_suspensions",
];

#[repr(C)]
struct Report {
    status: u32, // 0: none, 1: held, 2: violation
    class: [u8; 16],
    msg: [u8; 1024],
    log: u64,
    counters: [u64; 9],
    ntrans: u64,
    trans: [u64; TRANS],
}

fn report() -> *mut Report {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Report>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Report
    }
}

fn put(to: &mut [u8], s: &str) {
    let n = s.len().min(to.len() - 1);
    to[..n].copy_from_slice(&s.as_bytes()[..n]);
    to[n] = 0;
}

fn get(from: &[u8]) -> String {
    let n = from.iter().position(|&c| c == 0).unwrap_or(from.len());
    String::from_utf8_lossy(&from[..n]).replace('\n', " ")
}

/// The body of the simulated process.
fn child(sc: &Scenario, rep: &mut Report) {
    SIMULATED.store(true, SeqCst);
    find_static_data();
    install_handlers();
    let cpu = sc.get("cpu") % 3;
    blake2b_simd::sim::set_cpu_level(cpu as u8);
    blake2s_simd::sim::set_cpu_level(cpu as u8);
    let mut content = vec![0u8; CONTENT];
    fill_content(7, 0, &mut content);
    let content: &'static [u8] = Box::leak(content.into_boxed_slice());
    let kinds = sc.get("builders");
    let specs: Vec<Spec> =
        (0..BUILDERS).map(|i| spec_of(Variant::from([0, 1, 2, 3, 0, 1][i]), kinds >> (4 * i) & 15)).collect();
    let mut builders = [std::ptr::null_mut(); BUILDERS];
    for (i, s) in specs.iter().enumerate().filter(|_| sc.get("cold") == 0) {
        builders[i] = Box::into_raw(Box::new(Builder::new(s)));
    }
    let slots: &'static Shared = Box::leak(Box::new(Shared(UnsafeCell::new(Slots {
        hashers: [std::ptr::null_mut(); HASHERS],
        builders,
        initial: specs.clone(),
    }))));
    for k in 0..THREADS {
        unsafe {
            let mut id: libc::pthread_t = 0;
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 512 * 1024);
            let r = libc::pthread_create(&mut id, &attr, thread_main, (k + 1) as *mut libc::c_void);
            assert_eq!(r, 0);
        }
    }
    while TH.iter().any(|t| t.tid.load(SeqCst) == 0) {
        unsafe { raw(libc::SYS_sched_yield as usize, 0, 0, 0, 0, 0, 0) };
    }
    RUN_ACTIVE.store(true, SeqCst);
    let mut w = World {
        slots,
        models: (0..HASHERS).map(|_| None).collect(),
        specs,
        content,
        flights: (0..THREADS).map(|_| None).collect(),
        log: 0,
        stats: Stats::default(),
        forced: 0,
        base: thread_main as *const () as usize,
        trans: Vec::new(),
        degrees: None,
    };
    let mut res = Ok(());
    for op in &sc.ops {
        res = w.step(op);
        if res.is_err() {
            break;
        }
    }
    if res.is_ok() {
        res = w.end();
    }
    let stepped: u64 = TH.iter().map(|t| t.executed.load(SeqCst)).sum();
    w.stats.add("scheduling_points_passed", stepped);
    w.stats.add("forced_suspensions", w.forced);
    for (k, name) in COUNTERS.iter().enumerate() {
        rep.counters[k] = w.stats.counters.get(name).copied().unwrap_or(0);
    }
    rep.ntrans = w.trans.len().min(TRANS) as u64;
    rep.trans[..rep.ntrans as usize].copy_from_slice(&w.trans[..rep.ntrans as usize]);
    rep.log = w.log;
    match res {
        Ok(()) => rep.status = 1,
        Err(v) => {
            put(&mut rep.class, v.class);
            put(&mut rep.msg, &v.msg);
            rep.status = 2;
        }
    }
    unsafe { raw(libc::SYS_exit_group as usize, 0, 0, 0, 0, 0, 0) };
}

enum Verdict {
    Held(u64),
    Broken(String, String),
}

/// Execute one scenario in a process of its own.
fn execute(sc: &Scenario, rep: *mut Report, stats: &mut Stats) -> Verdict {
    unsafe {
        std::ptr::write_bytes(rep, 0, 1);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(60);
            child(sc, &mut *rep);
            raw(libc::SYS_exit_group as usize, 3, 0, 0, 0, 0, 0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let r = &*rep;
        for (k, name) in COUNTERS.iter().enumerate() {
            stats.add(name, r.counters[k]);
        }
        for &t in &r.trans[..r.ntrans as usize] {
            stats.step(t);
        }
        stats.end_run();
        match r.status {
            1 => Verdict::Held(r.log),
            2 => Verdict::Broken(get(&r.class), get(&r.msg)),
            _ if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGALRM => {
                Verdict::Broken("hang".into(), "the process did not end".into())
            }
            _ if libc::WIFSIGNALED(status) => {
                Verdict::Broken("abort".into(), format!("killed by signal {}", libc::WTERMSIG(status)))
            }
            _ => Verdict::Broken("abort".into(), format!("the process ended early with status {}", status)),
        }
    }
}

// --------------------------------------------------------------- generation

fn generate(prop: &str, seed: u64, index: u64, tier: &str) -> Scenario {
    let r = &mut Rng::new(mix(seed) ^ mix(index.wrapping_mul(0x9E37)) ^ 0x7468);
    let mut sc = Scenario::new(prop, index);
    sc.set("cpu", if r.pct(50) { 2 } else { r.below(2) });
    sc.set("builders", if r.pct(40) { 0 } else { r.next() & 0xffffff });
    let threads = r.range(2, THREADS as u64);
    let focus = r.below(7); // what this run mostly does
    let hashers = r.range(2, HASHERS as u64);
    let family = r.below(4);
    let long = if tier == "thorough" { 20 } else { 6 };
    // What a step is in this run: mostly accesses to static data, mostly edges,
    // or both.
    let accesses = *r.pick(&[0, 50, 95]);
    let steps = |r: &mut Rng| -> u64 {
        if r.pct(25) {
            0
        } else if TRACED && r.pct(accesses) {
            ACCESSES | r.range(1, 9)
        } else if TRACED {
            let bits = r.range(1, 11);
            r.range(1, 1 << bits)
        } else {
            let bits = r.range(1, 13);
            r.range(1, 1 << bits).min(if r.pct(long) { 40_000 } else { 5_000 })
        }
    };
    let len = |r: &mut Rng| -> u64 {
        match r.below(12) {
            0 => 0,
            1..=3 => r.below(140),
            10 => r.below(17),
            11 => *r.pick(&[64, 128, 256]),
            4..=6 => (r.range(1, 8) * 64 + r.below(3)).saturating_sub(1),
            7 | 8 => r.below(1200),
            _ => r.below(5000),
        }
    };
    // Many inputs come from a few: the same in several calls, or of the same
    // length, or beginning alike.
    let twins = r.pct(25);
    let only = if r.pct(50) { r.below(33) } else { len(r) };
    let pool: Vec<(u64, u64)> =
        (0..if twins { 3 } else { 4 }).map(|_| (r.below(60000), if twins { only } else { len(r) })).collect();
    let pooled = if twins { 95 } else { r.below(90) };
    let input = |r: &mut Rng| -> (u64, u64) {
        if r.pct(pooled) {
            let (off, _) = *r.pick(&pool);
            let (_, n) = *r.pick(&pool);
            (off, n)
        } else {
            (r.below(60000), len(r))
        }
    };
    // Some runs begin with the very first call already contended.
    if r.pct(50) {
        sc.set("cold", 1);
    }
    if r.pct(25) {
        // Several threads make the first call at once.
        let (n, what) = (r.range(2, THREADS as u64), *r.pick(&[0, 5, 6, 6, 12, 12, 13]));
        sc.set("cold", 1);
        for t in 0..n {
            let (st, cb) = (steps(r).max(1), 0);
            one(&mut sc, r, what, t, st, cb, t, hashers, family, 0, &input);
        }
        for _ in 0..r.below(2 * n) {
            sc.push("resume", &[r.below(n), steps(r), 0]);
        }
    }
    let warm = r.pct(60);
    for h in 0..hashers {
        let p = match family {
            0 => *r.pick(&[0, 4]),
            1 => *r.pick(&[1, 5]),
            _ => r.below(BUILDERS as u64),
        };
        let s = if warm { 0 } else { steps(r) };
        sc.push("run", &[r.below(threads), s, 0, 0, h, p]);
    }
    let n = r.range(4, 22);
    let duets = if r.pct(40) { 25 } else { 0 };
    for _ in 0..n {
        let t = r.below(threads);
        if r.pct(duets) {
            // The same kind of call in several threads, on different objects.
            let what = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 12, 12, 13]);
            // Often every call is suspended before it ends, and none waits for
            // a hasher that another holds.
            let crowd = r.pct(50);
            let fam = if family < 2 { family } else { r.below(2) };
            for u in 0..threads {
                let mut st = steps(r);
                if crowd && st == 0 {
                    st = if TRACED { ACCESSES | r.range(1, 3) } else { r.range(40, 900) };
                }
                let cb = if r.pct(10) { r.range(1, 12) } else { 0 };
                let h = u * 2 + r.below(2);
                if crowd && what == 4 {
                    let mask: u64 = (0..HASHERS as u64).filter(|h| h % threads == u).map(|h| 1 << h).sum();
                    let (off, len) = input(r);
                    sc.push("run", &[u, st, cb, 4, mask, off / 2 * 2 + fam, len, 0]);
                    continue;
                }
                one(&mut sc, r, what, u, st, cb, h, hashers, family, 0, &input);
            }
            for _ in 0..r.range(1, threads + 2) {
                sc.push("resume", &[r.below(threads), steps(r), 0]);
            }
            continue;
        }
        if r.pct(30) {
            sc.push("resume", &[t, steps(r), if r.pct(20) { r.range(1, 6) } else { 0 }]);
            continue;
        }
        let st = steps(r);
        let cb = if r.pct(30) { r.range(1, 12) } else { 0 };
        let h = r.below(hashers);
        let nested = if r.pct(30) { r.range(1, 5) | r.below(16) << 3 | r.below(12) << 8 } else { 0 };
        // `nested` is reduced modulo 6 for its kind.
        let nested = if nested == 0 { 0 } else { nested / 6 * 6 + r.range(1, 5) };
        let what = if r.pct(60) {
            match focus {
                0 => *r.pick(&[1, 2, 8]),
                1 => 4,
                2 => 5,
                3 => *r.pick(&[6, 12, 0]),
                4 => *r.pick(&[2, 9, 3]),
                5 => *r.pick(&[12, 12, 6]),
                _ => *r.pick(&[1, 4, 5, 6]),
            }
        } else {
            r.below(14)
        };
        one(&mut sc, r, what, t, st, cb, h, hashers, family, nested, &input);
    }
    sc
}

/// Adds one call.
#[allow(clippy::too_many_arguments)]
fn one(
    sc: &mut Scenario,
    r: &mut Rng,
    what: u64,
    t: u64,
    st: u64,
    cb: u64,
    h: u64,
    hashers: u64,
    family: u64,
    nested: u64,
    input: &dyn Fn(&mut Rng) -> (u64, u64),
) {
    let (off, len) = input(r);
    let h = h % hashers;
    match what {
        0 => sc.push("run", &[t, st, cb, 0, h, r.below(BUILDERS as u64)]),
        1 | 8 => sc.push("run", &[t, st, cb, what, h, off, len]),
        3 => sc.push("run", &[t, st, cb, 3, h, r.below(hashers)]),
        4 => {
            let mask = if r.pct(50) { 1023 } else { r.below(1024) };
            let fam = if family < 2 && r.pct(85) { family } else { r.below(2) };
            sc.push("run", &[t, st, cb, 4, mask, off / 2 * 2 + fam, len, nested])
        }
        5 => sc.push(
            "run",
            &[t, st, cb, 5, *r.pick(&[0, 1, 4, 5]), r.below(13), if r.pct(50) { off % 1000 } else { len }, nested],
        ),
        6 => sc.push("run", &[t, st, cb, 6, r.below(BUILDERS as u64), off, len]),
        7 => sc.push("run", &[t, st, cb, 7, r.below(BUILDERS as u64), r.below(16)]),
        11 => sc.push("run", &[t, st, cb, 11, h, r.below(2)]),
        12 => sc.push("run", &[t, st, cb, 12, 0, off, len]),
        13 => sc.push("run", &[t, st, cb, 13]),
        _ => sc.push("run", &[t, st, cb, what, h]),
    }
}

// --------------------------------------------------------------------- main

fn write_set(path: &str, set: &std::collections::HashSet<u64>) {
    let mut v: Vec<u64> = set.iter().copied().collect();
    v.sort_unstable();
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(path, bytes).expect("writing a result file");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // The same addresses in every execution.
    unsafe {
        const NO_RANDOM: libc::c_ulong = 0x0040000;
        if std::env::var_os("B2THREAD_FIXED").is_none() {
            let old = libc::personality(0xffffffff);
            libc::personality(old as libc::c_ulong | NO_RANDOM);
            std::env::set_var("B2THREAD_FIXED", "1");
            let args: Vec<std::ffi::CString> = a.iter().map(|x| std::ffi::CString::new(x.as_str()).unwrap()).collect();
            let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|x| x.as_ptr()).collect();
            ptrs.push(std::ptr::null());
            libc::execv(b"/proc/self/exe\0".as_ptr() as *const libc::c_char, ptrs.as_ptr());
        }
    }
    let num = |i: usize| -> u64 { a[i].parse().expect("number") };
    std::panic::set_hook(Box::new(|_| {}));
    reserve_bump();
    let rep = report();
    let mut stats = Stats::default();
    match a.get(1).map(|s| s.as_str()) {
        Some("gen") => print!("{}", generate(&a[2], num(3), num(4), &a[5]).text()),
        Some("exec") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let mut last = 0;
            for part in text.split("b2sim 1\n").skip(1) {
                let sc = Scenario::parse(part).expect("parse");
                match execute(&sc, rep, &mut stats) {
                    Verdict::Held(log) => last = log,
                    Verdict::Broken(class, msg) => {
                        println!("BROKEN class={} {}", class, msg);
                        std::process::exit(1);
                    }
                }
            }
            println!("HELD log={:016x}", last);
        }
        Some("log") => {
            let mut out = std::io::BufWriter::new(std::io::stdout());
            for i in (num(4)..num(5)).step_by(num(7) as usize) {
                let sc = generate(&a[2], num(3), i, &a[6]);
                match execute(&sc, rep, &mut stats) {
                    Verdict::Held(log) => writeln!(out, "{} {:016x}", i, log).unwrap(),
                    Verdict::Broken(c, _) => writeln!(out, "{} {}", i, c).unwrap(),
                }
            }
        }
        Some("search") => {
            let (prop, seed, w, ws, count, tier, prefix) = (&a[2], num(3), num(4), num(5), num(6), &a[7], &a[8]);
            let cap = std::time::Duration::from_secs(num(9));
            let start = std::time::Instant::now();
            if let Err(e) = model::self_check() {
                println!("{}", e);
                std::process::exit(2);
            }
            let mut logs =
                std::io::BufWriter::new(std::fs::File::create(format!("{}.logs", prefix)).expect("log file"));
            let (mut i, mut runs, mut steps) = (w, 0u64, 0u64);
            let mut verdict = String::new();
            let mut capped = false;
            while i < count {
                if runs % 64 == 0 && start.elapsed() > cap {
                    capped = true;
                    break;
                }
                std::fs::write(format!("{}.cur", prefix), i.to_le_bytes()).expect("status file");
                let sc = generate(prop, seed, i, tier);
                steps += sc.ops.len() as u64;
                runs += 1;
                match execute(&sc, rep, &mut stats) {
                    Verdict::Held(log) => logs.write_all(&log.to_le_bytes()).expect("log file"),
                    Verdict::Broken(class, msg) => {
                        verdict = format!(
                            ", \"violation\": {{\"index\": {}, \"class\": \"{}\", \"msg\": \"{}\"}}",
                            i,
                            class,
                            msg.replace('\\', "").replace('"', "'")
                        );
                        break;
                    }
                }
                i += ws;
            }
            logs.flush().expect("log file");
            write_set(&format!("{}.transitions", prefix), &stats.transitions);
            write_set(&format!("{}.runs", prefix), &stats.runs);
            let counters: Vec<String> = stats.counters.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
            println!(
                "{{\"runs\": {}, \"steps\": {}, \"nontrivial\": {}, \"capped\": {}, \"counters\": {{{}}}{}}}",
                runs,
                steps,
                stats.nontrivial,
                capped,
                counters.join(", "),
                verdict
            );
        }
        _ => {
            eprintln!("usage: b2thread search|gen|exec|log ...");
            std::process::exit(2);
        }
    }
}
