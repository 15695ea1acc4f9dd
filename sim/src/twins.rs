//! Twin histories, which differ in nothing but their secrets: the bytes of
//! keys, inputs and digests. C21 compares the courses that the calls take,
//! instruction by instruction, in simulated time; C22 what is shown of the
//! objects.

use crate::model::{Spec, Variant};
use crate::rng::{mix, Rng};
use crate::scenario::{Op, Scenario};
use crate::stats::Stats;
use crate::sut::set_cpu;
use crate::world::{last_panic, violation, Res};
use blake2b_simd as kb;
use blake2s_simd as ks;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------- the simulated clock

static TICKS: AtomicU64 = AtomicU64::new(0);
/// Those of them outside the C library, whose copying depends on addresses.
static OWN: AtomicU64 = AtomicU64::new(0);
static COURSE: AtomicU64 = AtomicU64::new(0);
static INSTALLED: AtomicBool = AtomicBool::new(false);

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

extern "C" fn on_tick(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let u = ctx as *mut libc::ucontext_t;
        let rip = (*u).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        TICKS.store(TICKS.load(Relaxed) + 1, Relaxed);
        let (lo, hi) = (&__executable_start as *const u8 as u64, &etext as *const u8 as u64);
        if (lo..hi).contains(&rip) {
            OWN.store(OWN.load(Relaxed) + 1, Relaxed);
        }
        COURSE.store((COURSE.load(Relaxed) ^ rip).wrapping_mul(0x100_0000_01b3).rotate_left(23), Relaxed);
    }
}

fn install() {
    if !INSTALLED.swap(true, Relaxed) {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_tick as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
    }
}

#[inline(always)]
unsafe fn trap(on: bool) {
    if on {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop")
    } else {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq", "nop")
    }
}

// --------------------------------------------------------------- the objects

const SLOTS: usize = 4;
const JOBS: usize = 9;
const ROOM: usize = 1 << 15;
const JOB_ROOM: usize = 1 << 12;

enum P {
    B(kb::Params),
    S(ks::Params),
    Bp(kb::blake2bp::Params),
    Sp(ks::blake2sp::Params),
}

enum H {
    B(kb::State),
    S(ks::State),
    Bp(kb::blake2bp::State),
    Sp(ks::blake2sp::State),
}

#[derive(Clone, Copy)]
enum D {
    B(kb::Hash),
    S(ks::Hash),
}

enum J {
    B(kb::many::HashManyJob<'static>),
    S(ks::many::HashManyJob<'static>),
}

macro_rules! each {
    ($t:ident, $h:expr, $x:ident => $e:expr) => {
        match $h {
            $t::B($x) => $e,
            $t::S($x) => $e,
            $t::Bp($x) => $e,
            $t::Sp($x) => $e,
        }
    };
}

/// One of the twins; both live at the same place, one after the other.
struct Twin {
    p: [Option<P>; SLOTS],
    h: [Option<H>; SLOTS],
    d: [Option<D>; SLOTS],
    j: [Option<J>; JOBS],
    input: [u8; ROOM],
    job_input: [[u8; JOB_ROOM]; JOBS],
    other: D,
    bytes: [u8; 64],
}

/// What can be seen of one step: the course of its calls and its renderings.
#[derive(PartialEq, Clone, Default)]
struct Seen {
    ticks: u64,
    own: u64,
    course: u64,
    shown: Vec<String>,
}

struct World<'a> {
    t: Box<Twin>,
    /// Which twin: 0 and 1; the first of three passes only warms up.
    who: u64,
    timed: bool,
    seen: Seen,
    stats: &'a mut Stats,
}

fn arg(op: &Op, i: usize) -> u64 {
    op.args.get(i).copied().unwrap_or(0)
}

/// Lengths of batch members vary around a base.
fn vary(len: u64, i: u64) -> usize {
    (match i % 4 {
        0 => len,
        1 => len / 2,
        2 => len + 1,
        _ => len + 130,
    }) as usize
        % JOB_ROOM
}

/// The secret bytes of a step. Twins get different ones, of a similar kind or
/// not.
fn secret(seed: u64, who: u64, style: u64, to: &mut [u8]) {
    let mut r = Rng::new(mix(seed ^ mix(who << 7)));
    match (style % 6, who) {
        (0, _) | (4, 1) | (5, 1) => to.iter_mut().for_each(|b| *b = r.next() as u8),
        (1, 0) => to.iter_mut().for_each(|b| *b = 0),
        (1, _) => to.iter_mut().for_each(|b| *b = 0xff),
        // One byte differs.
        (2, _) | (3, _) => {
            let mut same = Rng::new(mix(seed));
            to.iter_mut().for_each(|b| *b = if style % 6 == 2 { 0 } else { same.next() as u8 });
            let n = to.len() as u64;
            if who == 1 && n > 0 {
                let k = *same.pick(&[0, n - 1, n / 2, same.clone().below(n)]);
                to[k as usize] ^= 1 << same.below(8);
            }
        }
        (4, _) => to.iter_mut().for_each(|b| *b = 0),
        // Text.
        _ => to.iter_mut().for_each(|b| *b = b'a' + r.below(26) as u8),
    }
}

impl<'a> World<'a> {
    /// A call whose course counts.
    #[inline(never)]
    fn call(&mut self, f: &mut dyn FnMut(&mut Twin)) {
        let t: &mut Twin = &mut self.t;
        if !self.timed {
            return f(t);
        }
        TICKS.store(0, Relaxed);
        OWN.store(0, Relaxed);
        COURSE.store(0, Relaxed);
        unsafe {
            trap(true);
        }
        f(t);
        unsafe {
            trap(false);
        }
        self.seen.ticks += TICKS.load(Relaxed);
        self.seen.own += OWN.load(Relaxed);
        self.seen.course = mix(self.seen.course ^ COURSE.load(Relaxed));
    }

    fn show<T: std::fmt::Debug>(&mut self, x: &T) {
        self.seen.shown.push(format!("{:?}", x));
        self.seen.shown.push(format!("{:#?}", x));
        match self.seen.shown.len() % 8 {
            2 => self.seen.shown.push(format!("{:x?} {:#X?}", x, x)),
            4 => self.seen.shown.push(format!("{:300?}", x)),
            _ => {}
        }
    }

    fn show_all(&mut self) {
        for i in 0..SLOTS {
            if let Some(p) = self.t.p[i].take() {
                each!(P, &p, x => self.show(x));
                self.t.p[i] = Some(p);
            }
            if let Some(h) = self.t.h[i].take() {
                each!(H, &h, x => self.show(x));
                self.t.h[i] = Some(h);
            }
        }
        for i in 0..JOBS {
            if let Some(j) = self.t.j[i].take() {
                match &j {
                    J::B(x) => self.show(x),
                    J::S(x) => self.show(x),
                }
                self.t.j[i] = Some(j);
            }
        }
        self.stats.hit("renderings of every object");
    }

    fn step(&mut self, op: &Op) {
        let a = arg(op, 0) as usize % SLOTS;
        let b = arg(op, 1) as usize % SLOTS;
        let (seed, who) = (arg(op, 3), self.who);
        let style = seed >> 20;
        let len = arg(op, 2) as usize % (ROOM - 200);
        match op.name.as_str() {
            // tp: slot, kind, key length, secrets
            "tp" => {
                let v = Variant::from(arg(op, 1));
                set_cpu(arg(op, 1) >> 8);
                let mut key = [0u8; 64];
                let n = len % (v.out() + 1);
                secret(seed, who, style, &mut key[..n]);
                let key = &key[..n];
                let mut r = Rng::new(arg(op, 1) >> 16);
                let (full, public) = (v.out(), arg(op, 1) >> 16 != 0);
                let out = if public { 1 + r.below(full as u64) as usize } else { full };
                macro_rules! tree {
                    ($p:ident, $salt:expr) => {
                        if public {
                            $p.hash_length(out);
                            if r.pct(50) {
                                $p.salt(&[r.next() as u8; $salt]).personal(&[r.next() as u8; $salt]);
                            }
                            if r.pct(30) {
                                $p.fanout(r.next() as u8).node_offset(r.next() >> 20).last_node(r.pct(50));
                            }
                        }
                    };
                }
                let p = match v {
                    Variant::B => {
                        let mut p = kb::Params::new();
                        tree!(p, 16);
                        P::B(p)
                    }
                    Variant::S => {
                        let mut p = ks::Params::new();
                        tree!(p, 8);
                        P::S(p)
                    }
                    Variant::Bp => {
                        let mut p = kb::blake2bp::Params::new();
                        p.hash_length(out);
                        P::Bp(p)
                    }
                    Variant::Sp => {
                        let mut p = ks::blake2sp::Params::new();
                        p.hash_length(out);
                        P::Sp(p)
                    }
                };
                set_cpu(2);
                self.t.p[a] = Some(p);
                self.call(&mut |t| {
                    each!(P, t.p[a].as_mut().unwrap(), p => {
                        p.key(key);
                    })
                });
            }
            // tbad: slot, -, excess length, secrets: a key that is refused
            "tbad" => {
                let mut key = vec![0u8; 65 + len % 300];
                secret(seed, who, style, &mut key);
                if let Some(p) = &mut self.t.p[a] {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        each!(P, p, p => {
                            p.key(&key);
                        })
                    }));
                    if r.is_err() {
                        self.seen.shown.push(last_panic());
                    }
                    self.stats.hit("fault: refused key");
                }
            }
            // tk: builder, -, key length, secrets: another key
            "tk" => {
                if self.t.p[a].is_none() {
                    return;
                }
                let mut key = [0u8; 64];
                let most = match self.t.p[a].as_ref().unwrap() {
                    P::B(_) | P::Bp(_) => 64,
                    _ => 32,
                };
                let n = len % (most + 1);
                secret(seed, who, style, &mut key[..n]);
                let key = &key[..n];
                self.call(&mut |t| {
                    each!(P, t.p[a].as_mut().unwrap(), p => {
                        p.key(key);
                    })
                });
            }
            // tr: builder, which, how far: another setting that is refused
            "tr" => {
                if let Some(p) = &mut self.t.p[a] {
                    let n = match arg(op, 2) % 4 {
                        0 => 65,
                        1 => 256 + len,
                        2 => usize::MAX,
                        _ => 66 + len % 100,
                    };
                    let long = vec![7u8; 17 + len % 300];
                    let r = catch_unwind(AssertUnwindSafe(|| match (p, arg(op, 1) % 5) {
                        (P::B(p), 1) => drop(p.salt(&long)),
                        (P::S(p), 1) => drop(p.salt(&long)),
                        (P::B(p), 2) => drop(p.personal(&long)),
                        (P::S(p), 2) => drop(p.personal(&long)),
                        (P::B(p), 3) => drop(p.inner_hash_length(n)),
                        (P::S(p), 3) => drop(p.inner_hash_length(n)),
                        (p, 4) => each!(P, p, p => drop(p.hash_length(0))),
                        (p, _) => each!(P, p, p => drop(p.hash_length(n))),
                    }));
                    if r.is_err() {
                        self.seen.shown.push(last_panic());
                    }
                    self.stats.hit("fault: refused setting");
                }
            }
            // tu: builder, -, length, secrets: a job asked for its digest
            // before it ran
            "tu" => {
                if self.timed || !matches!(self.t.p[b], Some(P::B(_)) | Some(P::S(_))) {
                    return;
                }
                let l = len % JOB_ROOM;
                self.t.j[0] = None;
                secret(seed, who, style, &mut self.t.job_input[0][..l]);
                let t = &mut *self.t;
                // The world outlives its jobs.
                let input: &'static [u8] = unsafe { std::slice::from_raw_parts(t.job_input[0].as_ptr(), l) };
                t.j[0] = match t.p[b].as_ref().unwrap() {
                    P::B(p) => Some(J::B(kb::many::HashManyJob::new(p, input))),
                    P::S(p) => Some(J::S(ks::many::HashManyJob::new(p, input))),
                    _ => None,
                };
                let r = catch_unwind(AssertUnwindSafe(|| match t.j[0].as_ref() {
                    Some(J::B(j)) => drop(std::hint::black_box(j.to_hash())),
                    Some(J::S(j)) => drop(std::hint::black_box(j.to_hash())),
                    _ => {}
                }));
                if r.is_err() {
                    self.seen.shown.push(last_panic());
                }
                self.stats.hit("fault: digest of a job that did not run");
                self.show_all();
            }
            // ti: -, where, length, secrets: a batched update that is
            // interrupted
            "ti" => {
                if self.timed {
                    return;
                }
                secret(seed, who, style, &mut self.t.input[..JOB_ROOM]);
                let n = len as u64;
                let stop = arg(op, 1) as usize % (SLOTS + 1);
                let Twin { h, input, .. } = &mut *self.t;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    kb::many::update_many(h.iter_mut().enumerate().filter_map(|(i, h)| match h {
                        _ if i == stop => panic!("interrupted"),
                        Some(H::B(h)) => Some((h, &input[..vary(n, i as u64)])),
                        _ => None,
                    }));
                    ks::many::update_many(h.iter_mut().enumerate().filter_map(|(i, h)| match h {
                        _ if i == stop => panic!("interrupted"),
                        Some(H::S(h)) => Some((h, &input[..vary(n, i as u64)])),
                        _ => None,
                    }));
                }));
                if r.is_err() {
                    self.seen.shown.push(last_panic());
                    self.stats.hit("fault: interrupted batch");
                }
                self.show_all();
            }
            // tw: hasher, bits, bytes: far ahead in its stream
            "tw" => {
                let rows = len as u128 / 512 + 1;
                let by = rows * 512 << (arg(op, 1) % 100);
                match &mut self.t.h[a] {
                    Some(H::B(h)) => h.sim_advance_count(by),
                    Some(H::S(h)) => h.sim_advance_count(by as u64),
                    Some(H::Bp(h)) => h.sim_advance_count(by),
                    Some(H::Sp(h)) => h.sim_advance_count(by as u64),
                    None => {}
                }
            }
            "th" => {
                if self.t.p[b].is_some() {
                    self.call(&mut |t| {
                        t.h[a] = Some(match t.p[b].as_ref().unwrap() {
                            P::B(p) => H::B(p.to_state()),
                            P::S(p) => H::S(p.to_state()),
                            P::Bp(p) => H::Bp(p.to_state()),
                            P::Sp(p) => H::Sp(p.to_state()),
                        })
                    });
                }
            }
            // tf: hasher, way, length, secrets
            "tf" => {
                if self.t.h[a].is_some() {
                    secret(seed, who, style, &mut self.t.input[..len]);
                    let way = arg(op, 1);
                    self.call(&mut |t| {
                        let Twin { h, input, .. } = t;
                        let input = &input[..len];
                        let h = h[a].as_mut().unwrap();
                        match (way % 4, h) {
                            #[cfg(feature = "std")]
                            (1, h) => each!(H, h, h => {
                                let _ = h.write(input);
                            }),
                            (2, H::B(h)) => kb::many::update_many(std::iter::once((h, input))),
                            (2, H::S(h)) => ks::many::update_many(std::iter::once((h, input))),
                            (_, h) => each!(H, h, h => {
                                h.update(input);
                            }),
                        }
                    });
                }
            }
            // tm: all hashers at once
            "tm" => {
                secret(seed, who, style, &mut self.t.input[..JOB_ROOM]);
                let n = len as u64;
                self.call(&mut |t| {
                    let Twin { h, input, .. } = t;
                    kb::many::update_many(h.iter_mut().enumerate().filter_map(|(i, h)| match h {
                        Some(H::B(h)) => Some((h, &input[..vary(n, i as u64)])),
                        _ => None,
                    }));
                    ks::many::update_many(h.iter_mut().enumerate().filter_map(|(i, h)| match h {
                        Some(H::S(h)) => Some((h, &input[..vary(n, i as u64)])),
                        _ => None,
                    }));
                });
            }
            // tj: number, builder, length, secrets: jobs, run at once
            "tj" => {
                let n = 1 + arg(op, 0) as usize % JOBS;
                if !matches!(self.t.p[b], Some(P::B(_)) | Some(P::S(_))) {
                    return;
                }
                for i in 0..n {
                    let l = vary(len as u64, i as u64);
                    self.t.j[i] = None;
                    secret(seed ^ i as u64, who, style, &mut self.t.job_input[i][..l]);
                }
                for i in 0..n {
                    let l = vary(len as u64, i as u64);
                    self.call(&mut |t| {
                        // The world outlives its jobs.
                        let input: &'static [u8] = unsafe { std::slice::from_raw_parts(t.job_input[i].as_ptr(), l) };
                        t.j[i] = match t.p[b].as_ref().unwrap() {
                            P::B(p) => Some(J::B(kb::many::HashManyJob::new(p, input))),
                            P::S(p) => Some(J::S(ks::many::HashManyJob::new(p, input))),
                            _ => None,
                        }
                    });
                }
                if !self.timed && arg(op, 1) & 4 == 4 {
                    self.show_all();
                }
                self.call(&mut |t| {
                    kb::many::hash_many(t.j[..n].iter_mut().filter_map(|j| match j {
                        Some(J::B(j)) => Some(j),
                        _ => None,
                    }));
                    ks::many::hash_many(t.j[..n].iter_mut().filter_map(|j| match j {
                        Some(J::S(j)) => Some(j),
                        _ => None,
                    }));
                });
                self.call(&mut |t| {
                    t.d[a] = match t.j[n - 1].as_ref().unwrap() {
                        J::B(j) => Some(D::B(j.to_hash())),
                        J::S(j) => Some(D::S(j.to_hash())),
                    }
                });
            }
            // td: digest, hasher
            "td" => {
                if self.t.h[b].is_some() {
                    self.call(&mut |t| {
                        t.d[a] = Some(match t.h[b].as_ref().unwrap() {
                            H::B(h) => D::B(h.finalize()),
                            H::S(h) => D::S(h.finalize()),
                            H::Bp(h) => D::B(h.finalize()),
                            H::Sp(h) => D::S(h.finalize()),
                        })
                    });
                }
            }
            // to: digest, builder, length, secrets
            "to" => {
                if self.t.p[b].is_some() {
                    secret(seed, who, style, &mut self.t.input[..len]);
                    self.call(&mut |t| {
                        let Twin { p, d, input, .. } = t;
                        let input = &input[..len];
                        d[a] = Some(match p[b].as_ref().unwrap() {
                            P::B(p) => D::B(p.hash(input)),
                            P::S(p) => D::S(p.hash(input)),
                            P::Bp(p) => D::B(p.hash(input)),
                            P::Sp(p) => D::S(p.hash(input)),
                        })
                    });
                }
            }
            // ta: digest, -, -, secrets: a digest from an array
            "ta" => {
                let big = arg(op, 1) & 1 == 1;
                let mut x = [0u8; 64];
                secret(seed, who, style, &mut x);
                self.call(&mut |t| {
                    t.d[a] = Some(if big {
                        D::B(x.into())
                    } else {
                        let mut y = [0u8; 32];
                        y.copy_from_slice(&x[..32]);
                        D::S(y.into())
                    })
                });
            }
            // te: digest, way, -, secrets: compared with one that differs
            // elsewhere for each twin, or not at all
            "te" => {
                let d = match self.t.d[a] {
                    Some(d) => d,
                    None => return,
                };
                let n = match &d {
                    D::B(d) => d.as_bytes().len(),
                    D::S(d) => d.as_bytes().len(),
                };
                let mut bytes = [0u8; 64];
                match &d {
                    D::B(d) => bytes[..n].copy_from_slice(d.as_bytes()),
                    D::S(d) => bytes[..n].copy_from_slice(d.as_bytes()),
                }
                let mut r = Rng::new(mix(seed ^ who));
                match (style + who) % 4 {
                    0 => {}
                    1 => bytes[r.below(n as u64) as usize] ^= 1 << r.below(8),
                    2 => secret(seed, who, 0, &mut bytes[..n]),
                    _ => {
                        let k = *r.pick(&[0, n - 1]);
                        bytes[k] ^= r.range(1, 255) as u8;
                    }
                }
                self.t.bytes = bytes;
                let full = matches!((&d, n), (D::B(_), 64) | (D::S(_), 32));
                let way = arg(op, 1) % 3;
                if full {
                    self.t.other = match d {
                        D::B(_) => D::B(bytes.into()),
                        D::S(_) => {
                            let mut y = [0u8; 32];
                            y.copy_from_slice(&bytes[..32]);
                            D::S(y.into())
                        }
                    };
                } else if let (1, Some(o)) = (way, self.t.d[b]) {
                    self.t.other = o;
                }
                self.call(&mut |t| {
                    let r = match (&t.d[a], &t.other, way) {
                        (Some(D::B(x)), D::B(y), 1) => x == y,
                        (Some(D::S(x)), D::S(y), 1) => x == y,
                        (Some(D::B(x)), D::B(y), 2) => x != y,
                        (Some(D::S(x)), D::S(y), 2) => x != y,
                        (Some(D::B(x)), _, _) => *x == t.bytes[..n],
                        (Some(D::S(x)), _, _) => *x == t.bytes[..n],
                        _ => false,
                    };
                    std::hint::black_box(r);
                });
                self.stats.hit("digests compared");
            }
            // tl: hasher, flag
            "tl" => {
                let f = arg(op, 1) & 1 == 1;
                self.call(&mut |t| match &mut t.h[a] {
                    Some(H::B(h)) => {
                        h.set_last_node(f);
                    }
                    Some(H::S(h)) => {
                        h.set_last_node(f);
                    }
                    _ => {}
                });
            }
            // tc: hasher, hasher
            "tc" => {
                if a != b && self.t.h[a].is_some() {
                    self.call(&mut |t| {
                        t.h[b] = Some(match t.h[a].as_ref().unwrap() {
                            H::B(h) => H::B(h.clone()),
                            H::S(h) => H::S(h.clone()),
                            H::Bp(h) => H::Bp(h.clone()),
                            H::Sp(h) => H::Sp(h.clone()),
                        })
                    });
                }
            }
            "ts" => {
                if !self.timed {
                    self.show_all();
                }
            }
            _ => {}
        }
    }

    fn history(&mut self, sc: &Scenario, who: u64) -> Vec<Seen> {
        self.who = who;
        self.t.p = Default::default();
        self.t.h = Default::default();
        self.t.d = Default::default();
        self.t.j = Default::default();
        self.t.other = D::B([0; 64].into());
        let mut all = Vec::with_capacity(sc.ops.len());
        for op in &sc.ops {
            self.seen = Seen::default();
            self.step(op);
            all.push(self.seen.clone());
        }
        if !self.timed {
            self.seen = Seen::default();
            self.show_all();
            all.push(self.seen.clone());
        }
        all
    }
}

pub fn run(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    install();
    let timed = sc.prop == "C21";
    for op in &sc.ops {
        let kind = op.name.bytes().fold(0u64, |h, c| h << 8 | c as u64);
        let len = arg(op, 2);
        let class = (64 - len.leading_zeros() as u64) << 4 | (len % 64 == 0) as u64 | ((len % 128 == 0) as u64) << 1;
        stats.step(kind << 24 | (arg(op, 1) & 0x3ff) << 12 | class);
    }
    let mut w = World {
        t: Box::new(Twin {
            p: Default::default(),
            h: Default::default(),
            d: Default::default(),
            j: Default::default(),
            input: [0; ROOM],
            job_input: [[0; JOB_ROOM]; JOBS],
            other: D::B([0; 64].into()),
            bytes: [0; 64],
        }),
        who: 0,
        timed,
        seen: Seen::default(),
        stats,
    };
    if timed {
        // Whatever happens once in a process has happened now.
        w.timed = false;
        w.history(sc, 0);
        w.timed = true;
    }
    let one = w.history(sc, 0);
    let two = w.history(sc, 1);
    let mut log = 0u64;
    let mut ticks = 0;
    let mut res = Ok(());
    for (i, (x, y)) in one.iter().zip(&two).enumerate() {
        let name = sc.ops.get(i).map_or("the end", |o| &o.name);
        if verbose {
            println!("step {} {}: {} ticks / {}", i, name, x.ticks, y.ticks);
            x.shown.iter().for_each(|s| println!("  {}", s));
        }
        for s in &x.shown {
            log = s.bytes().fold(log, |h, c| (h ^ c as u64).wrapping_mul(0x100_0000_01b3));
        }
        log = mix(log ^ x.own);
        ticks += x.ticks;
        if x == y || res.is_err() {
            continue;
        }
        if x.ticks != y.ticks || x.course != y.course {
            res = violation(
                "course",
                format!(
                    "step {} ({}) takes {} instructions, with other secrets of the same length {}{}",
                    i,
                    name,
                    x.ticks,
                    y.ticks,
                    if x.ticks == y.ticks { ", other ones" } else { "" }
                ),
            );
        } else {
            let k = (0..x.shown.len().min(y.shown.len())).find(|&k| x.shown[k] != y.shown[k]).unwrap_or(0);
            res = violation(
                "shown",
                format!(
                    "step {} ({}) shows {:?}, with other secrets {:?}",
                    i,
                    name,
                    x.shown.get(k),
                    y.shown.get(k)
                ),
            );
        }
    }
    w.stats.add("simulated instructions", ticks);
    w.stats.end_run();
    res.map(|_| log)
}

pub fn generate(r: &mut Rng, sc: &mut Scenario, timed: bool, thorough: bool) {
    let builder = |r: &mut Rng, sc: &mut Scenario, slot: u64| {
        let v = r.below(4);
        let cpu = r.below(3);
        let public = if r.pct(50) { r.next() >> 40 } else { 0 };
        let keylen = *r.pick(&[0, 0, 1, 16, 32, 64, r.clone().below(65)]);
        let secrets = r.next() >> 1;
        let _ = Spec::new(Variant::from(v));
        sc.push("tp", &[slot, v | cpu << 8 | public << 16, keylen, secrets]);
    };
    let n = r.range(1, SLOTS as u64);
    for s in 0..n {
        builder(r, sc, s);
        if r.pct(80) {
            let b = r.below(s + 1);
            sc.push("th", &[s, b]);
        }
    }
    let big = match timed {
        // Every instruction counts.
        true if thorough || r.pct(10) => 900,
        true => 140,
        false => 3000,
    };
    let steps = if timed { r.range(2, 10) } else { r.range(2, 25) };
    // Seldom, one long input.
    let long = if r.below(60) == 0 { r.below(steps) } else { steps };
    for step in 0..steps {
        let a = r.below(n.max(2));
        let b = r.below(n);
        let len = match r.below(4) {
            0 => r.below(4),
            1 => *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]).min(&(big + 100)),
            2 => r.below(200),
            _ => r.below(big),
        };
        let x = r.next() >> 1;
        if step == long {
            let len = r.below(if timed { 20_000 } else { ROOM as u64 - 200 });
            let way = r.below(4);
            let name = *r.pick(&["tf", "tf", "to"]);
            sc.push(name, &[a, if name == "tf" { way } else { b }, len, x]);
            continue;
        }
        match r.below(if timed { 24 } else { 29 }) {
            22 | 23 => sc.push("tk", &[a, 0, len, x]),
            24 | 25 => {
                let (way, n) = (r.below(5), r.below(4) | r.below(50) << 2);
                sc.push("tr", &[a, way, n]);
            }
            26 => sc.push("tu", &[0, b, len, x]),
            27 => {
                let stop = r.below(5);
                sc.push("ti", &[0, stop, len, x]);
            }
            28 => {
                let bits = r.below(100);
                sc.push("tw", &[a, bits, len]);
            }
            0 => builder(r, sc, a),
            1 | 2 => sc.push("th", &[a, b]),
            3..=6 => {
                let way = r.below(4);
                sc.push("tf", &[a, way, len, x]);
            }
            7 => sc.push("tm", &[0, 0, len, x]),
            8 | 9 => {
                let k = r.below(JOBS as u64);
                sc.push("tj", &[k, b | r.below(2) << 2, len.min(300), x]);
            }
            10 | 11 => sc.push("td", &[a, b]),
            12 => sc.push("to", &[a, b, len, x]),
            13 => {
                let big = r.below(2);
                sc.push("ta", &[a, big, 0, x]);
            }
            14..=17 => {
                let way = r.below(12);
                sc.push("te", &[a, way, 0, x]);
            }
            18 => {
                let f = r.below(2);
                sc.push("tl", &[a, f]);
            }
            19 => sc.push("tc", &[a, b]),
            20 => sc.push("tbad", &[a, 0, len, x]),
            _ => sc.push("ts", &[]),
        }
    }
}
