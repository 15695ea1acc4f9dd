//! The in-process world: hashers, jobs, transports, snapshots, crashes and
//! batches, driven step by step by a scenario and judged against the models.

use crate::guard::{Buf, Place};
use crate::heap::{plenty, scarce, work};
use crate::model::{hex, Model, Spec, Variant};
use crate::rng::{fill_content, mix, Rng};
use crate::scenario::{Op, Scenario};
use crate::stats::Stats;
use crate::sut::{self, FamB, FamS, Family, Hasher};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: &'static str,
    pub msg: String,
}

pub type Res<T> = Result<T, Violation>;

pub fn violation<T>(class: &'static str, msg: String) -> Res<T> {
    Err(Violation { class, msg })
}

pub const SLOTS: usize = 48;
pub const MAX_FEED: u64 = 1 << 20;
/// Bytes one run may push through the hashers.
const BUDGET: u64 = 6 << 20;

/// The payload of an injected panic.
pub struct SimPanic;

/// Parameters derived from a seed; each bit of `mask` enables one group.
pub fn make_spec(variant: Variant, pseed: u64, mask: u64) -> Spec {
    let mut s = Spec::new(variant);
    let rng = |g: u64| Rng::new(mix(pseed).wrapping_add(g));
    let out = variant.out() as u64;
    let len = |r: &mut Rng, lo: u64, hi: u64| match r.below(4) {
        0 => hi,
        1 => lo,
        _ => r.range(lo, hi),
    };
    let bytes = |r: &mut Rng, n: u64| -> Vec<u8> {
        let style = r.below(20);
        let cut = if style == 3 { r.below(n) } else { n };
        (0..n)
            .map(|i| match style {
                0 | 1 => 0,
                2 => 0xff,
                _ if i >= cut || r.pct(10) => 0,
                _ => r.next() as u8,
            })
            .collect()
    };
    if mask & 1 != 0 {
        s.hash_length = len(&mut rng(1), 1, out) as usize;
    }
    if mask & 2 != 0 {
        let r = &mut rng(2);
        let n = len(r, 1, out);
        s.key = bytes(r, n);
    }
    if variant.parallel() {
        return s;
    }
    if mask & 4 != 0 {
        let r = &mut rng(3);
        let n = len(r, 1, out / 4);
        s.salt = bytes(r, n);
    }
    if mask & 8 != 0 {
        let r = &mut rng(4);
        let n = len(r, 1, out / 4);
        s.personal = bytes(r, n);
    }
    if mask & 16 != 0 {
        let r = &mut rng(5);
        s.fanout = *r.pick(&[0, 1, 2, 4, 8, 255]);
        s.max_depth = *r.pick(&[1, 2, 3, 255]);
        s.max_leaf_length = *r.pick(&[0, 1, 4096, 0x8000_0000, u32::MAX]);
        if r.pct(50) {
            s.fanout = r.next() as u8;
            s.max_depth = r.range(1, 255) as u8;
            s.max_leaf_length = (r.next() as u32) >> r.below(32);
        }
    }
    if mask & 32 != 0 {
        let r = &mut rng(6);
        let top = if variant.big() { u64::MAX } else { (1 << 48) - 1 };
        s.node_offset = *r.pick(&[0, 1, 255, 1 << 32, (1 << 40) + 3, top]) & top;
        s.node_depth = *r.pick(&[0, 1, 2, 255]);
        s.inner_hash_length = len(r, 0, out) as usize;
        if r.pct(50) {
            s.node_offset = (r.next() >> r.below(64)) & top;
            s.node_depth = r.next() as u8;
        }
    }
    if mask & 64 != 0 {
        s.last_node = true;
    }
    s
}

struct Slot {
    h: Hasher,
    m: Model,
    spec: Spec,
    /// Identity of the input stream.
    cseed: u64,
    text: bool,
    cpu: u64,
    /// Where the source will read next; the count the hasher should have.
    src: u128,
    jumped: bool,
}

impl Slot {
    fn content(&self, pos: u128, out: &mut [u8]) {
        fill_content(self.cseed, pos as u64, out);
        if self.text {
            out.iter_mut().for_each(|b| *b &= 0x7f);
        }
    }
}

enum AnyJob {
    B(Place<<FamB as Family>::Job>),
    S(Place<<FamS as Family>::Job>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ran {
    No,
    Yes,
    /// Its batch was interrupted; it must be submitted again to be known.
    Unknown,
}

struct JobSlot {
    job: AnyJob,
    variant: Variant,
    expected: Vec<u8>,
    ran: Ran,
    buf: Rc<RefCell<Buf>>,
    len: u64,
    keyed: bool,
    spec: Spec,
}

/// Which observations this property judges.
#[derive(Clone, Copy)]
struct Oracle {
    digest: bool,
    count: bool,
    count_always: bool,
    oneshot: bool,
}

pub struct World<'a> {
    prop: String,
    oracle: Oracle,
    guarded: bool,
    cpu_override: Option<u64>,
    slots: Vec<Option<Slot>>,
    ckpts: Vec<Option<(Hasher, Model, Spec, u64, bool, u64, bool)>>,
    jobs: Vec<Option<JobSlot>>,
    budget: u64,
    pub log: u64,
    pub verbose: bool,
    pub stats: &'a mut Stats,
}

fn variant_fam(v: Variant) -> u64 {
    (!v.big()) as u64
}

/// Position class of a byte count relative to block and row boundaries.
pub fn class(n: u64, v: Variant) -> u64 {
    let (b, r) = (v.block() as u64, v.row() as u64);
    let c = if n == 0 {
        0
    } else if n % r == 0 {
        1
    } else if n % r == 1 {
        2
    } else if n % r == r - 1 {
        3
    } else if n % b == 0 {
        4
    } else if n % b == 1 {
        5
    } else if n % b == b - 1 {
        6
    } else {
        7
    };
    c * 4 + (n / r).min(3)
}

#[derive(Clone, Copy)]
pub struct IterPlan {
    /// bit 0: exact size hint, bit 1: yields None once in the middle,
    /// bit 2: nested calls in next(), bit 3: nested calls in as_ref()
    pub flags: u64,
    pub gap_at: u64,
    /// Item index + 1 at which to panic; 0: never.
    pub panic_at: u64,
    /// 0: in next(), 1: in as_ref(), 2: when the iterator is dropped, 3: in the
    /// second as_ref() of an item, 4: in size_hint(), 5: in into_iter()
    pub panic_kind: u64,
    /// How the size hint is wrong; 0: it isn't.
    pub lie: u64,
}

const PANIC_KINDS: u64 = 6;

fn panic_name(kind: u64) -> &'static str {
    match kind {
        0 => "fault: panic in the caller's iterator",
        1 | 3 => "fault: panic in the input accessor",
        2 => "fault: panic when the iterator is dropped",
        4 => "fault: panic in size_hint()",
        _ => "fault: panic in into_iter()",
    }
}

/// The caller's input accessor.
struct Item {
    ptr: *const u8,
    len: usize,
    index: u64,
    plan: IterPlan,
    env: Rc<Env>,
    uses: Cell<u32>,
}

impl AsRef<[u8]> for Item {
    fn as_ref(&self) -> &[u8] {
        self.uses.set(self.uses.get() + 1);
        if self.uses.get() == 1 {
            work::credit(0, self.len);
        }
        let now = match self.plan.panic_kind {
            1 => true,
            3 => self.uses.get() == 2,
            _ => false,
        };
        if now && self.plan.panic_at == self.index + 1 {
            self.env.fired.set(true);
            resume_unwind(Box::new(SimPanic));
        }
        if self.plan.flags & 8 != 0 && self.index % 2 == 1 {
            let _p = plenty();
            nested(&self.env, self.index);
        }
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}

/// What the caller-side code running inside a batch shares with the world.
#[derive(Default)]
pub struct Env {
    seed: u64,
    pub fired: Cell<bool>,
    pub consumed: Cell<u64>,
    nested_runs: Cell<u64>,
    nested_bad: RefCell<Option<String>>,
    in_nested: Cell<bool>,
}

/// Use the crates from inside a callback of one of their batch calls.
fn nested(env: &Env, index: u64) {
    if env.in_nested.replace(true) {
        return;
    }
    env.nested_runs.set(env.nested_runs.get() + 1);
    let mut r = Rng::new(env.seed ^ index);
    let v = Variant::from(r.next());
    let mut spec = Spec::new(v);
    if r.pct(50) {
        spec.key = vec![index as u8 + 1; 5];
    }
    let n = r.below(v.row() as u64 * 3) as usize;
    let mut input = vec![0; n];
    fill_content(index, 0, &mut input);
    let want = Model::hash(&spec, &input);
    let got = if v.parallel() {
        let mut h = Hasher::new(&spec, 2, 0, None);
        h.update(&input[..n / 2]);
        h.update(&input[n / 2..]);
        h.digest()
    } else {
        fn batch<F: Family>(spec: &Spec, input: &[u8]) -> Vec<u8> {
            let mut hs: Vec<Hasher> = (0..5).map(|_| Hasher::new(spec, 2, 0, None)).collect();
            let ptrs: Vec<*mut F::State> = hs.iter_mut().map(|h| F::state(h).unwrap()).collect();
            F::update_many(ptrs.iter().map(|p| (unsafe { &mut **p }, input)));
            let st: &'static [u8] = unsafe { std::slice::from_raw_parts(input.as_ptr(), input.len()) };
            let mut jobs: Vec<F::Job> = (0..3).map(|_| F::job(spec, 2, 0, st)).collect();
            F::hash_many(jobs.iter_mut());
            let d = hs[4].digest();
            if F::job_digest(&jobs[2]) == d {
                d
            } else {
                vec![]
            }
        }
        if v.big() {
            batch::<FamB>(&spec, &input)
        } else {
            batch::<FamS>(&spec, &input)
        }
    };
    if got != want {
        *env.nested_bad.borrow_mut() =
            Some(format!("nested call at item {}: got {} want {}", index, hex(&got), hex(&want)));
    }
    env.in_nested.set(false);
}

/// The caller's iterator.
pub struct Feeder<T> {
    items: std::vec::IntoIter<T>,
    total: u64,
    given: u64,
    gap_done: bool,
    plan: IterPlan,
    env: Rc<Env>,
}

impl<T> Feeder<T> {
    pub fn new(items: Vec<T>, plan: IterPlan, env: &Rc<Env>) -> Self {
        Feeder {
            total: items.len() as u64,
            items: items.into_iter(),
            given: 0,
            gap_done: false,
            plan,
            env: env.clone(),
        }
    }
}

/// The caller's collection.
pub struct Source<T>(pub Feeder<T>);

impl<T> IntoIterator for Source<T> {
    type Item = T;
    type IntoIter = Feeder<T>;
    fn into_iter(self) -> Feeder<T> {
        if self.0.plan.panic_kind == 5 && self.0.plan.panic_at != 0 {
            self.0.env.fired.set(true);
            resume_unwind(Box::new(SimPanic));
        }
        self.0
    }
}

impl<T> Iterator for Feeder<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let i = self.given;
        if self.plan.flags & 2 != 0 && !self.gap_done && self.plan.gap_at == i {
            self.gap_done = true;
            return None;
        }
        if self.plan.panic_kind == 0 && self.plan.panic_at == i + 1 {
            self.env.fired.set(true);
            resume_unwind(Box::new(SimPanic));
        }
        if self.plan.flags & 4 != 0 && i % 3 == 1 {
            let _p = plenty();
            nested(&self.env, i);
        }
        let item = self.items.next()?;
        self.given += 1;
        self.env.consumed.set(self.given);
        Some(item)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = (self.total - self.given) as usize;
        if self.plan.panic_kind == 4 && self.plan.panic_at != 0 {
            self.env.fired.set(true);
            resume_unwind(Box::new(SimPanic));
        }
        let lie = match self.plan.lie {
            1 => Some((0, Some(left / 2))),
            2 => Some((0, Some(0))),
            3 => Some((usize::MAX, None)),
            4 => Some((left + 5, Some(left + 5))),
            5 => Some((0, Some(usize::MAX))),
            6 => Some((left.saturating_sub(1), Some(left.saturating_sub(1)))),
            7 => Some((left + 1, Some(0))),
            _ => None,
        };
        if let Some(x) = lie {
            x
        } else if self.plan.flags & 2 != 0 {
            (0, Some(left))
        } else if self.plan.flags & 1 != 0 {
            (left, Some(left))
        } else {
            (0, None)
        }
    }
}

impl<T> Drop for Feeder<T> {
    fn drop(&mut self) {
        if self.plan.panic_kind == 2 && self.plan.panic_at != 0 && !self.env.fired.get() && !std::thread::panicking() {
            self.env.fired.set(true);
            resume_unwind(Box::new(SimPanic));
        }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Run `f`; a panic that was not injected is a violation.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            violation("panic", format!("{} panicked: {}", what, msg.replace('\n', " ")))
        }
    }
}

/// Clone a hasher, onto `old` if that is possible.
fn copy_hasher(h: &Hasher, old: Option<Hasher>, side: Option<bool>, stats: &mut Stats) -> Res<Hasher> {
    if let Some(mut o) = old {
        if no_panic("clone_from()", || o.assign(h))? {
            stats.hit("clones onto an existing hasher");
            return Ok(o);
        }
    }
    no_panic("clone()", || h.dup(side))
}

fn arg(op: &Op, i: usize) -> u64 {
    op.args.get(i).copied().unwrap_or(0)
}

impl<'a> World<'a> {
    pub fn new(sc: &Scenario, cpu_override: Option<u64>, verbose: bool, stats: &'a mut Stats) -> World<'a> {
        let p = sc.prop.as_str();
        let oracle = Oracle {
            digest: p != "C14" && p != "C23",
            count: p != "C14" && p != "C23",
            count_always: matches!(p, "C02" | "C15"),
            oneshot: matches!(p, "C01" | "C08" | "C16"),
        };
        World {
            prop: sc.prop.clone(),
            oracle,
            guarded: p == "C14",
            cpu_override,
            slots: (0..SLOTS).map(|_| None).collect(),
            ckpts: (0..SLOTS).map(|_| None).collect(),
            jobs: (0..SLOTS).map(|_| None).collect(),
            budget: BUDGET,
            log: 0,
            verbose,
            stats,
        }
    }

    /// Whether results are compared with the models.
    pub fn judges(&self) -> bool {
        self.oracle.digest
    }

    pub fn obs(&mut self, tag: &str, bytes: &[u8]) {
        for b in tag.bytes().chain(bytes.iter().copied()) {
            self.log = (self.log ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.log = mix(self.log);
        if self.verbose {
            println!("  {} {}", tag, hex(bytes));
        }
    }

    fn side(&self, x: u64) -> Option<bool> {
        if self.guarded {
            Some(x & 1 == 0)
        } else {
            None
        }
    }

    pub fn cpu(&self, x: u64) -> u64 {
        self.cpu_override.unwrap_or(x % 3)
    }

    fn buf(&self, content: &[u8], align: u64) -> Buf {
        let mut b = Buf::new(content.len(), align, self.guarded);
        b.bytes_mut().copy_from_slice(content);
        b
    }

    fn take_budget(&mut self, want: u64) -> u64 {
        let n = want.min(MAX_FEED).min(self.budget);
        self.budget -= n;
        n
    }

    fn check_count(&mut self, s: usize) -> Res<()> {
        if let Some(sl) = &self.slots[s] {
            let got = no_panic("count()", || sl.h.count())?;
            let want = sl.m.count();
            let v = sl.spec.variant;
            self.obs("count", &got.to_le_bytes());
            if self.oracle.count && got != want {
                return violation(
                    "count",
                    format!("hasher {} ({}): count() is {} but {} bytes were fed", s, v.name(), got, want),
                );
            }
        }
        Ok(())
    }

    fn check_digest(&mut self, s: usize, times: u64) -> Res<()> {
        if let Some(sl) = &self.slots[s] {
            let want = sl.m.digest();
            let v = sl.spec.variant;
            let count = sl.m.count();
            for k in 0..times {
                let sl = self.slots[s].as_ref().unwrap();
                let got = no_panic("finalize()", || sl.h.digest())?;
                self.obs("digest", &got);
                if self.oracle.digest && got != want {
                    return violation(
                        "digest",
                        format!(
                            "hasher {} ({}, cpu {}) after {} bytes: digest {} (taken {} times) but the specification gives {}",
                            s,
                            v.name(),
                            self.slots[s].as_ref().unwrap().cpu,
                            count,
                            hex(&got),
                            k + 1,
                            hex(&want)
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    fn mark(&mut self, op: u64, s: usize, len: u64) {
        if let Some(sl) = &self.slots[s] {
            let v = sl.spec.variant;
            let t = op << 32
                | v.idx() << 28
                | ((!sl.spec.key.is_empty()) as u64) << 27
                | sl.cpu << 24
                | class(sl.m.count() as u64, v) << 8
                | class(len, v);
            self.stats.step(t);
        }
    }

    pub fn step(&mut self, op: &Op) -> Res<()> {
        if self.verbose {
            println!("{} {:?}", op.name, op.args);
        }
        let s = arg(op, 0) as usize % SLOTS;
        match op.name.as_str() {
            "open" => self.open(op),
            "feed" => self.feed(op),
            #[cfg(feature = "std")]
            "copy" => self.copy(op),
            #[cfg(not(feature = "std"))]
            "copy" => Ok(()),
            "snap" => {
                self.mark(2, s, arg(op, 1));
                self.stats.hit("snapshots");
                self.check_digest(s, 1 + arg(op, 1) % 4)
            }
            "clone" => {
                let d = (arg(op, 1) & 255) as usize % SLOTS;
                self.mark(3, s, d as u64);
                if d == s {
                    return Ok(());
                }
                let old = if arg(op, 1) & 512 != 0 { self.slots[d].take() } else { None };
                if let Some(sl) = &self.slots[s] {
                    let side = self.side(arg(op, 1) >> 8);
                    let h = copy_hasher(&sl.h, old.map(|o| o.h), side, self.stats)?;
                    let n = Slot { h, m: sl.m.clone(), spec: sl.spec.clone(), ..*sl };
                    self.slots[d] = Some(n);
                    self.stats.hit("clones");
                }
                Ok(())
            }
            "drop" => {
                self.mark(4, s, 0);
                if let Some(sl) = self.slots[s].take() {
                    // Leave garbage where it was.
                    drop(sl);
                    self.stats.hit("drops");
                }
                Ok(())
            }
            "move" => {
                self.mark(5, s, 0);
                let side = self.side(arg(op, 1));
                if let Some(mut sl) = self.slots[s].take() {
                    sl.h = sl.h.relocate(side);
                    self.slots[s] = Some(sl);
                    self.stats.hit("moves");
                }
                Ok(())
            }
            "last" => {
                let f = arg(op, 1) & 1 == 1;
                self.mark(6, s, f as u64);
                if let Some(sl) = &mut self.slots[s] {
                    if !sl.spec.variant.parallel() {
                        no_panic("set_last_node()", || sl.h.set_last_node(f))?;
                        sl.m.set_last_node(f);
                        sl.spec.last_node = f;
                        self.stats.hit("late last-node flags");
                    }
                }
                Ok(())
            }
            "jump" => {
                self.jump(s, arg(op, 1), arg(op, 2));
                Ok(())
            }
            "ckpt" => {
                let d = (arg(op, 1) & 255) as usize % SLOTS;
                self.mark(8, s, 0);
                let side = self.side(d as u64);
                if let Some(sl) = &self.slots[s] {
                    let h = no_panic("clone()", || sl.h.dup(side))?;
                    self.ckpts[d] = Some((h, sl.m.clone(), sl.spec.clone(), sl.cseed, sl.text, sl.cpu, sl.jumped));
                    self.stats.hit("checkpoints");
                }
                Ok(())
            }
            "crash" => {
                // The process holding hasher s dies; it restarts from the
                // checkpoint d, if any, and the source re-sends.
                let d = (arg(op, 1) & 255) as usize % SLOTS;
                self.mark(9, s, 0);
                self.slots[s] = None;
                let side = self.side(arg(op, 1) >> 8);
                if let Some((h, m, spec, cseed, text, cpu, jumped)) = &self.ckpts[d] {
                    let old = if arg(op, 1) & 512 != 0 {
                        // The restarted process has opened a hasher already.
                        let other = make_spec(spec.variant, arg(op, 1) >> 10, 67);
                        Some(no_panic("creating a hasher", || Hasher::new(&other, 2, 0, side))?)
                    } else {
                        None
                    };
                    let h = copy_hasher(h, old, side, self.stats)?;
                    let src = no_panic("count()", || h.count())?;
                    self.slots[s] = Some(Slot {
                        h,
                        m: m.clone(),
                        spec: spec.clone(),
                        cseed: *cseed,
                        text: *text,
                        cpu: *cpu,
                        src,
                        jumped: *jumped,
                    });
                    self.stats.hit("fault: crash and restart from a snapshot");
                } else {
                    self.stats.hit("fault: crash without a snapshot");
                }
                Ok(())
            }
            "resume" => {
                // The connection breaks; the source forgets its position and
                // continues at the count the hasher reports.
                self.mark(10, s, 0);
                if let Some(sl) = &mut self.slots[s] {
                    sl.src = no_panic("count()", || sl.h.count())?;
                    self.stats.hit("fault: broken transfer resumed at count()");
                }
                Ok(())
            }
            "ub" => {
                if arg(op, 0) & 1 == 0 {
                    self.update_batch::<FamB>(op, Variant::B)
                } else {
                    self.update_batch::<FamS>(op, Variant::S)
                }
            }
            "hj" => self.new_job(op),
            "hjump" => {
                if let Some(j) = &mut self.jobs[s] {
                    if j.ran == Ran::No && !j.keyed {
                        let jump = jump_bytes(j.variant, arg(op, 1), arg(op, 2));
                        let mut m = Model::new(&j.spec);
                        m.skip(jump);
                        m.update(j.buf.borrow().bytes());
                        j.expected = m.digest();
                        match &mut j.job {
                            AnyJob::B(p) => FamB::job_advance(p, jump),
                            AnyJob::S(p) => FamS::job_advance(p, jump),
                        }
                        // Only one jump per job.
                        j.keyed = true;
                        self.stats.hit("fast-forwards (jobs)");
                    }
                }
                Ok(())
            }
            "hb" => {
                if arg(op, 0) & 1 == 0 {
                    self.hash_batch::<FamB>(op, Variant::B)
                } else {
                    self.hash_batch::<FamS>(op, Variant::S)
                }
            }
            "hcl" => {
                let d = (arg(op, 1) & 255) as usize % SLOTS;
                if s == d {
                    return Ok(());
                }
                let old = if arg(op, 1) & 512 != 0 { self.jobs[d].take().map(|j| j.job) } else { None };
                if let Some(j) = &self.jobs[s] {
                    let side = self.side(d as u64);
                    work::job(Some(j.len as usize));
                    let job = match (&j.job, old) {
                        (AnyJob::B(p), Some(AnyJob::B(mut o))) => {
                            scarce(|| (*o).clone_from(&**p));
                            AnyJob::B(o)
                        }
                        (AnyJob::S(p), Some(AnyJob::S(mut o))) => {
                            scarce(|| (*o).clone_from(&**p));
                            AnyJob::S(o)
                        }
                        (AnyJob::B(p), _) => AnyJob::B(Place::new(scarce(|| (**p).clone()), side)),
                        (AnyJob::S(p), _) => AnyJob::S(Place::new(scarce(|| (**p).clone()), side)),
                    };
                    let n = JobSlot {
                        job,
                        expected: j.expected.clone(),
                        buf: j.buf.clone(),
                        variant: j.variant,
                        ran: j.ran,
                        len: j.len,
                        keyed: j.keyed,
                        spec: j.spec.clone(),
                    };
                    self.jobs[d] = Some(n);
                    self.stats.hit("job clones");
                }
                Ok(())
            }
            "hc" => self.check_job(s),
            "hdrop" => {
                self.jobs[s] = None;
                Ok(())
            }
            "one" => self.one(op),
            "deg" => self.degrees(op),
            "wide" => crate::wide::wide(self, op),
            "vast" => crate::wide::vast(self, op),
            "cpunow" => Ok(()),
            _ => Ok(()),
        }
    }

    fn open(&mut self, op: &Op) -> Res<()> {
        let s = arg(op, 0) as usize % SLOTS;
        let v = Variant::from(arg(op, 1));
        let (pseed, mask, route) = (arg(op, 2), arg(op, 3), arg(op, 5));
        let spec = make_spec(v, pseed, mask);
        let cpu = self.cpu(arg(op, 4));
        let side = self.side(route >> 5);
        let h = no_panic("creating a hasher", || Hasher::new(&spec, cpu, route & 3 | route >> 8 << 2, side))?;
        let m = Model::new(&spec);
        self.slots[s] = Some(Slot { h, m, spec, cseed: mix(pseed), text: route & 4 == 4, cpu, src: 0, jumped: false });
        self.mark(0, s, mask);
        if self.oracle.count_always {
            self.check_count(s)?;
        }
        Ok(())
    }

    fn feed(&mut self, op: &Op) -> Res<()> {
        let s = arg(op, 0) as usize % SLOTS;
        if self.slots[s].is_none() {
            return Ok(());
        }
        let len = self.take_budget(arg(op, 1));
        let how = arg(op, 3) % 4;
        self.mark(1 + (how << 8), s, len);
        let sl = self.slots[s].as_ref().unwrap();
        let mut truth = vec![0; len as usize];
        sl.content(sl.m.count(), &mut truth);
        let mut sent = vec![0; len as usize];
        sl.content(sl.src, &mut sent);
        let mut buf = self.buf(&sent, arg(op, 2));
        buf.lend();
        let sl = self.slots[s].as_mut().unwrap();
        let h = &mut sl.h;
        let input = buf.bytes();
        #[cfg(feature = "std")]
        let starved = self.prop == "C19";
        no_panic("update", || match how {
            #[cfg(feature = "std")]
            1 if starved => h.write_all(input),
            #[cfg(feature = "std")]
            1 => {
                let r = h.writer().write_all(input);
                assert!(r.is_ok(), "write_all failed: {:?}", r);
            }
            2 => match h {
                Hasher::B(p) => scarce(|| {
                    work::credit(1, input.len());
                    blake2b_simd::many::update_many(std::iter::once((&mut **p, input)))
                }),
                Hasher::S(p) => scarce(|| {
                    work::credit(1, input.len());
                    blake2s_simd::many::update_many(std::iter::once((&mut **p, input)))
                }),
                h => h.update(input),
            },
            3 => {
                let half = input.len() / 2;
                h.update(&input[..half]);
                h.update(&input[half..]);
            }
            _ => h.update(input),
        })?;
        sl.m.update(&truth);
        sl.src = sl.src.wrapping_add(len as u128);
        buf.reclaim();
        self.stats.add("bytes hashed", len);
        self.stats.hit("segments");
        if self.oracle.count_always {
            self.check_count(s)?;
        }
        Ok(())
    }

    fn jump(&mut self, s: usize, back: u64, which: u64) {
        self.mark(7, s, back);
        if let Some(sl) = &mut self.slots[s] {
            if sl.m.count() != 0 {
                return;
            }
            let bytes = jump_bytes(sl.spec.variant, back, which);
            sl.h.advance(bytes);
            sl.m.skip(bytes);
            sl.src = sl.src.wrapping_add(bytes);
            sl.jumped = true;
            self.stats.hit("fast-forwards");
        }
    }

    fn update_batch<F: Family>(&mut self, op: &Op, variant: Variant) -> Res<()> {
        if arg(op, 1) >> 5 & 7 != 0 {
            self.stats.hit("fault: wrong size hint");
        }
        let plan = IterPlan {
            flags: arg(op, 1) % 16,
            gap_at: arg(op, 2),
            panic_at: arg(op, 3),
            panic_kind: arg(op, 4) % PANIC_KINDS,
            lie: arg(op, 1) >> 5 & 7,
        };
        let slice_items = arg(op, 1) & 16 != 0;
        let mut used = vec![false; SLOTS];
        let mut order: Vec<(usize, Vec<u8>)> = vec![];
        let mut bufs: Vec<Buf> = vec![];
        for t in op.args.get(5..).unwrap_or(&[]).chunks(3) {
            if t.len() < 3 {
                break;
            }
            let s = t[0] as usize % SLOTS;
            match &self.slots[s] {
                Some(sl) if sl.spec.variant == variant && !used[s] => {}
                _ => continue,
            }
            used[s] = true;
            let len = self.take_budget(t[1]);
            self.mark(16, s, len);
            let sl = self.slots[s].as_ref().unwrap();
            let mut truth = vec![0; len as usize];
            sl.content(sl.m.count(), &mut truth);
            let mut sent = vec![0; len as usize];
            sl.content(sl.src, &mut sent);
            let b = self.buf(&sent, t[2]);
            b.lend();
            bufs.push(b);
            order.push((s, truth));
        }
        self.stats.step(17 << 32 | plan.flags << 8 | (order.len() as u64).min(20));
        self.stats.hit("batched updates");
        self.stats.add("pairs in batches", order.len() as u64);
        let env = Rc::new(Env { seed: arg(op, 2) ^ 77, ..Default::default() });
        let items: Vec<Item> = bufs
            .iter()
            .enumerate()
            .map(|(i, b)| Item {
                ptr: b.bytes().as_ptr(),
                len: b.bytes().len(),
                index: i as u64,
                plan,
                env: env.clone(),
                uses: Cell::new(0),
            })
            .collect();
        let ptrs: Vec<*mut F::State> =
            order.iter().map(|(s, _)| F::state(&mut self.slots[*s].as_mut().unwrap().h).unwrap()).collect();
        let outcome = if slice_items && plan.panic_kind != 1 && plan.panic_kind != 3 {
            let pairs: Vec<(&mut F::State, &[u8])> =
                ptrs.iter().zip(&bufs).map(|(p, b)| (unsafe { &mut **p }, b.bytes())).collect();
            let f = Feeder::new(pairs, plan, &env);
            catch_unwind(AssertUnwindSafe(|| F::update_many(Source(f))))
        } else {
            let pairs: Vec<(&mut F::State, &Item)> =
                ptrs.iter().zip(&items).map(|(p, t)| (unsafe { &mut **p }, t)).collect();
            let f = Feeder::new(pairs, plan, &env);
            catch_unwind(AssertUnwindSafe(|| F::update_many(Source(f))))
        };
        for b in &mut bufs {
            b.reclaim();
        }
        self.stats.add("calls nested inside a batch", env.nested_runs.get());
        if let Some(msg) = env.nested_bad.borrow_mut().take() {
            if self.oracle.digest {
                return violation("digest", msg);
            }
        }
        let consumed = env.consumed.get();
        if let Err(p) = &outcome {
            if !p.is::<SimPanic>() {
                let msg = LAST_PANIC.with(|p| p.borrow().clone());
                return violation("panic", format!("update_many panicked: {}", msg.replace('\n', " ")));
            }
            self.stats.hit(panic_name(plan.panic_kind));
        }
        let interrupted = env.fired.get();
        let before_gap = if plan.flags & 2 != 0 { plan.gap_at.min(order.len() as u64) } else { order.len() as u64 };
        if consumed > before_gap && self.oracle.digest {
            return violation(
                "end",
                format!("the iterator ended after {} items, but the batch took {}", before_gap, consumed),
            );
        }
        for (i, (s, truth)) in order.iter().enumerate() {
            let i = i as u64;
            if interrupted {
                if i >= consumed {
                    // Never handed over: must be untouched.
                    self.check_count(*s)?;
                    self.check_digest(*s, 1)?;
                    continue;
                }
                let sl = self.slots[*s].as_mut().unwrap();
                let mut after = sl.m.clone();
                after.update(truth);
                let (c, d) = no_panic("finalize()", || (sl.h.count(), sl.h.digest()))?;
                let is_after = c == after.count() && d == after.digest();
                let is_before = c == sl.m.count() && d == sl.m.digest();
                if is_after {
                    sl.src = sl.src.wrapping_add(truth.len() as u128);
                    sl.m = after;
                } else if !is_before && self.oracle.digest {
                    return violation(
                        "torn",
                        format!(
                            "hasher {} was item {} of a batched update interrupted at item {}: it now has count {} \
                             (before {}, complete {}) and a digest that is neither that of being untouched nor of \
                             being completely updated",
                            s,
                            i,
                            plan.panic_at as i64 - 1,
                            c,
                            sl.m.count(),
                            after.count()
                        ),
                    );
                }
                self.obs("interrupted", &d);
            } else if i < before_gap {
                let sl = self.slots[*s].as_mut().unwrap();
                sl.m.update(truth);
                sl.src = sl.src.wrapping_add(truth.len() as u128);
                self.stats.add("bytes hashed", truth.len() as u64);
            }
        }
        if self.prop == "C02" || self.prop == "C04" {
            for (s, _) in &order {
                self.check_count(*s)?;
            }
        }
        Ok(())
    }

    fn new_job(&mut self, op: &Op) -> Res<()> {
        let j = arg(op, 0) as usize % SLOTS;
        let v = if arg(op, 1) & 1 == 0 { Variant::B } else { Variant::S };
        let (pseed, mask) = (arg(op, 2), arg(op, 3));
        let spec = make_spec(v, pseed, mask);
        let cpu = self.cpu(arg(op, 4));
        let len = self.take_budget(arg(op, 5));
        let mut content = vec![0; len as usize];
        fill_content(mix(pseed), 0, &mut content);
        let expected = Model::hash(&spec, &content);
        let buf = self.buf(&content, arg(op, 6));
        buf.lend();
        let input = buf.bytes_static();
        let side = self.side(arg(op, 6) >> 16);
        let route = arg(op, 7);
        let job = no_panic("HashManyJob::new", || match v {
            Variant::B => AnyJob::B(Place::new(FamB::job(&spec, cpu, route, input), side)),
            _ => AnyJob::S(Place::new(FamS::job(&spec, cpu, route, input), side)),
        })?;
        let t = 20u64 << 32 | v.idx() << 20 | (mask & 127) << 24 | cpu << 16 | class(len, v);
        self.stats.step(t);
        let buf = Rc::new(RefCell::new(buf));
        self.jobs[j] =
            Some(JobSlot { job, variant: v, expected, ran: Ran::No, buf, len, keyed: !spec.key.is_empty(), spec });
        Ok(())
    }

    fn hash_batch<F: Family>(&mut self, op: &Op, variant: Variant) -> Res<()> {
        if arg(op, 1) >> 5 & 7 != 0 {
            self.stats.hit("fault: wrong size hint");
        }
        let plan = IterPlan {
            flags: arg(op, 1) % 8,
            gap_at: arg(op, 2),
            panic_at: arg(op, 3),
            panic_kind: arg(op, 4) % PANIC_KINDS,
            lie: arg(op, 1) >> 5 & 7,
        };
        let mut order: Vec<usize> = vec![];
        for t in op.args.get(5..).unwrap_or(&[]) {
            let j = *t as usize % SLOTS;
            match &self.jobs[j] {
                Some(x) if x.variant == variant && !order.contains(&j) => order.push(j),
                _ => {}
            }
        }
        self.stats.hit("batched hashes");
        self.stats.add("jobs in batches", order.len() as u64);
        let mut sig = 21u64 << 32 | plan.flags;
        for j in &order {
            let x = self.jobs[*j].as_ref().unwrap();
            if x.ran == Ran::Yes {
                self.stats.counters.entry("jobs resubmitted after completion").and_modify(|n| *n += 1).or_insert(1);
            }
            sig = mix(sig ^ class(x.len, variant) ^ ((x.ran as u64) << 8) ^ ((x.keyed as u64) << 16));
        }
        self.stats.step(sig);
        let env = Rc::new(Env { seed: arg(op, 2) ^ 99, ..Default::default() });
        let ptrs: Vec<&mut F::Job> = order
            .iter()
            .map(|j| {
                let p: *mut F::Job = match &mut self.jobs[*j].as_mut().unwrap().job {
                    AnyJob::B(p) => &mut **p as *mut <FamB as Family>::Job as *mut F::Job,
                    AnyJob::S(p) => &mut **p as *mut <FamS as Family>::Job as *mut F::Job,
                };
                unsafe { &mut *p }
            })
            .collect();
        let f = Feeder::new(ptrs, plan, &env);
        let outcome = catch_unwind(AssertUnwindSafe(|| F::hash_many(Source(f))));
        self.stats.add("calls nested inside a batch", env.nested_runs.get());
        if let Some(msg) = env.nested_bad.borrow_mut().take() {
            if self.oracle.digest {
                return violation("digest", msg);
            }
        }
        if let Err(p) = &outcome {
            if !p.is::<SimPanic>() {
                let msg = LAST_PANIC.with(|p| p.borrow().clone());
                return violation("panic", format!("hash_many panicked: {}", msg.replace('\n', " ")));
            }
            self.stats.hit(panic_name(plan.panic_kind));
        }
        let interrupted = env.fired.get();
        let consumed = env.consumed.get();
        let before_gap = if plan.flags & 2 != 0 { plan.gap_at.min(order.len() as u64) } else { order.len() as u64 };
        if consumed > before_gap && self.oracle.digest {
            return violation(
                "end",
                format!("the iterator ended after {} items, but the batch took {}", before_gap, consumed),
            );
        }
        for (i, j) in order.iter().enumerate() {
            let i = i as u64;
            let x = self.jobs[*j].as_mut().unwrap();
            if interrupted {
                if i < consumed && x.ran != Ran::Yes {
                    x.ran = Ran::Unknown;
                }
            } else if i < before_gap {
                x.ran = Ran::Yes;
            }
        }
        // Every completed member can be read right away.
        for j in order {
            self.check_job(j)?;
        }
        Ok(())
    }

    fn check_job(&mut self, j: usize) -> Res<()> {
        let got = match &self.jobs[j] {
            Some(x) if x.ran == Ran::Yes => no_panic("to_hash()", || match &x.job {
                AnyJob::B(p) => FamB::job_digest(p),
                AnyJob::S(p) => FamS::job_digest(p),
            })?,
            _ => return Ok(()),
        };
        self.obs("job", &got);
        let x = self.jobs[j].as_ref().unwrap();
        if self.oracle.digest && got != x.expected {
            return violation(
                "digest",
                format!(
                    "job {} ({}, {} bytes): digest {} but the specification gives {}",
                    j,
                    x.variant.name(),
                    x.len,
                    hex(&got),
                    hex(&x.expected)
                ),
            );
        }
        Ok(())
    }

    fn one(&mut self, op: &Op) -> Res<()> {
        let v = Variant::from(arg(op, 0));
        let spec = make_spec(v, arg(op, 1), arg(op, 2));
        let cpu = self.cpu(arg(op, 3));
        let len = self.take_budget(arg(op, 5));
        self.stats.step(30 << 32 | v.idx() << 16 | cpu << 20 | (arg(op, 2) & 127) << 24 | class(len, v));
        let mut content = vec![0; len as usize];
        fill_content(mix(arg(op, 1)), 0, &mut content);
        let mut buf = self.buf(&content, arg(op, 6));
        buf.lend();
        let got = no_panic("one-call hash", || sut::one_shot(&spec, cpu, arg(op, 4), buf.bytes()))?;
        buf.reclaim();
        self.obs("one", &got);
        let want = Model::hash(&spec, &content);
        self.stats.hit("one-call hashes");
        if self.oracle.digest && got != want {
            return violation(
                "digest",
                format!(
                    "one-call {} of {} bytes (cpu {}): {} but the specification gives {}",
                    v.name(),
                    len,
                    cpu,
                    hex(&got),
                    hex(&want)
                ),
            );
        }
        Ok(())
    }

    fn degrees(&mut self, op: &Op) -> Res<()> {
        let cpu = self.cpu(arg(op, 0));
        sut::set_cpu(cpu);
        let r = no_panic("degree()", || {
            [
                (FamB::degree(), FamB::MAX_DEGREE, blake2b_simd::many::degree()),
                (FamS::degree(), FamS::MAX_DEGREE, blake2s_simd::many::degree()),
            ]
        });
        sut::set_cpu(2);
        self.stats.step(40 << 32 | cpu);
        self.stats.hit("degree queries");
        for (d, max, again) in r? {
            if d < 1 || d > max || again != d {
                return violation("degree", format!("cpu {}: degree {} (again {}), maximum {}", cpu, d, again, max));
            }
        }
        Ok(())
    }

    /// Judge everything still alive.
    pub fn finish(&mut self) -> Res<()> {
        for s in 0..SLOTS {
            if self.slots[s].is_none() {
                continue;
            }
            self.check_count(s)?;
            self.check_digest(s, 1)?;
            let sl = self.slots[s].as_ref().unwrap();
            let n = sl.m.count() as u64;
            if self.oracle.oneshot && !sl.jumped && n <= 40000 {
                let mut all = vec![0; n as usize];
                sl.content(0, &mut all);
                let (spec, cpu) = (sl.spec.clone(), sl.cpu);
                let want = sl.m.digest();
                let got = no_panic("one-call hash", || sut::one_shot(&spec, cpu, 0, &all))?;
                self.obs("one", &got);
                if got != want {
                    return violation(
                        "oneshot",
                        format!(
                            "one-call {} of the same {} bytes: {} but streaming gives {}",
                            spec.variant.name(),
                            n,
                            hex(&got),
                            hex(&want)
                        ),
                    );
                }
            }
        }
        // Jobs that have not run, or whose batch was interrupted, are
        // submitted once more.
        for fam in 0..2 {
            let mut args = vec![fam, 0, 0, 0, 0];
            for j in 0..SLOTS {
                if let Some(x) = &self.jobs[j] {
                    if variant_fam(x.variant) == fam {
                        args.push(j as u64);
                    }
                }
            }
            if args.len() > 5 {
                let op = Op { name: "hb".into(), args };
                if fam == 0 {
                    self.hash_batch::<FamB>(&op, Variant::B)?;
                } else {
                    self.hash_batch::<FamS>(&op, Variant::S)?;
                }
            }
        }
        Ok(())
    }

    #[cfg(feature = "std")]
    fn copy(&mut self, op: &Op) -> Res<()> {
        let s = arg(op, 0) as usize % SLOTS;
        if self.slots[s].is_none() {
            return Ok(());
        }
        let how = arg(op, 1) % crate::io::HOWS;
        let cap = arg(op, 2);
        let len = self.take_budget(arg(op, 3));
        self.mark(50 + how, s, len);
        let sl = self.slots[s].as_ref().unwrap();
        let mut truth = vec![0; len as usize];
        sl.content(sl.m.count(), &mut truth);
        let acts = op.args.get(4..).unwrap_or(&[]).to_vec();
        let text = sl.text;
        let sl = self.slots[s].as_mut().unwrap();
        let h = &mut sl.h;
        let out = no_panic("a writer call", || crate::io::drive(h, how, cap, &truth, &acts, text))?;
        for f in &out.faults {
            self.stats.hit(f);
        }
        let absorbed = match out.result {
            Ok(n) => n,
            Err(msg) => return violation("writer", format!("hasher {}: {}", s, msg)),
        };
        self.obs("ack", &(absorbed as u64).to_le_bytes());
        let sl = self.slots[s].as_mut().unwrap();
        sl.m.update(&truth[..absorbed]);
        sl.src = sl.m.count();
        self.stats.add("bytes hashed", absorbed as u64);
        self.stats.hit("writer calls");
        self.check_count(s)?;
        if out.flushed {
            self.check_digest(s, 1)?;
        }
        Ok(())
    }
}

/// How far to fast-forward so that a counter word overflows `back` blocks (or
/// rows) later.
fn jump_bytes(v: Variant, back: u64, which: u64) -> u128 {
    let row = v.row() as u128;
    let word: u128 = if v.big() { 1 << 64 } else { 1 << 32 };
    let back = (back % 64) as u128;
    let boundary = match which {
        // Total bytes cross the word boundary ...
        0 => word,
        // ... or each lane's do ...
        1 => word * v.lanes() as u128,
        // ... or some multiple.
        2 => word * v.lanes() as u128 * 3,
        3 => 1 << 32,
        // ... or any bit of the count changes, up to the last of them.
        _ => {
            let bits = if v.big() { 128 } else { 64 };
            match 20 + (which - 4) % (bits - 19) {
                k if k < bits => 1u128 << k,
                _ => (1u128 << (bits - 1) << 1).wrapping_sub(1 << 30),
            }
        }
    };
    boundary - (back + 1).min(boundary / row) * row
}

/// Execute a scenario; returns the observation log.
pub fn run(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    let result = run_inner(sc, verbose, stats);
    stats.end_run();
    result
}

fn run_inner(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    let levels: Vec<Option<u64>> =
        if sc.prop == "C08" && sc.get("levels") == 1 { vec![Some(0), Some(1), Some(2), None] } else { vec![None] };
    let mut logs = vec![];
    for l in levels {
        let mut w = World::new(sc, l, verbose, stats);
        for (i, op) in sc.ops.iter().enumerate() {
            if let Err(mut v) = w.step(op) {
                v.msg = format!("step {} ({}): {}", i, op.name, v.msg);
                return Err(v);
            }
        }
        if let Err(mut v) = w.finish() {
            v.msg = format!("at the end: {}", v.msg);
            return Err(v);
        }
        logs.push(w.log);
    }
    if logs.iter().any(|l| *l != logs[0]) {
        return violation("cpu", format!("the observation logs under the CPU levels differ: {:x?}", logs));
    }
    Ok(logs[0])
}
