//! C20: the histories of parameter builders. Settings are made, made again,
//! refused, copied and used in any order; a builder means its latest accepted
//! settings, and what was made from it keeps those it had at the time.

use crate::guard::Place;
use crate::model::{hex, Model, Spec, Variant};
use crate::observe;
use crate::rng::{fill_content, mix, Rng};
use crate::scenario::{Op, Scenario};
use crate::stats::Stats;
use crate::sut::{set_cpu, FamB, FamS, Family, Hasher, Whole};
use crate::world::{no_panic, violation, Res};
use std::panic::{catch_unwind, AssertUnwindSafe};

const SLOTS: usize = 6;
const FIELDS: u64 = 11;

#[derive(Clone)]
enum Params {
    B(blake2b_simd::Params),
    S(blake2s_simd::Params),
    Bp(blake2b_simd::blake2bp::Params),
    Sp(blake2s_simd::blake2sp::Params),
}

macro_rules! each {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Params::B($x) => $e,
            Params::S($x) => $e,
            Params::Bp($x) => $e,
            Params::Sp($x) => $e,
        }
    };
}

impl Params {
    fn new(v: Variant, default: bool) -> Params {
        match (v, default) {
            (Variant::B, false) => Params::B(blake2b_simd::Params::new()),
            (Variant::S, false) => Params::S(blake2s_simd::Params::new()),
            (Variant::Bp, false) => Params::Bp(blake2b_simd::blake2bp::Params::new()),
            (Variant::Sp, false) => Params::Sp(blake2s_simd::blake2sp::Params::new()),
            (Variant::B, true) => Params::B(Default::default()),
            (Variant::S, true) => Params::S(Default::default()),
            (Variant::Bp, true) => Params::Bp(Default::default()),
            (Variant::Sp, true) => Params::Sp(Default::default()),
        }
    }

    /// Set one field to a value, legal or not.
    fn set(&mut self, field: u64, x: &Value) {
        macro_rules! tree {
            ($p:expr) => {
                match field {
                    0 => {
                        $p.hash_length(x.n as usize);
                    }
                    1 => {
                        $p.key(&x.bytes);
                    }
                    2 => {
                        $p.salt(&x.bytes);
                    }
                    3 => {
                        $p.personal(&x.bytes);
                    }
                    4 => {
                        $p.fanout(x.n as u8);
                    }
                    5 => {
                        $p.max_depth(x.n as u8);
                    }
                    6 => {
                        $p.max_leaf_length(x.n as u32);
                    }
                    7 => {
                        $p.node_offset(x.n);
                    }
                    8 => {
                        $p.node_depth(x.n as u8);
                    }
                    9 => {
                        $p.inner_hash_length(x.n as usize);
                    }
                    _ => {
                        $p.last_node(x.n & 1 == 1);
                    }
                }
            };
        }
        match self {
            Params::B(p) => tree!(p),
            Params::S(p) => tree!(p),
            Params::Bp(p) if field == 0 => {
                p.hash_length(x.n as usize);
            }
            Params::Bp(p) => {
                p.key(&x.bytes);
            }
            Params::Sp(p) if field == 0 => {
                p.hash_length(x.n as usize);
            }
            Params::Sp(p) => {
                p.key(&x.bytes);
            }
        }
    }

    fn state(&self) -> Hasher {
        match self {
            Params::B(p) => Hasher::B(Place::new(p.to_state(), None)),
            Params::S(p) => Hasher::S(Place::new(p.to_state(), None)),
            Params::Bp(p) => Hasher::Bp(Place::new(p.to_state(), None)),
            Params::Sp(p) => Hasher::Sp(Place::new(p.to_state(), None)),
        }
    }

    fn hash(&self, input: &[u8]) -> Vec<u8> {
        each!(self, p => observe!(p.hash(input)))
    }

    fn assign(&mut self, src: &Params) -> bool {
        match (self, src) {
            (Params::B(d), Params::B(s)) => d.clone_from(s),
            (Params::S(d), Params::S(s)) => d.clone_from(s),
            (Params::Bp(d), Params::Bp(s)) => d.clone_from(s),
            (Params::Sp(d), Params::Sp(s)) => d.clone_from(s),
            _ => return false,
        }
        true
    }
}

struct Value {
    n: u64,
    bytes: Vec<u8>,
}

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let style = r.below(6);
    (0..n)
        .map(|_| match style {
            0 => 0,
            1 => 0xff,
            _ => r.next() as u8,
        })
        .collect()
}

fn length(r: &mut Rng, max: u64) -> usize {
    match r.below(5) {
        0 => 0,
        1 => max as usize,
        2 => r.below(max.min(3) + 1) as usize,
        _ => r.below(max + 1) as usize,
    }
}

/// A value in the documented range.
fn legal(v: Variant, field: u64, r: &mut Rng) -> Value {
    let out = v.out() as u64;
    let mut x = Value { n: 0, bytes: vec![] };
    match field {
        0 => x.n = (length(r, out) as u64).max(1),
        1 => {
            let n = length(r, out);
            x.bytes = bytes(r, n);
        }
        2 | 3 => {
            let n = length(r, out / 4);
            x.bytes = bytes(r, n);
        }
        6 => x.n = r.next() >> 32 >> r.below(32),
        7 => {
            let bits = if v.big() { 64 } else { 48 };
            x.n = (r.next() | if r.pct(10) { u64::MAX } else { 0 }) >> (64 - bits) >> r.below(bits);
        }
        9 => x.n = length(r, out) as u64,
        10 => x.n = r.below(2),
        _ => x.n = if r.pct(30) { *r.pick(&[0, 1, 255]) } else { r.below(256) },
    }
    x
}

/// A value in the documented range that differs little from another one.
fn related(v: Variant, field: u64, r: &mut Rng, s: &Spec) -> Value {
    let out = v.out() as u64;
    let mut x = Value { n: 0, bytes: vec![] };
    let near = |r: &mut Rng, n: u64| match r.below(4) {
        0 => n,
        1 => n.wrapping_add(1),
        2 => n.wrapping_sub(1),
        _ => n ^ 1 << r.below(64),
    };
    match field {
        0 => x.n = near(r, s.hash_length as u64).clamp(1, out),
        1..=3 => {
            let (old, max) = match field {
                1 => (&s.key, out),
                2 => (&s.salt, out / 4),
                _ => (&s.personal, out / 4),
            };
            x.bytes = old.clone();
            let n = old.len();
            match r.below(6) {
                0 => {}
                1 => x.bytes.truncate(r.below(n as u64 + 1) as usize),
                2 => x.bytes.resize(n.max(r.below(max + 1) as usize), r.below(2) as u8),
                3 if n > 0 => x.bytes[n - 1] ^= 1 << r.below(8),
                4 => x.bytes.reverse(),
                _ if n > 0 => x.bytes[r.below(n as u64) as usize] ^= 1 << r.below(8),
                _ => {}
            }
        }
        4 => x.n = near(r, s.fanout as u64) & 255,
        5 => x.n = near(r, s.max_depth as u64) & 255,
        6 => x.n = near(r, s.max_leaf_length as u64) & 0xffff_ffff,
        7 => x.n = near(r, s.node_offset) & (u64::MAX >> if v.big() { 0 } else { 16 }),
        8 => x.n = near(r, s.node_depth as u64) & 255,
        9 => x.n = near(r, s.inner_hash_length as u64).min(out),
        _ => x.n = s.last_node as u64,
    }
    x
}

/// A value outside it, if there is one.
fn illegal(v: Variant, field: u64, r: &mut Rng) -> Option<Value> {
    let out = v.out() as u64;
    let mut x = Value { n: 0, bytes: vec![] };
    let far = |r: &mut Rng, first: u64| match r.below(5) {
        0 => first,
        1 => first + r.below(300),
        2 => 256 + r.below(first),
        3 => (1 << 32) + r.below(first),
        _ => u64::MAX - r.below(300),
    };
    match field {
        0 => x.n = if r.pct(25) { 0 } else { far(r, out + 1) },
        1 | 2 | 3 => {
            let max = if field == 1 { out } else { out / 4 };
            let n = match r.below(4) {
                0 => max + 1,
                1 => 256 + r.below(max + 1),
                2 => 65536 + r.below(max + 1),
                _ => max + 1 + r.below(400),
            };
            x.bytes = bytes(r, n as usize);
        }
        7 if !v.big() => x.n = (1 << 48) + r.below(1 << 20) * r.below(2) + ((r.next() >> 16) << 48) * r.below(2),
        9 => x.n = far(r, out + 1),
        _ => return None,
    }
    if field == 7 {
        x.n = x.n.max(1 << 48);
    }
    Some(x)
}

fn apply(s: &mut Spec, field: u64, x: &Value) {
    match field {
        0 => s.hash_length = x.n as usize,
        1 => s.key = x.bytes.clone(),
        2 => s.salt = x.bytes.clone(),
        3 => s.personal = x.bytes.clone(),
        4 => s.fanout = x.n as u8,
        5 => s.max_depth = x.n as u8,
        6 => s.max_leaf_length = x.n as u32,
        7 => s.node_offset = x.n,
        8 => s.node_depth = x.n as u8,
        9 => s.inner_hash_length = x.n as usize,
        _ => s.last_node = x.n & 1 == 1,
    }
}

struct Builder {
    p: Params,
    spec: Spec,
}

struct Live {
    h: Hasher,
    m: Model,
    seed: u64,
}

enum AnyJob {
    B(<FamB as Family>::Job),
    S(<FamS as Family>::Job),
}

struct JobSlot {
    job: AnyJob,
    want: Vec<u8>,
    _input: Box<[u8]>,
}

struct World<'a> {
    builders: Vec<Option<Builder>>,
    hashers: Vec<Option<Live>>,
    jobs: Vec<Option<JobSlot>>,
    log: u64,
    verbose: bool,
    stats: &'a mut Stats,
}

fn arg(op: &Op, i: usize) -> u64 {
    op.args.get(i).copied().unwrap_or(0)
}

fn field_of(v: Variant, n: u64) -> u64 {
    n % if v.parallel() { 2 } else { FIELDS }
}

const NAMES: [&str; 11] = [
    "hash_length",
    "key",
    "salt",
    "personal",
    "fanout",
    "max_depth",
    "max_leaf_length",
    "node_offset",
    "node_depth",
    "inner_hash_length",
    "last_node",
];

fn content(seed: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill_content(mix(seed), 0, &mut v);
    v
}

impl<'a> World<'a> {
    fn obs(&mut self, tag: &str, b: &[u8]) {
        for x in tag.bytes().chain(b.iter().copied()) {
            self.log = (self.log ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.log = mix(self.log);
        if self.verbose {
            println!("  {} {}", tag, hex(b));
        }
    }

    fn verdict(&mut self, what: &str, got: &[u8], want: &[u8], spec: &Spec) -> Res<()> {
        self.obs(what, got);
        if got != want {
            return violation(
                "digest",
                format!("{} gives {} but its settings are {:?}: {}", what, hex(got), spec, hex(want)),
            );
        }
        Ok(())
    }

    fn check_builder(&mut self, b: usize, seed: u64, n: usize) -> Res<()> {
        if let Some(x) = &self.builders[b] {
            let input = content(seed, n);
            let got = no_panic("Params::hash", || x.p.hash(&input))?;
            let spec = x.spec.clone();
            self.verdict(&format!("builder {}", b), &got, &Model::hash(&spec, &input), &spec)?;
        }
        Ok(())
    }

    fn check_hasher(&mut self, h: usize) -> Res<()> {
        if let Some(x) = &self.hashers[h] {
            let got = no_panic("finalize()", || x.h.digest())?;
            let want = x.m.digest();
            let v = x.m.variant;
            self.obs("hasher", &got);
            if got != want {
                return violation(
                    "digest",
                    format!(
                        "hasher {} ({}) made earlier gives {} but should give {}",
                        h,
                        v.name(),
                        hex(&got),
                        hex(&want)
                    ),
                );
            }
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> Res<()> {
        if self.verbose {
            println!("{} {:?}", op.name, op.args);
        }
        let b = arg(op, 0) as usize % SLOTS;
        let d = arg(op, 1) as usize % SLOTS;
        let kind = match op.name.as_str() {
            "bnew" => 0,
            "put" => 1,
            "bad" => 2,
            "bcp" => 3,
            "make" => 4,
            "feed" => 5,
            "last" => 6,
            "dig" => 7,
            "one" => 8,
            "job" => 9,
            "run" => 10,
            "all" => 11,
            _ => return Ok(()),
        };
        let shape = self.builders[b].as_ref().map_or(0, |x| {
            let s = &x.spec;
            (x.spec.variant.idx() + 1) << 8
                | (!s.key.is_empty()) as u64
                | ((!s.salt.is_empty()) as u64) << 1
                | ((!s.personal.is_empty()) as u64) << 2
                | (s.last_node as u64) << 3
                | ((s.node_offset != 0) as u64) << 4
                | ((s.hash_length == s.variant.out()) as u64) << 5
        });
        self.stats.step(kind << 40 | shape << 16 | if kind == 1 || kind == 2 { arg(op, 1) % FIELDS } else { 0 });
        match op.name.as_str() {
            "bnew" => {
                let v = Variant::from(arg(op, 1));
                set_cpu(arg(op, 2) % 3);
                let p = no_panic("Params::new", || Params::new(v, arg(op, 3) & 1 == 1))?;
                set_cpu(2);
                self.builders[b] = Some(Builder { p, spec: Spec::new(v) });
                self.stats.hit("builders");
            }
            "put" => {
                let r = &mut Rng::new(mix(arg(op, 2)));
                let like = if r.pct(35) {
                    self.builders[arg(op, 2) as usize % 4].as_ref().map(|x| x.spec.clone())
                } else {
                    None
                };
                if let Some(x) = &mut self.builders[b] {
                    let v = x.spec.variant;
                    let f = field_of(v, arg(op, 1));
                    let val = match like {
                        Some(s) if s.variant == v => related(v, f, r, &s),
                        _ => legal(v, f, r),
                    };
                    no_panic(NAMES[f as usize], || x.p.set(f, &val))?;
                    apply(&mut x.spec, f, &val);
                    self.stats.hit("settings");
                }
            }
            "bad" => {
                if let Some(x) = &mut self.builders[b] {
                    let f = field_of(x.spec.variant, arg(op, 1));
                    if let Some(val) = illegal(x.spec.variant, f, &mut Rng::new(mix(arg(op, 2)))) {
                        self.stats.hit("fault: refused setting");
                        if catch_unwind(AssertUnwindSafe(|| x.p.set(f, &val))).is_ok() {
                            return violation(
                                "accepted",
                                format!(
                                    "{} {} of {} bytes or value {} was accepted",
                                    x.spec.variant.name(),
                                    NAMES[f as usize],
                                    val.bytes.len(),
                                    val.n
                                ),
                            );
                        }
                    }
                }
            }
            "bcp" => {
                if b != d {
                    if let Some(x) = &self.builders[b] {
                        let (p, spec) = (x.p.clone(), x.spec.clone());
                        let onto = match &mut self.builders[d] {
                            Some(y) if arg(op, 2) & 1 == 1 => y.p.assign(&p),
                            _ => false,
                        };
                        if onto {
                            self.builders[d].as_mut().unwrap().spec = spec;
                        } else {
                            self.builders[d] = Some(Builder { p, spec });
                        }
                        self.stats.hit("copies");
                    }
                }
            }
            "make" => {
                if let Some(x) = &self.builders[b] {
                    let h = no_panic("to_state()", || x.p.state())?;
                    self.hashers[d] = Some(Live { h, m: Model::new(&x.spec), seed: mix(arg(op, 2)) });
                    self.stats.hit("hashers made");
                }
            }
            "feed" => {
                if let Some(x) = &mut self.hashers[b] {
                    let n = arg(op, 1).min(2000) as usize;
                    let mut input = vec![0; n];
                    fill_content(x.seed, x.m.count() as u64, &mut input);
                    no_panic("update", || x.h.update(&input))?;
                    x.m.update(&input);
                }
            }
            "last" => {
                if let Some(x) = &mut self.hashers[b] {
                    if !x.m.variant.parallel() {
                        let f = arg(op, 1) & 1 == 1;
                        no_panic("set_last_node()", || x.h.set_last_node(f))?;
                        x.m.set_last_node(f);
                    }
                }
            }
            "dig" => self.check_hasher(b)?,
            "one" => self.check_builder(b, arg(op, 1), arg(op, 2).min(2000) as usize)?,
            "job" => {
                if let Some(x) = &self.builders[b] {
                    let n = arg(op, 2).min(1000) as usize;
                    let input = content(arg(op, 2), n).into_boxed_slice();
                    let long: &'static [u8] = unsafe { std::slice::from_raw_parts(input.as_ptr(), n) };
                    let job = match &x.p {
                        Params::B(p) => {
                            AnyJob::B(no_panic("HashManyJob::new", || blake2b_simd::many::HashManyJob::new(p, long))?)
                        }
                        Params::S(p) => {
                            AnyJob::S(no_panic("HashManyJob::new", || blake2s_simd::many::HashManyJob::new(p, long))?)
                        }
                        _ => return Ok(()),
                    };
                    let want = Model::hash(&x.spec, &input);
                    self.jobs[d] = Some(JobSlot { job, want, _input: input });
                    self.stats.hit("jobs made");
                }
            }
            "run" => self.run_jobs()?,
            _ => self.judge_all()?,
        }
        Ok(())
    }

    fn run_jobs(&mut self) -> Res<()> {
        no_panic("hash_many", || {
            FamB::hash_many(self.jobs.iter_mut().flatten().filter_map(|j| match &mut j.job {
                AnyJob::B(x) => Some(x),
                _ => None,
            }))
        })?;
        no_panic("hash_many", || {
            FamS::hash_many(self.jobs.iter_mut().flatten().filter_map(|j| match &mut j.job {
                AnyJob::S(x) => Some(x),
                _ => None,
            }))
        })?;
        for j in 0..SLOTS {
            if let Some(x) = &self.jobs[j] {
                let got = no_panic("to_hash()", || match &x.job {
                    AnyJob::B(x) => FamB::job_digest(x),
                    AnyJob::S(x) => FamS::job_digest(x),
                })?;
                let want = x.want.clone();
                self.obs("job", &got);
                if got != want {
                    return violation(
                        "digest",
                        format!("job {} made earlier gives {} but should give {}", j, hex(&got), hex(&want)),
                    );
                }
            }
        }
        Ok(())
    }

    fn judge_all(&mut self) -> Res<()> {
        for k in 0..SLOTS {
            self.check_builder(k, k as u64, 3 + 50 * k)?;
            self.check_hasher(k)?;
        }
        self.run_jobs()
    }
}

pub fn run(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    let r = run_inner(sc, verbose, stats);
    stats.end_run();
    r
}

fn run_inner(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    let mut w = World {
        builders: (0..SLOTS).map(|_| None).collect(),
        hashers: (0..SLOTS).map(|_| None).collect(),
        jobs: (0..SLOTS).map(|_| None).collect(),
        log: 0,
        verbose,
        stats,
    };
    for (i, op) in sc.ops.iter().enumerate() {
        w.step(op).map_err(|mut v| {
            v.msg = format!("step {} ({}): {}", i, op.name, v.msg);
            v
        })?;
    }
    w.judge_all().map_err(|mut v| {
        v.msg = format!("at the end: {}", v.msg);
        v
    })?;
    Ok(w.log)
}

pub fn generate(r: &mut Rng, sc: &mut Scenario, thorough: bool) {
    let n = r.range(1, 4);
    let fresh = |r: &mut Rng, sc: &mut Scenario, b: u64| {
        let (v, cpu, how) = (r.next() >> 8, r.below(3), r.below(2));
        sc.push("bnew", &[b, v % 4, cpu, how]);
    };
    for b in 0..n {
        fresh(r, sc, b);
    }
    let top = if thorough { 60 } else { 30 };
    let focus = r.below(FIELDS);
    for _ in 0..r.range(2, top).min(r.range(2, top)) {
        let b = r.below(n);
        let d = r.below(n.max(2));
        // Often the same field again and again.
        let f = if r.pct(40) { focus } else { r.below(FIELDS) };
        let x = r.next() >> 16;
        match r.below(27) {
            0..=9 => sc.push("put", &[b, f, x]),
            10..=12 => {
                let f = *r.pick(&[0, 1, 1, 2, 3, 7, 9]);
                sc.push("bad", &[b, f, x]);
            }
            13 | 26 => {
                let onto = r.below(2);
                sc.push("bcp", &[b, d, onto]);
            }
            14..=16 => sc.push("make", &[b, d, x]),
            17 | 18 => {
                let len = *r.pick(&[0, 1, 64, 65, 128, 129, 300, 700]);
                sc.push("feed", &[d, len]);
            }
            19 => {
                let flag = r.below(2);
                sc.push("last", &[d, flag]);
            }
            20 => sc.push("dig", &[d]),
            21 | 22 => {
                let len = *r.pick(&[0, 1, 128, 129, 600]);
                sc.push("one", &[b, x, len]);
            }
            23 => {
                let len = *r.pick(&[0, 1, 128, 129, 600]);
                sc.push("job", &[b, d, len]);
            }
            24 => {
                if r.pct(50) {
                    sc.push("run", &[]);
                } else {
                    sc.push("all", &[]);
                }
            }
            _ => fresh(r, sc, b),
        }
    }
}
