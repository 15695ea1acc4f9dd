//! The code under test behind one uniform interface. Nothing here computes.

use crate::guard::Place;
use crate::heap::{scarce, work};
use crate::model::{Spec, Variant};

// How parameters are built, a route, makes no difference. Bit 0: everything is
// set to something else first; bit 1: cloned; bit 2: cloned into another object;
// the rest: the order of the calls.

pub enum Hasher {
    B(Place<blake2b_simd::State>),
    S(Place<blake2s_simd::State>),
    Bp(Place<blake2b_simd::blake2bp::State>),
    Sp(Place<blake2s_simd::blake2sp::State>),
}

#[macro_export]
/// A digest as the users see it, whole ones in both ways.
macro_rules! observe {
    ($h:expr) => {{
        let h = $crate::heap::scarce(|| $h);
        let v = h.as_bytes().to_vec();
        $crate::heap::render(&h);
        let odd = $crate::heap::FORMS && {
            let hex = $crate::heap::scarce(|| h.to_hex());
            !$crate::sut::is_hex(&v, &hex) || !$crate::heap::scarce(|| h == h.clone() && h == v[..])
        };
        match h.whole() {
            // Shown by a result that is longer than any digest.
            Some(a) if a != v => [&v[..], a].concat(),
            _ if odd => [&v[..], &v[..]].concat(),
            _ => v,
        }
    }};
}

/// Whether this text is the hexadecimal form of the bytes.
pub fn is_hex(bytes: &[u8], text: &str) -> bool {
    let t = text.as_bytes();
    t.len() == 2 * bytes.len()
        && bytes.iter().enumerate().all(|(i, b)| {
            t[2 * i] == b"0123456789abcdef"[(b >> 4) as usize] && t[2 * i + 1] == b"0123456789abcdef"[(b & 15) as usize]
        })
}

pub trait Whole {
    /// The digest as an array if it has the full length.
    fn whole(&self) -> Option<&[u8]>;
}

impl Whole for blake2b_simd::Hash {
    fn whole(&self) -> Option<&[u8]> {
        (self.as_bytes().len() == blake2b_simd::OUTBYTES).then(|| &self.as_array()[..])
    }
}

impl Whole for blake2s_simd::Hash {
    fn whole(&self) -> Option<&[u8]> {
        (self.as_bytes().len() == blake2s_simd::OUTBYTES).then(|| &self.as_array()[..])
    }
}

macro_rules! each {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            Hasher::B($x) => $e,
            Hasher::S($x) => $e,
            Hasher::Bp($x) => $e,
            Hasher::Sp($x) => $e,
        }
    };
}

pub fn set_cpu(level: u64) {
    blake2b_simd::sim::set_cpu_level(level as u8);
    blake2s_simd::sim::set_cpu_level(level as u8);
}

/// The order in which `n` parameters are set.
fn setters(route: u64, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let seed = route >> 3;
    if seed != 0 {
        let mut r = crate::rng::Rng::new(seed);
        for i in (1..n).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    v
}

macro_rules! finish_params {
    ($ty:ty, $p:ident, $route:ident) => {
        if $route & 4 == 4 {
            // Into an existing object with other contents.
            let mut q = <$ty>::new();
            q.key(&[9; 11]).hash_length(5);
            scarce(|| q.clone_from(&$p));
            $p.key(&[1; 3]).hash_length(2);
            q
        } else if $route & 2 == 2 {
            let q = scarce(|| $p.clone());
            // The original's fate must not matter to the copy.
            $p.key(&[1; 3]).hash_length(2);
            q
        } else {
            $p
        }
    };
}

macro_rules! tree_params {
    ($name:ident, $krate:ident) => {
        pub fn $name(s: &Spec, route: u64) -> $krate::Params {
            let mut p = scarce(|| $krate::Params::new());
            if route & 1 == 1 {
                // Set everything to something else first.
                p.hash_length(1)
                    .key(&[7; $krate::KEYBYTES])
                    .salt(&[3; $krate::SALTBYTES])
                    .personal(&[4; $krate::PERSONALBYTES])
                    .fanout(9)
                    .max_depth(200)
                    .max_leaf_length(77)
                    .node_offset(5)
                    .node_depth(9)
                    .inner_hash_length(3)
                    .last_node(true);
            }
            for k in setters(route, 11) {
                scarce(|| {
                    match k {
                        0 => p.hash_length(s.hash_length),
                        1 if route & 1 == 1 || !s.key.is_empty() => p.key(&s.key),
                        2 => p.salt(&s.salt),
                        3 => p.personal(&s.personal),
                        4 => p.fanout(s.fanout),
                        5 => p.max_depth(s.max_depth),
                        6 => p.max_leaf_length(s.max_leaf_length),
                        7 => p.node_offset(s.node_offset),
                        8 => p.node_depth(s.node_depth),
                        9 => p.inner_hash_length(s.inner_hash_length),
                        10 => p.last_node(s.last_node),
                        _ => &mut p,
                    };
                });
            }
            finish_params!($krate::Params, p, route)
        }
    };
}

macro_rules! par_params {
    ($name:ident, $ty:ty, $krate:ident) => {
        pub fn $name(s: &Spec, route: u64) -> $ty {
            let mut p = scarce(|| <$ty>::new());
            if route & 1 == 1 {
                p.hash_length(1).key(&[7; $krate::KEYBYTES]);
            }
            for k in setters(route, 2) {
                scarce(|| {
                    match k {
                        0 => p.hash_length(s.hash_length),
                        _ if route & 1 == 1 || !s.key.is_empty() => p.key(&s.key),
                        _ => &mut p,
                    };
                });
            }
            finish_params!($ty, p, route)
        }
    };
}

tree_params!(params_b, blake2b_simd);
tree_params!(params_s, blake2s_simd);
par_params!(params_bp, blake2b_simd::blake2bp::Params, blake2b_simd);
par_params!(params_sp, blake2s_simd::blake2sp::Params, blake2s_simd);

fn is_default(s: &Spec) -> bool {
    *s == Spec::new(s.variant)
}

impl Hasher {
    pub fn new(s: &Spec, cpu: u64, route: u64, guarded: Option<bool>) -> Hasher {
        set_cpu(cpu);
        let plain = is_default(s) && route & 1 == 1;
        let h = match s.variant {
            Variant::B if plain => Hasher::B(Place::new(scarce(blake2b_simd::State::new), guarded)),
            Variant::S if plain => Hasher::S(Place::new(scarce(blake2s_simd::State::new), guarded)),
            Variant::Bp if plain => Hasher::Bp(Place::new(scarce(blake2b_simd::blake2bp::State::new), guarded)),
            Variant::Sp if plain => Hasher::Sp(Place::new(scarce(blake2s_simd::blake2sp::State::new), guarded)),
            Variant::B => {
                let p = params_b(s, route);
                Hasher::B(Place::new(scarce(|| p.to_state()), guarded))
            }
            Variant::S => {
                let p = params_s(s, route);
                Hasher::S(Place::new(scarce(|| p.to_state()), guarded))
            }
            Variant::Bp => {
                let p = params_bp(s, route);
                crate::heap::render(&p);
                Hasher::Bp(Place::new(scarce(|| p.to_state()), guarded))
            }
            Variant::Sp => {
                let p = params_sp(s, route);
                crate::heap::render(&p);
                Hasher::Sp(Place::new(scarce(|| p.to_state()), guarded))
            }
        };
        set_cpu(2);
        h
    }

    pub fn variant(&self) -> Variant {
        match self {
            Hasher::B(_) => Variant::B,
            Hasher::S(_) => Variant::S,
            Hasher::Bp(_) => Variant::Bp,
            Hasher::Sp(_) => Variant::Sp,
        }
    }

    pub fn update(&mut self, input: &[u8]) {
        work::allow(input.len());
        each!(self, h => scarce(|| {
            h.update(input);
        }))
    }

    pub fn digest(&self) -> Vec<u8> {
        each!(self, h => observe!(h.finalize()))
    }

    pub fn count(&self) -> u128 {
        each!(self, h => {
            crate::heap::render(&**h);
            scarce(|| h.count()) as u128
        })
    }

    pub fn set_last_node(&mut self, v: bool) {
        match self {
            Hasher::B(h) => scarce(|| {
                h.set_last_node(v);
            }),
            Hasher::S(h) => scarce(|| {
                h.set_last_node(v);
            }),
            _ => {}
        }
    }

    pub fn dup(&self, guarded: Option<bool>) -> Hasher {
        match self {
            Hasher::B(h) => Hasher::B(Place::new(scarce(|| (**h).clone()), guarded)),
            Hasher::S(h) => Hasher::S(Place::new(scarce(|| (**h).clone()), guarded)),
            Hasher::Bp(h) => Hasher::Bp(Place::new(scarce(|| (**h).clone()), guarded)),
            Hasher::Sp(h) => Hasher::Sp(Place::new(scarce(|| (**h).clone()), guarded)),
        }
    }

    /// Make `self` a copy of `src` in place. False if that is impossible.
    pub fn assign(&mut self, src: &Hasher) -> bool {
        match (self, src) {
            (Hasher::B(d), Hasher::B(s)) => scarce(|| (**d).clone_from(&**s)),
            (Hasher::S(d), Hasher::S(s)) => scarce(|| (**d).clone_from(&**s)),
            (Hasher::Bp(d), Hasher::Bp(s)) => scarce(|| (**d).clone_from(&**s)),
            (Hasher::Sp(d), Hasher::Sp(s)) => scarce(|| (**d).clone_from(&**s)),
            _ => return false,
        }
        true
    }

    /// Move the hasher to another address.
    pub fn relocate(self, guarded: Option<bool>) -> Hasher {
        match self {
            Hasher::B(h) => Hasher::B(Place::new(h.into_inner(), guarded)),
            Hasher::S(h) => Hasher::S(Place::new(h.into_inner(), guarded)),
            Hasher::Bp(h) => Hasher::Bp(Place::new(h.into_inner(), guarded)),
            Hasher::Sp(h) => Hasher::Sp(Place::new(h.into_inner(), guarded)),
        }
    }

    pub fn advance(&mut self, bytes: u128) {
        match self {
            Hasher::B(h) => h.sim_advance_count(bytes),
            Hasher::S(h) => h.sim_advance_count(bytes as u64),
            Hasher::Bp(h) => h.sim_advance_count(bytes),
            Hasher::Sp(h) => h.sim_advance_count(bytes as u64),
        }
    }

    #[cfg(feature = "std")]
    pub fn write_all(&mut self, input: &[u8]) {
        use std::io::{IoSlice, Write};
        work::allow(input.len());
        each!(self, h => scarce(|| {
            let half = input.len() / 2;
            let r = h.write(&input[..half]).and_then(|n| {
                h.write_all(&input[n..half])?;
                let n = h.write_vectored(&[IoSlice::new(&[]), IoSlice::new(&input[half..])])?;
                h.write_all(&input[half + n..])?;
                h.flush()
            });
            assert!(r.is_ok(), "writing failed: {:?}", r);
        }))
    }

    #[cfg(feature = "std")]
    pub fn writer(&mut self) -> &mut dyn std::io::Write {
        each!(self, h => &mut **h)
    }
}

/// A call that is given `input`.
fn given<T>(input: &[u8], f: impl FnOnce() -> T) -> T {
    work::credit(0, input.len());
    f()
}

/// Hash in one call.
pub fn one_shot(s: &Spec, cpu: u64, route: u64, input: &[u8]) -> Vec<u8> {
    set_cpu(cpu);
    let plain = is_default(s) && route & 1 == 1;
    let out = match s.variant {
        Variant::B if plain => observe!(given(input, || blake2b_simd::blake2b(input))),
        Variant::S if plain => observe!(given(input, || blake2s_simd::blake2s(input))),
        Variant::Bp if plain => observe!(given(input, || blake2b_simd::blake2bp::blake2bp(input))),
        Variant::Sp if plain => observe!(given(input, || blake2s_simd::blake2sp::blake2sp(input))),
        Variant::B => {
            let p = params_b(s, route);
            observe!(given(input, || p.hash(input)))
        }
        Variant::S => {
            let p = params_s(s, route);
            observe!(given(input, || p.hash(input)))
        }
        Variant::Bp => {
            let p = params_bp(s, route);
            observe!(given(input, || p.hash(input)))
        }
        Variant::Sp => {
            let p = params_sp(s, route);
            observe!(given(input, || p.hash(input)))
        }
    };
    set_cpu(2);
    out
}

/// What a batch is handed, and how many bytes come with each item.
#[cfg(b2counted)]
struct Handed<I, F>(I, F);

#[cfg(b2counted)]
impl<I: IntoIterator, F: Fn(&I::Item) -> usize> IntoIterator for Handed<I, F> {
    type Item = I::Item;
    type IntoIter = Handing<I::IntoIter, F>;
    fn into_iter(self) -> Self::IntoIter {
        Handing(self.0.into_iter(), self.1)
    }
}

#[cfg(b2counted)]
struct Handing<I, F>(I, F);

#[cfg(b2counted)]
impl<I: Iterator, F: Fn(&I::Item) -> usize> Iterator for Handing<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.0.next()?;
        work::credit(1, (self.1)(&x));
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

/// The batch interfaces of one crate.
pub trait Family: 'static {
    type State: Clone;
    type Job: Clone;
    fn update_many<'a, 'b, I, T>(pairs: I)
    where
        I: IntoIterator<Item = (&'a mut Self::State, &'b T)>,
        T: AsRef<[u8]> + ?Sized + 'b;
    fn hash_many<'a, I>(jobs: I)
    where
        I: IntoIterator<Item = &'a mut Self::Job>;
    fn job(s: &Spec, cpu: u64, route: u64, input: &'static [u8]) -> Self::Job;
    fn job_digest(j: &Self::Job) -> Vec<u8>;
    fn job_advance(j: &mut Self::Job, bytes: u128);
    fn degree() -> usize;
    const MAX_DEGREE: usize;
    fn state(h: &mut Hasher) -> Option<*mut Self::State>;
}

macro_rules! family {
    ($name:ident, $krate:ident, $params:ident, $variant:ident, $count:ty) => {
        pub struct $name;
        impl Family for $name {
            type State = $krate::State;
            type Job = $krate::many::HashManyJob<'static>;
            fn update_many<'a, 'b, I, T>(pairs: I)
            where
                I: IntoIterator<Item = (&'a mut Self::State, &'b T)>,
                T: AsRef<[u8]> + ?Sized + 'b,
            {
                #[cfg(b2counted)]
                let pairs = Handed(pairs, |x: &(_, &'b T)| std::mem::size_of_val(x.1));
                scarce(|| $krate::many::update_many(pairs))
            }
            fn hash_many<'a, I>(jobs: I)
            where
                I: IntoIterator<Item = &'a mut Self::Job>,
            {
                work::allow_jobs();
                #[cfg(b2counted)]
                let jobs = Handed(jobs, |_: &_| 0);
                scarce(|| $krate::many::hash_many(jobs))
            }
            fn job(s: &Spec, cpu: u64, route: u64, input: &'static [u8]) -> Self::Job {
                set_cpu(cpu);
                let p = $params(s, route);
                crate::heap::render(&p);
                work::job(Some(input.len()));
                let j = scarce(|| $krate::many::HashManyJob::new(&p, input));
                crate::heap::render(&j);
                set_cpu(2);
                j
            }
            fn job_digest(j: &Self::Job) -> Vec<u8> {
                crate::heap::render(j);
                observe!(j.to_hash())
            }
            fn job_advance(j: &mut Self::Job, bytes: u128) {
                j.sim_advance_count(bytes as $count)
            }
            fn degree() -> usize {
                scarce($krate::many::degree)
            }
            const MAX_DEGREE: usize = $krate::many::MAX_DEGREE;
            fn state(h: &mut Hasher) -> Option<*mut Self::State> {
                match h {
                    Hasher::$variant(p) => Some(&mut **p as *mut Self::State),
                    _ => None,
                }
            }
        }
    };
}

family!(FamB, blake2b_simd, params_b, B, u128);
family!(FamS, blake2s_simd, params_s, S, u64);
