//! Batches of very many items and segments of many megabytes: sizes at which
//! narrow indices, counters and length fields overflow.

use crate::model::{hex, Model, Spec, Variant};
use crate::rng::{fill_content, mix, Rng};
use crate::scenario::Op;
use crate::sut::{self, FamB, FamS, Family, Hasher};
use crate::world::{make_spec, no_panic, violation, Env, Feeder, IterPlan, Res, SimPanic, Source, World, LAST_PANIC};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const MAX_WIDE: u64 = 140_000;
pub const MAX_VAST: u64 = 80 << 20;

fn arg(op: &Op, i: usize) -> u64 {
    op.args.get(i).copied().unwrap_or(0)
}

/// The parameters of item i: mostly the defaults.
fn item_spec(v: Variant, r: &mut Rng) -> Spec {
    let mask = if r.pct(70) { 0 } else { r.below(128) & r.below(128) };
    make_spec(v, r.next() >> 16, mask)
}

fn item_len(style: u64, same: u64, v: Variant, r: &mut Rng) -> u64 {
    let b = v.block() as u64;
    match style % 5 {
        0 => same,
        1 if r.pct(90) => r.below(3),
        2 if r.pct(97) => same,
        3 => (1 + r.below(3)) * b + r.below(2),
        _ => r.below(4 * b),
    }
}

fn check_outcome(what: &str, outcome: std::thread::Result<()>) -> Res<()> {
    if let Err(p) = outcome {
        if !p.is::<SimPanic>() {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            return violation("panic", format!("{} panicked: {}", what, msg.replace('\n', " ")));
        }
    }
    Ok(())
}

fn verdict(what: &str, i: usize, n: usize, len: usize, got: &[u8], want: &[u8]) -> Res<()> {
    if got != want {
        return violation(
            "digest",
            format!(
                "item {} of a {} of {} items ({} bytes): {} but the specification gives {}",
                i,
                what,
                n,
                len,
                hex(got),
                hex(want)
            ),
        );
    }
    Ok(())
}

/// wide FAM KIND N SEED FLAGS PANIC-AT PANIC-KIND
pub fn wide(w: &mut World, op: &Op) -> Res<()> {
    if arg(op, 0) & 1 == 0 {
        wide_in::<FamB>(w, op, Variant::B)
    } else {
        wide_in::<FamS>(w, op, Variant::S)
    }
}

fn wide_in<F: Family>(w: &mut World, op: &Op, v: Variant) -> Res<()> {
    let n = arg(op, 2).min(MAX_WIDE) as usize;
    let seed = arg(op, 3);
    let plan = IterPlan {
        flags: arg(op, 4) % 4,
        gap_at: arg(op, 4) >> 8,
        panic_at: arg(op, 5),
        panic_kind: if arg(op, 6) == 5 { 0 } else { arg(op, 6) & 2 },
        lie: arg(op, 4) >> 2 & 7,
    };
    let mut top = Rng::new(mix(seed));
    let mut data = vec![0; 1 << 16];
    fill_content(mix(seed), 0, &mut data);
    let data: &'static [u8] = unsafe { std::slice::from_raw_parts(data.leak().as_ptr(), 1 << 16) };
    // Given back below; the batch calls need a lifetime that outlives the jobs.
    let guard = Leaked(data.as_ptr() as *mut u8, data.len());
    let style = top.below(5);
    let same = top.below(4 * v.block() as u64);
    let cpu = w.cpu(top.below(3));
    let mixed = top.pct(30);
    let slice = |len: u64, r: &mut Rng| {
        let at = r.below(data.len() as u64 - len) as usize;
        &data[at..at + len as usize]
    };
    w.stats.step(60 << 32 | (arg(op, 1) & 1) << 8 | v.idx() | (64 - (n as u64).leading_zeros() as u64) << 16);
    let end = if plan.flags & 2 != 0 { (plan.gap_at as usize).min(n) } else { n };
    if arg(op, 1) & 1 == 0 {
        w.stats.hit("very large batched updates");
        let mut hs: Vec<Hasher> = vec![];
        let mut ms: Vec<Model> = vec![];
        let mut inputs: Vec<&[u8]> = vec![];
        for i in 0..n {
            let r = &mut Rng::new(mix(seed).wrapping_add(i as u64));
            let spec = item_spec(v, r);
            let cpu = if mixed { w.cpu(r.below(3)) } else { cpu };
            let mut h = Hasher::new(&spec, cpu, 0, None);
            let mut m = Model::new(&spec);
            if r.pct(50) {
                let len = r.below(2 * v.block() as u64 + 1);
                let pre = slice(len, r);
                h.update(pre);
                m.update(pre);
            }
            hs.push(h);
            ms.push(m);
            let len = item_len(style, same, v, r);
            inputs.push(slice(len, r));
        }
        let env = Rc::new(Env::default());
        let pairs: Vec<(&mut F::State, &[u8])> =
            hs.iter_mut().zip(&inputs).map(|(h, i)| (unsafe { &mut *F::state(h).unwrap() }, *i)).collect();
        let f = Feeder::new(pairs, plan, &env);
        let outcome = catch_unwind(AssertUnwindSafe(|| F::update_many(Source(f))));
        let fired = env.fired.get();
        check_outcome("update_many", outcome)?;
        let consumed = env.consumed.get() as usize;
        if consumed > end && w.judges() {
            return violation(
                "end",
                format!("the iterator ended after {} items, but the batch took {}", end, consumed),
            );
        }
        for i in 0..n {
            let (c, d) = no_panic("finalize()", || (hs[i].count(), hs[i].digest()))?;
            if !w.judges() {
                continue;
            }
            let mut after = ms[i].clone();
            after.update(inputs[i]);
            let untouched = c == ms[i].count() && d == ms[i].digest();
            let ok = if !fired && i < end {
                false
            } else if i >= consumed {
                if !untouched {
                    return violation("digest", format!("item {} of {} was never handed over, but has changed", i, n));
                }
                continue;
            } else {
                untouched
            };
            if ok {
                continue;
            }
            if c != after.count() {
                return violation(
                    "count",
                    format!(
                        "item {} of a batched update of {} items: count {} but {} bytes were fed",
                        i,
                        n,
                        c,
                        after.count()
                    ),
                );
            }
            verdict("batched update", i, n, inputs[i].len(), &d, &after.digest())?;
            if i < 8 {
                w.obs("wide", &d);
            }
        }
    } else {
        w.stats.hit("very large batched hashes");
        let mut jobs: Vec<F::Job> = vec![];
        let mut want: Vec<(Spec, &[u8])> = vec![];
        for i in 0..n {
            let r = &mut Rng::new(mix(seed).wrapping_add(i as u64));
            let spec = item_spec(v, r);
            let cpu = if mixed { w.cpu(r.below(3)) } else { cpu };
            let len = item_len(style, same, v, r);
            let input = slice(len, r);
            jobs.push(F::job(&spec, cpu, 0, input));
            want.push((spec, input));
        }
        let env = Rc::new(Env::default());
        let f = Feeder::new(jobs.iter_mut().collect::<Vec<_>>(), plan, &env);
        let outcome = catch_unwind(AssertUnwindSafe(|| F::hash_many(Source(f))));
        check_outcome("hash_many", outcome)?;
        let consumed = env.consumed.get() as usize;
        if consumed > end && w.judges() {
            return violation(
                "end",
                format!("the iterator ended after {} items, but the batch took {}", end, consumed),
            );
        }
        // Those that have not run yet run now; the others do not change.
        let outcome = catch_unwind(AssertUnwindSafe(|| F::hash_many(jobs.iter_mut())));
        check_outcome("hash_many", outcome)?;
        for (i, (spec, input)) in want.iter().enumerate() {
            let d = no_panic("to_hash()", || F::job_digest(&jobs[i]))?;
            if w.judges() {
                verdict("batched hash", i, n, input.len(), &d, &Model::hash(spec, input))?;
            }
            if i < 8 {
                w.obs("wide", &d);
            }
        }
    }
    drop(guard);
    Ok(())
}

struct Leaked(*mut u8, usize);

impl Drop for Leaked {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.0, self.1))) }
    }
}

/// vast VARIANT PSEED MASK CPU HOW PRE LEN ALIGN: one very long segment.
pub fn vast(w: &mut World, op: &Op) -> Res<()> {
    let v = Variant::from(arg(op, 0));
    let spec = make_spec(v, arg(op, 1), arg(op, 2));
    let cpu = w.cpu(arg(op, 3));
    let how = arg(op, 4) % 7;
    let pre = arg(op, 5).min(1 << 14) as usize;
    let len = arg(op, 6).min(MAX_VAST) as usize;
    let mut all = vec![0; pre + len + 300];
    fill_content(mix(arg(op, 1)), 0, &mut all);
    let (head, rest) = all.split_at(pre);
    let (body, tail) = rest.split_at(len);
    w.stats.step(
        61 << 32 | v.idx() | how << 8 | (64 - (len as u64).leading_zeros() as u64) << 16 | (len as u64 % 3) << 24,
    );
    w.stats.hit("segments of up to many megabytes");
    w.stats.add("bytes hashed", all.len() as u64);
    let mut h = no_panic("creating a hasher", || Hasher::new(&spec, cpu, 0, None))?;
    let mut m = Model::new(&spec);
    let mut others: Vec<Hasher> = (0..5).map(|_| Hasher::new(&spec, cpu, 0, None)).collect();
    no_panic("update", || h.update(head))?;
    m.update(head);
    m.update(body);
    if how == 3 || how == 4 && !v.parallel() {
        // In one call instead.
        let input: &'static [u8] = unsafe { std::slice::from_raw_parts(all.as_ptr(), pre + len) };
        let got = no_panic("one-call hash", || {
            if how == 3 {
                sut::one_shot(&spec, cpu, 0, input)
            } else if v.big() {
                beside::<FamB>(&spec, cpu, input)
            } else {
                beside::<FamS>(&spec, cpu, input)
            }
        })?;
        w.obs("vast", &got);
        if w.judges() {
            verdict("one-call or batched hash", 0, 1, pre + len, &got, &m.digest())?;
        }
        return Ok(());
    }
    no_panic("update", || match how {
        #[cfg(feature = "std")]
        1 => {
            let r = h.writer().write_all(body);
            assert!(r.is_ok(), "write_all failed: {:?}", r);
        }
        #[cfg(feature = "std")]
        5 => {
            let r = std::io::copy(&mut std::io::Cursor::new(body), &mut h.writer());
            assert_eq!(r.ok(), Some(body.len() as u64), "copy");
        }
        2 | 6 if !v.parallel() => {
            let rest = if how == 2 { 0 } else { others.len() };
            let mut pairs: Vec<(&mut Hasher, &[u8])> = vec![];
            for (k, o) in others.iter_mut().take(rest).enumerate() {
                pairs.push((o, &tail[..60 * k]));
            }
            pairs.insert(rest / 2, (&mut h, body));
            if v.big() {
                FamB::update_many(pairs.into_iter().map(|(h, i)| (unsafe { &mut *FamB::state(h).unwrap() }, i)))
            } else {
                FamS::update_many(pairs.into_iter().map(|(h, i)| (unsafe { &mut *FamS::state(h).unwrap() }, i)))
            }
        }
        _ => h.update(body),
    })?;
    for t in [&tail[..0], tail] {
        no_panic("update", || h.update(t))?;
        m.update(t);
        let (c, d) = no_panic("finalize()", || (h.count(), h.digest()))?;
        w.obs("vast", &d);
        if w.judges() {
            if c != m.count() {
                return violation("count", format!("{}: count() is {} but {} bytes were fed", v.name(), c, m.count()));
            }
            verdict("segment", how as usize, 1, len, &d, &m.digest())?;
        }
    }
    Ok(())
}

fn beside<F: Family>(spec: &Spec, cpu: u64, input: &'static [u8]) -> Vec<u8> {
    let small = &input[..input.len().min(100)];
    let mut jobs: Vec<F::Job> = [small, small, input, small].iter().map(|i| F::job(spec, cpu, 0, i)).collect();
    F::hash_many(jobs.iter_mut());
    F::job_digest(&jobs[2])
}
