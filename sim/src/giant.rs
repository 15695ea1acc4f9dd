//! Designated runs with inputs longer than 4 GiB: a 1 MiB pattern mapped again
//! and again. The expected digests are golden values (tools/mkgiant.py).

use crate::model::{Spec, Variant};
use crate::scenario::Scenario;
use crate::sut::{one_shot, FamB, FamS, Family, Hasher};
use crate::world::{Res, Violation};
#[cfg(feature = "std")]
use std::io::IoSlice;

const PERIOD: usize = 1 << 20;

fn pattern() -> Vec<u8> {
    let mut x = 0x1234_5678_9abc_def0u64;
    let mut out = Vec::with_capacity(PERIOD);
    while out.len() < PERIOD {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        out.extend_from_slice(&(x ^ x >> 29).to_le_bytes());
    }
    out
}

/// `size` bytes of the repeated pattern, starting at its beginning.
fn map(size: usize) -> &'static [u8] {
    unsafe {
        let fd = libc::memfd_create(b"giant\0".as_ptr() as *const libc::c_char, 0);
        let p = pattern();
        assert_eq!(libc::write(fd, p.as_ptr() as *const libc::c_void, PERIOD), PERIOD as isize);
        let pages = (size + 4095) / 4096 * 4096;
        let at = libc::mmap(
            std::ptr::null_mut(),
            pages + 4096,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(at != libc::MAP_FAILED);
        let mut k = 0;
        while k < pages {
            let n = std::cmp::min(PERIOD, pages - k);
            let q = libc::mmap(
                (at as *mut u8).add(k) as *mut libc::c_void,
                n,
                libc::PROT_READ,
                libc::MAP_SHARED | libc::MAP_FIXED,
                fd,
                0,
            );
            assert!(q != libc::MAP_FAILED);
            k += n;
        }
        libc::close(fd);
        std::slice::from_raw_parts(at as *const u8, size)
    }
}

fn bad(what: &'static str, msg: String) -> Violation {
    Violation { class: what, msg }
}

/// big FUNC MODE SIZE HEAD KEYED CPU EXPECT-HIGH EXPECT-LOW: the digest of
/// HEAD + SIZE bytes (the first HEAD bytes of the pattern, then SIZE bytes of
/// the repeated pattern) begins with EXPECT.
pub fn run(sc: &Scenario, print: bool) -> Res<u64> {
    let mut last = 0;
    for op in &sc.ops {
        let a = &op.args;
        let variant = [Variant::B, Variant::S, Variant::Bp, Variant::Sp][a[0] as usize % 4];
        let (mode, size, head, keyed, cpu) = (a[1], a[2] as usize, a[3] as usize % 4096, a[4], a[5]);
        let mut spec = Spec::new(variant);
        if keyed == 1 {
            spec.key = vec![0x42; 11];
        }
        let input = map(size);
        let small: Vec<u8> = input[..777].to_vec();
        let small_digest = one_shot(&spec, cpu, 0, &small);
        let mut counts = Vec::new();
        let mut digests = Vec::new();
        match mode {
            0 => digests.push(one_shot(&spec, cpu, 0, input)),
            1 => {
                let mut h = Hasher::new(&spec, cpu, 0, None);
                h.update(&input[..head]);
                h.update(input);
                counts.push(h.count());
                digests.push(h.digest());
            }
            2 | 4 => {
                let giants = if mode == 2 { 1 } else { 8 };
                let mut hs: Vec<Hasher> = (0..giants).map(|_| Hasher::new(&spec, cpu, 0, None)).collect();
                for h in &mut hs {
                    h.update(&input[..head]);
                }
                let mut others: Vec<Hasher> = (0..3).map(|_| Hasher::new(&spec, cpu, 0, None)).collect();
                {
                    let small_ref: &[u8] = &small;
                    let pairs = others.iter_mut().map(|h| (h, small_ref));
                    let pairs = pairs.chain(hs.iter_mut().map(|h| (h, input)));
                    match variant {
                        Variant::B => {
                            FamB::update_many(pairs.map(|(h, i)| (unsafe { &mut *FamB::state(h).unwrap() }, i)))
                        }
                        _ => FamS::update_many(pairs.map(|(h, i)| (unsafe { &mut *FamS::state(h).unwrap() }, i))),
                    }
                }
                for h in &others {
                    if h.count() != small.len() as u128 || h.digest() != small_digest {
                        return Err(bad("digest", "a short hasher beside a giant one is wrong".into()));
                    }
                }
                for h in &hs {
                    counts.push(h.count());
                    digests.push(h.digest());
                }
            }
            // Through the writer interface, as much as it takes.
            #[cfg(feature = "std")]
            5 | 6 => {
                let mut h = Hasher::new(&spec, cpu, 0, None);
                let mut done = 0;
                while done < head + size {
                    let first = &input[done.min(head)..head];
                    let second = &input[done.saturating_sub(head)..];
                    let given = match first.len() {
                        0 => second.len(),
                        n => n + if mode == 6 { second.len() } else { 0 },
                    };
                    let w = h.writer();
                    let got = match first.len() {
                        _ if mode == 6 => w.write_vectored(&[IoSlice::new(first), IoSlice::new(second)]),
                        0 => w.write(second),
                        _ => w.write(first),
                    };
                    match got {
                        Ok(n) if 0 < n && n <= given => done += n,
                        r => return Err(bad("io", format!("a write of {} bytes gave {:?}", given, r))),
                    }
                }
                counts.push(h.count());
                digests.push(h.digest());
            }
            _ => {
                let small: &'static [u8] = &input[..777];
                let inputs = [small, input, small, small];
                let all: Vec<Vec<u8>> = if variant == Variant::B {
                    let mut jobs: Vec<_> = inputs.iter().map(|i| FamB::job(&spec, cpu, 0, i)).collect();
                    FamB::hash_many(jobs.iter_mut());
                    jobs.iter().map(FamB::job_digest).collect()
                } else {
                    let mut jobs: Vec<_> = inputs.iter().map(|i| FamS::job(&spec, cpu, 0, i)).collect();
                    FamS::hash_many(jobs.iter_mut());
                    jobs.iter().map(FamS::job_digest).collect()
                };
                for k in [0, 2, 3] {
                    if all[k] != small_digest {
                        return Err(bad("digest", "a short job beside a giant one is wrong".into()));
                    }
                }
                digests.push(all[1].clone());
            }
        }
        for c in counts {
            if c != (head + size) as u128 {
                return Err(bad("count", format!("count is {} after {} bytes ({:?})", c, head + size, a)));
            }
        }
        for d in digests {
            let x = u64::from_be_bytes(d[..8].try_into().unwrap());
            let y = u64::from_be_bytes(d[8..16].try_into().unwrap());
            if print {
                println!("GIANT {} {}", x, y);
            } else if (x, y) != (a[6], a[7]) {
                return Err(bad(
                    "digest",
                    format!("function {:?} mode {}: wrong digest of {} + {} bytes", variant, mode, head, size),
                ));
            }
            last ^= x;
        }
        unsafe { libc::munmap(input.as_ptr() as *mut libc::c_void, (size + 4095) / 4096 * 4096 + 4096) };
    }
    Ok(last)
}
