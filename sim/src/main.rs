//! b2sim: deterministic simulation of blake2b_simd and blake2s_simd.
//!
//!   b2sim search PROP SEED WORKER WORKERS COUNT TIER   search a share of the seeds
//!   b2sim gen PROP SEED INDEX TIER                     print one scenario
//!   b2sim exec FILE                                    execute a replay file
//!   b2sim log PROP SEED FROM TO TIER STEP                 print observation hashes
//!   b2sim selfcheck                                    check the models

mod builder;
mod gen;
mod giant;
mod guard;
mod heap;
#[cfg(feature = "std")]
mod io;
mod model;
mod rng;
mod scenario;
mod stats;
mod sut;
mod tree;
mod twins;
mod wide;
mod world;

use scenario::Scenario;
use stats::Stats;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;

/// The allocator; during a shortage it has nothing for the code under test.
struct Scarce;

unsafe impl GlobalAlloc for Scarce {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if heap::denied() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if heap::denied() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if heap::denied() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOCATOR: Scarce = Scarce;

/// The stack of the simulated thread in runs with a shortage.
const SMALL_STACK: usize = 128 << 10;

pub fn execute(sc: &Scenario, verbose: bool, stats: &mut Stats) -> world::Res<u64> {
    if sc.ops.iter().any(|o| o.name == "big") {
        return giant::run(sc, false);
    }
    use std::sync::atomic::Ordering::Relaxed;
    heap::SHORTAGE.store(sc.prop == "C19", Relaxed);
    heap::work::begin(sc.prop == "C23");
    let r = match sc.prop.as_str() {
        "C20" => builder::run(sc, verbose, stats),
        "C21" | "C22" => twins::run(sc, verbose, stats),
        "C13" => tree::run(sc, verbose, stats),
        _ => world::run(sc, verbose, stats),
    };
    let calls = heap::CALLS.swap(0, Relaxed);
    #[cfg(b2counted)]
    {
        use heap::work::{CALLS, EDGES, WORST};
        stats.add("calls whose steps were counted", CALLS.load(Relaxed));
        stats.add("steps counted", EDGES.load(Relaxed));
        stats.most("largest part of an allowance used, per mille", WORST.load(Relaxed));
    }
    if calls > 0 {
        stats.add("fault: call during which every allocation fails", calls);
    }
    r
}

/// As `execute`, in a process of its own: what counts instructions must not
/// depend on what earlier runs left in the process, such as a lazily filled
/// cache.
fn execute_apart(sc: &Scenario, stats: &mut Stats) -> world::Res<u64> {
    let mut ends = [0i32; 2];
    let text = unsafe {
        assert!(libc::pipe(ends.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(ends[0]);
            let mut own = Stats::default();
            let mut text = match execute(sc, false, &mut own) {
                Ok(log) => format!("log {:016x}\n", log),
                Err(v) => format!("broken {} {}\n", v.class, v.msg.replace('\n', " ")),
            };
            own.counters.iter().for_each(|(k, v)| text += &format!("count {} {}\n", v, k));
            own.transitions.iter().for_each(|t| text += &format!("transition {}\n", t));
            own.runs.iter().for_each(|t| text += &format!("run {}\n", t));
            text += "end\n";
            let mut left = text.as_bytes();
            while !left.is_empty() {
                let n = libc::write(ends[1], left.as_ptr() as *const _, left.len());
                if n <= 0 {
                    libc::_exit(4);
                }
                left = &left[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(ends[1]);
        let mut pipe = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(ends[0]);
        let mut text = String::new();
        std::io::Read::read_to_string(&mut pipe, &mut text).expect("pipe");
        let mut status = 0;
        assert!(libc::waitpid(pid, &mut status, 0) == pid, "waitpid");
        if !text.ends_with("end\n") {
            // It died; so do we, of the same cause.
            if libc::WIFSIGNALED(status) {
                libc::signal(libc::WTERMSIG(status), libc::SIG_DFL);
                libc::raise(libc::WTERMSIG(status));
            }
            libc::_exit(libc::WEXITSTATUS(status));
        }
        text
    };
    let mut res = Ok(0);
    for line in text.lines() {
        let (kind, rest) = line.split_once(' ').unwrap_or((line, ""));
        let number = || rest.parse().expect("number");
        match kind {
            "log" => res = Ok(u64::from_str_radix(rest, 16).expect("number")),
            "broken" => {
                let (class, msg) = rest.split_once(' ').expect("class");
                res = Err(world::Violation { class: Box::leak(class.into()), msg: msg.into() });
            }
            "count" => {
                let (n, name) = rest.split_once(' ').expect("counter");
                stats.add_named(name, n.parse().expect("number"));
            }
            "transition" => {
                stats.transitions.insert(number());
            }
            "run" => {
                stats.nontrivial += 1;
                stats.runs.insert(number());
            }
            _ => {}
        }
    }
    res
}

fn search_execute(sc: &Scenario, stats: &mut Stats) -> world::Res<u64> {
    if sc.prop == "C21" {
        execute_apart(sc, stats)
    } else {
        execute(sc, false, stats)
    }
}

fn json_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o
}

fn write_set(path: &str, set: &std::collections::HashSet<u64>) {
    let mut v: Vec<u64> = set.iter().copied().collect();
    v.sort_unstable();
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(path, bytes).expect("writing a result file");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let small = match a.get(1).map(|s| s.as_str()) {
        Some("search") | Some("log") => a[2] == "C19",
        Some("exec") => std::fs::read_to_string(&a[2]).expect("replay file").contains("property C19\n"),
        _ => false,
    };
    if small {
        let size = std::env::var("B2SIM_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(SMALL_STACK);
        let t = std::thread::Builder::new().stack_size(size).spawn(work).expect("thread");
        if t.join().is_err() {
            std::process::exit(3);
        }
    } else {
        work();
    }
}

fn work() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a[i].parse().expect("number") };
    world::install_panic_hook();
    guard::install_fault_handler();
    match a.get(1).map(|s| s.as_str()) {
        Some("selfcheck") => {
            if let Err(e) = model::self_check() {
                println!("{}", e);
                std::process::exit(2);
            }
        }
        Some("gen") => print!("{}", gen::generate(&a[2], num(3), num(4), &a[5]).text()),
        Some("exec") => {
            // A replay file holds one run, or, when the failure needs what
            // earlier runs in the same process left behind, several.
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let verbose = a.get(3).map(|s| s == "-v").unwrap_or(false);
            let mut stats = Stats::default();
            let mut last = 0;
            for part in text.split("b2sim 1\n").skip(1) {
                let sc = Scenario::parse(part).expect("parse");
                match execute(&sc, verbose, &mut stats) {
                    Ok(log) => last = log,
                    Err(v) => {
                        println!("BROKEN class={} {}", v.class, v.msg.replace('\n', " "));
                        std::process::exit(1);
                    }
                }
            }
            println!("HELD log={:016x}", last);
        }
        Some("giant") => {
            let sc = Scenario::parse(&std::fs::read_to_string(&a[2]).expect("file")).expect("parse");
            if let Err(v) = giant::run(&sc, true) {
                println!("{} {}", v.class, v.msg);
            }
        }
        Some("log") => {
            let mut out = std::io::BufWriter::new(std::io::stdout());
            let mut stats = Stats::default();
            for i in (num(4)..num(5)).step_by(num(7) as usize) {
                let sc = gen::generate(&a[2], num(3), i, &a[6]);
                match search_execute(&sc, &mut stats) {
                    Ok(log) => writeln!(out, "{} {:016x}", i, log).unwrap(),
                    Err(v) => writeln!(out, "{} {}", i, v.class).unwrap(),
                }
            }
        }
        Some("search") => {
            // search PROP SEED WORKER WORKERS COUNT TIER OUTPREFIX SECONDS
            let (prop, seed, w, ws, count, tier, prefix) = (&a[2], num(3), num(4), num(5), num(6), &a[7], &a[8]);
            let cap = std::time::Duration::from_secs(num(9));
            let start = std::time::Instant::now();
            if let Err(e) = model::self_check() {
                println!("{}", e);
                std::process::exit(2);
            }
            // The index in progress, readable after a crash.
            let cur = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(format!("{}.cur", prefix))
                .expect("status file");
            cur.set_len(8).expect("status file");
            let slot = unsafe {
                use std::os::fd::AsRawFd;
                libc::mmap(
                    std::ptr::null_mut(),
                    8,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED,
                    cur.as_raw_fd(),
                    0,
                ) as *mut u64
            };
            let mut stats = Stats::default();
            let mut logs =
                std::io::BufWriter::new(std::fs::File::create(format!("{}.logs", prefix)).expect("log file"));
            let mut i = w;
            let mut runs = 0u64;
            let mut steps = 0u64;
            let mut verdict = String::new();
            let mut capped = false;
            while i < count {
                // The wall-clock limit only bounds a slow machine; it is not
                // reached in normal use and only ever shortens the search.
                if runs % 64 == 0 && start.elapsed() > cap {
                    capped = true;
                    break;
                }
                unsafe { slot.write_volatile(i) };
                let sc = gen::generate(prop, seed, i, tier);
                steps += sc.ops.len() as u64;
                runs += 1;
                match search_execute(&sc, &mut stats) {
                    Ok(log) => logs.write_all(&log.to_le_bytes()).expect("log file"),
                    Err(v) => {
                        verdict = format!(
                            ", \"violation\": {{\"index\": {}, \"class\": \"{}\", \"msg\": \"{}\"}}",
                            i,
                            v.class,
                            json_escape(&v.msg)
                        );
                        break;
                    }
                }
                i += ws;
            }
            logs.flush().expect("log file");
            write_set(&format!("{}.transitions", prefix), &stats.transitions);
            write_set(&format!("{}.runs", prefix), &stats.runs);
            let counters: Vec<String> = stats.counters.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
            println!(
                "{{\"runs\": {}, \"steps\": {}, \"nontrivial\": {}, \"capped\": {}, \"counters\": {{{}}}{}}}",
                runs,
                steps,
                stats.nontrivial,
                capped,
                counters.join(", "),
                verdict
            );
        }
        _ => {
            eprintln!("usage: b2sim search|gen|exec|log|selfcheck ...");
            std::process::exit(2);
        }
    }
}
