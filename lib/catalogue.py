"""What each property's check is."""

ENGINE = {
    "C01": "world", "C02": "world", "C03": "world", "C04": "world", "C05": "world", "C06": "world",
    "C07": "threads", "C08": "world", "C09": "cli", "C10": "cli", "C11": "cli", "C12": "cli", "C13": "world", "C14": "world", "C15": "world", "C16": "world",
    "C17": "cli", "C18": "cli", "C19": "world", "C20": "world",
    "C21": "world", "C22": "world", "C23": "world", "C24": "cli", "C25": "cli",
}

LEVEL = {}

RULE = {
    "world": "A run is a scenario generated from one seed: a sequence of steps (open, segment, snapshot, clone, "
             "crash, restart, batch, job, writer call, fault) on several hashers. It is non-trivial if it has at "
             "least three effective steps; distinct runs differ in the sequence of abstract transitions, where a "
             "transition is the step kind, hash function, keyedness, CPU level and the classes of stream position "
             "and segment length relative to block and row boundaries.",
    "threads": "A run is one forked process with up to four threads of which one runs at a time, following a scenario "
               "generated from one seed: calls started in threads, suspended after a number of steps, resumed. A step is "
               "a machine instruction (builds checked and shipped, single-stepped), or an edge of the control flow graph "
               "or an access to static data (build traced, instrumented by the compiler), or a callback. Distinct runs differ in the sequence of calls and of the exact places where they were "
               "suspended; it is non-trivial if it has at least three of these.",
    "cli": "A run is one process of the tool in a simulated operating system, following a scenario generated from one "
           "seed. It is non-trivial if at least three simulated system events happened; distinct runs differ in the "
           "sequence of abstract transitions, where a transition is the kind of event, the kind of file, the error and "
           "the classes of position and length.",
}

COMPONENTS = {
    "world": {
        "real code": ["blake2b_simd (State, Params, many, blake2bp, all SIMD levels)",
                      "blake2s_simd (State, Params, many, blake2sp, all SIMD levels)",
                      "std::io adaptors (copy, BufReader, BufWriter, LineWriter, Chain, Take)"],
        "simulated": ["transports and their buffers", "input sources and second sinks with faults",
                      "callers' iterators and accessors, including panics", "CPU feature detection (hook)",
                      "process crashes and restarts (only the snapshot survives)", "byte counters near overflow (hook)"],
    },
    "threads": {
        "real code": ["blake2b_simd and blake2s_simd, all interfaces, at machine-code level",
                      "the standard library's locks and thread-locals up to the futex call"],
        "simulated": ["thread scheduling (single-stepping, one thread at a time)", "futex waits and yields",
                      "memory allocation (no locks, never reused)", "CPU feature detection (hook)",
                      "callers' iterators and accessors, re-entering the crates"],
    },
    "cli": {
        "real code": ["the blake2 command line tool, release build, no hooks, with both hash crates, memmap, structopt "
                      "and the standard library", "the C allocator between failures"],
        "simulated": ["files and standard input (content, size, metadata, change during reading)",
                      "open, read, stat, mmap and their failures, short counts and interruptions",
                      "standard output and error (short, interrupted and failing writes, full disk, broken pipe)",
                      "process kill at any event", "allocation failure", "descriptor and mapping limits",
                      "CPUID (trapped, fewer features reported)"],
    },
}

ASSUMPTIONS = {
    "world": [
        "the reference models (RFC 7693 and the BLAKE2 paper, checked against 288 known answers) are right",
        "what holds for the sampled schedules and faults is evidence for the rest, not proof",
        "x86-64 with SSE4.1 and AVX2; other targets are represented by the portable code only",
    ],
    "threads": [
        "the reference models (RFC 7693 and the BLAKE2 paper, checked against 288 known answers) are right",
        "what holds for the sampled schedules is evidence for the rest, not proof",
        "threads interleave at instructions on one processor: effects of weak memory ordering are not simulated",
    ],
    "cli": [
        "the reference model (checked against hashlib and the published vectors) is right",
        "what holds for the sampled scenarios is evidence for the rest, not proof",
        "the tool reaches the system through the C library's functions (true for Rust on Linux with glibc)",
        "a file is not changed while it is mapped (undefined behaviour of mapping itself)",
    ],
}

TECHNIQUE = {
    "world": "deterministic simulation with fault injection: seeded schedules and faults against a reference model",
    "threads": "deterministic simulation with fault injection: seeded thread schedules at instruction granularity",
    "cli": "deterministic simulation with fault injection: the unmodified tool in a simulated operating system",
}

_TRUST = ("Evidence from seeded search, not proof. Trusts the reference models (checked against 288 known answers), "
          "the simulator and, where used, the CPU-level and counter hooks.")

_TRUST_CLI = ("Evidence from seeded search, not proof. Trusts the reference model and the simulated operating system, "
              "which is preloaded into the release binary.")

NOTE = {
    "C01": "Hundreds of thousands of simulated transports cutting streams at, around and far from every buffer boundary, "
           "for all four functions, all CPU levels and interleaved hashers; digests against the specification model. " + _TRUST,
    "C02": "Counts judged after every step, with transfers broken and resumed at count(), fast-forwards to just below "
           "counter-word boundaries and real inputs longer than 4 GiB. " + _TRUST,
    "C03": "Snapshots, clones, moves, drops, crashes with restart from a snapshot and late last-node flags at arbitrary "
           "points; every observation against the model. " + _TRUST,
    "C04": "Batches of up to 40 hashers, rarely 140,000, with hostile but legal iterators, mixed with single updates. " + _TRUST,
    "C05": "Batches of up to 40 jobs, rarely 140,000, resubmissions, partitions, clones, hostile but legal iterators. " + _TRUST,
    "C06": "Panics injected at every position of iterators, accessors and iterator drops; each object must be untouched "
           "or complete, and later batches must work. " + _TRUST,
    "C07": "Real threads under a deterministic scheduler that suspends a call after any machine instruction, at any "
           "edge of the control flow graph, before any access to static data or inside a callback while other calls run, in fresh processes, so also the very first calls. Simple "
           "re-entrant use included. Memory ordering between processors is not simulated. " + _TRUST,
    "C08": "Each history executed under every simulated CPU feature level and mixtures; logs compared with each other "
           "and the model. The hook only lowers what detection reports. " + _TRUST,
    "C09": "The unmodified binary over simulated files and pipes: short and interrupted reads of every shape, lying "
           "metadata, files changed while they are read, accepted and rejected parameters, CPUs with fewer features. " + _TRUST_CLI,
    "C10": "Open and read errors at every position, missing files, descriptor limits, up to 1,200 inputs, names of all sorts. " + _TRUST_CLI,
    "C11": "Mapping of empty, page-multiple and large files (including more than 4 GiB), failing metadata and mapping, "
           "mixtures of inputs. " + _TRUST_CLI,
    "C12": "Short, interrupted and failing writes on both streams, kills before and after every event, allocation failure; "
           "what was accepted is judged as a prefix of the right lines. " + _TRUST_CLI,
    "C13": "A simulated cluster of workers with crashes, restarts, CPU changes and late last-node decisions; node and "
           "root digests against the model and the built-in parallel functions. " + _TRUST,
    "C14": "Objects and inputs border unmapped pages, inputs are read-only during calls and unmapped afterwards; any "
           "stray access ends the run. Stack accesses are not covered. " + _TRUST,
    "C15": "All standard adaptors over sources and sinks with short, interrupted, would-block and failing operations. " + _TRUST,
    "C16": "The same seeds in std, no_std, reduced-inlining, checked and statically-AVX2 builds; observation logs must "
           "be identical. " + _TRUST,
    "C17": "Every file-modifying call of the C library is recorded and refused by the simulated system; inputs, failures, "
           "kills, modes and permissions as in C09-C12. " + _TRUST_CLI,
    "C18": "Inputs of up to 34 MB, endless delivery schedules, lying metadata, pipes and up to 1024 inputs under an "
           "accounting of everything allocated; exceeding 12 MiB is the violation. " + _TRUST_CLI,
    "C19": "Histories as in C16 with a global allocator that fails every allocation during library calls, in a thread with "
           "a 128 KiB stack; batches of up to 140,000. " + _TRUST,
    "C20": "Histories of settings, overwrites, refusals, copies and uses on up to four builders of all functions, each "
           "judged against a model that keeps only the latest accepted values. " + _TRUST,
    "C21": "Twin histories at the same addresses that differ only in secret bytes, single-stepped: the sequences of executed "
           "instructions, which are the simulated time, must be equal. Caches and memory addresses are not compared. " + _TRUST,
    "C22": "Twin histories that differ only in secret bytes; renderings of every object at any moment and panic messages must "
           "be equal. " + _TRUST,
    "C23": "Histories as in C08 in a build whose control flow the compiler has instrumented; the steps of every call are "
           "counted and a call that exceeds an allowance for what it is given is stopped and reported. Growth within "
           "the allowance (some fifty times what is used) is not seen. " + _TRUST,
    "C24": "Scenarios as in C09-C12 and C18, and inputs in small pieces, hundreds of interruptions, a silent standard input; the "
           "tool is instrumented by the compiler and its steps are counted against an allowance (some fifty times what is "
           "used). Sleeping is simulated. A hang outside of instrumented code would be seen after a minute of real time. " + _TRUST_CLI,
    "C25": "Twin runs under the same schedule of faults that differ only in the bytes of the key, of the contents, or of both: "
           "system events, messages, exit status and the shape of the output must be equal. The time between two "
           "events is not compared. " + _TRUST_CLI,
}

NOT_APPLICABLE = {
    "N01": "A one-call hash is a pure function of its input: there is no schedule, fault, clock or history to simulate "
           "(the same code paths are compared with the model wherever a history property needs a digest).",
    "N03": "Conversions and comparisons of digest values are pure functions: nothing for a simulator to decide.",
}
