#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))
B = ["blake2b/src/lib.rs", "blake2b/src/blake2bp.rs", "blake2s/src/lib.rs", "blake2s/src/blake2sp.rs"]
G = ["blake2b/src/guts.rs", "blake2s/src/guts.rs"]
M = ["blake2b/src/many.rs", "blake2s/src/many.rs"]
K = ["blake2b/src/portable.rs", "blake2b/src/sse41.rs", "blake2b/src/avx2.rs",
     "blake2s/src/portable.rs", "blake2s/src/sse41.rs", "blake2s/src/avx2.rs"]
CLI = ["blake2_bin/src/main.rs"]

p("C01", "A streamed digest depends only on the bytes delivered, not on their delivery",
  "For BLAKE2b, BLAKE2s, BLAKE2bp and BLAKE2sp, and any legal parameters, an incremental hasher's digest is exactly the digest the BLAKE2 specification gives for the concatenation of the bytes it was fed. How a transport cut those bytes into segments (including empty, one-byte and many-block ones), which feeding call carried each segment, and how the hasher's life was interleaved with other hashers make no difference. Hashing the same bytes in one call with the same parameters gives the same digest.",
  ["schedules", "inputs", "histories"],
  "all four functions, all parameter values, all byte streams, all segmentations and all interleavings of several live hashers",
  "Tests split a handful of fixed inputs in two or into single bytes (b/s), or peel off one byte (bp/sp); they never vary the number, sizes and order of segments, keys together with multi-segment streams, or several interleaved hashers.",
  B + G + K,
  [("buffer-then-compress with lazy final block", "blake2b/src/lib.rs State::update / fill_buf / compress_buffer_if_possible"),
   ("double leaf buffer so that no leaf is finalised early", "blake2b/src/blake2bp.rs State::update"),
   ("key block preloaded in the buffer", "State::with_params")],
  [("buf/buflen", "unabsorbed tail of the stream", "blake2b/src/lib.rs State"), ("words", "chaining value", "blake2b/src/lib.rs State")],
  ["State::finalize", "Params::hash"])

p("C02", "Byte accounting is exact at every instant, however long the stream gets",
  "At every point of a hasher's life its reported byte count equals exactly the number of input bytes it has been fed, never including key padding, for all four hash functions and whichever feeding call was used. Streams, batched updates and batched hashes whose length crosses the boundary of a counter word (4 GiB for BLAKE2s and per lane for BLAKE2sp; 2^64 bytes for BLAKE2b and BLAKE2bp) still produce the specified digest and count. A source that resumes a broken transfer at the reported count therefore ends with the digest of the whole stream.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of feeds, batches and broken-and-resumed transfers, of any total length up to the specification's limit",
  "Tests look at the count after one or two feeds of a few kilobytes. Nothing feeds a hasher past a counter word, and resumption from the count is not exercised at all.",
  B + M + G + K,
  [("count is advanced with every compression", "State::update, many::update_many, blake2bp State::compress_to_leaves"),
   ("two-word counter carry", "guts.rs count_low/count_high/assemble_count, sse41.rs/avx2.rs add_to_counts")],
  [("count", "bytes compressed so far (per leaf in bp/sp)", "State, HashManyJob, guts::Job")],
  ["State::count", "State::finalize", "HashManyJob::to_hash"],
  "advance the byte counter of a hasher or job by a multiple of the block size, to start near a carry (cfg(blake2_sim))")

p("C03", "Snapshots do not disturb a hasher and forks of it are independent",
  "Taking a digest at any moment yields the digest of exactly the bytes fed so far, gives the same value when repeated, and leaves the hasher's future unaffected. A clone taken at any moment is an independent hasher: after a crash that loses the original, restarting from the clone and re-sending what followed gives the digest an uninterrupted run gives, and neither copy's later input, flags or destruction affects the other. Marking the last-node flag at any time before a digest is taken has the same effect as having set it in the parameters.",
  ["histories", "crash_points"],
  "all histories of feeds, digests, clones, flag changes and crashes, with the crash at any point",
  "Tests take repeated digests after two fixed inputs and never clone a hasher in mid-stream, restart from a clone, or change the last-node flag in mid-stream.",
  B + G,
  [("finalize works on a copy of the chaining value", "State::finalize"), ("State is plain data and Clone", "State"),
   ("last-node flag kept outside the chaining value until finalisation", "State::set_last_node")],
  [("words/buf", "chaining value and tail, must not change in finalize", "State")],
  ["State::finalize", "Clone for State", "State::set_last_node"])

p("C04", "A batched update equals updating each hasher alone",
  "Submitting any collection of (hasher, input) pairs as one batched update leaves every hasher exactly as feeding it its own input alone would: same later digests and same byte count. This holds for any number of pairs, any mixture of input lengths, parameters, prior contents and detected CPU features, any sequence of batches and single updates, and any behaviour of the caller's iterator. Every pair the iterator gives before it first ends is applied exactly once, none is lost or applied to another hasher, and nothing after that end is taken.",
  ["schedules", "histories", "inputs"],
  "all batch compositions and orders, all arrival schedules of the work items, all prior histories of each hasher",
  "Tests run the same batch twice on fresh hashers, with up to 16 inputs of at most a few blocks and well-behaved slice iterators, and compare with the library's own single update.",
  M + G + K,
  [("working set of jobs refilled from the iterator, finished ones evicted in order", "many.rs compress_many / fill_jobs_vec / evict_finished"),
   ("buffer completion and tail buffering before a job is issued", "many.rs update_many"), ("fused iterator", "many.rs compress_many")],
  [("jobs_vec", "jobs in flight across SIMD lanes", "many.rs compress_many")],
  ["many::update_many", "State::finalize", "State::count"])

p("C05", "A batched hash gives every job the digest of its own parameters and input",
  "Running any collection of hash jobs as one batch gives each job exactly the digest of its own parameters and input, for any number of jobs, any mixture of lengths, keys, flags, digest lengths and CPU features, any partition of the jobs into batches and any behaviour of the caller's iterator. A job that has already been run is not changed by being submitted again, alone or among new jobs. Every job the iterator gives before it first ends is run, and nothing after that end is taken.",
  ["schedules", "histories", "inputs"],
  "all job sets, all partitions into batches and resubmissions, all arrival schedules",
  "Tests run each job set once as one batch from a slice, with inputs of at most a few blocks, and compare with the library's own hash; resubmission, partial batches and irregular iterators are not tried.",
  M + G + K,
  [("finished flag, set when a job is taken", "many.rs hash_many"), ("key block compressed at job construction", "many.rs HashManyJob::new"),
   ("SIMD lanes with per-lane counters and finalisation", "sse41.rs/avx2.rs compressN_loop")],
  [("finished", "job has been run", "many.rs HashManyJob")],
  ["many::hash_many", "HashManyJob::to_hash"])

p("C06", "An interrupted batch leaves every hasher and job in a consistent state",
  "If a batched update or batched hash is cut short because the caller's iterator or input accessor panics, every hasher or job is afterwards either as if never submitted or as if completely processed, and everything the iterator had not handed over is untouched. A job that did not run is still run correctly by the next batch it is submitted to, and a hasher that was not fed can still be fed. Hashers and jobs outside the batch, clones taken earlier and later calls are unaffected.",
  ["crash_points", "fault_sequences"],
  "all batches, with the interruption at every point at which the call runs caller code",
  "No test interrupts a batch.",
  M,
  [("state bookkeeping done before the jobs in flight are compressed", "many.rs update_many / hash_many / compress_many")],
  [("jobs_vec", "jobs taken but not yet compressed", "many.rs compress_many"), ("finished/count/buf", "already advanced when the job is taken", "many.rs")],
  ["many::update_many", "many::hash_many", "State::finalize", "State::count", "HashManyJob::to_hash"])

p("C07", "Hashers in different threads never influence each other",
  "Hashers, jobs and parameter builders used from different threads, moved between threads between calls, shared for reading, or used from inside another call's iterator or input accessor give exactly the results they give alone. This holds for every interleaving of the calls, including one call being suspended at any instruction while others run.",
  ["schedules"],
  "all interleavings, at instruction granularity, of calls made by several threads on distinct hashers or on shared read-only ones",
  "Every test is sequential within itself and touches its own objects; the test harness's parallelism is neither controlled nor checked for interference.",
  B + M + G,
  [("no mutable state outside the caller's objects", "whole library"), ("CPU detection cache in the standard library is idempotent", "guts.rs Implementation::detect")],
  (), ["all public hashing calls"])

p("C08", "Every CPU feature level computes the same function",
  "The same history of operations gives the same digests and counts on a machine where no SIMD extension, only SSE4.1, or AVX2 is detected, and when hashers or jobs created under different detected feature levels are mixed in one batch. The advertised parallelism degree is at least one and never exceeds the advertised maximum.",
  ["configurations", "histories"],
  "all feature levels and mixtures of them, over all histories",
  "On an AVX2 machine the tests reach the SSE4.1-only and portable paths only through the compression loops in isolation or the no_std build; batches, bp/sp and streams under a lesser CPU, and mixed batches, are not run.",
  G + K + M,
  [("runtime dispatch", "guts.rs Implementation::{detect,compress1_loop,compress2_loop,compress4_loop,degree}"),
   ("implementation of a batch taken from its first element", "many.rs update_many/hash_many")],
  [("implementation", "feature level fixed at construction", "Params, State, HashManyJob")],
  ["State::finalize", "many::*", "many::degree"],
  "mask the detected CPU features (cfg(blake2_sim))")

p("C09", "The command line tool prints the digest of exactly the bytes its input delivered",
  "For every selected function and every accepted combination of parameter flags, the digest the tool prints for a file or for standard input is the specified digest, under exactly those parameters, of all the bytes that input delivers up to its end. Short reads of any size, interrupted system calls, wrong or zero file sizes in the file's metadata, and a file being changed by another process while it is read sequentially do not change this: the digest is that of the bytes delivered. Parameters that are not accepted yield no digest and a non-zero exit status.",
  ["schedules", "fault_sequences", "inputs"],
  "all inputs, flag combinations and all ways the operating system may deliver the bytes",
  "Tests hash a six-byte pipe and files of at most 255 bytes, each delivered by one full read, with three flag sets.",
  CLI,
  [("read loop until zero bytes, retrying interrupted reads", "blake2_bin/src/main.rs read_write_all"), ("flag to parameter mapping", "blake2_bin/src/main.rs make_params")],
  (), ["standard output", "exit status"])

p("C10", "The command line tool never prints a digest for an input it could not read",
  "If opening or reading an input fails at any point, the tool prints no digest for that input, names it in a message on standard error, still processes every other input correctly and in order, and exits with a non-zero status. The exit status is zero only if every input was read to its end and its digest printed; the tool terminates in a bounded number of steps. Inputs may be as many as the system allows and have any name a file can have; only a failed memory allocation may end the tool early, and then with a non-zero status and no wrong line.",
  ["fault_sequences", "crash_points"],
  "all sequences of inputs with failures of open, read, metadata or memory allocation at any point of any of them",
  "No test makes an input fail or passes more than one input.",
  CLI,
  [("per-input error report and sticky failure flag", "blake2_bin/src/main.rs main"), ("fresh hasher per input", "blake2_bin/src/main.rs hash_file")],
  (), ["standard output", "standard error", "exit status"])

p("C11", "Memory-mapped input gives the same answer as reading, or a reported failure",
  "With memory mapping requested, each input file either yields exactly the digest that reading it would yield or is reported as failed with no digest and a non-zero exit status; it is never silently read differently, truncated or skipped. This holds for every file size, including empty, page-multiple and larger than 4 GiB, when the metadata query or the mapping fails, and next to other inputs that fail or succeed. Mapping standard input is refused.",
  ["inputs", "fault_sequences", "configurations"],
  "all file sizes and contents and all failures of the metadata, mapping and opening calls",
  "One test maps one six-byte file successfully.",
  CLI,
  [("map exactly the length in the metadata", "blake2_bin/src/main.rs mmap_file")],
  (), ["standard output", "standard error", "exit status"])

p("C12", "Digest lines reach standard output complete, in order, once, or the tool fails",
  "Whatever standard output and standard error accept of what the tool writes (short writes, interrupted writes, a broken pipe, a full disk), what has been accepted on standard output is at every moment, including after the process is killed at any point, a prefix of the correct lines in argument order. The exit status is zero only if all of them were accepted completely; each line appears exactly once, and with several inputs it names its input.",
  ["fault_sequences", "crash_points"],
  "all sequences of partial, interrupted and failed writes and all kill points",
  "Tests read all output of a single-input run through a pipe that never fails.",
  CLI,
  [("line-buffered output and panic on failed printing", "blake2_bin/src/main.rs main (println!)")],
  (), ["standard output", "exit status"])

p("C13", "Tree hashes built from the public parameters compose to BLAKE2bp and BLAKE2sp",
  "A tree hash computed by independent workers, each hashing nodes with the public tree parameters (fanout, depth, leaf length, node offset, node depth, inner length, last-node flag), gives the specified tree digest whatever the order in which leaf work and last-node decisions arrive, and whatever workers crash and redo their node on a machine with other CPU features. For four BLAKE2b leaves dealt block by block (eight for BLAKE2s) it is the digest of the built-in parallel function.",
  ["schedules", "crash_points", "histories"],
  "all inputs, tree shapes, arrival orders, late last-node decisions, worker crashes and restarts",
  "A unit test compares the built-in parallel function with one sequential unkeyed composition; other shapes, keys and schedules are not tried.",
  B + G,
  [("tree parameters folded into the initial chaining value", "Params::to_words"), ("leaf/root parameters of bp/sp", "blake2bp.rs Params::to_words / finalize_root_words")],
  (), ["Params::*", "State::set_last_node", "blake2bp::State::finalize", "blake2sp::State::finalize"])

p("C14", "Hashing never touches memory outside the caller's buffers",
  "No call reads or writes memory outside the input slices it is given and the objects it is called on, nor writes to an input, whatever the lengths, alignments and positions of the segments and of the batched inputs. In particular an input whose first or last byte borders an unmapped page never faults, on any detected CPU feature level, and an input buffer can be reused or unmapped as soon as the call returns.",
  ["inputs", "schedules", "fault_sequences"],
  "all segment lengths, alignments and page placements, streams, batches and feature levels, with accesses outside the buffers faulting",
  "Tests use ordinary buffers, where a stray read past the end goes unnoticed.",
  K + M + G,
  [("pointer loads bounded by the shortest lane; partial blocks copied to a local buffer", "guts.rs final_block, sse41.rs/avx2.rs loops")],
  (), ["all public hashing calls"])

p("C15", "Writer calls acknowledge exactly the bytes absorbed, each exactly once",
  "Through the standard writer interface a hasher absorbs exactly the bytes it acknowledges, in order and exactly once, whatever adaptor drives it (plain, all-at-once, vectored and formatted writes, buffered writers, stream copies) and however the source stutters with short, interrupted, would-block or failing reads. When a copy fails part way, the hasher holds exactly the bytes delivered before the failure and can continue; flushing never changes the digest.",
  ["fault_sequences", "schedules"],
  "all adaptor sequences and all read-fault sequences of the source",
  "One test makes one successful full write to one hasher type.",
  B,
  [("write delegates to update and returns the full length; flush does nothing", "impl std::io::Write for State")],
  (), ["std::io::Write", "State::count", "State::finalize"])

p("C16", "All build configurations behave identically",
  "The same history of operations gives the same digests, counts and acknowledgements whether the crates are built with or without the standard library, with or without debug assertions and overflow checks, and with or without the reduced-inlining option. No legal history panics in any of them.",
  ["configurations", "histories"],
  "all supported feature sets and profiles, over all histories of streams, snapshots and batches",
  "Each configuration runs the same few fixed cases; histories beyond them, and agreement between configurations, are not checked.",
  B + M + G + ["blake2b/src/portable.rs", "blake2s/src/portable.rs"],
  [("cfg-dependent detection, inlining and assertions", "guts.rs, portable.rs, many.rs")],
  (), ["all public hashing calls"])

p("C17", "The command line tool changes nothing it is pointed at",
  "Whatever inputs, flags and failures the tool meets, and wherever it is killed, it opens its inputs for reading only and never creates, writes, truncates, renames, removes or changes the attributes of any file: the file system is afterwards as before. This includes names that do not exist, files without write permission, and inputs given several times or mapped. It writes to nothing but its standard output and standard error.",
  ["fault_sequences", "crash_points", "inputs"],
  "all argument lists, environments, failures of system calls and kill points",
  "Tests hash temporary files and look only at what is printed.",
  CLI,
  [("inputs opened with File::open, mapped read-only", "blake2_bin/src/main.rs open_input / mmap_file")],
  (), ["file system", "modes of opened files and mappings"])

p("C18", "The command line tool's memory use is bounded however large the work",
  "Reading inputs without mapping them, the tool never has more than 12 MiB allocated beyond what its arguments take, however long the inputs are, however many of them there are, whether they are files, pipes or standard input, and whatever length their metadata claims. Every input is hashed while it is read: none has to fit in memory, and nothing accumulates from one input to the next. With mapping requested the same bound holds for what it allocates itself.",
  ["inputs", "fault_sequences", "configurations"],
  "all input lengths, numbers of inputs, delivery schedules and metadata claims",
  "Tests hash inputs of a few bytes one at a time and do not look at memory.",
  CLI,
  [("one fixed read buffer per input", "blake2_bin/src/main.rs read_write_all"), ("files closed and unmapped after each input", "blake2_bin/src/main.rs hash_file")],
  (), ["allocated memory"])

p("C19", "The library needs no heap and only a small stack",
  "Every legal call on parameters, hashers, batches and jobs works when every memory allocation fails and when the calling thread's stack is only 128 KiB. This holds in every build configuration and whatever the length of the input, the number of pairs or jobs in a batch, the detected CPU features and the history of the objects. The results are those obtained with plenty of memory.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "all histories of calls with allocation failing at any point, all input lengths and batch sizes",
  "Every test runs with a working allocator and a large stack, on batches of at most 16.",
  B + M + G,
  [("fixed-size working set of a batch", "many.rs compress_many (ArrayVec)"), ("fixed-size buffers in the objects", "State, blake2bp::State"), ("no_std", "lib.rs")],
  (), ["all public hashing calls"])

p("C20", "A parameter builder means exactly its latest accepted settings",
  "Whatever settings were made before, in whatever order, repeated, overwritten by shorter ones, or refused, a parameter builder and every copy of it behave as a fresh builder given only the latest accepted value of each setting. A setting outside its documented range is refused with a panic, however large, and every setting inside it is accepted; a refusal leaves the builder, its copies and everything made from it as they were. Hashers and jobs made from a builder keep the settings of the moment they were made, whatever is later done to the builder.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of settings, refused settings, copies and uses of several builders",
  "Tests set each parameter once on a fresh builder and try one value past each limit; overwriting, refusal followed by further use, and copies are not tried.",
  B + M,
  [("assertions before any assignment, fixed-size arrays zero-filled beyond the value", "Params setters"), ("parameters copied into the hasher or job", "Params::to_state, HashManyJob::new")],
  [("key_block, key_length, salt, personal, node_offset", "the settings", "Params")],
  ["Params::hash", "Params::to_state", "HashManyJob::new"])

p("C21", "The time of a call does not depend on secret bytes",
  "Comparing two digests, or a digest with a byte string, of equal length takes the same course, instruction by instruction, whether and wherever they differ. Likewise the course of setting a key, feeding, batching, finalising or hashing depends on the lengths and public parameters involved but not on the bytes of keys and inputs. This holds for every detected CPU feature level, whatever happened before.",
  ["histories", "inputs", "configurations"],
  "all pairs of histories that differ only in the bytes of keys, inputs and digests, in simulated time",
  "Tests compare results and never look at the time or course of a call.",
  B + M + G + K,
  [("constant-time comparison", "PartialEq for Hash (constant_time_eq)"), ("no branch on data", "compression loops, State::update, Params::key")],
  (), ["executed instructions of every public call"])

p("C22", "Debug output and panic messages reveal no secrets",
  "The debug rendering of a parameter builder, hasher or batched job, taken at any moment of any history, and the message of any panic contain nothing derived from key bytes, input bytes or the internal chaining values: two histories that differ only in the bytes of keys and inputs are rendered identically. Only lengths, counts and public parameters are shown.",
  ["histories", "inputs"],
  "all pairs of histories that differ only in the bytes of keys and inputs, at every moment",
  "No test renders these objects.",
  B + M,
  [("hand-written Debug impls", "Params, State, HashManyJob, blake2bp/blake2sp Params and State"), ("panic messages name lengths only", "Params setters")],
  (), ["fmt::Debug", "panic messages"])

p("C23", "Every call ends after work proportional to what it is given",
  "Every call on parameters, hashers, batches, jobs and digests ends, after a number of steps that is bounded by a constant plus an amount proportional to the bytes and the objects handed to it in that call. The bound does not depend on how much has been hashed before, how the stream was cut up, the value of the byte counter, the detected CPU features, what else is in the batch or how the caller's iterator behaves, including one that announces a wrong length, resumes after its end, panics or calls the library again.",
  ["histories", "inputs", "schedules"],
  "all histories of calls, counter values, batch sizes and iterator behaviours",
  "Tests hash short streams and small batches, where work that grows with the history or with the square of the batch goes unnoticed, and an endless loop in other cases too.",
  B + M + G + K,
  [("each block is compressed once, buffers are filled once", "State::update, blake2bp/blake2sp State::update"), ("batch loops advance the iterator in every turn and evict what is finished", "many.rs compress_many")],
  (), ["number of steps taken by each call"])

p("C24", "The command line tool always comes to an end",
  "Whatever its arguments name, the tool ends once its inputs have: after a number of steps that is bounded by a constant plus an amount proportional to its arguments and to the bytes and operations by which these inputs reach it. Short and interrupted operations delay it no more often than they happen. An operation that keeps failing, with whatever error, is not repeated for ever, be it opening, reading, describing, mapping or writing, and failures do not make the tool sleep for a minute or more in all. When inputs are named it does not wait for standard input. Nor does it wait for anything that cannot happen, such as a lock that it holds itself, unless it is out of memory. Lengths and types claimed by metadata, and files that grow or shrink while they are read, do not keep it from ending.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "all arguments, inputs, delivery schedules and sequences of failures, persistent ones included",
  "Tests run the tool on short files that deliver everything at once and never fail; a loop that does not end, or grows with the square of the input, goes unnoticed.",
  CLI,
  [("only an interrupted read is repeated; the end is what read reports", "blake2_bin/src/main.rs read_write_all"), ("standard input is read only if no inputs are named", "blake2_bin/src/main.rs main")],
  (), ["end of the process", "number of steps", "waiting"])

p("C25", "The command line tool reveals keys and contents through nothing but digests",
  "Two runs of the tool that differ only in the bytes of the key, or of what its inputs deliver, look the same from outside but for the digests themselves: they perform the same system calls in the same order with the same sizes, print the same messages on standard error, lines of the same length on standard output, and exit with the same status. This holds whatever fails and whenever the tool is killed, and also for a key that is refused because it is too long, has an odd number of digits, or contains a character that is no digit, of which the position and the character itself may be shown. In particular no message contains a part of the key, of an input, or a digest of what was read before a failure.",
  ["inputs", "fault_sequences", "configurations"],
  "all pairs of runs that differ only in the bytes of key and inputs, under the same sequence of failures",
  "Tests run the tool on a few inputs, once each, and look at standard output only.",
  CLI,
  [("errors are reported by kind and name only", "blake2_bin/src/main.rs main"), ("inputs are read to their end whatever they contain", "blake2_bin/src/main.rs read_write_all")],
  (), ["system calls", "standard error", "exit status", "length of standard output"])

p("N01", "One-call hashing computes the BLAKE2 function",
  "Hashing a byte string in one call with any legal parameters returns the digest the BLAKE2 specification defines.",
  ["inputs"], "all byte strings and parameter values",
  "Known-answer vectors cover default and keyed hashing of inputs up to 255 bytes.",
  B + K, [("one-shot path", "Params::hash")], (), ["Params::hash", "blake2b", "blake2s", "blake2bp", "blake2sp"])
p("N03", "Digest values convert and compare faithfully",
  "A digest's bytes, hexadecimal form, array form and equality all agree and respect the digest length.",
  ["inputs"], "all digest values and lengths", "Tests use a few digests.",
  ["blake2b/src/lib.rs", "blake2s/src/lib.rs"], [("Hash", "Hash impls")], (), ["Hash"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
