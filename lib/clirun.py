"""Runs the unmodified command line tool inside the simulated operating system
(simos) following one scenario, and judges what it did."""
import ctypes, hashlib, json, os, random, re, signal, struct

from common import HarnessError, ROOT, env

PERIOD = 1 << 20
TEXTURES = 8
EV = dict(OPEN=1, OPEN_FAIL=2, READ=3, READ_FAIL=4, STAT=5, STAT_FAIL=6, MMAP=7, MMAP_FAIL=8, WRITE=9,
          WRITE_FAIL=10, KILL=11, MALLOC_FAIL=12, LIVELOCK=13, MUTATE=14, CLOSE=15, UNKNOWN=16, READ_EINTR=17,
          WRITE_EINTR=18, READ_SHORT=19, WRITE_SHORT=20, STAT_LIE=21, NOENT=22, CPU=23,
          MODIFY=24, HEAP_FULL=25, HEAP_PEAK=26, OPEN_EINTR=27,
          STEPS=28, STEPS_OVER=29, WAIT=30)
EVN = {v: k for k, v in EV.items()}
REC = struct.Struct("<IIQQQII")
PLAN = {"file", "openerr", "openintr", "readerr", "staterr", "statsize", "meta", "maperr", "read", "mut", "out", "limit", "kill",
        "malloc", "heap", "fds", "maps", "events", "cpu", "ro", "pipe", "silent", "clock", "chunk"}
CHANGES = ["", "open for writing", "create", "truncate", "write", "remove", "rename", "make", "change attributes of",
           "map for writing", "start or signal another process with", "talk to somebody else about"]
# Bytes that one input may leave behind: nothing accumulates.
LEFT = 32
# Steps the tool may take (edges of its control flow graph): at the start, for
# each argument, for each time it opens something, for each read or write and
# for each byte.
STEPS_BASE, STEPS_ARG, STEPS_OPEN, STEPS_READ, STEPS_BYTE = 2_000_000, 20_000, 50_000, 300, 8
# Simulated nanoseconds it may sleep in all.
PATIENCE = 60 * 10 ** 9
FOR_EVER = 2 ** 64 - 1
# Environments that must not matter.
ENVS = [{}, {"RUST_BACKTRACE": "1"}, {"RUST_BACKTRACE": "full", "RUST_LIB_BACKTRACE": "1"},
        {"LANG": "tr_TR.UTF-8", "LC_ALL": "C"}, {"COLUMNS": "1", "TERM": "dumb", "NO_COLOR": "1", "CLICOLOR_FORCE": "1"},
        {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "PWD": "/nonexistent", "USER": ""},
        {"BLAKE2_LENGTH": "1", "LENGTH": "1", "KEY": "00", "MMAP": "1", "BLAKE2_MMAP": "1", "DEBUG": "1", "VERBOSE": "1"}]


def pattern_bytes():
    """Several textures of one period each: random bytes, and what files also
    consist of."""
    base = hashlib.shake_256(b"blake2 simulated content").digest(PERIOD)
    r = random.Random("textures")
    letters = bytes(32 + b % 94 for b in base)
    lines = b"".join(letters[k:k + r.randrange(90)] + r.choice([b"\n", b"\n", b"\r\n", b"\n\n"])
                     for k in range(0, PERIOD, 30))[:PERIOD]
    sparse = bytes(b if k % 4096 == 4000 else 0 for k, b in enumerate(base))
    odd = (b"\xef\xbb\xbf\x1a\x00\r\x04\xff\xfe" * (PERIOD // 9 + 1))[:PERIOD]
    return b"".join([base, bytes(PERIOD), b"\n" * PERIOD, letters, lines, b"\xff" * PERIOD, sparse, odd])


class CParams(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in
                ("small", "parallel", "outlen", "keylen", "fanout", "depth", "node_depth", "inner", "last")] + [
        ("leaf", ctypes.c_uint32), ("offset", ctypes.c_uint64), ("key", ctypes.c_uint8 * 64),
        ("salt", ctypes.c_uint8 * 16), ("personal", ctypes.c_uint8 * 16)]


class Model:
    def __init__(self, so):
        self.so = so
        self.lib = ctypes.CDLL(so)
        self.pattern = pattern_bytes()
        with open(os.path.join(ROOT, "lib", "giants.json")) as f:
            self.golden = json.load(f)["digests"]

    def digest(self, p, segs):
        """p: dict of parameters; segs: [(pos, length, rotation)] -> hex"""
        if sum(s[1] for s in segs) > 1 << 31:
            # Too long for the model: golden values (tools/mkgiant.py).
            return self.golden.get(repr((sorted(p.items()), [tuple(s) for s in segs])), "unknown")
        c = CParams(small=p["small"], parallel=p["parallel"], outlen=p["length"], keylen=len(p["key"]),
                    fanout=p["fanout"], depth=p["depth"], node_depth=p["node_depth"], inner=p["inner"],
                    last=p["last"], leaf=p["leaf"], offset=p["offset"])
        ctypes.memmove(c.key, p["key"], len(p["key"]))
        ctypes.memmove(c.salt, p["salt"], len(p["salt"]))
        ctypes.memmove(c.personal, p["personal"], len(p["personal"]))
        flat = [x for s in segs for x in s]
        a = (ctypes.c_uint64 * max(1, len(flat)))(*flat)
        out = (ctypes.c_uint8 * 64)()
        self.lib.model_digest(ctypes.byref(c), self.pattern, a, len(segs), out)
        return bytes(out)[:p["length"]].hex()

    def content(self, segs):
        out = b""
        for pos, n, rot in segs:
            o = (pos + rot) % PERIOD
            own = self.pattern[rot // PERIOD * PERIOD:][:PERIOD]
            out += (own[o:] + own * (n // PERIOD + 1))[:n]
        return out

    def selfcheck(self):
        """Against the authors' C code (hashlib) and the published vectors."""
        r = random.Random(7)
        n = 0
        for _ in range(300):
            small = r.randrange(2)
            mx, blk = (32, 64) if small else (64, 128)
            p = default_params()
            p.update(small=small, length=r.randrange(1, mx + 1), key=r.randbytes(r.randrange(mx + 1)),
                     salt=r.randbytes(r.randrange(blk // 8 + 1)), personal=r.randbytes(r.randrange(blk // 8 + 1)),
                     fanout=r.randrange(256), depth=r.randrange(1, 256), leaf=r.randrange(1 << 32),
                     offset=r.randrange(1 << (48 if small else 64)), node_depth=r.randrange(256),
                     inner=r.randrange(mx + 1), last=r.randrange(2))
            segs = [(r.randrange(1 << 33), r.choice([r.randrange(400), r.randrange(9) * blk]), r.randrange(TEXTURES * PERIOD))
                    for _ in range(r.randrange(4))]
            h = (hashlib.blake2s if small else hashlib.blake2b)(
                self.content(segs), digest_size=p["length"], key=p["key"], salt=p["salt"], person=p["personal"],
                fanout=p["fanout"], depth=p["depth"], leaf_size=p["leaf"], node_offset=p["offset"],
                node_depth=p["node_depth"], inner_size=p["inner"], last_node=bool(p["last"])).hexdigest()
            if self.digest(p, segs) != h:
                raise HarnessError("the C model disagrees with hashlib")
            n += 1
        # The published vectors use a ramp as content.
        real, self.pattern = self.pattern, (bytes(range(255)) * (PERIOD // 255 + 1))[:PERIOD]
        for line in open(os.path.join(ROOT, "sim", "kat.txt")):
            f = line.split()
            if f and f[0] in ("bp", "sp"):
                p = default_params()
                p.update(small=int(f[0] == "sp"), parallel=1, length=int(f[2]),
                         key=bytes.fromhex(f[3]) if f[3] != "-" else b"")
                if self.digest(p, [(0, int(f[1]), 0)]) != f[-1]:
                    raise HarnessError("the C model disagrees with the published vectors")
                n += 1
        self.pattern = real
        return n


def default_params():
    return dict(small=0, parallel=0, length=64, key=b"", salt=b"", personal=b"", fanout=1, depth=1, leaf=0, offset=0,
                node_depth=0, inner=0, last=0)


def bytes_of(n, seed):
    v = hashlib.shake_256(b"value %d" % seed).digest(min(n, 1000))
    n = len(v)
    # Few are random bytes in practice.
    return [v, bytes(n), b"\xff" * n, bytes(n // 2) + v[n // 2:], v[:n // 2] + bytes(n - n // 2), bytes(48 + b % 10 for b in v),
            bytes(k % 256 for k in range(n)), b"\n" * n][(seed >> 40) % 8]


def spelled(k, seed):
    """Hexadecimal in either case, or both."""
    h = k.hex()
    return [h, h.upper(), h, "".join(c.upper() if n % 3 else c for n, c in enumerate(h))][seed % 4]


# The last is not valid UTF-8.
NAMES = ["f", "a file", "\u00fc\u4e2d", "with'quote", "  ", "deep/er/./x", "new\nline", "n" * 230, "%s{}\\t", "x\udcff.bin"]
DASH = 10
# Names that might be taken for something else; they need no directory. Only
# file 1 can have one.
EXACT = ["-", "--", "-s", "--mmap", "*", "~", "a\\b", "stdin", "1", "f.gz", "--length=8", "http://f/", "-1", "file://f", "@f",
         "%f", "$HOME", "f:1", "C:f", " ", "-\u00fc", "f "]


NOT_HEX = ["abc", "zz", "0g", "--", "0x00", "a b0", "0", "00 ", " 00", "00\n", "0\uff10", "00h", "00:11"]
NOT_NUMBER = ["", "-1", "0x10", "1.0", "1e1", " 5", "5 ", "\u0663", "++5", "1_0", "9" * 25, "five", "5k"]
NUMBERS = ["--length", "--fanout", "--max-depth", "--max-leaf-length", "--node-offset", "--node-depth",
           "--inner-hash-length"]
UNKNOWN = ["--lenght=5", "--len=5", "-x", "-l", "-B", "--no-mmap", "--key-file=x", "--Length=5", "--last_node", "---s"]


def path_of(i, kind):
    if kind > DASH and i == 1:
        return EXACT[(kind - DASH - 1) % len(EXACT)]
    if kind % (DASH + 1) == DASH:
        return "-@sim@%d@s" % i
    return "vfs/@sim@%d@%s" % (i, NAMES[kind % (DASH + 1)])


def raw(path):
    return os.fsencode(path)


def shown(path):
    """A path as text."""
    return raw(path).decode("utf-8", "replace")


class Scenario:
    """Parsed scenario: argument vector, expected parameters, plan."""

    def __init__(self, text):
        self.plan, self.args, self.opts = [], [], {}
        self.files = {}
        self.ops = {}
        self.style = self.env = 0
        self.prop = ""
        silent = False
        for line in text.splitlines():
            f = line.split()
            if f[:1] == ["property"]:
                self.prop = f[1]
            if not f or line.startswith("#") or f[0] in ("b2sim", "property", "seed", "set"):
                continue
            v = [int(x) for x in f[1:]]
            if f[0] == "opt":
                self.opts[v[0]] = v[1:] + [0] * (3 - len(v))
            elif f[0] == "arg":
                self.args.append((max(1, v[0]), v[1]))
            elif f[0] == "args":
                # Many: COUNT files FROM, FROM + 1 ..., again and again.
                for k in range(min(v[1], 3000)):
                    self.args.append((1 + (v[0] + k) % 100, 0))
            elif f[0] == "style":
                self.style = v[0]
            elif f[0] == "env":
                self.env = v[0] % len(ENVS)
                if self.prop in ("C18", "C24") and self.env in (1, 2):
                    # Backtraces of errors need memory and time of their own.
                    self.env = 0
            elif f[0] == "twin":
                pass
            elif f[0] == "silent":
                silent = True
            elif f[0] in PLAN:
                if f[0] == "heap":
                    # What is promised; a smaller scenario is not a smaller promise.
                    v[0] = max(v[0], 12 << 20)
                self.plan.append(" ".join([f[0]] + [str(x) for x in v]))
                self.ops.setdefault(f[0], []).append(v)
            else:
                raise HarnessError("unknown operation " + line)
        for i, size, rot in self.ops.get("file", []):
            self.files[i] = (size, rot)
        if silent and self.args and 0 not in self.files:
            self.plan.append("silent 1")
        elif 0 not in self.files:
            self.files[0] = (0, 0)
            self.plan.append("file 0 0 0")
        self.start = 0
        for v in self.ops.get("meta", []):
            if v[:2] == [0, 8]:
                self.start = v[2]
        self.build()

    def has(self, name, i):
        """Last plan entry of this kind for file i."""
        r = None
        for v in self.ops.get(name, []):
            if v[0] == i:
                r = v
        return r

    def build(self):
        o, argv = self.opts, ["blake2"]
        p = default_params()
        self.rejected = False
        self.unsure = False
        if 13 in o:
            argv.append("-s")
            p["small"] = 1
        if 12 in o:
            argv.append("-b")
            if 13 in o:
                self.rejected = True
        if 14 in o:
            argv.append("-p")
            p["parallel"] = 1
        mx, sx = (32, 8) if p["small"] else (64, 16)
        p["length"] = mx
        bad = lambda cond: setattr(self, "rejected", self.rejected or bool(cond))
        if 0 in o:
            n = o[0][0]
            argv += ["--length", str(n)]
            bad(n < 1 or n > mx)
            p["length"] = n if 1 <= n <= mx else mx
        if 1 in o:
            k = bytes_of(o[1][0], o[1][1])
            argv += ["--key", spelled(k, o[1][1])]
            bad(len(k) > mx)
            p["key"] = k[:mx]
        if 16 in o:
            # A key, salt or personalization that is not hexadecimal.
            which, text = o[16][0] // len(NOT_HEX) % 3, NOT_HEX[o[16][0] % len(NOT_HEX)]
            if which + 1 not in o:
                name = ["--key", "--salt", "--personal"][which]
                argv += [name, text] if which == 0 and text == "--" else [name + "=" + text]
                bad(True)
        if 18 in o and 1 not in o and 16 not in o:
            # A key with one character too few or one that is no digit.
            n, seed, defect = o[18][:3]
            h = spelled(bytes_of(max(1, n), seed), seed)
            at = defect // 2 % len(h)
            argv += ["--key", h[:-1] if defect % 2 else h[:at] + "g" + h[at + 1:]]
            bad(True)
        if 17 in o:
            # A number that is none, an option given twice, an unknown one.
            k = o[17][0]
            name = NUMBERS[k // 3 % len(NUMBERS)]
            argv += [[name + "=" + NOT_NUMBER[k // 30 % len(NOT_NUMBER)]], [name + "=5", name + "=5"],
                     [UNKNOWN[k // 3 % len(UNKNOWN)]]][k % 3]
            bad(True)
        for kind, name, field in ((2, "--salt", "salt"), (3, "--personal", "personal")):
            if kind in o:
                k = bytes_of(o[kind][0], o[kind][1])
                argv += [name, spelled(k, o[kind][1])]
                bad(len(k) > sx or p["parallel"])
                p[field] = k[:sx]
        for kind, name, field, limit in ((4, "--fanout", "fanout", 256), (5, "--max-depth", "depth", 256),
                                         (6, "--max-leaf-length", "leaf", 1 << 32),
                                         (7, "--node-offset", "offset", 1 << 48 if p["small"] else 1 << 64),
                                         (8, "--node-depth", "node_depth", 256),
                                         (9, "--inner-hash-length", "inner", mx + 1)):
            if kind in o:
                n = o[kind][0]
                argv += [name, str(n)]
                bad(n >= limit or p["parallel"])
                if kind == 5 and n == 0:
                    self.unsure = True  # neither allowed nor forbidden by the specification's text
                p[field] = n if n < limit else 0
        if 10 in o:
            argv.append("--last-node")
            bad(p["parallel"])
            p["last"] = 1
        self.mmap = 11 in o
        if self.mmap:
            argv.append("--mmap")
        self.paths = [path_of(i, k) for i, k in self.args]
        for i, k in self.args:
            if i == 1 and k > DASH:
                # One name, however often it is given.
                name = path_of(i, k)
                self.paths = [name if j == 1 and l > DASH else p for p, (j, l) in zip(self.paths, self.args)]
                self.plan.append("alias 1 " + raw(name).hex())
                break
        self.argv = self.arguments(argv)
        if self.mmap and not self.args:
            self.rejected = True
        self.params = p

    def arguments(self, argv):
        """The options in one of several equivalent spellings and orders."""
        style, opts, k = self.style, [], 1
        while k < len(argv):
            o = argv[k]
            if k + 1 < len(argv) and o.startswith("--") and not argv[k + 1].startswith("-"):
                opts.append([o + "=" + argv[k + 1]] if style & 1 else [o, argv[k + 1]])
                k += 2
            elif o.startswith("--") and k + 1 < len(argv) and argv[k + 1] == "--" and o == "--key":
                opts.append([o, argv[k + 1]])
                k += 2
            else:
                opts.append([o])
                k += 1
        if style & 2:
            short = [o[0][1:] for o in opts if len(o) == 1 and len(o[0]) == 2 and o[0] != "--"]
            if len(short) > 1:
                opts = [o for o in opts if not (len(o) == 1 and len(o[0]) == 2 and o[0] != "--")]
                opts.append(["-" + "".join(short)])
        r = random.Random(style >> 3)
        dashes = any(p.startswith("-") for p in self.paths) or ["--key", "--"] in opts
        if style >> 3 and ["--key", "--"] not in opts:
            r.shuffle(opts)
        paths = [[p] for p in self.paths]
        if dashes:
            return argv[:1] + sum(opts, []) + ["--"] + self.paths
        if style & 4 and style >> 3:
            # Options before, between and after the paths.
            for o in opts:
                paths.insert(r.randrange(len(paths) + 1), o)
            return argv[:1] + sum(paths, [])
        return argv[:1] + sum(opts, []) + self.paths

    def events_bound(self):
        """More than a tool that makes progress needs, little enough to hold."""
        sizes = [s for s, _ in self.files.values()]
        sizes += [v[3] for v in self.ops.get("mut", []) if len(v) > 3 and v[2] == 1]
        times = min(max(1, len(self.args)), 8)
        small = min(2_000_000, sum(min(s, 1 << 21) for s in sizes) * 2 * times)
        big = sum(min(s, 1 << 26) // 512 + min(s, 1 << 33) // 4096 for s in sizes) * times
        return 20000 + small + min(big, 4_000_000) + 4 * len(self.plan) + 60 * len(self.args)


    def steps_base(self):
        """Steps of the tool that do not depend on what it reads."""
        return STEPS_BASE + sum(STEPS_ARG + STEPS_BYTE * len(os.fsencode(a)) for a in self.argv)


class Outcome:
    pass


class Runner:
    """One worker's connection to the simulated world."""

    def __init__(self, tool, simos, model):
        self.tool, self.simos, self.model = tool, simos, model
        self.pattern = os.memfd_create("pattern", 0)
        os.write(self.pattern, model.pattern)
        self.plan = os.memfd_create("plan", 0)
        self.log = os.memfd_create("log", 0)
        for fd in (self.pattern, self.plan, self.log):
            os.set_inheritable(fd, True)
        self.env = {"LD_PRELOAD": simos, "SIMOS_PLAN": str(self.plan), "SIMOS_LOG": str(self.log),
                    "PATH": "/usr/bin:/bin"}
        self.null = os.open("/dev/null", os.O_RDWR)
        self.actions = [(os.POSIX_SPAWN_DUP2, self.null, k) for k in (0, 1, 2)]

    def close(self):
        for fd in (self.pattern, self.plan, self.log, self.null):
            os.close(fd)

    def execute(self, sc, timeout=60):
        text = "pattern %d\nevents %d\n%s\n" % (self.pattern, sc.events_bound(), "\n".join(sc.plan))
        if sc.prop == "C24":
            text += "steps %d %d %d %d\n" % (sc.steps_base(), STEPS_OPEN, STEPS_READ, STEPS_BYTE)
        os.ftruncate(self.plan, 0)
        os.pwrite(self.plan, text.encode(), 0)
        os.ftruncate(self.log, 0)
        os.lseek(self.log, 0, os.SEEK_SET)
        pid = os.posix_spawn(self.tool, sc.argv, {**self.env, **ENVS[sc.env]}, file_actions=self.actions)
        hung = []

        def late(*_):
            hung.append(1)
            os.kill(pid, signal.SIGKILL)

        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        _, status = os.waitpid(pid, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        o = Outcome()
        o.hung = bool(hung)
        o.code = os.waitstatus_to_exitcode(status)
        n = os.lseek(self.log, 0, os.SEEK_END)
        data = os.pread(self.log, n, 0)
        o.events, at = [], 0
        o.streams = {1: b"", 2: b""}
        while at < len(data):
            t, f, a, b, c, inst, pay = REC.unpack_from(data, at)
            at += REC.size
            name = EVN[t]
            if pay:
                o.streams[f] += data[at:at + pay]
                at += pay
            o.events.append((name, f, a, b, c, inst))
        if any(e[0] == "UNKNOWN" for e in o.events):
            raise HarnessError("the simulated system failed: %r" % (o.events[-5:],))
        return o


def passes(o, i, start=0):
    """Contents of all complete sequential passes over file i."""
    open_, out = {}, []
    for name, f, a, b, c, inst in o.events:
        if name == "READ" and f == i:
            segs = open_.setdefault(inst, [])
            if segs is None:
                continue
            if a != start + sum(s[1] for s in segs):
                open_[inst] = None  # not sequential
            elif b == 0:
                out.append(list(segs))
            else:
                segs.append((a, b, c))
    return out


def expectation(sc, o, i, nth, model):
    """Of input i, named for the time `nth` (from 0):
    -> (set of acceptable digests, must_ok, must_fail)"""
    size, rot = sc.files.get(i, (None, 0))
    if size is None:
        return set(), False, True
    oerr = sc.has("openerr", i)
    if i and oerr and oerr[1]:
        if nth >= (oerr[2] if len(oerr) > 2 else 0):
            return set(), False, True
    rerr = sc.has("readerr", i)
    muts = any(e[0] == "MUTATE" and e[1] == i for e in o.events)
    good = set()
    start = sc.start if i == 0 else 0
    pipe = i and sc.has("pipe", i)
    if muts:
        # Each time it is named it is read anew.
        for segs in passes(o, i, start)[0 if pipe else nth:]:
            good.add(model.digest(sc.params, segs))
    elif size < 1 << 36:
        good.add(model.digest(sc.params, [(start, max(0, size - start), rot)]))
    if pipe and sum(1 for k, _ in sc.args if k == i) > 1:
        # The second reader gets what the first has left.
        good.add(model.digest(sc.params, []))
    lie = sc.has("statsize", i)
    serr, merr = sc.has("staterr", i), sc.has("maperr", i)
    must_ok = True
    if (serr and serr[1]) or lie:
        must_ok = not sc.mmap
    if sc.mmap and (pipe or size == 0 or size >= 1 << 62 or (merr and merr[1])):
        must_ok = False
    if oerr and oerr[1] and sum(1 for e in o.events if e[0] in ("OPEN", "OPEN_FAIL") and e[1] == i) > sum(
            1 for k, _ in sc.args if k == i):
        must_ok = False  # opened more than once each time
    if rerr and rerr[2]:
        if max(start, rerr[1]) < size:
            # With mapping no read may be needed.
            return (good, False, False) if sc.mmap else (set(), False, True)
        must_ok = False
        if any(e[0] == "READ_FAIL" and e[1] == i for e in o.events) and not passes(o, i, start) and not sc.mmap:
            return set(), False, True
    return good, must_ok, False


def judge(sc, o, model):
    """-> None or (class, message)"""
    changed = [e for e in o.events if e[0] == "MODIFY"]
    if sc.prop == "C17" and changed:
        _, f, what = changed[0][:3]
        return "modified", "the tool tried to %s %s" % (CHANGES[what], "input %d" % f if f in sc.files else "another file")
    if sc.prop == "C18":
        full = [e for e in o.events if e[0] == "HEAP_FULL"]
        if full:
            return "heap", "the tool had %d bytes of memory in use and asked for %d more" % full[0][2:4]
        live = [e[4] for e in o.events if e[0] in ("OPEN", "OPEN_FAIL", "NOENT")]
        if len(live) >= 200:
            # What is left of each input, once the first have been.
            each = (live[-1] - live[50]) / (len(live) - 51)
            if each > LEFT:
                return "heap", "%d bytes are left in use after each of %d inputs" % (each, len(live))
    waits = [e for e in o.events if e[0] == "WAIT"]
    for e in waits:
        # Aborting for want of memory while a backtrace is printed, the
        # standard library waits for itself.
        if e[2] == FOR_EVER and not (e[1] == 2 and any(x[0] == "MALLOC_FAIL" for x in o.events)):
            return "stuck", "the tool waits for %s, which will never come" % (
                "?", "standard input, although inputs are named", "a lock that is held by itself", "a signal")[e[1]]
    if sc.prop == "C24" and sum(e[2] for e in waits) > PATIENCE:
        return "waits", "the tool sleeps for %d seconds" % (sum(e[2] for e in waits) // 10 ** 9)
    over = [e for e in o.events if e[0] == "STEPS_OVER"]
    if over:
        return "work", "the tool has taken more than %d steps" % over[0][2]
    if o.hung:
        return "hang", "the tool did not end"
    if any(e[0] == "LIVELOCK" for e in o.events):
        return "livelock", "still running after %d events" % sc.events_bound()
    if sc.prop == "C24":
        return None  # It has ended.
    killed = any(e[0] == "KILL" for e in o.events)
    nomem = any(e[0] == "MALLOC_FAIL" for e in o.events)
    hard = {f: any(e[0] == "WRITE_FAIL" and e[1] == f for e in o.events) for f in (1, 2)}
    out = o.streams[1]
    err = o.streams[2].decode("utf-8", "replace")
    if sc.unsure:
        return None
    if sc.rejected:
        if out:
            return "rejected", "output for parameters that are not accepted: %r" % out[:200]
        if o.code == 0:
            return "rejected", "exit status 0 for parameters that are not accepted"
        return None
    if o.code in (-signal.SIGSEGV, -signal.SIGBUS):
        return "memory", "killed by signal %d" % -o.code
    targets = sc.args if sc.args else [(0, 0)]
    cache, named = {}, {}
    # Those of which it matters how often they have been named before.
    again = {v[0] for v in sc.ops.get("openerr", []) if len(v) > 2} | {e[1] for e in o.events if e[0] == "MUTATE"}
    exp = []
    for k, (i, _) in enumerate(targets):
        nth = named.get(i, 0)
        named[i] = nth + 1
        key = (i, min(nth, 3) if i in again else 0)
        if key not in cache:
            cache[key] = expectation(sc, o, i, key[1], model)
        good, must_ok, must_fail = cache[key]
        if len(sc.args) > 1:
            names = {raw(sc.paths[k]), shown(sc.paths[k]).encode()}
            lines = sorted(d.encode() + b"  " + n + b"\n" for d in good for n in names)
        else:
            lines = sorted((d + "\n").encode() for d in good)
        exp.append((lines, must_ok, must_fail))
    cut = killed or nomem or hard[1] or hard[2]
    # States: (offset into the output, printed so far as a bit string)
    states = [(0, ())]
    whole = False
    final = []
    partial = []
    for k, (lines, must_ok, must_fail) in enumerate(exp):
        nxt = []
        for off, done in states:
            for l in lines:
                if out.startswith(l, off):
                    nxt.append((off + len(l), done + (1,)))
                elif l.startswith(out[off:]):
                    partial.append(done)
            if must_fail or not must_ok:
                nxt.append((off, done + (0,)))
        states = nxt[:4096]
    final = [d for off, d in states if off == len(out)]
    if cut:
        if not final and not partial:
            return "prefix", "standard output accepted %r, which is no prefix of the correct lines %r" % (
                out[-300:], [e[0] for e in exp][:6])
        if o.code == 0 and not (final and all(all(d) for d in final)):
            return "status", "exit status 0, but standard output accepted only %r" % out[-300:]
        if o.code == 0 and not final:
            return "status", "exit status 0 with partial output"
        if killed or nomem:
            return None
        return None
    if not final:
        return "output", "standard output is %r; expected %r (status %d, standard error %r)" % (
            out[:400], [(e[0], "required" if e[1] else "absent" if e[2] else "optional") for e in exp][:8], o.code,
            err[:300])
    best = None
    for d in final:
        missing = [k for k in range(len(exp)) if not d[k]]
        if missing and o.code == 0:
            best = best or ("status", "exit status 0, but no digest for argument %d" % missing[0])
            continue
        if not missing and o.code != 0:
            best = best or ("status", "exit status %d, but every digest was printed; standard error %r" % (o.code, err[:300]))
            continue
        unnamed = [k for k in missing if (shown(sc.paths[k]) if sc.args else "") not in err or not err]
        if unnamed:
            best = best or ("unnamed", "no message names the failed argument %d; standard error %r" % (unnamed[0], err[:300]))
            continue
        return None
    return best


def twin(text):
    """The same scenario with other secrets: key, contents, or both."""
    lines = text.splitlines()
    k = sum(int(l.split()[1]) for l in lines if l.startswith("twin "))
    out = []
    for n, l in enumerate(lines):
        f = l.split()
        if f[:1] == ["opt"] and f[1] in ("1", "18") and len(f) > 3 and k % 4 != 1:
            # Spelled with as many capitals.
            f[3] = str(int(f[3]) + 4 * (1 + k % 1000) + ((k >> 10) % 16 << 40))
        content = f[:1] == ["file"] and len(f) > 3 or f[:1] == ["mut"] and len(f) > 4 and f[3] == "0"
        if content and k % 4 != 0:
            f[-1] = str(int.from_bytes(hashlib.shake_256(b"twin %d %d" % (k, n)).digest(4), "little") % (TEXTURES * PERIOD))
        out.append(" ".join(f))
    return "\n".join(out) + "\n"


def reveals(o, p):
    """What differs between the runs `o` and `p`, which differ in secrets?
    -> None or (class, message)"""
    def seen(e):
        # Not which content was delivered.
        return e[:2] if e[0] == "MUTATE" else e[:4] + e[5:] if e[0] in ("READ", "MMAP") else e

    for n, (a, b) in enumerate(zip(o.events, p.events)):
        if seen(a) != seen(b):
            return "reveals", "event %d is %r, but with other secrets %r" % (n, a, b)
    if len(o.events) != len(p.events):
        return "reveals", "%d events, but with other secrets %d" % (len(o.events), len(p.events))
    if o.code != p.code:
        return "reveals", "exit status %d, but with other secrets %d" % (o.code, p.code)
    # Backtraces contain addresses, and those are the kernel's choice.
    a, b = (re.sub(rb"0x[0-9a-f]+", b"0x", x.streams[2]) for x in (o, p))
    if a != b:
        return "reveals", "standard error is %r, but with other secrets %r" % (a[-400:], b[-400:])
    a, b = o.streams[1], p.streams[1]
    digits = b"0123456789abcdef"
    if len(a) != len(b) or any(x != y and not (x in digits and y in digits) for x, y in zip(a, b)):
        return "reveals", "standard output is %r, but with other secrets %r" % (a[-400:], b[-400:])
    return None


def execute_text(runner, text):
    sc = Scenario(text)
    o = runner.execute(sc)
    if sc.prop == "C25":
        return sc, o, reveals(o, runner.execute(Scenario(twin(text))))
    return sc, o, judge(sc, o, runner.model)


def lg(n):
    return n.bit_length()


def transitions(sc, o):
    """Abstract steps of a run: event kind, file class and size class."""
    out = []
    for name, f, a, b, c, inst in o.events:
        cls = 0 if f == 0 else 1
        if name == "READ":
            out.append((name, cls, lg(a) // 2, lg(b), b % 128 == 0, a % 128 == 0))
        elif name in ("WRITE", "WRITE_FAIL", "WRITE_EINTR", "WRITE_SHORT"):
            out.append((name, f, lg(a)))
        elif name in ("OPEN_FAIL", "STAT_FAIL", "MMAP_FAIL"):
            out.append((name, cls, a))
        elif name in ("READ_FAIL",):
            out.append((name, cls, lg(a), b))
        elif name == "MMAP":
            out.append((name, cls, lg(a), a % 4096 == 0))
        else:
            out.append((name, cls, lg(a)))
    return out
