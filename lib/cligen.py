"""Generates scenarios for the command line tool from a seed."""
import errno, random

PAGE = 4096
# Error numbers: the likely ones several times, then every other. EINTR is no
# failure, and the standard library takes EBADF on a standard stream for its end.
ANY = [e for e in sorted(errno.errorcode) if e not in (errno.EINTR, errno.EBADF)]
READ_ERRNOS = [errno.EIO, errno.EISDIR, errno.EAGAIN, errno.EINVAL, errno.ENXIO, errno.ESTALE, errno.EFAULT,
               errno.ETIMEDOUT, errno.ENOBUFS, errno.EPERM, errno.ECONNRESET, errno.ENOMEM, errno.EPIPE] * 15 + ANY
OPEN_ERRNOS = [errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO, errno.ELOOP, errno.ENXIO, errno.EPERM,
               errno.ENOMEM, errno.ENOTDIR, errno.ETXTBSY, errno.EINVAL, errno.EEXIST, errno.EAGAIN] * 15 + ANY
OUT_ERRNOS = [errno.EPIPE, errno.ENOSPC, errno.EIO, errno.EAGAIN, errno.EFBIG, errno.EDQUOT, errno.ECONNRESET] * 25 + ANY
MAP_ERRNOS = [errno.ENODEV, errno.ENOMEM, errno.EACCES, errno.EAGAIN, errno.EINVAL, errno.EPERM] * 25 + ANY


def size(r, tier):
    k = r.randrange(12)
    if k == 0:
        return 0
    if k <= 2:
        return r.randrange(1, 300)
    if k <= 4:
        return max(0, r.choice([64, 128, 256, 512, 1024]) * r.randrange(1, 9) + r.choice([-1, 0, 1]))
    if k <= 6:
        return max(0, r.choice([1, 2, 3, 4, 8]) * 32768 + r.choice([-129, -1, 0, 1, 64, 128, 4095]))
    if k <= 8:
        return max(0, r.choice([1, 1, 2, 3, 4, 7, 16]) * PAGE + r.choice([-1, 0, 0, 1, 100, -100]))
    if k <= 10:
        return r.randrange(200_000)
    return r.randrange(1_500_000) if r.random() < 0.3 else r.randrange(70_000)


def rotation(r):
    """Which content a file has: mostly random bytes, else another texture."""
    return r.randrange(1 << 20) | (r.randrange(8) << 20 if r.random() < 0.3 else 0)


def params(r, ops, reject):
    """Legal parameters, or one illegal setting among them."""
    small, par = r.random() < 0.5, r.random() < 0.4
    if small:
        ops.append("opt 13")
    elif r.random() < 0.3:
        ops.append("opt 12")
    if par:
        ops.append("opt 14")
    mx, sx = (32, 8) if small else (64, 16)
    p = r.choice([0.15] * 7 + [0.6, 0.6, 0.95])
    have = set()

    def put(kind, *v):
        if kind not in have:
            have.add(kind)
            ops.append("opt %d %s" % (kind, " ".join(map(str, v))))

    if reject:
        k = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 8])
        if k == 0:
            put(0, r.choice([0, mx + 1, mx * 4, 1 << 40]))
        elif k == 1:
            put(1, r.randrange(mx + 1, 2 * mx + 20), r.randrange(1000))
        elif k == 2:
            put(r.choice([2, 3]), r.randrange(sx + 1, 40), r.randrange(1000))
        elif k == 3:
            put(*r.choice([(16, r.randrange(39)), (17, r.randrange(10000))]))
        elif k == 4:
            put(9, r.choice([mx + 1, 200, 1 << 33]))
        elif k == 5:
            kind, lim = r.choice([(4, 256), (5, 256), (6, 1 << 32), (8, 256), (7, 1 << (48 if small else 64))])
            put(kind, lim + r.choice([0, 1, 255]))
        elif k == 6 and not small:
            ops.append("opt 12 0")
            ops.append("opt 13 0")
            ops[:] = [o for o in dict.fromkeys(x.replace("opt 12 0", "opt 12").replace("opt 13 0", "opt 13") for x in ops)]
            mx, sx = 32, 8
        else:
            if not par:
                ops.append("opt 14")
                par = True
            kind = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10])
            put(kind, *((r.randrange(0, sx), 3) if kind in (2, 3) else (r.choice([0, 1, r.randrange(30)]),)))
    if r.random() < max(p, 0.3):
        put(0, r.choice([1, mx, r.randrange(1, mx + 1)]))
    if r.random() < max(p, 0.3):
        put(1, r.choice([0, 1, mx, r.randrange(mx + 1)]), r.randrange(1000))
    if not par:
        for kind in (2, 3):
            if r.random() < p:
                put(kind, r.choice([0, 1, sx, r.randrange(sx + 1)]), r.randrange(1000))
        if r.random() < p:
            put(4, r.choice([0, 1, 2, 255, r.randrange(256), r.randrange(256)]))
        if r.random() < p:
            put(5, r.choice([1, 2, 255, r.randrange(1, 256)]))
        if r.random() < p:
            put(6, r.choice([0, 1, 0xFFFFFFFF, r.randrange(1 << 32)]))
        if r.random() < p:
            bits = 48 if small else 64
            put(7, r.choice([0, 1, (1 << bits) - 1, r.randrange(1 << bits), 1 << 32, (1 << 32) - 1]))
        if r.random() < p:
            put(8, r.choice([0, 1, 2, 255, r.randrange(256), r.randrange(256)]))
        if r.random() < p:
            put(9, r.choice([0, mx, r.randrange(mx + 1), r.randrange(mx + 1)]))
        if r.random() < p:
            put(10)


def kind_of_name(r):
    """Which name a file gets; the last kinds are rare (path_of in clirun.py)."""
    return r.randrange(6) if r.random() < 0.7 else r.randrange(11) if r.random() < 0.8 else r.randrange(11, 64)


def style(r, ops):
    """Another spelling or order of the same arguments."""
    if r.random() < 0.3:
        ops.append("style %d" % r.randrange(8000))


def again(r, ops, p):
    """One of the arguments is given twice, by the same or another name."""
    if r.random() >= p:
        return None
    args = [k for k, o in enumerate(ops) if o.startswith("arg ")]
    k = r.choice(args)
    _, i, kind = ops[k].split()
    if r.random() < 0.3:
        kind = 0
    ops.insert(k + 1 if r.random() < 0.5 else args[-1] + 1, "arg %s %s" % (i, kind))
    return int(i)


def crowd(r, ops, count, faulty):
    """Many arguments: small files of which `faulty` in 100 fail."""
    ops.append("args %d %d" % (r.randrange(100), count))
    plague = r.choice([None, None, 0, 1, 2])
    for i in range(1, 101):
        bad = r.randrange(100) < faulty
        kind = r.randrange(3) if plague is None else plague
        if bad and kind == 0:
            continue
        s = r.choice([0, 1, 64, 128, r.randrange(400)])
        ops.append("file %d %d %d" % (i, s, rotation(r)))
        if bad and kind == 1:
            ops.append("openerr %d %d" % (i, r.choice(OPEN_ERRNOS)))
        elif bad:
            ops.append("readerr %d 0 %d" % (i, r.choice(READ_ERRNOS)) if s else
                       "openerr %d %d" % (i, r.choice(OPEN_ERRNOS)))


CROWDS = [100, 127, 128, 129, 255, 256, 256, 257, 512, 768, 1024]


def stutter(r, ops, i, n, heavy):
    """Short and interrupted reads of a file of n bytes."""
    style = r.randrange(5)
    count = r.choice([1, 2, 4, 8, 30, 100]) if heavy else r.randrange(1, 6)
    for _ in range(count):
        if style == 0:
            ops.append("read %d %d 0" % (i, r.randrange(1, 4)))
        elif style == 1:
            ops.append("read %d 0 1" % i)
        elif style == 2:
            ops.append("read %d %d 0" % (i, r.choice([1, 63, 64, 65, 127, 128, 129, 255, 256, 512, 4096, 8191, 32767])))
        elif style == 3:
            ops.append("read %d %d %d" % (i, r.randrange(1, max(2, min(n + 1, 32768))), int(r.random() < 0.3)))
        else:
            ops.append("read %d %d %d" % (i, r.choice([1, 100, 1000, 32767]), int(r.random() < 0.5)))


def metadata(r, ops, i, n, kinds=False):
    """Properties of a file that do not change its contents: holes, block
    sizes, links, owners, times; with kinds also its type."""
    if r.random() < 0.5:
        ops.append("meta %d 0 %d" % (i, r.choice([0, 0, 1, 8, n // 512 // 2, n // 512 + 64, r.randrange(n // 256 + 2),
                                                  1 << 40])))
    if r.random() < 0.4:
        ops.append("meta %d 1 %d" % (i, r.choice([1, 512, 1024, 4096, 65536, 1 << 17, 1 << 20, r.randrange(1, 5000)])))
    if r.random() < 0.3:
        ops.append("meta %d 2 %d" % (i, r.choice([0, 2, 100])))
    if r.random() < 0.3:
        types = [0o100000] + ([0o010000, 0o020000, 0o060000, 0o140000] if kinds else [])
        ops.append("meta %d 3 %d" % (i, r.choice(types) | r.choice([0, 0o444, 0o644, 0o777, 0o4755, 0o200])))
    if r.random() < 0.3:
        ops.append("meta %d 4 %d" % (i, r.choice([0, 1, 1001, 1 << 40])))
    if r.random() < 0.3:
        ops.append("meta %d 5 %d" % (i, r.choice([1, 1 << 31, 1 << 34])))
    if r.random() < 0.3:
        ops.append("meta %d 6 %d" % (i, r.randrange(5)))
    if r.random() < 0.2:
        ops.append("meta %d 7 %d" % (i, r.choice([1000, 65534])))


def directory(r, ops, i):
    """A directory can be opened and described, and not read."""
    ops.append("file %d %d %d" % (i, r.choice([4096, 4096, 0, 64, 12288]), rotation(r)))
    ops.append("meta %d 3 %d" % (i, 0o040000 | r.choice([0o755, 0o700, 0o1777])))
    if r.random() < 0.5:
        ops.append("meta %d 2 %d" % (i, r.randrange(1, 9)))
    ops.append("readerr %d 0 %d" % (i, errno.EISDIR))
    ops.append("maperr %d %d" % (i, errno.ENODEV))


def seekable_input(r, ops, n):
    """Standard input is a file, perhaps not at its start."""
    ops.append("meta 0 8 %d" % r.choice([0, 0, r.randrange(n + 1), n, n + r.randrange(100), min(n, 4096), min(n, 1)]))


def output_faults(r, ops, streams=(1, 2), hard=True):
    for f in streams:
        if r.random() < 0.5:
            for _ in range(r.choice([1, 2, 5, 20])):
                ops.append("out %d %d %d" % (f, r.choice([1, 1, 2, 7, 30, 64, 65, 100]), int(r.random() < 0.4)))
    if hard and r.random() < 0.7:
        f = 1 if r.random() < 0.8 else 2
        ops.append("limit %d %d %d" % (f, r.choice([0, 1, 64, 65, 129, r.randrange(600), r.randrange(130)]),
                                       r.choice(OUT_ERRNOS)))


def generate(prop, seed, index, tier):
    r = random.Random("%s/%d/%d" % (prop, seed, index))
    ops = []
    g = {"C09": c09, "C10": c10, "C11": c11, "C12": c12, "C17": c17, "C18": c18, "C24": c24, "C25": c25}[prop]
    g(r, ops, tier)
    style(r, ops)
    kinds(r, ops, prop)
    if r.random() < 0.15:
        # Backtraces of errors need memory of their own.
        ops.append("env %d" % r.randrange(3 if prop in ("C18", "C24") else 1, 7))
    if r.random() < 0.25:
        ops.append("cpu %d" % r.randrange(2))
    return "b2sim 1\nproperty %s\nseed %d\n%s\n" % (prop, index, "\n".join(ops))


def kinds(r, ops, prop):
    """Read-only files and named pipes; interrupted opens."""
    args = [o.split()[1] for o in ops if o.startswith("arg ")]
    if r.random() < 0.1:
        for i in dict.fromkeys(args):
            if r.random() < 0.5:
                ops.append("openintr %s %d" % (i, r.choice([1, 1, 2, 7])))
    rate = r.choice([0, 0, 0, 0.2, 0.5] if prop != "C17" else [0.2, 0.8])
    for i in dict.fromkeys(args):
        if r.random() < rate:
            ops.append("ro %s" % i)
    if "opt 11" not in ops or r.random() < 0.1:
        rate = r.choice([0, 0, 0, 0.3])
        for i in dict.fromkeys(args):
            if args.count(i) == 1 and r.random() < rate:
                ops.append("pipe %s" % i)


def c17(r, ops, tier):
    """Any of the others."""
    r.choice([c09, c10, c11, c12])(r, ops, tier)


# Memory the tool may have in use: far more than it needs for its buffers and
# arguments, far less than the long inputs.
HEAP = 12 << 20


def c18(r, ops, tier):
    params(r, ops, False)
    ops.append("heap %d" % HEAP)
    k = r.random()
    if k < 0.12:
        crowd(r, ops, r.choice([300, 1024, 3000]), r.choice([0, 0, 100, 100, 30]))
        if r.random() < 0.5:
            # Of some size, together much.
            ops[:] = [o for o in ops if not o.startswith("file")]
            if "opt 11" not in ops:
                for j, o in enumerate(ops):
                    if o.startswith("readerr"):
                        ops[j] = "readerr %s %d %s" % (o.split()[1], r.choice([0, 5000, 9999]), o.split()[3])
            for i in range(1, 101):
                ops.append("file %d %d %d" % (i, r.choice([10_000, 32768, 40_000, 70_000]), rotation(r)))
        return
    n = r.choice([0, 1, 1, 1, 2])
    for i in range(1, n + 1):
        ops.append("arg %d %d" % (i, kind_of_name(r)))
    for i in range(1, n + 1) if n else [0]:
        s = r.choice([13, 13, 13, 14, 16, 20, 33]) * 1_000_000 + r.randrange(1 << 20)
        if r.random() < 0.3:
            s = (s >> 20) << 20
        ops.append("file %d %d %d" % (i, s, rotation(r)))
        if r.random() < 0.3:
            stutter(r, ops, i, s, False)
        if r.random() < 0.3:
            ops.append("statsize %d %d" % (i, r.choice([0, 1, 4096, s // 2, s, 2 * s, 1 << 40])))
        if r.random() < 0.15:
            ops.append("readerr %d %d %d" % (i, r.randrange(s + 1), r.choice(READ_ERRNOS)))
        if i == 0 and r.random() < 0.3:
            ops.append("meta 0 8 0")
        if r.random() < 0.15:
            metadata(r, ops, i, s)


def c24(r, ops, tier):
    """Any of the others; rarely long inputs, many interruptions."""
    k = r.random()
    if k < 0.02:
        c18(r, ops, tier)
        ops[:] = [o for o in ops if not o.startswith("heap")]
    else:
        r.choice([c09, c10, c11, c12])(r, ops, tier)
    if r.random() < 0.6:
        ops.append("silent")
    if r.random() < 0.2:
        ops.append("clock %d" % r.choice([0, 1, 1 << 31, (1 << 32) - 1, 1 << 33, r.randrange(1 << 31)]))
    for j, o in enumerate(list(ops)):
        f = o.split()
        if f[0] == "limit" and r.random() < 0.2:
            ops[j] = "limit %s %s 0" % (f[1], f[2])
        if f[0] != "file" or int(f[2]) > 1 << 33:
            continue
        if r.random() < 0.02:
            # Interrupted often.
            ops += ["read %s 0 1" % f[1]] * r.choice([100, 1000, 3000])
        elif r.random() < 0.04:
            # Delivered in small pieces, as by a pipe.
            ops.append("chunk %s %d" % (f[1], max(int(f[2]) // 20000, r.choice([1, 2, 7, 64, 100, 512, 1000, 4096]))))


def c25(r, ops, tier):
    """Any of the others; mostly with a key. The twin has other secrets."""
    r.choice([c09, c10, c10, c11, c12])(r, ops, tier)
    if r.random() < 0.6 and not any(o.startswith(("opt 1 ", "opt 16 ")) for o in ops):
        n = r.choice([0, 1, 16, 31, 32, 33, 63, 64, 65, r.randrange(1, 65), r.randrange(1, 33), 200])
        if r.random() < 0.15:
            ops.append("opt 18 %d %d %d" % (n, r.randrange(1 << 30), r.randrange(1000)))
        else:
            ops.append("opt 1 %d %d" % (n if n < 65 or r.random() < 0.3 else 32, r.randrange(1 << 30)))
    ops.append("twin %d" % r.randrange(1 << 30))


def c09(r, ops, tier):
    params(r, ops, r.random() < 0.12)
    n = r.choice([0, 0, 1, 1, 1, 2, 3])
    targets, twice = [0], None
    if n:
        targets = list(range(1, n + 1))
        for i in targets:
            ops.append("arg %d %d" % (i, kind_of_name(r)))
        twice = again(r, ops, 0.2)
    for i in targets:
        s = size(r, tier)
        ops.append("file %d %d %d" % (i, s, rotation(r)))
        if r.random() < 0.75:
            stutter(r, ops, i, s, True)
        if r.random() < 0.3:
            metadata(r, ops, i, s, True)
        if i == 0 and r.random() < 0.4:
            seekable_input(r, ops, s)
        if r.random() < 0.25:
            ops.append("statsize %d %d" % (i, r.choice([0, s // 2, s + 1, s * 2, 1 << 40, (1 << 63) - 1, max(0, s - 1)])))
        if r.random() < (0.8 if i == twice else 0.3):
            pos = r.choice([s, r.randrange(s + 1)]) if i == twice else r.randrange(s + 1)
            if r.random() < 0.5:
                ops.append("mut %d %d 0 %d" % (i, pos, rotation(r)))
            else:
                ops.append("mut %d %d 1 %d" % (i, pos, r.choice([0, s // 2, s + 1, s + 40000, 2 * s, max(0, s - 1)])))


def c10(r, ops, tier):
    params(r, ops, False)
    if r.random() < 0.12:
        # Standard input.
        s = size(r, tier)
        ops.append("file 0 %d %d" % (s, rotation(r)))
        stutter(r, ops, 0, s, False)
        if r.random() < 0.3:
            seekable_input(r, ops, s)
        if r.random() < 0.7:
            ops.append("readerr 0 %d %d" % (r.randrange(s + 1), r.choice(READ_ERRNOS)))
        if r.random() < 0.2:
            ops.append("opt 11")
        return
    if r.random() < 0.012:
        crowd(r, ops, r.choice(CROWDS), r.choice([100, 100, 50, 2]))
        return
    mmap = r.random() < 0.35
    if mmap:
        ops.append("opt 11")
    if r.random() < 0.04:
        ops.append("malloc %d" % r.choice([r.randrange(1, 60), r.randrange(1, 300)]))
    many = r.random() < 0.06
    n = r.randrange(45, 90) if many else r.choice([1, 1, 2, 3, 4, 6, 9])
    faulty = r.choice([0.0, 0.1, 0.3, 0.6, 0.9])
    for i in range(1, n + 1):
        ops.append("arg %d %d" % (i, kind_of_name(r)))
    twice = again(r, ops, 0.15)
    if many:
        ops.append("fds %d" % r.randrange(6, 40))
        if mmap:
            ops.append("maps %d" % r.randrange(6, 40))
    for i in range(1, n + 1):
        s = r.randrange(400) if many else size(r, tier)
        bad = r.random() < faulty
        kind = r.randrange(5)
        if bad and kind == 0:
            continue  # does not exist
        if bad and r.random() < 0.15:
            directory(r, ops, i)
            continue
        ops.append("file %d %d %d" % (i, s, rotation(r)))
        if r.random() < 0.3:
            stutter(r, ops, i, s, False)
        if r.random() < 0.15:
            metadata(r, ops, i, s, not mmap)
        if bad and i == twice and kind <= 2:
            ops.append("openerr %d %d 1" % (i, r.choice([errno.ENOENT] + OPEN_ERRNOS)))
        elif bad and kind == 1:
            ops.append("openerr %d %d" % (i, r.choice(OPEN_ERRNOS)))
        elif bad and mmap:
            if kind == 2:
                ops.append("staterr %d %d" % (i, r.choice(OPEN_ERRNOS)))
            else:
                ops.append("maperr %d %d" % (i, r.choice(MAP_ERRNOS)))
        elif bad:
            pos = r.choice([0, s, r.randrange(s + 1), r.randrange(s + 1), min(s, 32768), max(0, s - 1)])
            ops.append("readerr %d %d %d" % (i, pos, r.choice(READ_ERRNOS)))
    if r.random() < 0.3:
        output_faults(r, ops, (1, 2), hard=False)


def c11(r, ops, tier):
    params(r, ops, False)
    ops.append("opt 11")
    if r.random() < 0.04:
        # Refused.
        s = size(r, tier)
        ops.append("file 0 %d %d" % (s, rotation(r)))
        return
    n = r.choice([1, 1, 2, 2, 3, 5, 8])
    faulty = r.choice([0.0, 0.2, 0.5, 0.8])
    for i in range(1, n + 1):
        ops.append("arg %d %d" % (i, kind_of_name(r)))
    for i in range(1, n + 1):
        s = size(r, tier)
        if r.random() < 0.3:
            s = r.choice([0, 1, PAGE, 2 * PAGE, 16 * PAGE, 65536, 1 << 20, PAGE - 1, PAGE + 1])
        rot = rotation(r)
        if r.random() < 0.02:
            s = r.choice([1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 50])
            rot = 0
            ops.append("maperr %d %d" % (i, r.choice(MAP_ERRNOS)))
            ops.append("readerr %d 0 %d" % (i, errno.EIO))
        bad = r.random() < faulty
        kind = r.randrange(6)
        if bad and kind == 0:
            continue
        if bad and r.random() < 0.15:
            directory(r, ops, i)
            continue
        ops.append("file %d %d %d" % (i, s, rot))
        if r.random() < 0.35:
            metadata(r, ops, i, s)
        if bad:
            if kind == 1:
                ops.append("openerr %d %d" % (i, r.choice(OPEN_ERRNOS)))
            elif kind == 2:
                ops.append("staterr %d %d" % (i, r.choice(OPEN_ERRNOS)))
            elif kind in (3, 4):
                ops.append("maperr %d %d" % (i, r.choice(MAP_ERRNOS)))
            else:
                ops.append("statsize %d 0" % i)
        if r.random() < 0.2 and s < 1 << 30:
            stutter(r, ops, i, s, False)


def c12(r, ops, tier):
    params(r, ops, r.random() < 0.05)
    if r.random() < 0.15:
        s = size(r, tier)
        ops.append("file 0 %d %d" % (s, rotation(r)))
        if r.random() < 0.2:
            ops.append("readerr 0 %d %d" % (r.randrange(s + 1), r.choice(READ_ERRNOS)))
        n = 0
    else:
        if r.random() < 0.25:
            ops.append("opt 11")
        n = r.choice([1, 2, 3, 5, 8, 20, 40])
        if r.random() < 0.03:
            n = r.choice(CROWDS)
            crowd(r, ops, n, r.choice([0, 0, 5, 100]))
        faulty = r.choice([0.0, 0.0, 0.2, 0.5])
        for i in range(1, (n if n < 100 else 0) + 1):
            ops.append("arg %d %d" % (i, kind_of_name(r)))
        for i in range(1, (n if n < 100 else 0) + 1):
            s = r.randrange(3000) if n > 4 else size(r, tier)
            bad = r.random() < faulty
            kind = r.randrange(3)
            if bad and kind == 0:
                continue
            if bad and r.random() < 0.15:
                directory(r, ops, i)
                continue
            ops.append("file %d %d %d" % (i, s, rotation(r)))
            if r.random() < 0.08:
                metadata(r, ops, i, s)
            if bad and kind == 1:
                ops.append("openerr %d %d" % (i, r.choice(OPEN_ERRNOS)))
            elif bad and kind == 2:
                ops.append("readerr %d %d %d" % (i, r.randrange(s + 1), r.choice(READ_ERRNOS)))
    k = r.randrange(4)
    if k <= 1:
        output_faults(r, ops)
    elif k == 2:
        output_faults(r, ops, hard=r.random() < 0.3)
        ops.append("kill %d %d" % (r.choice([r.randrange(1, 12), r.randrange(1, 12 + 6 * n)]), r.randrange(2)))
    else:
        if r.random() < 0.4:
            output_faults(r, ops, hard=False)
        if r.random() < 0.7:
            ops.append("malloc %d" % r.choice([r.randrange(1, 60), r.randrange(1, 60 + 8 * n)]))
