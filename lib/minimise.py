"""Shrink a failing scenario. Works on the text form, so it serves every
engine: `fails(text)` says whether a candidate still fails in the same way."""
import time


def parse(text):
    """-> (header lines, [[name, args]...])"""
    head, ops = [], []
    for line in text.splitlines():
        f = line.split()
        if not f:
            continue
        if f[0] in ("b2sim", "property", "seed", "set") or line.startswith("#"):
            head.append(line)
        else:
            ops.append([f[0], [int(x) for x in f[1:]]])
    return head, ops


def text_of(head, ops):
    return "\n".join(head + [" ".join([n] + [str(a) for a in args]) for n, args in ops]) + "\n"


def ddmin(items, test, budget):
    """Smallest sublist found for which test() holds."""
    n = 2
    while len(items) >= 1 and budget():
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and budget():
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, min(n - 1, len(items)))
    return items


def minimise(text, fails, seconds=60, tail=None):
    """tail: {op name: (index of the first list argument, group size)}"""
    tail = tail or {}
    end = time.time() + seconds
    budget = lambda: time.time() < end
    head, ops = parse(text)
    ops = ddmin(ops, lambda o: fails(text_of(head, o)), budget)
    again = True
    while again and budget():
        again = False
        # Shorten argument lists.
        for i in range(len(ops)):
            name, args = ops[i]
            if name in tail:
                start, group = tail[name]
                groups = [args[j:j + group] for j in range(start, len(args), group)]

                def with_groups(gs):
                    o = [list(x) for x in ops]
                    o[i] = [name, args[:start] + [a for g in gs for a in g]]
                    return o

                small = ddmin(groups, lambda gs: fails(text_of(head, with_groups(gs))), budget)
                if len(small) < len(groups):
                    ops = with_groups(small)
                    again = True
        # Simplify arguments.
        for i in range(len(ops)):
            for j in range(len(ops[i][1])):
                for cand in candidates(ops[i][1][j]):
                    if not budget():
                        break
                    o = [[n, list(a)] for n, a in ops]
                    o[i][1][j] = cand
                    if fails(text_of(head, o)):
                        ops = o
                        again = True
                        break
        # Simplify the settings.
        for i in range(len(head)):
            f = head[i].split()
            if f[0] != "set":
                continue
            for cand in candidates(int(f[2])):
                if not budget():
                    break
                h = list(head)
                h[i] = "set %s %d" % (f[1], cand)
                if fails(text_of(h, ops)):
                    head = h
                    again = True
                    break
        if again:
            ops = ddmin(ops, lambda o: fails(text_of(head, o)), budget)
    return text_of(head, ops)


def candidates(a):
    out = []
    if a > 0:
        out.append(0)
    if a > 1:
        out.append(1)
    if a > 2:
        out += [a // 2, a - 1]
        if a > 300:
            out.append(a % 256)
        # Clear single bits of masks.
        if a < 256:
            out += [a & ~(1 << b) for b in range(8) if a & (1 << b)]
    seen, res = {a}, []
    for x in out:
        if x not in seen and x < a:
            seen.add(x)
            res.append(x)
    return res
