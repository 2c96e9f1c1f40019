"""C25 vector, C26 dictionary, C27 sparse array."""
import random, struct
from lib import Check, hx, mccfg


def rb(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def vec_random(r, quick):
    isz = r.choice([1, 2, 3, 4, 7, 8, 8, 8, 16, 31, 64, 255, 256, 257, 300, 1024, 4096, 5000])
    cap = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 16, 17, 32, 100, 255, 256, 1000])
    out = ["vnew %d %d" % (isz, cap)]
    n = 0
    for _ in range(r.choice([3, 10, 20, 40, 60])):
        k = r.random()
        if k < .55:
            ln = r.choice([0, 1, isz // 2, isz - 1, isz, isz, isz, isz + 1, isz + 5])
            out.append("vapp " + hx(rb(r, max(ln, 0))))
            if ln <= isz:
                n += 1
        elif k < .6:
            out.append("vapp - %d" % r.choice([0, isz, isz // 2, isz + 1]))
            if not out[-1].endswith(" %d" % (isz + 1)):
                n += 1
        elif k < .75:
            out.append("vptr " + hx(rb(r, 8)))
            if isz == 8:
                n += 1
        elif k < .85:
            out.append("vrev")
        else:
            for i in {0, n - 1, n, n + 1, cap, cap + 1, r.randrange(n + 3), 4294967295, 1 << 31}:
                if i >= 0:
                    out.append("vget %d" % i)
    out += ["vget %d" % i for i in range(n + 2)] + ["vfree"]
    if r.random() < .05:
        out.append("vnull")
    return out


def C25(c):
    c.mc("VectorImpl", mccfg("InBounds Refines", ISZ=2, MaxOps=7, Caps='''{0, 1, 2, 3}''', GrowFromZero='''TRUE'''), "VectorImpl ISZ=2 MaxOps=7")
    c.mc("VectorImpl", mccfg("InBounds Refines", ISZ=1, MaxOps=9, Caps='''{0, 1, 4}''', GrowFromZero='''TRUE'''), "VectorImpl ISZ=1 MaxOps=9")
    cases = []
    for size, caps, n in ((8, "{0, 1, 3}", 3 if c.quick else 5), (3, "{0, 1, 2, 4}", 4 if c.quick else 6)):
        for g in c.generate("VectorGen", "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d\nSize = %d\nCaps = %s\n" % (n, size, caps)):
            s = ["vnew %d %d" % (size, g["cap"])]
            for o in g["ops"]:
                s.append({"app": "vapp " + hx(bytes(o["b"])), "ptr": "vptr " + hx(bytes(o["b"])), "rev": "vrev"}[o["op"]])
                s.append("vget %d" % c.rng.randrange(n))
            cases.append(s + ["vget %d" % i for i in range(n + 1)] + ["vfree"])
    c.check_traces("VectorTrace", cases, "vector: replay of every generated history")
    c.check_traces("VectorTrace", [vec_random(c.rng, c.quick) for _ in range(400 if c.quick else 8000)] + [["vnull"]],
                   "vector: random long histories")
    big = []
    for isz in (1, 8):     # long growth
        s = ["vnew %d %d" % (isz, c.rng.choice([0, 1, 3]))]
        for i in range(2100 if c.quick else 5000):
            s.append("vapp " + hx(rb(c.rng, isz)))
            if i in (0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096):
                s += ["vget %d" % k for k in (0, i // 2, i - 1, i, i + 1) if k >= 0]
                if i % 2:
                    s.append("vrev")
        s.append("vrev")
        s += ["vget %d" % i for i in range(0, 5002, 7)] + ["vfree"]
        big.append(s)
    c.check_traces("VectorTrace", big, "vector: long growth", sample=False)


def key_pool(r):
    k = r.random()
    if k < .3:                       # prefixes of each other
        base = rb(r, r.choice([3, 8, 20]))
        return [base[:i] for i in range(len(base) + 1)]
    if k < .5:                       # long keys, differing late, early or in length only
        n = r.choice([250, 255, 256, 257, 300, 512, 700, 1024, 2048, 5000])
        base = rb(r, n)
        out = [base, base + b"x", base[:-1], b"y" + base[1:], base[:200] + b"z" + base[201:]]
        return out + [base[:255], base[:256]]
    if k < .7:                       # with zero bytes
        return [b"a", b"a\0", b"a\0b", b"a\0c", b"\0", b"\0\0", b"", b"a\0\0", b"\xff\xfe", b"\xff"]
    if k < .85:
        return [b"k%d" % i for i in range(r.choice([10, 40, 200]))]
    return [rb(r, r.randrange(1, 12)) for _ in range(r.choice([30, 60, 120]))]


def dict_random(r, nops):
    pool = key_pool(r)
    out = ["dnew"]
    for _ in range(nops):
        k = r.choice(pool)
        if r.random() < .6:
            out.append("dset %s %s" % (hx(k), hx(rb(r, r.choice([0, 1, 2, 5, 8, 30, 300, 300, 1024, 4096])))))
        else:
            out.append("dget " + hx(k if r.random() < .7 else k + rb(r, 1)))
    out += ["dget " + hx(k) for k in pool] + ["dfree"]
    return out


def dict_growth(r, n):
    ks = [r.choice([b"key-%d", b"%d", b"a%dz"]) % r.randrange(10 ** 6) for _ in range(n)]
    out = ["dnew"]
    for i, k in enumerate(ks):
        out.append("dset %s %s" % (hx(k), hx(b"v%d" % i)))
        if r.random() < .3:
            out.append("dget " + hx(ks[r.randrange(i + 1)]))
        if r.random() < .1:
            out.append("dset %s %s" % (hx(ks[r.randrange(i + 1)]), hx(b"w%d" % i)))
    return out + ["dget " + hx(k) for k in ks] + ["dget " + hx(k + b"?") for k in ks[:50]] + ["dfree"]


def fnv(b):
    h = 14695981039346656037
    for x in b:
        h = ((h ^ (x - 256 if x > 127 else x) & (1 << 64) - 1) * 1099511628211) & ((1 << 64) - 1)
    return h


def colliding(r, n, bits, extra=0):
    """n ASCII keys whose hashes agree in the low bits, plus some others."""
    want, out = r.randrange(1 << bits), []
    i = r.randrange(1 << 30)
    while len(out) < n:
        k = b"%x" % i
        if fnv(k) & ((1 << bits) - 1) == want:
            out.append(k)
        i += 1
    return out


def dict_collide(r, n, bits):
    ks = colliding(r, n, bits)
    out = ["dnew"]
    for i, k in enumerate(ks):
        out.append("dset %s %s" % (hx(k), hx(b"v%d" % i)))
        out += ["dget " + hx(q) for q in ks[max(0, i - 3):i + 1]]
    for k in ks[::3]:
        out.append("dset %s %s" % (hx(k), hx(b"again")))
    return out + ["dget " + hx(k) for k in ks] + ["dfree"]


# Keys of one 64-bit hash: pairs of equal length, and one whose hash is 0, which stays 0 when zero bytes are added.
TWINS = [(b"8yn0iYCKYHlIj4-BwPqk", b"GReLUrM4wMqfg9yzV3KQ"), (b"gMPflVXtwGDXbIhP73TX", b"LtHf1prlU1bCeYZEdqWf"),
         (b"pFuM83THhM-Qw8FI5FKo", b".jPx7rOtTDteKAwvfOEo"), (b"7mohtcOFVz", b"c1E51sSEyx"), (b"6a5x-VbtXk", b"f_2k7GG-4v"),
         (b"77kepQFQ8Kl", b"77kepQFQ8Kl\0", b"77kepQFQ8Kl\0\0")]
assert all(len({fnv(k) for k in t}) == 1 for t in TWINS)


def half_twins(r, n):
    """n pairs of keys whose hashes agree in their low 32 bits (and half of them in length)."""
    seen, out, i = {}, [], r.randrange(1 << 30)
    while len(out) < n:
        k = b"%x" % i
        h = fnv(k) & 0xffffffff
        if h in seen:
            out.append((seen[h], k))
        seen[h] = k
        i += 1
    return out


def dict_twins(r, sets, nothers):
    ks = [k for t in sets for k in t]
    if r.random() < .5:
        r.shuffle(ks)
    todo = ks + [b"other%d" % i for i in range(nothers)]
    if r.random() < .5:
        r.shuffle(todo)
    out = ["dnew"] + ["dget " + hx(k) for k in ks[:2]]
    for i, k in enumerate(todo):
        out.append("dset %s %s" % (hx(k), hx(b"v%d" % i)))
        if r.random() < .5:
            out.append("dget " + hx(r.choice(ks)))
        if r.random() < .2:
            out.append("dset %s %s" % (hx(r.choice(todo[:i + 1])), hx(b"w%d" % i)))
    return out + ["dget " + hx(k) for k in todo] + ["dfree"]


def C26(c):
    c.mc("DictImpl", mccfg("NeverFails IsMap HasRoom", Keys="{a, b, c, d}", a="a", b="b", c="c", d="d", Start=2, HashMax=7, Probe='"triangle"', Resize=80, Vals="{1, 2}", symmetry="Symm"), "DictImpl triangular probing")
    c.mc("DictImpl", mccfg("NeverFails IsMap HasRoom", Keys="{a, b, c, d, e, f}", a="a", b="b", c="c", d="d", e="e", f="f", Start=8, HashMax=3 if c.quick else 7, Probe='"triangle"', Resize=80, Vals="{1}", symmetry="Symm"), "DictImpl 6 keys", timeout=600)
    cases = []
    for g in c.generate("DictGen", "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxOps = %d\n" % (3 if c.quick else 4)):
        s = ["dnew"]
        for o in g:
            s.append("dset %s %s" % (hx(bytes(o["k"])), hx(bytes(o["v"]))))
        cases.append(s + ["dget " + x for x in (".", "61", "6161", "6100", "62", "63")] + ["dfree"])
    c.check_traces("DictTrace", cases, "dictionary: replay of every generated history")
    n = 1 if c.quick else 10
    cs = [dict_random(c.rng, c.rng.choice([10, 40, 120])) for _ in range(150 * n)]
    cs += [dict_growth(c.rng, k) for k in (20, 26, 27, 30, 52, 60, 110, 250) for _ in range(2 * n)]
    cs += [dict_collide(c.rng, k, b) for k, b in ((12, 5), (20, 5), (24, 6), (25, 5), (40, 7)) for _ in range(3 * n)]
    cs += [dict_twins(c.rng, c.rng.sample(TWINS, k), m) for k in (1, 1, 2, 6) for m in (0, 3, 20, 60) for _ in range(2 * n)]
    cs += [dict_twins(c.rng, half_twins(c.rng, 2), m) for m in (0, 3, 30)]
    c.check_traces("DictTrace", cs, "dictionary: random histories, growth and collisions")
    c.check_traces("DictTrace", [dict_growth(c.rng, n) for n in ((700, 1700) if c.quick else (700, 1700, 3500))] + [["dnew", "dset 61 " + hx(rb(c.rng, n)), "dget 61", "dset %s %s" % (hx(rb(c.rng, n)), hx(rb(c.rng, n // 2))), "dget 61", "dget 62", "dset 61 62", "dget 61", "dfree"] for n in (8192, 32768, 65535, 65536, 70000)], "dictionary: many entries", sample=False)


def arr_random(r):
    esz = r.choice([1, 2, 4, 8, 13, 64, 255, 256, 300, 1000])
    mx = r.choice([1, 2, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 144, 200, 500, 1000, 4096, 10000])
    edges = [x for x in (0, 1, 30, 31, 32, 33, 46, 47, 48, 49, 63, 64, 79, 80, 95, 96, 97, mx - 2, mx - 1, mx, mx + 1, mx + 47, mx + 48, 1 << 31, (1 << 32) - 1) if x >= 0]
    out = ["snew %d %d" % (esz, mx)]
    order = list(range(mx))
    mode = r.random()
    if mode < .25:
        order.reverse()
    elif mode < .75:
        r.shuffle(order)
    order = order[:r.choice([5, 20, 60, 150, 400])]
    for i in order:
        out.append("sset %d %s" % (i, hx(rb(r, r.choice([1, esz, esz, max(1, esz - 1), esz + 1])))))
        k = r.random()
        if k < .1:
            out.append("sset %d %s" % (r.choice(edges), hx(rb(r, r.choice([0, 1, esz, esz + 1])))))
        if k > .7:
            out.append("sget %d" % r.choice(edges + order))
    out += ["sget %d" % i for i in sorted(set(order) | set(edges))] + ["sfree"]
    return out


def C27(c):
    c.mc("SparseArrayImpl", mccfg("Refines Packed", GroupSize=3, Max=5, Vals='''{1, 2}''', MaxOps=5), "SparseArrayImpl")
    cases = []
    for g in c.generate("SparseArrayGen", "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d\nMax = 64\nAt = {0, 1, 31, 32, 47, 48, 63%s}\n" % ((3, ", 64") if c.quick else (4, ""))):
        s = ["snew 2 64"] + ["sset %d %s" % (o["i"], hx(bytes(o["v"]))) for o in g]
        cases.append(s + ["sget %d" % i for i in (0, 1, 2, 31, 32, 46, 47, 48, 49, 63, 64)] + ["sfree"])
    c.check_traces("SparseArrayTrace", cases, "sparse array: replay of every generated history")
    c.check_traces("SparseArrayTrace", [arr_random(c.rng) for _ in range(400 if c.quick else 6000)], "sparse array: random histories")
