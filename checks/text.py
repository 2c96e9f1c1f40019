"""C13 headers, C14 forms, C15 cookies, C28 string helpers, C29 hash, C30 percent-decoding, C31 logging."""
from lib import Check, hx, mccfg


def rb(r, n, pool=None):
    return bytes(r.choice(pool) if pool else r.randrange(256) for _ in range(n))


def gen(c, kind, toks, inv, n):
    cfg = mccfg("Emit " + inv, init="GInit", next="GNext", Kind='"%s"' % kind, Toks="<- " + toks, MaxToks=n)
    return [bytes(g) for g in c.generate("TextGen", cfg, "TextGen " + kind)]


# ------------------------------------------------------------------ headers
NAMES = ["Content-Length", "Range", "User-Agent", "X-Real-IP", "Host", "Cookie", "A", "Content-Type", "X", "x-y_z.1"]


def header_text(r):
    names = r.sample(NAMES, r.randrange(1, 5))
    near = []
    for n in names:
        near += [n, n.lower(), n.upper(), "X-" + n, n + "-X", n[:-1], n + "s", n + " ", " " + n, n.swapcase()]
    vals = ["", "1", "abc", " lead", "trail  ", "a: b", "bytes=0-5", "Content-Length: 7", "Range: x", "\t tab", "x" * 300, "v\xe9\xff", "Host:evil", "a\nb", "a\rb", ":", "::"]
    reqline = r.choice(["GET / HTTP/1.1", "POST /x?%s:%s HTTP/1.1" % (r.choice(near), r.choice(vals[:8])), "GET /%s: HTTP/1.1" % r.choice(names), "", r.choice(near) + ": first-line"])
    t = reqline + "\r\n"
    for _ in range(r.randrange(0, 9)):
        n = r.choice(near) if r.random() < .85 else r.choice(NAMES)
        if r.random() < .05:
            t += n + "\r\n"
        else:
            t += n + ":" + r.choice([" ", "", "  ", "\t", " \t "]) + r.choice(vals + [n, r.choice(near) + ": 9"]) + "\r\n"
    t += "\r\n"
    if r.random() < .4:
        t += "".join("%s: body\r\n" % r.choice(near) for _ in range(r.randrange(3))) + r.choice(["", "x", "\r\n"])
    if r.random() < .15:
        t = t[:r.randrange(len(t) + 1)]
    return t.encode("latin-1"), [n.encode("latin-1") for n in names + r.sample(near, 2) if n.strip() == n and n]


SIZES = (8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000)


def C13(c):
    cases = []
    for t in gen(c, "hdr", "HdrToks", "HeaderMeaning", 6 if c.quick else 7):
        cases.append(["hdr %s 61" % hx(t), "hdr %s 4142" % hx(t)])
    c.check_traces("TextTrace", cases[::2] if c.quick else cases, "header lookup: every small text")
    cs = []
    for _ in range(700 if c.quick else 8000):
        t, ns = header_text(c.rng)
        cs.append(["hdr %s %s" % (hx(t), hx(n)) for n in ns])
    c.check_traces("TextTrace", cs, "header lookup: realistic and hostile heads")
    # sizes: long values and names, many headers
    r, cs = c.rng, []
    for n in SIZES + (() if c.quick else (40000,)):
        v, nm = rb(r, n, b"abc: =;"), b"X" + rb(r, n - 1, b"abc-_9")
        near = [nm, nm[:-1], nm + b"x", nm[:-1] + b"~"]
        t = b"GET / HTTP/1.1\r\nA: " + v + b"\r\n" + nm + b": one\r\n" + nm + b"x: two\r\nZ: " + rb(r, n, bytes(range(1, 256))).replace(b"\r", b"r") + b"\r\nLast: 3\r\n\r\n"
        cs.append(["hdr %s %s" % (hx(t), hx(x)) for x in [b"A", b"Z", b"Last", b"z", b"Nope"] + (near if n < 5000 else near[:2])])
    for n in (12, 33, 64, 65, 100, 128, 129, 256, 300, 600):
        ls = [b"H%d: v%d" % (k, k) for k in range(n)]
        t = b"GET / HTTP/1.1\r\n" + b"\r\n".join(ls) + b"\r\n\r\n"
        cs.append(["hdr %s %s" % (hx(t), hx(b"h%d" % k)) for k in sorted({0, 1, n // 2, n - 2, n - 1, n})])
    c.check_traces("TextTrace", cs, "header lookup: long and many headers")


# ------------------------------------------------------------------ cookies
def C15(c):
    cases = []
    for t in gen(c, "cookie", "CookieToks", "CookieMeaning", 6 if c.quick else 7):
        cases.append(["cookie %s %d 61" % (hx(t), len(t)), "cookie %s %d 61" % (hx(t), max(0, len(t) - 1))])
    c.check_traces("TextTrace", cases[::2] if c.quick else cases, "cookies: every small header")
    cs = [["cookie - 0 61", "cookie - 5 61"]]
    r = c.rng
    for _ in range(700 if c.quick else 8000):
        names = r.sample(["a", "aa", "session", "xsession", "session2", "id", "ID", "user_id", "theme"], r.randrange(1, 5))
        parts = []
        for n in [r.choice(names) for _ in range(r.randrange(1, 6))]:
            v = r.choice(["", "1", "abc", n, r.choice(names) + "=x", "a=b=c", "=", "x" * 200, "\xe9", '"q"', r.choice(names)])
            parts.append(n + "=" + v if r.random() < .9 else n)
        t = r.choice(["; ", ";", ";  ", " ;"]).join(parts) + r.choice(["", "", ";", "; ", " "])
        if r.random() < .1:
            t = " " + t
        b = t.encode("latin-1")
        siz = len(b) if r.random() < .7 else r.randrange(len(b) + 1)
        extra = rb(r, r.choice([0, 0, 5]), b"=;a b")
        cs.append(["cookie %s %d %s" % (hx(b + (extra if siz < len(b) or r.random() < .5 else b"")), siz, hx(n)) for n in names])
    c.check_traces("TextTrace", cs, "cookies: realistic and hostile headers, partial sizes")
    cs = []
    for n in SIZES:
        v, nm = rb(r, n, b"abc=: "), b"x" + rb(r, n - 1, b"abc-_9")
        v = v[:-1] + b"."
        t = b"a=" + v + b"; " + nm + b"=one; " + nm + b"x=two; z=" + v[::-1].lstrip() + b"e; last=3"
        cs.append(["cookie %s %d %s" % (hx(t), len(t), hx(x)) for x in [b"a", b"z", b"last", b"nope"] + ([nm, nm[:-1], nm + b"x"] if n < 5000 else [nm])])
    for n in (6, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 300, 600):
        t = b"; ".join(b"c%d=v%d" % (k, k) for k in range(n))
        cs.append(["cookie %s %d %s" % (hx(t), len(t), hx(b"c%d" % k)) for k in sorted({0, 1, n // 2, n - 2, n - 1, n})])
    c.check_traces("TextTrace", cs, "cookies: long and many cookies")


# ------------------------------------------------------------------ forms
def pct(r, b, safe=b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"):
    out = b""
    for x in b:
        if x in safe and r.random() < .85:
            out += bytes([x])
        elif x == 32 and r.random() < .7:
            out += b"+"
        else:
            out += (b"%%%02X" if r.random() < .5 else b"%%%02x") % x
    return out


def form_body(r):
    names = [rb(r, r.choice([1, 1, 2, 5, 12]), r.choice([b"ab", b"abc123", b"a b&=%+\xe9", None])) for _ in range(r.randrange(1, 6))]
    if r.random() < .3:
        names += [n + b"x" for n in names] + [n[:-1] for n in names]
    parts, keys = [], list(names)
    for _ in range(r.choice([1, 2, 4, 8, 20])):
        n = r.choice(names)
        v = rb(r, r.choice([0, 0, 1, 3, 10, 40, 300]), r.choice([b"abc", b"a&=+% ", None, b"\0a"]))
        k = r.random()
        if k < .82:
            parts.append(pct(r, n) + b"=" + pct(r, v))
        elif k < .88:
            parts.append(pct(r, n) + b"=" + pct(r, v[:20]) + r.choice([b"%", b"%4", b"%zz", b"%4g", b"%g4", b"%%", b"% 4"]))
        elif k < .92:
            parts.append(pct(r, n) + r.choice([b"%", b"%4", b"%q1"]) + b"=" + pct(r, v))
        elif k < .95:
            parts.append(pct(r, n))
        elif k < .97:
            parts.append(b"")
        else:
            parts.append(pct(r, n) + b"=" + pct(r, v) + b"=" + pct(r, v[:5]))
    return b"&".join(parts), keys


def C14(c):
    cases = []
    for t in gen(c, "form", "FormToks", "FormMeaning", 5 if c.quick else 6):
        cases.append(["form %s . 61 62 6161 6162 2561 20 613d" % hx(t)])
    c.check_traces("TextTrace", cases[::2] if c.quick else cases, "forms: every small body")
    cs = []
    for _ in range(500 if c.quick else 6000):
        b, keys = form_body(c.rng)
        ks = {k for k in keys} | {c.rng.choice(keys) + b"?", b"nope"}
        cs.append(["form %s %s" % (hx(b), " ".join(hx(k) for k in sorted(ks)))])
    for _ in range(60 if c.quick else 600):           # bytes that should have been encoded, NUL among them
        b, keys = form_body(c.rng)
        b = bytearray(b)
        for _ in range(c.rng.choice([1, 1, 2])):
            b.insert(c.rng.randrange(len(b) + 1), c.rng.choice([0, 0, 0, 1, 10, 255, 37]))
        cs.append(["form %s %s" % (hx(bytes(b)), " ".join(hx(k) for k in sorted(set(keys) | {b"nope"})))])
    # many fields
    for n in (30, 64, 65, 100, 128, 129, 256, 257, 400) if c.quick else (30, 64, 65, 100, 128, 129, 256, 257, 400, 700, 1100):
        ks = [b"f%d" % i for i in range(n)]
        cs.append(["form %s %s" % (hx(b"&".join(k + b"=" + b"v" + k for k in ks)), " ".join(hx(k) for k in ks))])
    r = c.rng
    for n in SIZES + (20000,):
        v, nm = rb(r, n, r.choice([None, b"abc"])).replace(b"\0", b"0"), b"x" + rb(r, n - 1, b"abc-_9 ")
        ks = [b"a", b"z", b"last", b"nope"] + ([nm, nm[:-1], nm + b"x"] if n < 5000 else [nm])
        t = b"a=" + pct(r, v) + b"&" + pct(r, nm) + b"=one&" + pct(r, nm) + b"x=two&z=" + pct(r, v[::-1]) + b"e&last=3"
        cs.append(["form %s %s" % (hx(t), " ".join(hx(k) for k in ks))])
    for n in (40, 128, 257):            # one field set again and again, among others
        t = b"&".join(b"k=%d&o%d=%d" % (k, k % 5, k) for k in range(n))
        cs.append(["form %s %s" % (hx(t), " ".join(hx(k) for k in (b"k", b"o0", b"o4", b"o5")))])
    c.check_traces("TextTrace", cs, "forms: encoded random fields")
    import httpx as H
    H.forms_through_server(c)


# ------------------------------------------------------------------ small helpers
def C28(c):
    r, cs = c.rng, []
    for t in gen(c, "str", "StrToks", "StrMeaning", 5 if c.quick else 6):
        for needle in (b"", b"a", b"b", b"ab", b"baa"):
            cs.append(["strnstr %s %d %s %d" % (hx(t), term, hx(needle), l) for term in (1, 0) for l in range(len(t) + (2 if term else 1))]
                      + ["endswith %s %s" % (hx(t), hx(needle))])
    c.check_traces("TextTrace", cs[::2] if c.quick else cs, "search and suffix test: every small text")
    cs = []
    for _ in range(600 if c.quick else 6000):
        t = rb(r, r.choice([0, 1, 5, 20, 100, 700]), r.choice([b"ab", b"abc\r\n", None]))
        n = t[-r.randrange(1, 6):] if t and r.random() < .4 else rb(r, r.choice([1, 2, 3, 10, 60, 200]), b"ab")
        if r.random() < .3 and t:
            k = r.randrange(len(t))
            n = t[k:k + r.randrange(1, 5)]
        n = n.replace(b"\0", b"")
        # an unterminated haystack is only legal when len does not exceed it
        s = []
        for ln in {0, len(t), len(n), max(0, len(t) - 1), max(0, len(n) - 1), r.randrange(len(t) + 1)}:
            s.append("strnstr %s %d %s %d" % (hx(t), 0 if ln <= len(t) else 1, hx(n), ln))
        for ln in (len(t) + 1, len(t) + 100, 2147483648, 4294967296 + len(t)):
            s.append("strnstr %s 1 %s %d" % (hx(t), hx(n), ln))
        a, b = t.replace(b"\0", b"x"), n
        s += ["endswith %s %s" % (hx(a), hx(b)), "endswith %s %s" % (hx(a), hx(a)), "endswith %s %s" % (hx(a), hx(b"q" + a)),
              "endswith %s %s" % (hx(a), hx(a[-3:])), "endswith %s %s" % (hx(a), hx(a[1:]))]
        cs.append(s)
    long = rb(r, 300, b"abcd")
    cs.append(["endswith %s %s" % (hx(long), hx(x)) for x in (long, long[1:], b"z" + long[1:], long[:1] + b"z" + long[2:], long[-256:], b"z" + long[-255:], b"z" + long[-256:])])
    for size in (0, 1, 4095, 4096, 4097, 70000, 1 << 20, 1999999999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 5 << 30):
        for mt in (0, 1, 86400, 1234567890, 1999999999):
            cs.append(["finfo 0 %d %d" % (size, mt), "finfo 1 0 %d" % mt])
    for n in SIZES + (20000, 70000):
        t = rb(r, n, b"abcd")
        for nd in {t[-4:], b"q", t[n // 2:n // 2 + 300], t[1:], t, t + b"a", t[:-1] + b"q", t[-1:] + b"a"}:
            cs.append(["strnstr %s %d %s %d" % (hx(t), int(ln > n), hx(nd), ln) for ln in (n, n - 1, n + 1)])
        cs.append(["endswith %s %s" % (hx(t), hx(x)) for x in (t, t[1:], b"z" + t[1:], t[:1] + b"z" + t[2:], t[-256:], b"z" + t[-255:], b"q" + t, t[-n // 2:], t[:-1], t[:-1] + b"z")])
    c.check_traces("TextTrace", cs, "search, suffix test and file helpers: random inputs")


def C29(c):
    r = c.rng
    cs = [["fnv " + hx(bytes([a]))] for a in range(256)] + [["fnv ."]]
    for n in [2, 3, 7, 8, 9, 31, 64, 100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 2000, 5000, 20000, 65535, 65536, 70000] + [r.randrange(2, 400) for _ in range(15 if c.quick else 600)]:
        for pool in (None, b"abc", b"\x80\xff", b"\0")[:4 if n < 700 or not c.quick else 1]:
            cs.append(["fnv " + hx(rb(r, n, pool))])
    # values whose top byte or top digit is zero (printed without padding)
    from containers import fnv
    i = found = 0
    while found < (4 if c.quick else 12):
        k = b"%x" % i
        if fnv(k) >> (60 if found % 2 else 56) == 0:
            cs.append(["fnv " + hx(k)])
            found += 1
        i += 1
    c.check_traces("TextTrace", cs, "FNV-1a of byte strings of every length class")


def C30(c):
    cases = [["urldec " + hx(t)] for t in gen(c, "url", "UrlToks", "UrlMeaning", 4 if c.quick else 5)]
    c.check_traces("TextTrace", cases, "percent-decoding: every small text")
    cs = [["urldec %s" % hx(b"%%%02x" % a), "urldec %s" % hx(b"%%%02X" % a), "urldec " + hx(bytes([a]) if a else b"a")] for a in range(256)]
    cs += [["urldec " + hx(b"%" + bytes([a, b]))] for a in b"0/9:@AFG`afg+% \x80\xff" for b in b"0/9:@AFG`afg+% \x80\xff"]
    for _ in range(500 if c.quick else 5000):
        t = pct(c.rng, rb(c.rng, c.rng.choice([0, 1, 5, 30, 300]), c.rng.choice([None, b"ab %+", b"\xff\0"])))
        if c.rng.random() < .4:
            k = c.rng.randrange(len(t) + 1)
            t = t[:k] + c.rng.choice([b"%", b"%4", b"%g1", b"%1g", b"%-1", b"%+1", b"% 1", b"%x1", b"%0x"]) + t[k:]
        if c.rng.random() < .2:
            t += c.rng.choice([b"%", b"%a"])
        cs.append(["urldec " + hx(t.replace(b"\0", b"%00"))])
    for n in SIZES + (20000,):
        v = rb(c.rng, n, c.rng.choice([None, b"ab %+"])).replace(b"\0", b"0")
        t = pct(c.rng, v)
        cs.append(["urldec " + hx(x) for x in (t, rb(c.rng, n, b"abc"), b"%41" * (n // 3), b"a" * (n - 3) + b"%42", t + b"%4", b"+" * n)])
    c.check_traces("TextTrace", cs, "percent-decoding: encodings of random bytes, broken escapes")


def C31(c):
    r, cs = c.rng, []
    for lvl in range(6):
        for n in (0, 1, 5, 100, 700, 780, 796, 797, 798, 799, 800, 801, 802, 900, 1500, 5000):
            for kind in (0, 1, 2):
                m = rb(r, n, r.choice([b"abc", b"a%sd\x1b[", bytes(range(1, 256)), b"\n\r"]))
                cs.append(["log %d %d %s %d" % (lvl, kind, hx(m), r.choice([0, 1, -1, 2147483647, -2147483648]))])
        cs.append(["log %d 3 %s 0" % (lvl, hx(b"plain text %% done"))] if False else ["log %d 3 %s 0" % (lvl, hx(b"plain text"))])
        cs.append(["log %d %d %s %d" % (r.randrange(6), r.randrange(3), hx(rb(r, r.randrange(60), b"abc %")), r.randrange(99)) for _ in range(20)])
    c.check_traces("TextTrace", cs, "log lines of every level, length class and argument kind")
    ml = [["mlog %d %d %d" % (nt, n, sz)] for nt in (2, 4, 8) for n, sz in ((20, 30), (10, 500), (8, 820))]
    ml += [["mlog %d %d %d %d %d" % (nt, n, sz, r.randrange(1, 1 << 30), rate)] for nt in (2, 3, 4, 8) for n, sz in ((10, 30), (4, 500), (3, 820)) for rate in (2, 4, 8)]
    c.check_traces("TextTrace", ml * (2 if c.quick else 20), "log lines of concurrent callers", secs=20)
