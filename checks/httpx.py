"""C06, C08-C12, C16: exchanges between one client and the server code (no threads), and files."""
import json
from lib import Check, hx, mccfg

ANY = ["rep", ["any"], 0, -1]


# ------------------------------------------------------------------ building blocks
def jast(a):
    return json.dumps(a, separators=(",", ":"))


def ere(a, top=True):
    """A syntax tree as a POSIX extended regular expression."""
    k = a[0]
    if k == "lit":
        ch = chr(a[1])
        return "\\" + ch if ch in ".[]()*+?{}|^$\\" else ch
    if k == "any":
        return "."
    if k == "set":
        return "[" + ("^" if a[2] else "") + "".join(chr(x) for x in a[1]) + "]"
    if k == "bol":
        return "^"
    if k == "eol":
        return "$"
    if k == "grp":
        return "(" + ere(a[2]) + ")"
    if k == "cat":
        return "".join(ere(x, False) for x in a[1])
    if k == "alt":
        assert top
        return "|".join(ere(x, False) for x in a[1])
    if k == "rep":
        op = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((a[2], a[3])) or ("{%d,%s}" % (a[2], "" if a[3] < 0 else a[3]))
        return ere(a[1], False) + op
    raise ValueError(k)


def groups(a):
    if isinstance(a, list) and a and a[0] == "grp":
        return 1 + groups(a[2])
    return sum(groups(x) for x in a if isinstance(x, list)) if isinstance(a, list) else 0


def route(slot, verb, ast, nexp=0, clean=0):
    return "route %d %s %s %d %d %s" % (slot, hx(verb), hx(ere(ast)), nexp, clean, jast(ast))


def resp(slot, kind, code, mime=b"", body=b"", clean=0, hdrs=()):
    b = body if kind in ("mmap", "render") else hx(body)
    return "resp %d %s %d %s %s %d %s" % (slot, kind, code, hx(mime), b, clean, ",".join(hx(k) + ":" + hx(v) for k, v in hdrs) or "-")


def request(verb=b"GET", res=b"/", headers=(), body=None, version=b"HTTP/1.1"):
    h = verb + b" " + res + b" " + version + b"\r\n" + b"".join(k + b": " + v + b"\r\n" for k, v in headers)
    if body is not None:
        h += b"Content-Length: %d\r\n" % len(body)
    return h + b"\r\n" + (body or b"")


def cut(r, b, k=None):
    """Random segmentation."""
    if not b:
        return []
    k = k if k is not None else r.choice([0, 0, 1, 1, 2, 3, 6])
    at = sorted({r.randrange(1, len(b)) for _ in range(min(k, 40))}) if len(b) > 1 else []
    at = [0] + at + [len(b)]
    return [b[x:y] for x, y in zip(at, at[1:])]


def xchg(segs, end="open", caps="*"):
    return "xchg %s %s %s" % (end, caps, " ".join(hx(s) for s in segs))


def rb(r, n, pool=None):
    return bytes(r.choice(pool) for _ in range(n)) if pool else r.randbytes(n)


HDR_POOL = [(b"Host", b"x"), (b"User-Agent", b"ua/1.0 (x; y)"), (b"X-Real-IP", b"10.0.0.1"), (b"Accept", b"*/*"), (b"Cookie", b"a=1; b=2"),
            (b"X-Content-Length", b"7"), (b"X-Range", b"bytes=0-1"), (b"Referer", b"http://x/?Content-Length: 9"), (b"X-Empty", b""), (b"x-long", b"v" * 700)]


def some_headers(r, k=4):
    return [r.choice(HDR_POOL) for _ in range(r.randrange(k))]


# ------------------------------------------------------------------ C14: forms through the whole exchange
def forms_through_server(c):
    import text
    r, cs = c.rng, []
    for _ in range(60 if c.quick else 800):
        b, keys = text.form_body(r)
        ks = sorted(set(keys) | {b"nope"})[:15]
        ct = r.choice([b"application/x-www-form-urlencoded", b"application/x-www-form-urlencoded; charset=utf-8"])
        rq = request(b"POST", b"/f", [(r.choice([b"Content-Type", b"content-type"]), ct)] + some_headers(r), b)
        cs.append(["fkeys " + " ".join(hx(k) for k in ks), resp(0, "raw", 200, b"", b"ok"), route(0, b"POST", ANY), xchg(cut(r, rq), r.choice(["open", "eof"]))])
    c.check_traces("HttpTrace", cs, "forms submitted to the server")


# ------------------------------------------------------------------ C08
def C08(c):
    r = c.rng
    c.mc("ReadLoop", mccfg("ServesOnlyWhole DropsOnlyWithCause", "Decides", Heads="{1, 2, 4}", Bodies="{0, 1, 3, 4}", Extra="{0, 1, 2}", Buf=2 if c.quick else 3,
                           Max=6, Mode='"complete"'), "reading a request, any network segmentation")
    # the parsers called directly on every small text
    import text
    ts = text.gen(c, "req", "ReqToks", "ReqMeaning", 7 if c.quick else 9)
    if c.quick:
        ts = r.sample(ts, min(len(ts), 6000))
    cs = [["preq %s %d" % (hx(t), r.choice([0, 1, 2, 3])) for t in ts[k:k + 20]] for k in range(0, len(ts), 20)]
    ts = text.gen(c, "head", "HeadToks", "HeadMeaning", 6 if c.quick else 8)
    cs += [["preq %s %d" % (hx(t), r.choice([0, 1, 2])) for t in ts[k:k + 20]] for k in range(0, len(ts), 20)]
    long = []
    for v in (1, 7, 14, 15, 16, 17, 40):
        for n in (1, 2, 127, 128, 510, 511, 512, 513, 600):
            t = request(b"V" * v, b"/" + b"p" * (n - 1), [(b"Host", b"h")], rb(r, 5))
            long += ["preq %s %d" % (hx(t), k) for k in (0, 3, 5)]
    c.check_traces("HttpTrace", cs + [long], "request parsing: small texts and limits")
    # every cut of one request, every way to end
    base = [b"PUT /ab H\r\nContent-Length: 4\r\n\r\n\r\n\0x", b"GET / H\r\nA: b\r\n\r\n"]
    cs = []
    setup = [resp(0, "raw", 200, b"", b"ok"), route(0, b"PUT", ANY), route(1, b"GET", ANY), resp(1, "raw", 200, b"", b"ok2")]
    for b in base:
        g = c.generate("HttpGen", mccfg("Emit", init="GInit", next="GNext", Kind='"cut"', MaxN=len(b)), "HttpGen cuts of a request")
        g = r.sample(g, 2500) if c.quick else r.sample(g, min(len(g), 40000))
        x = []
        for tot, a1, a2, sent, e in g:
            segs = [s for s in (b[:min(a1, sent)], b[min(a1, sent):min(a2, sent)], b[min(a2, sent):sent]) if s]
            x.append(xchg(segs, e))
        cs += [setup + x[k:k + 25] for k in range(0, len(x), 25)]
    # heads with single carriage returns and line feeds, through the whole exchange
    ts = [t for t in ts if t.find(b"\r\n\r\n") > 0 and b"\0" not in t and (b"\n" in t[7:-4].replace(b"\r\n", b"") or b"\r" in t[7:-4].replace(b"\r\n", b""))]
    ts = r.sample(ts, min(len(ts), 250))
    setup = [resp(0, "raw", 200, b"", b"ok"), route(0, b"G", ANY)]
    for k in range(0, len(ts), 25):
        x = []
        for t in ts[k:k + 25]:
            b = rb(r, r.choice([0, 1, 9]))
            t = t[:7] + b"Content-Length: %d\r\n" % len(b) + t[7:]
            x.append(xchg(cut(r, t + b if t.endswith(b"\r\n\r\n") else t), r.choice(["open", "eof"])))
        cs.append(setup + x)
    c.check_traces("HttpTrace", cs, "every cut and every end of a small request")
    # realistic requests: sizes around the buffer boundaries, binary bodies, pipelined bytes, malformed heads
    cs = []
    sizes = [0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4096]
    for _ in range(250 if c.quick else 4000):
        hs = some_headers(r)
        total = r.choice([None, None, 1024, 2048, 3072, 4096, 1025, 2047])
        body = rb(r, r.choice(sizes + [r.randrange(3000)]), r.choice([None, None, b"\0", b"\r\n", b"\r\nContent-Length: 3\r\n\r\n"])) if r.random() < .75 else None
        if body is not None and r.random() < .2:
            hs.append((r.choice([b"X-Content-Length", b"Content-Length-X"]), b"3"))
        verb = r.choice([b"GET", b"POST", b"PUT", b"DELETE", b"V" * 15, b"V" * 16, b"x"])
        res = b"/" + rb(r, r.choice([0, 3, 30, 127, 128, 129, 400, 510, 511, 512, 600]), b"abcdef/?&=%._-")
        t = request(verb, res, hs, body, r.choice([b"HTTP/1.1", b"HTTP/1.0", b"x"]))
        if total:      # pad a header so that head + body is exactly total bytes long
            pad = total - len(t) - len(b"X-Pad: \r\n")
            if pad >= 0:
                t = request(verb, res, hs + [(b"X-Pad", b"p" * pad)], body)
        k = r.random()
        if k < .1:
            t += rb(r, r.choice([1, 5, 1024]), r.choice([None, b"GET / HTTP/1.1\r\n\r\n"]))
        elif k < .2:
            t = t[:r.randrange(len(t))]
        elif k < .28:
            t = r.choice([t.replace(b" ", b"", 1), t.replace(b" ", b"", 2), t.replace(b"\r\n", b" \r\n", 1), b"\r\n" + t, b" " + t, t.replace(b" HTTP/1.1", b"", 1), rb(r, 40) + b"\r\n\r\n"])
        elif k < .33:
            i = r.randrange(t.find(b"\r\n\r\n") + 4)
            t = t[:i] + b"\0" * r.choice([1, 1, 5]) + t[i + r.randrange(2):]
        segs = cut(r, t) if r.random() < .7 else ([t[i:i + 1024] for i in range(0, len(t), 1024)] if r.random() < .7 else [t[i:i + 7] for i in range(0, min(len(t), 400), 7)] + ([t[399 - 399 % 7 + 0:]] if False else []))
        if b"".join(segs) != t:
            segs = cut(r, t, 5)
        vs = sorted({verb, b"GET", b"POST"})
        cs.append([resp(0, "raw", 200, b"", b"ok")] + [route(0, v, ANY) for v in vs if len(v) < 16] + [xchg(segs, r.choice(["open", "open", "eof", "err"]))])
    c.check_traces("HttpTrace", cs, "requests of all sizes and shapes through the server")
    big = []
    one = [resp(0, "raw", 200, b"", b"ok"), route(0, b"PUT", ANY)]
    for n in [8191, 8192, 16384, 32767, 32768, 65536 - 41, 70000, 131072] + ([] if c.quick else [300000, 524288, 1000000]):
        t = request(b"PUT", b"/big", some_headers(r), rb(r, n))
        big.append(one + [xchg(cut(r, t, 8), r.choice(["open", "eof"]))])
    for n in (20, 60, 150):                          # many headers, long headers: heads longer than one read
        t = request(b"PUT", b"/h", [(b"H%d" % k, b"v" * r.choice([1, 30, 200])) for k in range(n)], rb(r, 50))
        big.append(one + [xchg(cut(r, t, 4))])
    for n in (900, 1024, 2000, 3000, 8000, 30000):
        t = request(b"PUT", b"/h", [(b"Long", b"v" * n), (b"Host", b"h")], rb(r, 50))
        big.append(one + [xchg(cut(r, t, r.choice([0, 3])))])
    c.check_traces("HttpTrace", big, "large bodies and heads", secs=60)
    # the announced limit: 2 MiB altogether
    head = b"PUT /big HTTP/1.1\r\nContent-Length: %d\r\n\r\n"
    n = 2097152 - len(head % 2000000)
    big = []
    for d in (0, 1, -1) if not c.quick else (0,):
        t = head % (n + d) + b"\1" * (n + d)
        big.append(one + [xchg([t[:1900000], t[1900000:]])])
    c.check_traces("HttpTrace", big, "the largest body", secs=100, sample=False)


# ------------------------------------------------------------------ C09
def rand_ast(r, ng=2):
    state = {"g": 0}

    def atom(d):
        k = r.random()
        if k < .5:
            return ["lit", r.choice(b"ab/1.")]
        if k < .6:
            return ["any"]
        if k < .75:
            return ["set", sorted(r.sample(list(b"ab1/"), 2)), r.choice([0, 0, 1])]
        if d > 0 and state["g"] < ng:
            state["g"] += 1
            return ["grp", state["g"], r.choice([seq, alt])(d - 1)]
        return ["lit", r.choice(b"ab/")]

    def rep(d):
        a = atom(d)
        return ["rep", a] + r.choice([[0, -1], [1, -1], [0, 1], [1, 2]]) if r.random() < .35 and not groups(a) else a

    def seq(d):
        return ["cat", [rep(d) for _ in range(r.randrange(1, 4))]]

    def alt(d):
        return ["alt", [seq(d), seq(d)]]
    a = ["cat", ([["bol"]] if r.random() < .7 else []) + [["lit", 47]] * (r.random() < .6) + seq(2)[1] + ([["eol"]] if r.random() < .6 else [])]
    return a


def route_cases(c, which, count):
    """Cases from TLC's enumeration of route tables: (script) lists."""
    r = c.rng
    g = c.generate("HttpGen", mccfg("Emit RouteMeaning", init="GInit", next="GNext", Kind='"route"', MaxN=2), "HttpGen route tables")
    g = [x for x in g if which(x)]
    if count and len(g) > count:
        g = r.sample(g, count)
    out = []
    for x in g:
        how = {"ok": ("raw", 200, b"page"), "decline": ("none", 404, b""), "empty": ("raw", 404, b""), "own": ("raw", 404, b"own 404")}[x["how"]]
        lines = ["notfound " + x["nf"]] if x["nf"] else []
        lines.append(resp(12, *r.choice([("raw", 404, b"", b"custom page", 4), ("heap", 404, b"text/plain", b"custom heap", 2), ("raw", 200, b"", b"soft 404", 4),
                                        ("none", 404, b"", b"", 4)])))
        for k, rt in enumerate(x["routes"]):
            kind, code, body = how
            if how[0] == "raw" and code == 200:
                body = b"page%d" % k
            lines += [route(k, bytes(rt["verb"]), rt["ast"], r.randrange(groups(rt["ast"]) + 1) if r.random() < .8 else 3, 1),
                      resp(k, kind, code, b"", body, 4)]
        for v in (b"GET", b"POST"):
            for res in x["res"]:
                lines.append(xchg([request(v, bytes(res))]))
        out.append(lines)
    return out


def C09(c):
    r = c.rng
    cs = route_cases(c, lambda x: x["how"] in ("ok",) and x["nf"] in ("", "hc"), 120 if c.quick else 0)
    c.check_traces("HttpTrace", cs, "every table of at most two routes")
    cs = []
    for _ in range(150 if c.quick else 2500):
        n = r.randrange(1, 7)
        slots = r.sample(range(12), n)
        verbs = [b"GET", b"POST", b"PUT", b"GE", b"GETS", b"get", b"G" * 15]
        lines = []
        for s in slots:
            a = rand_ast(r)
            lines += [resp(s, "raw", 200, b"", b"slot%d" % s, 4), route(s, r.choice(verbs[:r.choice([1, 2, 7])]), a, r.choice([0, groups(a), groups(a), 3]), r.randrange(2))]
        if r.random() < .5:
            lines += ["notfound hc", resp(12, "raw", 404, b"", b"nf", 4)]
        for _ in range(8):
            res = (b"/" if r.random() < .8 else b"") + rb(r, r.choice([0, 1, 2, 3, 5, 8]), b"ab1/.")
            if r.random() < .1:
                res += b"?a=b"
            if res:
                lines.append(xchg([request(r.choice(verbs[:r.choice([1, 2, 7])]), res)]))
        cs.append(lines)
    c.check_traces("HttpTrace", cs, "random route tables and captures")
    # long tables: the route that matches stands anywhere, and another one that would match later
    cs = []
    for n in [8, 16, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300][::1 if not c.quick else 2] + [r.randrange(5, 300) for _ in range(4 if c.quick else 40)]:
        at = {0, n - 1, n // 2, r.randrange(n)}
        lines = [resp(s, "raw", 200, b"", b"slot%d" % s, 4) for s in range(12)]
        for k in range(n):
            w = b"/r%d" % k
            lines.append(route(k % 12, b"GET" if k % 3 or k in at else b"POST", ["cat", [["bol"]] + [["lit", x] for x in w] + ([["eol"]] if k % 2 else [])]))
        lines += [xchg([request(b"GET", b"/r%d" % k)]) for k in sorted(at)] + [xchg([request(b"GET", b"/r%d" % (n + 1000))])]
        cs.append(lines)
    c.check_traces("HttpTrace", cs, "long route tables")


# ------------------------------------------------------------------ C10
def C10(c):
    r = c.rng
    cs = route_cases(c, lambda x: len(x["routes"]) <= 1, 160 if c.quick else 0)
    c.check_traces("HttpTrace", cs, "routed, declined and unrouted requests with every not-found configuration")
    cs = []
    for _ in range(200 if c.quick else 3000):
        lines = []
        if r.random() < .7:
            lines.append("notfound " + r.choice(["h", "c", "hc", "ch", "hch", "chc"]))
        nf = r.choice([("raw", 404, 0), ("heap", 404, 2), ("heap", 200, 1), ("raw", 200, 4), ("raw", 403, 4), ("none", 404, 4), ("raw", 302, 4), ("raw", 500, 4)])
        lines.append(resp(12, nf[0], nf[1], r.choice([b"", b"text/plain"]), rb(r, r.choice([0, 1, 50, 5000])) if nf[0] != "none" else b"", nf[2],
                          [(b"X-Nf", b"1")] if r.random() < .3 else []))
        for s in range(3):
            k = r.choice([("raw", 404, b"", 4), ("none", 404, b"", 4), ("raw", 404, b"mine", 4), ("heap", 404, b"mine heap", 2), ("raw", 200, b"", 4), ("raw", 403, b"", 4), ("none", 200, b"", 4), ("none", 500, b"", 4)])
            lines += [resp(s, k[0], k[1], r.choice([b"", b"text/css"]), k[2], k[3], [(b"X-R", b"%d" % s)] if r.random() < .3 else []),
                      route(s, b"GET", ["cat", [["bol"], ["lit", 47], ["lit", 97 + s]]], 0, r.randrange(2) if k[0] != "heap" else 1)]
        for p in (b"/a", b"/b", b"/c", b"/d", b"/"):
            lines.append(xchg([request(r.choice([b"GET", b"GET", b"POST"]), p, some_headers(r, 2))]))
        cs.append(lines)
    c.check_traces("HttpTrace", cs, "not-found pages: random handlers")


# ------------------------------------------------------------------ C11
TOKEN = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!#$%&'*+.^`|~"


def rand_hdrs(r):
    n = r.choice([0, 0, 1, 2, 3, 5, 9, 20])
    out = []
    for _ in range(n):
        k = r.choice([b"Location", b"Set-Cookie", b"Cache-Control", b"X-A", b"x-a", b"ETag", rb(r, r.choice([1, 5, 20, 64, 200]), TOKEN)])
        v = rb(r, r.choice([1, 3, 10, 60, 300, 1000, 3000] if n < 6 else [1, 10, 200]), bytes(range(33, 127)))
        out.append((k, r.choice([v, v, b"a=1; Path=/", b"100%s%n%d", b"/x y"])))
    return out


def response_case(r, ranges=None, sizes=None):
    kind, clean = r.choice([("raw", 0), ("raw", 4), ("heap", 1), ("heap", 2), ("mmap", 3), ("raw", 4)])
    code = r.choice([200, 200, 200, 301, 302, 400, 403, 404, 500, 206])
    if not 200 <= code < 400 and kind == "heap":
        clean = 2
    if kind == "mmap":
        code = r.choice([200, 200, 206, 301])
    body = rb(r, r.choice(sizes or [0, 1, 10, 100, 1000, 4095, 4096, 4097, 8192, 9000]), r.choice([None, None, b"\0", b"\r\n", b"HTTP/1.1 200 OK\r\n\r\n"]))
    if code == 404 and not body:
        body = b"x"
    lines = []
    mime = r.choice([b"", b"", b"text/plain", b"application/json", b"x/" + b"y" * 29, b"image/svg+xml"])
    hd = rand_hdrs(r)
    if kind == "mmap":
        path = r.choice(["f.txt", "d.x", "noext", "g.HTML", "./a.b/c"])
        path = path.replace("/", "_") if path.startswith("./") else path
        lines.append("mkfile %s %s" % (path, hx(body)))
        lines.append(resp(0, "mmap", code, mime, path, clean, hd))
    else:
        lines.append(resp(0, kind, code, mime, body, clean, hd))
    lines.append(route(0, b"GET", ANY, 0, 1 if clean else 0))
    return lines, body, code


def C11(c):
    r, cs = c.rng, []
    for _ in range(260 if c.quick else 4000):
        lines, body, code = response_case(r)
        for _ in range(2):
            rq = request(b"GET", b"/x", some_headers(r))
            lines.append(xchg(cut(r, rq, 0), r.choice(["open", "eof"]), r.choice(["*", "*", "4096", "1,*", "100,4095,1,*", "4095,*", "37," * 20 + "*"])))
        if r.random() < .2:
            lines.append(xchg([request(b"POST", b"/none")]))
        cs.append(lines)
    c.check_traces("HttpTrace", cs, "responses of every status, body and header set")
    cs = []
    for code in (200, 206, 301, 302, 400, 403, 404, 500):
        for n in (0, 1, 2, 4096):
            for nh in (0, 1, 4, 5, 8, 9) + ((33, 120) if n == 1 else ()):
                if code == 404 and n == 0:
                    continue
                cs.append([resp(0, "raw", code, b"", rb(r, n), 0, [(b"H%d" % i, b"v%d" % i) for i in range(nh)]), route(0, b"GET", ANY), xchg([request()])])
    for n in (128, 900, 1000, 1023, 1024, 1025, 4096, 20000):
        cs.append([resp(0, "raw", 200, b"", b"b", 0, [(b"Big", b"v" * n)]), route(0, b"GET", ANY), xchg([request()])])
        cs.append([resp(0, "raw", 200, b"", b"b", 0, [(b"N" * n, b"v")]), route(0, b"GET", ANY), xchg([request()])])
    for n in [16383, 16384, 32768, 65535, 65536, 70000, 131073, 262144] + ([] if c.quick else [300000, 1000000]):
        cs.append([resp(0, "heap", 200, b"", rb(r, n), 1), route(0, b"GET", ANY, 0, 1), xchg([request()])])
    c.check_traces("HttpTrace", cs, "responses: every status with small bodies, header counts and sizes", secs=30)


# ------------------------------------------------------------------ C12
def C12(c):
    r = c.rng
    g = c.generate("HttpGen", mccfg("Emit RangeMeaning", init="GInit", next="GNext", Kind='"range"', MaxN=4 if c.quick else 5), "HttpGen range values")
    vals = sorted({bytes(x) for x in g})
    pre = [v for v in vals if v.startswith(b"bytes=")]
    oth = [v for v in vals if not v.startswith(b"bytes=")]
    oth = r.sample(oth, min(len(oth), 100 if c.quick else 1000))
    extra = [b"bytes=" + v for v in vals if b"=" not in v and len(v) == len(v.strip()) and v]
    extra = r.sample(extra, min(len(extra), 500 if c.quick else 20000))
    vals = [v for v in pre + oth + extra if not v.startswith(b" ")]
    cs = []
    for k in range(0, len(vals), 12):
        n = r.choice([0, 1, 4, 5, 40, 100])
        lines = [resp(0, *r.choice([("raw", 200), ("heap", 200)]), b"a/b", rb(r, n), 1, [(b"X-K", b"v")])]
        if " raw " in lines[0]:
            lines = [resp(0, "raw", 200, b"a/b", rb(r, n), 4, [(b"X-K", b"v")])]
        lines.append(route(0, b"GET", ANY, 0, 1))
        cs.append(lines + [xchg([request(b"GET", b"/", [(b"Range", v)])]) for v in vals[k:k + 12]])
    c.check_traces("HttpTrace", cs, "every small Range value")
    cs = []
    for _ in range(250 if c.quick else 4000):
        lines, body, code = response_case(r, sizes=[0, 1, 2, 10, 99, 100, 101, 4096, 5000])
        n = len(body)
        for _ in range(4):
            pt = lambda: r.choice([0, 1, n - 1, n, n + 1, n // 2, r.randrange(n + 2), 10 * n, 999999999, 4294967295, 4294967296, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 1, 10**30])
            a, b = max(0, pt()), max(0, pt())
            if r.random() < .5 and n:
                a = r.randrange(n)
                b = r.choice([a, n - 1, n, a + 1, r.randrange(a, n)])
            v = r.choice([b"bytes=%d-%d" % (a, b)] * 6 + [b"bytes=%d-" % a] * 3 + [b"bytes=-%d" % b, b"bytes=%d" % a, b"bytes=%d-%d,%d-" % (a, b, a), b"bytes %d-%d" % (a, b), b"Bytes=%d-%d" % (a, b),
                         b"bytes=%d-%d " % (a, b), b"bytes= %d-%d" % (a, b), b"bytes=%d -%d" % (a, b), b"bytes=+%d-%d" % (a, b), b"bytes=0x%x-%d" % (a, b), b"bytes=%05d-%012d" % (a, b), b"", b"items=0-5", b"bytes=--1", b"bytes=%d--%d" % (a, b)])
            hs = some_headers(r, 2) + [(r.choice([b"Range", b"range", b"RANGE", b"X-Range"]), v)] + ([(b"Range", b"bytes=0-0")] if r.random() < .15 else [])
            lines.append(xchg([request(b"GET", b"/x", hs)], "open", r.choice(["*", "4096", "10,*"])))
        cs.append(lines)
    c.check_traces("HttpTrace", cs, "ranges on random responses")
    cs = []
    for n in (1, 10, 100):                           # both ends around every limit there is
        edge = [0, 1, n - 1, n, n + 1] + [2 ** k + d for k in (31, 32, 33, 63, 64) for d in (-1, 0, 1, n - 1)] + [10 ** k for k in (9, 10, 17, 18, 19, 30)]
        vs = []
        for a in sorted({0, 1, n // 2, n - 1}) + [n, 2 ** 32, 2 ** 32 + n // 2, 2 ** 64, 2 ** 64 + n // 2]:
            vs += [b"bytes=%d-" % a] + [b"bytes=%d-%d" % (a, b) for b in (edge if a < n else r.sample(edge, 6))]
        vs += [b"bytes=%s%d-%s%d" % (b"0" * z, n // 2, b"0" * (20 - z), n) for z in (0, 1, 5, 20)]
        vals += vs
        for k in range(0, len(vs), 12):
            cs.append([resp(0, "raw", 200, b"a/b", rb(r, n), 4), route(0, b"GET", ANY, 0, 1)] + [xchg([request(b"GET", b"/", [(b"Range", v)])]) for v in vs[k:k + 12]])
    c.check_traces("HttpTrace", cs, "ranges whose ends are around the limits of the number types")
    cs = [["range " + hx(v) for v in vals[k:k + 40]] for k in range(0, len(vals), 40)]
    c.check_traces("HttpTrace", cs, "range parser called directly")


# ------------------------------------------------------------------ C06
def exchanges(c, count, sizes=None):
    """Exchanges of every outcome: used by the properties about clean-up, closing and leaks."""
    r, cs = c.rng, []
    for _ in range(count):
        lines, body, code = response_case(r, sizes=sizes or [0, 1, 100, 4096, 9000])
        if r.random() < .4:
            lines += ["notfound " + r.choice(["h", "hc", "ch", "c"]), resp(12, *r.choice([("raw", 404, b"", b"nf", 4), ("heap", 404, b"", b"nf heap", 2), ("none", 404, b"", b"", 4)]))]
            if "heap" in lines[-1] and "c" not in lines[-2]:
                lines[-1] = resp(12, "raw", 404, b"", b"nf", 4)
        lines += [resp(1, "none", 404, b"", b"", 4, rand_hdrs(r)[:2]), route(1, b"PUT", ANY, 0, r.randrange(2)),
                  resp(2, "mmap", 200, b"", r.choice(["missing.txt", "."]), 3), route(2, b"HEAD", ANY, 0, 1)]
        for _ in range(r.randrange(2, 5)):
            k = r.random()
            caps = r.choice(["*", "*", "e", "r", "1,e", "10,*", "4096,e", "4096,1,r", "100,100,e", "*", "0", "5,0"])
            end = "open"
            if k < .5:
                hs = some_headers(r, 3)
                if r.random() < .3:
                    hs.append((b"Range", r.choice([b"bytes=0-", b"bytes=0-0", b"bytes=5-9999", b"nonsense"])))
                t = request(b"GET", b"/x", hs)
            elif k < .65:
                t = request(b"GET", b"/form", [(b"Content-Type", b"application/x-www-form-urlencoded")], r.choice([b"a=1&b=2&a=3", b"", b"a=%zz&b=%41", b"&&=&", b"x" * 3000 + b"=1", b"&".join(b"k%d=v" % i for i in range(60))]))
            elif k < .75:
                t = request(r.choice([b"PUT", b"HEAD", b"NONE"]), b"/y", some_headers(r))
            elif k < .85:
                t = r.choice([b"garbage\r\n\r\n", b"\r\n\r\n", b"GET /" + b"x" * 600 + b" HTTP/1.1\r\n\r\n", b"GET \r\n\r\n", rb(r, 100) + b"\r\n\r\n"])
            else:
                t = request(b"GET", b"/x", [], rb(r, 2000))
                t, end = t[:r.randrange(len(t))], r.choice(["eof", "err"])
            lines.append(xchg(cut(r, t), end, caps))
        cs.append(lines)
    return cs


def C06(c):
    cs = exchanges(c, 350 if c.quick else 6000)
    c.check_traces("HttpTrace", cs, "resources held after exchanges of every outcome")
    # templates and files
    r, cs = c.rng, []
    for _ in range(40 if c.quick else 400):
        lines = ["mkfile %s %s" % ("t.html", hx(r.choice([b"", b"hello xXx @a xXx\n", b"xXx LOOP i l xXx [xXx @i xXx] xXx BBL xXx\n", b"x" * 9000])))]
        lines += ["defer", "ctx 0", "addstr 0 61 %s" % hx(b"v" * 30), "addarr 0 6c 0", "astr 0 31", "astr 0 32"]
        lines += [resp(0, "render", r.choice([200, 302]), r.choice([b"", b"a/b"]), r.choice(["t.html", "t.html", "missing.html"]), 1), route(0, b"GET", ANY, 0, 1)]
        lines += [xchg([request(b"GET", b"/", [(b"Range", b"bytes=1-3")] if r.random() < .3 else [])], "open", r.choice(["*", "e", "10,e"])) for _ in range(3)]
        cs.append(lines)
    c.check_traces("HttpTrace", cs, "resources held after rendered pages")


# ------------------------------------------------------------------ C16
def C16(c):
    r, cs = c.rng, []
    exts = ["css", "jpg", "txt", "html", "svg", "ico", "webm", "gif", "json", "js", "png", "htm", "cs", "jpeg", "j", "jsonx", "xjs", "", "a" * 40]
    names = []
    for e in exts:
        for f in ("a.%s", "A.B.%s", ".%s", "%s", "d.css/%s", "d.css/x.%s", "d.css/.%s", "d.e.f/n.%s"):
            for t in (str, str.upper, str.title):
                names.append(f % t(e) if f.count("%s") else f)
    names = sorted({n for n in names if n.split("/")[-1] not in ("", ".", "..")})
    if c.quick:
        names = names[::2] + names[1::6]
    lines0 = ["mkdir d.css", "mkdir d.e.f"]
    for k in range(0, len(names), 8):
        lines = list(lines0)
        for n in names[k:k + 8]:
            b = rb(r, r.choice([0, 1, 10, 100]))
            lines += ["mkfile %s %s" % (n, hx(b)), "static %s ." % n, "static ./%s %s" % (n, hx(r.choice([b"x/y", b"z" * 31])))] if False else \
                     ["mkfile %s %s" % (n, hx(b)), "static %s ." % n, "static %s %s" % (n, hx(r.choice([b"x/y", b"z" * 31])))]
            lines += ["rmfile " + n, "static %s ." % n]
        cs.append(lines)
    for n in [0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 32768, 65535, 65536, 65537, 131072, (1 << 18) + 1] + ([] if c.quick else [400001, 1 << 20, 1048577]):
        cs.append(["mkfile big.txt " + hx(rb(r, n)), "static big.txt .", "mkfile big.txt " + hx(rb(r, n // 2)), "static big.txt .",
                   resp(0, "mmap", 200, b"", "big.txt", 3), route(0, b"GET", ANY, 0, 1), xchg([request()], "open", "*"), "rmfile big.txt", "static big.txt .", xchg([request()], "open", "*")])
    cs.append(["mkfifo pipe.css", "static pipe.css .", resp(0, "mmap", 200, b"", "pipe.css", 3), route(0, b"GET", ANY, 0, 1), xchg([request()], "open", "*")])
    cs.append(["mksock sock.css", "static sock.css .", resp(0, "mmap", 200, b"", "sock.css", 3), route(0, b"GET", ANY, 0, 1), xchg([request()], "open", "*")])
    cs.append(["mkdir dir", "static dir .", "static dir/ .", "static . .", "static missing/x.txt .", "static dir/none.css .", "static /dev/null .", "static %s ." % ("n" * 300)])
    c.check_traces("HttpTrace", cs, "files of every size and name", secs=30)
    for _ in range(25 if c.quick else 300):           # judged by parallel_pass
        some, lines = r.sample([n for n in names if "/" not in n], 6), ["mkfifo pipe.css"]
        lines += ["mkfile %s %s" % (n, hx(rb(r, r.choice([0, 1, 100, 4096, 5000])))) for n in some]
        for k, n in enumerate(some[:4]):
            lines += [resp(k, "mmap", 200, b"", n, 3), route(k, b"GET", ["cat", [["bol"], ["lit", 47], ["lit", 48 + k], ["eol"]]], 0, 1)]
        lines += ["static %s ." % n for n in some + ["none.css", "pipe.css"]]
        lines += [xchg([request(b"GET", b"/%d" % k)], "open", "*") for k in range(5)]
        c.pool.setdefault(("HttpTrace", ""), []).append(lines)
