"""C17-C24: the template engine and pages rendered with it."""
from lib import Check, hx, mccfg

FILTERS = {"up": 0, "k": 1, "rev": 2, "wrap": 3, "none": 4, "twice": 5}
WORDS = ["a", "<b>", "</b>", "some text", "&amp;", "100%", "\\1", "x", "X.", "xX.", "@", "{{ }}", "\xe9\xff", "--", "'", '"', "\t", "  "]
# text that looks like markup but is none, each for a line of its own
NEAR = ["xXx @nosuch", "xXx @no-such xXx", "xXx LOOP i", "xXx LOOP i 7 xXx", "xXx BBL", "xXx BBL xX", "xxX @a xXx", "xXx@a xXx", "xXx @a  xXx", "xXx  @a xXx", "xXx @a.b.c xXx",
        "xXx @ xXx", "xXx @.b xXx", "XxX", "XxX alone", "XxX a-b XxX", "xXx UNLESS x xXx", "xXx UNLESS NOT x xXx", "xXx SCREAM", "text xXx SCREAM nofile xXx", "xXx SCREAM no file xXx", "xXx", "xXx xXx", "@a", "xXx @a. xXx"]
VALUES = ["", "FALSE", "FALSEish", "TRUE", "false", "0", "a b", " lead", "trail ", "<b>&</b>", "\\1\\2", "%s%n%d", "l1\nl2", "\xe9\xff\x80", "xXx", "@a", "xXx @a xXx", "xXx LOOP i l xXx", "xXx BBL xXx", "V", "12345", "xXx ENDLESS xXx"]
NAMES = ["a", "ab", "abc", "a_b", "A", "x", "xx", "title", "title_x", "name", "names", "_", "n_", "long_name_of_exactly_thirty_one_"[:31]]
FNAMES = ["u", "up", "upper", "sha1", "sha", "sha256", "F", "f_", "_", "9", "2x", "x2", "a", "title", "return_z", "Z" * 31]
VARNAMES = NAMES + ["a1", "a12", "1", "1a", "x_1", "0"]


class Ctx:
    """Builds a random context and knows what may be referred to."""

    def __init__(self, r, rich=True, binding=False):
        self.r, self.lines, self.nid, self.narr = r, [], 0, 0
        self.files = 0
        self.pre = []
        self.root, self.strs, self.arrs, self.subs = self.new(), [], [], {}
        self.filters = []
        adds = []
        pool = r.sample(VARNAMES, r.randrange(3, 9))
        taken = set()
        for n in pool:
            k = r.random()
            if k < .62 or not rich:
                adds.append(("s", n))
            elif k < .82 and n in NAMES:
                adds.append(("a", n))
            else:
                adds.append(("c", n))
        for n in list(pool):
            if r.random() < .2:
                adds.append(("dup", n))
        fl = [(n, k) for n, k in FILTERS.items() if r.random() < .8] or [("up", 0)]
        if binding:                       # values and filters share one dictionary, and text has to stay text
            fl = [x for x in fl if x[1] != FILTERS["rev"]] or [("wrap", 3)]
        elif r.random() < .5:             # other names: digits, underscores, capitals, prefixes of each other, names of variables
            fl = list(zip(r.sample(FNAMES, len(fl)), [k for _, k in fl]))
        adds += [("f", x) for x in fl]
        if r.random() < .6:
            r.shuffle(adds)
        # a name added twice: what was added first wins, so kinds are decided by the first addition
        open_arrays = []
        first = {}
        for kind, n in adds:
            if kind == "f":
                self.lines.append("filt 0 %s %d" % (hx(n[0]), n[1]))
                self.filters.append(n[0])
                continue
            if kind == "dup":
                self.value(0, n)
                first.setdefault(n, "s")
                continue
            if n in first:
                continue
            first[n] = kind
            if kind == "s":
                self.value(0, n)
            elif kind == "a":
                a = self.narr
                self.narr += 1
                self.lines.append("addarr 0 %s %d" % (hx(n), a))
                members = None if r.random() < .6 else r.sample(NAMES + ["a1"], r.randrange(1, 4))
                self.arrs.append((n, members))
                open_arrays.append([a, members, r.choice([0, 1, 2, 3, 5])])
            else:
                mem = r.sample(VARNAMES, r.randrange(1, 4))
                self.subs[n] = mem
                self.lines.append("addsub 0 %s %d" % (hx(n), self.sub(mem)))
            for oa in open_arrays:            # arrays keep growing while other things are added
                while oa[2] and r.random() < .4:
                    self.element(oa)
        for oa in open_arrays:
            while oa[2]:
                self.element(oa)
        self.strs = [n for n, k in first.items() if k == "s"]

    def new(self):
        i = self.nid
        self.nid += 1
        self.lines.append("ctx %d" % i)
        return i

    def text(self):
        r = self.r
        k = r.random()
        if k < .85:
            return r.choice(VALUES)
        n = r.choice([3, 30, 200, 511, 512, 513, 700])
        return "".join(chr(r.choice([97, 98, 32, 46, 200])) for _ in range(n))

    def value(self, cid, n):
        if self.r.random() < .25:
            self.lines.append("addint %d %s %d" % (cid, hx(n), self.r.choice([0, 1, -1, 42, 2147483647, -2147483648, 1000000])))
        else:
            self.lines.append("addstr %d %s %s" % (cid, hx(n), hx(self.text())))

    def sub(self, members):
        i = self.new()
        ms = list(members)
        self.r.shuffle(ms)
        for m in ms + [m for m in ms if self.r.random() < .15]:
            self.value(i, m)
        return i

    def element(self, oa):
        a, members, _ = oa
        oa[2] -= 1
        if members is not None:
            self.lines.append("asub %d %d" % (a, self.sub(members)))
        elif self.r.random() < .3:
            self.lines.append("aint %d %d" % (a, self.r.choice([0, 7, -3, 123456])))
        else:
            self.lines.append("astr %d %s" % (a, hx(self.text())))


class Tmpl:
    """Random templates over a context: everything they refer to exists."""

    def __init__(self, ctx, blocks=True, filters=True, includes=True):
        self.c, self.r = ctx, ctx.r
        self.blocks, self.filters, self.includes = blocks, filters, includes
        self.incs = []

    def ref(self, scope):
        r = self.r
        strs = [n for n in self.c.strs if n not in scope] + [n for n, m in scope.items() if m is None]
        dots = [(n, m) for n, ms in self.c.subs.items() if n not in scope for m in ms] + [(n, m) for n, ms in scope.items() if ms for m in ms]
        if dots and (not strs or r.random() < .4):
            return "xXx @%s.%s xXx" % r.choice(dots)
        return "xXx @%s xXx" % r.choice(strs) if strs else "text"

    def piece(self, scope, filters=True):
        r = self.r
        k = r.random()
        if k < .45:
            return self.ref(scope)
        if k < .65 and self.filters and filters and self.c.filters:
            f = r.choice(self.c.filters)
            if r.random() < .35:
                return "XxX %s XxX" % f
            arg = "".join(self.ref(scope) if r.random() < .4 else r.choice(["a", "b c", "Z9", "", "<i>", "q  q"]) for _ in range(r.choice([1, 1, 2, 3])))
            return "XxX %s%s%s XxX" % (f, r.choice([" ", " ", "  ", "\t"]), arg)
        return r.choice(WORDS)

    def text_line(self, scope):
        r = self.r
        if r.random() < .08:
            return r.choice(NEAR) + "\n"
        s = "".join(self.piece(scope) + r.choice(["", "", " "]) for _ in range(r.choice([0, 1, 2, 3, 5])))
        return s + r.choice(["\n", "\n", "\n", "\r\n", "\r"])

    def block(self, scope, inside):
        r = self.r
        kinds = [k for k in ("loop", "unless") if k not in inside]
        if not kinds:
            return self.text_line(scope)
        kind = r.choice(kinds)
        ind = r.choice(["", "", "  ", "\t", "\n", "\n \n  "])
        if kind == "loop":
            arrs = [x for x in self.c.arrs if x[0] not in scope]
            if not arrs:
                return self.text_line(scope)
            n, members = r.choice(arrs)
            v = r.choice(["i", "x", "item", "a", "v_", "title", "k" * 31, n])
            sc = dict(scope)
            sc[v] = members
            head, end, inside2 = "xXx LOOP %s %s xXx" % (v, n), "xXx BBL xXx", inside | {"loop"}
        else:
            names = [n for n in self.c.strs + [x[0] for x in self.c.arrs] + list(self.c.subs) + list(scope) if not any(ch.isdigit() for ch in n)] + ["unset", "none_such"]
            n = r.choice(names)
            dots = [(a, m) for a, ms in self.c.subs.items() if a not in scope for m in ms] + [(a, m) for a, ms in scope.items() if ms for m in ms]
            dots = [(a, m) for a, m in dots if not any(ch.isdigit() for ch in a + m)]
            if dots and r.random() < .35:
                n = "%s.%s" % r.choice(dots)
            elif r.random() < .05:
                n = r.choice(["unset.x", "none.such.thing", (r.choice(dots)[0] if dots else "unset") + ".nosuch"])
            head, end, inside2, sc = "xXx UNLESS %s@%s xXx" % (r.choice(["", "NOT "]), n), "xXx ENDLESS xXx", inside | {"unless"}, scope
        k = r.random()
        if k < .1:
            body = ""
        elif k < .3:
            body = "".join(self.piece(sc) for _ in range(r.randrange(1, 4)))
        else:
            body = r.choice(["\n", "\n", " ", ""]) + self.lines(sc, inside2, r.choice([1, 1, 2, 3])) + r.choice(["", "", "\t", "  "])
        return ind + head + body + end + r.choice(["\n", "\n", "\n", "", " ", " tail\n"])

    def include(self, scope, inside):
        r = self.r
        self.c.files += 1
        k = self.c.files
        path = r.choice(["", "./", "d/", "d/e/"]) + r.choice(["inc", "_part", "x"]) + "".join("abcdefghij"[int(ch)] for ch in str(k)) + r.choice(["", ".html", ".t.x"])
        self.includes, was = (r.random() < .3) and self.includes, self.includes
        body = self.lines(scope, inside, r.choice([0, 1, 1, 2, 4]))
        self.includes = was
        if r.random() < .1:
            body = body + "".join(chr(97 + r.randrange(26)) if r.randrange(40) else "\n" for _ in range(r.choice([2040, 2047, 2048, 2049, 4096, 5000])))
        if body and r.random() < .3:
            body = body.rstrip("\n\r")
        self.incs.append("mkfile %s %s" % (path, hx(body)))
        return r.choice(["", "  ", "\t"]) + "xXx SCREAM %s xXx" % path + r.choice(["", "", " rest"]) + "\n"

    def lines(self, scope, inside, n):
        r, out = self.r, ""
        for _ in range(n):
            k = r.random()
            if self.blocks and k < .45:
                out += self.block(scope, inside)
            elif self.includes and k < .58:
                out += self.include(scope, inside)
            else:
                out += self.text_line(scope)
        return out

    def make(self, n=None):
        t = self.lines({}, frozenset(), n if n is not None else self.r.choice([0, 1, 2, 3, 4, 6, 9]))
        if self.r.random() < .5:
            t = t.rstrip("\n\r")
        return t


D0 = ["ctx 0", "ctx 1", "ctx 2", "ctx 3", "addstr 0 78 56", "addstr 0 7879 57", "addstr 0 66 " + hx("FALSE"), "addarr 0 6c 0", "addarr 0 6d 1",
      "addstr 1 61 51", "addsub 0 73 1", "addstr 2 6b 4b", "addstr 3 6b 4c", "astr 0 31", "aint 0 2", "asub 1 2", "asub 1 3", "filt 0 7570 0", "filt 0 6b 1", "mkfile inc 5a0a"]
PRE = ["tbase"]
DIRS = ["mkdir d", "mkdir d/e"]
M0 = "CONSTANT Mask = 0"


def enumerated(c, kind, toks, n, what, take=1):
    """Every small template of a kind: checked in the model, then rendered by the code."""
    g = c.generate("TmplGen", mccfg("Emit Meaning", init="GInit", next="GNext", Kind='"%s"' % kind, Toks="<- " + toks, MaxToks=n, Mask=0), "TmplGen " + kind)
    g = g[c.rng.randrange(take)::take]
    per = 100
    cs = [PRE + D0 + ["render 0 " + hx(bytes(t)) for t in g[k:k + per]] + ["tfree 0"] for k in range(0, len(g), per)]
    c.check_traces("TmplTrace", cs, what, M0)


def randoms(c, n, what, per=5, **kw):
    cs = []
    for _ in range(n):
        x = Ctx(c.rng)
        t = Tmpl(x, **kw)
        ts = [t.make() for _ in range(per)]
        ts += [c.rng.choice(ts)]
        cs.append(PRE + x.lines + DIRS + t.incs + ["render 0 " + hx(s) for s in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, what, M0)


def known(c):
    """Values that look like a filter call or an include are treated as such (known findings)."""
    from lib import known_findings
    for f in known_findings(c.prop):
        case = PRE + D0 + f["script"] + ["tfree 0"]
        pairs = c.run_cases([case])
        if c.validate("TmplTrace", pairs, M0, count=False):
            c.violation("known finding shows a different behaviour: " + f["what"], case, pairs[0][1], "TmplTrace", M0)
        elif c.validate("TmplTrace", pairs, "CONSTANT Mask = 1000", count=False):
            print("KNOWN-FINDING: property=%s %s" % (c.prop, f["what"]))


def ref(n):
    return "xXx @%s xXx" % n


MANY = (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
LONG = (100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000)


def filler(r, n, nl=False):
    return "".join("\n" if nl and k % 61 == 60 else r.choice("ab <>.") for k in range(n))


def C18(c):
    enumerated(c, "var", "VarToks", 4 if c.quick else 5, "variables: every small template")
    randoms(c, 260 if c.quick else 3000, "variables and text: random templates", blocks=False, includes=False)
    r, cs = c.rng, []
    for _ in range(60 if c.quick else 500):          # families of names that are prefixes of each other, many references on a line
        base = r.choice(["a", "img", "x1", "_", "n" * 20])
        names = [base + base[:k] for k in range(len(base))] + [base + "_date", base + "2", base + base, base.upper()]
        names = sorted({n[:31] for n in names})
        r.shuffle(names)
        lines = ["ctx 0", "ctx 1"] + ["addstr 0 %s %s" % (hx(n), hx("<%s>" % n)) for n in names] + ["addstr 0 %s %s" % (hx(n), hx("later")) for n in r.sample(names, 2)]
        lines += ["addstr 1 %s %s" % (hx(n), hx("[%s]" % n)) for n in names] + ["addsub 0 %s 1" % hx("sub" + base[:10])]
        ts = []
        for _ in range(6):
            ts.append("".join(r.choice([ref(r.choice(names)), ref("sub%s.%s" % (base[:10], r.choice(names)))]) + r.choice(["", " ", ".", "x", "@"]) for _ in range(r.choice([1, 2, 5, 20, 60]))) + r.choice(["", "\n", "\nlast"]))
        cs.append(PRE + lines + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "variables: overlapping names, many references", M0)
    cs = []
    for n in MANY:                                   # many references on a line, long values in them
        v = filler(r, r.choice([1, 100, 512]))
        ts = [ref("x") * n, "".join(ref("x") + "," + ref("s.a") for _ in range(n)), ref("lng") * min(n, 40) + ref("x"), "@x xXx " * n + ref("x") + "\n" + ref("x") * n]
        cs.append(PRE + D0 + ["addstr 0 6c6e67 " + hx(v)] + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    for n in LONG:                                   # long lines and texts
        a = filler(r, n)
        ts = [a + ref("x") + "z", ref("x") + a + ref("x"), filler(r, n, True) + ref("x") + "\n" + a, "xXx @" + "q" * n + "-", "\n" * min(n, 300) + ref("x"), "xXx @x" + " " * n + "xXx"]
        cs.append(PRE + D0 + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    for n in list(range(28, 32)):                    # the longest names
        nm = ["n" * n, "n" * (n - 1) + "m", "n" * (n - 1)]
        cs.append(PRE + ["ctx 0", "ctx 1"] + ["addstr 0 %s %s" % (hx(x), hx("<%d>" % k)) for k, x in enumerate(nm)] + ["addstr 1 %s %s" % (hx(x), hx("[%d]" % k)) for k, x in enumerate(nm)] +
                  ["addsub 0 %s 1" % hx("S" * n)] + ["render 0 " + hx(ref(x) + ref("S" * n + "." + x)) for x in nm] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "variables: many references, long lines, long values", M0)
    known(c)


def C19(c):
    enumerated(c, "loop", "LoopToks", 5 if c.quick else 6, "loops: every small template", 2 if c.quick else 1)
    enumerated(c, "subloop", "SubLoopToks", 5 if c.quick else 6, "loops over sub-contexts: every small template")
    r, cs = c.rng, []
    for _ in range(120 if c.quick else 1500):
        n = r.choice([0, 1, 2, 3, 15, 16, 17, 40])
        lines = ["ctx 0", "addstr 0 69 " + hx("outer"), "addstr 0 6f " + hx("o"), "addarr 0 61 0", "addarr 0 62 1", "addarr 0 65 2"]
        nid = 1
        for k in range(n):
            lines.append(r.choice(["astr 0 " + hx("s%d" % k), "aint 0 %d" % r.randrange(-99, 99)]))
            lines += ["ctx %d" % nid, "addstr %d 6e %s" % (nid, hx("n%d" % k)), "addint %d 76 %d" % (nid, k), "asub 1 %d" % nid] if nid < 60 else []
            nid += 1 if nid < 60 else 0
        def loop():
            k = r.randrange(3)
            v = r.choice(["i", "j", "a"] + (["o"] if k == 0 else []))
            if k == 0:
                return r.choice(["", " ", "\n"]) + "xXx LOOP %s a xXx%sxXx BBL xXx" % (v, r.choice(["", ref(v), "\n<%s> %s\n" % (ref(v), ref("o")), ref(v) + ref(v) + "\n", "\n", "x\ny\n "])) + r.choice(["", "\n", " t\n"])
            if k == 1:
                return r.choice(["", " ", "\n"]) + "xXx LOOP %s b xXx%sxXx BBL xXx" % (v, r.choice(["", ref(v + ".n"), "\n<%s> %s\n" % (ref(v + ".n"), ref(v + ".v")), "\n", "xXx UNLESS NOT @%s.n xXxNxXx ENDLESS xXx" % v])) + r.choice(["", "\n", " t\n"])
            return "xXx LOOP %s e xXx gone %s xXx BBL xXx" % (v, ref("i")) + r.choice(["", "\n"])
        ts = ["".join(r.choice([loop(), loop(), "line %s\n" % ref("i"), "\n", ref("o") + "\n"]) for _ in range(r.choice([1, 2, 4, 7]))) for _ in range(4)]
        cs.append(PRE + lines + ["render 0 " + hx(t) for t in ts + ts[:1]] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "loops: element kinds and counts, shadowing, neighbours", M0)
    # long arrays
    cs = []
    for n in [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025, 2000] + ([] if c.quick else [4097, 10000]):
        lines = ["ctx 0", "addarr 0 61 0"] + ["aint 0 %d" % (k % 10) for k in range(n)]
        cs.append(PRE + lines + ["render 0 " + hx("xXx LOOP i a xXxxXx @i xXxxXx BBL xXx")] + ["tfree 0"])
        nid, lines = 1, ["ctx 0", "addarr 0 62 1"]
        for k in range(min(n, 50)):
            lines += ["ctx %d" % nid, "addint %d 76 %d" % (nid, k), "asub 1 %d" % nid]
            nid += 1
        cs.append(PRE + lines + ["render 0 " + hx("xXx LOOP i b xXxxXx @i.v xXx\nxXx BBL xXx")] + ["tfree 0"])
    for n in MANY:                                   # many loops, bodies with many references, long elements
        el = [filler(r, r.choice([1, 60, 512])) for _ in range(3)]
        ts = ["xXx LOOP i l xXx" + ref("i") + "xXx BBL xXx" + r.choice(["", "\n"])]
        ts = [ts[0] * n, "xXx LOOP i l xXx" + ref("i") * min(n, 60) + "xXx BBL xXx!", "xXx LOOP i l xXx\n" + "<xXx @i xXx>\n" * n + "xXx BBL xXx\n"]
        cs.append(PRE + ["ctx 0", "addarr 0 6c 0"] + ["astr 0 " + hx(e) for e in el] + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    for n in LONG:
        ts = [h + "xXx LOOP i l xXx" + b + "xXx BBL xXx" + e for h, b, e in (("", filler(r, n, True), "e\n"), (filler(r, n, True) + "\n", ref("i"), filler(r, n)), ("", filler(r, n) + ref("i") + "\n", "e"), (" " * n, ref("i"), ""), ("\n" * min(n, 200), ref("i"), "\n" * min(n, 200)))]
        cs.append(PRE + D0 + ["ctx 4", "addarr 4 6c 2", "astr 2 41", "aint 2 7"] + ["render 4 " + hx(t) for t in ts] + ["tfree 4", "tfree 0"])
    c.check_traces("TmplTrace", cs, "loops: long arrays, long bodies, many loops", M0)
    randoms(c, 150 if c.quick else 2500, "loops: random templates", includes=False)


def C20(c):
    enumerated(c, "unless", "UnlessToks", 5 if c.quick else 6, "conditionals: every small template", 3 if c.quick else 2)
    enumerated(c, "member", "MemberToks", 5 if c.quick else 6, "conditionals on members: every small template", 2 if c.quick else 1)
    r, cs = c.rng, []
    vals = ["", "FALSE", "FALSE ", "FALSEX", "FALS", "false", "TRUE", "0", " ", "XFALSE", "\n"]
    for v in vals:                                   # each truth value: the two blocks are exact opposites
        lines = ["ctx 0", "ctx 1", "addstr 0 76 " + hx(v), "addstr 1 6d " + hx(v), "addsub 0 73 1", "addarr 0 65 0", "addarr 0 66 1", "astr 1 " + hx(v), "addint 0 7a 0"]
        ts = []
        for n in ("v", "s", "e", "f", "z", "u", "s.m", "s.u", "u.m", "v.m", "e.m", ".", "s.", ".m", "s.m.m"):
            for body in ("B", "\nB\n", "", "\n", "xXx LOOP i f xXx[xXx @i xXx]xXx BBL xXx"):
                for k in ("", "NOT "):
                    ts.append("1 xXx @z xXx\n xXx UNLESS %s@%s xXx%sxXx ENDLESS xXx 2\n3" % (k, n, body))
                ts.append("xXx UNLESS @%s xXx%sxXx ENDLESS xXxxXx UNLESS NOT @%s xXx%sxXx ENDLESS xXx" % (n, body, n, body))
        cs.append(PRE + lines + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "conditionals: every kind of value", M0)
    cs = []
    def cond(n, k, b):
        return "xXx UNLESS %s@%s xXx%sxXx ENDLESS xXx" % (k, n, b)
    for n in MANY:
        ts = [(cond("f", "", "a") + cond("x", "NOT ", "b") + cond("x", "", "c") + r.choice(["", "\n"])) * n]
        ts += ["".join(cond(r.choice(["f", "x", "u", "s.a", "s.u"]), r.choice(["", "NOT "]), r.choice(["B", "\nB\n", ref("x")])) for _ in range(n))]
        cs.append(PRE + D0 + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    for n in LONG:
        ts = []
        for nm, k in (("f", ""), ("x", "NOT "), ("x", ""), ("f", "NOT "), ("u", ""), ("s.a", "NOT ")):
            ts += ["1" + "\n" + cond(nm, k, filler(r, n, True) + ref("x")) + "2", cond(nm, k, filler(r, n)) + filler(r, n, True)]
        ts += [filler(r, n, True) + "\n" + cond("f", "", "B"), " " * n + cond("f", "", "B")]
        cs.append(PRE + D0 + ["render 0 " + hx(t) for t in (ts if n < 3000 or not c.quick else r.sample(ts, 5))] + ["tfree 0"])
    for n in (127, 128, 255, 256, 257, 512, 768, 1024, 4096, 32768, 65535, 65536, 65537, 131072):      # long arrays are as true as short ones
        ts = [cond(nm, k, "B") + "|" + cond(nm, "" if k else "NOT ", "C") for nm in ("l", "s.m") for k in ("", "NOT ")]
        cs.append(PRE + ["ctx 0", "ctx 1", "addarr 0 6c 0", "aint 0 5 %d" % n, "addarr 1 6d 1", "aint 1 0 %d" % n, "addsub 0 73 1"] + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "conditionals: many, and long bodies", M0)
    randoms(c, 200 if c.quick else 3000, "conditionals: random templates", includes=False)


def C21(c):
    enumerated(c, "filt", "FiltToks", 5 if c.quick else 6, "filters: every small template", 2 if c.quick else 3)
    r, cs = c.rng, []
    for _ in range(250 if c.quick else 3000):
        x = Ctx(r)
        t = Tmpl(x, blocks=r.random() < .4, includes=False)
        ts = []
        for _ in range(5):
            ts.append("".join(t.piece({}) if r.random() < .3 else filter_call(t, r) + r.choice(["", " ", ",", "X", "x"]) for _ in range(r.choice([1, 2, 3, 6]))) + r.choice(["", "\n", "\n" + t.make(2)]))
        cs.append(PRE + x.lines + ["render 0 " + hx(s) for s in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "filters: random calls, arguments from variables, several on a line", M0)
    cs = []
    F = ["filt 0 72 2", "filt 0 77 3", "filt 0 6e 4", "filt 0 74 5", "filt 0 %s 3" % hx("L" * 31), "filt 0 %s 0" % hx("L" * 30)]
    for n in MANY:
        ts = ["XxX w a XxX" * n, "".join("XxX %s %s XxX%s" % (r.choice(["up", "r", "w", "n", "t", "L" * 31, "L" * 30]), r.choice(["ab", ref("x"), "c d"]), r.choice(["", " ", "."])) for _ in range(n)),
              "XxX k XxX" * n + "XxX up " + ref("x") * n + " XxX", "XxX w a XxX\n" * n]
        cs.append(PRE + D0 + F + ["render 0 " + hx(t) for t in ts] + ["tfree 0"])
    for n in LONG:
        a = filler(r, n).strip() + "e"
        ts = [filler(r, n) + "XxX w b XxX" + filler(r, n) + "XxX up c XxX", "XxX w " + " " * n + "b XxX!"] + ["<XxX %s %s XxX>" % (f, a) for f in ("w", "up", "r", "t", "n")]
        cs.append(PRE + D0 + F + ["render 0 " + hx(t) for t in (ts if n < 3000 or not c.quick else r.sample(ts, 3))] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "filters: many calls, long arguments, long lines", M0)


def filter_call(t, r):
    if not t.c.filters:
        return "-"
    f = r.choice(t.c.filters)
    if r.random() < .4:
        return "XxX %s XxX" % f
    arg = "".join(t.ref({}) if r.random() < .5 else r.choice(["a", "b c", "", " ", "mm"]) for _ in range(r.choice([0, 1, 1, 2])))
    return "XxX %s%s%s XxX" % (f, r.choice([" ", " ", "   ", "\t "]), arg)


def C22(c):
    enumerated(c, "nest", "NestToks", 4 if c.quick else 5, "includes within blocks: every small template")
    randoms(c, 160 if c.quick else 2500, "includes: random templates")
    r, cs = c.rng, []
    for n in [0, 1, 2, 100, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 6000, 8192] + ([] if c.quick else [16384, 20000, 65536]):
        for tail in ("", "\n", "xXx @x xXx", "\nxXx @x xXx\n"):
            body = "".join("z" if k % 60 else "\n" for k in range(1, n + 1)) + tail
            cs.append(PRE + D0 + ["mkfile big " + hx(body)] + ["render 0 " + hx(t) for t in ("xXx SCREAM big xXx", "a\n xXx SCREAM big xXx\nb", "xXx LOOP i l xXxxXx SCREAM big xXx\nxXx BBL xXx")] +
                      ["mkfile big " + hx("new " + tail), "render 0 " + hx("xXx SCREAM big xXx\nend"), "tfree 0"])
    for n in MANY:                                   # many includes, deep chains of includes, long paths
        cs.append(PRE + D0 + ["render 0 " + hx("xXx SCREAM inc xXx\n" * n + "e"), "render 0 " + hx("xXx LOOP i l xXx\n" + "<\nxXx SCREAM inc xXx\n>\n" * min(n, 100) + "xXx BBL xXx"), "tfree 0"])
        if n <= 40:
            chain = ["mkfile c%s %s" % ("_" * k, hx("%d\nxXx SCREAM c%s xXx\n" % (k, "_" * (k + 1)) if k < n else "end")) for k in range(n + 1)]
            cs.append(PRE + D0 + chain + ["render 0 " + hx("xXx SCREAM c xXx"), "tfree 0"])
        if n <= 200:
            cs.append(PRE + D0 + ["mkfile %s %s" % ("p" * n, hx("here " + ref("x"))), "render 0 " + hx("xXx SCREAM %s xXx\n" % ("p" * n)), "tfree 0"])
    c.check_traces("TmplTrace", cs, "includes: sizes, numbers, and files that change between renderings", M0)
    cs = []
    for _ in range(60 if c.quick else 600):           # filters, loops and conditionals inside included files, nested includes
        x = Ctx(r)
        t = Tmpl(x, includes=False)
        f = [t.make(r.choice([1, 2, 4])) for _ in range(3)]
        files = ["mkfile fa " + hx(f[0]), "mkfile fb " + hx(f[1] + ("" if f[1].endswith(("\n", "\r")) or not f[1] else "\n") + "xXx SCREAM fa xXx\n" + f[2]), "mkfile fc " + hx("xXx SCREAM fb xXx\nxXx SCREAM fa xXx\n")]
        ts = ["xXx SCREAM f%s xXx" % k for k in "abc"] + ["before\n  xXx SCREAM fb xXx\nafter " + t.piece({}) + "\n", "xXx UNLESS NOT @unset xXx\nxXx SCREAM fa xXx\nxXx ENDLESS xXx\nxXx UNLESS @unset xXx\nu\nxXx SCREAM fa xXx\nv\nxXx ENDLESS xXx\n"
                                                       if "unless" not in f[0].lower() else "x"]
        cs.append(PRE + x.lines + files + ["render 0 " + hx(s) for s in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "includes: markup in included files, nested includes", M0)


def C23(c):
    r, cs = c.rng, []
    for _ in range(120 if c.quick else 1500):          # several templates over one context, repeated in random order
        x = Ctx(r)
        t = Tmpl(x)
        ts = [t.make() for _ in range(3)] + [""]
        order = [r.choice(ts) for _ in range(10)] + ts
        cs.append(PRE + x.lines + DIRS + t.incs + ["render 0 " + hx(s) for s in order] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "repeated renderings in any order", M0)
    cs = []
    for _ in range(80 if c.quick else 800):            # a template cut off anywhere: only its bytes are read
        x = Ctx(r)
        t = Tmpl(x, includes=False, blocks=True)
        s = t.make(r.choice([1, 2, 3]))
        cuts = sorted({0, 1, len(s)} | {r.randrange(len(s) + 1) for _ in range(6)})
        ok = [k for k in cuts if safe_cut(s, k)]
        cs.append(PRE + x.lines + ["render 0 " + hx(s[:k]) for k in ok] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "templates cut off at any byte", M0)
    cs = []
    for n in [1, 4095, 4096, 20000] + ([] if c.quick else [60000, 120000]):
        s = "".join("word " if k % 12 else "xXx @x xXx\n" for k in range(n // 5))
        s += "\nxXx LOOP i l xXx\n<xXx @i xXx>\nxXx BBL xXx\nxXx UNLESS @f xXx\n" + "y" * (n // 4) + "\nxXx ENDLESS xXx\nend"
        cs.append(PRE + D0 + ["render 0 " + hx(s), "render 0 " + hx(s[:n // 2].rsplit("\n", 1)[0]), "tfree 0"])
    c.check_traces("TmplTrace", cs, "large templates", M0, secs=60)
    # contexts that are released without ever being rendered, sub-contexts released with their owners
    cs = []
    for _ in range(60 if c.quick else 500):
        x = Ctx(r)
        cs.append(PRE + x.lines + ["ctx 60", "addstr 60 61 61", "tfree 60", "tfree 0"])
    c.check_traces("TmplTrace", cs, "releasing contexts", M0)
    growing(c, 60 if c.quick else 800)


def growing(c, n):
    """Contexts that get more entries, elements and filters after they have been rendered."""
    r, cs = c.rng, []
    for _ in range(n):
        lines, ts, k = ["ctx 0", "ctx 1", "addsub 0 73 1"], [], 0
        big = r.choice([3, 12, 40])
        arrs = []
        for _ in range(r.randrange(3, 9)):
            for _ in range(r.randrange(1, big)):
                nm = chr(97 + k % 26) + chr(97 + k // 26 % 26) + r.choice(["", "", "_x"])
                k += 1
                what = r.choice(["str", "int", "arr", "filt", "filt", "member", "elem", "elem", "again"])
                if what == "again" and ts:
                    lines.append("addstr 0 %s %s" % (r.choice(["6161", hx(nm)]), hx("again%d" % k)))
                elif what == "str":
                    lines.append("addstr 0 %s %s" % (hx(nm), hx("val%d" % k)))
                    ts.append(ref(nm))
                elif what == "int":
                    lines.append("addint 0 %s %d" % (hx(nm), r.randrange(-999, 999999)))
                    ts.append(ref(nm))
                elif what == "arr":
                    lines.append("addarr 0 %s %d" % (hx(nm), len(arrs)))
                    arrs.append(len(arrs))
                    ts.append("xXx LOOP i %s xXx<%s>xXx BBL xXx" % (nm, ref("i")))
                elif what == "filt":
                    lines.append("filt 0 %s %d" % (hx(nm), r.randrange(6)))
                    ts.append("XxX %s q%d XxX" % (nm, k % 7))
                elif what == "member":
                    lines.append("addstr 1 %s %s" % (hx(nm), hx("mem%d" % k)))
                    ts.append(ref("s." + nm))
                elif arrs:
                    a = r.choice(arrs)
                    lines += ["astr %d %s" % (a, hx("e%d" % k)) if r.random() < .5 else "aint %d %d" % (a, k)]
            for _ in range(r.randrange(1, 4)):
                if ts:
                    lines.append("render 0 " + hx("\n".join(r.choice(ts) for _ in range(r.randrange(1, 6)))))
        cs.append(PRE + lines + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "contexts that grow between renderings", M0)


def safe_cut(s, k):
    """Cutting here does not turn the last line into a reference to something else."""
    full = s[:k]
    for head, end in (("xXx LOOP ", "xXx BBL xXx"), ("xXx UNLESS ", "xXx ENDLESS xXx")):
        if full.rfind(head) > full.rfind(end):
            return False                               # an open block would be plain text
    return True


def C24(c):
    r, cs = c.rng, []
    for _ in range(80 if c.quick else 800):
        kinds = r.choice([5, 20, 31, 32, 33, 70, 200])
        lines, ts, arrs, nid, names = ["ctx 0"], [], [], 1, set()
        flt = []
        for k in range(kinds):
            while True:
                ln = r.choice([1, 2, 5, 12, 30, 31, 32, 33, 40, 64, 200])
                nm = "".join(r.choice("abcXYZ_") for _ in range(max(0, ln - 2))) + chr(97 + k % 26) + chr(97 + k // 26 % 26) if ln < 29 else chr(97 + k % 26) + chr(97 + k // 26 % 26) + "".join(r.choice("abcXYZ_") for _ in range(ln - 2))
                if nm[:31] not in names:
                    break
            names.add(nm[:31])
            short = nm[:31]
            what = r.choice(["str", "str", "int", "arr", "sub", "filt"])
            if what == "str":
                v = "".join(r.choice("abc .<") for _ in range(r.choice([0, 1, 10, 100, 510, 511, 512, 513, 514, 600, 2000])))
                lines.append("addstr 0 %s %s" % (hx(nm), hx(v)))
                ts.append(ref(short))
            elif what == "int":
                lines.append("addint 0 %s %d" % (hx(nm), r.choice([0, -1, 2147483647, -2147483648, r.randrange(-10**6, 10**6)])))
                ts.append(ref(short))
            elif what == "arr" and len(arrs) < 60:
                lines.append("addarr 0 %s %d" % (hx(nm), len(arrs)))
                arrs.append(len(arrs))
                v = r.choice(["i", "v" * 31, "w" * 40])
                ts.append("xXx LOOP %s %s xXx<%s>xXx BBL xXx" % (v, short, ref(v[:31])))
            elif what == "sub" and nid < 60:
                m = r.choice(["m", "m" * 31, "m" * 32, "m" * 50])
                lines += ["ctx %d" % nid, "addstr %d %s %s" % (nid, hx(m), hx("sub%d" % nid)), "addsub 0 %s %d" % (hx(nm), nid)]
                ts.append(ref(short + "." + m[:31]))
                nid += 1
            else:
                f = r.choice([0, 3, 5])
                lines.append("filt 0 %s %d" % (hx(nm), f))
                ts.append("XxX %s q%d XxX" % (short, k))
            for a in arrs:
                if r.random() < .3:
                    v = "".join(r.choice("ab") for _ in range(r.choice([0, 1, 5, 511, 512, 513])))
                    lines.append("astr %d %s" % (a, hx(v)) if r.random() < .7 else "aint %d %d" % (a, r.randrange(-999, 999)))
        if r.random() < .2 and arrs:
            lines += ["astr %d 78" % arrs[0]] * r.choice([17, 40, 100])
            if r.random() < .5:
                lines.append("astr %d -" % arrs[0])
        order = list(ts)
        r.shuffle(order)
        cs.append(PRE + lines + ["render 0 " + hx("\n".join(order[k:k + 8])) for k in range(0, len(order), 8)] + ["tfree 0"])
    for n in (255, 256, 257, 300, 513) if c.quick else (255, 256, 257, 300, 513, 1024, 1500):          # big contexts
        lines = ["ctx 0", "ctx 1", "addsub 0 73 1"]
        for k in range(n):
            nm = "".join(chr(97 + int(d)) for d in str(k))
            lines += ["addstr 0 %s %s" % (hx(nm), hx("v%d" % k)), "addint 1 %s %d" % (hx(nm), k)] + (["filt 0 %s %d" % (hx(nm), k % 6)] if k % 3 == 0 else [])
        pick = ["".join(chr(97 + int(d)) for d in str(k)) for k in sorted({0, 1, 2, 14, 15, 16, 17, 126, 127, 128, n // 2, n - 3, n - 2, n - 1})]
        cs.append(PRE + lines + ["render 0 " + hx("".join(ref(x) + " " + ref("s." + x) + "\n" for x in pick)), "render 0 " + hx("XxX a b XxX" + "XxX %s q XxX" % "".join(chr(97 + int(d)) for d in str((n - 1) // 3 * 3))), "tfree 0"])
    c.check_traces("TmplTrace", cs, "contexts: every kind of entry, limits of names and values", M0)
    randoms(c, 100 if c.quick else 1500, "contexts: random, several templates", per=3)
    for _ in range(60 if c.quick else 600):           # many additions of one or two kinds, judged by parallel_pass
        kinds, lines = r.sample(["addstr 0", "addint 0", "astr 0", "aint 0", "filt 0"], 2), ["ctx 0", "addarr 0 6c 0"]
        names = ["%s%s" % (x, y) for x in "abc" for y in "defg"]
        for nm in names:
            k = r.choice(kinds)
            v = {"addstr 0": hx(nm + str(r.randrange(1000))), "addint 0": r.randrange(-9999, 99999), "astr 0": hx("v%d" % r.randrange(1000)), "aint 0": r.randrange(-999, 9999), "filt 0": r.randrange(6)}[k]
            lines.append("%s %s" % (k, v) if k[0] == "a" and k[1] != "d" else "%s %s %s" % (k, hx(nm), v))
        used = {l.split()[2]: l.split()[0] for l in lines if l.split()[0] in ("addstr", "addint", "filt")}
        t = "".join("XxX %s q XxX\n" % nm if used.get(hx(nm)) == "filt" else ref(nm) + "\n" for nm in names if hx(nm) in used)
        c.pool.setdefault(("TmplTrace", M0), []).append(lines + ["render 0 " + hx(t + "xXx LOOP i l xXx<%s>xXx BBL xXx" % ref("i")), "tfree 0"])
    growing(c, 60 if c.quick else 800)


def C17(c):
    r, cs = c.rng, []
    for _ in range(120 if c.quick else 1500):
        x = Ctx(r)
        t = Tmpl(x)
        pages = [t.make() for _ in range(3)]
        ext = r.choice(["html", "txt", "css", "json", "HTML", "", "xyz", "svg"])
        p = r.choice(["page", "d/page", "./a.b"]) + ("." + ext if ext else "")
        lines = PRE + ["defer"] + x.lines + DIRS + t.incs
        for s in pages:
            lines += ["mkfile %s %s" % (p, hx(s)), "page %s %s" % (p, hx(r.choice(["", "", "a/b"])))]
        lines += ["rmfile " + p, "page %s ." % p, "page nosuch.html ."]
        cs.append(lines)
        names = ["%d%s" % (k, p.replace("/", "_")) for k in range(4)]
        once = PRE + ["defer"] + x.lines + DIRS + t.incs + ["mkfile %s %s" % (n, hx(s)) for n, s in zip(names, pages)]
        once += ["page %s %s" % (n, hx(r.choice(["", "a/b"]))) for n in names]
        c.pool.setdefault(("TmplTrace", M0), []).append(once)        # judged by parallel_pass
    c.check_traces("TmplTrace", cs, "pages: random templates, types, missing files", M0)
    cs = []
    for n in [0, 1, 2, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 12288] + ([] if c.quick else [20480, 40960, 65536, 100000]):
        for tail in ("", "xXx @x xXx", "xXx LOOP i l xXx-xXx BBL xXx", "xXx UNLESS NOT @f xXx-xXx ENDLESS xXx\n"):
            if n < len(tail):
                continue
            body = "".join("p" if k % 77 else "\n" for k in range(1, n - len(tail) + 1))
            if tail and body:
                body = body[:-1] + "\n"
            cs.append(PRE + ["defer"] + D0 + ["mkfile t.html " + hx(body + tail), "page t.html .", "page t.html " + hx("x/y")])
    c.check_traces("TmplTrace", cs, "pages: file sizes around page boundaries", M0, secs=30)


# ------------------------------------------------------------------ the Python binding
def C32(c):
    c.build_py()
    r, cs = c.rng, []
    for _ in range(250 if c.quick else 4000):
        x = Ctx(r, binding=True)
        t = Tmpl(x)
        ts = [t.make() for _ in range(3)]
        cs.append(PRE + x.lines + DIRS + t.incs + ["%s 0 %s" % (r.choice(["render", "render", "trender"]), hx(s)) for s in ts + ts[:1]] + ["tfree 0"])
    for n in range(0, 40):                      # text of every kind and length, in every place, in a second thread as well
        u = "".join(r.choice("ab\xe9\xff\xa4 ") for _ in range(n))
        lines = ["ctx 0", "ctx 1", "addstr 0 61 " + hx(u), "addsub 0 73 1", "addstr 1 6b " + hx(u), "addarr 0 6c 0", "astr 0 " + hx(u), "aint 0 %d" % r.choice([-1, 0, 2147483647, -2147483648]),
                 "addint 0 69 %d" % r.choice([-1, 0, 2147483647, -2147483648, n]), "filt 0 7570 0"]
        ts = [u + "xXx @a xXx" + u, u + "\nxXx LOOP e l xXx" + u + "xXx @e xXxxXx BBL xXx" + u, "xXx @s.k xXx" + u + "XxX up " + u + " XxX!xXx @i xXx" + u]
        cs.append(PRE + lines + ["%s 0 %s" % (r.choice(["render", "trender"]), hx(t)) for t in ts] + ["tfree 0"])
    c.check_traces("TmplTrace", cs, "templates rendered through the Python binding", M0)
