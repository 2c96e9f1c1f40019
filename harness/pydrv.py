#!/usr/bin/python3
"""Python driver: pydrv.py SCRIPT OUT START -- the template commands of apidrv, carried out through
the repository's Python binding.  Contexts are written down first and handed to the binding as one
dictionary; what was handed over is recorded, then what came back."""
import ctypes, gc, json, os, signal, sys, threading, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
SCRIPT, OUTP, START = sys.argv[1], sys.argv[2], int(sys.argv[3])
sys.path.insert(0, os.path.join(os.environ["REPO"], "python"))
out = open(OUTP, "a")
import greshunkel as G
lib = ctypes.CDLL("lib38moths.so")
lib.vt_live.restype = ctypes.c_long
first = True


def ev(e, **f):
    global first
    out.write(("" if first else ",") + json.dumps(dict([("e", e)] + list(f.items())), separators=(",", ":")))
    first = False
    out.flush()


def by(b):
    return list(b)


def un(tok):
    b = b"" if tok == "." else bytes.fromhex(tok)
    return b.decode("latin-1") if len(b) <= 200 else b.decode("latin-1").encode("ascii", "replace").decode()


def filt(kind):
    def f(arg):
        a = arg if arg is not None else b"NONE"
        res = [a.upper() if False else bytes(c - 32 if 97 <= c <= 122 else c for c in a), b"z", a[::-1], b"[" + a + b"]", b"", a + a][kind]
        ev("fcall", kind=kind, nil=1 if arg is None else 0, arg=by(arg or b""), res=by(res))
        return res
    return f


class State:
    def __init__(self):
        self.d, self.arr, self.objs, self.base, self.made = {}, {}, {}, 0, set()


def describe(s, i):
    """What the binding is given, as events: contexts under their numbers, then their entries in order."""
    ev("ctx", id=i)
    s.made.add(i)
    for k, (t, v) in s.d[i].items():
        n = by(k.encode())
        if t == "str":
            ev("addstr", id=i, name=n, ret=0, val=by(v.encode()))
        elif t == "int":
            ev("addint", id=i, name=n, ret=0, val=by(str(v).encode()))
        elif t == "filt":
            ev("filt", id=i, name=n, ret=0, ref=v)
        elif t == "sub":
            describe(s, v)
            ev("addsub", id=i, name=n, ret=0, ref=v)
        elif t == "arr":
            ev("addarr", id=i, name=n, ret=0, ref=v)
            for et, e in s.arr[v]:
                if et == "sub":
                    describe(s, e)
                    ev("asub", id=v, sub=e, ret=0)
                elif et == "int":
                    ev("aint", id=v, val=by(str(e).encode()), ret=0, n=1)
                else:
                    ev("astr", id=v, val=by(e.encode()), ret=0)


def plain(s, i):
    o = {}
    for k, (t, v) in s.d[i].items():
        o[k] = (v if t in ("str", "int") else plain(s, v) if t == "sub" else G.GshklFilterFunc(filt(v)) if t == "filt"
                else [plain(s, e) if et == "sub" else e for et, e in s.arr[v]])
    return o


def run(s, v):
    op = v[0]
    if op == "tbase":
        gc.collect()
        s.base = lib.vt_live()
    elif op == "ctx":
        s.d[int(v[1])] = {}
    elif op in ("addstr", "addint", "addsub", "addarr", "filt"):
        t = {"addstr": "str", "addint": "int", "addsub": "sub", "addarr": "arr", "filt": "filt"}[op]
        if t == "arr":
            s.arr[int(v[3])] = []
        s.d[int(v[1])].setdefault(un(v[2]), (t, un(v[3]) if t == "str" else int(v[3])))
    elif op in ("astr", "aint", "asub"):
        s.arr[int(v[1])].append((op[1:], un(v[2]) if op == "astr" else int(v[2])))
    elif op == "mkdir":
        os.makedirs(v[1], exist_ok=True)
    elif op == "mkfile":
        b = un(v[2]).encode()
        open(v[1], "wb").write(b)
        ev("file", path=by(v[1].encode()), b=by(b))
    elif op in ("render", "trender"):
        i, t = int(v[1]), un(v[2])
        res = []

        def go():
            try:
                if i not in s.objs:
                    describe(s, i)
                    s.objs[i] = G.Context(plain(s, i))
                    gc.collect()
                b = lib.vt_live()
                r = G.Template(t).render(s.objs[i])
                gc.collect()
                res.append((r, lib.vt_live() - b))
            except BaseException as e:
                ev("pyerror", what=repr(e)[:200])
        if op == "trender":
            th = threading.Thread(target=go)
            th.start()
            th.join()
        else:
            go()
        for r, d in res:
            o = r.encode() if isinstance(r, str) else b"\1not text"
            ev("render", id=i, text=by(t.encode()), nil=0, size=len(o), out=by(o), delta=d)
    elif op == "tfree":
        i = int(v[1])
        if i in s.objs:
            del s.objs[i]
            gc.collect()
            ev("tfree", id=i, delta=lib.vt_live() - s.base)
    else:
        sys.stderr.write("unknown command %s\n" % op)
        sys.exit(2)


def main():
    global first
    n, s, running = -1, None, False
    signal.signal(signal.SIGALRM, lambda *_: os._exit(99))
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 1)
    for line in open(SCRIPT):
        v = line.split()
        if not v:
            continue
        if v[0] == "case":
            if running:
                out.write("]}\n")
                out.flush()
            n += 1
            running = n >= START
            if running:
                signal.alarm(int(os.environ.get("DRV_CASE_SECS", "20")))
                out.write('{"id":%d,"ev":[' % n)
                first, s = True, State()
        elif running:
            run(s, v)
    if running:
        out.write("]}\n")
    out.flush()
    os._exit(0)


main()
