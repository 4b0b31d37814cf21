"""Adapter: calls of the generated wrappers."""
import ctypes, gc, importlib, sys, warnings
import atoms as A
import calls_src as C

warnings.simplefilter("ignore")


class _MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _MI


def heap():
    return _libc.mallinfo2().uordblks


def prime():
    """Fill the interpreter's free lists, so that they do not look like leaks."""
    [dict(a=1) for _ in range(120)]
    [list((1,)) for _ in range(120)]
    [float("1.%d" % i) for i in range(150)]


_fakes = {}


def Fake(cls):
    """an object that only says it is of a class"""
    if cls not in _fakes:
        _fakes[cls] = type("Fake", (object,), {"__class__": property(lambda self: cls)})
    return _fakes[cls]()


class BadBool(object):
    def __bool__(self):
        raise RuntimeError("no truth")


class Modules(object):
    """The generated modules; sig number -> module."""
    def __init__(self, params):
        self.mods = []
        for name in params["modules"]:
            m = importlib.import_module(name)
            lib = ctypes.PyDLL(m.__file__)
            lib.lg_text.restype = ctypes.c_char_p
            lib.lg_live.restype = ctypes.c_long

            class SubP(m.P):
                pass

            def mkPI(v, m=m):
                x = m.PI()
                x.v = v
                return x
            self.mods.append((m, lib, {"m": m, "SubP": SubP, "BadBool": BadBool, "Fake": Fake, "mkPI": mkPI, "keepP": m.P(77)}))


class Adapter(object):
    def __init__(self, params):
        self.params = params
        self.sigs = params["sigs"]
        self.M = Modules(params)
        self.judge = params["judge"]

    def reset(self):
        pass

    def abandon(self):
        pass

    def finish(self):
        return None

    def callee(self, sig):
        m, lib, env = self.M.mods[sig["mod"]]
        k = sig["kind"]
        if k in ("method", "fmeth"):
            return getattr(m.K(), sig.get("custom") or sig["name"])
        if k == "static":
            return getattr(m.K, sig.get("custom") or sig["name"])
        if k == "call":
            return getattr(m, sig["name"])()
        return getattr(m, sig.get("custom") or sig["name"])

    def once(self, sig, f, codes, kwn, throw, check):
        m, lib, env = self.M.mods[sig["mod"]]
        args = [eval(c, env) for c in codes[0]]
        kw = {n: eval(c, env) for n, c in zip(kwn, codes[1])}
        lib.lg_clear()
        lib.lg_throw(throw)
        rc = None
        if check:
            every = args + list(kw.values())
            rc = [sys.getrefcount(x) for x in every]
        exc, ret = "", []
        try:
            r = f(*args, **kw)
        except Exception as e:
            exc = self.describe(e, m) if throw and check else type(e).__name__
            del e
        else:
            if isinstance(r, tuple):
                ret = ["tuple"] + [A.show(x, m) for x in r]
            else:
                ret = ["one", "self" if sig["kind"] in ("ctor", "fctor") and type(r) is f and type(r.v) is int else A.show(r, m)]
            if sig["ret"] == "K*self":
                pass
            del r
        text = lib.lg_text().decode("latin-1")
        leak = 0
        if check:
            rc2 = [sys.getrefcount(x) for x in every]
            if rc != rc2:
                leak = "argument reference counts %r became %r" % (rc, rc2)
            del every
        return exc, text, ret, leak

    def describe(self, e, m):
        """Its class, its message and the registered exceptions that also catch it, nearest first."""
        known = {}
        for x in C.EXCS:
            o = m
            for part in x["py"].split("."):
                o = getattr(o, part) if x["py"] != "IndexError" else IndexError
            known[o] = x["py"]
        names = [known.get(c) for c in type(e).__mro__ if c in known]
        if type(e) not in known:
            names.insert(0, "?" + type(e).__name__)
        names[0] += "(%s)" % e
        return " < ".join(names)

    def step(self, act):
        sig = self.sigs[act["sig"] - 1]
        m, lib, env = self.M.mods[sig["mod"]]
        ins = [(i, C.ATOM[p["atom"]]) for i, p in enumerate(sig["params"], 1) if C.ATOM[p["atom"]]["dir"] != "out"]

        def expr(j):
            a = ins[j][1]
            v = act["val"][j]
            return a["good"][v - 1][0] if v > 0 else a["bad"][-v - 1][0]
        pos = [expr(j) for j in range(min(act["npos"], len(ins)))] + ["0"] * (act["npos"] - len(ins))
        kwn = ["a%d" % ins[j - 1][0] for j in act["kw"]]
        kwe = [expr(j - 1) for j in act["kw"]]
        if act["unk"]:
            kwn.append("zz")
            kwe.append("1")
        codes = ([compile(x, "<arg>", "eval") for x in pos], [compile(x, "<arg>", "eval") for x in kwe])
        f = self.callee(sig)
        exc, text, ret, leak = self.once(sig, f, codes, kwn, act["throw"], True)
        seen = text.split("|") if text else []
        gil = ""
        if seen:
            gil = "held" if seen[0][0] == "@" else "released"
            seen[0] = seen[0][1:]
        if not ctypes.pythonapi.PyGILState_Check():
            gil += ", not held after the call"
        if not leak and "leak" in self.judge:
            leak = self.leaks(lambda: self.once(sig, f, codes, kwn, act["throw"], False), lib)
        o = {"exc": exc, "seen": seen, "ret": ret, "leak": leak, "gil": gil}
        return {k: o[k] for k in self.judge}

    def leaks(self, fn, lib):
        """0 or a description: what a repeated call leaves behind."""
        n, worst = 12, None
        for attempt in range(5):
            gc.disable()
            for _ in range(4):
                fn()
            l0, b0, h0 = lib.lg_live(), sys.getallocatedblocks(), heap()
            for _ in range(n):
                fn()
            l1, b1, h1 = lib.lg_live(), sys.getallocatedblocks(), heap()
            gc.enable()
            d = (l1 - l0, b1 - b0, h1 - h0)
            if l1 - l0 >= n or l1 < l0 or b1 - b0 >= n - 2 or b1 - b0 <= -(n - 2) or h1 - h0 >= 16 * n or h1 - h0 <= -16 * n:
                worst = d
            else:
                return 0
            prime()
        return "per %d calls: %d C++ objects, %d Python blocks, %d bytes" % ((n,) + worst)
