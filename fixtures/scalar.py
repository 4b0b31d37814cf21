"""Adapter: integers crossing the border."""
import ctypes, importlib, io, sys, warnings
warnings.simplefilter("ignore")


class Ind(object):
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class Sub(int):
    pass


class Adapter(object):
    def __init__(self, params):
        self.cases = params["cases"]
        self.m = importlib.import_module(params["module"])
        self.lib = ctypes.CDLL(self.m.__file__)
        self.lib.lg_text.restype = ctypes.c_char_p

    def reset(self):
        pass

    def abandon(self):
        pass

    def finish(self):
        return None

    def text(self):
        return self.lib.lg_text().decode()

    def step(self, act):
        case, v = self.cases[act["case"] - 1], act["v"]
        x = v["s"] * 2 ** v["e"] + v["o"]
        plain = x
        if act["other"]:
            plain, x = {"True": (1, True), "False": (0, False), "float": (1, 1.0), "none": (0, None), "str": (1, "1"), "index": (2, Ind(2)),
                        "bigindex": (2 ** 70, Ind(2 ** 70)), "subclass": (2, Sub(2))}[act["other"]]
        n = case["name"]
        self.lib.lg_clear()
        cxx, py, exc = None, None, ""
        try:
            cxx, py = getattr(self, "p_" + case["pos"])(n, x)
        except (OverflowError, ValueError, TypeError) as e:
            exc = "refused"
            if self.text():
                exc = "refused, but C++ got %s" % self.text()
        lo, hi = (-2 ** (case["bits"] - 1), 2 ** (case["bits"] - 1) - 1) if case["signed"] else (0, 2 ** case["bits"] - 1)
        if case["flow"] != "out":
            wide = case["wraps"]
            if act["other"] in ("", "True", "False", "subclass", "bigindex") and not lo <= plain <= hi and wide:
                if exc == "refused" or (cxx is not None and cxx == plain % 2 ** case["bits"]):
                    return {"cxx": [], "py": [], "exc": "refused or modulo"}
            if act["other"] == "index" and (exc == "refused" or cxx == plain):
                return {"cxx": [], "py": [], "exc": "refused or converted"}
        return {"cxx": self.sym(cxx), "py": self.sym(py, act), "exc": exc}

    def sym(self, v, act=None):
        if v is None:
            return []
        if type(v) is not int:
            return ["%r" % (v,)]
        if -2 <= v <= 2:
            return [{"s": 0, "e": 0, "o": v}]
        for e in (7, 8, 15, 16, 31, 32, 63, 64, 65):
            for s in (1, -1):
                if -2 <= v - s * 2 ** e <= 2:
                    return [{"s": s, "e": e, "o": v - s * 2 ** e}]
        return [str(v)]

    def cx(self):
        return int(self.text()) if self.text() else None

    def C(self, n):
        return getattr(self.m, "C_" + n)

    def _in(self, f, x):
        r = f(x)
        assert r is None
        return self.cx(), None

    def p_v(self, n, x): return self._in(getattr(self.m, "v_" + n), x)
    def p_r(self, n, x): return self._in(getattr(self.m, "r_" + n), x)
    def p_c(self, n, x): return self._in(getattr(self.m, "c_" + n), x)
    def p_p(self, n, x): return self._in(getattr(self.m, "p_" + n), x)

    def p_cp(self, n, x): return self._in(getattr(self.m, "cp_" + n), x)

    def p_vecin(self, n, x):
        return self._in(getattr(self.m, "vi_" + n), [x])

    def p_vecout(self, n, x):
        r = list(getattr(self.m, "vo_" + n)(str(x)))
        return None, r[0] if len(r) == 1 else r

    def p_ro(self, n, x): return None, getattr(self.m, "ro_" + n)(str(x))
    def p_po(self, n, x): return None, getattr(self.m, "po_" + n)(str(x))
    def p_ret(self, n, x): return None, getattr(self.m, "ret_" + n)(str(x))

    def p_ri(self, n, x):
        r = getattr(self.m, "ri_" + n)(x)
        return self.cx(), r

    def p_pi(self, n, x):
        r = getattr(self.m, "pi_" + n)(x)
        return self.cx(), r

    def p_attr(self, n, x):
        o = self.C(n)()
        o.a = 77
        try:
            o.a = x
        except Exception:
            if o.a != 77:
                raise AssertionError("refused, but now %r" % o.a)
            raise
        return o.a, o.a

    def p_prop(self, n, x):
        o = self.C(n)()
        o.p = 1
        o.p = x
        return o.p, o.p

    def p_sattr(self, n, x):
        c = self.C(n)
        c.s = 1
        c.s = x
        return c.s, c.s

    # overrides
    def p_vparam(self, n, x):
        got = []

        class S(self.C(n)):
            def m(self, x):
                got.append(x)
                return x
        S().call_m(str(x))
        return None, got[0]

    # what an override answers; C++ is told of a refusal by the traceback on sys.stderr
    def _answer(self, call):
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            r = call()
            text = sys.stderr.getvalue()
        finally:
            sys.stderr = err
        if text:
            raise {"TypeError": TypeError, "OverflowError": OverflowError, "ValueError": ValueError}.get(text.strip().split("\n")[-1].split(":")[0], RuntimeError)(text)
        return int(r)

    def p_vret(self, n, x):
        class S(self.C(n)):
            def m(self, a):
                return x
        return self._answer(lambda: S().call_m("0")), None

    def p_vro(self, n, x):
        class S(self.C(n)):
            def ro(self):
                return x
        return self._answer(S().call_ro), None

    def p_vri(self, n, x):
        got = []

        class S(self.C(n)):
            def ri(self, a):
                got.append(a)
                return a
        r = self._answer(lambda: S().call_ri(str(x)))
        return r, got[0]
