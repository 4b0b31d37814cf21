"""Adapter: calls of overloaded functions."""
import ctypes, sys
import atoms as A
import calls


class Adapter(calls.Adapter):
    def __init__(self, params):
        super(Adapter, self).__init__(params)
        self.sets = params["sets"]
        self.subs = {}

    def target(self, s):
        m = self.M.mods[s["mod"]][0]
        k, n = s["kind"], s["name"]
        if k in ("func", "ctor"):
            return getattr(m, n)
        c = getattr(m, "Q" + n)
        if k == "static":
            return getattr(c, n)
        if k in ("virt", "prot"):
            if n not in self.subs:
                def over(self_, *a, **kw):
                    return getattr(super(sub, self_), n)(*a, **kw)
                sub = type("Sub", (c,), {})
                if s["over"]:
                    setattr(sub, n, over)
                self.subs[n] = sub
            c = self.subs[n]
        if k == "call":
            return c()
        return getattr(c(), n)

    def step(self, a):
        s = self.sets[a["set"] - 1]
        m, lib, env = self.M.mods[s["mod"]]
        ex = [compile(s["vals"][v - 1], "<arg>", "eval") for v in a["pos"]]
        kwn = ["a%d" % a["kw"][0]] if a["kw"] else []
        kwe = [compile(s["vals"][a["kw"][1] - 1], "<arg>", "eval")] if a["kw"] else []
        f = self.target(s)
        self.reasons = 0
        sig = dict(mod=s["mod"], kind=s["kind"], ret="")
        exc, text, ret, leak = self.once(sig, f, (ex, kwe), kwn, 1 if a["throw"] else 0, True)
        seen = text.split("|") if text else []
        gil = ""
        if seen:
            gil = "held" if seen[0][0] == "@" else "released"
            seen[0] = seen[0][1:]
        if not ctypes.pythonapi.PyGILState_Check():
            gil += ", not held after the call"
        if not leak:
            leak = self.leaks(lambda: self.once(sig, f, (ex, kwe), kwn, 1 if a["throw"] else 0, False), lib)
        exc = exc.lstrip("?")
        if exc.endswith("TypeError"):
            exc = "TypeError"
        return dict(exc=exc.split("(")[0], seen=seen, ret=ret, leak=leak, gil=gil, reasons=self.reasons)

    def once(self, sig, f, codes, kwn, throw, check):
        r = super(Adapter, self).once(sig, self.watched(f) if check else f, codes, kwn, throw, check)
        if sig["kind"] == "ctor" and r[2] and r[2][1].startswith("?"):
            r = (r[0], r[1], ["one", "self"], r[3])
        return r

    def watched(self, f):
        def g(*a, **kw):
            try:
                return f(*a, **kw)
            except TypeError as e:
                l = e.args[0] if len(e.args) == 1 else None
                self.reasons = len(l) if type(l) is list and all(type(x) is str and x for x in l) else repr(e.args)
                raise
        return g
