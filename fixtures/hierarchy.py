"""Adapter: objects of class hierarchies."""
import copy, gc, importlib, sys, types, warnings
warnings.simplefilter("ignore")


class Adapter(object):
    def __init__(self, params):
        self.h = params["h"]
        ms = [importlib.import_module(params["module"] + ("a" if params.get("split") else ""))]
        if params.get("split"):
            sys.modules[params["module"] + "a.ns"] = ms[0].ns
            ms.append(importlib.import_module(params["module"] + "b"))
        self.Boom = tuple(m.Boom for m in ms)
        self.m = types.SimpleNamespace()
        for m in ms:
            self.m.__dict__.update((n, f) for n, f in vars(m).items() if n.startswith(("take_", "give_")))
        self.cl = self.h["classes"]
        self.py = {}
        for k, c in enumerate(self.cl, 1):
            if not c["hidden"]:
                o = ms[c.get("home", 1) - 1]
                for p in params["paths"][k - 1].split("."):
                    o = getattr(o, p)
                self.py[k] = o
        self.sub = {}
        if self.h["sub"]:
            for k, o in self.py.items():
                self.sub[k] = type("Sub%d" % k, (o,), {})

    def reset(self):
        self.x = None

    def abandon(self):
        self.x = None

    def finish(self):
        self.x = None
        return None

    def name(self, k):
        return self.cl[k - 1]["name"]

    def look(self, r):
        x = self.x
        if x is None:
            return dict(r=r, type=0)
        t, sub = type(x), False
        for k, s in self.sub.items():
            if t is s:
                t, sub = self.py[k], True
        ty = [k for k, o in self.py.items() if o is t]
        res = dict(r=r, type=ty[0] if ty else repr(t), sub=sub, isa=[k for k, o in sorted(self.py.items()) if isinstance(x, o)])
        res["attrs"] = [[k, getattr(x, "k_" + self.name(k))] for k in res["isa"] if hasattr(x, "k_" + self.name(k))]
        res["meths"] = [[k, getattr(x, "m_" + self.name(k))()] for k in res["isa"] if hasattr(x, "m_" + self.name(k))]
        res["who"] = x.who()
        return res

    def step(self, a):
        op, m = a["op"], self.m
        r = 0
        if op == "new":
            self.x = (self.sub if a["sub"] else self.py)[a["d"]]()
        elif op == "give":
            self.x = getattr(m, "give_%s_%s_%s" % (a["kind"], self.name(a["s"]), self.name(a["d"])))()
        elif op in ("take", "other"):
            f = getattr(m, "take_%s_%s" % (a["kind"], self.name(a["t"])))
            v = self.x if op == "take" else {"None": None, "int": 7, "type": self.py[a["t"]]}[a["v"]]
            try:
                r = f(v)
            except TypeError:
                r = -1
        elif op == "set":
            n = "k_" + self.name(a["t"])
            setattr(self.x, n, 1 - getattr(self.x, n))
        elif op == "bump":
            getattr(self.x, "bump_" + self.name(a["t"]))()
        elif op == "boom":
            try:
                getattr(self.x, "boom_" + self.name(a["t"]))()
            except self.Boom as e:
                r = int(str(e))
        elif op == "gil":
            r = getattr(self.x, "gil_" + self.name(a["t"]))()
        elif op == "copy":
            y = copy.copy(self.x)
            if y is self.x:
                r = "same"
            self.x = y
        elif op == "drop":
            self.x = None
        return self.look(r)
