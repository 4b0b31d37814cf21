"""Adapter: attributes of objects and classes."""
import copy, ctypes, gc, importlib, warnings
import atoms as A
import calls

warnings.simplefilter("ignore")


class Adapter(object):
    def __init__(self, params):
        self.h = h = params["h"]
        self.m = m = importlib.import_module(params["module"])
        self.lib = ctypes.PyDLL(m.__file__)
        self.lib.lg_live.restype = ctypes.c_long

        class SubP(m.P):
            pass

        def mkPI(v):
            x = m.PI()
            x.v = v
            return x
        self.env = {"m": m, "SubP": SubP, "BadBool": calls.BadBool, "Fake": calls.Fake, "mkPI": mkPI}
        self.py, self.sub = {}, {}
        for k, p in enumerate(params["paths"], 1):
            o = m
            for n in p.split("."):
                o = getattr(o, n)
            self.py[k] = o
            if h["sub"]:
                self.sub[k] = type("Sub%d" % k, (o,), {})
        self.shown = {}
        for i, a in enumerate(h["attrs"], 1):
            for k, s in enumerate([a["init"][1]] + [g[1] for g in a["good"]]):
                self.shown.setdefault((i, s), k)
        gc.collect()
        gc.freeze()
        self.speek, self.scset = getattr(m, "speek_" + h["name"]), getattr(m, "scset_" + h["name"])

    def reset(self):
        self.x = self.y = None
        for i, a in enumerate(self.h["attrs"], 1):
            if a["static"] and not a["ro"]:
                self.scset(i)
        gc.collect()
        self.live = self.lib.lg_live()

    def abandon(self):
        self.x = self.y = None

    def finish(self):
        self.x = self.y = None
        for i, a in enumerate(self.h["attrs"], 1):
            if a["static"] and not a["ro"]:
                self.scset(i)
        gc.collect()
        n = self.lib.lg_live() - self.live
        return "%d C++ objects stay alive" % n if n else None

    def cls(self, o):
        """number and name of an object's class"""
        for k, c in self.py.items():
            if type(o) is c or type(o) is self.sub.get(k):
                return k, self.h["classes"][k - 1]["name"]

    def pairs(self, text):
        r = []
        for p in text.split(";")[:-1]:
            i, s = p.split("=", 1)
            r.append([int(i), self.shown.get((int(i), s), s)])
        return r

    def see(self, o):
        if o is None:
            return dict(d=0, v=[])
        k, n = self.cls(o)
        return dict(d=k, v=self.pairs(getattr(self.m, "peek_" + n)(o)))

    def value(self, name, v):
        """which value of an attribute that name may mean this is"""
        s = A.show(v, self.m)
        k = [self.shown[i, s] for i, a in enumerate(self.h["attrs"], 1) if a["name"] == name and (i, s) in self.shown]
        return k if k else s

    def find(self, name, a):
        """attributes with this name"""
        return [t for t in self.h["attrs"] if t["name"] == name]

    def target(self, a):
        if a["op"].startswith("s") and "c" in a:
            return (self.sub if a.get("sub") else self.py)[a["c"]]
        return self.x

    def do(self, a):
        op = a["op"]
        if op == "new":
            self.x = (self.sub if a["sub"] else self.py)[a["d"]]()
        elif op in ("get", "sget"):
            return getattr(self.target(a), a["name"])
        elif op in ("del", "sdel"):
            delattr(self.target(a), a["name"])
        elif op == "xfer":
            setattr(self.x, a["name"], getattr(self.y, a["name"]))
        elif op == "mutate":
            v = getattr(self.x, a["name"])
            r = A.show(v, self.m)
            v.v += 1
            return ("shown", r)
        elif op == "orphan":
            x, self.x = self.x, None
            v = getattr(x, a["name"])
            del x
            return v
        elif op == "copy":
            self.y = copy.copy(self.x)
        elif op == "swap":
            self.x, self.y = self.y, self.x
        elif op == "drop":
            self.x = None
        elif op == "uget":
            return self.x.unknown_
        elif op == "uset":
            self.x.unknown_ = 0
        elif op == "udel":
            del self.x.unknown_

    def step(self, a):
        op, h = a["op"], self.h
        r = 0
        if op == "cset":
            if h["attrs"][a["i"] - 1]["static"]:
                self.scset(a["i"])
            else:
                getattr(self.m, "cset_" + self.cls(self.x)[1])(self.x, a["i"])
        elif op in ("set", "sset", "bad", "sbad"):
            t = h["attrs"][a["at"] - 1]
            e = t["good" if "set" in op else "bad"][a["k"] - 1]
            v = eval(e[0], dict(self.env))
            try:
                setattr(self.target(a), a["name"], v)
            except AttributeError:
                r = -1
            except Exception as ex:
                r = -2 if "bad" in op and type(ex).__name__ == e[1] else "%s: %s" % (type(ex).__name__, ex)
            del v
        else:
            try:
                v = self.do(a)
                if op in ("get", "sget", "orphan", "mutate"):
                    s = v[1] if type(v) is tuple and v and v[0] == "shown" else A.show(v, self.m)
                    r = self.shown.get((a["at"], s), s) if a["at"] else s
                elif op == "uget":
                    r = v
                del v
            except AttributeError:
                r = -1
            except TypeError:
                r = -1 if op in ("del", "sdel") else "TypeError"
        return dict(r=r, x=self.see(self.x), y=self.see(self.y), st=self.pairs(self.speek()))
