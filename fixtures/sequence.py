"""Adapter: objects used as sequences and called."""
import ctypes, gc, importlib, warnings
import atoms as A
import calls

warnings.simplefilter("ignore")
NAMES = dict(len="__len__", get="__getitem__", set="__setitem__", mul="__mul__")


class Adapter(object):
    def __init__(self, params):
        self.h = h = params["h"]
        self.m = m = importlib.import_module(params["module"])
        self.lib = ctypes.PyDLL(m.__file__)
        self.lib.lg_live.restype = ctypes.c_long
        o = m
        for n in params["path"].split("."):
            o = getattr(o, n)
        self.T = type("SubT", (o,), {}) if h["shape"] == "sub" else o
        self.env = {"m": m, "BadBool": calls.BadBool, "Fake": calls.Fake, "T": o}
        self.good = [eval(g[0], dict(self.env)) for g in h["good"]]
        self.shown = {g[1]: i for i, g in enumerate(h["good"], 1)}
        self.peek = getattr(m, h["name"] + "_peek")

        class Index(object):
            def __init__(self, i):
                self.i = i

            def __index__(self):
                return self.i
        self.Index = Index
        self.k = 0
        gc.collect()
        gc.freeze()

    def reset(self):
        self.x = self.y = None
        self.m.snag(0)
        gc.collect()
        self.live = self.lib.lg_live()

    def abandon(self):
        self.x = self.y = None
        self.m.snag(0)

    def finish(self):
        self.x = self.y = None
        self.m.snag(0)
        gc.collect()
        n = self.lib.lg_live() - self.live
        return "%d C++ objects stay alive" % n if n else None

    def val(self, v):
        s = A.show(v, self.m)
        return self.shown.get(s, s)

    def see(self, o):
        if o is None:
            return dict(on=False, v=[])
        return dict(on=True, v=[self.shown.get(s, s) for s in self.peek(o).split("\x01")[:-1]])

    def ev(self, text):
        return eval(text, dict(self.env))

    def do(self, a):
        op, x = a["op"], self.x
        i = a.get("i")
        if i is not None and op != "call":
            self.k += 1
            if self.k % 3 == 0:
                i = self.Index(i)
        if op == "new":
            self.x = x = None
            self.x = self.T()
            for e in self.h["starts"][a["k"] - 1]:
                self.x.push(self.good[e - 1])
        elif op == "get":
            return self.val(x[i])
        elif op == "set":
            x[i] = self.good[a["v"] - 1]
        elif op == "setbad":
            x[0] = self.ev(self.h["badsrc"][a["b"] - 1])
        elif op == "in":
            r = self.good[a["v"] - 1] in x
            if type(r) is not bool:
                return r
            return int(r)
        elif op == "inbad":
            return self.ev(self.h["badsrc"][a["b"] - 1]) in x
        elif op == "huge":
            return x[self.ev(self.h["hugesrc"][a["k"] - 1])]
        elif op == "hugeset":
            x[self.ev(self.h["hugesrc"][a["k"] - 1])] = self.good[0]
        elif op == "len":
            return len(x)
        elif op == "del":
            del x[0]
        elif op == "list":
            return [self.val(e) for e in x] if self.k % 2 else [self.val(e) for e in list(x)]
        elif op == "rev":
            return [self.val(e) for e in reversed(x)]
        elif op == "slice":
            return x[0:1]
        elif op == "bool":
            return int(bool(x))
        elif op == "add":
            self.x = x + self.y
        elif op == "addbad":
            return x + 5
        elif op == "iadd":
            x += self.y
            self.x = x
        elif op == "mul":
            self.x = x * a["k"]
        elif op == "rmul":
            self.x = a["k"] * x
        elif op == "imul":
            x *= a["k"]
            self.x = x
        elif op == "mulbad":
            return x * "a"
        elif op == "mulhuge":
            return x * 2 ** 32
        elif op == "call":
            return x(a["i"], self.good[a["v"] - 1]) if a["i"] == 1 else x(i=a["i"], v=self.good[a["v"] - 1])
        elif op == "callbad":
            return x(1, 2, 3)
        elif op == "swap":
            self.x, self.y = self.y, self.x
        elif op == "alias":
            self.y = x
        elif op == "drop":
            self.x = None
        elif op == "break":
            self.m.snag(1)
        elif op == "mend":
            self.m.snag(0)

    def step(self, a):
        op = a["op"]
        try:
            r = self.do(a)
            r = ["ok"] + ([r] if r is not None else [])
        except IndexError as e:
            r = ["index"]
        except self.m.Error as e:
            r = ["thrown"]
        except Exception as e:
            r = ["%s: %s" % (type(e).__name__, e)]
            if type(e) is SystemError and op != "del":
                r = ["an error without exception: %s" % e]
        if a["want"] == "refused" and r[0] != "ok" and not r[0].startswith("an error"):
            r = ["refused"]
        return dict(r=r, x=self.see(self.x), y=self.see(self.y), same=self.x is self.y and self.x is not None)
