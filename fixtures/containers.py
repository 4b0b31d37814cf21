"""Adapter: containers made, copied, passed, returned and iterated."""
import ctypes, gc, importlib, warnings
import atoms as A
import calls
import containers_src as S

warnings.simplefilter("ignore")


class Adapter(object):
    def __init__(self, params):
        self.h = h = params["h"]
        self.m = m = importlib.import_module(params["module"])
        self.lib = ctypes.PyDLL(m.__file__)
        self.lib.lg_live.restype = self.lib.lg_blocks.restype = ctypes.c_long
        self.name = h["name"]

        class SubP(m.P):
            pass

        def mkPI(v):
            x = m.PI()
            x.v = v
            return x
        o = m
        if params["path"]:
            for n in params["path"].split("."):
                o = getattr(o, n)
        else:       # named by pybindgen
            o = type(getattr(m, h["name"] + "_H")().c)
        self.T = o
        self.Sub = type("SubT", (o,), {}) if h.get("shape") == "sub" else o

        class Clears(object):
            """an integer that empties the list it is in when asked"""
            def __init__(self, l):
                self.l = l

            def __index__(self):
                del self.l[:]
                return 5

        def clearing(make, more):
            l = []
            l.append(make(Clears(l)))
            l.extend(more)
            return l
        self.env = {"m": m, "SubP": SubP, "BadBool": calls.BadBool, "Fake": calls.Fake, "mkPI": mkPI, "T": o, "clearing": clearing}
        self.idx = {s: e for s, e in h["idx"]}
        self.f = lambda n: getattr(m, "%s_%s" % (self.name, n))
        self.hash = h["kind"] == "hash"
        if not S.cls(h):
            f = self.f
            turn = [0]

            def give(c):
                turn[0] += 1
                return c if turn[0] % 2 else list(c)

            class V(getattr(m, h["name"] + "_V")):
                def take(self, v):
                    return f("put_val")(v)
                taker = take

                def give(self):
                    return give(f("get_rval")())

                def fill(self, *v):
                    return give(f("get_rval")())

                def change(self, v):
                    return give(f("mod_io")(v)[1])
            self.v = V()
        gc.collect()
        gc.freeze()

    def reset(self):
        self.x = self.y = self.it = None
        self.f("clear")()
        gc.collect()
        self.live = self.lib.lg_live()
        self.blocks = self.lib.lg_blocks()

    def abandon(self):
        self.x = self.y = self.it = None

    def finish(self):
        self.x = self.y = self.it = None
        self.f("clear")()
        gc.collect()
        n = self.lib.lg_live() - self.live
        if n:
            return "%d C++ objects stay alive" % n
        n = self.lib.lg_blocks() - self.blocks
        return "%d blocks of C++ memory stay allocated" % n if n else None

    def elem(self, e):
        s = A.show(e, self.m)
        return self.idx.get(s, s)

    def see(self, o):
        if o is None:
            return dict(on=False, v=[])
        if type(o) is not self.T and type(o) is not self.Sub:
            return dict(on=True, v="a %s" % type(o))
        v = [self.elem(e) for e in o]
        return dict(on=True, v=sorted(v, key=str) if self.hash else v)

    def ev(self, text):
        return eval(text, dict(self.env))

    def fill(self, l):
        """a container made from the list"""
        if not S.cls(self.h):
            return self.T(l)
        c = self.Sub()
        for e in l:
            if S.mapping(self.h):
                c.add(*e)
            else:
                c.add(e)
        return c

    def src(self, l):
        return self.ev(self.h["src"][l - 1]) if l > 0 else self.x if l == 0 else self.y

    def put(self, k, v):
        if k == "attr":
            h = getattr(self.m, self.name + "_H")()
            h.c = v
            return self.f("put_attr")(h)
        if k.startswith("virt"):
            return self.f("put_" + k)(self.v, v)
        return self.f("put_" + k)(v)

    def get(self, k):
        if k == "attr":
            h = getattr(self.m, self.name + "_H")()
            self.f("get_attr")(h)
            return h.c
        if k.startswith("virt"):
            return self.f("get_" + k)(self.v)
        return self.f("get_" + k)()

    def mod(self, k, v):
        return self.f("mod_" + k)(*([self.v, v] if k == "virt" else [v]))

    def do(self, a):
        op, h = a["op"], self.h
        if op == "make":
            if a["l"] > 0:
                self.x = self.fill(self.src(a["l"]))
            else:
                self.x = self.T(self.src(a["l"]))
        elif op == "odd":
            v = self.ev(h["oddsrc"][a["b"] - 1])
            try:
                self.fill(v)
            except (TypeError, ValueError, IndexError, RuntimeError):
                pass
        elif op == "bad":
            self.fill(self.ev(h["badsrc"][a["b"] - 1][0]))
        elif op in ("put", "putbad"):
            v = self.src(a["l"]) if op == "put" else self.ev(h["badsrc"][a["b"] - 1][0])
            return self.put(h["putk"][a["f"] - 1], v)
        elif op == "get":
            self.y = None
            self.y = self.get(h["getk"][a["f"] - 1])
        elif op in ("mod", "modbad"):
            v = self.src(a["l"]) if op == "mod" else self.ev(h["badsrc"][a["b"] - 1][0])
            r = self.mod(h["modk"][a["f"] - 1], v)
            self.y = r[1]
            return r[0]
        elif op in ("putthrow", "getthrow", "modthrow"):
            self.m.snag(1)
            try:
                k = h[op[:3] + "k"][a["f"] - 1]
                if op == "getthrow":
                    self.get(k)
                else:
                    getattr(self, op[:3])(k, self.src(a["l"]))
            finally:
                self.m.snag(0)
        elif op == "cset":
            self.f("cset")(a["k"])
        elif op in ("cadd", "cclear"):
            self.f(op[1:] if op == "cclear" else op)()
        elif op == "iter":
            self.order = [self.elem(e) for e in self.x]
            self.it, self.at = iter(self.x), 0
        elif op == "next":
            e = self.elem(next(self.it))
            if self.hash:
                ok = e == self.order[self.at]
                e = sorted(self.order, key=str)[self.at] if ok else "out of order %r" % (e,)
                self.at += 1
            return e
        elif op == "self":
            if iter(self.it) is not self.it:
                return "another iterator"
        elif op == "stop":
            self.it = None
        elif op == "swap":
            self.x, self.y = self.y, self.x
        elif op == "drop":
            self.x = None
        elif op == "mutate":
            for e in self.x:
                e = e[1] if S.mapping(self.h) else e
                e.v += 1
                del e
        elif op == "tie":
            self.x.knot = iter(self.x)
            next(self.x.knot, None)

    def step(self, a):
        bad = self.h["badsrc"][a["b"] - 1][1] if "b" in a else "TypeError"
        try:
            r = self.do(a)
            r = ["ok"] + ([r] if r is not None else [])
        except StopIteration:
            r = ["end"]
        except self.m.Error:
            r = ["thrown"]
        except Exception as e:
            r = ["refused"] if type(e).__name__ == bad else ["%s: %s" % (type(e).__name__, e)]
        if a["op"] == "odd":
            r = ["?"]
        g = [self.idx.get(s, s) for s in self.f("peek")().split("\x01")[:-1]]
        return dict(r=r, g=sorted(g, key=str) if self.hash else g, x=self.see(self.x), y=self.see(self.y))
