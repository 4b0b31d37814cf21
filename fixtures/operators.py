"""Adapter: operators on objects."""
import ctypes, gc, importlib, operator
import operators_src as S

NUM = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
INP = {"+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv}
CMP = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}


class Adapter(object):
    def __init__(self, params):
        self.h = h = params["h"]
        self.m = m = importlib.import_module(params["module"])
        self.lib = ctypes.PyDLL(m.__file__)
        self.lib.lg_live.restype = ctypes.c_long
        self.lib.lg_text.restype = ctypes.c_char_p
        self.py, self.sub, self.what, self.texts = {}, {}, [], {}
        for k, c in enumerate(h["classes"], 1):
            self.py[k] = getattr(m.ns if c["scope"] else m, c["name"])
            if h["sub"]:
                self.sub[k] = type("Sub%d" % k, (self.py[k],), {})
            for v in range(S.MOD):
                self.texts[S.text(c["name"], v)] = (k, v)
        first = self.py[1]

        class Fake(object):
            __class__ = property(lambda self: first)
        self.values = [eval(e, {"fake": Fake()}) for e in params["values"]]
        gc.collect()
        gc.freeze()

    def reset(self):
        self.x = self.y = None
        gc.collect()
        self.live = self.lib.lg_live()

    def abandon(self):
        self.x = self.y = None

    def finish(self):
        self.x = self.y = None
        gc.collect()
        n = self.lib.lg_live() - self.live
        return "%d C++ objects stay alive" % n if n else None

    def cls(self, o):
        for k, c in self.py.items():
            if type(o) is c or type(o) is self.sub.get(k):
                return k
        return 0

    def see(self, o):
        if o is None:
            return [0, False, 0]
        k = self.cls(o)
        return [k, type(o) is self.sub.get(k), getattr(self.m, "get_" + self.h["classes"][k - 1]["name"])(o)]

    def put(self, o, v):
        getattr(self.m, "put_" + self.h["classes"][self.cls(o) - 1]["name"])(o, v)

    def side(self, a, f):
        return {"x": self.x, "y": self.y}[a[f]] if f in a else self.values[a["k"] - 1]

    def step(self, a):
        op, r = a["op"], {"c": 0}
        self.lib.lg_clear()
        if op == "new":
            self.x = (self.sub if a["sub"] else self.py)[a["c"]]()
            self.put(self.x, 1)
        elif op == "swap":
            self.x, self.y = self.y, self.x
        elif op == "alias":
            self.y = self.x
        elif op == "drop":
            self.x = None
        elif op == "poke":
            self.put(self.x, (self.see(self.x)[2] + 1) % S.MOD)
        elif op == "str":
            try:
                t = str(self.x).encode()
            except UnicodeDecodeError as e:
                t = e.object
            o, v = self.texts.get(t, (0, 0))
            r = {"text": o, "v": v} if o or type(self.x).__name__ in t.decode("utf-8", "replace") and b" object at 0x" in t else {"text": t.decode("utf-8", "replace")}
        else:
            try:
                if op == "neg":
                    v = -self.x
                elif op == "inp":
                    v = INP[a["f"]](self.x, self.side(a, "r"))
                else:
                    v = (NUM if op == "num" else CMP)[a["f"]](self.side(a, "l"), self.side(a, "r"))
                if op == "cmp":
                    r = {"truth": v}
                else:
                    k = self.cls(v)
                    if k:
                        r = {"c": k, "v": self.see(v)[2]}
                    elif type(v) in (int, float) and v == int(v):
                        r = {"c": {int: 101, float: 102}[type(v)], "v": int(v)}
                        v = None
                    else:
                        r = {"got": repr(v)}
                    if op == "inp":
                        self.x = v
                    else:
                        self.y = v
                del v
            except TypeError:
                r = {"exc": "TypeError"}
            except Exception as e:
                r = {"exc": "%s: %s" % (type(e).__name__, e)}
        seen = []
        t = self.lib.lg_text().decode()
        if t:
            calls = [c.split(",") for c in t.split("|")[:-1]]
            seen = [calls[0][0]] + [int(i) for i in calls[0][1:]] if len(calls) == 1 else calls
        return dict(r=r, seen=seen, x=self.see(self.x), y=self.see(self.y), same=self.x is not None and self.x is self.y, live=self.lib.lg_live() - self.live)
