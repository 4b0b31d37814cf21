"""Adapter: what there is to see in a module."""
import importlib, types


class Adapter(object):
    def __init__(self, params):
        self.p = params

    def reset(self):
        pass

    def finish(self):
        return None

    def abandon(self):
        pass

    def get(self, path):
        o = self.m
        for p in path:
            o = getattr(o, p)
        return o

    def obj(self, path, own):
        """(function or method to call at path)"""
        return self.get(path)

    def args(self, f, k):
        try:
            return f(*[7] * k)
        except TypeError:
            return 0

    def entry(self, e):
        path, kind = e["path"], e["kind"]
        o = self.get(path)
        r = dict(kind="?")
        if kind == "ns":
            r = dict(kind=type(o).__name__, name=o.__name__ == ".".join([self.p["module"]] + path))
        elif kind == "class":
            own = o()
            r = dict(kind=type(o).__name__ if not isinstance(o, type) else "type", name=[o.__module__ + "." + o.__name__],
                     bases=[b.__name__ if b is object else self.which.get(b, "another") for b in o.__bases__], is_=type(own) is o, doc=o.__doc__ == "about %d" % e["id"])
        elif kind in ("fn", "meth"):
            if kind == "meth" and not e["static"]:
                f = getattr(self.get(path[:-1])(), path[-1])
                try:
                    o(*[])
                    bound = False
                except TypeError:
                    bound = True
            else:
                f, bound = o, False
            r = dict(kind="callable" if callable(o) else type(o).__name__, bound=bound, name=o.__name__, answers=[self.args(f, k) for k in range(4)], doc="about %d" % e["id"] in (o.__doc__ or ""))
        elif kind == "attr":
            own = self.get(path[:-1])()
            r = dict(kind="attr", value=getattr(self.get(path[:-1]) if e["static"] else own, path[-1]), own=path[-1] in vars(self.get(path[:-1])))
        elif kind == "value":
            r = dict(kind=type(o).__name__, value=o)
        elif kind == "alias":
            r = dict(kind="alias", same=o is self.get(e["of"]))
        elif kind == "exc":
            r = dict(kind="exc", sub=issubclass(o, Exception), bases=[b.__name__ if b is Exception else self.which.get(b, "another") for b in o.__bases__], name=[o.__module__ + "." + o.__name__])
        elif kind == "cont":
            K = self.get(e["of"])
            c = o([K(), K()])
            r = dict(kind="cont", elems=[type(x) is K for x in c])
        elif kind == "iter":
            r = dict(kind="iter", same=type(iter(self.get(e["of"])())) is o)
        elif kind == "use":
            how = e["how"]
            if how == "eret":
                return dict(kind="use", value=o())
            elif how == "eval":
                return dict(kind="use", value=o(e["answers"][0] * 10 + 1))
            K = self.get(e["of"])
            if how == "ret":
                x = o()
                r = dict(kind="use", value=type(x) is K)
            else:
                r = dict(kind="use", value=o([K(), K()] if how == "vec" else K()))
                try:
                    o(self)
                    r["refused"] = False
                except TypeError:
                    r["refused"] = True
        return r

    def names(self, path):
        o = self.get(path)
        ns = set(vars(o))
        if isinstance(o, type):
            ns |= set(vars(type(o))) if type(o) is not type and type(o) not in map(type, o.__bases__) else set()
        return sorted(n for n in ns if not n.startswith("_"))

    def step(self, a):
        self.m = importlib.import_module(a["module"])
        self.p = a
        self.which = {}
        for e in a["tree"]:
            if e["kind"] in ("class", "exc"):
                try:
                    self.which[self.get(e["path"])] = ".".join(e["path"])
                except AttributeError:
                    pass
        out = {"/" + ".".join(p): self.names(p) for p in a["scopes"]}
        for e in a["tree"]:
            try:
                out[".".join(e["path"])] = self.entry(e)
            except Exception as x:
                out[".".join(e["path"])] = "%s: %s" % (type(x).__name__, x)
        return out
