"""Adapter: custodians and wards."""
import gc, importlib, warnings
warnings.simplefilter("ignore")


class Adapter(object):
    def __init__(self, params):
        self.h = params["h"]
        self.m = importlib.import_module(params["module"])
        self.cl = self.h["classes"]
        self.py = [getattr(self.m, c["name"]) for c in self.cl]
        self.sub = [type("Sub%d" % k, (o,), self.body(c)) if c["subs"] else None for k, (o, c) in enumerate(zip(self.py, self.cl))]
        gc.collect()
        gc.freeze()

    def body(self, c):
        d = {"__eq__": lambda a, b: True, "__ne__": lambda a, b: False, "__hash__": None}
        if c.get("getattr"):     # attributes that are not there look like something
            d["__getattr__"] = lambda self, name: 17
        if c.get("raiseq"):
            def eq(a, b):
                raise ValueError("never compare")
            d["__eq__"] = eq
        return d

    def reset(self):
        self.slot, self.ser, self.ties, self.mute = {}, {}, 0, False
        gc.collect()
        self.m.late()

    def abandon(self):
        self.slot.clear()

    def finish(self):
        self.slot.clear()
        gc.collect()
        left = [s for s in self.ser.values() if self.m.is_live(s)]
        return "objects left: %r" % left if left else None

    def step(self, a):
        r = "ok"
        if a["op"] == "drop":
            del self.slot[a["slot"]]
        elif a["op"] == "tie":
            self.ties += 1
            o = self.slot[a["slot"]]
            setattr(o, "tied%d" % self.ties, self.slot[a["to"]])
            del o
        else:
            o = self.h["ops"][a["f"] - 1]
            args = [self.slot.get(i) for i in a["args"]]
            if o["new"]:
                f = (self.sub if a["sub"] else self.py)[o["cls"] - 1]
            elif o["cls"]:
                f = getattr(self.slot[a["self"]], o["name"])
            else:
                f = getattr(self.m, o["name"])
            x = None
            try:
                x = f(*args)
            except Exception as e:
                r = type(e).__name__
                # what cannot keep wards has no such attribute; overloads make that a TypeError
                if "__wards__" in str(e) and r in ("AttributeError", "TypeError"):
                    r = "refused"
                    self.mute = True    # C++ may have noted the relation
                del e
            f = args = None
            if x is not None:
                if hasattr(type(x), "ser"):
                    self.ser[a["id"]] = x.ser()
                elif x.get() != 7:
                    r = "part"
                if a["dst"]:
                    self.slot[a["dst"]] = x
            del x
        late = self.m.late()
        gc.collect()
        self.m.late()
        alive = sorted(i for i, s in self.ser.items() if self.m.is_live(s))
        return dict(r=r, alive=alive, late=[] if not late or self.mute else late)
