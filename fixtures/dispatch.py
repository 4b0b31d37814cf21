"""Adapter: virtual methods and Python overrides."""
import ctypes, gc, importlib, io, sys, types, warnings
warnings.simplefilter("ignore")


def py(m):
    return m["custom"] or m["name"]


class Err(io.StringIO):
    """sys.stderr: reports the exceptions that are printed."""
    def __init__(self, lib):
        io.StringIO.__init__(self)
        self.lib = lib
        self.buf = ""

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            for e in ("RuntimeError", "TypeError", "RecursionError", "AttributeError", "SystemError"):
                if line.startswith(e):
                    self.lib.dl_note(("printed " + e).encode())


class Adapter(object):
    def __init__(self, params):
        self.h = params["h"]
        self.progs = params["progs"]
        self.fuel = params["fuel"]
        split = self.h.get("cut")
        a = importlib.import_module(params["module"] + ("a" if split else ""))
        self.m = types.SimpleNamespace(**vars(a))
        if split:
            b = importlib.import_module(params["module"] + "b")
            self.m.__dict__.update((n, f) for n, f in vars(b).items() if not n.startswith("_"))
        self.lib = ctypes.PyDLL(a.__file__)
        self.lib.dl_text.restype = ctypes.c_char_p

    def reset(self):
        pass

    def abandon(self):
        pass

    def finish(self):
        return None

    def override(self, cell, l, j, scripts):
        """The override of method j at level l; cell[0] is the class it is defined in."""
        lib, meths, m, h = self.lib, self.h["meths"], self.m, self.h
        me = meths[j - 1]
        script = scripts[j - 1]["script"]

        def show(r):
            return "=" + ("None" if r is None else str(r))

        def f(self):
            lib.dl_note(("P%d.%s" % (l, me["name"])).encode())
            if lib.dl_fuel() > 0:
                for a in script:
                    op = a["op"]
                    if op == "self":
                        r = getattr(self, py(meths[a["j"] - 1]))()
                    elif op == "super":
                        r = getattr(super(cell[0], self), py(me))()
                    elif op == "cxx":
                        r = getattr(m, "drv_" + meths[a["j"] - 1]["name"])(self)
                    elif op == "raise":
                        raise RuntimeError("raised")
                    elif op == "bad":
                        return "bad"
                    lib.dl_note(show(r).encode())
            return None if me["void"] else 100 * l + j
        return f

    def step(self, act):
        p = self.progs[act["prog"] - 1]
        c = getattr(self.m, self.h["classes"][p["cls"] - 1])
        for l, scripts in enumerate(p["levels"], 1):
            cell = []
            d = {py(self.h["meths"][j - 1]): self.override(cell, l, j, scripts) for j in range(1, len(scripts) + 1) if scripts[j - 1]["over"]}
            c = type("P%d" % l, (c,), d)
            cell.append(c)
        o = c()
        name = self.h["meths"][p["entry"]["j"] - 1]["name"]
        pyname = py(self.h["meths"][p["entry"]["j"] - 1])
        held = p["entry"].get("held")
        if held:
            self.m.give(o)
            del o
            gc.collect()
        self.lib.dl_reset(self.fuel)
        err, sys.stderr = sys.stderr, Err(self.lib)
        try:
            if held:
                r = getattr(self.m, "held_" + name)()
            elif p["entry"]["from"] == "cxx":
                r = getattr(self.m, "drv_" + name)(o)
            else:
                r = getattr(o, pyname)()
            ret = "None" if r is None else str(r)
        except Exception as e:
            ret = "!" + type(e).__name__
        finally:
            sys.stderr = err
        if held:
            self.m.drop()
        t = self.lib.dl_text().decode()
        return {"log": t.split("|")[:-1], "ret": ret}
