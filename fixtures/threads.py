"""Adapter: threads of Python and of C++ that follow a script, step by step."""
import ctypes, gc, importlib, sys, threading, weakref
import threads_src as S

NOTHING = object()


class Adapter(object):
    def __init__(self, params):
        self.h = h = params["h"]
        self.out = sys.argv[3]
        self.ms = params["ms"]
        self.m = m = importlib.import_module(params["module"])
        self.free = ctypes.CDLL(m.__file__)     # lets others run meanwhile
        self.held = ctypes.PyDLL(m.__file__)
        self.free.ctl_next.restype = ctypes.c_char_p
        self.free.ctl_run.restype = ctypes.c_char_p
        self.T, self.t = m.T, m.T()
        sys.excepthook = lambda t, v, tb: self.held.ctl_printed(t.__name__.encode())
        me = self
        ns = {}
        for i, v in enumerate(h["virts"], 1):
            if v["over"]:
                ns[v["name"]] = (lambda i, v: lambda self: me.override(i, v))(i, v)
        self.D = type("D", (m.D,), ns)

        class Pet(m.Pet):
            def __del__(self):
                me.held.ctl_note(b"gone" if ctypes.pythonapi.PyGILState_Check() else b"gone, unlocked")
        self.Pet = Pet
        self.subs = {f["name"]: type(f["name"], (getattr(m, f["name"]),), {}) for f in h["fns"] if f["kind"] == "hctor"}
        self.env = {"m": m}
        self.todo = []
        self.threads = []
        self.d = self.D()
        m.hold(self.d)
        self.plain = m.D() if not any(v["pure"] for v in h["virts"]) else None
        for k, kind in enumerate(h["threads"], 1):
            if kind == "py":
                t = threading.Thread(target=self.base, args=(k,), daemon=True)
                t.start()
                self.threads.append(t)
            else:
                self.free.ctl_native(k)
        gc.collect()

    # ---- Python activations
    def base(self, k):
        self.held.ctl_begin(k)
        self.frame("base", None)

    def frame(self, name, v):
        while True:
            c = self.free.ctl_next(ctypes.pythonapi.PyGILState_Check(), name.encode(), 1 if v is None else 0).decode()
            if c == "ret":
                return 5 if v["ret"] == "int" else None
            if c == "raise":
                raise KeyError("x")
            if c == "quit":
                return
            if c == "give":
                self.m.take(self.Pet())
                note = "given"
            else:
                op, i = c.split()
                try:
                    note = self.call(self.h["fns"][int(i) - 1], op == "refuse")
                except Exception as e:
                    note = type(e).__name__ if type(e).__name__ in ("Err", "TypeError") else repr(e)
            self.held.ctl_note(note.encode())

    def override(self, i, v):
        self.held.ctl_push(1)
        try:
            return self.frame(v["name"], v)
        finally:
            self.held.ctl_push(-1)

    def show(self, r, f):
        n = type(r).__name__
        if n == "Thing":
            return "Thing%d" % r.v
        if n.startswith("S_"):
            return "S"
        if n.startswith("__std__vector") or "ector" in n:
            return repr(list(r))
        if isinstance(r, tuple):
            return "(%s)" % ", ".join(self.show(x, f) for x in r)
        return repr(r)

    def call(self, f, refused):
        n, k, m = f["name"], f["kind"], self.m
        args = [eval(a, self.env) for a in S.ARGS[f["par"]]]
        if k in ("func", "over"):
            r = getattr(m, n)(*args)
        elif k in ("meth", "fmeth"):
            r = getattr(self.t, n)(*args)
        elif k == "static":
            r = getattr(m.T, n)(*args)
        elif k == "call":
            r = self.t(*args)
        elif k == "len":
            r = len(self.t)
        elif k in ("ctor", "fctor"):
            r = getattr(m, n)(*args)
        elif k == "hctor":
            r = self.subs[n](*args)
        elif k == "prot":
            r = getattr(m.D, n)(self.plain if refused else self.d, *args)
        elif k == "vmeth":
            r = getattr(m.D, n)(self.d)
        elif k == "attr":
            r = getattr(self.t, n)
        elif k == "setattr":
            r = setattr(self.t, n, 5)
        else:
            s = getattr(m, "S_" + n)() if k != "conv" else None
            if k == "op":
                r = s + s
            elif k == "neg":
                r = -s
            elif k == "iop":
                r = s
                r += s
            elif k == "eq":
                r = s == s
            elif k == "lt":
                r = s < s
            elif k == "str":
                r = str(s)
            elif k == "copy":
                r = s.__copy__()
            elif k == "dtor":
                s = r = None
            elif k == "conv":
                r = getattr(m, "use_" + n)(m.Thing(2))
        if k in S.MAKES:
            return "made"
        return self.show(r, f)

    # ---- whole tests: the interpreter may be held by a thread that waits
    def reset(self):
        pass

    def refs(self):
        for n in ("last_type", "last_value", "last_traceback", "last_exc"):
            if hasattr(sys, n):
                delattr(sys, n)
        gc.collect()
        return sys.getrefcount(self.d), sys.getrefcount(self.D), sys.getrefcount(self.t), sys.getrefcount(self.m.take)

    def whole(self, acts):
        r0 = self.refs()
        script = "".join("%d %s\n" % (a["t"], {"ret": "ret", "raise": "raise", "throw": "throw", "give": "give", "destroy": "destroy"}.get(a["op"], "%s %d" % (a["op"], a["x"]))) for a in acts)
        log = self.free.ctl_run(script.encode(), self.out.encode(), self.ms).decode().splitlines()
        self.free.ctl_drop()
        res = []
        for l in log:
            top, name, depth, lock, note, printed = l.split("\t")
            res.append(dict(top=top, name=name, depth=int(depth), lock=lock == "1", note=note, printed=printed))
        r1 = self.refs()
        self.end = None if r0 == r1 else "reference counts %s before, %s after" % (r0, r1)
        return res

    def finish(self):
        return self.end

    def abandon(self):
        pass
