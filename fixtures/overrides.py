"""Adapter: virtual methods called by C++ with the overrides of Python classes."""
import ctypes, faulthandler, gc, importlib, json, os, resource, signal, sys
import atoms as A
import calls as L
import overrides_src as O


class Adapter(L.Adapter):
    def __init__(self, params):
        L.Adapter.__init__(self, params)
        sys.excepthook = self.hook
        self.printed = None
        self.classes = {}

    def hook(self, t, v, tb):
        self.printed = t.__name__

    def cls(self, i):
        if i not in self.classes:
            sig = self.sigs[i]
            m = self.M.mods[sig["mod"]][0]
            base = getattr(m, sig["name"])
            me = self

            class Over(base):
                def f(self, *args):
                    me.seen = [A.show(x, m) for x in args]
                    me.nargs = len(args)
                    for j in me.mutate:
                        args[j].v = 90 + j
                    if me.keep:
                        me.kept = args
                    return me.answer()

            class Plain(base):
                pass
            self.classes[i] = (Over, Plain)
        return self.classes[i]

    def step(self, act):
        i = act["sig"] - 1
        sig = self.sigs[i]
        m, lib, env = self.M.mods[sig["mod"]]
        drive = getattr(m, "drive_" + sig["name"])
        Over, Plain = self.cls(i)
        res = ([O.rret(sig["ret"])] if O.rret(sig["ret"]) else []) + [O.REV[sig["params"][k - 1]] for k in O.outs(sig)]
        args = O.args(sig)
        self.mutate = [args.index(k) for k in O.muts(sig)]
        codes = []
        for r, v in zip(res, act["val"]):
            codes.append(compile(r["good"][v - 1][0] if v > 0 else r["bad"][-v - 1][0], "<answer>", "eval"))
        how = act["how"]

        def answer():
            if how in ("raise", "keepraise"):
                raise KeyError("x")
            if how == "none":
                return None
            if how == "extra":
                return 5
            if how == "scalar":
                return 5
            vals = [eval(c, env) for c in codes]
            if how == "short":
                vals = vals[:-1]
            if how == "long":
                vals.append(1)
            if len(vals) == 1 and how in ("value", "keep"):
                return vals[0]
            return tuple(vals) if vals else None
        self.answer = answer
        self.keep, self.kept = how.startswith("keep"), ()
        obj = Plain() if how == "absent" else Over()

        def once():
            self.seen, self.printed = [], None
            for n in ("last_type", "last_value", "last_traceback", "last_exc"):
                if hasattr(sys, n):
                    delattr(sys, n)
            lib.lg_clear()
            drive(obj, act["c"])
            return self.printed or "", lib.lg_text().decode("latin-1")
        if sig["pure"] and sig["ret"] not in ("void", "PI") and (how not in ("value", "keep") or min(act["val"] + [1]) < 0):
            return self.fatal(once)
        exc, text = once()
        for n in ("last_type", "last_value", "last_traceback", "last_exc"):
            if hasattr(sys, n):
                delattr(sys, n)
        seen = self.seen
        ran, _, rest = text.partition("|")
        out = rest.split("|")
        kept = [A.show(x, m) for x in self.kept]
        self.kept = ()
        leak = 0
        if "leak" in self.judge:
            leak = self.leaks(once, lib)
        o = {"seen": seen, "exc": exc, "res": out, "ran": ran, "leak": leak, "kept": kept}
        return {k: o[k] for k in self.judge}

    def fatal(self, once):
        """There is no answer C++ could get: a child process calls."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                faulthandler.disable()
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                sys.excepthook = lambda t, v, tb: os.write(w, json.dumps([t.__name__, self.seen]).encode() + b"\n")
                exc, text = once()
                os.write(w, json.dumps(["went on: %s %s" % (exc, text), self.seen]).encode() + b"\n")
            finally:
                os._exit(3)
        os.close(w)
        said = b""
        while True:
            b = os.read(r, 4096)
            if not b:
                break
            said += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        res = ["fatal"] if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGABRT else ["status %d" % st]
        said = [json.loads(l) for l in said.decode().splitlines()]
        o = {"exc": " ".join(x[0] for x in said), "res": res, "ran": "", "leak": 0, "kept": [], "seen": said[-1][1] if said else None}
        return {k: o[k] for k in self.judge}

    def finish(self):
        return None
