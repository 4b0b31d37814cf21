"""Drives the object-lifetime fixture: actions and observations of Ownership.tla / RefCount.tla."""
import copy, ctypes, gc, importlib, random

UNIQUE = ("P", "H", "F", "E")


class Adapter:
    def __init__(self, params):
        self.p = params
        self.m = importlib.import_module(params["module"])
        self.more = importlib.import_module(params["module"] + "b") if params["module"].endswith("2") else self.m
        self.lib = ctypes.PyDLL(self.m.__file__)
        k = self.k = params["kind"]
        self.cls = getattr(self.m, k)
        self.unique = k in UNIQUE
        self.refs = k not in UNIQUE and k != "S"
        self.sub = None
        if params.get("sub"):
            class Sub(self.cls):
                tag = 0

                def vget(self, d):
                    return 1000 + self.tag
            self.sub = Sub
        gc.collect()
        gc.freeze()
        gc.disable()
        self.V, self.S, self.N = params["V"], params["S"], params["N"]
        self.var = {}
        self.reset()

    # ---- bookkeeping, all of it outside the code under test
    def f(self, name):
        n = self.k + "_" + name
        return getattr(self.m if hasattr(self.m, n) else self.more, n)

    def bk(self, name, *a):
        return getattr(self.lib, "bk_" + name)(*a)

    def slot(self, s):
        return self.bk(self.k + "_slot", s - 1)

    def reset(self):
        self.var = {v: None for v in range(1, self.V + 1)}
        gc.collect()
        self.bk("reset_all")
        self.ids = {}            # C++ id -> model id
        self.sown = {}
        self.seen = 0
        self.anomalies = 0

    def abandon(self):
        # keep whatever is left: it may be broken
        keep.append(dict(self.var))
        self.var = {}

    def scan(self):
        """New C++ objects: those that survive the action are the model's next objects; the others were temporaries."""
        nx = self.bk("next")
        for i in range(self.seen + 1, nx + 1):
            if self.bk("created", i) != 1:
                self.anomalies += 1
            d = self.bk("destroyed", i)
            if d == 0:
                self.ids[i] = len(self.ids) + 1
            elif d != 1:
                self.anomalies += 1
        self.seen = nx

    def alive(self, model):
        for c, m in self.ids.items():
            if m == model:
                return self.bk("destroyed", c) == 0
        return False

    def step(self, a):
        op = a["op"]
        getattr(self, "do_" + op)(a)
        gc.collect()
        self.scan()
        return self.obs()

    def obs(self):
        var, alias, state = [], [], []
        for v in range(1, self.V + 1):
            o = self.var[v]
            if o is None:
                var.append(-2)
                alias.append(0)
                state.append(0)
                continue
            i = self.f("ident")(o)
            var.append(i if i <= 0 else self.ids.get(i, -3))
            alias.append(min(u for u in self.var if self.var[u] is o))
            t = getattr(o, "tag", 0)
            state.append(t if t and self.alive(t) else 0)
            if t and type(o) is not self.sub:
                self.anomalies += 1
        live = []
        inv = {m: c for c, m in self.ids.items()}
        extra = self.anomalies
        for n in range(1, max(self.N, len(self.ids)) + 1):
            if n > self.N:
                extra += 1
                continue
            if n not in inv:
                live.append("none")
                continue
            d = self.bk("destroyed", inv[n])
            live.append("live" if d == 0 else "dead" if d == 1 else "destroyed %d times" % d)
        slots = []
        virt = []
        for s in range(1, self.S + 1):
            i = self.slot(s)
            slots.append(i if i <= 0 else self.ids.get(i, -3))
            if i > 0:
                r = self.bk(self.k + "_vcall", s - 1, 10)
                virt.append(1 if r >= 1000 else 0)
            else:
                virt.append(-1)
        res = {"var": var, "alias": alias, "live": live, "slot": slots, "virt": virt, "state": state,
               "extra": extra, "bad": self.bk("bad")}
        if self.refs:
            res["refs"] = [self.bk("refs", inv[n]) if n in inv and live[n - 1] == "live" else 0 for n in range(1, self.N + 1)]
        return res

    def finish(self):
        for v in self.var:
            self.var[v] = None
        gc.collect()
        for s in range(1, self.S + 1):
            if self.slot(s) > 0 and self.sown.get(s, not self.unique):
                self.bk(self.k + "_drop", s - 1)
        gc.collect()
        self.scan()
        bad = []
        for i in range(1, self.bk("next") + 1):
            if self.p.get("immortal_sub") and self.ids.get(i) in self.subs:
                continue
            if self.bk("created", i) != 1 or self.bk("destroyed", i) != 1:
                bad.append((i, self.bk("created", i), self.bk("destroyed", i)))
        if bad:
            return "objects (id, created, destroyed) at the end: %s" % bad
        if self.bk("bad"):
            return "%d operations on dead objects" % self.bk("bad")
        return None

    # ---- actions
    subs = frozenset()

    def bind(self, a, o):
        self.var[a["v"]] = o

    def do_reset(self, a):
        pass

    def do_new(self, a):
        self.bind(a, self.cls())

    def do_newsub(self, a):
        o = self.sub()
        o.tag = len(self.ids) + 1
        self.subs = self.subs | {o.tag}
        self.bind(a, o)

    def do_make(self, a):
        self.bind(a, self.f("make")())

    def do_alias(self, a):
        self.bind(a, self.var[a["u"]])

    def do_del(self, a):
        self.var[a["v"]] = None

    def _give(self, a, fn, own):
        r = self.f(fn)(a["s"] - 1, self.var[a["v"]])
        assert r is None, r
        self.sown[a["s"]] = own

    def do_give(self, a):
        self._give(a, "give", True)

    def do_keep(self, a):
        self._give(a, "keep", True)

    def do_lend(self, a):
        self._give(a, "lend", False)

    def _get(self, a, fn):
        o = self.f(fn)(a["s"] - 1)
        if not isinstance(o, self.cls):
            raise AssertionError("%s returned %r" % (fn, o))
        self.bind(a, o)

    def do_take(self, a):
        self._get(a, "take")
        self.sown.pop(a["s"], None)

    def do_borrow(self, a):
        self._get(a, {"ptr": "borrow", "ref": "bref", None: "borrow"}.get(a.get("kind"), a.get("kind")))

    def do_dup(self, a):
        if "kind" not in a:
            return self._get(a, "dup")
        src = self.var[a["u"]]
        self.bind(a, copy.copy(src) if a["kind"] == "copy" else self.cls(src))

    def do_copy(self, a):
        self._get(a, a["kind"])

    def do_use(self, a):
        o, kind = self.var[a["v"]], a["kind"]
        me = self.f("ident")(o)
        if kind == "byval":
            self.f("byval")(o)
        elif kind in ("byref", "bycref"):
            r = self.f(kind)(o)
            assert r == me, (kind, r, me)
        elif kind == "method":
            o.set(3)
            assert o.get() == 3 and o.id() == me
        elif kind == "wrongtype":
            for fn, args in (("ident", (5,)), ("byval", ("x",)), ("byref", (None,)), ("bycref", (self.m,)), ("give", (0, 1.5)), ("give", ("x", o))):
                try:
                    self.f(fn)(*args)
                except TypeError:
                    pass
                else:
                    raise AssertionError("%s%r did not raise TypeError" % (fn, args))
        else:
            raise KeyError(kind)

    def do_drop(self, a):
        self.bk(self.k + ("_drop" if a["own"] else "_forget"), a["s"] - 1)
        self.sown.pop(a["s"], None)

    # ---- random histories for trace validation: the actions the program may take are the specification's,
    # decided here from what the program itself did (not from the specification's state)
    def record(self, emit):
        rng = random.Random(self.p["seed"])
        for h in range(self.p["histories"]):
            self.reset()
            self.subs = frozenset()
            emit({"op": "reset"}, {})
            for _ in range(self.p["length"]):
                a = self.propose(rng)
                if a is None:
                    break
                emit(a, json_ok(self.step(a)))
            msg = self.finish()
            if msg:
                raise AssertionError(msg)

    def propose(self, rng):
        V, S = range(1, self.V + 1), range(1, self.S + 1)
        unborn = len(self.ids) < self.N
        cur = lambda v: self.f("ident")(self.var[v]) if self.var[v] is not None else -2
        empty = [v for v in V if self.var[v] is None]
        full = [v for v in V if self.var[v] is not None]
        usable = [v for v in full if cur(v) > 0]
        freeslot = [s for s in S if self.slot(s) == 0]
        inslot = [s for s in S if self.slot(s) > 0]
        c = []
        for v in empty:
            if unborn:
                c += [{"op": "new", "v": v}, {"op": "make", "v": v}]
                if self.sub:
                    c += [{"op": "newsub", "v": v}] * 2
                c += [{"op": "dup", "v": v, "u": u, "kind": k} for u in usable for k in ("copy", "cons")]
            c += [{"op": "alias", "v": v, "u": u} for u in full]
            for s in inslot:
                if self.unique:
                    c += [{"op": "borrow", "v": v, "s": s, "kind": k} for k in ("ptr", "ref", "cptr", "cref", "unmanaged")]
                    if self.sown.get(s) and sum(1 for t in inslot if self.slot(t) == self.slot(s)) == 1:
                        c += [{"op": "take", "v": v, "s": s}] * 3
                    if unborn:
                        c += [{"op": "copy", "v": v, "s": s, "kind": k} for k in ("peek", "rcopy", "value", "cpeek", "crcopy")]
                else:
                    c += [{"op": "take", "v": v, "s": s}] * 2
                    c += [{"op": k, "v": v, "s": s} for k in self.p["BorrowKinds"]]
                    if unborn:
                        c.append({"op": "copy", "v": v, "s": s, "kind": "value"})
        owned = {}
        for v in full:
            # deleting the last owner of a lent object would leave C++ with a dangling pointer: not a legal program
            lent = any(self.slot(s) == cur(v) and not self.sown.get(s, not self.unique) for s in inslot)
            if not lent:
                c += [{"op": "del", "v": v}] * 4
        for v in usable:
            for s in freeslot:
                if not self.unique:
                    c += [{"op": k, "v": v, "s": s} for k in self.p["GiveKinds"]]
                elif not any(self.slot(t) == cur(v) for t in inslot):
                    if self.ownsit(v):
                        c += [{"op": "give", "v": v, "s": s}] * 2
                    c.append({"op": "lend", "v": v, "s": s})
            c += [{"op": "use", "v": v, "kind": rng.choice(("byval", "byref", "bycref", "method", "wrongtype"))}]
        for s in inslot:
            if not self.unique or not self.sown[s] or sum(1 for t in inslot if self.slot(t) == self.slot(s)) == 1:
                c += [{"op": "drop", "s": s, "own": self.sown.get(s, True)}]
        return rng.choice(c) if c else None

    def ownsit(self, v):
        """No C++ variable owns the object and only one wrapper refers to it: the wrapper must own it."""
        i = self.f("ident")(self.var[v])
        if any(self.slot(s) == i for s in range(1, self.S + 1)):
            return False
        return all(self.var[u] is self.var[v] or self.var[u] is None or self.f("ident")(self.var[u]) != i for u in self.var)


keep = []


def json_ok(x):
    return x
