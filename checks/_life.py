"""Shared by the object lifetime checks: fixture, state spaces, behaviours."""
import concurrent.futures as cf, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "fixtures"))
import pbg, life_src

UNIQUE, COUNTED = "PHFE", "RQGKSJ"
UINV, UPROP = ["TypeOK", "OneOwner", "Identity", "Whole"], ["Final", "Cause"]
CINV, CPROP = ["TypeOK", "Balanced", "Safe", "Identity", "Whole", "NoGarbage"], ["Final", "Cause"]


def build(reg):
    d = pbg.subdir("life-" + reg)
    with open(d + "/life.h", "w") as f:
        f.write(life_src.header())
    with open(d + "/gen.py", "w") as f:
        f.write(life_src.gen())
    # null2, map2: the functions are divided over two modules, the second of which imports the classes of the first
    for part in ("a", "b") if reg.endswith("2") else ("",):
        out = d + "/out%s.cc" % part
        pbg.run_generator(d + "/gen.py", d, ["life_" + reg, reg.rstrip("2"), out, part])
        pbg.compile_so("life_" + reg + ("b" if part == "b" else ""), [out], d)
    return d


def dirs(regs=("null", "map")):
    r = pbg.build_many([(x, lambda x=x: build(x)) for x in regs])
    for v in r.values():
        if isinstance(v, Exception):
            raise v
    return r


def model(kind, reg, N, V, S):
    sub = kind in "HGKJE"
    if kind in UNIQUE:
        return "Ownership", dict(N=N, V=V, S=S, Registry=reg.startswith("map"), Sub=sub), UINV, UPROP
    gk, bk = ({"give"}, {"borrow"}) if kind == "S" else ({"give", "keep"}, {"borrow", "dup"})
    return "RefCount", dict(N=N, V=V, S=S, Registry=reg.startswith("map"), Sub=sub, Collectable=kind != "K",
                            GiveKinds=gk, BorrowKinds=bk), CINV, CPROP


def params(kind, reg, N, V, S, **kw):
    sub = kind in "HGKJE"
    gk, bk = (["give"], ["borrow"]) if kind == "S" else (["give", "keep"], ["borrow", "dup"])
    return dict(module="life_" + reg, kind=kind, sub=sub, V=V, S=S, N=N, immortal_sub=kind == "K", GiveKinds=gk,
                BorrowKinds=bk, **kw)


def run(c, cases, traces=(), only=None):
    """cases: (kind, registry, N, V, S, max tests or None). traces: (kind, registry, N, V, S, histories, length)."""
    regs = sorted({x[1] for x in list(cases) + list(traces)})
    ds = dirs(regs)

    def one(case):
        kind, reg, N, V, S, limit = case
        mod, const, inv, prop = model(kind, reg, N, V, S)
        r, e = pbg.explore(mod, const, inv, properties=prop)
        for x in e:
            if kind == "S":
                x["o"].pop("refs", None)
            if only:
                x["o"] = {k: v for k, v in x["o"].items() if k in only}
        rng = random.Random("%s-%s" % (pbg.SEED, case))
        if limit:
            tests = pbg.random_walks(e, rng, limit, 60)
        else:
            tests = pbg.transition_tour(e, rng, max_len=80)
        return case, r, tests

    with cf.ThreadPoolExecutor(pbg.NPROC) as ex:
        for case, r, tests in ex.map(one, cases):
            kind, reg, N, V, S, limit = case
            name = "%s[%s,%s,N=%d,V=%d,S=%d]" % (model(kind, reg, N, V, S)[0], kind, reg, N, V, S)
            c.tlc(r, name)
            c.conform(name, "life.py", [ds[reg]], tests, params=params(kind, reg, N, V, S))

    def rec(t):
        kind, reg, N, V, S, hist, length = t
        seed = "%d-%s-%s" % (pbg.SEED, kind, reg)
        ev, crash = pbg.record("life.py", [ds[reg]], params(kind, reg, N, V, S, seed=seed, histories=hist, length=length))
        if kind == "S":
            for x in ev:
                if x["o"]:
                    x["o"]["refs"] = []
        return t, ev, crash

    with cf.ThreadPoolExecutor(pbg.NPROC) as ex:
        for t, ev, crash in ex.map(rec, traces):
            kind, reg, N, V, S, hist, length = t
            mod, const, _, _ = model(kind, reg, N, V, S)
            if mod == "RefCount":
                const = dict(const, HasRefs=kind != "S")
            c.validate("%sTrace[%s,%s,N=%d,V=%d,S=%d]" % (mod, kind, reg, N, V, S), mod + "Trace", const, ev, crash)
