"""Signatures, modules and behaviours of spec/Call.tla."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "fixtures"))
import pbg, calls_src as C, atoms as A

KINDS = ["func", "method", "static", "ctor", "fmeth", "fctor", "call"]
INV = ["TypeOK", "Whole", "Strict", "Balanced", "Answer"]


def sig(params, ret="void", kind="func", throw=(), **kw):
    return dict(params=[dict(atom=p.rstrip("?"), opt=p.endswith("?")) for p in params], ret=ret, kind=kind, throw=list(throw), **kw)


def table(sigs):
    tab = []
    for g in sigs:
        ps = []
        for p in g["params"]:
            a = C.ATOM[p["atom"]]
            d = dict(out=a["dir"] != "in" and a["out"] is not None, g=[x[1] for x in a["good"]], b=[x[1] for x in a["bad"]], opt=p["opt"],
                     d=a["default"][1] if a["default"] else "", o=a["out"] or "")
            d["in"] = a["dir"] != "out"
            ps.append(d)
        r = C.RET[g["ret"]]
        tab.append(dict(name=g["name"], params=ps, ret=[r["shown"]] if r["shown"] is not None else [], throws=g["throw"], unblock=bool(g.get("unblock")) and g["kind"] != "fctor",
                        result="self" if g["kind"] in ("ctor", "fctor") else ""))
    return dict(sigs=tab, excs=[dict(e, msg=e["msg"] or "") for e in C.EXCS])


def random_sigs(rng, n, kinds=KINDS, maxp=4, throws=True, unblock=True):
    ins = [k for k in C.ATOM if C.ATOM[k]["dir"] == "in"]
    opts = [k for k in ins if C.ATOM[k]["default"]]
    every = list(C.ATOM)
    rets = list(C.RET)
    out = []
    while len(out) < n:
        kind = rng.choice(kinds)
        np = rng.randint(1, maxp)
        nopt = rng.choice([0, 0, 1, 2]) if np else 0
        ps, only_opt = [], False
        for i in range(np):
            if i >= np - nopt:
                only_opt = True
            if only_opt:
                # once one is optional all later ones that take input are
                x = rng.choice(opts) + "?" if kind in ("ctor", "fctor") or rng.random() < .75 else rng.choice([k for k in every if C.ATOM[k]["dir"] == "out"])
            else:
                x = rng.choice(ins if kind == "ctor" or kind == "fctor" else every)
            ps.append(x)
        th = rng.choice([[], [], [1], [2, 1], [1, 2], [1, 3], [3, 4], [7, 4], [4, 7], [5, 6, 8], [8, 2, 5], [6, 3], [12, 9, 1], [9, 10], [5, 10], [11, 5], [13, 10], [10, 13, 5], rng.sample(range(1, C.NEXC + 1), 4)])
        if not throws or kind == "fctor":
            th = []
        if any(p.rstrip("?").endswith("give") for p in ps):
            th = []     # who owns what was given to a function that throws is not defined
        g = sig(ps, "void" if kind in ("ctor", "fctor") else rng.choice(rets), kind, th)
        # a function that handles Python objects needs the GIL
        g["unblock"] = unblock and rng.random() < .3 and not any("PyObject" in x for x in ps + [g["ret"]])
        out.append(g)
    return out


def build(sigs, per=24, tag="calls"):
    """Numbers the signatures, splits them over modules and builds these. Returns directories and module names."""
    for i, g in enumerate(sigs):
        g["name"] = "f%d" % i
    # constructors and such get their own class; spread evenly
    nm = max(1, (len(sigs) + per - 1) // per)
    chunks = [sigs[i::nm] for i in range(nm)]
    jobs, names = [], []
    for ci, ch in enumerate(chunks):
        name = "%s%d" % (tag, ci)
        names.append(name)
        for g in ch:
            g["mod"] = ci

        def job(name=name, ch=ch):
            d = pbg.subdir(name)
            with open(os.path.join(d, "ctl.cc"), "w") as f:
                f.write('#include "%s.h"\n' % name + A.CONTROL)
            return pbg.build(name, C.header(ch), C.gen(name, ch), outdir=d, sources=[os.path.join(d, "ctl.cc")])
        jobs.append((name, job))
    res = pbg.build_many(jobs)
    dirs = []
    for n in names:
        if isinstance(res[n], Exception):
            raise res[n]
        dirs.append(res[n])
    return dirs, names


def behaviours(c, sigs, module="Call", name="Call"):
    """All calls the specification describes, as one behaviour per signature."""
    p = os.path.join(pbg.subdir("tables"), name + ".json")
    with open(p, "w") as f:
        json.dump(table(sigs), f)
    r = pbg.tlc(module, pbg.cfg({}, invariants=INV, view="View", emit=True), env={"TABLE": p}, workers=1, timeout=800)
    if not r.ok:
        raise pbg.MachineryError("Call: %s" % (r.error or r.out)[-3000:])
    c.tlc(r, "%s[%d signatures]" % (name, len(sigs)))
    tests = {}
    for e in r.lines:
        tests.setdefault(e["a"]["sig"], []).append(e)
    return [sorted(v, key=lambda e: json.dumps(e["a"])) for k, v in sorted(tests.items())]


def run(c, sigs, judge, keep=lambda a: True, name="Call"):
    """Builds the signatures, and compares each call the specification describes with what `judge` lists of the real one."""
    dirs, names = build(sigs, tag=name.lower())
    tests = [[dict(a=e["a"], o={k: e["o"][k] for k in judge}) for e in t if keep(e["a"])] for t in behaviours(c, sigs, name=name)]
    tests = [t for t in tests if t]
    fails, steps = pbg.replay("calls.py", dirs, tests, params=dict(modules=names, sigs=sigs, judge=judge), stop_after=30)
    c.traces(len(tests), steps)
    c.add("signatures", len(sigs))
    for t in tests[:2]:
        c.sample({"signature": sigs[t[0]["a"]["sig"] - 1], "behaviour": t[:3]})
    report(c, sigs, name, tests, fails)


def every_param():
    """Each parameter type alone, and each that can have a default after another parameter."""
    return [sig([a]) for a in C.ATOM] + [sig(["int", a + "?"]) for a in C.ATOM if C.ATOM[a]["default"]]


def every_return():
    return [sig([], r) for r in C.RET] + [sig(["int&out", "string&out"], r, throw=[1]) for r in C.RET]


def rng(extra=0):
    return random.Random(pbg.SEED * 1000 + extra)


def report(c, sigs, name, tests, fails):
    """Failures keyed by what was called."""
    for f in fails:
        t = tests[f["test"]]
        st = t[f["step"]] if f["step"] < len(t) else {"a": {}}
        a = st["a"]
        g = sigs[a["sig"] - 1] if a else {}
        desc = "%s(%s)->%s%s" % (g.get("kind"), ",".join(p["atom"] + ("?" if p["opt"] else "") for p in g.get("params", [])), g.get("ret"),
                                 " throw " + ",".join(map(str, g["throw"])) if g.get("throw") else "")
        how = "npos=%s kw=%s unk=%s val=%s throw=%s" % tuple(a.get(x) for x in ("npos", "kw", "unk", "val", "throw"))
        c.violation("%s:%s:%s" % (name, f["kind"], desc), "%s: %s %s: %s" % (desc, how, f["kind"], str(f.get("diff") or f.get("got"))[:700]),
                    {"signature": g, "call": st, "failure": f})
