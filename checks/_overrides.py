"""Virtual methods, their modules and the behaviours of spec/Override.tla."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "fixtures"))
import pbg, overrides_src as O, atoms as A

INV = ["TypeOK", "Defined"]


def sig(params=(), ret="void", pure=False, **kw):
    # who owns what was given to an override that failed is not defined, so that nothing can take it over then
    pure = pure or any(k.endswith("give") for k in params)
    return dict(params=list(params), ret=ret, pure=pure, **kw)


def every():
    out = []
    for pure in (False, True):
        out += [sig([k], "void", pure) for k in O.REV]
        out += [sig([], r, pure) for r in O.RREV]
    return out


def random_sigs(rng, n, maxp=4):
    out = []
    ks = list(O.REV)
    while len(out) < n:
        g = sig([rng.choice(ks) for _ in range(rng.randint(1, maxp))], rng.choice(O.RREV + ["void"] * 4), rng.random() < .5)
        g["const"] = rng.random() < .3
        g["vis"] = rng.choice(["public", "public", "protected"] + (["private"] if g["pure"] else []))
        out.append(g)
    return out


def build(sigs, per=24, tag="over"):
    sigs[:] = [g for i, g in enumerate(sigs) if g not in sigs[:i]]
    for i, g in enumerate(sigs):
        g["name"] = "V%d" % i
    nm = max(1, (len(sigs) + per - 1) // per)
    chunks = [sigs[i::nm] for i in range(nm)]
    jobs, names = [], []
    for ci, ch in enumerate(chunks):
        name = "%s%d" % (tag, ci)
        names.append(name)
        for g in ch:
            g["mod"] = ci

        def job(name=name, ch=ch):
            d = pbg.subdir(name)
            with open(os.path.join(d, "ctl.cc"), "w") as f:
                f.write('#include "%s.h"\n' % name + A.CONTROL)
            return pbg.build(name, O.header(ch), O.gen(name, ch), outdir=d, sources=[os.path.join(d, "ctl.cc")])
        jobs.append((name, job))
    res = pbg.build_many(jobs)
    for n in names:
        if isinstance(res[n], Exception):
            raise res[n]
    return [res[n] for n in names], names


def behaviours(c, sigs, name):
    p = os.path.join(pbg.subdir("tables"), name + ".json")
    with open(p, "w") as f:
        json.dump(O.table(sigs), f)
    r = pbg.tlc("Override", pbg.cfg({}, invariants=INV, view="View", emit=True), env={"TABLE": p}, workers=1, timeout=800)
    if not r.ok:
        raise pbg.MachineryError("Override: %s" % (r.violated or r.error or r.out)[-3000:])
    c.tlc(r, "%s[%d methods]" % (name, len(sigs)))
    tests = {}
    for e in r.lines:
        tests.setdefault(e["a"]["sig"], []).append(e)
    return [sorted(v, key=lambda e: json.dumps(e["a"])) for k, v in sorted(tests.items())]


def run(c, sigs, judge, name="Override"):
    dirs, names = build(sigs, tag=name.lower())
    tests = [[dict(a=e["a"], o={k: e["o"][k] for k in judge}) for e in t] for t in behaviours(c, sigs, name)]
    fails, steps = pbg.replay("overrides.py", dirs, tests, params=dict(modules=names, sigs=sigs, judge=judge), stop_after=30)
    c.traces(len(tests), steps)
    c.add("methods", len(sigs))
    for t in tests[:2]:
        c.sample({"method": sigs[t[0]["a"]["sig"] - 1], "behaviour": t[:3]})
    for f in fails:
        t = tests[f["test"]]
        st = t[f["step"]] if f["step"] < len(t) else {"a": {}}
        a = st["a"]
        g = sigs[a["sig"] - 1] if a else {}
        desc = "%s%s f(%s)%s" % ("pure " if g.get("pure") else "", g.get("ret"), ",".join(g.get("params", [])), " const" if g.get("const") else "")
        how = "%s c=%s val=%s" % tuple(a.get(x) for x in ("how", "c", "val"))
        c.violation("%s:%s:%s" % (name, f["kind"], desc), "%s: %s %s: %s" % (desc, how, f["kind"], str(f.get("diff") or f.get("got"))[:700]),
                    {"method": g, "call": st, "failure": f})
