"""Types imported from another module: class hierarchies split over two modules."""
import concurrent.futures as cf
import json, os, random
import pbg, hierarchy_src as H
import c05, c11

K = c11.K


def split(h, rng):
    """The classes of a hierarchy in two modules; the second has the derived ones."""
    cl = h["classes"]
    for k, c in enumerate(cl, 1):
        up = max([cl[u - 1]["home"] for u in c["up"]] or [1])
        c["home"] = 2 if up == 2 or rng.random() < .55 else 1
        if c["home"] == 1 and c["scope"] == "Outer":
            c["scope"] = rng.choice(["", "ns"])     # nested classes cannot be imported
        c["py"] = "Py" + c["name"] if rng.random() < .4 and not c["hidden"] else ""
        c["named"] = rng.random() < .5
        c["takes"], c["gives"] = rng.choice([1, 2]), rng.choice([1, 2])
    h["full"] = h["sub"] or rng.random() < .5 or any(len(c["up"]) > 1 for c in cl)
    return h


def blind(h):
    """The first module has a class that is a base at another address of a class of the second, which it does not know."""
    cl = h["classes"]

    def up(k):
        return {k}.union(*[up(u) for u in cl[k - 1]["up"]])
    return any(cl[b - 1]["home"] == 1 for c in cl if c["home"] == 2 for u in c["up"][1:] for b in up(u))



def PROBE():
    return dict(classes=[dict(k, home=n, py="", named=False, takes=1, gives=1) for k, n in ((K("A"), 1), (K("B"), 1), (K("C", [1, 2]), 2))], rc=False, sub=False, full=True)


def build(name, h):
    d = pbg.subdir("build-" + name)
    with open(os.path.join(d, name + ".h"), "w") as f:
        f.write(H.header(h))
    for part in (1, 2):
        pbg.build(name + "ab"[part - 1], None, H.gen(name, h, part=part), outdir=d)
    return d


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 37 + 19)
    hs = []
    tries = 0
    while len(hs) < (32 if q else 120):
        base = json.loads(json.dumps(c11.FIXED[tries])) if tries < len(c11.FIXED) else c11.random_h(rng)
        tries += 1
        if any(k["pad"] and not k["hidden"] for k in base["classes"]):
            base = c11.random_h(rng)
        h = split(base, rng)
        if {k["home"] for k in h["classes"]} == {1, 2} and not blind(h):
            hs.append(h)
    hs.append(PROBE())
    jobs = [("imp%d" % i, lambda i=i, h=h: build("imp%d" % i, h)) for i, h in enumerate(hs)]
    res = pbg.build_many(jobs)

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Imports%d.json" % i)
        with open(t, "w") as f:
            json.dump(hs[i], f)
        return pbg.tlc("Hierarchy", pbg.cfg({}, invariants=c11.INV, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(one, range(len(hs))))
    for i, (h, r) in enumerate(zip(hs, rs)):
        name = "imp%d" % i
        if isinstance(res[name], pbg.BuildFailure):
            c.violation("Imports:build:%s" % res[name].stage, "hierarchy %d in two modules does not build: %s" % (i, str(res[name])[-600:]), {"hierarchy": h})
            continue
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Hierarchy: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Hierarchy[%d classes in two modules%s%s]" % (len(h["classes"]), ", counted" if h["rc"] else "", ", subclassed" if h["sub"] else ""))
        tests = pbg.transition_tour(r.lines, rng, max_len=30)
        fails, steps = pbg.replay("hierarchy.py", [res[name]], tests, params=dict(module=name, h=h, split=True, paths=[H.path(x) for x in h["classes"]]))
        c.traces(len(tests), steps)
        c.sample({"hierarchy": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            a = t[min(f["step"], len(t) - 1)]["a"]
            if blind(h):
                c.violation("Imports:second-base-in-another-module", "hierarchy %d, step %d %s: %s" % (i, f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]),
                            {"hierarchy": h, "behaviour": t[:f["step"] + 1], "failure": f})
                continue
            c.violation("Imports:%s:%s:%s" % (f["kind"], a["op"], a.get("kind", "")),
                        "hierarchy %d, step %d %s: %s" % (i, f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]), {"hierarchy": h, "behaviour": t[:f["step"] + 1], "failure": f})

    # overrides: classes of both modules implement the virtual methods, functions of both call them
    ds = []
    while len(ds) < (6 if q else 40):
        h = c05.FIXED[0] if not ds else c05.random_h(rng)
        n = len(h["classes"])
        if n > 1 and any(all(c05.implemented(h, k, j) for j in range(1, len(h["meths"]) + 1)) for k in range(1, n + 1)):
            ds.append(dict(h, cut=rng.randint(1, n - 1), fun=[rng.choice("ab") for _ in h["meths"]]))
    c05.explore(c, ds, rng, lambda i: 500 if q else 4000, "ImportsDispatch")
