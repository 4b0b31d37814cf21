"""Virtual methods: Python overrides are called by C++, parents by super()."""
import itertools, json, os, random
import pbg, dispatch_src as D

INV = ["TypeOK", "SuperUp", "Virtual", "Typed"]
FUEL = 9


def M(name, void=False, vis="public", const=False, custom=None):
    return dict(name=name, void=void, vis=vis, const=const, custom=custom or "")


FIXED = [
    dict(classes=["A", "B", "C"], up=[0, 1, 2], meths=[M("m"), M("v", void=True), M("n", const=True, custom="Nn"), M("q", vis="protected", custom="Qq"), M("w", void=True, vis="protected")],
         impl=[["def"] * 5, ["def", "", "", "def", ""], ["", "def", "def", "", "def"]],
         calls=[[[3, 4], [1], [], [2], []], [[2], [], [], [], []], [[], [4], [], [], [1]]]),
    dict(classes=["A", "B"], up=[0, 1], meths=[M("p"), M("m"), M("pv", void=True), M("r", vis="private"), M("rv", void=True, vis="private")],
         impl=[["pure", "def", "pure", "def", "def"], ["def", "", "def", "", ""]],
         calls=[[[], [1, 4], [], [], []], [[2], [], [5], [], []]]),
]


def random_h(rng):
    n, nm = rng.randint(1, 4), rng.randint(2, 5)
    meths = [M("m%d" % j, rng.random() < .35, rng.choice(["public"] * 4 + ["protected"]), rng.random() < .3, rng.choice(["", "", "x%d" % j])) for j in range(1, nm + 1)]
    impl = [[rng.choice(["def", "def", "pure"] if k == 0 and n > 1 else (["def"] if k in (0, 1) else ["", "def"])) for j in meths] for k in range(n)]
    up = [0] + [rng.randint(max(1, k - 1), k) if k > 1 else 1 for k in range(1, n)]
    up = [0] + [k for k in range(1, n)]
    return dict(classes=["K%d" % k for k in range(1, n + 1)], up=up, meths=meths, impl=impl,
                calls=[[[rng.randint(1, nm) for _ in range(rng.choice([0, 0, 1, 1, 2]))] for j in meths] for k in range(n)])


def implemented(h, k, j):
    while k:
        if h["impl"][k - 1][j - 1] == "def":
            return True
        k = h["up"][k - 1]
    return False


def scripts(h, j, rng=None):
    """Scripts of an override of method j."""
    pub = [i for i, m in enumerate(h["meths"], 1) if m["vis"] != "private"]
    a = [dict(op="self", j=i) for i in pub] + [dict(op="cxx", j=i) for i in range(1, len(h["meths"]) + 1)]
    if h["meths"][j - 1]["vis"] != "private":
        a += [dict(op="super", j=0)] * (3 if rng else 1)
    end = [dict(op="raise", j=0), dict(op="bad", j=0)]
    if rng is None:
        return [[]] + [[x] for x in a + end] + [[a[-1], x] for x in end]
    s = [rng.choice(a) for _ in range(rng.randint(0, 3))]
    return s + ([rng.choice(end)] if rng.random() < .25 else [])


def programs(h, rng, n):
    """Programs: exhaustive for single overrides in one and two levels, random for the rest."""
    nm = len(h["meths"])
    no = [dict(over=False, script=[])] * nm
    whole = [k for k in range(1, len(h["classes"]) + 1) if all(implemented(h, k, j) for j in range(1, nm + 1))]
    res = []

    def add(cls, levels, j, frm, held=False):
        res.append(dict(cls=cls, levels=levels, entry={"from": frm, "j": j, "held": held}))

    def entries(cls, levels):
        for j, m in enumerate(h["meths"], 1):
            add(cls, levels, j, "cxx")
            if levels:
                add(cls, levels, j, "cxx", True)
            if m["vis"] == "public" or (m["vis"] == "protected" and levels):
                add(cls, levels, j, "py")
    for k in whole:
        entries(k, [])
        entries(k, [no])
        for j in range(1, nm + 1):
            for s in scripts(h, j):
                lv = list(no)
                lv[j - 1] = dict(over=True, script=s)
                entries(k, [lv])
                entries(k, [lv, no])
    while len(res) < n:
        k = rng.choice(whole)
        levels = []
        for _ in range(rng.randint(1, 3)):
            levels.append([dict(over=True, script=scripts(h, j, rng)) if rng.random() < .6 else dict(over=False, script=[]) for j in range(1, nm + 1)])
        entries(k, levels)
    return res


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 31 + 5)
    hs = list(FIXED)
    while len(hs) < (8 if q else 60):
        h = random_h(rng)
        if any(all(implemented(h, k, j) for j in range(1, len(h["meths"]) + 1)) for k in range(1, len(h["classes"]) + 1)):
            hs.append(h)
    explore(c, hs, rng, lambda i: (1500 if i < 2 else 500) if q else 6000)


def explore(c, hs, rng, size, label="Dispatch"):
    jobs = []
    for i, h in enumerate(hs):
        name = "disp%d" % i

        def job(name=name, h=h):
            d = pbg.subdir(name)
            with open(os.path.join(d, "ctl.cc"), "w") as f:
                f.write('#include "%s.h"\n' % name + D.CTL)
            if not h.get("cut"):
                return pbg.build(name, D.header(h), D.gen(name, h), outdir=d, sources=[os.path.join(d, "ctl.cc")])
            with open(os.path.join(d, name + ".h"), "w") as f:
                f.write(D.header(h))
            for part in "ab":
                pbg.build(name + part, None, D.gen(name, h, part), outdir=d, sources=[os.path.join(d, "ctl.cc")])
            return d
        jobs.append((name, job))
    res = pbg.build_many(jobs)
    work = []
    for i, h in enumerate(hs):
        name = "disp%d" % i
        if isinstance(res[name], Exception):
            raise res[name]
        progs = programs(h, rng, size(i))
        t = os.path.join(pbg.subdir("tables"), "%s%d.json" % (label, i))
        with open(t, "w") as f:
            json.dump(dict(h, progs=progs, fuel=FUEL), f)
        work.append((name, h, progs, t))

    def model(w):
        return pbg.tlc("Dispatch", pbg.cfg({}, invariants=INV, view="View", emit=True), env={"TABLE": w[3]}, workers=1, timeout=800)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(model, work))
    for (name, h, progs, t), r in zip(work, rs):
        if not r.ok:
            raise pbg.MachineryError("Dispatch: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Dispatch[%s: %d classes, %d methods, %d programs]" % (name, len(h["classes"]), len(h["meths"]), len(progs)))
        tests = [[e] for e in r.lines]
        if len(tests) != len(progs):
            raise pbg.MachineryError("Dispatch: %d of %d programs ended" % (len(tests), len(progs)))
        # nothing is asked of programs that end the process
        c.add("undefined_programs", sum(1 for t in tests if t[0]["o"]["ret"] == "!fatal"))
        tests = [t for t in tests if t[0]["o"]["ret"] != "!fatal"]
        fails, steps = pbg.replay("dispatch.py", [res[name]], tests, params=dict(module=name, h=h, progs=progs, fuel=FUEL), stop_after=8)
        c.traces(len(tests), steps)
        c.sample({"hierarchy": h, "program": progs[0], "behaviour": tests[0]})
        for f in fails:
            st = tests[f["test"]][0]
            p = progs[st["a"]["prog"] - 1]
            m = h["meths"][p["entry"]["j"] - 1]
            ops = sorted({a["op"] for l in p["levels"] for x in l for a in x["script"]})
            c.violation("%s:%s:%s:%s:%s:%s" % (label, f["kind"], p["entry"]["from"], m["vis"], "void" if m["void"] else "int", "+".join(ops)),
                        "hierarchy %s program %s: %s" % (name, json.dumps(p), str(f.get("diff") or f.get("got"))[:900]),
                        {"hierarchy": h, "program": p, "expected": st["o"], "failure": f})
