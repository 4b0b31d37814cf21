"""Class hierarchies: what is accepted where, and as what objects come back."""
import json, os, random
import pbg, hierarchy_src as H

INV = ["Sound", "Nearest", "Own"]


def K(name, up=(), hidden=False, narrow="", conv=(), how="ctor", scope="", pad=False):
    return dict(name=name, up=list(up), hidden=hidden, narrow=narrow, conv=list(conv), how=how, scope=scope, pad=pad)


FIXED = [
    # a line with an unwrapped leaf and middle, narrowed from the root; conversions by constructor and operator
    dict(classes=[K("A", narrow="yes"), K("B", [1], scope="ns"), K("C", [2]), K("H", [3], hidden=True), K("E", [1], scope="Outer"),
                  K("X", conv=[1, 2]), K("Y", [6], conv=[5], how="oper")], rc=False, sub=False),
    dict(classes=[K("A"), K("B", [1], narrow="yes"), K("C", [2], scope="Outer"), K("D", [1]), K("H", [2], hidden=True), K("I", [5], hidden=True)], rc=True, sub=False),
    dict(classes=[K("A", scope="ns"), K("B", [1]), K("C", [2]), K("D", [1]), K("Z", conv=[2])], rc=False, sub=True),
    dict(classes=[K("A", narrow="yes"), K("B", [1], scope="ns"), K("C", [2]), K("H", [3], hidden=True)], rc=True, sub=True),
    # unwrapped classes whose wrapped base is not their first
    dict(classes=[K("A", narrow="yes"), K("B", [1]), K("C", [2]), K("H", [2], hidden=True, pad=True), K("I", [4], hidden=True), K("J", [3], hidden=True, pad=True)], rc=False, sub=False),
    # a wrapped class whose wrapped base is not its first
    dict(classes=[K("A"), K("B", [1], pad=True)], rc=False, sub=False),
    # several bases
    dict(classes=[K("A"), K("B", scope="ns"), K("C", [1, 2]), K("D", [3]), K("F"), K("G", [4, 5])], rc=False, sub=False),
    dict(classes=[K("A", narrow="yes"), K("B", narrow="yes"), K("C", [1, 2]), K("H", [3], hidden=True), K("B2", [2])], rc=False, sub=False),
]


def random_h(rng):
    rc, sub = rng.random() < .3, rng.random() < .4
    mi = not rc and not sub and rng.random() < .5
    n = rng.randint(3, 7)
    cl = []
    for k in range(1, n + 1):
        vis = [i for i in range(1, k)]
        if k == 1 or rng.random() < .2:
            cl.append(K("K%d" % k, narrow=rng.choice(["yes", "yes", "", "no"]), scope=rng.choice(["", "", "ns", "Outer"])))
            continue
        b = rng.choice(vis)
        hidden = cl[b - 1]["hidden"] or (k > 2 and rng.random() < .25)
        up = [b]
        if mi and not hidden:
            for o in rng.sample(vis, len(vis)):
                if len(up) < 3 and not cl[o - 1]["hidden"] and rng.random() < .6 and \
                        not any(set(H.bases(dict(classes=cl), o)) & set(H.bases(dict(classes=cl), u)) for u in up):
                    up.append(o)
        on = bool(cl[up[0] - 1]["narrow"] == "yes")
        cl.append(K("K%d" % k, up, hidden, "" if hidden or on or rng.random() < .7 else "yes", scope="" if hidden else rng.choice(["", "", "ns", "Outer"]), pad=hidden and rng.random() < .4))
    h = dict(classes=cl, rc=rc, sub=sub)
    for k, c in enumerate(cl, 1):
        if not c["hidden"] and rng.random() < .5:
            t = [t for t in range(1, n + 1) if not cl[t - 1]["hidden"] and t not in H.bases(h, k) and k not in H.bases(h, t)]
            # one conversion at most applies to each class, so that its source is certain
            t = [t for t in t if not any(set(H.bases(h, o)) & set(H.bases(h, k)) or k in H.bases(h, o) for o in range(1, n + 1) if t in cl[o - 1]["conv"])]
            t = [x for x in t if not any(x in cl[d - 1]["conv"] for d in range(1, n + 1) if set(H.bases(h, d)) & set(H.bases(h, k)))]
            if t:
                c["conv"] = [rng.choice(t)]
                c["how"] = rng.choice(["ctor", "oper"])
    return h


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 31 + 11)
    hs = FIXED + [random_h(rng) for _ in range(8 if q else 80)]
    jobs = []
    for i, h in enumerate(hs):
        name = "hier%d" % i
        jobs.append((name, lambda name=name, h=h: pbg.build(name, H.header(h), H.gen(name, h))))
    res = pbg.build_many(jobs)

    def one(i):
        h = hs[i]
        t = os.path.join(pbg.subdir("tables"), "Hierarchy%d.json" % i)
        with open(t, "w") as f:
            json.dump(h, f)
        return pbg.tlc("Hierarchy", pbg.cfg({}, invariants=INV, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(one, range(len(hs))))
    for i, (h, r) in enumerate(zip(hs, rs)):
        name = "hier%d" % i
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Hierarchy: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Hierarchy[%d classes%s%s]" % (len(h["classes"]), ", counted" if h["rc"] else "", ", subclassed" if h["sub"] else ""))
        tests = pbg.transition_tour(r.lines, rng, max_len=30)
        fails, steps = pbg.replay("hierarchy.py", [res[name]], tests, params=dict(module=name, h=h, paths=[H.path(x) for x in h["classes"]]))
        c.traces(len(tests), steps)
        c.sample({"hierarchy": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            st = t[min(f["step"], len(t) - 1)]
            a = st["a"]
            last = [s["a"] for s in t[:f["step"] + 1] if s["a"]["op"] in ("new", "give")][-1:]
            if any(k["pad"] and not k["hidden"] for k in h["classes"]):
                c.violation("Hierarchy:unwrapped-base-before-the-wrapped-one", "hierarchy %d, step %d %s: %s" % (
                    i, f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]), {"hierarchy": h, "behaviour": t[:f["step"] + 1], "failure": f})
                continue
            mi = "mi" if any(len(k["up"]) > 1 for k in h["classes"]) else "si"
            c.violation("Hierarchy:%s:%s:%s:%s:%s" % (f["kind"], mi, a["op"], a.get("kind", ""), (last[0].get("kind", "new") if last else "")),
                        "hierarchy %d, step %d %s (object from %s): %s" % (i, f["step"], json.dumps(a), json.dumps(last), str(f.get("diff") or f.get("got"))[:700]),
                        {"hierarchy": h, "behaviour": t[:f["step"] + 1], "failure": f})
