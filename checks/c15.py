"""Containers are values: what is in them crosses between Python and C++ whole, in order, and as a copy."""
import concurrent.futures as cf
import json, os, random
import pbg, containers_src as S

INV = ["Ordered", "Typed"]
PROPS = ["Separate", "Walks"]


def table(rng, name, cont, val, key="", **kw):
    h = dict(name=name, cont=cont, kind=S.CONTS[cont], val=val, key=key, how=rng.choice(["direct", "typedef", "typedef", "ns", "outer"]),
             custom=rng.choice(["", "", name + "_Named"]), attr=rng.choice(["field", "meth"]), const=rng.random() < .3)
    h.update(kw)
    if S.cls(h):
        h["how"] = ""
        h["inside"] = rng.choice(["vector", "list", "deque"]) if val != "bool" else "vector"
        h["shape"] = kw.get("shape") or rng.choice(["plain", "sub", "derived", "second", "outer"])
        if val == "bool":
            h["const"] = False
    m = S.mapping(h)
    vs, bads = S.POOL[val][1], S.POOL[val][2]
    if m:
        ks, kbads = S.POOL[key][1], S.POOL[key][2]
        pk = sorted(rng.sample(range(len(ks)), min(3, len(ks))))
        pv = sorted(rng.sample(range(len(vs)), min(2, len(vs))))
        el = [[i + 1, j + 1] for i in range(len(pk)) for j in range(len(pv))]
        texts = [("(%s, %s)" % (ks[pk[i - 1]][0], vs[pv[j - 1]][0]), "(%s,%s)" % (ks[pk[i - 1]][1], vs[pv[j - 1]][1]),
                  "std::make_pair<%s, %s>(%s, %s)" % (S.POOL[key][0], S.POOL[val][0], S.cpp(key, ks[pk[i - 1]][1]), S.cpp(val, vs[pv[j - 1]][1]))) for i, j in el]
    else:
        pv = sorted(rng.sample(range(len(vs)), min(3, len(vs))))
        el = list(range(1, len(pv) + 1))
        texts = [vs[j] + (S.cpp(val, vs[j][1]),) for j in pv]

    def lst():
        r = [rng.randrange(len(el)) for _ in range(rng.randint(1, 3))]
        if m:      # which of several values of a key stays is not said
            seen = {}
            r = [seen.setdefault(el[i][0], i) for i in r]
        return r
    ls = [[]] + [lst() for _ in range(2)]
    x = rng.randrange(len(el))
    h["lists"] = [[el[i] for i in l] for l in ls]
    h["listc"] = ls
    h["src"] = ["[%s]" % ", ".join(texts[i][0] for i in l) for l in ls]
    h["idx"] = [[t[1], e] for t, e in zip(texts, el)]
    h["extra"] = el[x]
    h["cpp"] = [t[2] for t in texts] + [texts[x][2]]
    bad = []
    good = texts[rng.randrange(len(texts))][0]
    for e, exc in bads:
        w = "(%s, %s)" % (ks[pk[0]][0], e) if m else e
        bad.append((rng.choice(["[%s]" % w, "[%s, %s]" % (good, w), "[%s, %s]" % (w, good), "[%s, %s, %s]" % (good, w, good)]), exc))
    if m:
        for e, exc in kbads:
            bad.append(("[(%s, %s)]" % (e, vs[0][0]), exc))
        if not S.cls(h):
            bad += [("[%s, 5]" % good, "TypeError"), ("[(%s,)]" % ks[0][0], "TypeError"), ("[%s + (1,)]" % good, "TypeError"), ("[list(%s)]" % good, "TypeError"), ("{}", "TypeError")]
    if not S.cls(h):
        bad += [("(%s,)" % good, "TypeError"), ("None", "TypeError"), ("5", "TypeError"), ("Fake(T)", "TypeError"), ("m.P(1)", "TypeError"), ("iter([])", "TypeError")]
        if val != "vec":
            bad.append(("m.VecInt()", "TypeError"))
    h["badsrc"] = rng.sample(bad, min(5, len(bad)))
    h["oddsrc"] = []
    if not S.cls(h):
        ints = S.A.INTS
        if m and key in ints:
            h["oddsrc"].append("clearing(lambda e: (e, %s), [%s] * 3)" % (vs[0][0], good))
        if m and val in ints:
            h["oddsrc"].append("clearing(lambda e: (%s, e), [%s] * 3)" % (ks[0][0], good))
        if not m and val in ints:
            h["oddsrc"].append("clearing(lambda e: e, [%s] * 3)" % good)
    if S.cls(h):
        # what does not convert to a class is for other checks
        h["putk"] = rng.sample(["val", "cref", "ref", "ptr", "attr"], 2)
        h["getk"] = rng.sample(["rval", "rcref", "rref", "rown", "attr"] + (["out"] if h["shape"] != "second" else []), 2)
        h["modk"] = []
        h["badsrc"] = [b for b in h["badsrc"] if b[0].startswith("[")]
    else:
        h["putk"] = rng.sample(["val", "cref", "ref", "ptr", "ptrT", "attr", "virt", "virtr"], 4)
        h["getk"] = rng.sample(["rval", "rcref", "rref", "out", "outp", "attr", "virt", "virto"], 3)
        h["modk"] = ["io", "virt"]
    h.update(puts=len(h["putk"]), gets=len(h["getk"]), mods=len(h["modk"]), bads=len(h["badsrc"]), odds=len(h["oddsrc"]), conv=not S.cls(h), parts=val in ("P", "PI"),
             knot=h.get("shape") == "sub", max=2, putbad=not S.cls(h))
    return h


def tables(rng, rounds):
    hs = []
    new = lambda cont, val, key="", **kw: hs.append(table(rng, "N%d" % len(hs), cont, val, key, **kw))
    for r in range(rounds):
        for val in S.POOL:
            new(rng.choice(["vector", "list", "deque"]), val)
        for val in rng.sample(S.ORDERED, 5):
            new(rng.choice(["set", "multiset"]), val)
        for key in rng.sample(S.ORDERED, 6):
            new("map", rng.choice(list(S.POOL)), key)
        for key in rng.sample(S.HASHED, 2):
            new("unordered_map", rng.choice(list(S.POOL)), key)
        for i, shape in enumerate(["plain", "sub", "derived", "second", "outer"]):
            new("class", rng.choice([k for k in S.POOL if k not in ("bool",)]), shape=shape)
        for shape in rng.sample(["plain", "sub", "derived", "second"], 2):
            new("classmap", rng.choice(list(S.POOL)), rng.choice(S.ORDERED), shape=shape)
    return hs


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 53 + 15)
    hs = tables(rng, 1 if q else 6)
    # one name for each C++ type in a module
    groups = []
    for h in hs:
        d = S.stl(h) if h.get("how") == "direct" and not S.cls(h) else None
        for g in groups:
            if len(g) < 4 and (d is None or (d not in [S.stl(o) for o in g if o.get("how") == "direct" and not S.cls(o)] and d != "std::vector<int>")):
                g.append(h)
                break
        else:
            if d == "std::vector<int>":
                h["how"] = "typedef"
            groups.append([h])
    where = {h["name"]: "cont%d" % i for i, g in enumerate(groups) for h in g}
    res = pbg.build_many([("cont%d" % i, lambda i=i, g=g: pbg.build("cont%d" % i, S.header(g), S.gen("cont%d" % i, g))) for i, g in enumerate(groups)])

    def one(h):
        t = os.path.join(pbg.subdir("tables"), "Containers%s.json" % h["name"])
        with open(t, "w") as f:
            json.dump(h, f)
        return pbg.tlc("Containers", pbg.cfg({}, invariants=INV, properties=PROPS, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, hs))
    for h, r in zip(hs, rs):
        name = where[h["name"]]
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Containers: %s" % (r.error or r.out)[-3000:])
        what = "%s of %s%s" % (h["cont"], h["key"] + ", " if h["key"] else "", h["val"])
        c.tlc(r, "Containers[%s]" % what)
        tests = pbg.transition_tour(r.lines, rng, max_len=60, max_tests=60 if q else None)
        fails, steps = pbg.replay("containers.py", [res[name]], tests, params=dict(module=name, h=h, path=S.path(h)))
        c.traces(len(tests), steps)
        c.sample({"table": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            a = t[min(f["step"], len(t) - 1)]["a"]
            fn = h[{"p": "putk", "g": "getk", "m": "modk"}[a["op"][0]]][a["f"] - 1] if a.get("f") else ""
            c.violation("Containers:%s:%s:%s:%s" % (f["kind"], a["op"], fn, what),
                        "table %s, step %d %s: %s" % (h["name"], f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]),
                        {"table": h, "behaviour": t[:f["step"] + 1], "failure": f})
