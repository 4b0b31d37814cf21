"""Overloads: the first one, in order, that takes the arguments is called, and nothing remains of those that were tried."""
import json, os, random
import pbg, calls_src as C, overload_src as S, atoms as A

INV = ["TypeOK", "First", "NoneFits", "Balanced", "Reasoned"]
RETS = ["void", "int", "string", "P", "vec", "double", "P*own"]


#: parameters that virtual methods can have
VIRT = list(S.RANGE) + ["double", "bool", "string", "cstring&", "enum", "P", "cP&", "vec", "map"]


def random_sets(rng, n):
    out = []
    while len(out) < n:
        kind = rng.choice(["func", "func", "method", "method", "static", "ctor", "ctor", "call", "virt", "prot"])
        ms = []
        for i in range(rng.randint(2, 4)):
            how = "own"
            if kind in ("func", "method") and rng.random() < .12:
                how = "custom"
            elif kind == "method" and rng.random() < .25:
                how = "fmeth"
            elif kind == "ctor" and rng.random() < .25:
                how = "fctor"
            if how == "custom":
                ms.append(dict(params=[dict(atom="int", opt=False)], ret="void", throw=[], how=how))
                continue
            ps = []
            np = rng.choice([0, 1, 1, 1, 2, 2, 3])
            virt = kind in ("virt", "prot")
            opts, ins_ = [[k for k in l if not virt or k in VIRT] for l in (S.OPT, S.INS)]
            for j in range(np):
                if ps and ps[-1]["opt"]:
                    ps.append(dict(atom=rng.choice(opts), opt=True))
                elif j and rng.random() < .35:
                    ps.append(dict(atom=rng.choice(opts), opt=True))
                elif kind != "ctor" and not virt and rng.random() < .2:
                    ps.append(dict(atom=rng.choice(S.OUT + S.IO), opt=False))
                else:
                    ps.append(dict(atom=rng.choice(ins_), opt=False))
            # overloads often start alike
            if ms and ms[-1]["params"] and rng.random() < .4 and not ms[-1]["params"][0]["opt"] and ps:
                if C.ATOM[ms[-1]["params"][0]["atom"]]["dir"] == "in":
                    ps[0] = dict(ms[-1]["params"][0])
            keys = [p["atom"] for p in ps]
            th = [1] if rng.random() < .3 and not any(k.endswith("give") for k in keys) else []
            ms.append(dict(params=ps, ret="void" if kind == "ctor" else rng.choice(RETS if kind not in ("virt", "prot") else ["void", "int", "string", "double"]), throw=th, how=how,
                           unblock=rng.random() < .2))
        if kind in ("virt", "prot"):
            for m in ms:
                # what overrides cannot take is not virtual
                m["throw"], m["unblock"] = [], False
        for m in ms:
            if m["how"] == "fctor":
                m["throw"] = []
        canon = [S.canon(m) for m in ms if m["how"] == "own"]
        distinct = len(set(canon)) == len(canon)
        # the same C++ name must not be ambiguous for C++ either
        amb = any("PI" in x or "enum" in x for c in canon for x in c)
        if kind in ("virt", "prot") and not distinct or kind in ("ctor", "call") and (not distinct or amb):
            continue
        if kind == "ctor" and any(c in ((), ("float", "float")) for c in canon):
            continue
        same = kind in ("ctor", "call") or (distinct and not amb and all(m["how"] == "own" for m in ms) and rng.random() < .6)
        keys = {p["atom"] for m in ms for p in m["params"]}
        vals = [v for v in S.VALUES if not any(v in a and keys & b for a, b in S.CLASH)]
        # values that tell the overloads apart first
        rng.shuffle(vals)
        ins = [p["atom"] for m in ms for p in m["params"] if C.ATOM[p["atom"]]["dir"] != "out"]
        score = lambda v: -len({bool(S.takes(k, v)) for k in ins}) if ins else 0
        good = []
        for k in dict.fromkeys(ins):
            w = [v for v in vals if S.takes(k, v) and v not in good]
            if w and not any(S.takes(k, v) for v in good):
                good.append(w[0])
        vals = (good + sorted([v for v in vals if v not in good], key=score))[:max(4, min(len(good) + 2, 7))]
        out.append(dict(kind=kind, members=ms, same=same, vals=vals, over=rng.random() < .5))
    for i, s in enumerate(out):
        s["name"] = "o%d" % i
        for j, m in enumerate(s["members"]):
            m["name"] = "o%d_%d" % (i, j)
    return out


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 41 + 13)
    sets = random_sets(rng, 96 if q else 800)
    per = 8
    chunks = [sets[i:i + per] for i in range(0, len(sets), per)]
    jobs, names = [], []
    for ci, ch in enumerate(chunks):
        for s in ch:
            s["mod"] = ci
        name = "over%d" % ci
        names.append(name)

        def job(name=name, ch=ch):
            d = pbg.subdir(name)
            with open(os.path.join(d, "ctl.cc"), "w") as f:
                f.write('#include "%s.h"\n' % name + A.CONTROL)
            return pbg.build(name, S.header(ch), S.gen(name, ch), outdir=d, sources=[os.path.join(d, "ctl.cc")])
        jobs.append((name, job))
    res = pbg.build_many(jobs)
    for n in names:
        if isinstance(res[n], Exception):
            raise res[n]
    import concurrent.futures as cf

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Overload%d.json" % i)
        with open(t, "w") as f:
            json.dump(S.table(chunks[i]), f)
        return pbg.tlc("Overload", pbg.cfg({}, invariants=INV, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(len(chunks))))
    tests = []
    for i, r in enumerate(rs):
        if not r.ok:
            raise pbg.MachineryError("Overload: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Overload[%d sets]" % len(chunks[i]))
        by = {}
        for e in r.lines:
            e["a"]["set"] += i * per
            by.setdefault(e["a"]["set"], []).append(e)
        tests += [sorted(v, key=lambda e: json.dumps(e["a"])) for k, v in sorted(by.items())]
    fails, steps = pbg.replay("overload.py", [res[n] for n in names], tests, params=dict(modules=names, sets=sets, sigs=[], judge=[]), stop_after=30)
    c.traces(len(tests), steps)
    c.add("overload sets", len(sets))
    for t in tests[:2]:
        c.sample({"set": sets[t[0]["a"]["set"] - 1], "behaviour": t[:3]})
    for f in fails:
        t = tests[f["test"]]
        st = t[f["step"]] if f["step"] < len(t) else t[-1]
        a = st["a"]
        s = sets[a["set"] - 1]
        desc = "%s %s" % (s["kind"], " | ".join("%s%s(%s)" % ("" if m["how"] == "own" else m["how"] + " ", m["ret"], ",".join(p["atom"] + "?" * p["opt"] for p in m["params"])) for m in s["members"]))
        how = "(%s%s)%s" % (", ".join(s["vals"][v - 1] for v in a["pos"]), " a%d=%s" % (a["kw"][0], s["vals"][a["kw"][1] - 1]) if a["kw"] else "", " throwing" if a["throw"] else "")
        c.violation("Overload:%s:%s" % (f["kind"], desc), "%s called %s: %s" % (desc, how, str(f.get("diff") or f.get("got"))[:700]), {"set": s, "call": st, "failure": f})
