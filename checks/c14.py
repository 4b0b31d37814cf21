"""Operators: Python expressions do what the registered C++ operators do."""
import concurrent.futures as cf
import json, os, random
import pbg, operators_src as S

INV = ["TypeOK"]
PROPS = ["Operands", "Fitting", "Complete"]
CMP = ["<", "<=", "==", "!=", ">", ">="]
SHAPES = [[[]], [[], [1]], [[], [1], [2]], [[], [1], [1]], [[], []], [[], [1], []], [[], [], [1]], [[], [], [1, 2]]]


def tables(rng, n, tag):
    hs = []
    for t in range(n):
        shape = SHAPES[t % len(SHAPES)]
        mi = any(len(u) > 1 for u in shape)
        h = dict(name="%s%d" % (tag, t), sub=not mi and rng.random() < .5, mod=S.MOD, classes=[])
        k = len(shape)
        cl = h["classes"] = [dict(name="%s%d%s" % (tag, t, "ABC"[i]), up=u, scope=rng.choice(["", "", "ns"]), num=[], inp=[], neg=[], cmp=[], str=False)
                             for i, u in enumerate(shape)]
        res, ids = {}, []
        # operators of classes that are not first bases are not inherited
        may = [i for i in range(1, k + 1) if not (mi and i == 2)]
        for i in may:
            c = cl[i - 1]
            for op in "+-*/":
                if rng.random() < .55:
                    for j in range(rng.choice([1, 1, 2, 3])):
                        l = i if rng.random() < .6 else rng.choice(list(range(1, k + 1)) + [101, 102])
                        r = rng.choice(list(range(1, k + 1)) + [101, 102]) if l < 100 else i
                        if any((e["op"], e["l"], e["r"]) == (op, l, r) for e in c["num"]):
                            continue
                        re = res.setdefault((op, l, r), i if rng.random() < .6 else rng.choice(list(range(1, k + 1)) + [101, 102]))
                        c["num"].append(dict(op=op, l=l, r=r, res=re, how=rng.choice(["str", "param"] if r > 100 else ["str", "param", "class", "class", "class", "val"])))
                        # the same right type for another left type
                        if l in may and rng.random() < .5:
                            l = rng.choice(may)
                            if not any((e["op"], e["l"], e["r"]) == (op, l, r) for e in c["num"]):
                                c["num"].append(dict(c["num"][-1], l=l, res=res.setdefault((op, l, r), rng.choice(may))))
                if rng.random() < .4:
                    for r in rng.sample(list(range(1, k + 1)) + [101, 102], rng.choice([1, 1, 2])):
                        res[op + "=", i, r] = i
                        c["inp"].append(dict(op=op + "=", r=r, how=rng.choice(["str", "param"] if r > 100 else ["str", "param", "class", "val"])))
            if rng.random() < .5:
                c["neg"].append(dict(l=rng.choice([i, i] + may), res=rng.choice([i, i] + list(range(1, k + 1)) + [101])))
                for e in c["neg"]:
                    e["res"] = res.setdefault(("neg", e["l"], 0), e["res"])
        for i in range(1, k + 1):
            c = cl[i - 1]
            if rng.random() < .6 and not (mi and i == 2):
                c["cmp"] = sorted(rng.sample(CMP, rng.choice([1, 2, 4, 6])))
            c["str"] = rng.random() < .6
        if rng.random() < .2 and k > 1:     # only a minus
            cl[0]["num"], cl[0]["inp"] = [], []
        h["id"] = [dict(op=o, l=l, r=r, id=rng.randrange(S.MOD)) for o, l, r in S.cpp_ops(h)]
        ws = rng.sample(S.WHAT, 4)
        h["what"] = [dict(k=w[1], v=w[2]) for w in ws]
        h["values"] = [w[0] for w in ws]
        hs.append(h)
    return hs


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 43 + 14)
    hs = tables(rng, 24 if q else 120, "T")
    per = 4
    groups = [hs[i:i + per] for i in range(0, len(hs), per)]
    res = pbg.build_many([("oper%d" % i, lambda i=i, g=g: pbg.build("oper%d" % i, S.header(g), S.gen("oper%d" % i, g))) for i, g in enumerate(groups)])

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Operators%d.json" % i)
        with open(t, "w") as f:
            json.dump(hs[i], f)
        return pbg.tlc("Operators", pbg.cfg({}, invariants=INV, properties=PROPS, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(len(hs))))
    for i, (h, r) in enumerate(zip(hs, rs)):
        name = "oper%d" % (i // per)
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Operators: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Operators[%s]" % h["name"])
        tests = pbg.transition_tour(r.lines, rng, max_len=80)
        fails, steps = pbg.replay("operators.py", [res[name]], tests, params=dict(module=name, h=h, values=h["values"]))
        c.traces(len(tests), steps)
        c.sample({"table": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            a = t[min(f["step"], len(t) - 1)]["a"]
            c.violation("Operators:%s:%s:%s" % (f["kind"], a["op"], a.get("f", "")),
                        "table %s, step %d %s: %s" % (h["name"], f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]),
                        {"table": h, "behaviour": t[:f["step"] + 1], "failure": f})
