"""Attributes: what is read and written in Python is the C++ data, and nothing else changes."""
import concurrent.futures as cf
import json, os, random
import pbg, attributes_src as S

INV = ["Typed", "Constant", "StaticConstant"]


def tables(rng, n):
    """seeded tables that together have every type in every kind"""
    todo = [(k, d) for k in S.KEYS for d in S.KINDS if not (k == "char*" and d not in ("meth", "custom"))]
    rng.shuffle(todo)
    todo = todo[:n * 3] if n * 3 < len(todo) else todo
    hs = []
    while todo:
        t = len(hs)
        nm = lambda k: "T%d%s" % (t, "ABC"[k - 1])
        sub = rng.random() < .5
        shape = rng.choice([[[]], [[], [1]], [[], [1], [2]], [[], [1], [1]]] + ([] if sub else [[[], [], [1, 2]]]))
        cl = []
        for k, up in enumerate(shape, 1):
            c = dict(name=nm(k), up=up, scope=rng.choice(["", "", "ns", "Outer"]))
            if c["scope"] == "Outer":
                c["outer"] = "O" + c["name"]
            cl.append(c)
        at = []
        for j in range(min(3 if len(cl) < 3 else 4, len(todo))):
            key, kind = todo.pop()
            cls = rng.randint(1, len(cl))
            name = "at%d" % j
            # a derived class may declare a name again
            if j and rng.random() < .3 and not any(a["cls"] == cls and a["name"] == "at0" for a in at):
                name = "at0"
            if name == "at0" and any(a["name"] == name and (a["static"] or kind == "static") for a in at):
                name = "at%d" % j
            good = S.typ(key)["good"]
            at.append(S.attr(cls, name, key, kind, ro=rng.random() < .2 and not (kind == "mixed" and False), good=rng.sample([g for g in good if "\\0" in g[1]] or good, 1)))
        hs.append(dict(name="T%d" % t, classes=cl, sub=sub, attrs=at))
    return hs


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 37 + 12)
    hs = tables(rng, 10 ** 6)
    if not q:
        for r in range(3):
            more = tables(rng, 10 ** 6)
            for h in more:
                h["name"] = "R%d%s" % (r, h["name"])
                for k in h["classes"]:
                    k["name"] = "R%d%s" % (r, k["name"])
                    if "outer" in k:
                        k["outer"] = "R%d%s" % (r, k["outer"])
            hs += more
    per = 6
    groups = [hs[i:i + per] for i in range(0, len(hs), per)]
    res = pbg.build_many([("attr%d" % i, lambda i=i, g=g: pbg.build("attr%d" % i, S.header(g), S.gen("attr%d" % i, g))) for i, g in enumerate(groups)])

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Attributes%d.json" % i)
        with open(t, "w") as f:
            json.dump(hs[i], f)
        return pbg.tlc("Attributes", pbg.cfg({}, invariants=INV, properties=["Kept"], view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(len(hs))))
    for i, (h, r) in enumerate(zip(hs, rs)):
        name = "attr%d" % (i // per)
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Attributes: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Attributes[%s]" % ", ".join("%s %s%s" % (a["kind"], a["ctype"], " const" if a["ro"] else "") for a in h["attrs"]))
        tests = pbg.transition_tour(r.lines, rng, max_len=60)
        fails, steps = pbg.replay("attributes.py", [res[name]], tests, params=dict(module=name, h=h, paths=[S.path(x) for x in h["classes"]]))
        c.traces(len(tests), steps)
        c.sample({"table": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            st = t[min(f["step"], len(t) - 1)]
            a = st["a"]
            at = h["attrs"][a["at"] - 1] if a.get("at") else None
            c.violation("Attributes:%s:%s:%s:%s" % (f["kind"], a["op"], at and at["kind"], at and at["type"]),
                        "table %s, step %d %s of %s: %s" % (h["name"], f["step"], json.dumps(a), json.dumps(at), str(f.get("diff") or f.get("got"))[:700]),
                        {"table": h, "behaviour": t[:f["step"] + 1], "failure": f})
