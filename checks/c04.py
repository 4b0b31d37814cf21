"""Custodians and wards: who is kept alive by whom, and for how long."""
import concurrent.futures as cf
import json, os, random
import pbg, custody_src as S

INV = ["Guarded", "NoLeak"]
PROPS = ["Kept"]


def K(name, up=(), part=False, dict_=True, subs=False, eq=False, virt=False, pol="", **kw):
    return dict(name=name, up=list(up), part=part, dict=dict_, subs=subs, eq=eq, virt=virt, pol=pol, **kw)


def O(name, cls, params=(), ret=0, rel=(), new=False, virt=False, over=""):
    return dict(name=name, cls=cls, params=[dict(cls=p[0], how="ref" if p[1] == "ref" else "ptr", null=p[1] == "null") if isinstance(p, tuple) else dict(cls=p, how="ptr", null=False) for p in params],
                ret=ret, rel=[dict(c=e[0], w=e[1], via=e[2] if len(e) > 2 else "add", post=e[3] if len(e) > 3 else "") for e in rel], new=new, virt=virt, over=over)


def random_table(rng, name, q=True):
    pol = rng.choice(["", "", "", "rc"])
    d = rng.random() < .9
    subs = d and rng.random() < .5
    eq = rng.random() < .4
    virt = rng.random() < .4
    shape = rng.choice(["one", "line", "mi", "two"])
    if shape == "mi" and (pol or virt or subs):
        shape = "line"
    cl = [K(name + "A", dict_=d, subs=subs, eq=eq, virt=virt, pol=pol)]
    if shape == "line":
        cl.append(K(name + "B", [1], dict_=d, subs=subs and rng.random() < .5))
    elif shape == "two":
        cl.append(K(name + "B", dict_=True, eq=rng.random() < .3))
    elif shape == "mi":
        cl += [K(name + "B", dict_=d), K(name + "C", [1, 2], dict_=d)]
    for c in cl:
        if c["subs"]:
            c["getattr"], c["raiseq"] = rng.random() < .4, rng.random() < .4
    part = 0
    if rng.random() < .4:
        cl.append(K(name + "P", part=True))
        part = len(cl)
    own = [k for k, c in enumerate(cl, 1) if not c["part"]]
    ops = [O("", k, new=True) for k in sorted({own[0], own[-1]})]
    for j in range(2):
        f = rng.choice(["meth", "meth", "ctor", "func", "make", "meth2", "fmake"] + (["part"] * 3 if part else []))
        nm = "%s_f%d" % (name.lower(), j)
        c, w = rng.choice(own), rng.choice(own)
        how = rng.choice(["ptr", "null", "ref"])
        via = rng.choice(["kw", "add"])
        post = rng.choice(["", "yes", "no"]) if via == "add" else ""
        over = rng.choice(["", "", "same"])
        v = virt and how != "ref" and rng.random() < .5
        pr = lambda: (rng.choice([(0, 1), (0, 1), (1, 0)]))
        if f == "meth":
            ops.append(O(nm, c, [(w, how)], rel=[pr() + (via, post)], virt=v, over=over))
        elif f == "meth2":
            rel = rng.sample([(0, 1), (0, 2), (1, 2), (2, 1), (1, 0)], 2)
            ops.append(O(nm, c, [(w, how), (rng.choice(own), "ptr")], rel=[r + ("add", rng.choice(["", "yes", "no"])) for r in rel], virt=v, over=over))
        elif f == "ctor":
            # a copy constructor would take the same
            if virt or any(o["new"] and o["cls"] == c and o["params"] for o in ops):
                continue
            rel = [rng.choice([(0, 1), (1, 0)]) + (via, post)]
            ops.append(O(nm, c, [(w, rng.choice(["ptr", "null"]))], rel=rel, new=True))
        elif f == "func":
            ops.append(O(nm, 0, [(c, how), (w, rng.choice(["ptr", "ref"]))], rel=[rng.choice([(1, 2), (2, 1)]) + (via, post)], over="same" if over == "same" else ""))
        elif f == "make":
            ops.append(O(nm, c, [], ret=w, rel=[rng.choice([(0, -1), (-1, 0)]) + (via,)], virt=v, over=over))
        elif f == "fmake":
            ops.append(O(nm, 0, [(c, how)], ret=w, rel=[rng.choice([(1, -1), (-1, 1)]) + (via,)]))
        elif f == "part":
            if rng.random() < .7:
                ops.append(O(nm, 1, [], ret=part, rel=[(-1, 0, via)], over=over))
            else:
                ops.append(O(nm, 0, [(1, "ptr")], ret=part, rel=[(-1, 1, via)]))
    for o in ops:
        o["throw"], o["unblock"] = rng.random() < .4, rng.random() < .3
    return dict(name=name, classes=cl, ops=ops, ids=3, slots=2 if q else rng.choice([2, 3]), cap=800 if q else 6000)


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 47 + 4)
    hs = [random_table(rng, "T%d" % t, q) for t in range(56 if q else 160)]
    per = 1
    res = pbg.build_many([("cust%d" % i, lambda i=i, h=h: pbg.build("cust%d" % i, S.header([h]), S.gen("cust%d" % i, [h]))) for i, h in enumerate(hs)])

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Custody%d.json" % i)
        with open(t, "w") as f:
            json.dump(hs[i], f)
        return pbg.tlc("Custody", pbg.cfg({}, invariants=INV, properties=PROPS, view="View", emit=True, constraint="Cap"), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(len(hs))))
    for i, (h, r) in enumerate(zip(hs, rs)):
        name = "cust%d" % i
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Custody: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Custody[%s]" % h["name"])
        lines = r.lines
        tests = pbg.transition_tour(lines, rng, max_len=60, max_tests=150 if q else 1500)
        fails, steps = pbg.replay("custody.py", [res[name]], tests, params=dict(module=name, h=h))
        c.traces(len(tests), steps)
        c.sample({"table": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            a = t[min(f["step"], len(t) - 1)]["a"]
            c.violation("Custody:%s:%s" % (f["kind"], h["ops"][a["f"] - 1]["name"] if a.get("f") else a["op"]),
                        "table %s, step %d %s: %s" % (h["name"], f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]),
                        {"table": h, "behaviour": t[:f["step"] + 1], "failure": f})
