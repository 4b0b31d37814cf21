"""Threads: where the interpreter lock is held and released, step by step."""
import concurrent.futures as cf
import json, os, random
import pbg, threads_src as S

INV = ["OneHolder", "Alive", "AsDeclared"]
PROPS = ["Restored"]
KINDS = ["func", "over", "fmeth", "meth", "static", "call", "len", "ctor", "hctor", "fctor", "prot", "vmeth"]
THREADS = [["py", "native"], ["py", "py"], ["py", "py", "native"], ["native", "py"]]


def fn(rng, i, kind, settings, virts, decl):
    f = dict(name="f%d" % i, kind=kind, par=rng.choice(list(S.PAR)), res=rng.choice(list(S.RES)), throws=rng.random() < .6, decl=decl)
    if kind in S.ALWAYS:
        f.update(par="", res="void", throws=False, decl="")
    if kind == "len":
        f.update(par="", res="int")
    if kind in S.MAKES:
        f.update(par=rng.choice([p for p in S.PAR if p not in ("out", "give")]), res="void")
    if kind == "fctor":
        f.update(throws=False)
    if kind == "over":
        f["par"] = rng.choice(["int", "str", "obj", "ptr"])
    if kind == "vmeth":
        v = rng.choice(virts)
        v["decl"] = decl
        f.update(name=v["name"], par="", res=v["ret"], throws=v["throws"])
    if f["throws"] and f["par"] == "give":
        f["par"] = "ptr"
    f["unblock"] = kind not in S.ALWAYS and (f["decl"] == "True" if f["decl"] else settings)
    f["refuse"] = False
    f["shown"] = S.shown(f)
    return f


def table(rng, i, kinds, settings, threads, q):
    pure = rng.random() < .3
    virts = []
    for j, (ret, over) in enumerate(rng.sample([("int", True), ("void", True), ("int", False), ("void", False)], 3)):
        virts.append(dict(name="v%d" % j, ret=ret, over=over, throws=rng.random() < .6, pure=False, vis="public", decl=rng.choice(["", "True", "False"])))
        if pure and (over or ret == "void") and rng.random() < .6:
            virts[-1].update(pure=True, throws=False)
    vm = [v for v in virts if not v["pure"]]
    fns, names = [], set()
    for j, (k, decl) in enumerate(kinds):
        free = [v for v in vm if v["name"] not in names]
        if k == "vmeth" and not free:
            k = "meth"
        f = fn(rng, j, k, settings, free, decl)
        names.add(f["name"])
        f["refuse"] = k == "prot" and not any(v["pure"] for v in virts)
        fns.append(f)
    for v in virts:
        if not v["pure"] and v["name"] not in names and rng.random() < .3:
            v["vis"] = "protected"
        v["shown"] = "11" if v["ret"] == "int" else "void"
        v["said"] = "5" if v["ret"] == "int" else "void"
    return dict(name="R%d" % i, settings=settings, threads=threads, fns=fns, virts=virts, depth=4 if len(threads) < 3 else 3, stock=rng.choice([0, 1, 2]), cap=(900 if q else 5000))


def tables(rng, q):
    """Every kind of wrapper with every way to say that others may run."""
    out = []
    for rnd in range(1 if q else 4):
        for settings in (False, True):
            ks = [(k, d) for k in KINDS for d in ("", "True", "False")] + ([] if settings else [(k, "") for k in S.ALWAYS])
            rng.shuffle(ks)
            while ks:
                now = {}
                for x in ks:
                    if len(now) < 4:
                        now.setdefault(x[0], x)
                out.append(table(rng, len(out), list(now.values()), settings, THREADS[len(out) % len(THREADS)], q))
                ks = [x for x in ks if x not in now.values()]
    return out


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 83 + 17)
    hs = tables(rng, q)
    res = pbg.build_many([("thr%d" % i, lambda i=i, h=h: pbg.build("thr%d" % i, S.header(h), S.gen("thr%d" % i, h))) for i, h in enumerate(hs)])

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Threads%d.json" % i)
        with open(t, "w") as f:
            json.dump(hs[i], f)
        return pbg.tlc("Threads", pbg.cfg({}, invariants=INV, properties=PROPS, view="View", emit=True, constraint="Cap", deadlock=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(len(hs))))
    bad = 0
    for i, (h, r) in enumerate(zip(hs, rs)):
        if bad == 3:
            break       # threads that are stuck take their time
        name = "thr%d" % i
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Threads: %s" % (r.error or r.out)[-3000:])
        what = "+".join(f["kind"] for f in h["fns"])
        c.tlc(r, "Threads[%s, %s]" % (what, " ".join(h["threads"])))
        tests = pbg.transition_tour(r.lines, rng, max_len=60, max_tests=60 if q else 400)
        fails, steps = pbg.replay("threads.py", [res[name]], tests, params=dict(module=name, h=h, ms=10000), stop_after=1, timeout=90, env={"PYTHONMALLOC": "debug"})
        c.traces(len(tests), steps)
        c.sample({"table": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        bad += bool(fails)
        for f in fails:
            t = tests[f["test"]]
            a = t[min(f["step"], len(t) - 1)]["a"]
            c.violation("Threads:%s:%s:%s" % (f["kind"], a["op"], what),
                        "table %s, step %d %s: %s" % (h["name"], f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:900]),
                        {"table": h, "behaviour": t[:f["step"] + 1], "failure": f})
