"""Modules: what is registered is there, under its name, whatever the order, the sections and the rest."""
import concurrent.futures as cf
import filecmp, glob, json, os, random
import pbg, module_src as S

INV = ["NoClash", "Connected"]
PROPS = ["Kept"]
POOL = dict(nss=["a", "b", "a_b"], classes=["K", "Zed", "kay", "K_f", "Foo"], fns=["f", "get", "b_f", "b_get", "K_f", "make"], members=["f", "get", "f_get", "size", "m_x"], statics=["total", "s_x"], excs=["Error", "Bad", "K"], enums=["E", "Color", "flags"], others=["Alt", "other", "Third"], sections=["", "one", "two"])
# names that are the same when put together
CLOSE = dict(POOL, nss=["a", "b", "a_b"], classes=["K", "K_f"], fns=["b_f", "f", "a_b_f"], members=["get", "f_get"], others=["Alt", "f_get"])
# and classes everywhere, derived from others
TYPES = dict(POOL, fns=[], members=[], enums=[], excs=["Error", "Bad"], statics=["total"], derived=3)


def expect(tree):
    """What the adapter finds in a module with this tree."""
    out, names = {}, {}
    scopes = [[]] + [e["path"] for e in tree if e["kind"] in ("ns", "class")]
    for p in scopes:
        names["/" + ".".join(p)] = sorted(e["path"][-1] for e in tree if e["path"][:-1] == p)
    for e in tree:
        k, p = e["kind"], ".".join(e["path"])
        if k == "ns":
            r = dict(kind="module", name=True)
        elif k == "class":
            r = dict(kind="type", name=["pym." + p], bases=[".".join(e["of"])] if e["of"] else ["object"], is_=True, doc=e["doc"] or "?")
        elif k in ("fn", "meth"):
            r = dict(kind="callable", bound=k == "meth" and not e["static"], name=e["path"][-1], answers=e["answers"], doc=e["doc"] or "?")
        elif k == "attr":
            r = dict(kind="attr", value=e["id"])
        elif k == "value":
            r = dict(kind="int", value=e["id"])
        elif k == "alias":
            r = dict(kind="alias", same=True)
        elif k == "exc":
            r = dict(kind="exc", sub=True, name=["pym." + p], bases=[".".join(e["of"])] if e["of"] else ["Exception"])
        elif k == "cont":
            r = dict(kind="cont", elems=[True, True])
        elif k == "iter":
            r = dict(kind="iter", same=True)
        elif k == "use":
            r = dict(kind="use", value={"ret": True, "vec": 2, "eval": e["answers"][0] * 10 + 1, "eret": e["answers"][0] * 10 + 1}.get(e["how"], e["answers"][0]))
            if e["how"] in ("val", "ref", "ptr", "vec"):
                r["refused"] = True
        out[p] = r
    out.update(names)
    return out, scopes


def build(name, h, order, sections):
    d = pbg.subdir("build-" + name)
    with open(os.path.join(d, h.name + ".h"), "w") as f:
        f.write(h.header())
    gp = os.path.join(d, name + "_gen.py")
    with open(gp, "w") as f:
        f.write(h.gen(order, sections, "pym"))
    # the same again is the same again
    outs = []
    for hs in ("0", "77"):
        o = os.path.join(d, "seed" + hs)
        os.makedirs(o, exist_ok=True)
        pbg.run_generator(gp, d, [os.path.join(o, "pym.cc")], env={"PYTHONHASHSEED": hs})
        outs.append(o)
    files = sorted(os.path.basename(x) for x in glob.glob(outs[0] + "/*"))
    same = files == sorted(os.path.basename(x) for x in glob.glob(outs[1] + "/*")) and filecmp.cmpfiles(outs[0], outs[1], files, shallow=False)[0] == files
    pbg.compile_so("pym", sorted(glob.glob(outs[0] + "/*.cc")), d, ["-I" + outs[0]])
    return d, same


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 29 + 18)
    per = int(os.environ.get("PER", 20)) if q else 40
    tabs = []
    for i in range(3 if q else 9):
        t = dict([POOL, CLOSE, TYPES][i % 3], module="pym", max=rng.choice([16, 24, 32]))
        if i > 2:
            for k, v in t.items():
                if isinstance(v, list) and v and k != "sections":
                    t[k] = rng.sample(v, max(2, len(v) - rng.randint(0, 2)))
        t.setdefault("derived", 1)
        tabs.append(t)

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Module%d.json" % i)
        with open(t, "w") as f:
            json.dump(tabs[i], f)
        return pbg.tlc("Module", pbg.cfg({}, invariants=INV, properties=PROPS, emit=True), env={"TABLE": t}, workers=1, simulate=per, depth=80, timeout=300)
    with cf.ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(one, range(len(tabs))))
    jobs, hist = [], {}
    for i, r in enumerate(rs):
        if not r.ok:
            raise pbg.MachineryError("Module: %s" % (r.error or r.out)[-3000:])
        c.tlc(r, "Module[%d]" % i)
        for j, l in enumerate(r.lines):
            h = S.H("mod%d_%d" % (i, j), l["items"])
            n = len(l["items"])
            for v, (order, sections) in enumerate([(list(range(1, n + 1)), False), (S.orders(l["items"], rng), False), (S.orders(l["items"], rng) if j % 2 else list(range(1, n + 1)), True)]):
                key = "mod%d_%d_%s" % (i, j, "abc"[v])
                hist[key] = (h, l, order, sections)
                jobs.append((key, lambda key=key, h=h, order=order, sections=sections: build(key, h, order, sections)))
    res = pbg.build_many(jobs)
    tests = {}
    for key, (h, l, order, sections) in hist.items():
        exp, scopes = expect(l["tree"])
        tests[key] = [[{"a": dict(module="pym", tree=l["tree"], scopes=scopes), "o": exp}]]
    with cf.ThreadPoolExecutor(pbg.NPROC) as ex:
        ran = {k: ex.submit(pbg.replay, "module.py", [res[k][0]], tests[k], params={}) for k in hist if not isinstance(res[k], Exception)}
    for key, (h, l, order, sections) in hist.items():
        what = "sections" if sections else "as is" if order == sorted(order) else "shuffled"
        info = {"items": l["items"], "order": order, "sections": sections}
        if isinstance(res[key], pbg.BuildFailure):
            c.violation("Module:build:%s" % res[key].stage, "history %s (%s) does not build: %s" % (key, what, str(res[key])[-700:]), info)
            continue
        if isinstance(res[key], Exception):
            raise res[key]
        d, same = res[key]
        if not same:
            c.violation("Module:unstable", "history %s (%s): the code generated differs from run to run" % (key, what), info)
        fails, steps = ran[key].result()
        c.traces(1, len(tests[key][0][0]["o"]))
        for f in fails:
            c.violation("Module:%s:%s" % (f["kind"], what.replace(" ", "-")), "history %s (%s): %s" % (key, what, str(f.get("diff") or f.get("got"))[:900]), dict(info, failure=f))
    if hist:
        c.sample({"items": next(iter(hist.values()))[1]["items"][:8]})
