"""The sequence protocol and calls: len, indices, containment, iteration, + and *, x(...)."""
import concurrent.futures as cf
import json, os, random
import pbg, sequence_src as S

INV = ["Typed"]
PROPS = ["Kept"]
ALL = ["len", "get", "set", "in", "add", "mul", "iadd", "imul", "call"]


def table(rng, name, shape):
    elem = rng.choice(["int", "double", "string", "bool", "short", "ulong"])
    h = dict(name=name, elem=elem, shape=shape, style=rng.choice(["throw", "pyerr", "status"]), cret=rng.choice(["bool", "int"]), itype=rng.choice(list(S.ITYPES)))
    h["yes"] = "true" if h["cret"] == "bool" else rng.choice(["1", "-1", "256", "0x7fffffff"])
    h["has"] = [m for m in ALL if rng.random() < .75] or ["get"]
    if shape == "split":
        h["has"] = [m for m in h["has"] if m not in ("add", "mul", "iadd", "imul")] or ["get"]
    h["how"] = {}
    for m in h["has"]:
        m = "has" if m == "in" else m
        h["how"][m] = rng.choice(["meth", "meth", "func", "over"] + (["virt"] if shape == "sub" and m in ("len", "get", "set", "has", "call") else []))
    good = S.POOL[elem][1]
    h["good"] = rng.sample(list(good), 2)
    h["badsrc"] = [S.BAD[elem]]
    uns = h["itype"] in ("unsigned int", "size_t")
    h["idx"] = sorted(rng.sample([0, 1, 2, 5], 3) + ([] if uns else rng.sample([-1, -2, -3, -7], 2)))
    h["hugesrc"] = rng.sample(S.ITYPES[h["itype"]], 2)
    h["starts"] = [[], [rng.randint(1, 2)], [rng.randint(1, 2) for _ in range(rng.randint(2, 3))]]
    h.update(vals=2, bads=1, huge=2, times=[0, 1, 2] if rng.random() < .5 else [-1, 2], inplace=rng.random() < .5, cap=3)
    return h


def tables(rng, q):
    return [table(rng, "N%d" % i, s) for i, s in enumerate(["plain", "sub", "derived", "split", "first", "outer", "ns", "plain", "sub", "derived", "split", "first"] * (3 if q else 12))]


def run(c):
    q = not pbg.THOROUGH
    rng = random.Random(pbg.SEED * 59 + 16)
    hs = tables(rng, q)
    per = 5
    groups = [hs[i:i + per] for i in range(0, len(hs), per)]
    res = pbg.build_many([("seq%d" % i, lambda i=i, g=g: pbg.build("seq%d" % i, S.header(g), S.gen("seq%d" % i, g))) for i, g in enumerate(groups)])

    def one(i):
        t = os.path.join(pbg.subdir("tables"), "Sequence%d.json" % i)
        with open(t, "w") as f:
            json.dump(hs[i], f)
        return pbg.tlc("Sequence", pbg.cfg({}, invariants=INV, properties=PROPS, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    with cf.ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(one, range(len(hs))))
    for i, (h, r) in enumerate(zip(hs, rs)):
        name = "seq%d" % (i // per)
        if isinstance(res[name], Exception):
            raise res[name]
        if not r.ok:
            raise pbg.MachineryError("Sequence: %s" % (r.error or r.out)[-3000:])
        what = "%s of %s, index %s, %s" % (h["shape"], h["elem"], h["itype"], h["style"])
        c.tlc(r, "Sequence[%s]" % what)
        for l in r.lines:
            l["a"]["want"] = l["o"]["r"][0]
        tests = pbg.transition_tour(r.lines, rng, max_len=60, max_tests=60 if q else None)
        fails, steps = pbg.replay("sequence.py", [res[name]], tests, params=dict(module=name, h=h, path=S.cxx(h).replace("::", ".")))
        c.traces(len(tests), steps)
        c.sample({"table": h, "behaviour": [s["a"] for s in tests[0]][:12]})
        for f in fails:
            t = tests[f["test"]]
            a = t[min(f["step"], len(t) - 1)]["a"]
            c.violation("Sequence:%s:%s:%s" % (f["kind"], a["op"], what.replace(" ", "-")),
                        "table %s, step %d %s: %s" % (h["name"], f["step"], json.dumps(a), str(f.get("diff") or f.get("got"))[:700]),
                        {"table": h, "behaviour": t[:f["step"] + 1], "failure": f})
