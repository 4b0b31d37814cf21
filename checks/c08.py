"""Values cross unchanged or are refused before C++ is called."""
import json, os
import pbg, _calls as K, scalar_src as S

INV = ["TypeOK", "Exact", "Strict"]


def scalar(c):
    d = pbg.subdir("scalar")
    with open(os.path.join(d, "ctl.cc"), "w") as f:
        f.write('#include "scalars.h"\n' + S.CTL)
    pbg.build("scalars", S.header(), S.gen("scalars"), outdir=d, sources=[os.path.join(d, "ctl.cc")])
    cases = S.cases()
    t = os.path.join(pbg.subdir("tables"), "Scalar.json")
    with open(t, "w") as f:
        json.dump(cases, f)
    r = pbg.tlc("Scalar", pbg.cfg({}, invariants=INV, view="View", emit=True), env={"TABLE": t}, workers=1, timeout=800)
    if not r.ok:
        raise pbg.MachineryError("Scalar: %s" % (r.error or r.out)[-3000:])
    c.tlc(r, "Scalar[%d type spellings and positions]" % len(cases))
    tests = [[e] for e in r.lines]
    fails, steps = pbg.replay("scalar.py", [d], tests, params=dict(module="scalars", cases=cases), stop_after=400)
    c.traces(len(tests), steps)
    c.sample({"case": cases[tests[0][0]["a"]["case"] - 1], "behaviour": tests[0]})
    for f in fails:
        a = tests[f["test"]][0]["a"]
        k = cases[a["case"] - 1]
        v = a["other"] or "%d" % (a["v"]["s"] * 2 ** a["v"]["e"] + a["v"]["o"])
        c.violation("Scalar:%s:%s" % (k["type"], k["pos"]), "%s %s: value %s: %s" % (k["type"], k["pos"], v, str(f.get("diff") or f.get("got"))[:600]),
                    {"case": k, "value": v, "expected": tests[f["test"]][0], "failure": f})


def run(c):
    q = not pbg.THOROUGH
    scalar(c)
    sigs = K.every_param() + K.every_return()
    if not q:
        sigs += K.random_sigs(K.rng(8), 1200, throws=False)
    K.run(c, sigs, ["exc", "seen", "ret"], lambda a: a["throw"] == 0)
