"""Reference counted objects live exactly as long as something refers to them."""
import pbg, _life


def run(c):
    q = not pbg.THOROUGH
    cases = [(k, r, 2, 2, 2, None) for k in "RQGKSJ" for r in ("null", "map")]
    if not q:
        cases += [(k, r, 3, 2, 2, 4000 if k in "GKJ" else None) for k in "RQGKSJ" for r in ("null", "map")]
    traces = [(k, r, 8, 3, 3, 8 if q else 60, 50) for k in "RQGKSJ" for r in ("null", "map")]
    cases += [(k, "null2", 2, 2, 1, 300 if q else None) for k in "RQGKSJ"]
    traces += [(k, "null2", 8, 3, 3, 4 if q else 40, 50) for k in "RQGKSJ"]
    _life.run(c, cases, traces)
