"""Objects with one owner are destroyed exactly once, by their owner."""
import pbg, _life


def run(c):
    q = not pbg.THOROUGH
    cases = [(k, r, 3, 2, 1, None) for k in "PF" for r in ("null", "map")]
    cases += [(k, r, 2, 2, 1, None) for k in "HE" for r in ("null", "map")]
    cases += [("H", r, 3, 2, 1, 300 if q else None) for r in ("null", "map")]
    if not q:
        cases += [("P", r, 3, 3, 2, 3000) for r in ("null", "map")] + [("H", r, 2, 3, 2, 5000) for r in ("null", "map")]
    traces = [(k, r, 8, 3, 3, 8 if q else 60, 50) for k in "PHFE" for r in ("null", "map")]
    cases += [(k, "null2", 2, 2, 1, 400 if q else None) for k in "PFHE"]
    traces += [(k, "null2", 8, 3, 3, 4 if q else 40, 50) for k in "PFHE"]
    _life.run(c, cases, traces)
