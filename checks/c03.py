"""One Python object per C++ object: wrapper registry, and Python-implemented objects."""
import pbg, _life


def run(c):
    q = not pbg.THOROUGH
    cases = [(k, "map", 2, 3, 1, None) for k in "PFRQS"] + [(k, "map", 2, 3, 1, 800 if q else None) for k in "HEGJ"]
    cases += [(k, "null", 2, 2, 1, None) for k in "HEGJ"]
    traces = [(k, "map", 8, 4, 3, 8 if q else 60, 60) for k in "PFHERGJS"]
    cases += [(k, "map2", 2, 2, 1, 300 if q else None) for k in "PFRQSHEGJ"]
    traces += [(k, "map2", 8, 4, 3, 4 if q else 40, 50) for k in "PFHERGJS"]
    _life.run(c, cases, traces)
