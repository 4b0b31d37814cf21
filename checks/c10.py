"""C++ exceptions become the declared Python exceptions."""
import pbg, _calls as K


def run(c):
    q = not pbg.THOROUGH
    r = K.rng(10)
    n = K.C.NEXC
    lists = [[e] for e in range(1, n + 1)] + [[1, 2], [2, 1], [4, 7], [7, 4], [8, 1], [12, 9, 5], [13, 10], [5, 13], [5, 10, 11], list(range(1, n + 1)), list(range(n, 0, -1))]
    sigs = [K.sig(ps, ret, kind, th, unblock=u) for th in lists for kind, ps, ret, u in
            (("func", ["int"], "int", False), ("func", ["string&out", "P"], "P*own", True), ("method", ["int&io"], "void", False), ("static", [], "string", True),
             ("ctor", ["int"], "void", False), ("fmeth", ["string"], "bool", False), ("call", ["int"], "P", False))]
    sigs += K.random_sigs(r, 150 if q else 1500)
    sigs = [g for g in sigs if g["throw"]]
    K.run(c, sigs, ["exc", "seen", "ret"], lambda a: a["throw"] != 0)
