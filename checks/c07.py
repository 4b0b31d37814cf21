"""Parameters are bound and results are arranged as declared."""
import pbg, _calls as K

PLAIN = ["int", "string", "bool", "double", "int&out", "int*out", "string&out", "int&io", "int*io", "P", "P&out", "P*null", "enum", "short", "cstring&"]


def random_plain(rng, n, maxp):
    """Signatures of plain types: what counts here is their arrangement."""
    out = []
    while len(out) < n:
        kind = rng.choice(K.KINDS)
        nd = kind in ("ctor", "fctor")
        ps, opt, k = [], False, rng.randint(0, maxp)
        first = rng.choice([k, k, rng.randint(0, k) if k else 0])
        for i in range(k):
            a = rng.choice(PLAIN)
            if nd and K.C.ATOM[a]["dir"] != "in":
                a = "int"
            if i >= first and K.C.ATOM[a]["dir"] != "out":
                while not K.C.ATOM[a]["default"] or K.C.ATOM[a]["dir"] != "in":
                    a = rng.choice(PLAIN)
                a += "?"
            ps.append(a)
        out.append(K.sig(ps, "void" if nd else rng.choice(["void", "int", "string", "P", "P*null", "bool"]), kind))
    return out


def run(c):
    q = not pbg.THOROUGH
    r = K.rng(7)
    sigs = [K.sig(ps, ret, kind) for kind in K.KINDS for ps, ret in
            (([], "void"), (["int"], "void"), (["int", "string?"], "void")) +
            (() if kind in ("ctor", "fctor") else (([], "int"), (["int&out"], "void"), (["int&out"], "string"), (["int&io", "int&out", "string?"], "P"),
                                                   (["int*io", "int*io"], "void"), (["string&out", "int", "P&out", "int?"], "int")))]
    # every kind of output and of result, among others
    sigs += [K.sig(["int&out", k, "string&out"], "int") for k in K.C.ATOM if K.C.ATOM[k]["dir"] != "in"] + K.every_return()
    K.run(c, sigs + random_plain(r, 150 if q else 900, 4 if q else 5), ["exc", "seen", "ret"], lambda a: a["throw"] == 0)
