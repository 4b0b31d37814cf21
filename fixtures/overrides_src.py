"""C++ classes with one virtual method per signature, and drivers that call it with C++ values.

A signature: {name, params: [atom key], ret: return key, pure, vis, const}.  The override gets the values the driver
has for the IN and INOUT parameters (class references and pointers that give output are handed over as objects
to change in place) and answers with the return value followed by the OUT and INOUT values."""
import re
import atoms as A
import calls_src as C

ATOM, RET = C.ATOM, C.RET
INTS = A.INTS
NOTINT = [("'x'", "TypeError"), ("None", "TypeError"), ("1.5", "TypeError")]


def values():
    """base type -> C++ values an override may be given, Python values it may answer with, ones that are refused"""
    V = {}
    for k, (ct, bits, sg) in INTS.items():
        hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
        lo = -(1 << (bits - 1)) if sg else 0
        cpp = [("5", "i:5"), ("(%s) %dULL" % (ct, hi), "i:%d" % hi)] + ([("std::numeric_limits<%s>::min()" % ct, "i:%d" % lo)] if sg else [])
        bad = NOTINT + ([("1 << 70", "OverflowError")] if sg and bits > 16 else [])
        V[k] = dict(ct=ct, cpp=cpp, good=[("6", "i:6"), (str(hi), "i:%d" % hi), (str(lo), "i:%d" % lo)], bad=bad)
    V["bool"] = dict(ct="bool", cpp=[("true", "b:1"), ("false", "b:0")], good=[("True", "b:1"), ("[]", "b:0")], bad=[("BadBool()", "RuntimeError")])
    for k in ("double", "float"):
        V[k] = dict(ct=k, cpp=[("2.5", "d:2.5"), ("-1e10", "d:-1e+10")], good=[("3.5", "d:3.5"), ("4", "d:4")], bad=[("'x'", "TypeError")])
    V["string"] = V["cstring"] = dict(ct="std::string", cpp=[('std::string("h\\0w", 3)', "s:h\\0w"), ('std::string()', "s:")],
                                      good=[("'str'", "s:str"), ("''", "s:"), ("'a\\0b'", "s:a\\0b")], bad=[("5", "TypeError"), ("None", "TypeError")])
    V["char*"] = dict(ct="const char*", cpp=[('"hi"', "s:hi"), ('""', "s:"), ("NULL", "None")], good=[], bad=[])
    V["char"] = dict(ct="char", cpp=[("'x'", "c:x")], good=[("b'y'", "c:y")], bad=[("5", "TypeError")])
    V["enum"] = dict(ct="Color", cpp=[("BLUE", "i:7")], good=[("m.GREEN", "i:2")], bad=[("'x'", "TypeError")])
    for n in ("P", "PF", "PR", "PI"):
        V[n] = dict(ct=n, cpp=[("%s(%s)" % (n, "P(5)" if n == "PI" else "5"), n + ("i:1005" if n == "PI" else "i:5"))], good=[], bad=[])
    V["PS"] = dict(ct="std::shared_ptr< ::PS >", cpp=[("std::make_shared<PS>(5)", "PSi:5"), ("std::shared_ptr<PS>()", "None")], good=[], bad=[])
    I = "std::vector<int>"
    V["vec"] = V["cvec"] = dict(ct=I, cpp=[(I + "(2, 6)", "[i:6,i:6]"), (I + "()", "[]")], good=[("[1, 2]", "[i:1,i:2]"), ("m.VecInt([4])", "[i:4]")],
                                bad=[("5", "TypeError"), ("['x']", "TypeError")])
    V["vecs"] = dict(ct="std::vector<std::string>", cpp=[('std::vector<std::string>(1, "e")', "[s:e]")], good=[], bad=[])
    V["listd"] = dict(ct="std::list<double>", cpp=[("std::list<double>(1, 2.5)", "[d:2.5]")], good=[], bad=[])
    V["seti"] = dict(ct="std::set<int>", cpp=[("std::set<int>({4, 3})", "[i:3,i:4]")], good=[], bad=[])
    V["vecP"] = dict(ct="std::vector<P>", cpp=[("std::vector<P>(1, P(6))", "[Pi:6]")], good=[], bad=[])
    V["map"] = dict(ct="std::map<std::string, int>", cpp=[("static_map()", "[(s:a,i:1)]")], good=[("[('z', 2)]", "[(s:z,i:2)]")], bad=[("[3]", "TypeError")])
    return V


VALS = values()


def base(key):
    k = key
    if k in VALS:
        return k
    m = re.match(r"(c?)([A-Za-z]+)", k)
    b = m.group(2)
    for tail in ("v",):
        if b not in VALS and b.endswith(tail) and b[:-1] in VALS:
            b = b[:-1]
    if b in ("cP", "cPI", "cPS", "cstring", "cvec"):
        b = b[1:]
    for tail in ("out", "io"):
        if b.endswith(tail):
            b = b[:-len(tail)]
    return b if b in VALS else None


def atom(key):
    """How the driver makes a parameter of this kind: None if it has no use here."""
    a = ATOM[key]
    ct = a["ctype"]
    if "dflt" in key or key.startswith("PyObject") or "[" in key:
        return None
    if key.startswith("vec*") or key == "PS&out":
        return None     # not supported here: generating or compiling says so
    b = base(key)
    if b is None:
        return None
    V = VALS[b]
    d = dict(key=key, dir=a["dir"], cpp=list(V["cpp"]), good=[], bad=[], mut=False, decl="%s {v} = {x};" % V["ct"], arg="{v}", after="{v}", post="", kw=a["kw"])
    cls = b in ("P", "PF", "PR", "PS", "PI")
    smart = "shared_ptr" in ct
    if smart:
        if "null" not in key:
            d["cpp"] = d["cpp"][:1]
    elif b == "PS":
        d["decl"], d["cpp"] = "PS {v}({x});", [("5", "PSi:5")]
    elif cls and "*" in ct:
        null = "null" in key
        if b == "PR":
            d["decl"] = "PR *{v} = {x};"
            d["cpp"] = [("new PR(5)", "PRi:5")] + ([("(PR *) 0", "None")] if null else [])
            d["post"] = "" if "give" in key else "if ({v}) {v}->Unref();"
        elif "give" in key:
            d["decl"] = "%s *{v} = {x};" % b
            d["cpp"] = [("new %s(5)" % b, b + "i:5")] + ([("(%s *) 0" % b, "None")] if null else [])
        else:
            d["decl"] = "std::unique_ptr<P> {v}({x});"
            d["cpp"] = [("new P(5)", "Pi:5")] + ([("(P *) 0", "None")] if null else [])
            d["arg"] = "{v}.get()"
        d["after"] = None
    elif "*" in ct and b != "char*":
        d["arg"] = "&{v}"
    if a["dir"] != "in":
        if cls:
            d["mut"] = True
            d["cpp"] = d["cpp"][:1]
            d["after"] = "{v}"
        else:
            d["good"], d["bad"] = V["good"], V["bad"]
    return d


REV = {k: d for k, d in ((k, atom(k)) for k in ATOM) if d}
# pointers to classes to change in place
ATOM = dict(ATOM)
for k_, dir_ in (("P*io", "inout"), ("P*out", "out")):
    ATOM[k_] = dict(key=k_, ctype="P*", dir=dir_, good=[], bad=[], default=None, set="a->v = 87;".replace("a->", "{p}->"), out="Pi:87",
                    kw=dict(transfer_ownership=False), see=None, only=None)
    REV[k_] = dict(key=k_, dir=dir_, cpp=[("new P(5)", "Pi:5")], good=[], bad=[], mut=True, decl="std::unique_ptr<P> {v}({x});", arg="{v}.get()",
                   after="*{v}", post="", kw={})
# what an override may answer with: return types with values in atoms.returns() and these
RREV = [k for k in RET if RET[k]["good"] is not None]
XRET = {
    "P*own": dict(good=[("m.P(21)", "Pi:21"), ("SubP(22)", "Pi:22")], bad=[("5", "TypeError"), ("None", "TypeError")], err="None", post="delete r;"),
    "PR*own": dict(good=[("m.PR(21)", "PRi:21")], bad=[("m.P(5)", "TypeError")], err="None", post="if (r) r->Unref();"),
    "PS": dict(good=[("m.PS(21)", "PSi:21")], bad=[("m.P(5)", "TypeError")], err="None", post=""),
    "PyObject": dict(good=[("'obj'", "o:'obj'"), ("(1, 2)", "o:(1, 2)"), ("None", "o:None")], bad=[], err=None, post="Py_XDECREF(r);"),
    "cP&": dict(good=[("keepP", "Pi:77")], bad=[("5", "TypeError")], err="fatal", post=""),
}
RREV += list(XRET)


def rret(key):
    """good, bad, err and post of a return type, or None for void"""
    if RET[key]["ctype"] is None:
        return None
    return XRET.get(key) or dict(good=RET[key]["good"], bad=RET[key]["bad"], err=RET[key]["err"], post="")


def args(sig):
    """Numbers of the parameters the override gets."""
    return [i for i, k in enumerate(sig["params"], 1) if REV[k]["dir"] != "out" or REV[k]["mut"] or container(k)]


def container(k):
    return "vector" in ATOM[k]["ctype"] or "std::map" in ATOM[k]["ctype"]


def plist(sig):
    return ", ".join("%s a%d" % (ATOM[k]["ctype"], i) for i, k in enumerate(sig["params"], 1))


def setters(sig):
    """What the C++ implementation gives as output."""
    s = []
    for i, k in enumerate(sig["params"], 1):
        a = ATOM[k]
        if a["set"]:
            if container(k) and a["out"]:
                s.append("a%d.clear();" % i if "*" not in a["ctype"] else "a%d->clear();" % i)
            s.append(a["set"].format(p="a%d" % i))
        elif k.endswith("give"):
            s.append("delete a%d;" % i)
    return " ".join(s)


def outs(sig):
    """Numbers of the parameters whose values the override answers with."""
    return [i for i, k in enumerate(sig["params"], 1) if REV[k]["good"] or REV[k]["bad"]]


def muts(sig):
    return [i for i, k in enumerate(sig["params"], 1) if REV[k]["mut"]]


def header(sigs):
    s = [A.SUPPORT, A.STATICS, "#include <limits>"]
    s.append("inline void result(std::string const &t) { lg().text += \"|\" + t; }")
    for g in sigs:
        r = RET[g["ret"]]
        ret = r["ctype"] or "void"
        n = g["name"]
        rr = ("return %s;" % r["expr"]) if r["ctype"] else ""
        const = " const" if g.get("const") else ""
        decl = "virtual %s f(%s)%s" % (ret, plist(g), const)
        impl = " = 0;" if g["pure"] else " { lg().text += \"base\"; %s %s }" % (setters(g), rr)
        vis = g.get("vis", "public")
        s.append("class %s { public: %s() { lg().live++; } %s(%s const &) { lg().live++; } virtual ~%s() { lg().live--; }" % ((n,) * 5))
        s.append("static void drive_%s(%s *o, std::vector<int> const &c) {" % (n, n))
        for i, k in enumerate(g["params"], 1):
            d = REV[k]
            v = "v%d" % i
            # one declaration per value, chosen by number
            if len(d["cpp"]) == 1:
                s.append("    " + d["decl"].format(v=v, x=d["cpp"][0][0]))
            else:
                pre = d["decl"].split("{v}")[0].strip()
                t = {"std::unique_ptr<P>": "P *"}.get(pre, pre)
                if t.endswith(("(", "=")):
                    t = t[:-1]
                x = "".join("c[%d] == %d ? (%s) (%s) : " % (i - 1, j, t, e[0]) for j, e in enumerate(d["cpp"][:-1], 1)) + "(%s) (%s)" % (t, d["cpp"][-1][0])
                s.append("    " + d["decl"].format(v=v, x=x))
        args = ", ".join(REV[k]["arg"].format(v="v%d" % i) for i, k in enumerate(g["params"], 1))
        # the override's answer is followed by what the parameters are afterwards
        if r["ctype"] is None:
            s.append("    o->f(%s); result(\"void\");" % args)
        elif "*" in r["ctype"]:
            s.append("    { %s r = o->f(%s); result(show(r)); %s }" % (r["ctype"], args, rret(g["ret"])["post"]))
        else:
            s.append("    { %s r = o->f(%s); result(show(r)); }" % (r["ctype"], args))
        for i, k in enumerate(g["params"], 1):
            if REV[k]["dir"] != "in":
                s.append("    result(show(%s));" % (REV[k]["after"] or ("*v%d" % i)).format(v="v%d" % i))
        for i, k in enumerate(g["params"], 1):
            if REV[k]["post"]:
                s.append("    " + REV[k]["post"].format(v="v%d" % i))
        s.append("}")
        s.append("%s: %s%s" % (vis, decl, impl))
        s.append("};")
        s.append("inline void drive_%s(%s *o, std::vector<int> const &c) { %s::drive_%s(o, c); }" % (n, n, n, n))
    return "\n".join(s) + "\n"


def pexpr(sig):
    return C.pexpr(dict(params=[dict(atom=k, opt=False) for k in sig["params"]]), ATOM)


def gen(name, sigs):
    s = [C.HEAD, "mod = Module(%r)" % name, "mod.add_include('\"%s.h\"')" % name, C.registration()]
    for g in sigs:
        n = g["name"]
        s.append("c_ = mod.add_class(%r, allow_subclassing=True); c_.add_constructor([])" % n)
        s.append("c_.add_method('f', %s, %s, is_virtual=True%s%s%s)" % (
            C.rexpr(g), pexpr(g), ", is_pure_virtual=True" if g["pure"] else "", ", is_const=True" if g.get("const") else "",
            ", visibility=%r" % g["vis"] if g.get("vis", "public") != "public" else ""))
        s.append("mod.add_function('drive_%s', None, [param('%s*', 'o', transfer_ownership=False), param('const std::vector<int> &', 'c')])" % (n, n))
    s.append("import sys\nmod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(s) + "\n"


BASE = {"P&io": "Pi:82", "map&io": "[(s:n,i:3)]"}


def table(sigs):
    """The table of spec/Override.tla."""
    tab = []
    for g in sigs:
        ar, ps = args(g), []
        for i, k in enumerate(g["params"], 1):
            d, a = REV[k], ATOM[k]
            m = ""
            if d["mut"]:
                m = re.sub(r"i:.*", "i:%d" % (90 + ar.index(i)), d["cpp"][0][1])
            ps.append(dict(arg=i in ar, c=["[]" if a["dir"] == "out" and container(k) else x[1] for x in d["cpp"]], mut=d["mut"], m=m, out=i in outs(g), g=[x[1] for x in d["good"]], b=[x[1] for x in d["bad"]],
                           base=BASE.get(k, a["out"]) or ""))
        r = rret(g["ret"])
        rr = []
        if r:
            rr = [dict(g=[x[1] for x in r["good"]], b=[x[1] for x in r["bad"]], base="o:12345" if g["ret"] == "PyObject" else RET[g["ret"]]["shown"], err="PIi:0" if g["ret"] == "PI" else "fatal")]
        tab.append(dict(name=g["name"], pure=bool(g["pure"]), params=ps, ret=rr))
    return dict(sigs=tab)
