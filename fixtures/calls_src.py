"""C++ functions and generator script for the calling behaviour: one callable per signature.

A signature: {name, kind, params: [{atom, opt}], ret, throw: [exception names]}; kinds: func, method, static, ctor,
fmeth (function as method), fctor (function as constructor), call (__call__)."""
import atoms as A

ATOM = {a["key"]: a for a in A.atoms()}
RET = {r["key"]: r for r in A.returns()}
HEAD = "import sys\nsys.setrecursionlimit(20000)\nfrom pybindgen import *\nfrom pybindgen import cppclass, FileCodeSink\nfrom pybindgen.cppclass import *\n"


def registration(extra=""):
    return A.REGISTER + EXC_REG


# C++ exceptions by the number maybe_throw() takes: C++ name, base class (number), Python name, base class in Python
# (number), message
EXCS = [
    dict(cxx="Error", cbase=0, py="Error", pbase=0, msg="boom"),
    dict(cxx="SubError", cbase=1, py="SubError", pbase=1, msg="subboom"),
    dict(cxx="OtherError", cbase=0, py="OtherError", pbase=0, msg=None),
    dict(cxx="std::out_of_range", cbase=0, py="IndexError", pbase=0, msg="range"),
    dict(cxx="ns::NsError", cbase=0, py="ns.NsError", pbase=0, msg="ns5"),
    dict(cxx="KO::Inner", cbase=0, py="KO.Inner", pbase=0, msg="inner"),
    dict(cxx="DeepRange", cbase=4, py="DeepRange", pbase=4, msg="deep"),
    dict(cxx="RawErr", cbase=0, py="Renamed", pbase=1, msg="raw"),
    dict(cxx="ns::NsSub", cbase=1, py="ns.NsSub", pbase=1, msg="nssub"),
    dict(cxx="ns::inn::DeepErr", cbase=5, py="ns.inn.DeepErr", pbase=5, msg="ns10"),
    dict(cxx="KP::Inner2", cbase=5, py="KP.Inner2", pbase=5, msg="ns11"),
    dict(cxx="FromNs", cbase=9, py="FromNs", pbase=9, msg="fromns"),
    dict(cxx="aa::Sib", cbase=10, py="aa.Sib", pbase=10, msg="ns10"),
]
NEXC = len(EXCS)

EXC_REG = """
AA = mod.add_cpp_namespace('aa')
Range = mod.add_exception('out_of_range', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()', is_standard_error=True, custom_name='IndexError')
NsError = mod.add_cpp_namespace('ns').add_exception('NsError', message_rvalue='%(EXC)s.text().c_str()')
KO = mod.add_class('KO'); KO.add_constructor([])
Inner = mod.add_exception('Inner', outer_class=KO, message_rvalue='%(EXC)s.why')
Deep = mod.add_exception('DeepRange', Range, message_rvalue='%(EXC)s.what()')
Raw = mod.add_exception('RawErr', Error, message_rvalue='%(EXC)s.what()', custom_name='Renamed')
NsSub = mod.add_cpp_namespace('ns').add_exception('NsSub', Error, message_rvalue='%(EXC)s.what()')
DeepErr = mod.add_cpp_namespace('ns').add_cpp_namespace('inn').add_exception('DeepErr', NsError, message_rvalue='%(EXC)s.text().c_str()')
KP = mod.add_class('KP'); KP.add_constructor([])
Inner2 = mod.add_exception('Inner2', NsError, outer_class=KP, message_rvalue='%(EXC)s.text().c_str()')
FromNs = mod.add_exception('FromNs', NsSub, message_rvalue='%(EXC)s.what()')
Sib = AA.add_exception('Sib', DeepErr, message_rvalue='%(EXC)s.text().c_str()')
EXC = [None, Error, SubError, OtherError, Range, NsError, Inner, Deep, Raw, NsSub, DeepErr, Inner2, FromNs, Sib]
"""


def decl(ctype, name):
    return ctype + " " + name


def body(sig):
    """C++ statements: log what arrived, set outputs, maybe throw."""
    out = ['enter("%s");' % sig["name"]]
    for i, p in enumerate(sig["params"], 1):
        a = ATOM[p["atom"]]
        n = "a%d" % i
        if a["dir"] != "out":
            out.append("saw(%s);" % (a["see"] or "{p}").format(p=n))
    if sig["throw"]:
        out.append("maybe_throw();")
    for i, p in enumerate(sig["params"], 1):
        a = ATOM[p["atom"]]
        if a["set"]:
            out.append(a["set"].format(p="a%d" % i))
    return " ".join(out)


def plist(sig):
    return ", ".join(decl(ATOM[p["atom"]]["ctype"], "a%d" % i) for i, p in enumerate(sig["params"], 1))


def header(sigs):
    s = [A.SUPPORT, A.STATICS]
    s.append("class K { public: int tag; K() : tag(1) {} K(K const &o) : tag(o.tag) {}")
    tail = []
    for g in sigs:
        r = RET[g["ret"]]
        ret = r["ctype"] or "void"
        b = body(g)
        rr = ("return %s;" % r["expr"]) if r["ctype"] else ""
        k = g["kind"]
        if k in ("method", "static"):
            s.append("%s%s %s(%s) { %s %s }" % ("static " if k == "static" else "", ret, g["name"], plist(g), b, rr))
        elif k == "call":
            tail.append("class %s { public: int v; %s() : v(0) {} %s operator()(%s) { %s %s } };" % (g["name"], g["name"], ret, plist(g), b, rr))
        elif k == "func":
            tail.append("inline %s %s(%s) { %s %s }" % (ret, g["name"], plist(g), b, rr))
        elif k == "ctor":
            tail.append("class %s { public: int v; %s(%s) : v(0) { %s lg().live++; } %s(%s const &o) : v(o.v) { lg().live++; } ~%s() { lg().live--; } };"
                        % (g["name"], g["name"], plist(g), b, g["name"], g["name"], g["name"]))
        elif k == "fmeth":
            tail.append("inline %s %s(K *self_%s) { %s %s }" % (ret, g["name"], ", " + plist(g) if g["params"] else "", b, rr))
        elif k == "fctor":
            tail.append("class %s { public: int v; %s() : v(0) { lg().live++; } %s(%s const &o) : v(o.v) { lg().live++; } ~%s() { lg().live--; } };"
                        % ((g["name"],) * 5))
            tail.append("inline %s *make_%s(%s) { %s return new %s; }" % (g["name"], g["name"], plist(g), b, g["name"]))
    s.append("};")
    return "\n".join(s + tail) + "\n"


def pexpr(sig, table=ATOM):
    ps = []
    for i, p in enumerate(sig["params"], 1):
        a = table[p["atom"]]
        kw = dict(a["kw"])
        if kw.get("direction") and a["dir"] != "in":
            del kw["direction"]
        x = "param(%r, 'a%d'" % (a["ctype"], i)
        if a["dir"] != "in":
            x += ", direction=Parameter.DIRECTION_%s" % a["dir"].upper()
        for k, v in kw.items():
            x += ", %s=%r" % (k, v)
        if p["opt"]:
            x += ", default_value=%r" % a["default"][0]
        ps.append(x + ")")
    return "[" + ", ".join(ps) + "]"


def rexpr(sig):
    r = RET[sig["ret"]]
    if r["ctype"] is None:
        return "None"
    return "retval(%r%s)" % (r["ctype"], "".join(", %s=%r" % kv for kv in r["kw"].items()))


def gen(name, sigs):
    s = [HEAD, "mod = Module(%r)" % name, "mod.add_include('\"%s.h\"')" % name, registration(),
         "K = mod.add_class('K'); K.add_constructor([]); K.add_copy_constructor(); K.add_instance_attribute('tag', 'int')"]
    for g in sigs:
        n, k = g["name"], g["kind"]
        t = ", throw=[%s]" % ", ".join("EXC[%d]" % x for x in g["throw"]) if g["throw"] else ""
        if g.get("unblock") and k != "fctor":
            t += ", unblock_threads=True"
        if g.get("custom"):
            t += ", custom_name=%r" % g["custom"]
        if k == "func":
            s.append("mod.add_function(%r, %s, %s%s)" % (n, rexpr(g), pexpr(g), t))
        elif k in ("method", "static"):
            s.append("K.add_method(%r, %s, %s%s%s)" % (n, rexpr(g), pexpr(g), t, ", is_static=True" if k == "static" else ""))
        elif k == "call":
            s.append("c_ = mod.add_class(%r); c_.add_constructor([]); c_.add_method('operator()', %s, %s%s, custom_name='__call__')"
                     % (n, rexpr(g), pexpr(g), t))
        elif k == "ctor":
            s.append("c_ = mod.add_class(%r); c_.add_constructor(%s%s); c_.add_instance_attribute('v', 'int')" % (n, pexpr(g), t))
        elif k == "fmeth":
            s.append("K.add_function_as_method(%r, %s, [param('K*', 'self_', transfer_ownership=False)] + %s%s)" % (n, rexpr(g), pexpr(g), t))
        elif k == "fctor":
            s.append("c_ = mod.add_class(%r); c_.add_function_as_constructor('make_%s', ReturnValue.new('%s*', caller_owns_return=True), %s%s); c_.add_instance_attribute('v', 'int')" % (n, n, n, pexpr(g), t))
    s.append("import sys\nmod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(s) + "\n"
