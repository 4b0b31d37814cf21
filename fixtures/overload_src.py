"""Overloaded C++ functions, methods and constructors, the values they are called with and which parameter takes which value.

A set: name, kind (func, method, static, call, ctor, virt, prot), same (one C++ name), members: signatures as in
calls_src with how ("own", "fmeth", "fctor", "custom")."""
import re
import atoms as A
import calls_src as C

VALUES = ["5", "-7", "300", "1 << 40", "1 << 70", "2.5", "True", "'s'", "b'x'", "None", "m.P(5)", "SubP(6)", "m.PR(3)", "m.PS(2)", "mkPI(3)",
          "[1, 2]", "['a']", "[]", "[('k', 1)]", "m.VecInt([3])", "BadBool()"]
NUM = {"5": 5, "-7": -7, "300": 300, "1 << 40": 1 << 40, "1 << 70": 1 << 70, "True": 1}
RANGE = {"int": (32, True), "short": (16, True), "ushort": (16, False), "schar": (8, True), "uchar": (8, False), "long": (64, True), "llong": (64, True)}
OBJ = {"m.P(5)": "Pi:5", "SubP(6)": "Pi:6", "m.PR(3)": "PRi:3", "m.PS(2)": "PSi:2", "mkPI(3)": "PIi:3"}
CLASS = {"P": "P", "P&": "P", "cP&": "P", "P&io": "P", "P*": "P", "cP*": "P", "P*null": "P", "P*dflt": "P", "P*give": "P", "PRv": "PR", "PR&": "PR", "PR*": "PR",
         "PR*give": "PR", "PSv": "PS", "PS&": "PS", "cPS&": "PS", "PS": "PS", "PSnull": "PS", "PI": "PI", "cPI&": "PI"}
LISTS = {"vec": {"[1, 2]": "[i:1,i:2]", "[]": "[]", "m.VecInt([3])": "[i:3]"}, "vecs": {"['a']": "[s:a]", "[]": "[]"},
         "listd": {"[1, 2]": "[d:1,d:2]", "[]": "[]"}, "seti": {"[1, 2]": "[i:1,i:2]", "[]": "[]"}, "vecP": {"[]": "[]"},
         "map": {"[('k', 1)]": "[(s:k,i:1)]", "[]": "[]"}}
LISTS["vec&"] = LISTS["cvec&"] = LISTS["vec*"] = LISTS["vec&io"] = LISTS["vec"]
LISTS["map&io"] = LISTS["map"]


def takes(key, v):
    """what C++ sees of value v through a parameter of this kind, or None: refused"""
    base = re.sub(r"(&io|&|\*io|\*)$", "", key)
    if base in RANGE:
        bits, sg = RANGE[base]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        return "i:%d" % NUM[v] if v in NUM and lo <= NUM[v] <= hi else None
    if base in ("double", "float"):
        return "d:%.9g" % NUM[v] if v in NUM else "d:2.5" if v == "2.5" else None
    if key == "bool":
        return None if v == "BadBool()" else "b:0" if v in ("None", "[]") else "b:1"
    if key in ("string", "string&", "cstring&", "string&io", "char*", "string*"):
        return "s:s" if v == "'s'" else None
    if key == "char":
        return "c:x" if v == "b'x'" else None
    if key == "enum":
        return "i:%d" % NUM[v] if v in NUM and -(1 << 31) <= NUM[v] < 1 << 31 else None
    if key in CLASS:
        if v == "None":
            return "None" if key in ("P*null", "PSnull") else None
        t = OBJ.get(v)
        if t and CLASS[key] == "PI" and re.match(r"P\b|Pi", t):
            return "PIi:%d" % (1000 + int(t[3:]))
        return t if t and t.split("i:")[0] == CLASS[key] else None
    return LISTS[key].get(v)


INS = list(RANGE) + ["int&", "double", "float", "bool", "string", "string&", "cstring&", "char*", "char", "enum"] + list(CLASS) + [k for k in LISTS]
INS = [k for k in INS if C.ATOM[k]["dir"] == "in"]
OUT = ["int&out", "string&out", "vec&out", "P&out", "double*out"]
IO = ["int&io", "double&io", "string&io", "vec&io", "map&io"]
OPT = [k for k in INS if C.ATOM[k]["default"]]
#: not both in one set: bytes are a string for some formats, what C++ deletes must be a plain P
CLASH = [({"-7"}, {"enum"}), ({"b'x'"}, {"string", "string&", "cstring&", "char*", "string*", "string&io"}), ({"SubP(6)"}, {"P*give"})]


def canon(m):
    return tuple(re.sub(r"const |&| ", "", C.ATOM[p["atom"]]["ctype"]) for p in m["params"])


CUSTOM = r'''
static PyObject *
%(w)s(%(self)sPyObject *args, PyObject *kwargs, PyObject **return_exception)
{
    int x;
    const char *keywords[] = {"a1", NULL};
    if (!PyArg_ParseTupleAndKeywords(args, kwargs, (char *) "i", (char **) keywords, &x)) {
        PyObject *exc_type, *traceback;
        PyErr_Fetch(&exc_type, return_exception, &traceback);
        Py_XDECREF(exc_type);
        Py_XDECREF(traceback);
        return NULL;
    }
    enter("%(n)s"); saw(x);
    Py_INCREF(Py_None);
    return Py_None;
}
'''


def cname(s, m):
    return s["name"] if s["same"] else m["name"]


def header(sets):
    h = [A.SUPPORT, A.STATICS]
    for s in sets:
        k = s["kind"]
        q = s["name"]
        cls, tail = [], []
        for m in s["members"]:
            r = C.RET[m["ret"]]
            ret = r["ctype"] or "void"
            b = C.body(m) + (" return %s;" % r["expr"] if r["ctype"] else "")
            pl = C.plist(m)
            if m["how"] == "custom":
                continue
            if k == "func":
                tail.append("inline %s %s(%s) { %s }" % (ret, cname(s, m), pl, b))
            elif m["how"] == "fmeth":
                tail.append("inline %s %s(Q%s *self_%s) { %s }" % (ret, m["name"], q, ", " + pl if pl else "", b))
            elif k == "call":
                cls.append("%s operator()(%s) { %s }" % (ret, pl, b))
            elif m["how"] == "fctor":
                tail.append("inline %s *make_%s(%s) { %s return new %s(0.5f, 0.5f); }" % (q, m["name"], pl, C.body(m), q))
            elif k == "ctor":
                cls.append("%s(%s) : v(0) { %s lg().live++; }" % (q, pl, C.body(m)))
            else:
                cls.append("%s%s%s %s(%s) { %s }" % ("protected: " if k == "prot" else "public: ", dict(static="static ", virt="virtual ", prot="virtual ").get(k, ""),
                                                     ret, cname(s, m), pl, b))
        if k == "ctor":
            h.append("class %s { public: int v; %s(float, float) : v(0) { lg().live++; } %s\n%s(%s const &o) : v(o.v) { lg().live++; } ~%s() { lg().live--; } };"
                     % (q, q, "\n".join(cls), q, q, q))
        elif k != "func":
            h.append("class Q%s { public: int v; Q%s() : v(0) {} Q%s(Q%s const &o) : v(o.v) {} %s\n%s };" % (
                q, q, q, q, "virtual ~Q%s() {}" % q if k in ("virt", "prot") else "", "\n".join(cls)))
        h += tail
    return "\n".join(h) + "\n"


def gen(name, sets):
    g = [C.HEAD, "mod = Module(%r)" % name, "mod.add_include('\"%s.h\"')" % name, C.registration()]
    for s in sets:
        k, q = s["kind"], s["name"]
        if k == "ctor":
            g.append("c_ = mod.add_class(%r); c_.add_instance_attribute('v', 'int')" % q)
        elif k != "func":
            g.append("c_ = mod.add_class('Q%s'%s); c_.add_constructor([])" % (q, ", allow_subclassing=True" if k in ("virt", "prot") else ""))
        for m in s["members"]:
            t = ", throw=[Error]" if m["throw"] and m["how"] != "fctor" else ""
            if m.get("unblock") and m["how"] != "fctor":
                t += ", unblock_threads=True"
            n, cu = cname(s, m), "" if s["same"] or k == "ctor" else ", custom_name=%r" % ("__call__" if k == "call" else q)
            pe, re_ = C.pexpr(m), C.rexpr(m)
            if m["how"] == "custom":
                w = "_custom_%s" % m["name"]
                body = CUSTOM % dict(w=w, n=m["name"], self="PyObject *PYBINDGEN_UNUSED(dummy), " if k == "func" else "PyQ%s *PYBINDGEN_UNUSED(self), " % q)
                g.append("%s(%r, %r, %r)" % ("mod.add_custom_function_wrapper" if k == "func" else "c_.add_custom_method_wrapper", q, w, body))
            elif k == "func":
                g.append("mod.add_function(%r, %s, %s%s%s)" % (n, re_, pe, t, cu))
            elif m["how"] == "fmeth":
                g.append("c_.add_function_as_method(%r, %s, [param('Q%s*', 'self_', transfer_ownership=False)] + %s%s, custom_name=%r)" % (n, re_, q, pe, t, q))
            elif m["how"] == "fctor":
                g.append("c_.add_function_as_constructor('make_%s', ReturnValue.new('%s*', caller_owns_return=True), %s)" % (m["name"], q, pe))
            elif k == "ctor":
                g.append("c_.add_constructor(%s%s)" % (pe, t))
            elif k == "call":
                g.append("c_.add_method('operator()', %s, %s%s, custom_name='__call__')" % (re_, pe, t))
            else:
                x = dict(static=", is_static=True", virt=", is_virtual=True", prot=", is_virtual=True, visibility='protected'").get(k, "")
                g.append("c_.add_method(%r, %s, %s%s%s%s)" % (n, re_, pe, t, x, cu))
    g.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"


def table(sets):
    out = []
    for s in sets:
        ms = []
        for m in s["members"]:
            ps = []
            for p in m["params"]:
                a = C.ATOM[p["atom"]]
                d = dict(out=a["dir"] != "in" and a["out"] is not None, opt=p["opt"], d=a["default"][1] if a["default"] else "", o=a["out"] or "",
                         tok=["" if a["dir"] == "out" else takes(p["atom"], v) or "" for v in s["vals"]])
                d["in"] = a["dir"] != "out"
                ps.append(d)
            r = C.RET[m["ret"]]
            ms.append(dict(name=m["name"], params=ps, ret=[r["shown"]] if r["shown"] is not None else [], throws=bool(m["throw"]) and m["how"] != "fctor",
                           result="self" if s["kind"] == "ctor" else "", unblock=bool(m.get("unblock")) and m["how"] != "fctor"))
        out.append(dict(members=ms, nvals=len(s["vals"]), maxkw=2))
    return out
