"""C++ classes with attributes of many types and their registration, from tables of Attributes.tla.

A table: classes: name, up, scope; sub; attrs: cls, name, static, ro, wo, vals, bads, parts (for the specification) and
type (key of TYPES), kind, ctype."""
import atoms as A

_AT = {a["key"]: a for a in A.atoms()}
_INIT = dict(vec=("std::vector<int>(2, 6)", "[i:6,i:6]"), vecs=('std::vector<std::string>(1, "q")', "[s:q]"), listd=("std::list<double>(1, .5)", "[d:0.5]"),
             seti=("std::set<int>{4}", "[i:4]"), vecP=("std::vector<P>(1, P(8))", "[Pi:8]"), map=('std::map<std::string, int>{{"i", 9}}', "[(s:i,i:9)]"),
             PSv=("PS(3)", "PSi:3"), PRv=("PR(4)", "PRi:4"))
KEYS = list(A.INTS) + ["bool", "double", "float", "string", "char*", "char", "enum", "P", "PI", "PS", "PSv", "PRv", "vec", "vecs", "listd", "seti", "vecP", "map"]
KINDS = ["field", "named", "meth", "mixed", "custom", "tmpl", "static"]
COPIES = ("P", "PI", "PSv", "PRv")


def typ(key):
    a = _AT[key]
    init = a["default"] or _INIT[key]
    if key in _INIT:
        init = _INIT[key]
    good, bad = a["good"], a["bad"]
    if key == "PI":   # implicit conversions are for parameters
        good, bad = [g for g in good if "mkPI" in g[0]], bad + [("m.P(4)", "TypeError")]
    good = [g for i, g in enumerate(good) if g[1] != init[1] and g[1] not in [o[1] for o in good[:i]]]
    return dict(key=key, ctype=a["ctype"], init=init, good=good, bad=bad)


def attr(cls, name, key, kind, ro=False, good=None):
    t = typ(key)
    good = t["good"] if good is None else good
    return dict(cls=cls, name=name, static=kind == "static", ro=ro, wo=False, vals=len(good), bads=len(t["bad"]), parts=key in COPIES,
                type=key, kind=kind, ctype=t["ctype"], init=t["init"], good=good, bad=t["bad"])


def bases(h, k):
    r = [k]
    for u in h["classes"][k - 1]["up"]:
        r += bases(h, u)
    return r


def cxx(c):
    return {"": "", "ns": "ns::", "Outer": c.get("outer", "") + "::"}[c["scope"]] + c["name"]


def path(c):
    return cxx(c).replace("::", ".")


def var(i, a):
    """name of the C++ member that holds the attribute"""
    if a["kind"] in ("field", "mixed", "static"):
        return a["name"]
    return "f%d_" % i


def stored(a):
    return "std::string" if a["type"] == "char*" else a["ctype"]


def arg(a):
    t = a["ctype"]
    return t if a["type"] in A.INTS or a["type"] in ("bool", "double", "float", "char", "enum", "char*") else "%s const &" % t


def body(h, k, c):
    """the members of class k"""
    s = ["public:"]
    init, members = [], []
    for i, a in enumerate(h["attrs"], 1):
        if a["cls"] != k:
            continue
        v = var(i, a)
        if a["kind"] == "static":
            members.append("static inline %s%s %s = %s;" % ("const " if a["ro"] else "", stored(a), v, a["init"][0]))
            continue
        members.append("%s %s = %s;" % (stored(a), v, a["init"][0]))
        get = "%s.c_str()" % v if a["type"] == "char*" else v
        if a["kind"] in ("meth", "mixed"):
            s.append("%s get_%d() const { return %s; }" % (a["ctype"], i, get))
        if a["kind"] == "meth" and not a["ro"]:
            s.append("void set_%d(%s v_) { %s = v_; }" % (i, arg(a), v))
    n = c["name"]
    up = ", ".join("public " + cxx(h["classes"][u - 1]) for u in c["up"])
    parts = ["%s(o_)" % cxx(h["classes"][u - 1]) for u in c["up"]]
    parts += ["%s(o_.%s)" % (var(i, a), var(i, a)) for i, a in enumerate(h["attrs"], 1) if a["cls"] == k and not a["static"]]
    s += members
    s += ["%s() { lg().live++; }" % n, "%s(%s const &o_)%s { lg().live++; (void) o_; }" % (n, n, " : " + ", ".join(parts) if parts else ""),
          "%s~%s() { lg().live--; }" % ("virtual " if h["sub"] else "", n)]
    return "class %s%s {\n%s\n};" % (n, " : " + up if up else "", "\n".join(s))


def header(hs):
    s = [A.SUPPORT, A.CONTROL]
    for h in hs:
        for k, c in enumerate(h["classes"], 1):
            b = body(h, k, c)
            if c["scope"] == "ns":
                b = "namespace ns { %s }" % b
            elif c["scope"] == "Outer":
                b = "class %s { public: %s };" % (c["outer"], b)
            s.append(b)
            q = cxx(c)
            own = [(i, a) for i, a in enumerate(h["attrs"], 1) if a["cls"] in bases(h, k) and not a["static"]]
            mem = lambda i, a: "o_.%s::%s" % (cxx(h["classes"][a["cls"] - 1]), var(i, a))
            s.append("inline std::string peek_%s(%s const &o_) { std::string r; %s return r; }" % (
                c["name"], q, " ".join('r += "%d=" + show(%s) + ";";' % (i, mem(i, a)) for i, a in own)))
            s.append("inline void cset_%s(%s &o_, int i) { switch (i) { %s } }" % (
                c["name"], q, " ".join("case %d: %s = %s; break;" % (i, mem(i, a), a["init"][0]) for i, a in own if a["type"] not in ("PR",))))
            for i, a in own:
                if a["cls"] != k:
                    continue
                v = "o_." + var(i, a)
                get = "%s.c_str()" % v if a["type"] == "char*" else v
                if a["kind"] == "custom":
                    s.append("inline %s cget_%s_%d(%s &o_) { return %s; }" % (a["ctype"], c["name"], i, q, get))
                    if not a["ro"]:
                        s.append("inline void cput_%s_%d(%s &o_, %s v_) { %s = v_; }" % (c["name"], i, q, arg(a), v))
                elif a["kind"] == "tmpl":
                    s.append("template <int K, class R> inline R tget_%s_%d(%s &o_);" % (c["name"], i, q))
                    s.append("template <> inline %s tget_%s_%d<%d, %s>(%s &o_) { return %s; }" % (a["ctype"], c["name"], i, i, a["ctype"], q, get))
                    if not a["ro"]:
                        s.append("template <int K, class R> inline void tput_%s_%d(%s &o_, R v_) { if (K == %d) %s = v_; }" % (c["name"], i, q, i, v))
        st = [(i, a) for i, a in enumerate(h["attrs"], 1) if a["static"]]
        sv = lambda i, a: "%s::%s" % (cxx(h["classes"][a["cls"] - 1]), var(i, a))
        s.append("inline std::string speek_%s() { std::string r; %s return r; }" % (
            h["name"], " ".join('r += "%d=" + show(%s) + ";";' % (i, sv(i, a)) for i, a in st)))
        s.append("inline void scset_%s(int i) { switch (i) { %s } }" % (
            h["name"], " ".join("case %d: %s = %s; break;" % (i, sv(i, a), a["init"][0]) for i, a in st if not a["ro"])))
    return "\n".join(s) + "\n"


def gen(name, hs):
    g = ["import sys, pybindgen", "from pybindgen import Module, FileCodeSink, param, retval, cppclass", "mod = m = Module(%r)" % name,
         "mod.add_include('\"%s.h\"')" % name, A.REGISTER, "ns = mod.add_cpp_namespace('ns')"]
    for h in hs:
        for k, c in enumerate(h["classes"], 1):
            kw = []
            if c["up"]:
                kw.append("parent=%s" % ("c%d" % c["up"][0] if len(c["up"]) == 1 else "[" + ", ".join("c%d" % u for u in c["up"]) + "]"))
            elif h["sub"]:
                kw.append("allow_subclassing=True")
            where = {"": "mod", "ns": "ns", "Outer": "mod"}[c["scope"]]
            if c["scope"] == "Outer":
                g.append("%s = mod.add_class(%r)" % (c["outer"], c["outer"]))
                kw.append("outer_class=%s" % c["outer"])
            g.append("c%d = %s.add_class(%s)" % (k, where, ", ".join([repr(c["name"])] + kw)))
            g.append("c%d.add_constructor([]); c%d.add_copy_constructor()" % (k, k))
            q, n = cxx(c), c["name"]
            g.append("mod.add_function('peek_%s', retval('std::string'), [param('const %s&', 'o')])" % (n, q))
            g.append("mod.add_function('cset_%s', None, [param('%s&', 'o'), param('int', 'i')])" % (n, q))
        for i, a in enumerate(h["attrs"], 1):
            n = h["classes"][a["cls"] - 1]["name"]
            rv = "retval(%r)" % a["ctype"]
            k, ro = a["kind"], ", is_const=True" if a["ro"] else ""
            v = var(i, a)
            if k == "static":
                g.append("c%d.add_static_attribute(%r, %s%s)" % (a["cls"], v, rv, ro))
            elif k in ("field", "named"):
                g.append("c%d.add_instance_attribute(%r, %s%s%s)" % (a["cls"], v, rv, ro, ", custom_name=%r" % a["name"] if k == "named" else ""))
            elif k == "meth":
                g.append("c%d.add_instance_attribute(%r, %s%s, getter='get_%d'%s)" % (a["cls"], a["name"], rv, ro, i, "" if ro else ", setter='set_%d'" % i))
            elif k == "mixed":
                g.append("c%d.add_instance_attribute(%r, %s%s, getter='get_%d')" % (a["cls"], v, rv, ro, i))
            else:
                t, p = ("c", "") if k == "custom" else ("t", ", getter_template_parameters=['%d', %r]" % (i, a["ctype"]))
                if k == "tmpl" and not a["ro"]:
                    p += ", setter_template_parameters=['%d', %r]" % (i, a["ctype"])
                g.append("c%d.add_custom_instance_attribute(%r, %s, '%sget_%s_%d'%s%s%s)" % (
                    a["cls"], v, rv, t, n, i, ro, "" if ro else ", setter='%sput_%s_%d'" % (t, n, i), ", custom_name=%r" % a["name"] + p))
        g.append("mod.add_function('speek_%s', retval('std::string'), [])" % h["name"])
        g.append("mod.add_function('scset_%s', None, [param('int', 'i')])" % h["name"])
    g.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"
