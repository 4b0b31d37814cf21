"""C++ classes with operators and their registration, from tables of Operators.tla (classes also have name and scope;
operators how: how the right operand is registered)."""
import atoms as A

MOD = 3
WHAT = [("1", "int", 1), ("4", "int", 4 % MOD), ("True", "int", 1), ("2.5", "float", 2), ("2 ** 40", "float", 2 ** 40 % MOD), ("'s'", "other", 0),
        ("None", "other", 0), ("fake", "other", 0), ("[]", "other", 0)]


def cxx(c):
    return {"": "", "ns": "ns::"}[c["scope"]] + c["name"]


def tname(h, t):
    return {101: "int", 102: "double"}.get(t) or cxx(h["classes"][t - 1])


def bases(h, k):
    r = [k]
    for u in h["classes"][k - 1]["up"]:
        r += bases(h, u)
    return r


def text(name, v):
    return ["é€".encode() + name.encode() * 500, name.encode() + b"\0x", b"\xff" + name.encode()][v]


HEADER = '''
#include <iostream>
#include <sstream>
inline int of_(int v) { return v %% %(mod)d; }
inline int of_(double v) { return (int) ((long long) v %% %(mod)d); }
inline void note_(const char *op, int l, int r, int a, int b) {
    lg().text += std::string(op) + "," + std::to_string(l) + "," + std::to_string(r) + "," + std::to_string(a) + "," + std::to_string(b) + "|"; }
inline int value_(int id, int a, int b) { return (id + a + 2 * b) %% %(mod)d; }
''' % dict(mod=MOD)


def cpp_ops(h):
    """the C++ operators: (op, l, r, res)"""
    d = {}
    for k, c in enumerate(h["classes"], 1):
        for e in c["num"]:
            d[e["op"], e["l"], e["r"]] = e["res"]
        for e in c["inp"]:
            d[e["op"], k, e["r"]] = k
        for e in c["neg"]:
            d["neg", e["l"], 0] = e["res"]
    return d


def header(hs):
    s = [A.SUPPORT, A.CONTROL, HEADER]
    for h in hs:
        cl = h["classes"]
        for k, c in enumerate(cl, 1):
            n, w = c["name"], 1 - len(c["up"])
            up = ", ".join("public " + cxx(cl[u - 1]) for u in c["up"])
            parts = ", ".join(["%s(o_)" % cxx(cl[u - 1]) for u in c["up"]] or ["v(o_.v)"])
            b = "class %s%s { public: %s %s() { lg().live += %d; } %s(%s const &o_) : %s { lg().live += %d; } %s~%s() { lg().live -= %d; } };" % (
                n, " : " + up if up else "", "" if up else "int pad_ = 77; int v = 0;", n, w, n, n, parts, w, "virtual " if h["sub"] else "", n, w)
            s.append("namespace ns { %s }" % b if c["scope"] else b)
            q = cxx(c)
            roots = [u for u in bases(h, k) if not cl[u - 1]["up"]]
            s.append("inline int of_(%s const &o_) { return o_.%s::v; }" % (q, cxx(cl[roots[0] - 1])))
            s.append("inline void put_%s(%s &o_, int v_) { %s }" % (n, q, " ".join("o_.%s::v = v_;" % cxx(cl[u - 1]) for u in roots)))
            s.append("inline int get_%s(%s const &o_) { return of_(o_); }" % (n, q))
        for (op, l, r), res in cpp_ops(h).items():
            i = [e["id"] for e in h["id"] if (e["op"], e["l"], e["r"]) == (op, l, r)][0]
            arg = lambda t, a: ("%s const &%s" if t < 100 else "%s %s") % (tname(h, t), a)
            val = "value_(%d, of_(a_), %s)" % (i, "of_(b_)" if op != "neg" else "0")
            note = 'note_("%s", %d, %d, of_(a_), %s);' % (op, l, r, "of_(b_)" if op != "neg" else "0")
            if op.endswith("="):
                code = "inline %s &operator%s(%s &a_, %s) { int v_ = %s; %s put_%s(a_, v_); return a_; }" % (
                    tname(h, l), op, tname(h, l), arg(r, "b_"), val, note, cl[l - 1]["name"])
            else:
                body = "%s return %s;" % (note, val) if res > 100 else "%s r_; %s put_%s(r_, %s); return r_;" % (tname(h, res), note, cl[res - 1]["name"], val)
                code = "inline %s operator%s(%s%s) { %s }" % (tname(h, res), op.replace("neg", "-"), arg(l, "a_"), "" if op == "neg" else ", " + arg(r, "b_"), body)
            # found by the C++ rules for operators
            spaces = [cl[t - 1]["scope"] for t in (l, r) if 0 < t < 100]
            s.append("namespace ns { %s }" % code if all(spaces) else code)
        for k, c in enumerate(cl, 1):
            q = cxx(c)
            code = []
            for op in c["cmp"]:
                code.append('inline bool operator%s(%s const &a_, %s const &b_) { note_("%s", %d, %d, of_(a_), of_(b_)); return (of_(a_) + %d) %% %d %s of_(b_); }' % (
                    op, q, q, op, k, k, k, MOD, op))
            if c["str"]:
                lit = lambda v: "std::string(%s, %d)" % ('"' + "".join("\\%03o" % x for x in text(c["name"], v)) + '"', len(text(c["name"], v)))
                code.append("inline std::ostream &operator<<(std::ostream &s_, %s const &o_) { const std::string t_[] = {%s}; return s_ << t_[of_(o_)]; }" % (
                    q, ", ".join(lit(v) for v in range(MOD))))
            s += ["namespace ns { %s }" % x if c["scope"] else x for x in code]
    return "\n".join(s) + "\n"


def gen(name, hs):
    g = ["import sys, pybindgen", "from pybindgen import Module, FileCodeSink, param, retval, cppclass, ReturnValue", "mod = m = Module(%r)" % name,
         "mod.add_include('\"%s.h\"')" % name, A.REGISTER, "ns = mod.add_cpp_namespace('ns')"]
    for h in hs:
        cl = h["classes"]
        for k, c in enumerate(cl, 1):
            kw = []
            if c["up"]:
                kw.append("parent=%s" % ("c%d" % c["up"][0] if len(c["up"]) == 1 else "[" + ", ".join("c%d" % u for u in c["up"]) + "]"))
            elif h["sub"]:
                kw.append("allow_subclassing=True")
            g.append("c%d = %s.add_class(%s)" % (k, "ns" if c["scope"] else "mod", ", ".join([repr(c["name"])] + kw)))
            g.append("c%d.add_constructor([]); c%d.add_copy_constructor()" % (k, k))
            g.append("mod.add_function('put_%s', None, [param('%s&', 'o'), param('int', 'v')])" % (c["name"], cxx(c)))
            g.append("mod.add_function('get_%s', retval('int'), [param('const %s&', 'o')])" % (c["name"], cxx(c)))
        for k, c in enumerate(cl, 1):
            def typ(t):
                return "ReturnValue.new(%r)" % tname(h, t) if t > 100 else "c%d" % t

            def right(e):
                t = e["r"]
                if t > 100:
                    return {"str": repr(tname(h, t)), "param": "param(%r, 'right')" % tname(h, t)}[e["how"]]
                q = cxx(cl[t - 1])
                return {"str": repr(q), "param": "param('const %s &', 'right')" % q, "class": "c%d" % t, "val": "param('%s', 'right')" % q}[e["how"]]
            acts = []
            for e in c["num"]:
                kw = [repr(e["op"])]
                if not (e["res"] == k and e["how"] == "class"):
                    kw.append("result_cppclass=" + typ(e["res"]))
                if not (e["l"] == k and e["how"] == "class"):
                    kw.append("left_cppclass=" + typ(e["l"]))
                if not (e["r"] == k and e["how"] == "class"):
                    kw.append("right=" + right(e))
                acts.append("c%d.add_binary_numeric_operator(%s)" % (k, ", ".join(kw)))
            for e in c["inp"]:
                acts.append("c%d.add_inplace_numeric_operator(%r%s)" % (k, e["op"], "" if e["r"] == k and e["how"] == "class" else ", right=" + right(e)))
            for e in c["neg"]:
                acts.append("c%d.add_unary_numeric_operator('-', result_cppclass=%s, left_cppclass=%s)" % (k, typ(e["res"]), typ(e["l"])))
            for op in c["cmp"]:
                acts.append("c%d.add_binary_comparison_operator(%r)" % (k, op))
            if c["str"]:
                acts.append("c%d.add_output_stream_operator()" % k)
            g += acts
    g.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"
