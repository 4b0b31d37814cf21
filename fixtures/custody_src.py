"""C++ classes and functions whose calls bind the lifetimes of their arguments, from tables of Custody.tla.

A table: classes [{name, up: [1-based], part, dict, subs, eq, virt, pol: ''|'rc'}],
ops [{name, cls, new, static, params: [{cls, null, how: 'ptr'|'ref'}], ret, rel: [{c, w, via: 'kw'|'add', post}], over: ''|'same', throw, unblock}] (declared to throw, to let other threads run; they do neither)"""
HEAD = "import sys\nfrom pybindgen import *\nfrom pybindgen import cppclass, FileCodeSink\n"

COMMON = """
#include <set>
#include <vector>
#include <stdexcept>
struct Oops { char const *what() const { return "oops"; } };
struct Tracked {
  static std::set<long> &live() { static std::set<long> s; return s; }
  static long &late() { static long n = 0; return n; }
  static long &last() { static long n = 0; return n; }
  long serial; std::vector<long> held;
  Tracked() : serial(++last()) { live().insert(serial); }
  Tracked(Tracked const &) : serial(++last()) { live().insert(serial); }
  Tracked &operator=(Tracked const &) { return *this; }
  ~Tracked() { for (long h : held) if (!live().count(h)) ++late(); live().erase(serial); }
  void hold(Tracked const *w) { held.push_back(w->serial); }
};
inline bool is_live(long s) { return Tracked::live().count(s) != 0; }
inline long late() { long n = Tracked::late(); Tracked::late() = 0; return n; }
"""


def params(h, o):
    out = []
    for i, p in enumerate(o["params"], 1):
        n = h["classes"][p["cls"] - 1]["name"]
        out.append("%s %sp%d" % (n, "*" if p["how"] == "ptr" else "&", i))
    return ", ".join(out)


def expr(o, x):
    if x == -1:
        return "r"
    if x == 0:
        return "this"
    return "p%d" % x if o["params"][x - 1]["how"] == "ptr" else "&p%d" % x


def cls(h, o, x):
    return h["classes"][(o["ret"] if x == -1 else o["cls"] if x == 0 else o["params"][x - 1]["cls"]) - 1]


def body(h, o):
    s = []
    if o["ret"]:
        r = h["classes"][o["ret"] - 1]
        if r["part"]:
            s.append("%s *r = &%s->part_%s;" % (r["name"], "this" if o["cls"] else expr(o, 1), r["name"]))
        else:
            s.append("%s *r = new %s;" % (r["name"], r["name"]))
    for e in o["rel"]:
        if cls(h, o, e["c"])["part"] or cls(h, o, e["w"])["part"]:
            continue
        c, w = expr(o, e["c"]), expr(o, e["w"])
        t = " && ".join([x for x in (c, w) if x[0] == "p"]) or "true"
        s.append("if (%s) (%s)->tr()->hold((%s)->tr());" % (t, c, w))
    if o["ret"]:
        s.append("return r;")
    return " ".join(s)


def header(hs):
    out = [COMMON]
    for h in hs:
        cl = h["classes"]
        for c in cl:
            out.append("struct %s;" % c["name"])
        for c in cl:
            if c["part"]:
                out.append("struct %s { int v; %s() : v(7) {} int get() const { return v; } };" % (c["name"], c["name"]))
        for k, c in enumerate(cl, 1):
            if c["part"]:
                continue
            n = c["name"]
            b = []
            if not c["up"]:
                b += ["long ser() const { return serial; } Tracked *tr() { return this; }"] + ["%s part_%s;" % (p["name"], p["name"]) for p in cl if p["part"]]
                if c["pol"] == "rc":
                    b.append("int refs_ = 1; void Ref() { ++refs_; } void Unref() { if (--refs_ == 0) delete this; } int Peek() const { return refs_; }")
                if c["pol"] == "rc" or c["virt"]:
                    b.append("virtual ~%s() {}" % n)
            if c["eq"]:
                b.append("bool operator==(%s const &) const { return true; } bool operator!=(%s const &) const { return false; }" % (n, n))
            b.append("%s() {}" % n)
            for o in h["ops"]:
                if o["cls"] != k:
                    continue
                if o["new"]:
                    if o["params"]:
                        b.append("%s(%s);" % (n, params(h, o)))
                else:
                    ret = "%s *" % cl[o["ret"] - 1]["name"] if o["ret"] else "void "
                    b.append("%s%s%s(%s);" % ("virtual " if o["virt"] else "", ret, o["name"], params(h, o)))
            for o in h["ops"]:
                if o["over"] == "same" and o["cls"] == k and not o["new"]:
                    ret = "%s *" % cl[o["ret"] - 1]["name"] if o["ret"] else "void "
                    b.append("%s%s(int, int, int) { throw std::runtime_error(\"overload\"); }" % (ret, o["name"]))
            up = ", ".join("public " + cl[u - 1]["name"] for u in c["up"]) or "public Tracked"
            if len(c["up"]) > 1:    # one Tracked only is used: that of the first base
                n1 = cl[c["up"][0] - 1]["name"]
                b.append("long ser() const { return %s::ser(); } Tracked *tr() { return %s::tr(); }" % (n1, n1))
            out.append("struct %s : %s {\n  %s\n};" % (n, up, "\n  ".join(b)))
        for o in h["ops"]:
            if o["new"] and not o["params"]:
                continue
            if o["new"]:
                n = cl[o["cls"] - 1]["name"]
                out.append("inline %s::%s(%s) { %s }" % (n, n, params(h, o), body(h, o)))
                continue
            ret = "%s *" % cl[o["ret"] - 1]["name"] if o["ret"] else "void "
            q = cl[o["cls"] - 1]["name"] + "::" if o["cls"] else ""
            out.append("inline %s%s%s(%s) { %s }" % (ret, q, o["name"], params(h, o), body(h, o)))
            if not q and o["over"] == "same":
                out.append("inline %s%s(int, int, int) { throw std::runtime_error(\"overload\"); }" % (ret, o["name"]))
    return "\n".join(out) + "\n"


def ret(h, o):
    if not o["ret"]:
        return "None"
    r = h["classes"][o["ret"] - 1]
    kw = ["'%s*'" % r["name"]]
    internal = any(e["c"] == -1 and e["w"] == 0 and e["via"] == "kw" for e in o["rel"])
    if internal and r["part"]:
        kw.append("return_internal_reference=True")
    elif r["part"]:
        kw.append("reference_existing_object=True")
    else:
        kw.append("caller_owns_return=True")
    for e in o["rel"]:
        if e["w"] == -1 and e["via"] == "kw":
            kw.append("custodian=%d" % e["c"])
    return "retval(%s)" % ", ".join(kw)


def par(h, o, i):
    p = o["params"][i - 1]
    n = h["classes"][p["cls"] - 1]["name"]
    kw = ["'%s%s'" % (n, "*" if p["how"] == "ptr" else "&"), "'p%d'" % i]
    if p["how"] == "ptr":
        kw.append("transfer_ownership=False")
        if p["null"]:
            kw.append("null_ok=True")
    for e in o["rel"]:
        if e["w"] == i and e["via"] == "kw" and p["how"] != "ref":
            kw.append("custodian=%d" % e["c"])
    return "param(%s)" % ", ".join(kw)


def gen(name, hs, sink=None):
    g = [HEAD, "m = Module(%r)" % name, "m.add_include('\"%s.h\"')" % name,
         "m.add_function('is_live', retval('bool'), [param('long', 's')])", "m.add_function('late', retval('long'), [])",
         "oops = m.add_exception('Oops', message_rvalue='%(EXC)s.what()')"]
    for h in hs:
        cl = h["classes"]
        for k, c in enumerate(cl, 1):
            kw = []
            if c["up"]:
                kw.append("parent=%s" % ("c%d" % c["up"][0] if len(c["up"]) == 1 else "[" + ", ".join("c%d" % u for u in c["up"]) + "]"))
            else:
                if c["pol"] == "rc":
                    kw.append("memory_policy=cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref', peekref_method='Peek')")
            if c["dict"]:
                kw.append("allow_subclassing=True")
            g.append("c%d = m.add_class(%s)" % (k, ", ".join([repr(c["name"])] + kw)))
            if not c["part"] and any(x["virt"] for x in cl):
                g.append("c%d.add_copy_constructor()" % k)
            if c["part"]:
                g.append("c%d.add_method('get', retval('int'), [], is_const=True)" % k)
            elif not c["up"] or len(c["up"]) > 1:
                g.append("c%d.add_method('ser', retval('long'), [], is_const=True)" % k)
            if c["eq"]:
                g.append("c%d.add_binary_comparison_operator('==')\nc%d.add_binary_comparison_operator('!=')" % (k, k))
        for o in h["ops"]:
            k = o["cls"]
            ps = "[%s]" % ", ".join(par(h, o, i + 1) for i in range(len(o["params"])))
            if o["over"] == "same" and not o["new"]:
                g.append("%s(%r, %s, [param('int', 'a'), param('int', 'b'), param('int', 'c')])" % ("c%d.add_method" % k if k else "m.add_function", o["name"], ret(h, dict(o, rel=[]))))
            kw = (", throw=[oops]" if o["throw"] else "") + (", unblock_threads=True" if o["unblock"] else "")
            if o["new"]:
                g.append("x = c%d.add_constructor(%s%s)" % (k, ps, kw))
            elif k:
                g.append("x = c%d.add_method(%r, %s, %s%s%s)" % (k, o["name"], ret(h, o), ps, ", is_virtual=True" if o["virt"] else "", kw))
            else:
                g.append("x = m.add_function(%r, %s, %s%s)" % (o["name"], ret(h, o), ps, kw))
            for e in o["rel"]:
                r = cl[o["ret"] - 1] if o["ret"] else None
                if e["via"] == "add" or e["w"] > 0 and o["params"][e["w"] - 1]["how"] == "ref" or e["w"] == 0 and not (e["c"] == -1 and r and r["part"]):
                    g.append("x.add_custodian_and_ward(%d, %d%s)" % (e["c"], e["w"], "" if not e["post"] else ", postcall=%r" % (e["post"] == "yes")))
    g.append(sink or "m.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"
