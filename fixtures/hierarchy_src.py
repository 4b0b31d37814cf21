"""C++ hierarchies (with multiple inheritance, namespaces, nested and unwrapped classes) and the generator scripts of their modules.

A hierarchy: classes [{name, up: [1-based], hidden, narrow: ''|'yes'|'no', conv: [1-based], how: 'ctor'|'oper', scope: ''|'ns'|'Outer'}], rc, sub, vdtor"""
HEAD = "import sys\nfrom pybindgen import *\nfrom pybindgen import cppclass, FileCodeSink\n"


def cxx(c):
    return {"": "", "ns": "ns::", "Outer": "Outer::"}[c["scope"]] + c["name"]


def path(c):
    return {"": "", "ns": "ns.", "Outer": "Outer."}[c["scope"]] + (c.get("py") or c["name"])


def bases(h, k):
    r = [k]
    for u in h["classes"][k - 1]["up"]:
        r += [b for b in bases(h, u) if b not in r]
    return r


def header(h):
    s = ["#include <string>\nstruct Boom { int k; Boom(int k_) : k(k_) {} };", "struct Pad_ { virtual ~Pad_() {} long pad__[3]; };", "struct Outer { int unused;"]
    cl = h["classes"]
    for c in cl:
        if c["scope"] == "Outer":
            s.append("  struct %s;" % c["name"])
    s.append("};")
    for c in cl:
        s.append({"": "struct %s;", "ns": "namespace ns { struct %s; }", "Outer": "// %s"}[c["scope"]] % c["name"])
    for k, c in enumerate(cl, 1):
        n = c["name"]
        conv = [cl[t - 1] for t in c["conv"]]
        frm = [x for x in cl if k in x["conv"] and x["how"] == "ctor"]
        body = ["  int pad_%s; int k_%s;" % (n, n), "  %s();" % n, "  %s(%s const &o);" % (n, n), "  %s &operator=(%s const &o);" % (n, n), "  virtual ~%s() {}" % n,
                "  virtual int who() const { return %d; }" % k,
                "  int m_%s() const { return k_%s; }" % (n, n), "  void bump_%s() { k_%s = 1 - k_%s; }" % (n, n, n),
                "  void boom_%s() { throw Boom(%d); } int gil_%s() { return PyGILState_Check(); }" % (n, 50 + k, n)]
        if not c["up"] and h["rc"]:
            body += ["  int refs_; void Ref() { ++refs_; } void Unref() { if (--refs_ == 0) delete this; }"]
        for t in conv:
            if c["how"] == "oper":
                body.append("  operator %s() const;" % cxx(t))
        for f in frm:
            body.append("  %s(%s const &o);" % (n, cxx(f)))
        inh = ("public Pad_, " if c["pad"] else "") + ", ".join("public " + cxx(cl[u - 1]) for u in c["up"])
        decl = "struct %s%s {\n%s\n};" % (n if c["scope"] != "Outer" else "Outer::" + n, " : " + inh if inh else "", "\n".join(body))
        s.append("namespace ns { %s }" % decl if c["scope"] == "ns" else decl)
    for k, c in enumerate(cl, 1):
        n, q = c["name"], cxx(c)
        rc = "refs_(1), " if h["rc"] and not c["up"] else ""
        up = "".join("%s(static_cast<%s const &>(o)), " % (cxx(cl[u - 1]), cxx(cl[u - 1])) for u in c["up"])
        s.append("inline %s::%s() : %spad_%s(%d), k_%s(0) {}" % (q, n, rc, n, 100 * k, n))
        s.append("inline %s::%s(%s const &o) : %s%spad_%s(o.pad_%s), k_%s(o.k_%s) {}" % (q, n, q, up, rc, n, n, n, n))
        s.append("inline %s &%s::operator=(%s const &o) { %s pad_%s = o.pad_%s; k_%s = o.k_%s; return *this; }" % (
            q, q, q, " ".join("%s::operator=(o);" % cxx(cl[u - 1]) for u in c["up"]), n, n, n, n))
        for t in c["conv"]:
            t = cl[t - 1]
            if c["how"] == "oper":
                s.append("inline %s::operator %s() const { %s r; r.k_%s = 10 + k_%s; return r; }" % (q, cxx(t), cxx(t), t["name"], n))
        for f in cl:
            if k in f["conv"] and f["how"] == "ctor":
                s.append("inline %s::%s(%s const &o) : %spad_%s(0), k_%s(10 + o.k_%s) {}" % (q, n, cxx(f), rc, n, n, f["name"]))
    for k, c in enumerate(cl, 1):
        if c["hidden"]:
            continue
        n, q = c["name"], cxx(c)
        use = "int r = x.k_%s; x.bump_%s(); return r;" % (n, n)
        s.append("inline int take_val_%s(%s x) { %s }" % (n, q, use))
        s.append("inline int take_ref_%s(%s &x) { %s }" % (n, q, use))
        s.append("inline int take_cref_%s(%s const &x) { return x.m_%s(); }" % (n, q, n))
        s.append("inline int take_ptr_%s(%s *p) { %s &x = *p; %s }" % (n, q, q, use))
        s.append("inline int take_nptr_%s(%s *p) { if (!p) return -2; %s &x = *p; %s }" % (n, q, q, use))
        s.append("inline int take_cptr_%s(%s const *p) { return p->m_%s(); }" % (n, q, n))
    for d, c in enumerate(cl, 1):
        reset = " ".join("x.%s::k_%s = 0;" % (cxx(cl[b - 1]), cl[b - 1]["name"]) for b in bases(h, d))
        s.append("inline %s &the_%s() { static %s *p = new %s; %s &x = *p; %s return x; }" % (cxx(c), c["name"], cxx(c), cxx(c), cxx(c), reset))
        for b in bases(h, d):
            t = cl[b - 1]
            if t["hidden"]:
                continue
            f = "%s_%s" % (t["name"], c["name"])
            s.append("inline %s *give_own_%s() { return new %s; }" % (cxx(t), f, cxx(c)))
            s.append("inline %s *give_bor_%s() { return &the_%s(); }" % (cxx(t), f, c["name"]))
            if not h["rc"]:
                s.append("inline %s give_val_%s() { return static_cast<%s &>(the_%s()); }" % (cxx(t), f, cxx(t), c["name"]))
                s.append("inline %s const &give_cref_%s() { return static_cast<%s &>(the_%s()); }" % (cxx(t), f, cxx(t), c["name"]))
    return "\n".join(s) + "\n"


def home(h, *ks):
    return max([h["classes"][k - 1].get("home", 1) for k in ks])


def sources(h, t):
    return [k for k, c in enumerate(h["classes"], 1) if t in c["conv"]]


def gen(name, h, sink=None, part=0):
    """part: 0 for all in one module; 1 for what is in the first of two modules, 2 for the other, which imports the first"""
    g = [HEAD, "m = Module(%r)" % (name + ("" if not part else "ab"[part - 1])), "m.add_include('\"%s.h\"')" % name, "ns = m.add_cpp_namespace('ns')",
         "boom = m.add_exception('Boom', message_rvalue='std::to_string(%(EXC)s.k).c_str()')",
         "Outer = m.add_class('Outer')"]
    cl = h["classes"]
    for k, c in enumerate(cl, 1):
        if c["hidden"] or part == 1 and home(h, k) == 2:
            continue
        kw = []
        imported = part == 2 and home(h, k) == 1
        if imported:
            where = name + "a" + (".ns" if c["scope"] == "ns" else "")
            kw.append("import_from_module=%r" % (where if not c.get("py") else where + " named " + c["py"] if c["named"] else where))
        if c.get("py") and not (imported and c["named"]):
            kw.append("custom_name=%r" % c["py"])
        if c["up"]:
            kw.append("parent=%s" % ("c%d" % c["up"][0] if len(c["up"]) == 1 else "[" + ", ".join("c%d" % u for u in c["up"]) + "]"))
        else:
            if h["rc"]:
                kw.append("memory_policy=cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref')")
            if h["sub"]:
                kw.append("allow_subclassing=True")
        if c["narrow"]:
            kw.append("automatic_type_narrowing=%s" % (c["narrow"] == "yes"))
        where = {"": "m", "ns": "ns", "Outer": "m"}[c["scope"]]
        if c["scope"] == "Outer":
            kw.append("outer_class=Outer")
        g.append("c%d = %s.add_class(%s)" % (k, where, ", ".join([repr(c["name"])] + kw)))
        n = c["name"]
        g.append("c%d.add_constructor([])" % k)
        g.append("c%d.add_copy_constructor()" % k)
        if imported and not h["full"]:
            continue
        g.append("c%d.add_method('m_%s', retval('int'), [], is_const=True)" % (k, n))
        g.append("c%d.add_method('bump_%s', None, [])" % (k, n))
        g.append("c%d.add_instance_attribute('k_%s', 'int')" % (k, n))
        g.append("c%d.add_method('boom_%s', None, [], throw=[boom])\nc%d.add_method('gil_%s', retval('int'), [], unblock_threads=True)" % (k, n, k, n))
        if not c["up"] or len(c["up"]) > 1 or h["sub"]:
            g.append("c%d.add_method('who', retval('int'), [], is_const=True, is_virtual=True)" % k)
    for k, c in enumerate(cl, 1):
        for t in c["conv"]:
            if part == 1 and home(h, k, t) == 2:
                continue
            g.append("c%d.implicitly_converts_to(c%d)" % (k, t))
    for k, c in enumerate(cl, 1):
        if c["hidden"]:
            continue
        if part and part != max(c.get("takes", 1), home(h, k, *sources(h, k))):
            continue
        q, n = cxx(c), c["name"]
        for kind, p in [("val", "param('%s', 'x')"), ("ref", "param('%s&', 'x')"), ("cref", "param('const %s&', 'x')"),
                        ("ptr", "param('%s*', 'x', transfer_ownership=False)"), ("nptr", "param('%s*', 'x', transfer_ownership=False, null_ok=True)"),
                        ("cptr", "param('const %s*', 'x', transfer_ownership=False)")]:
            g.append("m.add_function('take_%s_%s', retval('int'), [%s])" % (kind, n, p % q))
    for d, c in enumerate(cl, 1):
        for b in bases(h, d):
            t = cl[b - 1]
            if t["hidden"] or part and part != max(c.get("gives", 1), home(h, b)):
                continue
            f = "%s_%s" % (t["name"], c["name"])
            g.append("m.add_function('give_own_%s', retval('%s*', caller_owns_return=True), [])" % (f, cxx(t)))
            if h["rc"]:
                g.append("m.add_function('give_bor_%s', retval('%s*', caller_owns_return=False), [])" % (f, cxx(t)))
            else:
                g.append("m.add_function('give_bor_%s', retval('%s*', reference_existing_object=True), [])" % (f, cxx(t)))
                g.append("m.add_function('give_val_%s', retval('%s'), [])" % (f, cxx(t)))
                g.append("m.add_function('give_cref_%s', retval('const %s&'), [])" % (f, cxx(t)))
    g.append(sink or "m.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"
