"""C++ containers of many kinds and their registration, from tables of Containers.tla.

A table: kind, lists, bads, extra, puts, gets, mods, conv, parts, knot, max (for the specification) and name, cont (C++
template, or "class": a class with container traits), key, val (keys of POOL; key for mappings only), how ("direct",
"typedef", "ns", "outer"), custom, shape (of a class: "plain", "sub", "derived", "second", "outer"), putk, getk, modk
(kinds of the C++ functions), src and shown (of lists), badsrc (expression, exception)."""
import atoms as A

# key -> (C++ type, [(Python expression, shown)] in C++ order, [(Python expression, exception)])
POOL = {}
for _k, (_ct, _b, _s) in A.INTS.items():
    _v = [-(1 << (_b - 1)), 0, 5, (1 << (_b - 1)) - 1] if _s else [0, 5, 7, (1 << _b) - 1]
    _r = [r for r in A.returns() if r["key"] == _k][0]
    POOL[_k] = (_ct, [(str(v), "i:%d" % v) for v in _v], _r["bad"])
_bad = lambda k: [r for r in A.returns() if r["key"] == k][0]["bad"]
POOL["bool"] = ("bool", [("False", "b:0"), ("True", "b:1")], _bad("bool"))
POOL["double"] = ("double", [("-1.5", "d:-1.5"), ("0.0", "d:0"), ("2.5", "d:2.5"), ("1e+300", "d:1e+300")], _bad("double"))
POOL["float"] = ("float", [("-1.5", "d:-1.5"), ("2.5", "d:2.5"), ("4.0", "d:4")], _bad("float"))
POOL["string"] = ("std::string", [("''", "s:"), ("'a'", "s:a"), ("'a\\0b'", "s:a\\0b"), ("'b'", "s:b")], _bad("string"))
POOL["char"] = ("char", [("b'A'", "c:A"), ("b'x'", "c:x"), ("b'z'", "c:z")], _bad("char"))
POOL["enum"] = ("Color", [("m.RED", "i:1"), ("m.GREEN", "i:2"), ("m.BLUE", "i:7")], _bad("enum"))
POOL["P"] = ("P", [("m.P(1)", "Pi:1"), ("SubP(2)", "Pi:2"), ("m.P(3)", "Pi:3")], [("5", "TypeError"), ("None", "TypeError"), ("Fake(m.P)", "TypeError"), ("m.PR(3)", "TypeError")])
POOL["PI"] = ("PI", [("mkPI(3)", "PIi:3"), ("mkPI(4)", "PIi:4")], [("5", "TypeError"), ("m.P(4)", "TypeError")])
POOL["PS"] = ("std::shared_ptr< ::PS >", [("m.PS(1)", "PSi:1"), ("m.PS(2)", "PSi:2")], [("5", "TypeError"), ("m.P(4)", "TypeError")])
POOL["vec"] = ("std::vector<int>", [("[]", "[]"), ("[1]", "[i:1]"), ("m.VecInt([1, 2])", "[i:1,i:2]"), ("[4]", "[i:4]")], [("5", "TypeError"), ("[1, 'x']", "TypeError")])
def cpp(key, shown):
    """C++ expression of a value"""
    t = POOL[key][0]
    if shown.startswith("i:") and key in A.INTS:
        v = int(shown[2:])
        return "(%s) %s" % (t, "(-%dLL - 1)" % -(v + 1) if v < 0 else "%dULL" % v)
    if key == "bool":
        return "true" if shown == "b:1" else "false"
    if key in ("double", "float"):
        return "(%s) %s" % (t, shown[2:])
    if key == "string":
        return 'std::string("%s", %d)' % (shown[2:].replace("\\0", "\\0"), len(shown[2:].replace("\\0", "0")))
    if key == "char":
        return "'%s'" % shown[2:]
    if key == "enum":
        return "(Color) %s" % shown[2:]
    n = shown.split(":")[-1]
    if key == "P":
        return "P(%s)" % n
    if key == "PI":
        return "PI(P(%d))" % (int(n) - 1000)
    if key == "PS":
        return "std::make_shared<PS>(%s)" % n
    return "std::vector<int>{%s}" % shown[1:-1].replace("i:", "")


ORDERED = [k for k in POOL if k not in ("PI", "PS", "bool")]
HASHED = [k for k in list(A.INTS)] + ["string", "char"]
CONTS = {"vector": "seq", "list": "seq", "deque": "seq", "set": "set", "multiset": "multi", "map": "map", "unordered_map": "hash", "class": "seq", "classmap": "map"}


# every block that the module allocates with new counts
BLOCKS = """static long g_blocks;
extern "C" long lg_blocks() { return g_blocks; }
void *operator new(size_t n) { g_blocks++; return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) g_blocks--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) g_blocks--; free(p); }
"""


def cls(h):
    return h["cont"].startswith("class")


def mapping(h):
    return h["kind"] in ("map", "hash")


def elem(h):
    """C++ type of an element"""
    v = POOL[h["val"]][0]
    return "std::pair<%s, %s>" % (POOL[h["key"]][0], v) if mapping(h) else v


def stl(h):
    v = POOL[h["val"]][0]
    if mapping(h):
        return "std::%s< %s, %s >" % (h["cont"].replace("classmap", "map"), POOL[h["key"]][0], v)
    return "std::%s<%s >" % (h["cont"].replace("class", h.get("inside", "vector")), v) if v.endswith(">") else "std::%s<%s>" % (h["cont"].replace("class", h.get("inside", "vector")), v)


def cxx(h):
    """C++ name of the container type"""
    n = h["name"] + "_T"
    if cls(h):
        return {"outer": h["name"] + "_O::"}.get(h["shape"], "") + n
    return {"direct": stl(h), "typedef": n, "ns": "ns::" + n, "outer": h["name"] + "_O::" + n}[h["how"]]


def root(h):
    """type that is iterated and passed"""
    return cxx(h)


def path(h):
    """Python name"""
    import re
    n = h["name"] + "_T"
    if cls(h):
        return (h["name"] + "_O." if h["shape"] == "outer" else "") + n
    if h["custom"]:
        n = h["custom"]
    elif h["how"] == "direct":
        n = None
    return {"ns": "ns.", "outer": h["name"] + "_O."}.get(h["how"], "") + n if n else None


def header(hs):
    s = [A.SUPPORT, "#include <deque>\n#include <unordered_map>\n#include <iterator>\n#include <cstdlib>\n#include <new>", A.CONTROL, BLOCKS]
    s.append("template <class C> std::string peek_all(C const &c) { std::string r; for (auto const &e : c) r += show(e) + \"\\x01\"; return r; }")
    s.append("template <class C> int count_all(C const &c) { int n = 0; for (auto const &e : c) { (void) e; n++; } return n; }")
    for h in hs:
        n, E = h["name"], elem(h)
        T = n + "_T"
        if cls(h):
            S = stl(h)
            ins = "d_.insert(std::make_pair(k, v));" if mapping(h) else "d_.push_back(v);"
            args = "%s const &k, %s const &v" % (POOL[h["key"]][0], POOL[h["val"]][0]) if mapping(h) else "%s const &v" % POOL[h["val"]][0]
            inner = "d_.insert(v);" if mapping(h) else "d_.push_back(v);"
            virt = h["shape"] == "sub"
            def body(c, base=""):
                return """class %(c)s { public: typedef %(S)s::%(CI)s Iter; %(S)s d_; int pad_[3];
  %(c)s() { lg().live++; } %(c)s(%(c)s const &o_) : d_(o_.d_) { lg().live++; } %(v)s~%(c)s() { lg().live--; }
  void add(%(args)s) { %(ins)s } void insert(%(E)s const &v) { %(inner)s }
  %(S)s::const_iterator begin() const { return d_.begin(); } %(S)s::const_iterator end() const { return d_.end(); }
  Iter Begin() { return d_.begin(); } Iter End() { return d_.end(); } %(more)s };""" % dict(
                    c=c, S=S, CI="const_iterator" if h.get("const") else "iterator", args=args, ins=ins, inner=inner, E=E, v="virtual " if virt else "",
                    more="virtual int virt() { return 1; }" if virt else "")
            if h["shape"] == "outer":
                s.append("class %s_O { public: %s };" % (n, body(T)))
            elif h["shape"] in ("derived", "second"):
                s.append(body(n + "_B"))
                if h["shape"] == "second":
                    s.append("class %s_A { public: int a_[5]; %s_A() { lg().live++; } %s_A(%s_A const &o_) { (void) o_; lg().live++; } ~%s_A() { lg().live--; } };" % (n, n, n, n, n))
                    up, ctor = "public %s_A, public %s_B" % (n, n), "%s_A(o_), %s_B(o_)" % (n, n)
                else:
                    up, ctor = "public %s_B" % n, "%s_B(o_)" % n
                s.append("class %s : %s { public: %s() { lg().live++; } %s(%s const &o_) : %s { lg().live++; } %s &operator=(%s const &) = default; ~%s() { lg().live--; } };" % (T, up, T, T, T, ctor, T, T, T))
            else:
                s.append(body(T))
            C = cxx(h)
        else:
            C, S = cxx(h), stl(h)
            if h["how"] == "typedef":
                s.append("typedef %s %s;" % (S, T))
            elif h["how"] == "ns":
                s.append("namespace ns { typedef %s %s; }" % (S, T))
            elif h["how"] == "outer":
                s.append("class %s_O { public: typedef %s %s; };" % (n, S, T))
        ins = "push_back" if not cls(h) and h["kind"] == "seq" else "insert"
        d = dict(n=n, C=C, ins=ins, E=E, cpp=h["cpp"][-1])
        s.append("""inline %(C)s &%(n)s_g() { static %(C)s *g = new %(C)s; return *g; }
inline std::string %(n)s_peek() { return peek_all(%(n)s_g()); }
inline void %(n)s_add(%(C)s &c, int k) { switch (k) { %(cases)s } }
inline void %(n)s_clear() { typedef %(C)s T_; T_ *g = &%(n)s_g(); g->~T_(); new (g) T_(); }
inline void %(n)s_cadd() { %(n)s_add(%(n)s_g(), %(x)d); }
inline void %(n)s_cset(int k) { %(n)s_clear(); switch (k) { %(sets)s } }
class %(n)s_H { public: %(C)s c; %(C)s get_c() const { return c; } void set_c(%(C)s const &v) { c = v; } };
inline %(n)s_H &%(n)s_h() { static %(n)s_H *h = new %(n)s_H; return *h; }
inline int %(n)s_put_val(%(C)s v) { maybe_throw(); %(n)s_g() = v; return count_all(v); }
inline int %(n)s_put_cref(%(C)s const &v) { maybe_throw(); %(n)s_g() = v; return count_all(v); }
inline int %(n)s_put_ref(%(C)s &v) { maybe_throw(); %(n)s_g() = v; return count_all(v); }
inline int %(n)s_put_ptr(%(C)s *v) { maybe_throw(); %(n)s_g() = *v; return count_all(*v); }
inline int %(n)s_put_ptrT(%(C)s *v) { std::unique_ptr<%(C)s> p(v); maybe_throw(); %(n)s_g() = *v; return count_all(*v); }
inline int %(n)s_put_attr(%(n)s_H &h) { maybe_throw(); %(n)s_g() = h.c; return count_all(h.c); }
inline %(C)s %(n)s_get_rval() { maybe_throw(); return %(n)s_g(); }
inline %(C)s const &%(n)s_get_rcref() { maybe_throw(); return %(n)s_g(); }
inline %(C)s &%(n)s_get_rref() { maybe_throw(); return %(n)s_g(); }
inline %(C)s *%(n)s_get_rown() { maybe_throw(); return new %(C)s(%(n)s_g()); }
inline void %(n)s_get_out(%(C)s &v) { maybe_throw(); v = %(n)s_g(); }
inline void %(n)s_get_outp(%(C)s *v) { maybe_throw(); *v = %(n)s_g(); }
inline void %(n)s_get_attr(%(n)s_H &h) { maybe_throw(); h.c = %(n)s_g(); }
class %(n)s_V { public: %(n)s_V() {} virtual ~%(n)s_V() {} virtual int take(%(C)s v) { return -1 - count_all(v); } virtual int taker(%(C)s const &v) { return -1 - count_all(v); }
  virtual %(C)s give() { return %(C)s(); } virtual void fill(%(C)s &) {} virtual void change(%(C)s &) {} };
inline int %(n)s_put_virt(%(n)s_V &o, %(C)s const &v) { maybe_throw(); return o.take(v); }
inline int %(n)s_put_virtr(%(n)s_V &o, %(C)s const &v) { maybe_throw(); return o.taker(v); }
inline %(C)s %(n)s_get_virt(%(n)s_V &o) { maybe_throw(); return o.give(); }
inline %(C)s %(n)s_get_virto(%(n)s_V &o) { maybe_throw(); %(C)s v; o.fill(v); return v; }
inline int %(n)s_mod_virt(%(n)s_V &o, %(C)s &v) { maybe_throw(); int r = count_all(v); o.change(v); return r; }
inline int %(n)s_mod_io(%(C)s &v) { maybe_throw(); %(n)s_g() = v; int r = count_all(v); %(n)s_add(v, %(x)d); return r; }
""" % dict(d, x=len(h["cpp"]) - 1, cases=" ".join("case %d: { c.%s(%s); break; }" % (i, ins, e) for i, e in enumerate(h["cpp"])),
           sets=" ".join("case %d: %s break;" % (k + 1, " ".join("%s_add(%s_g(), %d);" % (n, n, i) for i in l)) for k, l in enumerate(h["listc"]))))
    s.append("inline void snag(int k) { lg().throwing = k; }")
    return "\n".join(s) + "\n"


def gen(name, hs):
    reg = "\n".join(l for l in A.REGISTER.splitlines() if "add_container" not in l)
    g = ["import sys, pybindgen", "from pybindgen import Module, FileCodeSink, param, retval, cppclass", "mod = m = Module(%r)" % name,
         "mod.add_include('\"%s.h\"')" % name, reg, "mod.add_container('std::vector<int>', 'int', 'vector', custom_name='VecInt')",
         "ns = mod.add_cpp_namespace('ns')"]
    for h in hs:
        n, T = h["name"], h["name"] + "_T"
        C = cxx(h)
        v = "retval(%r)" % POOL[h["val"]][0]
        el = "(retval(%r), %s)" % (POOL[h["key"]][0], v) if mapping(h) else v
        if h.get("how") == "outer" or h.get("shape") == "outer":
            g.append("o = mod.add_class('%s_O')" % n)
        if cls(h):
            ps = ([repr(POOL[h["key"]][0]), repr(POOL[h["val"]][0])] if mapping(h) else [repr(POOL[h["val"]][0])])
            add = "add_method('add', None, [%s])" % ", ".join("param('const %s&', 'e%d')" % (eval(p), i) if h["val"] in ("P", "PI") and i == len(ps) - 1 else "param(%s, 'e%d')" % (p, i) for i, p in enumerate(ps))
            tr = "add_container_traits(%s, begin_method='Begin', end_method='End', iterator_type='Iter'%s)" % (el, ", is_mapping=True" if mapping(h) else "")
            if h["shape"] in ("derived", "second"):
                g.append("b = mod.add_class('%s_B'); b.add_constructor([]); b.add_copy_constructor(); b.%s; b.%s" % (n, add, tr))
                if h["shape"] == "second":
                    g.append("a = mod.add_class('%s_A'); a.add_constructor([])" % n)
                    g.append("c = mod.add_class('%s', parent=[a, b])" % T)
                else:
                    g.append("c = mod.add_class('%s', parent=b)" % T)
                g.append("c.add_constructor([]); c.add_copy_constructor()")
            else:
                kw = ", outer_class=o" if h["shape"] == "outer" else ""
                kw += ", allow_subclassing=True" if h["shape"] == "sub" else ""
                g.append("c = mod.add_class('%s'%s); c.add_constructor([]); c.add_copy_constructor(); c.%s; c.%s" % (T, kw, add, tr))
                if h["shape"] == "sub":
                    g.append("c.add_method('virt', 'int', [], is_virtual=True)")
        else:
            kw = ", custom_name=%r" % h["custom"] if h["custom"] else ""
            kw += ", outer_class=o" if h["how"] == "outer" else ""
            who = "ns" if h["how"] == "ns" else "mod"
            nm = stl(h) if h["how"] == "direct" else T
            g.append("c = %s.add_container(%r, %s, %r%s)" % (who, nm, el, h["cont"], kw))
        g.append("H = mod.add_class('%s_H'); H.add_constructor([])" % n)
        if h["attr"] == "field":
            g.append("H.add_instance_attribute('c', %r)" % C)
        else:
            g.append("H.add_instance_attribute('c', %r, getter='get_c', setter='set_c')" % C)
        th = ", throw=[Error]"
        if not cls(h):
            g.append("V = mod.add_class('%s_V', allow_subclassing=True); V.add_constructor([])" % n)
            g.append("V.add_method('take', 'int', [param(%r, 'v')], is_virtual=True); V.add_method('taker', 'int', [param('const %s&', 'v')], is_virtual=True)" % (C, C))
            g.append("V.add_method('give', %r, [], is_virtual=True); V.add_method('fill', None, [param('%s&', 'v', direction=2)], is_virtual=True)" % (C, C))
            g.append("V.add_method('change', None, [param('%s&', 'v', direction=3)], is_virtual=True)" % C)
        for k in sorted(set(h["putk"]) | {"val"}):
            if k == "attr":
                g.append("mod.add_function('%s_put_attr', 'int', [param('%s_H&', 'h')]%s)" % (n, n, th))
                continue
            if k.startswith("virt"):
                g.append("mod.add_function('%s_put_%s', 'int', [param('%s_V&', 'o'), param('const %s&', 'v')]%s)" % (n, k, n, C, th))
                continue
            t = {"val": C, "cref": "const %s&" % C, "ref": C + "&", "ptr": C + "*", "ptrT": C + "*"}[k]
            kw = {"ptr": ", transfer_ownership=False", "ptrT": ", transfer_ownership=True"}.get(k, "")
            g.append("mod.add_function('%s_put_%s', 'int', [param(%r, 'v'%s)]%s)" % (n, k, t, kw, th))
        for k in sorted(set(h["getk"]) | {"rval"}):
            f = "%s_get_%s" % (n, k)
            if k.startswith("virt"):
                g.append("mod.add_function('%s', %r, [param('%s_V&', 'o')]%s)" % (f, C, n, th))
            elif k == "attr":
                g.append("mod.add_function('%s', None, [param('%s_H&', 'h')]%s)" % (f, n, th))
            elif k in ("rval", "rcref", "rref", "rown"):
                t = {"rval": C, "rcref": "const %s&" % C, "rref": C + "&", "rown": C + "*"}[k]
                kw = ""
                if cls(h):
                    kw = {"rcref": ", caller_owns_return=False", "rref": ", caller_owns_return=False", "rown": ", caller_owns_return=True"}.get(k, "")
                g.append("mod.add_function('%s', retval(%r%s), []%s)" % (f, t, kw, th))
            else:
                g.append("mod.add_function('%s', None, [param('%s%s', 'v', direction=2)]%s)" % (f, C, {"out": "&", "outp": "*"}[k], th))
        for k in h["modk"]:
            o = "param('%s_V&', 'o'), " % n if k == "virt" else ""
            g.append("mod.add_function('%s_mod_%s', 'int', [%sparam('%s&', 'v', direction=3)]%s)" % (n, k, o, C, th))
        for f in ("peek",):
            g.append("mod.add_function('%s_%s', retval('std::string'), [])" % (n, f))
        g.append("mod.add_function('%s_cadd', None, []); mod.add_function('%s_clear', None, []); mod.add_function('%s_cset', None, [param('int', 'k')])" % (n, n, n))
    g.append("mod.add_function('snag', None, [param('int', 'k')])")
    g.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"
