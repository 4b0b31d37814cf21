"""C++ classes with the sequence protocol and calls, and their registration, from tables of Sequence.tla.

A table: has, vals, bads, starts, idx, huge, times, inplace, cap (for the specification) and name, elem (key of POOL), good,
badsrc, itype (C++ type of indices), hugesrc, shape ("plain", "sub", "derived", "split", "first", "outer", "ns"), style ("throw", "pyerr",
"status": how an index out of range is reported), how (method -> "meth", "func", "over", "virt"), cret, yes (type and value of a positive answer)."""
import atoms as A
from containers_src import POOL, cpp

BAD = {"int": "'x'", "double": "'x'", "string": "5", "bool": "BadBool()", "short": "'x'", "ulong": "'x'"}
ITYPES = {"int": ["2**32", "2**32 + 1", "-2**32", "2**31", "2**63", "-2**63 - 1"], "int16_t": ["2**16", "2**32", "2**63"], "long": ["2**63", "2**32"], "long long": ["2**63", "2**40"],
          "unsigned int": ["2**63", "-2**64"], "size_t": ["2**63", "2**32"]}


def cxx(h):
    return {"outer": h["name"] + "_O::", "ns": "ns::"}.get(h["shape"], "") + h["name"] + "_T"


def base(h):
    """the class that has the methods"""
    return h["name"] + "_B" if h["shape"] in ("derived", "split", "first") else cxx(h)


def header(hs):
    s = [A.SUPPORT, A.CONTROL]
    for h in hs:
        n, E, I = h["name"], POOL[h["elem"]][0], h["itype"]
        B = base(h).split("::")[-1]
        rng = {"throw": 'throw std::out_of_range("outside");', "pyerr": 'PyErr_SetString(PyExc_IndexError, "outside"); return %s;', "status": "return %s;"}
        gstyle = "pyerr" if h["style"] == "status" else h["style"]
        d = dict(B=B, E=E, I=I, n=n, v="virtual ", gout=rng[gstyle].replace("%s", "(%s) 0" % E if E != "std::string" else "std::string()"), sout=rng[h["style"]].replace("%s", "-1"), c=h["cret"], yes=h["yes"],
                 chg="d_ = r.d_;" if h["inplace"] else "", EV=E + " const &" if h["elem"] == "string" else E)
        body = """class %(B)s { public: std::vector<%(E)s> d_;
  %(B)s() { lg().live++; } %(B)s(%(B)s const &o_) : d_(o_.d_) { lg().live++; } virtual ~%(B)s() { lg().live--; } %(B)s &operator=(%(B)s const &o_) { d_ = o_.d_; return *this; }
  void push(%(EV)s v) { d_.push_back(v); }
  %(v)sint len() const { maybe_throw(); return (int) d_.size(); }
  %(v)s%(E)s get(%(I)s i) const { maybe_throw(); if (i < 0 || (size_t) i >= d_.size()) { %(gout)s } return d_[i]; }
  %(v)sint set(%(I)s i, %(EV)s v) { maybe_throw(); if (i < 0 || (size_t) i >= d_.size()) { %(sout)s } d_[i] = v; return 0; }
  %(v)s%(c)s has(%(EV)s v) const { maybe_throw(); for (size_t i = 0; i < d_.size(); i++) if (d_[i] == v) return %(yes)s; return 0; }
  %(B)s add(%(B)s const &b) const { maybe_throw(); %(B)s r(*this); r.d_.insert(r.d_.end(), b.d_.begin(), b.d_.end()); return r; }
  %(B)s mul(int k) const { maybe_throw(); %(B)s r; for (int i = 0; i < k; i++) r.d_.insert(r.d_.end(), d_.begin(), d_.end()); return r; }
  %(B)s iadd(%(B)s const &b) { %(B)s r(add(b)); %(chg)s return r; }
  %(B)s imul(int k) { %(B)s r(mul(k)); %(chg)s return r; }
  %(v)sint call(int i, %(EV)s v) const { maybe_throw(); return 100 * (int) d_.size() + 10 * i + which(v); }
  static int which(%(EV)s v) { %(which)s return 0; }
  int text(std::string const &) const { return -1; }
  int two(std::string const &, std::string const &) { return -1; }
};
inline int %(n)s_fcount(%(Q)s const &o_) { return o_.len(); }""" % dict(
            d, Q=base(h), which=" ".join("if (v == %s) return %d;" % (cpp(h["elem"], g[1]), i) for i, g in enumerate(h["good"], 1)))
        body, fc = body.rsplit("\n", 1)
        if h["shape"] == "ns":
            body = "namespace ns { %s }" % body
        elif h["shape"] == "outer":
            body = "class %s_O { public: %s };" % (n, body)
        s += [body, fc]
        T, C = n + "_T", cxx(h)
        if h["shape"] in ("derived", "split"):
            s.append("class %s : public %s { public: %s() { lg().live++; } %s(%s const &o_) : %s(o_) { lg().live++; } ~%s() { lg().live--; } };" % (T, B, T, T, T, B, T))
        elif h["shape"] == "first":
            s.append("class %s_A { public: int a_[4]; %s_A() { lg().live++; } %s_A(%s_A const &) { lg().live++; } virtual ~%s_A() { lg().live--; } };" % (n, n, n, n, n))
            s.append("class %s : public %s, public %s_A { public: %s() { lg().live++; } %s(%s const &o_) : %s(o_), %s_A(o_) { lg().live++; } ~%s() { lg().live--; } };" % (T, B, n, T, T, T, B, n, T))
        b = base(h)
        s.append("inline std::string %s_peek(%s const &o_) { std::string r; for (%s const &e : std::vector<%s>(o_.d_.begin(), o_.d_.end())) r += show(e) + \"\\x01\"; return r; }" % (
            n, b, E, E) if h["elem"] != "bool" else "inline std::string %s_peek(%s const &o_) { std::string r; for (size_t i = 0; i < o_.d_.size(); i++) r += show((bool) o_.d_[i]) + \"\\x01\"; return r; }" % (n, b))
        EV = d["EV"]
        for m, sig, args in (("len", "", ""), ("get", ", %s i" % I, "i"), ("set", ", %s i, %s v" % (I, EV), "i, v"), ("has", ", %s v" % EV, "v"), ("add", ", %s const &b" % b, "b"),
                             ("mul", ", int k", "k"), ("iadd", ", %s const &b" % b, "b"), ("imul", ", int k", "k"), ("call", ", int i, %s v" % EV, "i, v")):
            r = {"len": "int", "get": E, "set": "int", "has": h["cret"], "call": "int"}.get(m, b)
            f = "inline %s %s_f%s(%s &o_%s) { return o_.%s(%s); }" % (r, n, m, b, sig, m, args)
            s.append("namespace ns { %s }" % f if h["shape"] == "ns" else f)
    s.append("inline void snag(int k) { lg().throwing = k; }")
    return "\n".join(s) + "\n"


NAMES = dict(len="__len__", get="__getitem__", set="__setitem__", has="__contains__", add="__add__", mul="__mul__", iadd="__iadd__", imul="__imul__", call="__call__")


def gen(name, hs):
    reg = "\n".join(l for l in A.REGISTER.splitlines() if "add_container" not in l)
    g = ["import sys, pybindgen", "from pybindgen import Module, FileCodeSink, param, retval, cppclass", "mod = m = Module(%r)" % name,
         "mod.add_include('\"%s.h\"')" % name, reg, "ns = mod.add_cpp_namespace('ns')",
         "oor_ = mod.add_exception('out_of_range', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()', is_standard_error=True, custom_name='IndexError')"]
    for h in hs:
        n, E, I = h["name"], POOL[h["elem"]][0], h["itype"]
        b = base(h)
        EV = "const %s&" % E if h["elem"] == "string" else E
        kw = ", allow_subclassing=True" if h["shape"] == "sub" else ""
        if h["shape"] == "outer":
            g.append("o = mod.add_class('%s_O')" % n)
            kw += ", outer_class=o"
        g.append("c = %s.add_class(%r%s); c.add_constructor([]); c.add_copy_constructor(); c.add_method('push', None, [param(%r, 'v')])" % (
            "ns" if h["shape"] == "ns" else "mod", b.split("::")[-1], kw, EV))
        if h["shape"] in ("derived", "split"):
            g.append("d = mod.add_class('%s_T', parent=c); d.add_constructor([]); d.add_copy_constructor()" % n)
        elif h["shape"] == "first":
            g.append("a = mod.add_class('%s_A'); a.add_constructor([])" % n)
            g.append("d = mod.add_class('%s_T', parent=[c, a]); d.add_constructor([]); d.add_copy_constructor()" % n)
        for m in h["has"]:
            m = {"in": "has"}.get(m, m)
            ps = {"len": [], "get": [(I, "i")], "set": [(I, "i"), (EV, "v")], "has": [(EV, "v")], "add": [("const %s&" % b, "b")], "mul": [("int", "k")],
                  "iadd": [("const %s&" % b, "b")], "imul": [("int", "k")], "call": [("int", "i"), (EV, "v")]}[m]
            r = {"len": "int", "get": E, "set": "int", "has": h["cret"], "call": "int"}.get(m, b)
            pt = lambda q: "[" + ", ".join("param(%r, %r)" % p for p in q) + "]"
            th = ", throw=[Error, oor_]" if h["style"] == "throw" else ", throw=[Error]"
            how = h["how"].get(m, "meth")
            who = "d" if h["shape"] == "split" and m in ("get", "has") else "c"
            if how == "func":
                T = "%s_T" % n if who == "d" else b
                g.append("%s.add_function_as_method('%s_f%s', %r, %s, custom_name=%r%s)" % (who, n, m, r, pt([(T + "&", "o_")] + ps), NAMES[m], th))
                continue
            if how == "over":
                if m == "call":
                        g.append("%s.add_method('text', 'int', [param('std::string', 't')], custom_name=%r)" % (who, NAMES[m]))
                else:
                    g.append("%s.add_method('two', 'int', [param('std::string', 'a'), param('std::string', 'b')], custom_name=%r)" % (who, NAMES[m]))
            v = ", is_virtual=True" if how == "virt" else ""
            const = ", is_const=True" if m in ("len", "get", "has", "add", "mul", "call") else ""
            g.append("%s.add_method(%r, %r, %s, custom_name=%r%s%s%s)" % (who, m, r, pt(ps), NAMES[m], th, v, const))
        g.append("mod.add_function('%s_peek', 'std::string', [param('const %s&', 'o_')])" % (n, b))
    g.append("mod.add_function('snag', None, [param('int', 'k')])")
    g.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(g) + "\n"
