"""Kinds of parameters and return values pybindgen supports, with values to pass through them.

Values are written as text: `show` on the C++ side and in Python produce the same text for the same value, so
that the specification can treat values as opaque tokens.  An atom:
  key, ctype, dir ("in", "out", "inout"), kw (param() keyword arguments)
  good: [(python expression, shown)], bad: [(python expression, exception class name)]
  default: (C++ expression, shown) or None
  set: C++ statement giving parameter {p} its output value, out: shown output value
Expressions may use m (the module)."""

SUPPORT = r'''
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <Python.h>
struct Log {
    std::string text; int throwing; long live; long serial;
    Log() : throwing(0), live(0), serial(0) {}
};
inline Log& lg() { static Log *l = new Log; return *l; }
class P {
public:
    int v;
    P(int x = 0) : v(x) { lg().live++; }
    P(P const &o) : v(o.v) { lg().live++; }
    P &operator=(P const &o) { v = o.v; return *this; }
    ~P() { lg().live--; v = -99; }
    int get() const { return v; }
    bool operator<(P const &o) const { return v < o.v; }
};
class PF {   // destroyed through a free function
public:
    int v;
    PF(int x = 0) : v(x) { lg().live++; }
    PF(PF const &o) : v(o.v) { lg().live++; }
    ~PF() { lg().live--; v = -99; }
};
inline void PF_free(PF *o) { delete o; }
class PR {   // reference counted
public:
    int v; int refs;
    PR(int x = 0) : v(x), refs(1) { lg().live++; }
    PR(PR const &o) : v(o.v), refs(1) { lg().live++; }
    ~PR() { lg().live--; v = -99; }
    void Ref() { ++refs; }
    void Unref() { if (--refs == 0) delete this; }
};
class PS {   // held by std::shared_ptr
public:
    int v;
    PS(int x = 0) : v(x) { lg().live++; }
    PS(PS const &o) : v(o.v) { lg().live++; }
    ~PS() { lg().live--; v = -99; }
};
class PI {   // implicitly convertible from P
public:
    int v;
    PI() : v(0) { lg().live++; }
    PI(P const &p) : v(p.v + 1000) { lg().live++; }
    PI(PI const &o) : v(o.v) { lg().live++; }
    ~PI() { lg().live--; v = -99; }
};
enum Color { RED = 1, GREEN = 2, BLUE = 7 };
inline std::string show(bool v) { return v ? "b:1" : "b:0"; }
inline std::string show(long long v) { char b[40]; sprintf(b, "i:%lld", v); return b; }
inline std::string show(unsigned long long v) { char b[40]; sprintf(b, "i:%llu", v); return b; }
inline std::string show(int v) { return show((long long) v); }
inline std::string show(long v) { return show((long long) v); }
inline std::string show(short v) { return show((long long) v); }
inline std::string show(signed char v) { return show((long long) v); }
inline std::string show(unsigned char v) { return show((unsigned long long) v); }
inline std::string show(unsigned short v) { return show((unsigned long long) v); }
inline std::string show(unsigned int v) { return show((unsigned long long) v); }
inline std::string show(unsigned long v) { return show((unsigned long long) v); }
inline std::string show(Color v) { return show((long long) v); }
inline std::string show(double v) { char b[60]; sprintf(b, "d:%.9g", v); return b; }
inline std::string show(float v) { return show((double) v); }
inline std::string show(char v) { return std::string("c:") + v; }
inline std::string show(std::string const &v) {
    std::string r = "s:"; for (char c : v) { if (c == 0) r += "\\0"; else r += c; } return r; }
inline std::string show(const char *v) { return v ? show(std::string(v)) : "None"; }
inline std::string show(P const &v) { return "P" + show(v.v); }
inline std::string show(PF const &v) { return "PF" + show(v.v); }
inline std::string show(PR const &v) { return "PR" + show(v.v); }
inline std::string show(PS const &v) { return "PS" + show(v.v); }
inline std::string show(PI const &v) { return "PI" + show(v.v); }
inline std::string show(P const *v) { return v ? show(*v) : "None"; }
inline std::string show(PR const *v) { return v ? show(*v) : "None"; }
inline std::string show(std::shared_ptr<PS> const &v) { return v ? show(*v) : "None"; }
inline std::string show(PyObject *o) { PyObject *r = PyObject_Repr(o); std::string s = std::string("o:") + PyUnicode_AsUTF8(r); Py_DECREF(r); return s; }
template <class T> std::string show(std::vector<T> const &c);
template <class A, class B> std::string show(std::pair<A, B> const &p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <class C> std::string showc(C const &c) { std::string r = "["; bool f = true; for (auto const &x : c) { if (!f) r += ","; f = false; r += show(x); } return r + "]"; }
template <class T> std::string show(std::vector<T> const &c) { return showc(c); }
template <class T> std::string show(std::list<T> const &c) { return showc(c); }
template <class T> std::string show(std::set<T> const &c) { return showc(c); }
template <class K, class T> std::string show(std::map<K, T> const &c) { return showc(c); }
template <class T> std::string show(T const *v, int n) { std::string r = "["; for (int i = 0; i < n; i++) { if (i) r += ","; r += show(v[i]); } return r + "]"; }
inline void enter(const char *name) { lg().text += std::string(PyGILState_Check() ? "@" : "~") + name; }
template <class T> inline void saw(T const &v) { lg().text += "|" + show(v); }
template <class T> inline void saw(T const *v, int n) { lg().text += "|" + show(v, n); }
class Error { public: std::string msg; Error(const char *m) : msg(m) {} const char *what() const { return msg.c_str(); } };
class SubError : public Error { public: SubError(const char *m) : Error(m) {} };
class OtherError { public: int code; OtherError(int c) : code(c) {} };
namespace ns { class NsError { public: int c; NsError(int x) : c(x) {} std::string text() const { return "ns" + std::to_string(c); } }; }
class KO { public: class Inner { public: const char *why; Inner(const char *w) : why(w) {} }; int tag; KO() : tag(1) {} };
class DeepRange : public std::out_of_range { public: DeepRange() : std::out_of_range("deep") {} };
class RawErr { public: int code; RawErr() : code(1) {} const char *what() const { return "raw"; } };
namespace ns { class NsSub : public Error { public: NsSub() : Error("nssub") {} };
  namespace inn { class DeepErr : public NsError { public: DeepErr() : NsError(10) {} }; } }
class KP { public: class Inner2 : public ns::NsError { public: Inner2() : ns::NsError(11) {} }; };
class FromNs : public ns::NsSub { public: FromNs() { msg = "fromns"; } };
namespace aa { class Sib : public ns::inn::DeepErr { }; }
inline void maybe_throw() {
    int t = lg().throwing;
    if (t == 1) throw Error("boom");
    if (t == 2) throw SubError("subboom");
    if (t == 3) throw OtherError(3);
    if (t == 4) throw std::out_of_range("range");
    if (t == 5) throw ns::NsError(5);
    if (t == 6) throw KO::Inner("inner");
    if (t == 7) throw DeepRange();
    if (t == 8) throw RawErr();
    if (t == 9) throw ns::NsSub();
    if (t == 10) throw ns::inn::DeepErr();
    if (t == 11) throw KP::Inner2();
    if (t == 13) throw aa::Sib();
    if (t == 12) throw FromNs();
}
'''

CONTROL = r'''
extern "C" const char *lg_text() { return lg().text.c_str(); }
extern "C" void lg_clear() { lg().text.clear(); lg().throwing = 0; }
extern "C" void lg_throw(int k) { lg().throwing = k; }
extern "C" long lg_live() { return lg().live; }
'''

# registration of the support types; `mod` is the Module
REGISTER = r'''
from pybindgen.typehandlers.smart_ptr import StdSharedPtr
P = mod.add_class('P', allow_subclassing=True)
P.add_constructor([param('int', 'x', default_value='0')])
P.add_copy_constructor()
P.add_instance_attribute('v', 'int')
P.add_method('get', retval('int'), [], is_const=True)
PF = mod.add_class('PF', free_function='PF_free')
PF.add_constructor([param('int', 'x', default_value='0')]); PF.add_copy_constructor(); PF.add_instance_attribute('v', 'int')
PR = mod.add_class('PR', memory_policy=cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref'))
PR.add_constructor([param('int', 'x', default_value='0')]); PR.add_copy_constructor(); PR.add_instance_attribute('v', 'int')
PS = mod.add_class('PS', memory_policy=StdSharedPtr('::PS'))
PS.add_constructor([param('int', 'x', default_value='0')]); PS.add_copy_constructor(); PS.add_instance_attribute('v', 'int')
PI = mod.add_class('PI')
PI.add_constructor([]); PI.add_copy_constructor(); PI.add_instance_attribute('v', 'int')
P.implicitly_converts_to(PI)
mod.add_enum('Color', ['RED', 'GREEN', 'BLUE'])
mod.add_container('std::vector<int>', 'int', 'vector', custom_name='VecInt')
mod.add_container('std::vector<std::string>', 'std::string', 'vector')
mod.add_container('std::list<double>', 'double', 'list')
mod.add_container('std::set<int>', 'int', 'set')
mod.add_container('std::vector<P>', 'P', 'vector')
mod.add_container('std::map<std::string, int>', ('std::string', 'int'), 'map')
Error = mod.add_exception('Error', message_rvalue='%(EXC)s.what()')
SubError = mod.add_exception('SubError', Error, message_rvalue='%(EXC)s.what()')
OtherError = mod.add_exception('OtherError')
'''

INTS = {  # key: (ctype, bits, signed)
    "int": ("int", 32, True), "uint": ("unsigned int", 32, False), "short": ("int16_t", 16, True),
    "ushort": ("uint16_t", 16, False), "schar": ("int8_t", 8, True), "uchar": ("uint8_t", 8, False),
    "long": ("long", 64, True), "ulong": ("unsigned long", 64, False), "llong": ("long long", 64, True),
    "ullong": ("unsigned long long", 64, False), "size": ("size_t", 64, False),
}
NOTINT = [("'x'", "TypeError"), ("1.5", "TypeError"), ("None", "TypeError")]


def atoms():
    A = []

    def add(key, ctype, dir="in", good=(), bad=(), default=None, set=None, out=None, kw=None, see=None, only=None):
        A.append(dict(key=key, ctype=ctype, dir=dir, good=list(good), bad=list(bad), default=default, set=set, out=out,
                      kw=dict(kw or {}), see=see, only=only))
    for k, (ct, bits, sg) in INTS.items():
        g = [("5", "i:5"), ("100", "i:100")]
        if sg:
            g.append(("-7", "i:-7"))
        bad = NOTINT + ([("1<<70", "OverflowError")] if sg else [])
        add(k, ct, good=g, bad=bad, default=("42", "i:42"))
    for k, (ct, bits, sg) in INTS.items():
        g = [("5", "i:5"), ("100", "i:100")] + ([("-7", "i:-7")] if sg else [])
        if k in ("int", "uint", "short", "ushort", "schar", "uchar"):
            add(k + "&", ct + "&", good=g, bad=NOTINT)
            add(k + "&out", ct + "&", "out", set="{p} = 77;", out="i:77")
            add(k + "&io", ct + "&", "inout", good=g, bad=NOTINT, set="{p} = 78;", out="i:78")
        elif k != "size":
            add(k + "&", ct + "&", good=g, bad=NOTINT)
        if k in ("int", "uint", "ushort", "schar", "uchar"):
            add(k + "*", ct + "*", good=g, bad=NOTINT, see="*{p}", kw=dict(direction=1))
            add(k + "*out", ct + "*", "out", set="*{p} = 79;", out="i:79")
            add(k + "*io", ct + "*", "inout", good=g, bad=NOTINT, set="*{p} = 80;", out="i:80", see="*{p}")
    add("uint[3]", "unsigned int*", good=[("[1, 2, 3]", "[i:1,i:2,i:3]")], bad=[("[1, 2]", "TypeError"), ("5", "TypeError"), ("[1, 'x', 3]", "TypeError")],
        kw=dict(array_length=3), see="{p}, 3")
    add("uint[3]out", "unsigned int*", "out", set="{p}[0] = 7; {p}[1] = 8; {p}[2] = 9;", out="[i:7,i:8,i:9]", kw=dict(array_length=3))
    add("uint[3]io", "unsigned int*", "inout", good=[("[1, 2, 3]", "[i:1,i:2,i:3]")], bad=[("[1]", "TypeError")],
        set="{p}[0] = 7; {p}[1] = 8; {p}[2] = 9;", out="[i:7,i:8,i:9]", kw=dict(array_length=3), see="{p}, 3")
    bg = [("True", "b:1"), ("False", "b:0"), ("[]", "b:0")]
    bb = [("BadBool()", "RuntimeError")]
    add("bool", "bool", good=bg, bad=bb, default=("true", "b:1"))
    add("bool&", "bool&", good=bg, bad=bb)
    add("bool&out", "bool&", "out", set="{p} = true;", out="b:1")
    add("bool&io", "bool&", "inout", good=bg, bad=bb, set="{p} = !{p};" and "{p} = true;", out="b:1")
    add("bool*", "bool*", good=bg, bad=bb, see="*{p}")
    add("bool*out", "bool*", "out", set="*{p} = true;", out="b:1")
    add("bool*io", "bool*", "inout", good=bg, bad=bb, set="*{p} = true;", out="b:1", see="*{p}")
    dg = [("2.5", "d:2.5"), ("-3", "d:-3")]
    db = [("'x'", "TypeError"), ("None", "TypeError")]
    for k in ("double", "float"):
        add(k, k, good=dg, bad=db, default=("1.5", "d:1.5"))
        add(k + "&", k + "&", good=dg, bad=db)
        add(k + "&out", k + "&", "out", set="{p} = 4.5;", out="d:4.5")
        add(k + "&io", k + "&", "inout", good=dg, bad=db, set="{p} = 5.5;", out="d:5.5")
        add(k + "*", k + "*", good=dg, bad=db, see="*{p}")
        add(k + "*out", k + "*", "out", set="*{p} = 4.5;", out="d:4.5")
        add(k + "*io", k + "*", "inout", good=dg, bad=db, set="*{p} = 5.5;", out="d:5.5", see="*{p}")
    add("float[2]", "float*", good=[("[1.5, 2.5]", "[d:1.5,d:2.5]")], bad=[("[1.5]", "TypeError"), ("['x', 1.0]", "TypeError"), ("3", "TypeError")],
        kw=dict(array_length=2), see="{p}, 2")
    add("float[2]out", "float*", "out", set="{p}[0] = 0.5; {p}[1] = 0.25;", out="[d:0.5,d:0.25]", kw=dict(array_length=2))
    sg = [("'hello'", "s:hello"), ("''", "s:")]
    sz = [("'he\\0llo'", "s:he\\0llo"), ("''", "s:")]
    sb = [("5", "TypeError"), ("None", "TypeError")]
    add("string", "std::string", good=sg + [("'a\\0b'", "s:a\\0b")], bad=sb, default=('"dflt"', "s:dflt"))
    add("string&", "std::string&", good=sz, bad=sb, default=('"dflt"', "s:dflt"))
    add("cstring&", "const std::string&", good=sz, bad=sb, default=('"dflt"', "s:dflt"))
    add("string&out", "std::string&", "out", set='{p} = std::string("o\\0z", 3);', out="s:o\\0z")
    add("string&io", "std::string&", "inout", good=sz, bad=sb, set='{p} = "io";', out="s:io")
    add("string*", "std::string*", good=sz, bad=sb, see="*{p}")
    add("string*out", "std::string*", "out", set='*{p} = "outp";', out="s:outp")
    add("string*io", "std::string*", "inout", good=sz, bad=sb, set='*{p} = "iop";', out="s:iop", see="*{p}")
    add("char*", "const char*", good=sg, bad=sb + [("'a\\0b'", "ValueError")], default=('"dflt"', "s:dflt"))
    add("char", "char", good=[("b'x'", "c:x")], bad=[("b'xy'", "TypeError"), ("5", "TypeError")], default=("'q'", "c:q"))
    add("enum", "Color", good=[("m.GREEN", "i:2"), ("m.BLUE", "i:7")], bad=[("'x'", "TypeError"), ("None", "TypeError")], default=("RED", "i:1"))
    add("PyObject", "PyObject*", good=[("'obj'", "o:'obj'"), ("None", "o:None")], bad=[], kw=dict(transfer_ownership=False))
    pg = [("m.P(5)", "Pi:5"), ("SubP(6)", "Pi:6")]
    pb = [("Fake(m.P)", "TypeError"), ("5", "TypeError"), ("None", "TypeError"), ("m.PR(3)", "TypeError")]
    add("P", "P", good=pg, bad=pb, default=("P(9)", "Pi:9"))
    add("P&", "P&", good=pg, bad=pb)
    add("cP&", "const P&", good=pg, bad=pb, default=("P(9)", "Pi:9"))
    add("P&out", "P&", "out", set="{p}.v = 81;", out="Pi:81")
    add("P&io", "P&", "inout", good=pg, bad=pb, set="{p}.v = 82;", out=None)
    add("P*", "P*", good=pg, bad=pb, kw=dict(transfer_ownership=False))
    add("P*null", "P*", good=pg + [("None", "None")], bad=[("Fake(m.P)", "TypeError"), ("5", "TypeError"), ("m.PR(3)", "TypeError")], kw=dict(transfer_ownership=False, null_ok=True), default=("NULL", "None"))
    add("P*dflt", "P*", good=pg, bad=pb, kw=dict(transfer_ownership=False), default=("&static_P()", "Pi:14"))
    add("P*nulldflt", "P*", good=pg + [("None", "None")], bad=[("5", "TypeError")], kw=dict(transfer_ownership=False, null_ok=True), default=("&static_P()", "Pi:14"))
    add("cP*", "const P*", good=pg, bad=pb, default=("&static_P()", "Pi:14"))
    add("P*nullgive", "P*", good=[("m.P(5)", "Pi:5"), ("None", "None")], bad=[("Fake(m.P)", "TypeError"), ("5", "TypeError")], kw=dict(transfer_ownership=True, null_ok=True),
        default=("NULL", "None"), set="delete {p};", out=None)
    add("P*give", "P*", good=[("m.P(5)", "Pi:5")], bad=pb, kw=dict(transfer_ownership=True), set="delete {p};", out=None)
    add("PF*give", "PF*", good=[("m.PF(5)", "PFi:5")], bad=[("5", "TypeError")], kw=dict(transfer_ownership=True), set="PF_free({p});", out=None, see="*{p}")
    add("PR*", "PR*", good=[("m.PR(5)", "PRi:5")], bad=[("m.P(5)", "TypeError")], kw=dict(transfer_ownership=False))
    add("PR*give", "PR*", good=[("m.PR(5)", "PRi:5")], bad=[("m.P(5)", "TypeError")], kw=dict(transfer_ownership=True), set="{p}->Unref();", out=None)
    add("PR*nullgive", "PR*", good=[("m.PR(5)", "PRi:5"), ("None", "None")], bad=[("Fake(m.PR)", "TypeError"), ("5", "TypeError")], kw=dict(transfer_ownership=True, null_ok=True),
        default=("0", "None"), set="if ({p}) {p}->Unref();", out=None)
    add("PS", "std::shared_ptr< ::PS >", good=[("m.PS(5)", "PSi:5")], bad=[("Fake(m.PS)", "TypeError"), ("m.P(5)", "TypeError"), ("5", "TypeError")],
        default=("std::make_shared<PS>(23)", "PSi:23"))
    add("PSnull", "std::shared_ptr< ::PS >", good=[("m.PS(5)", "PSi:5"), ("None", "None")], bad=[("Fake(m.PS)", "TypeError"), ("5", "TypeError")], kw=dict(null_ok=True),
        default=("NULL", "None"))
    add("PI", "PI", good=[("mkPI(3)", "PIi:3"), ("m.P(4)", "PIi:1004")], bad=[("Fake(m.PI)", "TypeError"), ("5", "TypeError"), ("m.PR(5)", "TypeError")], default=("PI(P(1))", "PIi:1001"))
    add("PSv", "PS", good=[("m.PS(5)", "PSi:5")], bad=[("m.P(5)", "TypeError")], default=("PS(3)", "PSi:3"))
    add("PS&", "PS&", good=[("m.PS(5)", "PSi:5")], bad=[("m.P(5)", "TypeError")])
    add("cPS&", "const PS&", good=[("m.PS(5)", "PSi:5")], bad=[("m.P(5)", "TypeError")])
    add("PS&out", "PS&", "out", set="{p}.v = 84;", out="PSi:84")
    add("PRv", "PR", good=[("m.PR(5)", "PRi:5")], bad=[("m.P(5)", "TypeError")])
    add("PR&", "PR&", good=[("m.PR(5)", "PRi:5")], bad=[("m.P(5)", "TypeError")])
    add("PR&out", "PR&", "out", set="{p}.v = 85;", out="PRi:85")
    add("PF&", "PF&", good=[("m.PF(5)", "PFi:5")], bad=[("m.P(5)", "TypeError")])
    add("PF&out", "PF&", "out", set="{p}.v = 86;", out="PFi:86")
    add("cPI&", "const PI&", good=[("mkPI(3)", "PIi:3"), ("m.P(4)", "PIi:1004")], bad=[("Fake(m.P)", "TypeError"), ("5", "TypeError")])
    vg = [("[1, 2]", "[i:1,i:2]"), ("[]", "[]"), ("m.VecInt([3])", "[i:3]")]
    vb = [("Fake(m.VecInt)", "TypeError"), ("5", "TypeError"), ("[1, 'x']", "TypeError"), ("(1, 2)", "TypeError")]
    V = "std::vector<int>"
    add("vec", V, good=vg, bad=vb)
    add("vec&", V + "&", good=vg, bad=vb)
    add("cvec&", "const " + V + "&", good=vg, bad=vb, default=(V + "(2, 6)", "[i:6,i:6]"))
    add("vec&out", V + "&", "out", set="{p}.push_back(5); {p}.push_back(6);", out="[i:5,i:6]")
    add("vec&io", V + "&", "inout", good=vg, bad=vb, set="{p}.assign(2, 4);", out="[i:4,i:4]")
    add("vec*", V + "*", good=vg, bad=vb, kw=dict(transfer_ownership=False), see="*{p}")
    add("vec*give", V + "*", good=vg, bad=vb, kw=dict(transfer_ownership=True), see="*{p}", set="delete {p};", out=None)
    add("vec*out", V + "*", "out", set="{p}->push_back(8);", out="[i:8]")
    add("vecs", "std::vector<std::string>", good=[("['a\\0', 'b']", "[s:a\\0,s:b]")], bad=[("['a', 5]", "TypeError")])
    add("listd", "std::list<double>", good=[("[1.5, 2]", "[d:1.5,d:2]")], bad=[("['a']", "TypeError")])
    add("seti", "std::set<int>", good=[("[3, 1, 3]", "[i:1,i:3]")], bad=[("['a']", "TypeError")])
    add("vecP", "std::vector<P>", good=[("[m.P(1), m.P(2)]", "[Pi:1,Pi:2]")], bad=[("[m.P(1), 5]", "TypeError")])
    add("map", "std::map<std::string, int>", good=[("[('k', 1), ('j', 2)]", "[(s:j,i:2),(s:k,i:1)]")], bad=[("[5]", "TypeError"), ("[('k', 'v')]", "TypeError"), ("{}", "TypeError")])
    add("map&io", "std::map<std::string, int>&", "inout", good=[("[('k', 1)]", "[(s:k,i:1)]")], bad=[("[5]", "TypeError")], set='{p}["n"] = 3; {p}.erase("k");', out="[(s:n,i:3)]")
    return A


def returns():
    R = []

    def add(key, ctype, expr, shown, kw=None, good=(), bad=(), err=None):
        """good/bad: what an override may return: (python expression, shown) / (expression, exception); err: shown error return"""
        R.append(dict(key=key, ctype=ctype, expr=expr, shown=shown, kw=dict(kw or {}), good=None if good is None else list(good), bad=list(bad), err=err))
    add("void", None, "", None, good=[("None", None)], bad=[("5", "TypeError")], err=None)
    for k, (ct, bits, sg) in INTS.items():
        bad = [("'x'", "TypeError"), ("None", "TypeError")]
        if bits == 8 or bits == 16:
            bad += [("1 << %d" % bits, "ValueError")]
            bad += [("-1", "ValueError")] if not sg else [("-(1 << %d) - 1" % (bits - 1), "ValueError"), ("1 << %d" % (bits - 1), "ValueError")]
        elif sg:
            bad += [("1 << 70", "OverflowError")]
        g = [("5", "i:5")]
        if sg:
            g += [("-%d" % (1 << (bits - 1)), "i:-%d" % (1 << (bits - 1))), ("%d" % ((1 << (bits - 1)) - 1), "i:%d" % ((1 << (bits - 1)) - 1))]
        else:
            g += [("%d" % ((1 << bits) - 1), "i:%d" % ((1 << bits) - 1))]
        add(k, ct, "33", "i:33", good=g, bad=bad, err="i:%d" % (-2**31 if k == "int" else 0))
    add("bool", "bool", "true", "b:1", good=[("True", "b:1"), ("0", "b:0")], bad=[("BadBool()", "RuntimeError")], err="b:0")
    add("double", "double", "6.5", "d:6.5", good=[("2.5", "d:2.5")], bad=[("'x'", "TypeError")], err="d:0")
    add("float", "float", "6.5", "d:6.5", good=[("2.5", "d:2.5")], bad=[("'x'", "TypeError")], err="d:0")
    add("string", "std::string", 'std::string("r\\0t", 3)', "s:r\\0t", good=[("'str'", "s:str")], bad=[("5", "TypeError")], err="s:")
    add("string&", "std::string&", 'static_string()', "s:sta\\0tic", good=None)
    add("cstring&", "const std::string&", 'static_string()', "s:sta\\0tic", good=None)
    add("char*", "const char*", '"cstr"', "s:cstr", good=[("'str'", "s:str")], bad=[("5", "TypeError")], err="None")
    add("char*null", "const char*", '(const char*) 0', "None", good=None)
    add("char*free", "char*", 'strdup("heap")', "s:heap", kw=dict(free_after_copy=True), good=None)
    add("char", "char", "'z'", "c:z", good=[("b'y'", "c:y")], bad=[("5", "TypeError")], err="c:")
    add("enum", "Color", "BLUE", "i:7", good=[("2", "i:2")], bad=[("'x'", "TypeError")], err="i:0")
    add("PyObject", "PyObject*", 'PyLong_FromLong(12345)', "i:12345", kw=dict(caller_owns_return=True), good=None)
    add("PyObjectB", "PyObject*", 'Py_None', "None", kw=dict(caller_owns_return=False), good=None)
    add("P", "P", "P(11)", "Pi:11", good=[("m.P(21)", "Pi:21")], bad=[("5", "TypeError")], err="Pi:0")
    add("P*own", "P*", "new P(12)", "Pi:12", kw=dict(caller_owns_return=True), good=None)
    add("P*null", "P*", "(P*) 0", "None", kw=dict(caller_owns_return=True), good=None)
    add("P*ref", "P*", "&static_P()", "Pi:14", kw=dict(reference_existing_object=True), good=None)
    add("P*copy", "P*", "&static_P()", "Pi:14", kw=dict(caller_owns_return=False), good=None)
    add("P&", "P&", "static_P()", "Pi:14", kw=dict(caller_owns_return=False), good=None)
    add("cP&", "const P&", "static_P()", "Pi:14", kw=dict(reference_existing_object=True), good=None)
    add("PI", "PI", "PI(P(1))", "PIi:1001", good=[("mkPI(3)", "PIi:3")], bad=[("5", "TypeError"), ("m.P(5)", "TypeError")])
    add("PR*own", "PR*", "new PR(15)", "PRi:15", kw=dict(caller_owns_return=True), good=None)
    add("PR*ref", "PR*", "static_PR()", "PRi:16", kw=dict(caller_owns_return=False), good=None)
    add("PS", "std::shared_ptr< ::PS >", "std::shared_ptr<PS>(new PS(17))", "PSi:17", good=None)
    add("PSnull", "std::shared_ptr< ::PS >", "std::shared_ptr<PS>()", "None", good=None)
    add("vec", "std::vector<int>", "std::vector<int>(2, 3)", "[i:3,i:3]", good=[("[4]", "[i:4]")], bad=[("5", "TypeError"), ("['x']", "TypeError")], err="[]")
    add("map", "std::map<std::string, int>", "static_map()", "[(s:a,i:1)]", good=[("[('z', 2)]", "[(s:z,i:2)]")], bad=[("[3]", "TypeError")], err="[]")
    return R


STATICS = r'''
inline std::string &static_string() { static std::string s("sta\0tic", 7); return s; }
inline P &static_P() { static P *p = new P(14); p->v = 14; return *p; }
inline PR *static_PR() { static PR *p = new PR(16); return p; }
inline std::map<std::string, int> static_map() { std::map<std::string, int> m; m["a"] = 1; return m; }
'''


def show(x, m):
    """The Python side of `show`."""
    if x is None:
        return "None"
    if x is True or x is False:
        return "b:1" if x else "b:0"
    if isinstance(x, int):
        return "i:%d" % x
    if isinstance(x, float):
        return "d:%.9g" % x
    if isinstance(x, str):
        return "s:" + x.replace("\0", "\\0")
    if isinstance(x, bytes):
        return "c:" + x.decode("latin-1")
    for n in ("PI", "PF", "PR", "PS", "P"):
        if isinstance(x, getattr(m, n)):
            return n + "i:%d" % x.v
    if isinstance(x, tuple):
        return "(" + ",".join(show(y, m) for y in x) + ")"
    if isinstance(x, list) or type(x).__name__.startswith(("Vec", "Std")):
        return "[" + ",".join(show(y, m) for y in x) + "]"
    return "?%r" % (x,)
