"""C++ functions and generator script for integers: every spelling of every integer type in every position."""
HEAD = "import sys\nsys.setrecursionlimit(20000)\nfrom pybindgen import *\nfrom pybindgen import cppclass, FileCodeSink\n"
ALL, REF = "v r c ro ri p cp po pi ret", "v r c ro ri ret"
NOREF = "v r c ret"
# spelling, bits, signed, positions: v value, r reference, c const reference, ro/ri reference out/inout, p pointer, po/pi pointer out/inout, ret
TYPES = [("int", 32, 1, ALL), ("int32_t", 32, 1, "v ret"), ("unsigned int", 32, 0, ALL), ("uint32_t", 32, 0, "v p cp po pi ret"),
         ("short", 16, 1, REF), ("int16_t", 16, 1, REF), ("short int", 16, 1, REF), ("unsigned short", 16, 0, REF), ("uint16_t", 16, 0, ALL),
         ("unsigned short int", 16, 0, ALL), ("short unsigned int", 16, 0, "r c ro ri ret"), ("signed char", 8, 1, REF), ("int8_t", 8, 1, ALL),
         ("unsigned char", 8, 0, REF), ("uint8_t", 8, 0, ALL), ("long", 64, 1, NOREF), ("long int", 64, 1, NOREF), ("signed long", 64, 1, NOREF),
         ("long signed int", 64, 1, NOREF), ("unsigned long", 64, 0, NOREF), ("unsigned long int", 64, 0, "v r c"), ("long unsigned int", 64, 0, NOREF),
         ("long unsigned", 64, 0, "v r c"), ("long long", 64, 1, NOREF), ("int64_t", 64, 1, NOREF), ("long long int", 64, 1, NOREF),
         ("unsigned long long", 64, 0, NOREF), ("uint64_t", 64, 0, NOREF), ("long long unsigned int", 64, 0, NOREF), ("unsigned long long int", 64, 0, "v"),
         ("size_t", 64, 0, "v ret"), ("std::size_t", 64, 0, "v ret"), ("char signed", 8, 1, "v r c ro ri"), ("char unsigned", 8, 0, REF),
         ("unsigned", 32, 0, "r c ro ri")]


def key(t):
    return t.replace(" ", "_").replace("::", "_")


def cases():
    """One case per type and position: {type, pos, bits, signed, flow}; wraps: may take a value modulo 2^bits; flow in: Python gives, out: C++ gives, both."""
    res = []
    for t, bits, sg, pos in TYPES:
        ps = pos.split()
        if "v" in ps and "ret" in ps:
            ps += ["attr", "sattr", "prop", "vecin", "vecout", "vparam", "vret"]
        if "ri" in ps:
            ps += ["vri"]
        if "ro" in ps:
            ps += ["vro"]
        for p in ps:
            flow = {"ro": "out", "po": "out", "ret": "out", "vecout": "out", "vparam": "out", "ri": "both", "pi": "both", "attr": "both", "sattr": "both",
                    "prop": "both", "vri": "cxxboth"}.get(p, "in")
            res.append(dict(type=t, pos=p, bits=bits, signed=bool(sg), flow=flow, name=key(t), wraps=not sg and (bits >= 32 or p in ("r", "c", "ri", "p", "cp", "pi", "vro", "vri"))))
    return res


SUPPORT = """
#include <Python.h>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstdint>
#include <cstddef>
inline std::string &lg() { static std::string s; return s; }
template <class T> inline void saw(T v) { lg() = std::to_string(v); }
template <class T> inline T dec(std::string const &s) { return s[0] == '-' ? (T) strtoll(s.c_str(), 0, 10) : (T) strtoull(s.c_str(), 0, 10); }
"""


def header():
    s = [SUPPORT]
    for t, bits, sg, pos in TYPES:
        n, ps = key(t), pos.split()
        d = dict(t=t, n=n)
        F = {"v": "inline void v_%(n)s(%(t)s x) { saw(x); }", "r": "inline void r_%(n)s(%(t)s &x) { saw(x); }", "c": "inline void c_%(n)s(%(t)s const &x) { saw(x); }",
             "ro": "inline void ro_%(n)s(std::string d, %(t)s &x) { x = dec<%(t)s>(d); }", "ri": "inline void ri_%(n)s(%(t)s &x) { saw(x); }",
             "p": "inline void p_%(n)s(%(t)s *x) { saw(*x); }", "cp": "inline void cp_%(n)s(%(t)s const *x) { saw(*x); }", "po": "inline void po_%(n)s(std::string d, %(t)s *x) { *x = dec<%(t)s>(d); }",
             "pi": "inline void pi_%(n)s(%(t)s *x) { saw(*x); }", "ret": "inline %(t)s ret_%(n)s(std::string d) { return dec<%(t)s>(d); }"}
        for p in ps:
            s.append(F[p] % d)
        body = []
        if "v" in ps and "ret" in ps:
            s.append("inline void vi_%(n)s(std::vector< %(t)s > v) { if (v.size() == 1) saw(v[0]); }" % d)
            s.append("inline std::vector< %(t)s > vo_%(n)s(std::string d) { return std::vector< %(t)s >(1, dec< %(t)s >(d)); }" % d)
            body.append("%(t)s a; static %(t)s s; %(t)s p_; %(t)s get_p() const { return p_; } void set_p(%(t)s x) { p_ = x; }"
                        "virtual %(t)s m(%(t)s x) { return x; } std::string call_m(std::string d) { return std::to_string(m(dec<%(t)s>(d))); }" % d)
        if "ri" in ps:
            body.append("virtual void ri(%(t)s &x) {} std::string call_ri(std::string d) { %(t)s x = dec<%(t)s>(d); ri(x); return std::to_string(x); }" % d)
        if "ro" in ps:
            body.append("virtual void ro(%(t)s &x) { x = 0; } std::string call_ro() { %(t)s x = 0; ro(x); return std::to_string(x); }" % d)
        s.append("class C_%s { public: C_%s() {} virtual ~C_%s() {} %s };" % (n, n, n, " ".join(body)))
        if "v" in ps and "ret" in ps:
            s.append("inline %(t)s C_%(n)s::s = 0;" % d)
    return "\n".join(s) + "\n"


def gen(name):
    s = [HEAD, "mod = Module(%r)" % name, "mod.add_include('\"%s.h\"')" % name,
         "IN, OUT, IO = Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT"]
    D = "param('std::string', 'd'), "
    for t, bits, sg, pos in TYPES:
        n, ps = key(t), pos.split()
        a = s.append
        f = "mod.add_function('%s_%s', None, [%s])"
        for p in ps:
            if p == "ret":
                a("mod.add_function('ret_%s', retval('%s'), [param('std::string', 'd')])" % (n, t))
            else:
                ct = {"v": t, "c": "const %s&" % t, "cp": "const %s*" % t}.get(p, t + ("&" if p[0] == "r" else "*"))
                dr = {"o": "OUT", "i": "IO"}.get(p[1:] if p != "cp" else "", "IN")
                a(f % (p, n, (D if dr == "OUT" else "") + "param('%s', 'x', direction=%s)" % (ct, dr)))
        a("c = mod.add_class('C_%s', allow_subclassing=True); c.add_constructor([])" % n)
        if "v" in ps and "ret" in ps:
            a("c.add_instance_attribute('a', '%s'); c.add_static_attribute('s', '%s'); c.add_instance_attribute('p', '%s', getter='get_p', setter='set_p')" % (t, t, t))
            a("c.add_method('m', retval('%s'), [param('%s', 'x')], is_virtual=True); c.add_method('call_m', retval('std::string'), [param('std::string', 'd')])" % (t, t))
            a("mod.add_container('std::vector< %s >', '%s', 'vector')" % (t, t))
            a("mod.add_function('vi_%s', None, [param('std::vector< %s >', 'v')])" % (n, t))
            a("mod.add_function('vo_%s', retval('std::vector< %s >'), [param('std::string', 'd')])" % (n, t))
        if "ri" in ps:
            a("c.add_method('ri', None, [param('%s&', 'x', direction=IO)], is_virtual=True); c.add_method('call_ri', retval('std::string'), [param('std::string', 'd')])" % t)
        if "ro" in ps:
            a("c.add_method('ro', None, [param('%s&', 'x', direction=OUT)], is_virtual=True); c.add_method('call_ro', retval('std::string'), [])" % t)
    s.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(s) + "\n"


CTL = '\nextern "C" __attribute__((visibility("default"))) const char *lg_text() { return lg().c_str(); }\n' \
      'extern "C" __attribute__((visibility("default"))) void lg_clear() { lg().clear(); }\n'
