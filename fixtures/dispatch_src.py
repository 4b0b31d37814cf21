"""C++ hierarchies with virtual methods and the generator script of their module.

A hierarchy: classes (names), up (base index or 0), meths [{name, void, vis, const}], impl[k][j] ('', 'def', 'pure'), calls[k][j] (1-based methods)."""
HEAD = "import sys\nsys.setrecursionlimit(20000)\nfrom pybindgen import *\nfrom pybindgen import cppclass, FileCodeSink\n"
SUPPORT = """
#include <Python.h>
#include <string>
struct DLog { std::string text; int fuel; };
inline DLog &dl() { static DLog l; return l; }
inline void note(std::string const &s) { dl().text += s + "|"; }
"""
CTL = """
extern "C" __attribute__((visibility("default"))) const char *dl_text() { return dl().text.c_str(); }
extern "C" __attribute__((visibility("default"))) void dl_reset(int fuel) { dl().text.clear(); dl().fuel = fuel; }
extern "C" __attribute__((visibility("default"))) void dl_note(const char *s) { note(s); }
extern "C" __attribute__((visibility("default"))) int dl_fuel() { return dl().fuel--; }
"""


def call(h, j, obj="this->"):
    m = h["meths"][j - 1]
    return ("%scall_%s(); note(\"=None\");" if m["void"] else "{ int r_ = %scall_%s(); note(\"=\" + std::to_string(r_)); }") % (obj, m["name"])


def header(h):
    s = [SUPPORT]
    for k, c in enumerate(h["classes"], 1):
        up = h["up"][k - 1]
        base = " : public %s" % h["classes"][up - 1] if up else ""
        s.append("class %s%s {" % (c, base))
        if not up:
            s.append("public: %s() {} virtual ~%s() {}" % (c, c))
            for j, m in enumerate(h["meths"], 1):
                s.append("%s call_%s() { return %s(); }" % ("void" if m["void"] else "int", m["name"], m["name"]))
        for j, m in enumerate(h["meths"], 1):
            impl = h["impl"][k - 1][j - 1]
            if not impl:
                continue
            t = "void" if m["void"] else "int"
            cst = " const" if m["const"] else ""
            if impl == "pure":
                s.append("%s: virtual %s %s()%s = 0;" % (m["vis"], t, m["name"], cst))
                continue
            body = 'note("%s.%s"); ' % (c, m["name"])
            ret = "" if m["void"] else "return %d;" % (10 * k + j)
            body += "if (dl().fuel-- > 0) { %s } %s" % (" ".join(call(h, i, "const_cast<%s *>(this)->" % c) for i in h["calls"][k - 1][j - 1]), ret)
            s.append("%s: virtual %s %s()%s { %s }" % (m["vis"], t, m["name"], cst, body))
        s.append("};")
    root = h["classes"][0]
    for m in h["meths"]:
        s.append("inline %s drv_%s(%s *x) { return x->call_%s(); }" % ("void" if m["void"] else "int", m["name"], root, m["name"]))
    s.append("struct Held { static %s *&obj() { static %s *o = 0; return o; } };" % (root, root))
    s.append("inline void give(%s *x) { Held::obj() = x; } inline void drop() { delete Held::obj(); Held::obj() = 0; }" % root)
    for m in h["meths"]:
        s.append("inline %s held_%s() { return Held::obj()->call_%s(); }" % ("void" if m["void"] else "int", m["name"], m["name"]))
    return "\n".join(s) + "\n"


def gen(name, h, part=""):
    """part: "" for all in one module; "a", "b" for what is in the first and the second of two modules, which imports the first h["cut"] classes"""
    s = [HEAD, "mod = Module(%r)" % (name + part), "mod.add_include('\"%s.h\"')" % name, "C = [None]"]
    for k, c in enumerate(h["classes"], 1):
        up = h["up"][k - 1]
        if part == "a" and k > h["cut"]:
            continue
        s.append("c = mod.add_class(%r, allow_subclassing=True%s%s); C.append(c)" % (c, ", parent=C[%d]" % up if up else "", ", import_from_module=%r" % (name + "a") if part == "b" and k <= h["cut"] else ""))
        pure = any(h["impl"][k - 1][j] == "pure" for j in range(len(h["meths"])))
        s.append("c.add_constructor([])")
        for j, m in enumerate(h["meths"], 1):
            impl = h["impl"][k - 1][j - 1]
            if impl:
                s.append("c.add_method(%r, %s, [], is_virtual=True%s%s%s%s)" % (m["name"], "None" if m["void"] else "retval('int')",
                         ", is_pure_virtual=True" if impl == "pure" else "", ", is_const=True" if m["const"] else "",
                         ", visibility=%r" % m["vis"] if m["vis"] != "public" else "", ", custom_name=%r" % m["custom"] if m.get("custom") else ""))
    root = h["classes"][0]
    for j, m in enumerate(h["meths"]):
        if part and part != h["fun"][j]:
            continue
        r = "None" if m["void"] else "retval('int')"
        s.append("mod.add_function('drv_%s', %s, [param('%s*', 'x', transfer_ownership=False)])" % (m["name"], r, root))
        s.append("mod.add_function('held_%s', %s, [])" % (m["name"], r))
    s.append("mod.add_function('give', None, [param('%s*', 'x', transfer_ownership=True)]); mod.add_function('drop', None, [])" % root)
    s.append("mod.generate(FileCodeSink(open(sys.argv[1], 'w')))")
    return "\n".join(s) + "\n"
