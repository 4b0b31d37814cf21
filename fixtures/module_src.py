"""C++ header and generator script for a history of registrations (spec/Module.tla)."""
import json


def ids(items, op):
    return [i for i, it in enumerate(items, 1) if it["op"] == op]


class H(object):
    def __init__(self, name, items):
        self.name, self.items = name, items

    def it(self, i):
        return self.items[i - 1]

    def cxx(self, i):
        """full C++ name"""
        if i == 0:
            return ""
        it = self.it(i)
        p = self.cxx(it["at"])
        n = it["n"] if it["op"] != "alias" else it["py"]
        return p + "::" + n if p else n

    def where(self, s):
        """the namespaces around what is registered in s, and the class, if s is one"""
        ns = []
        while s:
            if self.it(s)["op"] == "ns":
                ns.insert(0, self.it(s)["n"])
            s = self.it(s)["at"]
        return ns

    def overs(self, i):
        return [0] + sorted(o["x"] for o in self.items if o["op"] == "over" and o["at"] == i)

    def value(self, i, k):
        return "%s_v%d" % (self.it(i)["n"], k)

    # ---- C++
    def enum(self, i):
        return "enum %s { %s };" % (self.it(i)["n"], ", ".join("%s = %d" % (self.value(i, k), i * 10 + k) for k in range(1, self.it(i)["x"] + 1)))

    def fn(self, i, static):
        out = []
        for k in self.overs(i):
            j = i if not k else [m for m, o in enumerate(self.items, 1) if o["op"] == "over" and o["at"] == i and o["x"] == k][0]
            out.append("%sint %s(%s) { return %d; }" % (static, k and self.it(j)["n"] or self.it(i)["n"], ", ".join(["int"] * k), j))
        return out

    def cls(self, i):
        it = self.it(i)
        out = ["class %s%s {" % (it["n"], " : public ::" + self.cxx(it["x"]) if it["x"] else ""), "public:",
               "  %s() : tag_(%d) {}" % (it["n"], i), "  %s(const %s &o) : tag_(o.tag_) {}" % (it["n"], it["n"]), "  virtual ~%s() {}" % it["n"], "  int tag_;"]
        for j, m in enumerate(self.items, 1):
            if m["at"] != i:
                continue
            if m["op"] == "meth":
                out += ["  " + l for l in self.fn(j, "static " if m["b"] else "")]
            elif m["op"] == "attr" and m["b"]:
                out.append("  static int %s;" % m["n"])
            elif m["op"] == "attr":
                out.append("  int %s = %d;" % (m["n"], j))
            elif m["op"] == "enum":
                out.append("  " + self.enum(j))
            elif m["op"] == "exc":
                out.append("  struct %s {};" % m["n"])
            elif m["op"] == "class":
                out += ["  " + l for l in self.cls(j)]
        return out + ["};"]

    def header(self):
        out = ["#pragma once", "#include <vector>"]

        def at(s, lines):
            ns = self.where(s)
            out.extend(["namespace %s {" % n for n in ns] + lines + ["}"] * len(ns))
        late = []
        for i, it in enumerate(self.items, 1):
            s = it["at"]
            inside = s and self.it(s)["op"] == "class"
            op = it["op"]
            if op == "class" and not inside:
                at(s, self.cls(i))
            elif op == "enum" and not inside:
                at(s, [self.enum(i)])
            elif op == "exc" and not inside:
                at(s, ["struct %s%s {};" % (it["n"], " : public ::" + self.cxx(it["x"]) if it["x"] else "")])
            elif op == "alias":
                at(s, ["typedef ::%s %s;" % (self.cxx(it["x"]), it["py"])])
            elif op == "fn":
                late.append((s, self.fn(i, "static inline ")))
            elif op == "attr" and it["b"]:
                late.append((0, ["#ifdef MAIN_FILE", "int %s = %d;" % (self.cxx(i), i), "#endif"]))
            elif op == "use":
                K = "::" + self.cxx(it["x"])
                if it["n"] in ("eval", "eret"):
                    late.append((s, ["static inline %s %s(%s) { return (%s) %s; }" % (("int", it["py"], K + " x", "int", "x") if it["n"] == "eval" else (K, it["py"], "", K, it["x"] * 10 + 1))]))
                    continue
                late.append((s, [{"val": "static inline int %s(%s x) { return x.tag_; }", "ref": "static inline int %s(%s &x) { return x.tag_; }", "ptr": "static inline int %s(%s *x) { return x->tag_; }",
                                  "ret": "static inline %s(*use_%s())() { return 0; }"}.get(it["n"], "") % (it["py"], K) if it["n"] in ("val", "ref", "ptr") else
                                 "static inline %s %s() { return %s(); }" % (K, it["py"], K) if it["n"] == "ret" else
                                 "static inline int %s(std::vector<%s> x) { return (int) x.size(); }" % (it["py"], K)]))
        for s, lines in late:
            at(s, lines)
        return "\n".join(out) + "\n"

    # ---- the generator script
    def var(self, i):
        return "v%d" % i

    def gen(self, order, sections, name):
        w = ["import sys, io", "import pybindgen", "from pybindgen import Module, FileCodeSink, param, retval, settings", "from pybindgen.module import MultiSectionFactory",
             "class EH(settings.ErrorHandler):", "    def handle_error(self, wrapper, exc, tb): return True", "settings.error_handler = EH()",
             "v0 = Module(%r)" % name, "v0.add_include('\"%s.h\"')" % self.name]
        cur = ""
        for i in order:
            it = self.it(i)
            v, s = self.var(i), self.var(it["at"])
            if it["sect"] != cur:
                if cur:
                    w.append("v0.end_section(%r)" % cur)
                if it["sect"]:
                    w.append("v0.begin_section(%r)" % it["sect"])
                cur = it["sect"]
            op = it["op"]
            py = {} if it["py"] == it["n"] else {"custom_name": it["py"]}
            if it.get("doc") and op != "ns":
                py["docstring"] = "about %d" % i
            kw = "".join(", %s=%r" % x for x in py.items())
            if op == "ns":
                w.append("%s = %s.add_cpp_namespace(%r)" % (v, s, it["n"]))
            elif op == "class":
                w.append("%s = %s.add_class(%r%s%s)" % (v, s, it["n"], ", parent=" + self.var(it["x"]) if it["x"] else "", kw))
                w.append("%s.add_constructor([])" % v + ("" if it["b"] else "; %s.add_copy_constructor()" % v))
            elif op == "fn":
                # the name of the scope goes unless there is another
                py.pop("custom_name", None)
                if not it["b"]:
                    py["custom_name"] = it["py"]
                kw = "".join(", %s=%r" % x for x in py.items())
                w.append("%s.add_function(%r, retval('int'), []%s)" % (s, it["n"], kw))
            elif op == "meth":
                w.append("%s.add_method(%r, retval('int'), []%s%s)" % (s, it["n"], ", is_static=True" if it["b"] else "", kw))
            elif op == "over":
                f = self.it(it["at"])
                py = {"custom_name": f["py"]} if it["n"] or not (f["op"] == "fn" and f["b"]) and f["py"] != f["n"] else {}
                if f["doc"]:
                    py["docstring"] = "about %d" % it["at"]
                kw = "".join(", %s=%r" % x for x in py.items())
                ps = ", ".join("param('int', 'x%d')" % k for k in range(it["x"]))
                w.append("%s.%s(%r, retval('int'), [%s]%s%s)" % (self.var(f["at"]), "add_function" if f["op"] == "fn" else "add_method", it["n"] or f["n"], ps, ", is_static=True" if f["op"] == "meth" and f["b"] else "", kw))
            elif op == "attr":
                w.append("%s.%s(%r, 'int'%s)" % (s, "add_static_attribute" if it["b"] else "add_instance_attribute", it["n"], ", custom_name=%r" % it["py"] if py else ""))
            elif op == "enum":
                names = [("v%d" % k if it["b"] else self.value(i, k)) for k in range(1, it["x"] + 1)]
                w.append("%s.add_enum(%r, %r%s)" % (s, it["n"], names, ", values_prefix=%r" % (it["n"] + "_") if it["b"] else ""))
            elif op == "alias":
                w.append("%s.add_typedef(%s, %r)" % (s, self.var(it["x"]), it["py"]))
            elif op == "exc":
                if it["at"] and self.it(it["at"])["op"] == "class":
                    kw += ", outer_class=" + s
                    s += ".module"
                w.append("%s = %s.add_exception(%r%s%s)" % (v, s, it["n"], ", parent=" + self.var(it["x"]) if it["x"] else "", kw))
            elif op == "cont":
                w.append("%s.add_container('std::vector< %s >', %r, 'vector', custom_name=%r)" % (s, self.cxx(it["x"]), self.cxx(it["x"]), it["py"]))
            elif op == "use":
                K = self.cxx(it["via"] or it["x"])
                if it["n"] in ("eval", "eret"):
                    w.append("%s.add_function(%r, retval(%r), [%s])" % ((s, it["py"], "int", "param(%r, 'x')" % K) if it["n"] == "eval" else (s, it["py"], K, "")))
                elif it["n"] == "ret":
                    w.append("%s.add_function(%r, retval(%r), [])" % (s, it["py"], K))
                else:
                    t = {"val": "param(%r, 'x')" % K, "ref": "param(%r, 'x')" % (K + " &"), "ptr": "param(%r, 'x', transfer_ownership=False)" % (K + " *"), "vec": "param('std::vector< %s >', 'x')" % self.cxx(it["x"])}[it["n"]]
                    w.append("%s.add_function(%r, retval('int'), [%s])" % (s, it["py"], t))
            elif op == "bad":
                inc = it["at"] and self.it(it["at"])["op"] == "class"
                name, kw = "bad%d" % i, ""
                if it["x"]:
                    f = self.it(it["x"])
                    name = f["n"]
                    if f["op"] == "meth" and f["b"]:
                        kw += ", is_static=True"
                    if f["py"] != f["n"] and not (f["op"] == "fn" and f["b"]):
                        kw += ", custom_name=%r" % f["py"]
                    if f["doc"]:
                        kw += ", docstring='about %d'" % it["x"]
                add = "%s.%s(%r, " % (s, "add_method" if inc else "add_function", name)
                w.append({"fn": add + "retval('int'), [param('Unknown', 'x')]" + kw + ")",
                          "over": add + "retval('int'), [param('Unknown &', 'x')]" + kw + ")",
                          "gen": add + "retval(%r), [param('int', 'a%%d' %% k) for k in range(4)]%s)" % (self.cxx(it["via"] or 0), kw),
                          "ret": add + "retval('Unknown *'), [])",
                          "meth": add + "retval('int'), [param('Unknown &', 'x')])",
                          "ctor": "%s.add_constructor([param('Unknown', 'bad%d')])" % (s, i),
                          "virt": add + "retval('Unknown'), [], is_virtual=True)"}[it["n"]])
        if cur:
            w.append("v0.end_section(%r)" % cur)
        if sections:
            w += ["import os",
                  "class Out(object):", "    def __init__(self, path, main=False):", "        self.f = open(path, 'w'); self.f.write('#define MAIN_FILE\\n' if main else '')",
                  "class F(MultiSectionFactory):",
                  "    def __init__(self):",
                  "        self.d = os.path.dirname(sys.argv[1]); self.base = sys.argv[1][:-3]; self.s = {}; self.files = []",
                  "    def sink(self, path, main=False):",
                  "        if path not in self.s:",
                  "            f = open(path, 'w')",
                  "            if main: f.write('#define MAIN_FILE\\n')",
                  "            self.files.append(f); self.s[path] = FileCodeSink(f)",
                  "        return self.s[path]",
                  "    def get_section_code_sink(self, n): return self.get_main_code_sink() if n == '__main__' else self.sink(self.base + '__' + n + '.cc')",
                  "    def get_main_code_sink(self): return self.sink(sys.argv[1], True)",
                  "    def get_common_header_code_sink(self): return self.sink(self.base + '_common.h')",
                  "    def get_common_header_include(self): return '\"%s_common.h\"' % os.path.basename(self.base)",
                  "f = F()", "v0.generate(f)", "for x in f.files: x.close()"]
        else:
            w += ["with open(sys.argv[1], 'w') as f:", "    f.write('#define MAIN_FILE\\n')", "    v0.generate(FileCodeSink(f))"]
        return "\n".join(w) + "\n"


def orders(items, rng):
    """Another order in which the same can be registered."""
    need = {}
    for i, it in enumerate(items, 1):
        d = {it["at"], it.get("via", 0)}
        if it["op"] in ("class", "alias", "cont", "use", "exc", "bad"):
            d.add(it["x"])
        if it["op"] == "use" and it["n"] == "vec":
            d.add([j for j, o in enumerate(items, 1) if o["op"] == "cont" and o["x"] == it["x"]][0])
        need[i] = d - {0}
    out, todo = [], set(need)
    while todo:
        i = rng.choice(sorted(j for j in todo if not need[j] & todo))
        out.append(i)
        todo.discard(i)
    return out
