"""C++ code that stops where it is until a script tells its thread what to do, from tables of Threads.tla.

A table: threads ["py" | "native"], fns [{name, kind, par, res, unblock, throws, decl: what the generator is told ('True' | 'False' | '': nothing)}],
virts [{name, ret, over, throws, pure, vis}], settings: the module's settings.unblock_threads"""
HEAD = "import sys\nfrom pybindgen import *\nfrom pybindgen import cppclass, FileCodeSink, settings, param, retval\n"

COMMON = r"""
#include <Python.h>
#include <condition_variable>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
struct Err { char const *what() const { return "err"; } };

// ---- the script: one thread at a time does one thing, then waits
struct Waiter { bool waiting = false, py = false, base = false, told = false; int lock = 0, depth = 0; std::string name, note, printed, cmd; };
static std::mutex ctl_mutex;
static std::condition_variable ctl_cv;
static std::map<int, Waiter> ctl_threads;
static thread_local int ctl_me = 0;
static thread_local int ctl_depth = 0;
static thread_local std::string ctl_answer;
#define API extern "C" __attribute__((visibility("default")))

static std::string ctl_wait(bool py, int lock, std::string const &name, bool base)
{
  std::unique_lock<std::mutex> l(ctl_mutex);
  Waiter &w = ctl_threads[ctl_me];
  w.py = py; w.lock = lock; w.name = name; w.base = base; w.depth = ctl_depth; w.waiting = true;
  ctl_cv.notify_all();
  ctl_cv.wait(l, [&] { return w.told; });
  w.told = false; w.waiting = false; w.note.clear(); w.printed.clear();
  return w.cmd;
}
static void ctl_say(std::string const &s) { if (!ctl_me) return; std::lock_guard<std::mutex> l(ctl_mutex); ctl_threads[ctl_me].note = s; }
// waits until thread t waits: false if it does not come
static bool ctl_until(std::unique_lock<std::mutex> &l, int t, int ms)
{
  Waiter &w = ctl_threads[t];
  return ctl_cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return w.waiting && !w.told; });
}
API void ctl_begin(int t) { ctl_me = t; ctl_depth = 0; }
API char const *ctl_next(int lock, char const *name, int base) { ctl_answer = ctl_wait(true, lock, name, base); return ctl_answer.c_str(); }
API void ctl_push(int d) { ctl_depth += d; }
API void ctl_note(char const *s) { ctl_say(s); }
API void ctl_printed(char const *s) { if (!ctl_me) return; std::lock_guard<std::mutex> l(ctl_mutex); ctl_threads[ctl_me].printed += s; }

static void ctl_stuck(FILE *f, int i, std::string const &what)
{
  fprintf(f, "{\"e\": \"fail\", \"ends\": true, \"step\": %d, \"expected\": \"the thread goes on\", \"got\": \"%s\", \"diff\": [\"%s\"]}\n", i, what.c_str(), what.c_str());
  fclose(f);
  _exit(70);
}
static std::string ctl_result;
// script: "t cmd\n"...; the answer has a line for each
API char const *ctl_run(char const *script, char const *out, int ms)
{
  ctl_result.clear();
  std::istringstream in(script);
  std::string line;
  int i = 0;
  std::unique_lock<std::mutex> l(ctl_mutex);
  for (auto &p : ctl_threads)
    if (!ctl_until(l, p.first, ms))
      ctl_stuck(fopen(out, "a"), 0, "a thread does not start");
  while (std::getline(in, line)) {
    int t = std::atoi(line.c_str());
    std::string cmd = line.substr(line.find(' ') + 1);
    Waiter &w = ctl_threads[t];
    std::string before = w.name;
    w.cmd = cmd; w.told = true;
    ctl_cv.notify_all();
    if (!ctl_until(l, t, ms))
      ctl_stuck(fopen(out, "a"), i, "thread " + std::to_string(t) + " in " + before + " does not go on after " + cmd);
    std::ostringstream o;
    o << (w.py ? "py" : "cpp") << '\t' << w.name << '\t' << w.depth + 1 << '\t' << w.lock << '\t' << w.note << '\t' << w.printed << '\n';
    ctl_result += o.str();
    ++i;
  }
  // everybody out
  for (int k = 0; k < 1000; ++k) {
    int who = 0;
    for (auto &p : ctl_threads) {
      Waiter &w = p.second;
      if (w.base) continue;
      if (!w.py && w.lock) { who = p.first; break; }
      who = p.first;
    }
    if (!who) break;
    Waiter &w = ctl_threads[who];
    std::string before = w.name;
    w.cmd = "ret"; w.told = true;
    ctl_cv.notify_all();
    if (!ctl_until(l, who, ms))
      ctl_stuck(fopen(out, "a"), i, "at the end, thread " + std::to_string(who) + " in " + before + " does not return");
  }
  return ctl_result.c_str();
}
static void ctl_do(std::string const &cmd);
// a C++ function that runs: inside it, the thread does what the script says
static void body(char const *name)
{
  if (!ctl_me) return;
  ++ctl_depth;
  for (;;) {
    std::string c = ctl_wait(false, PyGILState_Check(), name, false);
    if (c == "ret") break;
    if (c == "throw") { --ctl_depth; throw Err(); }
    ctl_do(c);
  }
  --ctl_depth;
}
static void quiet(char const *name) noexcept { body(name); }
API void ctl_native(int t)
{
  std::thread([t] {
    ctl_me = t;
    for (;;) {
      std::string c = ctl_wait(false, PyGILState_Check(), "base", true);
      if (c == "quit") { std::lock_guard<std::mutex> l(ctl_mutex); ctl_threads.erase(t); return; }
      ctl_do(c);
    }
  }).detach();
}
API void ctl_quit(int t) { std::lock_guard<std::mutex> l(ctl_mutex); ctl_threads[t].cmd = "quit"; ctl_threads[t].told = true; ctl_cv.notify_all(); }
API void ctl_forget(int t) { std::lock_guard<std::mutex> l(ctl_mutex); ctl_threads.erase(t); }

struct Thing { int v; Thing(int v_ = 4) : v(v_) {} Thing(Thing const &o) : v(o.v) {} int get() const { return v; } };
inline std::vector<std::string> words() { return std::vector<std::string>(3, "a word that is longer than a short string is"); }
struct Pet { virtual ~Pet() {} virtual int legs() { return 4; } };
static std::vector<Pet *> pets;
inline void take(Pet *p) { pets.push_back(p); }
inline int npets() { return (int) pets.size(); }
API void ctl_drop() { while (!pets.empty()) { Pet *p = pets.back(); pets.pop_back(); delete p; } }
"""

PAR = {"": ("", ""), "int": ("int p", "param('int','p')"), "str": ("std::string const &p", "param('const std::string&','p')"),
       "obj": ("Thing const &p", "param('const Thing&','p')"), "ptr": ("Thing *p", "param('Thing*','p',transfer_ownership=False)"),
       "out": ("int &p", "param('int&','p',direction=Parameter.DIRECTION_OUT)"),
       "give": ("Thing *p", "param('Thing*','p',transfer_ownership=True)")}
ARGS = {"": [], "int": ["7"], "str": ["'seven'"], "obj": ["m.Thing(3)"], "ptr": ["m.Thing(3)"], "out": [], "give": ["m.Thing(3)"]}
RES = {"void": ("void", "None", ""), "int": ("int", "retval('int')", "return 100100;"), "str": ("std::string", "retval('std::string')", 'return "a string that is long enough";'),
       "obj": ("Thing", "retval('Thing')", "return Thing(9);"), "ptr": ("Thing *", "retval('Thing*',caller_owns_return=True)", "return new Thing(8);"),
       "vec": ("std::vector<std::string>", "retval('std::vector< std::string >')", "return words();"), "bool": ("bool", "retval('bool')", "return true;")}
SHOWN = {"void": "None", "int": "100100", "str": "'a string that is long enough'", "obj": "Thing9", "ptr": "Thing8",
         "vec": repr(["a word that is longer than a short string is"] * 3), "bool": "True"}
# kinds that make an object of their own class
MAKES = ("ctor", "hctor", "fctor")
ALWAYS = {"attr": "int", "setattr": "void", "op": "obj", "neg": "obj", "iop": "obj", "eq": "bool", "lt": "bool", "str": "str", "copy": "self", "dtor": "void", "conv": "void"}


def shown(f):
    k, r = f["kind"], f["res"]
    if k in MAKES:
        return "made"
    if f["par"] == "out":
        return "6" if r == "void" else "(%s, 6)" % SHOWN[r]
    return {"attr": "100100", "op": "S", "neg": "S", "iop": "S", "eq": "True", "lt": "True", "str": "'x'", "copy": "S", "dtor": "None", "setattr": "None",
            "conv": "None", "len": "3", "vmeth": "11" if r == "int" else "None"}.get(k, SHOWN[r])


def decls(h, x):
    """The C++ side of one function: (members of T, the rest before, after)."""
    n, k = x["name"], x["kind"]
    pt = PAR[x["par"]][0]
    rt, _, ret = RES[x["res"]]
    body = "%s(\"%s\");%s%s" % ("body" if x["throws"] else "quiet", n, " p = 6;" if x["par"] == "out" else " delete p;" if x["par"] == "give" else "", " " + ret if ret else "")
    if k in ("func", "fmeth"):
        p = "T *self" + (", " + pt if pt else "") if k == "fmeth" else pt
        return "", "", "inline %s %s(%s) { %s }" % (rt, n, p, body)
    if k == "over":
        return "", "", "inline %s %s(std::vector<int> const &) { std::abort(); } inline %s %s(%s) { %s }" % (rt, n, rt, n, pt, body)
    if k == "meth":
        return "%s %s(%s) { %s }" % (rt, n, pt, body), "", ""
    if k == "static":
        return "static %s %s(%s) { %s }" % (rt, n, pt, body), "", ""
    if k == "call":
        return "%s operator()(%s) { %s }" % (rt, pt, body), "", ""
    if k == "len":
        return "int size_%s() { %s(\"%s\"); return 3; }" % (n, "body" if x["throws"] else "quiet", n), "", ""
    if k == "ctor":
        return "", "", "struct %s { int v = 1; %s(%s) { %s } };" % (n, n, pt, body)
    if k == "hctor":
        return "", "", "struct %s { int v = 1; %s(%s) { %s } virtual ~%s() {} virtual int who() { return 1; } };" % (n, n, pt, body, n)
    if k == "fctor":
        return "", "", "struct %s { int v = 1; }; inline %s *make_%s(%s) { %s return new %s; }" % (n, n, n, pt, body, n)
    if k == "prot":
        return "", "protected: virtual %s %s(%s) { %s } public:" % (rt, n, pt, body), ""
    if k == "attr":
        return "int get_%s() const { quiet(\"%s\"); return 100100; }" % (n, n), "", ""
    if k == "setattr":
        return "int get_%s() const { return 1; } void set_%s(int) { quiet(\"%s\"); }" % (n, n, n), "", ""
    s = "struct S_%s { int v = 2; S_%s() {} " % (n, n)
    if k in ("op", "neg", "iop", "eq", "lt"):
        return "", "", s + {"op": "S_{0} operator+(S_{0} const &) const {{ quiet(\"{0}\"); return S_{0}(); }}", "neg": "S_{0} operator-() const {{ quiet(\"{0}\"); return S_{0}(); }}",
                            "iop": "S_{0} &operator+=(S_{0} const &) {{ quiet(\"{0}\"); return *this; }}",
                            "eq": "bool operator==(S_{0} const &) const {{ quiet(\"{0}\"); return true; }}",
                            "lt": "bool operator<(S_{0} const &) const {{ quiet(\"{0}\"); return true; }}"}[k].format(n) + " };"
    if k == "str":
        return "", "", s + "}}; inline std::ostream &operator<<(std::ostream &o, S_{0} const &) {{ quiet(\"{0}\"); return o << \"x\"; }}".format(n)
    if k == "copy":
        return "", "", s + "S_{0}(S_{0} const &) {{ quiet(\"{0}\"); }} }};".format(n)
    if k == "dtor":
        return "", "", s + "~S_{0}() {{ quiet(\"{0}\"); }} }};".format(n)
    if k == "conv":
        return "", "", s + "S_{0}(Thing const &) {{ quiet(\"{0}\"); }} }}; inline void use_{0}(S_{0} const &) {{}}".format(n)
    raise KeyError(k)


def header(h):
    out = [COMMON]
    mem, pro, rest = [], [], []
    for x in h["fns"]:
        if x["kind"] == "vmeth":
            continue
        a, b, c = decls(h, x)
        mem.append(a), pro.append(b), rest.append(c)
    vs = []
    for v in h["virts"]:
        d = {"public": "", "protected": "protected: "}[v["vis"]]
        b = "%s(\"%s\");" % ("body" if v["throws"] else "quiet", v["name"])
        vs.append("%svirtual %s %s()%s public:" % (d, v["ret"], v["name"], " = 0;" if v["pure"] else " { %s%s }" % (b, " return 11;" if v["ret"] == "int" else "")))
        vs.append("%s do_%s() { %s%s(); }" % (v["ret"], v["name"], "return " if v["ret"] == "int" else "", v["name"]))
    out.append("struct T { int v = 1; %s };" % " ".join(m for m in mem if m))
    out.append("struct D { int w = 1; D() {} virtual ~D() {} %s %s };" % (" ".join(vs), " ".join(p for p in pro if p)))
    out += rest
    out.append("static D *held; inline void hold(D *d) { held = d; }")
    out.append("static std::string ctl_virt(int k) {\n  switch (k) {")
    for i, v in enumerate(h["virts"], 1):
        out.append("  case %d: %s" % (i, "return std::to_string(held->do_%s());" % v["name"] if v["ret"] == "int" else "held->do_%s(); return \"void\";" % v["name"]))
    out.append("  }\n  return \"?\";\n}")
    out.append(r"""static void ctl_do(std::string const &c)
{
  if (c.compare(0, 4, "virt") == 0) {
    std::string s;
    try { s = ctl_virt(std::atoi(c.c_str() + 4)); } catch (Err const &) { s = "Err"; }
    ctl_say(s);
  } else if (c.compare(0, 7, "destroy") == 0) {
    Pet *p = pets.back();
    pets.pop_back();
    delete p;
  }
}""")
    return "\n".join(out) + "\n"


def gen(name, h):
    g = [HEAD]
    if h["settings"]:
        g.append("settings.unblock_threads = True")
    g += ["m = Module('%s')" % name, "m.add_include('\"%s.h\"')" % name, "m.add_include('<memory>')",
          "err = m.add_exception('Err', message_rvalue='%(EXC)s.what()')",
          "th = m.add_class('Thing')", "th.add_constructor([param('int','v')], unblock_threads=False)", "th.add_constructor([param('const Thing&','o')], unblock_threads=False)", "th.add_instance_attribute('v','int')",
          "m.add_container('std::vector< std::string >', retval('std::string'), 'vector')", "m.add_container('std::vector<int>', retval('int'), 'vector')",
          "pet = m.add_class('Pet', allow_subclassing=True)", "pet.add_constructor([], unblock_threads=False)", "pet.add_method('legs', retval('int'), [], is_virtual=True)",
          "m.add_function('take', None, [param('Pet*','p',transfer_ownership=True)], unblock_threads=False)",
          "m.add_function('npets', retval('int'), [], unblock_threads=False)",
          "t = m.add_class('T')", "t.add_constructor([], unblock_threads=False)",
          "d = m.add_class('D', allow_subclassing=True)", "d.add_constructor([], unblock_threads=False)"]
    for v in h["virts"]:
        g.append("d.add_method('%s', %s, [], is_virtual=True, is_pure_virtual=%s, visibility='%s'%s%s)" % (
            v["name"], "retval('int')" if v["ret"] == "int" else "None", v["pure"], v["vis"], ", throw=[err]" if v["throws"] else "", opt(v)))
    g.append("m.add_function('hold', None, [param('D*','d',transfer_ownership=False)], unblock_threads=False)")
    for x in h["fns"]:
        n, k = x["name"], x["kind"]
        ps = PAR[x["par"]][1]
        r = RES[x["res"]][1]
        o = (", throw=[err]" if x["throws"] else "") + opt(x)
        if k == "func":
            g.append("m.add_function('%s', %s, [%s]%s)" % (n, r, ps, o))
        elif k == "over":
            g += ["m.add_function('%s', %s, [param('const std::vector<int>&','q')]%s)" % (n, r, o), "m.add_function('%s', %s, [%s]%s)" % (n, r, ps, o)]
        elif k == "fmeth":
            g.append("t.add_function_as_method('%s', %s, [param('T*','self',transfer_ownership=False)%s]%s)" % (n, r, ", " + ps if ps else "", o))
        elif k in ("meth", "static"):
            g.append("t.add_method('%s', %s, [%s]%s%s)" % (n, r, ps, ", is_static=True" if k == "static" else "", o))
        elif k == "call":
            g.append("t.add_method('operator()', %s, [%s], custom_name='__call__'%s)" % (r, ps, o))
        elif k == "len":
            g.append("t.add_method('size_%s', retval('int'), [], custom_name='__len__'%s)" % (n, o))
        elif k == "ctor":
            g += ["c = m.add_class('%s')" % n, "c.add_constructor([%s]%s)" % (ps, o)]
        elif k == "hctor":
            g += ["c = m.add_class('%s', allow_subclassing=True)" % n, "c.add_constructor([%s]%s)" % (ps, o), "c.add_method('who', retval('int'), [], is_virtual=True)"]
        elif k == "fctor":
            g += ["c = m.add_class('%s')" % n, "c.add_function_as_constructor('make_%s', retval('%s*',caller_owns_return=True), [%s]%s)" % (n, n, ps, o)]
        elif k == "prot":
            g.append("d.add_method('%s', %s, [%s], is_virtual=True, visibility='protected'%s)" % (n, r, ps, o))
        elif k == "attr":
            g.append("t.add_instance_attribute('%s', 'int', getter='get_%s', is_const=True)" % (n, n))
        elif k == "setattr":
            g.append("t.add_instance_attribute('%s', 'int', getter='get_%s', setter='set_%s')" % (n, n, n))
        elif k == "vmeth":
            pass
        else:
            c = "S_%s" % n
            g += ["c = m.add_class('%s')" % c, "c.add_constructor([], unblock_threads=False)"]
            if k in ("op", "neg", "iop"):
                g.append("c.add_copy_constructor()")
            if k == "op":
                g.append("c.add_binary_numeric_operator('+')")
            elif k == "neg":
                g.append("c.add_unary_numeric_operator('-')")
            elif k == "iop":
                g.append("c.add_inplace_numeric_operator('+=')")
            elif k == "eq":
                g.append("c.add_binary_comparison_operator('==')")
            elif k == "lt":
                g.append("c.add_binary_comparison_operator('<')")
            elif k == "str":
                g.append("c.add_output_stream_operator()")
            elif k == "copy":
                g.append("c.add_copy_constructor()")
            elif k == "conv":
                g += ["c.add_constructor([param('const Thing&','t')], unblock_threads=False)", "th.implicitly_converts_to(c)", "m.add_function('use_%s', None, [param('const %s&','s')], unblock_threads=False)" % (n, c)]
    g.append("with open(sys.argv[1], 'wt') as f: m.generate(FileCodeSink(f))")
    return "\n".join(g) + "\n"


def opt(x):
    return ", unblock_threads=" + x["decl"] if x["decl"] else ""
