"""Source of the object-lifetime fixture: instrumented C++ classes, one per memory policy, and their registration.

Objects are given consecutive ids by the C++ side, their memory is never reused (a destroyed object can be
recognised for ever), and the counters are read through ctypes, i.e. not through the code under test."""

KINDS = {  # name: (owner kind, allow_subclassing)
    "P": ("plain", False), "H": ("plain", True), "F": ("free", False),
    "R": ("refm", False), "G": ("refm", True), "K": ("refm", True), "Q": ("reff", False), "S": ("shared", False),
    "J": ("reff", True), "E": ("free", True),
}

PRELUDE = r'''
#pragma once
#include <map>
#include <vector>
#include <memory>
#include <cstdlib>
#include <typeinfo>
#include <stdexcept>
struct Book {
    int next;
    std::map<const void*, int> live;      // address -> id
    std::map<int, int> created, destroyed, refs;
    int bad;                              // operations on something which is not a live object
    Book() : next(0), bad(0) {}
    int born(const void *p) { int id = ++next; live[p] = id; created[id]++; return id; }
    void died(const void *p, int id) { if (live.count(p) && live[p] == id) live.erase(p); else bad++; destroyed[id]++; }
    int seen(const void *p) { if (!p) return 0; return live.count(p) ? live[p] : -1; }
    int ident(const void *p) { if (!p) return 0; if (!live.count(p)) { bad++; return -1; } return live[p]; }
};
inline Book& book() { static Book *b = new Book; return *b; }
'''

CLASS = r'''
class {N} {{
public:
    int m_id; int m_val; int m_refs;
    {N}() : m_val(0), m_refs(1) {{ m_id = book().born(this); }}
    {N}({N} const &o) : m_val(o.m_val), m_refs(1) {{ if (book().ident(&o) != o.m_id) book().bad++; m_id = book().born(this); }}
    {virt}~{N}() {{ book().died(this, m_id); }}
    static void* operator new(size_t n) {{ return malloc(n); }}
    static void operator delete(void *) {{}}      // quarantine: addresses are never reused
    int id() const {{ return book().ident(this); }}
    int get() const {{ book().ident(this); return m_val; }}
    void set(int v) {{ book().ident(this); m_val = v; }}
    {virt}int vget(int d) const {{ book().ident(this); return m_val + d; }}
    {extra}
}};
'''

REFM = '''
    void Ref() { book().ident(this); ++m_refs; book().refs[m_id] = m_refs; }
    void Unref() { if (book().ident(this) != m_id) return; --m_refs; book().refs[m_id] = m_refs; if (m_refs == 0) delete this; }
    int GetRefs() { return m_refs; }
'''

FUNCS = r'''
inline {PTR} *{N}_slots() {{ static {PTR} s[4]; return s; }}
#define {N}_slot {N}_slots()
inline void {N}_give(int s, {PTR} o) {{ {N}_slot[s] = o; }}
inline {PTR} {N}_take(int s) {{ {PTR} p = {N}_slot[s]; {N}_slot[s] = {NIL}; return p; }}
inline {PTR} {N}_borrow(int s) {{ return {N}_slot[s]; }}
inline {PTR} {N}_make() {{ {MAKE} }}
inline {N} {N}_value(int s) {{ return *{N}_slot[s]; }}
inline int {N}_byval({N} o) {{ return o.m_val; }}
inline int {N}_bycref({N} const &o) {{ return o.id(); }}
inline int {N}_byref({N} &o) {{ return o.id(); }}
inline void {N}_seth(int s, int v) {{ {N}_slot[s]->set(v); }}
inline int {N}_vcall(int s, int d) {{ return {N}_slot[s]->vget(d); }}
'''

UNIQUE = r'''
inline {N}& {N}_bref(int s) {{ return *{N}_slot[s]; }}
inline {N} const & {N}_cref(int s) {{ return *{N}_slot[s]; }}
inline {N} const * {N}_cptr(int s) {{ return {N}_slot[s]; }}
inline void {N}_lend(int s, {N} *o) {{ {N}_slot[s] = o; }}
inline int {N}_ident({N} *o) {{ return book().seen(o); }}
inline void {N}_fill({N} &o) {{ o.set(7); }}
static void {N}_drop(int s) {{ {DROP} {N}_slot[s] = 0; }}
'''

SHARED_REF = r'''
inline void {N}_keep(int s, {N} *o) {{ {INC} {N}_slot[s] = o; }}
inline {N} *{N}_take_manual(int s) {{ {N} *p = {N}_slot[s]; {N}_slot[s] = 0; return p; }}
inline {N} *{N}_dup(int s) {{ {N} *o = {N}_slot[s]; {INC} return o; }}
inline int {N}_ident({N} *o) {{ return book().seen(o); }}
static void {N}_drop(int s) {{ {N} *o = {N}_slot[s]; {N}_slot[s] = 0; {DEC} }}
'''

SHARED_PTR = r'''
inline int {N}_ident({PTR} o) {{ return book().seen(o.get()); }}
static void {N}_drop(int s) {{ {N}_slot[s].reset(); }}
'''

CTL = r'''
extern "C" int bk_next() { return book().next; }
extern "C" int bk_bad() { return book().bad; }
extern "C" int bk_created(int i) { return book().created.count(i) ? book().created[i] : 0; }
extern "C" int bk_destroyed(int i) { return book().destroyed.count(i) ? book().destroyed[i] : 0; }
extern "C" int bk_refs(int i) { return book().refs.count(i) ? book().refs[i] : 1; }
extern "C" void bk_reset() { Book &b = book(); b.next = 0; b.bad = 0; b.created.clear(); b.destroyed.clear(); b.refs.clear(); b.live.clear(); %s }
%s
'''


def header():
    out = [PRELUDE]
    ctl, resets = [], []
    for n, (own, sub) in KINDS.items():
        virt = "virtual " if sub else ""
        extra = REFM if own == "refm" else ""
        out.append(CLASS.format(N=n, virt=virt, extra=extra))
        ptr = "std::shared_ptr<%s>" % n if own == "shared" else "%s*" % n
        make = "return std::make_shared<%s>();" % n if own == "shared" else "return new %s;" % n
        if own == "shared":
            make = "return std::shared_ptr<%s>(new %s);" % (n, n)
        out.append(FUNCS.format(N=n, PTR=ptr, MAKE=make, NIL=ptr + "()" if own == "shared" else "0"))
        if own == "free":
            out.append("inline void %s_free(%s *o) { delete o; }" % (n, n))
            out.append("inline %s *%s_new() { return new %s; }" % (n, n, n))
        if own in ("plain", "free"):
            out.append(UNIQUE.format(N=n, DROP="delete %s_slot[s];" % n))
        elif own == "refm":
            out.append(SHARED_REF.format(N=n, INC="o->Ref();", DEC="o->Unref();"))
        elif own == "reff":
            out.append("inline void %s_ref(%s *o) { book().ident(o); ++o->m_refs; book().refs[o->m_id] = o->m_refs; }" % (n, n))
            out.append("inline void %s_unref(%s *o) { if (book().ident(o) != o->m_id) return; --o->m_refs; book().refs[o->m_id] = o->m_refs;"
                       " if (o->m_refs == 0) delete o; }" % (n, n))
            out.append("inline int %s_count(%s *o) { return o->m_refs; }" % (n, n))
            out.append(SHARED_REF.format(N=n, INC="%s_ref(o);" % n, DEC="%s_unref(o);" % n))
        elif own == "shared":
            out.append(SHARED_PTR.format(N=n, PTR=ptr))
        if own == "shared":
            ctl.append('extern "C" int bk_%s_slot(int s) { return book().seen(%s_slot[s].get()); }' % (n, n))
            resets.append("for (int i = 0; i < 4; i++) %s_slot[i].reset();" % n)
        else:
            ctl.append('extern "C" int bk_%s_slot(int s) { return book().seen(%s_slot[s]); }' % (n, n))
            resets.append("for (int i = 0; i < 4; i++) %s_slot[i] = 0;" % n)
        ctl.append('extern "C" void bk_%s_drop(int s) { %s_drop(s); }' % (n, n))
        ctl.append('extern "C" int bk_%s_vcall(int s, int d) { return %s_vcall(s, d); }' % (n, n))
        ctl.append('extern "C" void bk_%s_forget(int s) { %s_slot[s] = 0; }' % (n, n))
    # reset the book last: dropping shared pointers updates it
    out.append(CTL % ("", "\n".join(ctl)))
    out.append('extern "C" void bk_reset_all() { %s bk_reset(); }' % " ".join(resets))
    return "\n".join(out)


GEN = r'''
import sys
import pybindgen
from pybindgen import Module, FileCodeSink, retval, param, cppclass
from pybindgen.typehandlers.smart_ptr import StdSharedPtr
KINDS = @KINDS@
name, registry, out, part = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else ""
import zlib
from pybindgen import wrapper_registry
if registry == "map":
    pybindgen.settings.wrapper_registry = wrapper_registry.StdMapWrapperRegistry
mod = Module(name + ("b" if part == "b" else ""))
mod.add_include('"life.h"')
add_function = mod.add_function


def divide(f, r, params, **kw):
    # the functions of each class are in either module
    if not part or "ab"[zlib.crc32(kw.get("custom_name", f).encode()) % 2] == part:
        add_function(f, r, params, **kw)


mod.add_function = divide
for n, (own, sub) in KINDS.items():
    kw = dict(allow_subclassing=True) if sub else {}
    if own == "free":
        kw["free_function"] = n + "_free"
    elif own == "refm":
        kw["memory_policy"] = cppclass.ReferenceCountingMethodsPolicy("Ref", "Unref", "GetRefs" if n != "K" else None)
    elif own == "reff":
        kw["memory_policy"] = cppclass.ReferenceCountingFunctionsPolicy(n + "_ref", n + "_unref", *([n + "_count"] if sub else []))
    elif own == "shared":
        kw["memory_policy"] = StdSharedPtr("::" + n)
    if part == "b":
        kw["import_from_module"] = name
    c = mod.add_class(n, **kw)
    c.add_constructor([])
    c.add_copy_constructor()
    c.add_method("id", retval("int"), [], is_const=True)
    c.add_method("get", retval("int"), [], is_const=True)
    c.add_method("set", None, [param("int", "v")])
    c.add_method("vget", retval("int"), [param("int", "d")], is_const=True, is_virtual=sub)
    S = param("int", "s")
    if own in ("plain", "free"):
        P = n + "*"
        mod.add_function(n + "_give", None, [S, param(P, "o", transfer_ownership=True)])
        mod.add_function(n + "_take", retval(P, caller_owns_return=True), [S])
        mod.add_function(n + "_make", retval(P, caller_owns_return=True), [])
        mod.add_function(n + "_borrow", retval(P, reference_existing_object=True), [S])
        mod.add_function(n + "_borrow", retval(P, caller_owns_return=False), [S], custom_name=n + "_peek")
        mod.add_function(n + "_bref", retval(n + "&", reference_existing_object=True), [S])
        mod.add_function(n + "_bref", retval(n + "&", caller_owns_return=False), [S], custom_name=n + "_rcopy")
        mod.add_function(n + "_cref", retval("const " + n + "&", reference_existing_object=True), [S])
        mod.add_function(n + "_cptr", retval("const " + P, reference_existing_object=True), [S])
        mod.add_function(n + "_cptr", retval("const " + P, caller_owns_return=False), [S], custom_name=n + "_cpeek")
        mod.add_function(n + "_cref", retval("const " + n + "&", caller_owns_return=False), [S], custom_name=n + "_crcopy")
        mod.add_function(n + "_borrow", retval(P, caller_owns_return=False, caller_manages_return=False), [S], custom_name=n + "_unmanaged")
        mod.add_function(n + "_lend", None, [S, param(P, "o", transfer_ownership=False)])
        mod.add_function(n + "_ident", retval("int"), [param(P, "o", transfer_ownership=False, null_ok=True)])
        mod.add_function(n + "_fill", None, [param(n + "&", "o", direction=2)])
    elif own in ("refm", "reff"):
        P = n + "*"
        mod.add_function(n + "_give", None, [S, param(P, "o", transfer_ownership=True)])
        mod.add_function(n + "_keep", None, [S, param(P, "o", transfer_ownership=False)])
        mod.add_function(n + "_take", retval(P, caller_owns_return=True), [S])
        mod.add_function(n + "_dup", retval(P, caller_owns_return=True), [S])
        mod.add_function(n + "_make", retval(P, caller_owns_return=True), [])
        mod.add_function(n + "_borrow", retval(P, caller_owns_return=False), [S])
        mod.add_function(n + "_ident", retval("int"), [param(P, "o", transfer_ownership=False, null_ok=True)])
    else:
        P = "std::shared_ptr<%s>" % n
        mod.add_function(n + "_give", None, [S, param("::" + P.replace("<S>", "< ::S >"), "o")]) if 0 else \
            mod.add_function(n + "_give", None, [S, param("std::shared_ptr< ::%s >" % n, "o")])
        mod.add_function(n + "_take", retval("std::shared_ptr< ::%s >" % n), [S])
        mod.add_function(n + "_borrow", retval("std::shared_ptr< ::%s >" % n), [S])
        mod.add_function(n + "_make", retval("std::shared_ptr< ::%s >" % n), [])
        mod.add_function(n + "_ident", retval("int"), [param("std::shared_ptr< ::%s >" % n, "o")])
    mod.add_function(n + "_value", retval(n), [S])
    mod.add_function(n + "_byval", retval("int"), [param(n, "o")])
    mod.add_function(n + "_bycref", retval("int"), [param("const %s&" % n, "o")])
    mod.add_function(n + "_byref", retval("int"), [param("%s&" % n, "o")])
f = open(out, "wt")
mod.generate(FileCodeSink(f))
f.close()
'''


def gen():
    return GEN.replace("@KINDS@", repr(KINDS))
