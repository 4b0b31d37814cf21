PROPS = []
NOT_APPLICABLE = {}
TECH = "TLA+ specification checked with TLC; "
REPLAY = "every transition of its state graph replayed on modules generated and compiled from the tree"
TRACE = "; recorded random histories validated against the specification"


def P(id, title, statement, over, quant, why, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=TECH + technique, note=note, **kw))


P("C01", "Objects with one owner are destroyed exactly once, by that owner",
  "A C++ object that Python constructed, was given by a function whose caller owns the return value, or received as a copy is destroyed exactly "
  "once, when the last Python reference to it goes away, and not before. Passing it with transferred ownership makes C++ the owner, so that the "
  "wrapper no longer destroys it (nor refers to it) and C++ may later destroy it or hand it back; an object Python merely borrowed (existing object "
  "referenced, return value not managed) or lent is never destroyed by the wrapper. The same holds for classes destroyed through a free function "
  "and for instances of Python subclasses.",
  ["histories", "configurations"],
  "every sequence of constructions, transfers in both directions, borrowing and lending calls, copies, deletions of Python references, garbage "
  "collections and C++-side destructions; with and without wrapper registry, with and without Python subclassing",
  "The tests make single calls and do not count constructions and destructions; leaks and double frees after a sequence of transfers are invisible to them.",
  ["pybindgen/cppclass.py", "pybindgen/wrapper_registry.py", "pybindgen/function.py"],
  [("wrapper flags and memory policy clean-up", "pybindgen/cppclass.py: MemoryPolicy subclasses, write_allocate_pystruct, tp_dealloc/tp_clear generation"),
   ("ownership of parameters and return values", "pybindgen/cppclass.py: CppClassPtrParameter, CppClassPtrReturnValue, CppClassReturnValue, CppClassRefReturnValue")],
  REPLAY + TRACE,
  "exhaustive for 2-3 objects, 2-3 Python variables and 1-2 C++ variables; random histories with up to 8 objects; trusts the instrumented C++ classes and CPython's gc.collect()")

P("C02", "Reference counted objects live exactly as long as something refers to them",
  "For classes with reference counting methods, reference counting functions or std::shared_ptr, each wrapper that refers to an object accounts for exactly one "
  "reference, acquired when the wrapper is made and released when it goes away. Passing or returning a reference with or without transfer leaves "
  "the object's reference count equal to the number of wrappers plus the number of references C++ holds, so that the object is destroyed exactly "
  "when the last of them is gone. This also holds for Python subclasses of such classes, whose cycle with their C++ half the garbage collector ends "
  "when the class can tell its reference count.",
  ["histories", "configurations"],
  "every sequence of constructions, passing and returning of references, copies, deletions, collections and C++-side releases, for each memory policy, with and without wrapper registry",
  "The tests never look at reference counts after a sequence of calls; a lost or surplus reference shows only as a leak or a crash much later.",
  ["pybindgen/cppclass.py", "pybindgen/typehandlers/smart_ptr.py"],
  [("reference counting policies", "pybindgen/cppclass.py: ReferenceCountingMethodsPolicy, ReferenceCountingFunctionsPolicy, write_incref/write_decref"),
   ("smart pointer policy", "pybindgen/typehandlers/smart_ptr.py")],
  REPLAY + TRACE,
  "exhaustive for 2-3 objects, 2 Python variables and 2 C++ variables for 5 policies x 2 registries; the object's own reference counter is read through ctypes")

P("C03", "A C++ object keeps one Python identity while it has a wrapper",
  "With a wrapper registry, every function that returns a pointer or reference to an existing object gives the same Python object as long as a wrapper of it exists, "
  "whether that wrapper was made by a constructor or by another function, and never gives a wrapper of an object that has been destroyed. An instance of a Python "
  "subclass always comes back from C++ as that very instance, with its attributes and overridden methods, with or without a registry.",
  ["histories", "configurations"],
  "every sequence of constructions, transfers, lookups through C++, deletions and collections, for owned, reference counted and smart-pointer classes",
  "The tests compare identity after one call; stale or missing registry entries appear only after particular sequences of deletions, transfers and collections.",
  ["pybindgen/wrapper_registry.py", "pybindgen/cppclass.py"],
  [("wrapper registry", "pybindgen/wrapper_registry.py: StdMapWrapperRegistry"),
   ("helper class keeps its Python half", "pybindgen/cppclass.py: CppHelperClass, m_pyself")],
  REPLAY + TRACE,
  "exhaustive for 2 objects, 3 Python variables and 1 C++ variable; random histories with 8 objects and 4 variables")


P("C06", "Overrides exchange with their C++ callers exactly the values declared, and fail cleanly",
  "When C++ calls a virtual method that a Python class overrides, the override receives the values of the IN and INOUT parameters, unchanged and in order (class references and pointers with output as the "
  "object itself, a null pointer as None); its answer - None, one value, or a tuple of the return value followed by the OUT and INOUT values - reaches the C++ caller as return value and output "
  "parameters, and changes to lent objects reach the caller's objects. An answer of a wrong shape or type, or an exception, is reported once by its own class; then a void method returns, another "
  "answers what its C++ implementation answers, and a pure one whose result cannot be made up ends the process. Objects an override keeps stay valid, with the values at the end of the call.",
  ["inputs", "configurations"],
  "every supported parameter type and direction alone and random combinations of up to five, every return type, pure or not, const, public, protected or private; every accepted and refused value, raising, "
  "tuples too long or too short, kept arguments",
  "The tests override methods with a few types and well-behaved bodies; wrong conversions appear per type, direction and order, and dangling objects only after failures or when arguments are kept.",
  ["pybindgen/typehandlers/base.py", "pybindgen/cppclass.py", "pybindgen/cppmethod.py", "pybindgen/typehandlers/inttype.py", "pybindgen/typehandlers/stringtype.py", "pybindgen/typehandlers/booltype.py", "pybindgen/container.py", "pybindgen/typehandlers/smart_ptr.py"],
  [("reverse wrapper", "pybindgen/typehandlers/base.py: ReverseWrapperBase.generate"),
   ("conversions", "convert_c_to_python of parameters and convert_python_to_c of return values in pybindgen/typehandlers, cppclass.py and container.py"),
   ("proxy", "pybindgen/cppmethod.py: CppVirtualMethodProxy")],
  "all calls of generated tables of methods in Override.tla (what is seen, answered, kept, reported), replayed through drivers compiled with the generated proxies",
  "values are representative per type; who owns an object given to an override that fails is not defined and only judged on pure methods; fatal ends are observed in forked children")

P("C07", "Arguments reach the parameters they name, and results come back in declaration order",
  "A wrapped function, method, static method, constructor, call operator, function-as-method or function-as-constructor accepts exactly the calls its "
  "declaration describes: the parameters that take input (IN and INOUT), positionally in their order or by keyword, those with a default value being optional; "
  "missing, surplus, duplicate or unknown arguments raise TypeError and C++ is not called. Each C++ parameter receives the argument given for it or its default. "
  "The call returns None, the only value, or a tuple that has the C++ return value first and then the values of the OUT and INOUT parameters in declaration order.",
  ["inputs", "configurations"],
  "every signature over the parameter kinds, directions and defaults, every split of the arguments into positional, keyword and omitted ones",
  "The tests call a few dozen fixed signatures, mostly positionally; the position of a result or the binding of a keyword after an optional OUT parameter is not covered.",
  ["pybindgen/typehandlers/base.py", "pybindgen/function.py", "pybindgen/cppmethod.py"],
  [("argument parsing and result building", "pybindgen/typehandlers/base.py: ParseTupleParameters, BuildValueParameters, ForwardWrapperBase.generate_body"),
   ("kinds of callables", "pybindgen/function.py, pybindgen/cppmethod.py: CppMethod, CppConstructor, CppFunctionAsConstructor, CustomCppMethodWrapper")],
  "every call Call.tla describes for each signature (all splits of the arguments) made on modules generated and compiled from the tree",
  "exhaustive over the splits of the arguments of each signature with up to 4 (thorough 5) parameters; signatures: fixed list for each kind of callable and seeded random ones")

P("C08", "Values cross the border unchanged or are refused before C++ is called",
  "For each supported type (integers of all widths and spellings, bool, floating point, strings, enums, classes by value, reference and pointer, shared_ptr, "
  "containers, arrays, PyObject) and each position (parameter by value, reference or pointer with each direction, return value, attribute, container element, "
  "parameter and result of a Python override) a value that the C++ type can hold arrives equal on the other side. An argument of the wrong type or out of range raises "
  "an exception and C++ is not called, except that unsigned integers (other than 8 and 16 bit ones by value) may be taken modulo 2^n.",
  ["inputs"],
  "every value at and around the ends of the range of every integer type in every position; for the other types representative good and bad values",
  "The tests pass small values that fit every type; truncation, sign extension, off-by-one range checks and values written to the wrong place need boundary values in each position.",
  ["pybindgen/typehandlers/inttype.py", "pybindgen/typehandlers/booltype.py", "pybindgen/typehandlers/floattype.py", "pybindgen/typehandlers/stringtype.py",
   "pybindgen/cppclass.py", "pybindgen/container.py", "pybindgen/enum.py"],
  [("type handlers", "pybindgen/typehandlers/*.py: convert_python_to_c, convert_c_to_python"), ("class and container handlers", "pybindgen/cppclass.py, pybindgen/container.py")],
  "every crossing Scalar.tla describes (values s*2^e+o around all range ends, 35 spellings, 19 positions) and every value of Call.tla's table made on modules generated and compiled from the tree",
  "integers: all values within 2 of the powers of two that bound any type, and non-integers; other types: 1-3 accepted and 0-3 refused values each")

P("C09", "Every way out of a call gives back what the call acquired",
  "However a call of a wrapper ends - success, an argument that does not bind, an argument refused at any position, a C++ exception - the wrapper neither leaks nor "
  "over-releases: the reference counts of the arguments, the number of live C++ objects, Python objects and heap memory are afterwards what the call's own meaning implies "
  "(a repeated call does not make them grow), and the interpreter does not crash. Copies made for the call, temporaries for OUT parameters, references acquired for "
  "reference counted parameters and results already built are released.",
  ["inputs", "fault points"],
  "every signature over the parameter kinds x every argument position at which conversion can fail x C++ exceptions x every split of arguments",
  "The tests do not measure leaks, and hardly ever make a call fail after some of its arguments have been converted.",
  ["pybindgen/typehandlers/base.py", "pybindgen/cppclass.py", "pybindgen/container.py", "pybindgen/typehandlers/stringtype.py"],
  [("cleanup on error paths", "pybindgen/typehandlers/base.py: CodeBlock.add_cleanup_code, write_error_check, write_error_return"),
   ("parameter handlers that allocate", "pybindgen/cppclass.py, pybindgen/container.py, pybindgen/typehandlers/stringtype.py")],
  "every call Call.tla describes, with invariant Balanced, made repeatedly on modules generated and compiled from the tree while counters of objects, blocks and heap bytes are read",
  "leaks below one object or block per call, or 16 bytes per call, are not seen; the ownership of objects given to a function that then throws is not defined and not called")

P("C10", "C++ exceptions become exactly the Python exceptions declared for them",
  "A C++ exception thrown by a function, method, static method, call operator, function-as-method or constructor declared to throw it raises in Python the exception registered for the first "
  "declared class that matches (base classes match derived exceptions, in declaration order), with the message the C++ object gives, and that Python exception derives from the Python "
  "exceptions of its declared base; std::exception-style standard errors become the named built-in exception. Nothing of a result is returned, and the interpreter stays usable, "
  "also when the call released the interpreter lock.",
  ["inputs", "configurations"],
  "every order of declared exceptions (plain, derived, in a namespace, nested in a class, standard, renamed) x every thrown exception x kinds of callables, results and parameters x unblock_threads",
  "The tests throw two exception classes from a few functions; order of clauses, nested and foreign classes and releasing what the call holds are not covered.",
  ["pybindgen/cppexception.py", "pybindgen/typehandlers/base.py", "pybindgen/module.py"],
  [("catch clauses", "pybindgen/typehandlers/base.py: ForwardWrapperBase.generate_body, write_call_with_retval; pybindgen/cppexception.py"),
   ("exception classes", "pybindgen/cppexception.py: CppException.generate")],
  "every call of Call.tla in which a declared (or derived) exception is thrown, made on modules generated and compiled from the tree",
  "8 exception classes with two levels of inheritance; seeded random declaration orders of up to 8 clauses; exceptions not declared (which end the process) are not thrown")

P("C04", "Wards live as long as their custodians, and no longer",
  "After a call that declares a custodian and a ward (self, parameters, the result; custodian=, return_internal_reference or add_custodian_and_ward; before or after the call; in functions, methods, "
  "virtual, inherited and overloaded ones, constructors), the ward lives as long as its custodian does: through any chain of custodians, whatever is equal to it, and however the Python classes of both "
  "redefine equality or attribute access. It goes with its last custodian unless a variable holds it, circles are collected, and where there is no circle the C++ object of a custodian is destroyed "
  "before those of its wards. None or absent arguments bind nothing; refused calls bind nothing; an object that cannot keep wards makes the call raise a proper exception.",
  ["histories", "configurations"],
  "every history of calls that bind lifetimes and of dropped references over several objects and classes, with chains, circles, objects bound to themselves and results dropped at once",
  "The tests bind one ward to one custodian and look once; equal wards, chains, circles, the order of destruction, inherited and overloaded wrappers are never examined.",
  ["pybindgen/cppclass.py", "pybindgen/cppmethod.py", "pybindgen/function.py"],
  [("custodians and wards", "pybindgen/cppclass.py: scan_custodians_and_wards, _add_ward, implement_parameter_custodians_precall, implement_parameter_custodians_postcall"),
   ("registration", "add_custodian_and_ward in pybindgen/cppmethod.py and pybindgen/function.py"),
   ("order of destruction", "pybindgen/cppclass.py: _generate_gc_methods")],
  REPLAY,
  "three objects at a time in two or three variables; wrappers do not share a C++ object; deleting __wards__ from Python and copies of custodians are outside")

P("C05", "Virtual calls reach the most derived override, and super() its parent, in both languages",
  "For a class that allows subclassing, a C++ call of a virtual method (public, protected or private, declared in the class or any wrapped base, renamed or not) on an instance "
  "of a Python subclass runs the override of the most derived Python class; without an override it runs the nearest C++ implementation. The method called through super(), or through "
  "the instance without override, runs the next Python override or the nearest C++ implementation, never the calling override again. Calls nest arbitrarily. "
  "An exception in, or a result of the wrong type from, an override called by C++ is printed and does not stay pending: void methods return, others answer with the C++ implementation's result; "
  "called from Python it propagates. All of this also holds for an object that is owned by C++ and whose Python variable is gone.",
  ["inputs", "configurations", "histories"],
  "every hierarchy of up to four C++ classes with declared, inherited, pure, protected, private and renamed virtual methods that call each other, up to three Python levels overriding any "
  "of them with bodies that call self, super() or C++, raise, or return a wrong value; entered from C++ or Python",
  "The tests override single methods of a few classes one level deep; infinite recursion, a wrong implementation or a pending exception need inherited methods, nesting or failing overrides.",
  ["pybindgen/cppclass.py", "pybindgen/cppmethod.py", "pybindgen/typehandlers/base.py"],
  [("helper class and proxies", "pybindgen/cppclass.py: CppHelperClass; pybindgen/cppmethod.py: CppVirtualMethodProxy, CppVirtualMethodParentCaller, CppMethod.generate_call"),
   ("reverse wrapper", "pybindgen/typehandlers/base.py: ReverseWrapperBase")],
  "programs executed by the stack machine of Dispatch.tla (log of frames, results, printed errors) and on classes generated and compiled from the tree",
  "single overrides exhaustive, combinations seeded random; recursion cut after 9 frames; overrides undeclared to pybindgen are out of scope; programs that C++ cannot continue (no implementation to answer) are excluded by the specification")

P("C11", "Class hierarchies convert in Python as they do in C++",
  "An object is accepted wherever its class, any C++ base of it (first or not, direct or not) or - by value or const reference - a class it implicitly converts to is expected, and C++ "
  "gets exactly that subobject or conversion; anything else is a TypeError. isinstance mirrors the C++ inheritance. Methods and attributes of every base work on the object's own data. "
  "By value and const reference slices; objects handed over by pointer and given back owned (or of reference counted classes) come back, with automatic type narrowing, as the nearest wrapped class, "
  "otherwise as the class declared. This holds across namespaces, for nested classes, in any order of registration, for classes C++ derives without telling, and for Python subclasses.",
  ["inputs", "configurations"],
  "every hierarchy (chains, trees and multiple inheritance over several classes, some unwrapped, some in other namespaces) x every argument class x every parameter and return form x narrowing on or off",
  "The tests use a handful of hierarchies one or two levels deep, where the base subobject has the address of the object and registration order is the order of modules.",
  ["pybindgen/cppclass.py", "pybindgen/typehandlers/base.py", "pybindgen/module.py", "pybindgen/pytypeobject.py"],
  [("bases and type objects", "pybindgen/cppclass.py: CppClass.generate, _write_type_ready, PyMetaclass, get_object_expression"),
   ("type narrowing", "pybindgen/cppclass.py: TypeMap in generate_typeid_map, get_type_narrowing_root; implicitly_converts_to")],
  "all expressions of Hierarchy.tla over the configured hierarchies, replayed on modules generated and compiled from the tree",
  "no virtual inheritance; pointers C++ keeps owning, of classes without counting, keep their static class; multiple inheritance is not combined with reference counting or subclassing; subclasses imported from other modules are not combined with multiple inheritance")

P("C12", "Attributes are the C++ data, exactly",
  "Reading an attribute in Python gives the value the C++ member has (or its getter method or function gives) at that moment, as an independent copy for classes by value and containers; writing "
  "converts the value and changes exactly that member of exactly that object, seen by C++ at once; a value that does not convert, an attribute that is const, deleting, and names C++ does not "
  "know raise and change nothing. Static attributes have one value per C++ class, read and written through the class, derived classes and Python subclasses. Derived classes have the attributes "
  "of all bases and may redeclare names. Copies of objects have data of their own, and values read outlive the object.",
  ["inputs", "histories", "configurations"],
  "every history of reads, writes, refused writes, deletions, C++ changes, copies and transfers over attributes of every supported type x every way to declare them x class hierarchies",
  "The tests read and write a few int and string attributes; refused writes, deletions, containers, custom accessors of most types and redeclared names are not covered.",
  ["pybindgen/cppattribute.py", "pybindgen/cppcustomattribute.py", "pybindgen/cppclass.py", "pybindgen/container.py"],
  [("getters and setters", "pybindgen/cppattribute.py: CppInstanceAttributeGetter, CppInstanceAttributeSetter, CppStaticAttributeGetter, CppStaticAttributeSetter; pybindgen/cppcustomattribute.py"),
   ("metaclass of static attributes", "pybindgen/cppattribute.py: PyMetaclass; pybindgen/cppclass.py: _write_type_ready")],
  "all histories of Attributes.tla over seeded tables that together have every type in every kind of declaration, replayed on modules generated and compiled from the tree",
  "two objects; static attributes of bases other than the first are not looked up through the derived class; pointer attributes are not covered")

P("C13", "The first overload that takes the arguments is called, and only it",
  "Calling a name with several overloads (functions, methods, static and virtual methods, constructors, call operators, functions used as methods or constructors, custom wrappers) calls, exactly "
  "once, the first one in the order of registration whose parameters the arguments bind and convert to, with the values converted for it and defaults for what is absent - also when another one, "
  "or C++ itself, would take them as well. Overloads that are tried and do not fit leave nothing behind: no pending exception, no reference, no object, no transferred ownership. The C++ exception "
  "of the chosen overload reaches the caller without another overload being tried. When none fits, TypeError tells one reason for each overload, in order.",
  ["inputs", "configurations"],
  "every set of overloads (kind of callable, number and types of parameters, optional ones, output and in/out ones, exceptions) x every combination of positional and keyword arguments",
  "The tests call a few two-member sets; the choice between similar types, exceptions of the chosen overload and what failed tries leave behind are never examined.",
  ["pybindgen/overloading.py", "pybindgen/function.py", "pybindgen/cppmethod.py", "pybindgen/cppclass.py", "pybindgen/typehandlers/inttype.py"],
  [("overload dispatch", "pybindgen/overloading.py: OverloadedWrapper.generate, generate_call"),
   ("overloads of virtual methods", "pybindgen/cppmethod.py: CppOverloadedMethod, CppVirtualMethodParentCaller"),
   ("arguments of C++ calls", "pybindgen/typehandlers/inttype.py and others: convert_python_to_c")],
  "the specification's prediction for every call compared with the real call, on modules with seeded sets of overloads generated and compiled from the tree",
  "sets of 2-4 overloads with up to 3 parameters; values are those that tell the overloads apart")

P("C14", "Operators, comparisons and str() do what the registered C++ operators do",
  "A Python expression with + - * / (and +=, -=, *=, /=, unary -) on wrapped objects and numbers calls, exactly once, the first registered C++ operator, in order, whose operand types take the "
  "operands as they stand, in the class of either operand (a subclass's own operators first, inherited ones too), and gives its result as an object or number; no operand changes, += and the like "
  "bind their target anew. Comparisons call the registered comparison of the class, or the mirrored one of the other operand; comparing with what the class does not know gives False / True by "
  "identity for == / != and TypeError otherwise, never a wrong conversion or a crash. str() is everything the output stream operator writes.",
  ["inputs", "histories", "configurations"],
  "every pair of operand classes (unrelated, derived, several bases, Python subclasses, numbers, other values, objects that imitate a class) x every set of registered operators x histories of "
  "results used as operands, with aliases",
  "The tests use one class with operators, whose operands and results are all of this class; the choice between operators, reflected and inherited operators and refusals are not covered.",
  ["pybindgen/cppclass.py", "pybindgen/pytypeobject.py", "pybindgen/converter_functions.py"],
  [("operator registration and slots", "pybindgen/cppclass.py: add_binary_numeric_operator, add_inplace_numeric_operator, add_unary_numeric_operator, _generate_number_methods"),
   ("comparison and str", "pybindgen/cppclass.py: _generate_tp_richcompare, _generate_str"),
   ("value converters", "pybindgen/converter_functions.py")],
  REPLAY,
  "seeded tables of 1-3 classes, values modulo 3; classes that get numeric operators or comparisons only from a base that is not their first are not covered (CPython does not inherit those slots)")

P("C15", "Containers cross between Python and C++ whole, in order, and as copies; iteration gives their contents",
  "A C++ container made from a Python list, or passed by value, reference or pointer, set as an attribute, returned, or given out of a call, holds exactly the elements it was made from, in the order "
  "the C++ container has, and is a copy: what happens to one side later does not show on the other. A list with an element that does not convert (or what is no list of that kind) raises the element's "
  "exception, calls no C++ and changes nothing. Iterating a container, or a class with container traits (also derived, nested or subclassed in Python), gives each element once, in C++ order, as a copy; the "
  "iterator keeps the container alive as long as needed, and iterators that their container refers to are collected with it. Nothing leaks; a list that changes while it is converted does no harm.",
  ["inputs", "histories", "configurations"],
  "every kind of container x element and key type x way it is declared (C++ name, typedef, namespace, inside a class, custom name) x ways it is passed x histories of making, passing, getting, iterating "
  "and dropping containers and iterators",
  "The tests pass one vector, one map, and iterate one class; other kinds and elements, failing elements, life times of iterators, names and derived classes are not covered.",
  ["pybindgen/container.py", "pybindgen/cppclass_container.py", "pybindgen/converter_functions.py", "pybindgen/module.py"],
  [("containers and their parameters", "pybindgen/container.py"), ("iteration of classes", "pybindgen/cppclass_container.py"),
   ("element converters", "pybindgen/converter_functions.py; pybindgen/module.py: generate_python_to_c_type_converter")],
  REPLAY,
  "contents of up to 3 elements; which of several values of one key stays, and what C++ containers changed while they are iterated do, is not said; queue, stack and priority_queue (no iterators) are not covered")

P("C16", "Objects with the sequence protocol and calls behave like the C++ methods behind them",
  "Where methods (or functions as methods, or overloads) of a class are registered as __len__, __getitem__, __setitem__, __contains__, __add__, __mul__, __iadd__, __imul__ or __call__, then len(x), x[i], "
  "x[i] = v, v in x, iteration, reversed, bool, x + y, x * n, x += y, x *= n and x(...) call that C++ method exactly once on the object with the values given and deliver what it returns; negative indices "
  "count from the end where there is a length. An index out of range raises IndexError, however the method says so, and what C++ throws arrives as that exception. Arguments that do not convert (also indices "
  "too big for the C++ type), del x[i], slices and wrong operands raise an exception, do not reach C++ and change nothing. Classes that inherit the methods, in C++ or Python, behave alike, and nothing leaks.",
  ["inputs", "histories", "configurations"],
  "every subset of the methods x element type x index type x the way the class is declared (plain, subclassed in Python, derived, first of two bases, nested, in a namespace) x ways a method is registered "
  "(method, virtual, function, overloaded) x ways of saying that an index is out of range x histories of operations on two objects, with and without exceptions",
  "The tests use one class with a vector of doubles and few of its operations; exceptions, sizes beyond int, del, overloaded and inherited methods are not covered.",
  ["pybindgen/pytypeobject.py", "pybindgen/cppclass.py"],
  [("sequence slots", "pybindgen/pytypeobject.py: PySequenceMethods"), ("registering special methods", "pybindgen/cppclass.py: _add_method_obj, add_function_as_method, _generate_methods"),
   ("calls", "pybindgen/cppclass.py: tp_call")],
  REPLAY,
  "up to 3 elements; methods that only a base other than the first has are not inherited (CPython slots); a __len__ that returns a negative number, and methods that return other types than these names ask for, are not said")
P("C17", "Threads: the interpreter lock is held by all Python code, and by C++ code unless declared otherwise",
  "While C++ code called from Python runs, other Python threads can run exactly if unblock_threads is set for that function, method or constructor (or in the settings, and not unset there); in operators, attribute "
  "getters and setters, copies, conversions and destructors they cannot. The generated code itself uses Python only with the lock. Virtual methods called by C++ - from a thread with or without the lock, or one "
  "that Python does not know - run the Python override with the lock; with no override, or one that fails, the C++ default runs as its caller did. However a call ends (return, declared exception, "
  "override that raises, refused protected method) the caller finds the lock as it was, other threads are not stuck, and no reference is left. C++ may destroy objects of Python classes on any thread.",
  ["schedules", "histories", "inputs", "configurations"],
  "every interleaving of two or three threads (Python's, C++'s own) over nested activations: Python -> C++ -> override -> C++ ..., each ending in every way it can x kinds of wrapper "
  "(function, overload, method, static, __call__, __len__, constructors of plain and subclassable classes, functions as constructors and as methods, protected and virtual methods, operators, attributes, copies, "
  "conversions, destructors) x settings, parameters and results to convert",
  "The tests run in one thread: unblock_threads is not checked to let anybody run, nor that the lock is back in every error path, nor that C++ threads can call overrides.",
  ["pybindgen/typehandlers/base.py", "pybindgen/cppmethod.py", "pybindgen/function.py", "pybindgen/cppclass.py", "pybindgen/settings.py"],
  [("lock in wrappers", "pybindgen/typehandlers/base.py: ForwardWrapperBase.generate_body, write_restore_threads"), ("lock in virtual methods", "pybindgen/typehandlers/base.py: ReverseWrapperBase._generate_gil_code; pybindgen/cppmethod.py: CppVirtualMethodProxy"),
   ("exceptions", "pybindgen/cppmethod.py: generate_call, CppVirtualMethodParentCaller; pybindgen/function.py"), ("helper classes", "pybindgen/cppclass.py: CppHelperClass")],
  REPLAY,
  "threads interleave where C++ or Python code waits, not between single machine instructions; up to 4 nested activations per thread and 3 threads; PYTHONMALLOC=debug tells of allocations without the lock")

P("C18", "A module has what was registered, where and as it was registered, and nothing else",
  "After generation and compilation, each namespace, class, function, method, attribute, enumeration value, typedef, exception and container that was registered is found in the Python scope it was registered in, "
  "under the name it was given (custom name, C++ name, without the prefix functions share with their scope), with its own name, module, base classes and docstring, and it is that item and no other, however similar the names of others are "
  "in other scopes; functions that use a type by its full C++ name or an alias use that type. Nothing else (but the iterator types of containers) is there. This does not depend on the order of registration, on splitting the output "
  "in sections, on Python's hash seed, or on other items that the error handler skipped: alone or among the overloads of good ones.",
  ["histories", "inputs", "configurations"],
  "histories of up to 32 registrations in nested namespaces and classes with names drawn from small pools (the same names in several scopes, names that are equal when put together) x registration orders x one file or sections x hash seeds",
  "The tests register one fixed set of names in a fixed order; no two scopes share names there, and no test looks at what else is in a module.",
  ["pybindgen/module.py", "pybindgen/cppclass.py", "pybindgen/function.py", "pybindgen/cppmethod.py", "pybindgen/overloading.py", "pybindgen/enum.py", "pybindgen/cppexception.py", "pybindgen/container.py", "pybindgen/typehandlers/base.py"],
  [("scopes and sections", "pybindgen/module.py: ModuleBase.do_generate, register_type, begin_section, _MultiSectionSinkManager"), ("names", "pybindgen/module.py: _add_function_obj; pybindgen/cppclass.py: _update_names, get_python_name, generate_typedef"),
   ("types by name", "pybindgen/typehandlers/base.py: TypeMatcher"), ("error handling", "pybindgen/utils.py: call_with_error_handling; pybindgen/overloading.py")],
  REPLAY,
  "histories are drawn at random by TLC (simulation); classes whose names differ only in case or in where '::' is (a::K and AK) have the same C identifiers and do not compile together: names like these are not drawn")

P("C19", "Types imported from another module are those types",
  "When a module registers classes with import_from_module (also under other Python names, with 'module named X', from a namespace of the other module), and wraps classes that derive from them, functions that take or return them, "
  "and conversions from and to them, then everything holds that holds when all the classes are in one module: each class is one type, the base classes in Python are those in C++, arguments of a class and of the classes derived from it are "
  "taken and all others refused, conversions apply, results come as the most derived wrapped class that a module knows, attributes and methods reach the right object, Python overrides of virtual methods are called wherever they were declared, exceptions pass, and objects are destroyed once. The module imports "
  "without the other having been imported first, whatever the namespace of the classes.",
  ["inputs", "histories", "configurations"],
  "class hierarchies of C11 and of C05 x ways to divide the classes over two modules x Python names x which module has the functions x every transition of the model",
  "One test imports one class; none derives across modules in a namespace, converts or narrows.",
  ["pybindgen/cppclass.py", "pybindgen/module.py", "pybindgen/typehandlers/base.py", "pybindgen/wrapper_registry.py"],
  [("import", "pybindgen/cppclass.py: _generate_import_from_module"), ("readiness", "pybindgen/cppclass.py: _write_type_ready; pybindgen/module.py: do_generate"),
   ("typeid maps", "pybindgen/cppclass.py: register_wrapper/typeid_map of imported classes")],
  REPLAY,
  "two modules; classes nested in classes cannot be imported by this version and are not drawn; one layout (a second base in another module) fails and is a known finding")
