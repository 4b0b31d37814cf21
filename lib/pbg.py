"""Common machinery: environment, TLC runs, building extension modules from /repo, replaying behaviours."""
from __future__ import annotations
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, textwrap, threading, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBG_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = max(1, min(8, os.cpu_count() or 1))
_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def child_env(**extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "CFLAGS", "CXXFLAGS"))}
    env.update(HOME="/root", LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PATH="/opt/pybindgen-tools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               PYTHONPATH=REPO)
    env.update(extra)
    return env


_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    """One scratch directory per run, removed at exit."""
    global _scratch
    with _scratch_lock:
        return _scratch1()


def _scratch1():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pbgv-")
        owner = os.getpid()

        def _rm(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        if not os.environ.get("PBG_KEEP"):
            atexit.register(_rm)
        else:
            sys.stderr.write("scratch: %s\n" % _scratch)
    return _scratch


def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


# --------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.out = ""
        self.ok = False          # finished with no error
        self.violated = None     # name of the violated invariant/property, if any
        self.error = None        # other error text
        self.states = 0          # states generated
        self.distinct = 0
        self.depth = 0
        self.lines = []          # JSON values printed by the specification
        self.wall = 0.0


def tlc(module, cfg, *, workers=None, simulate=None, depth=None, timeout=600, env=None, extra=(), heap="4g",
        specdir=None):
    """Run TLC on spec/<module>.tla with the text `cfg`."""
    specdir = specdir or SPEC
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfgp = os.path.join(meta, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", _CP, "tlc2.TLC",
           "-workers", str(workers or 1), "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE",
           "-config", cfgp]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += list(extra) + [os.path.join(specdir, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    outp = os.path.join(meta, "out")
    with open(outp, "w") as of:
        try:
            p = subprocess.run(cmd, stdout=of, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
    r = TlcResult()
    r.wall = time.time() - t0
    rest = []
    with open(outp) as f:
        for line in f:
            if line.startswith('"{') or line.startswith('"['):
                r.lines.append(json.loads(json.loads(line)))
            else:
                rest.append(line)
    r.out = "".join(rest)
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", r.out, re.M)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"^The number of states generated: ([\d,]+)", r.out, re.M)
    if m:       # simulation
        r.states = int(m[-1].replace(",", ""))
    m = re.findall(r"The depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m[-1])
    m = re.search(r"Error: (?:Invariant|Action property|Temporal properties?|Property) ?(\w+)? ?(?:is|was|were) violated", r.out)
    if m:
        r.violated = m.group(1) or "temporal"
    elif "Error:" in r.out:
        r.error = r.out[r.out.index("Error:"):][:3000]
    r.ok = p.returncode == 0 and not r.violated and not r.error
    shutil.rmtree(meta, ignore_errors=True)
    return r


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "[%s]" % ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items())
    raise TypeError(v)


def cfg(constants=None, *, spec="Spec", invariants=(), properties=(), view=None, emit=False, constraint=None,
        deadlock=False, postcondition=None, symmetry=None):
    s = ["SPECIFICATION " + spec]
    if constants:
        s.append("CONSTANTS")
        for k, v in constants.items():
            if isinstance(v, str) and v.startswith("<-"):
                s.append("  %s <- %s" % (k, v[2:].strip()))
            else:
                s.append("  %s = %s" % (k, tla(v)))
    for i in invariants:
        s.append("INVARIANT " + i)
    for i in properties:
        s.append("PROPERTY " + i)
    if view:
        s.append("VIEW " + view)
    if constraint:
        s.append("CONSTRAINT " + constraint)
    if emit:
        s.append("ACTION_CONSTRAINT " + (emit if isinstance(emit, str) else "Emit"))
    if postcondition:
        s.append("POSTCONDITION " + postcondition)
    if symmetry:
        s.append("SYMMETRY " + symmetry)
    s.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(s) + "\n"


def explore(module, constants, invariants, *, properties=(), timeout=600, constraint=None, **kw):
    """Exhaustive TLC run which also prints every transition; returns (result, edges)."""
    r = tlc(module, cfg(constants, invariants=invariants, properties=properties, view="View", emit=True,
                        constraint=constraint), timeout=timeout, **kw)
    if r.violated:
        raise MachineryError("%s: the specification violates its own property %s\n%s" % (module, r.violated, r.out[-3000:]))
    if not r.ok:
        raise MachineryError("%s: TLC failed\n%s" % (module, (r.error or r.out)[-3000:]))
    return r, r.lines


# --------------------------------------------------------------------------- state graph -> tests

def key(v):
    return json.dumps(v, sort_keys=True)


def transition_tour(edges, rng, max_len=40, max_tests=None):
    """Tests (lists of {a,o}) from the initial state that together take every transition of the graph.

    Greedy: follow uncovered edges; when the current state has none, go by a shortest path to the nearest
    state which has, unless the test has become too long."""
    from collections import deque
    succ = {}
    order = []
    for e in edges:
        k = key(e["s"])
        if k not in succ:
            succ[k] = []
            order.append(k)
        succ[k].append((key(e["t"]), e["a"], e["o"]))
    if not order:
        return []
    seen = set()
    for k in succ:
        uniq, out = set(), []
        for x in succ[k]:
            u = (x[0], key(x[1]), key(x[2]))
            if u not in uniq:
                uniq.add(u)
                out.append(x)
        succ[k] = out
    init = order[0]
    uncovered = {k: list(range(len(v))) for k, v in succ.items()}
    for v in uncovered.values():
        rng.shuffle(v)
    total = sum(len(v) for v in uncovered.values())

    def path_to_uncovered(start):
        if uncovered.get(start):
            return []
        q, prev = deque([start]), {start: None}
        while q:
            k = q.popleft()
            for i, (t, a, o) in enumerate(succ.get(k, ())):
                if t not in prev:
                    prev[t] = (k, i)
                    if uncovered.get(t):
                        path = []
                        c = t
                        while prev[c] is not None:
                            path.append(prev[c])
                            c = prev[c][0]
                        return path[::-1]
                    q.append(t)
        return None

    tests = []
    left = total
    while left:
        cur, test = init, []
        while True:
            p = path_to_uncovered(cur)
            if p is None or (test and len(test) + len(p) >= max_len):
                break
            for k, i in p:
                t, a, o = succ[k][i]
                test.append({"a": a, "o": o})
                cur = t
            i = uncovered[cur].pop()
            left -= 1
            t, a, o = succ[cur][i]
            test.append({"a": a, "o": o})
            cur = t
            if len(test) >= max_len:
                break
        if not test:
            raise MachineryError("transition tour: unreachable transitions")
        tests.append(test)
        if max_tests and len(tests) >= max_tests:
            break
    return tests


def random_walks(edges, rng, n, length):
    succ = {}
    first = None
    for e in edges:
        k = key(e["s"])
        first = first or k
        succ.setdefault(k, []).append(e)
    tests = []
    for _ in range(n):
        cur, test = first, []
        while len(test) < length and succ.get(cur):
            e = rng.choice(succ[cur])
            test.append({"a": e["a"], "o": e["o"]})
            cur = key(e["t"])
        tests.append(test)
    return tests


# --------------------------------------------------------------------------- building extension modules

class BuildFailure(Exception):
    """The code generator, or the compilation of what it generated, failed."""
    def __init__(self, stage, detail):
        Exception.__init__(self, "%s failed: %s" % (stage, detail[-1500:]))
        self.stage, self.detail = stage, detail


_pyinc = None


def py_include():
    global _pyinc
    if _pyinc is None:
        _pyinc = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                                         env=child_env(PYTHONPATH=""), text=True).strip()
    return _pyinc


def run_generator(script, outdir, args=(), env=None, timeout=300):
    """Run a generator script (path) with /repo's pybindgen; it writes its output below outdir."""
    p = subprocess.run([PY, "-W", "ignore", script] + list(args), cwd=outdir, env=child_env(**(env or {})),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildFailure("generate", p.stdout[-500:] + p.stderr[-3000:])
    return p.stdout


# the generated code is for any of them; modules that share headers get the same one
STDS = ["gnu++14", "gnu++17", "gnu++20"]


def compile_so(name, sources, outdir, flags=(), timeout=600):
    so = os.path.join(outdir, name + ".so")
    cmd = ["g++", "-std=" + STDS[(zlib.crc32(name.rstrip("0123456789").encode()) + SEED) % len(STDS)], "-O0", "-w", "-fPIC", "-shared", "-I/opt/pybindgen-tools/include", "-I" + py_include(),
           "-I" + outdir] + list(flags) + ["-o", so] + list(sources)
    p = subprocess.run(cmd, cwd=outdir, env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    if p.returncode != 0:
        raise BuildFailure("compile", p.stdout[:3000])
    return so


def build(name, header, genscript, *, sources=(), outdir=None, flags=(), env=None):
    """header: C++ text written to <name>.h; genscript: Python text, run with argv [output .cc path]."""
    d = outdir or subdir("build-" + name)
    os.makedirs(d, exist_ok=True)
    if header is not None:
        with open(os.path.join(d, name + ".h"), "w") as f:
            f.write(header)
    gp = os.path.join(d, name + "_gen.py")
    with open(gp, "w") as f:
        f.write(genscript)
    cc = os.path.join(d, name + "_module.cc")
    run_generator(gp, d, [cc], env=env)
    compile_so(name, [cc] + list(sources), d, flags)
    return d


def build_many(jobs):
    """jobs: list of (key, callable). Returns {key: result or BuildFailure}. Parallel."""
    res = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = {ex.submit(fn): k for k, fn in jobs}
        for f in cf.as_completed(futs):
            try:
                res[futs[f]] = f.result()
            except BuildFailure as e:
                res[futs[f]] = e
    return res


# --------------------------------------------------------------------------- replay

def replay(adapter, builddirs, tests, *, params=None, timeout=300, jobs=None, stop_after=25, env=None):
    """Run `tests` through fixtures/<adapter>.py in subprocesses. Returns list of failures
    {test, step, kind, expected, got} and the number of executed steps."""
    jobs = jobs or NPROC
    n = len(tests)
    if n == 0:
        return [], 0
    jobs = min(jobs, n)
    chunks = [list(range(i, n, jobs)) for i in range(jobs)]
    fails, steps = [], 0

    def one(chunk):
        return _replay_chunk(adapter, builddirs, tests, chunk, params, timeout, stop_after, env)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f, s in ex.map(one, chunks):
            fails += f
            steps += s
    return fails, steps


def _replay_chunk(adapter, builddirs, tests, chunk, params, timeout, stop_after, env):
    fails, steps = [], 0
    todo = list(chunk)
    d = tempfile.mkdtemp(prefix="rp-", dir=scratch())
    while todo and len(fails) < stop_after:
        inp = os.path.join(d, "in.json")
        outp = os.path.join(d, "out")
        with open(inp, "w") as f:
            json.dump({"params": params, "tests": [[i, tests[i]] for i in todo]}, f)
        open(outp, "w").close()
        pp = os.pathsep.join([REPO] + list(builddirs))
        try:
            p = subprocess.run([PY, "-X", "faulthandler", os.path.join(VERIF, "lib", "runner.py"),
                                os.path.join(VERIF, "fixtures", adapter), inp, outp],
                               env=child_env(PYTHONPATH=pp, **(env or {})), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout)
            rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, err = "timeout", (e.stderr or b"").decode("utf-8", "replace")
        cur, step, done = None, None, set()
        finished = ended = False
        for line in open(outp):
            try:
                ev = json.loads(line)
            except ValueError:
                continue
            if ev["e"] == "begin":
                cur, step, ended = ev["t"], -1, False
            elif ev["e"] == "step":
                step = ev["i"]
            elif ev["e"] == "ok":
                steps += ev["n"]
                done.add(cur)
                cur = None
            elif ev["e"] == "fail":
                steps += ev["step"]
                fails.append({"test": cur, "step": ev["step"], "kind": "mismatch", "expected": ev.get("expected"),
                              "got": ev.get("got"), "diff": ev.get("diff")})
                done.add(cur)
                cur, ended = None, bool(ev.get("ends"))
            elif ev["e"] == "initfail":
                return [{"test": todo[0], "step": 0, "kind": "init", "got": ev["msg"][-1500:]}], steps
            elif ev["e"] == "end":
                finished = True
        if finished:
            break
        if cur is None and ended:
            todo = [t for t in todo if t not in done]     # the adapter gave up, and said why
            continue
        if cur is None and not done and not fails:
            return [{"test": todo[0], "step": 0, "kind": "init", "got": "process ended: %s %s" % (rc, err[-1500:])}], steps
        if cur is None:
            # died between tests: attribute to the end of the last one
            last = [t for t in todo if t in done]
            if not last:
                raise MachineryError("replay of %s: no progress (%s): %s" % (adapter, rc, err[-2000:]))
            fails.append({"test": last[-1], "step": len(tests[last[-1]]) , "kind": "crash", "got": "process ended: %s %s" % (rc, err[-600:])})
        else:
            fails.append({"test": cur, "step": max(step, 0), "kind": "crash" if rc != "timeout" else "hang",
                          "got": "process ended: %s %s" % (rc, err[-600:])})
            done.add(cur)
        todo = [t for t in todo if t not in done]
    return fails, steps


def record(adapter, builddirs, params, timeout=300, env=None):
    """Run the adapter's record(params) in a subprocess: returns list of events (dicts), and crash text or None."""
    d = tempfile.mkdtemp(prefix="rec-", dir=scratch())
    inp, outp = os.path.join(d, "in.json"), os.path.join(d, "out")
    with open(inp, "w") as f:
        json.dump({"params": params, "record": True}, f)
    open(outp, "w").close()
    pp = os.pathsep.join([REPO] + list(builddirs))
    try:
        p = subprocess.run([PY, "-X", "faulthandler", os.path.join(VERIF, "lib", "runner.py"),
                            os.path.join(VERIF, "fixtures", adapter), inp, outp],
                           env=child_env(PYTHONPATH=pp, **(env or {})), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", (e.stderr or b"").decode("utf-8", "replace")
    evs, finished = [], False
    for line in open(outp):
        try:
            ev = json.loads(line)
        except ValueError:
            continue
        if ev.get("e") == "end":
            finished = True
        elif ev.get("e") in ("initfail", "recfail"):
            return evs, ev["msg"][-1500:]
        else:
            evs.append(ev)
    if not finished:
        return evs, "process ended: %s %s" % (rc, err[-800:])
    return evs, None


def validate_trace(module, constants, events, timeout=600):
    """events: list of {"a":..., "o":...} lines ("a".op == "reset" starts a new history).
    Returns (accepted, index of the first rejected event, TlcResult)."""
    p = os.path.join(tempfile.mkdtemp(prefix="trace-", dir=scratch()), "trace.ndjson")
    with open(p, "w") as f:
        for e in events:
            f.write(json.dumps({"a": e["a"], "o": e["o"]}) + "\n")
    r = tlc(module, cfg(constants, spec="TraceSpec", postcondition="TraceAccepted"), env={"TRACE": p}, timeout=timeout)
    if r.ok:
        return True, None, r
    if "TraceAccepted" in r.out or r.violated == "TraceAccepted":
        return False, r.depth - 1, r
    if r.error and "Attempted to" in r.error and "Trace" in r.error:
        return False, max(r.depth - 1, 0), r
    raise MachineryError("%s: trace validation failed to run\n%s" % (module, (r.error or r.out)[-3000:]))
