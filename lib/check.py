"""Verdicts, evidence and known findings of one check run."""
import json, os, re, sys, time, traceback
import pbg

EVID = os.path.join(pbg.VERIF, "evidence")
KNOWN = os.path.join(pbg.VERIF, "known-findings.txt")


def load_known():
    """Lines `known: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []           # (key, text, replay object)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.parts = {}

    # ---- coverage
    def tlc(self, r, name=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        if name:
            self.parts.setdefault("tlc_runs", []).append({"model": name, "distinct": r.distinct, "generated": r.states,
                                                          "depth": r.depth, "wall_s": round(r.wall, 1)})

    def traces(self, n, steps=0):
        self.cov["traces_validated_against_impl"] += n
        self.parts["impl_steps"] = self.parts.get("impl_steps", 0) + steps

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def note(self, k, v):
        self.parts[k] = v

    def add(self, k, v):
        self.parts[k] = self.parts.get(k, 0) + v

    # ---- verdicts
    def violation(self, key, text, replay=None):
        key = re.sub(r"\s+", "_", key)
        self.viol.append((key, text, replay))

    def replay_failures(self, name, tests, fails):
        for f in fails:
            t = tests[f["test"]]
            st = f["step"]
            act = t[st]["a"] if 0 <= st < len(t) else {"op": "end"}
            what = f.get("diff") or f.get("got")
            self.violation("%s:%s:%s" % (name, f["kind"], act.get("op")),
                           "%s: %s at step %d %s: %s" % (name, f["kind"], st, json.dumps(act), str(what)[:1200]),
                           {"model": name, "behaviour": t[:st + 1], "failure": f})

    def conform(self, name, adapter, dirs, tests, params=None, sample=True, **kw):
        fails, steps = pbg.replay(adapter, dirs, tests, params=params, **kw)
        self.traces(len(tests), steps)
        if sample and tests:
            self.sample({"model": name, "behaviour": [s["a"] for s in tests[0]][:12]})
        self.replay_failures(name, tests, fails)
        return fails

    def validate(self, name, module, constants, events, crash=None, chunk=None):
        """Recorded events against the trace specification."""
        n = sum(1 for e in events if e["a"].get("op") == "reset") or 1
        ok, at, r = pbg.validate_trace(module, constants, events) if events else (True, None, None)
        if r:
            self.tlc(r, name + " (trace)")
        self.traces(n, len(events))
        if not ok:
            lo = max([i for i in range(at + 1) if i < len(events) and events[i]["a"].get("op") == "reset"] or [0])
            ev = events[at] if at < len(events) else None
            self.violation("%s:trace:%s" % (name, ev["a"].get("op") if ev else "?"),
                           "%s: recorded event %d is not a step the specification allows: %s" % (name, at, json.dumps(ev)),
                           {"model": name, "history": events[lo:at + 1]})
        if crash:
            last = events[-1] if events else None
            self.violation("%s:crash" % name, "%s: %s after %s" % (name, crash, json.dumps(last)),
                           {"model": name, "history": events[-40:], "crash": crash})

    def finish(self):
        known = load_known()
        os.makedirs(EVID, exist_ok=True)
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        bad, shown = 0, set()
        bykey = {}
        for k, text, rp in self.viol:
            bykey.setdefault(k, []).append((text, rp))
        for i, (k, items) in enumerate(sorted(bykey.items())):
            text, rp = items[0]
            kk = known.get((self.pid, k))
            if kk is not None:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kk))
                continue
            bad += 1
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": k, "text": text, "count": len(items), "replay": rp}, f, indent=1, default=str)
            if bad <= 12:
                print("  [%s] (x%d) %s" % (k, len(items), text[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        self.cov.update(self.parts)
        ev = {"property": self.pid, "tier": pbg.TIER if pbg.TIER in ("quick", "thorough") else "quick", "seed": pbg.SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": bad}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %s (%d states, %d transitions, %d traces, %.1fs)" % (
            self.pid, "VIOLATED" if bad else "ok", self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 1 if bad else 0


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
    except pbg.BuildFailure as e:
        # a definition which this tree accepts and compiles no longer does
        c.violation("build:" + e.stage, "the fixture no longer builds: %s" % e, {"stage": e.stage, "detail": e.detail})
    except pbg.MachineryError as e:
        if c.viol:
            traceback.print_exc()
        else:
            sys.stderr.write("MACHINERY: %s\n" % e)
            sys.exit(3)
    sys.exit(c.finish())
