"""Runs inside a subprocess with the interpreter the extension modules are built for.

usage: runner.py ADAPTER.py IN.json OUT"""
import importlib.util, json, os, sys, traceback


def diff(exp, got, path=""):
    """First few differences between two JSON values; keys missing from `exp` are not compared."""
    out = []
    if exp == "?":      # not determined
        return out
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in exp:
            if k not in got:
                out.append("%s.%s: expected %r, absent" % (path, k, exp[k]))
            else:
                out += diff(exp[k], got[k], path + "." + k)
    elif isinstance(exp, list) and isinstance(got, list):
        if len(exp) != len(got):
            out.append("%s: expected %r, got %r" % (path, exp, got))
        else:
            for i, (a, b) in enumerate(zip(exp, got)):
                out += diff(a, b, "%s[%d]" % (path, i + 1))
    elif type(exp) != type(got) or exp != got:
        out.append("%s: expected %r, got %r" % (path, exp, got))
    return out


def main():
    adapter, inp, outp = sys.argv[1:4]
    job = json.load(open(inp))
    out = open(outp, "a")

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()
    sys.path.insert(0, os.path.dirname(adapter))
    try:
        spec = importlib.util.spec_from_file_location("adapter", adapter)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["adapter"] = mod
        spec.loader.exec_module(mod)
        sut = mod.Adapter(job.get("params") or {})
    except BaseException:
        emit(e="initfail", msg=traceback.format_exc())
        return 1
    if job.get("record"):
        try:
            sut.record(lambda a, o: emit(a=a, o=o))
        except BaseException:
            emit(e="recfail", msg=traceback.format_exc())
            return 1
        emit(e="end")
        out.close()
        os._exit(0)
    for tid, test in job["tests"]:
        emit(e="begin", t=tid)
        n = 0
        bad = False
        try:
            sut.reset()
            # adapters that cannot stop between steps run the whole test
            whole = sut.whole([st["a"] for st in test]) if hasattr(sut, "whole") else None
            for i, st in enumerate(test):
                if whole is None:
                    emit(e="step", i=i)
                got = sut.step(st["a"]) if whole is None else whole[i]
                got = json.loads(json.dumps(got))
                if st.get("o") is not None:
                    d = diff(st["o"], got)
                    if d:
                        emit(e="fail", step=i, expected=st["o"], got=got, diff=d[:6])
                        bad = True
                        break
                n += 1
            if not bad:
                emit(e="step", i=len(test))
                msg = sut.finish()
                if msg:
                    emit(e="fail", step=len(test), expected="clean end", got=msg, diff=[str(msg)])
                    bad = True
        except BaseException:
            # an adapter turns the exceptions it expects into results: anything else is a difference too
            emit(e="fail", step=n, expected=test[n]["o"] if n < len(test) else "clean end",
                 got=traceback.format_exc(), diff=[traceback.format_exc().strip().splitlines()[-1]])
            bad = True
        if bad:
            try:
                sut.abandon()
            except Exception:
                pass
        else:
            emit(e="ok", n=n)
    emit(e="end")
    out.close()
    os._exit(0)


main()
