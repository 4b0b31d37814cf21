import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "..", "lib"), here, os.path.join(here, "..", "fixtures")]
import check
pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
check.main(pid, mod.run, getattr(mod, "LEVEL", "model_checking"))
