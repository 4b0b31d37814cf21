"""Whatever way a call ends, it gives back what it acquired."""
import pbg, _calls as K, _overrides as V


def run(c):
    q = not pbg.THOROUGH
    K.run(c, K.every_param() + K.every_return() + K.random_sigs(K.rng(9), 250 if q else 1500), ["leak"])
    V.run(c, V.every() + V.random_sigs(K.rng(90), 60 if q else 500, 4 if q else 5), ["leak"])
