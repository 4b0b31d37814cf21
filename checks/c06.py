"""Python overrides and their C++ callers exchange values as declared."""
import random
import pbg, _overrides as V


def run(c):
    q = not pbg.THOROUGH
    V.run(c, V.every() + V.random_sigs(random.Random(pbg.SEED * 1000 + 6), 80 if q else 600, 4 if q else 5), ["exc", "seen", "res", "ran", "kept"])
