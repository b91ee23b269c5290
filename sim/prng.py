"""One integer decides everything: every choice of a simulated run is drawn from streams
derived from (VERIF_SEED, property, run index)."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def stream(*parts):
    return random.Random(derive(*parts))
