import hashlib
import random


def seed_of(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_of(*parts):
    return random.Random(seed_of(*parts))


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]
