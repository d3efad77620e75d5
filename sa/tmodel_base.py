"""dtype lattice shared by the tensor modules."""
from dom import *

FLOATS = ("f16", "f32", "f64")
CPLX = ("c64", "c128")
INTS = ("u8", "i8", "i16", "i32", "i64")
R32 = ("f32", "c64", "f16")
RANK = {d: i for i, d in enumerate(("bool", "u8", "i8", "i16", "i32", "i64", "f16", "f32", "f64", "c64", "c128"))}
DECL = set(BATCH) | {"N"}
NUM = (S, bool, int, float, complex)


def cat_of(dt):
    if dt == "bool":
        return 0
    if dt in INTS:
        return 1
    if dt in FLOATS:
        return 2
    if dt in CPLX:
        return 3
    return None


def promote2(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    ca, cb = cat_of(a), cat_of(b)
    if ca > cb:
        a, b, ca, cb = b, a, cb, ca
    if ca == cb:
        return a if RANK[a] > RANK[b] else b
    if cb == 3 and a == "f64":
        return "c128"
    return b


def real_of(dt):
    return {"c128": "f64", "c64": "f32"}.get(dt, dt)


def cplx_of(dt):
    return {"f64": "c128", "f32": "c64", "f16": "c64"}.get(dt, dt if dt in CPLX else None)
