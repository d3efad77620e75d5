"""Call signatures and public names of the external libraries (sa/extapi.json, see tools/gen_extapi.py)."""
import json
import os

_D = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "extapi.json")))
NAMES = {k: set(v) for k, v in _D["names"].items()}
SIG = {"torch": _D["torch"], "tensor": _D["tensor"]}
ALIAS = {"axis": "dim", "keepdims": "keepdim", "x": "input", "a": "input", "x1": "input", "x2": "other"}


def exists(path):
    """False if the attribute path of a known module certainly does not exist"""
    m, _, n = path.rpartition(".")
    return m not in NAMES or n.startswith("_") or n in NAMES[m]


def _fits(o, n, kw):
    pos, req, var, kwo, anykw = o
    if n > len(pos) and not var:
        return False
    names = dict(kwo)
    free = pos[n:]
    for k in kw:
        if k not in names and k not in free and not (ALIAS.get(k) in free):
            if not anykw:
                return False
    have = set(kw) | {ALIAS[k] for k in kw if k in ALIAS}
    if any(p not in have for p in pos[n:req]):
        return False
    return all(d or k in have for k, d in kwo)


def misuse(kind, name, n, kw):
    """None, or why no overload of the function accepts n positional arguments and the keywords kw"""
    ov = SIG[kind].get(name)
    if not ov or any(_fits(o, n, kw) for o in ov):
        return None
    return "%s() received an invalid combination of arguments (%d positional%s)" % (name, n, ", " + ", ".join(sorted(kw)) if kw else "")
