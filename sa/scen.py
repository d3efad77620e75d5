"""Scenario inputs: symbolic user tensors and analysis runs."""
import os
import sys

import vn as vnm
from dom import *
import interp
from interp import Interp, AbsRaise, Stop, MISSING

sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "src")
for _b in BATCH:
    LB[_b] = 2
LB["N"] = 1

UNITS = {}


def D(*dims):
    """'P' -> symbolic axis, 3 -> constant axis"""
    out = []
    for d in dims:
        if isinstance(d, str):
            out.append((Fac("s", Lin({d: 1})),))
        elif isinstance(d, int):
            out.append(cdim(d))
        else:
            out.append(d)
    return tuple(out)


class Run:
    """One analysis of the package: interpreter + user inputs."""

    def __init__(self, missing=(), decide=False, hooks=None, generic=True, load=True):
        self.ip = Interp(ROOT, missing=missing, decide=decide)
        self.ip.generic = generic
        if hooks:
            self.ip.hooks.update(hooks)
        self.err = None
        self.trans = False          # multi-dimensional inputs are transposed views (not row-major in memory)
        if load:
            self.ip.load("pymiediff")
            self.ip.own_modules()
        self.load_findings = len(self.ip.findings)

    # ------------------------------------------------------------ inputs
    def leaf(self, name, dims, dt="f64", dev="D", unit=0, live=True, names=None, own=True, scale=None, const=None,
             np=False, real=None):
        """a tensor supplied by the user; constant axes get one symbol each"""
        shape = D(*dims)
        n = nels(shape)
        els = []
        for i in range(n):
            nm = names[i] if names else name if n == 1 else "%s#%d" % (name, i)
            v = vnm.leaf(nm, real=(dt not in ("c64", "c128")) if real is None else real)
            e = Elem(v, live=frozenset((name,)) if live else EMPTY, unit=unit)
            els.append(e)
        t = T(shape, dt, dev, els, leafs=frozenset((name,)) if live else EMPTY, np=np)
        if own:
            for s in t.sid:
                self.ip.sid_owner[s] = ("user", name)
        if self.trans and len([d for d in shape if d]) > 1:
            t.pos = tuple(range(len(shape)))[::-1]
        return t

    def num(self, name, kind="float", unit=0, live=False):
        e = Elem(vnm.leaf(name, real=kind != "complex"), unit=unit, live=frozenset((name,)) if live else EMPTY)
        return S(kind, e)

    def order(self, name="N"):
        return lin_val(Lin({name: 1}))

    def lst(self, items, owner=None):
        r = self.ip.new_list(items)
        if owner:
            self.ip.owned[r.id] = ("user", owner)     # the list itself; its elements have their own owners
        return r

    # ------------------------------------------------------------ calls
    def fn(self, path):
        mod, _, name = path.rpartition(".")
        try:
            m = self.ip.load(mod)
            return self.ip.getattr(m, name)
        except AbsRaise:
            raise Anchor("%s not found" % path)

    def call(self, f, *args, **kw):
        """returns value, or None with self.err = AbsRaise"""
        if isinstance(f, str):
            f = self.fn(f)
        self.err = None
        ip = self.ip
        st0 = ip.st
        nstack = list(st0.stack)
        try:
            return ip.call(f, list(args), kw)
        except AbsRaise as e:
            self.err = e
            if not hasattr(e, "site") or not e.site:
                e.site = ip.site()
            return None
        finally:
            ip.st.stack = ip.st.stack[:len(nstack)] or nstack

    def get(self, d, key):
        r = self.ip.get(d) if isinstance(d, Ref) else None
        if isinstance(r, HDict):
            return r.d.get(key)
        return None

    def keys(self, d):
        r = self.ip.get(d) if isinstance(d, Ref) else None
        return list(r.d) if isinstance(r, HDict) and not r.unk else None


class Anchor(Exception):
    """a public entry point the check is anchored on is gone"""
