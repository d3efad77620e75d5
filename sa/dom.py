"""Abstract domains: sizes, shapes, dtypes, element facts, Python values."""
import itertools

import vn as vnm
from vn import V

_ids = itertools.count(1)


def fresh():
    return next(_ids)


# ------------------------------------------------------------------ linear ints
class Lin:
    """Affine integer over named symbols."""
    __slots__ = ("t", "c")

    def __init__(self, t=(), c=0):
        self.t = tuple(sorted((k, v) for k, v in dict(t).items() if v != 0))
        self.c = c

    def __eq__(self, o):
        if isinstance(o, int):
            return not self.t and self.c == o
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return Lin(d, self.c + o.c)

    def __neg__(self):
        return Lin({k: -v for k, v in self.t}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def scale(self, k):
        return Lin({a: v * k for a, v in self.t}, self.c * k)

    @property
    def is_const(self):
        return not self.t

    def __repr__(self):
        s = ""
        for k, v in self.t:
            s += ("+" if v > 0 else "-") + ("" if abs(v) == 1 else str(abs(v)) + "*") + k
        if self.c or not s:
            s += ("+" if self.c >= 0 else "-") + str(abs(self.c))
        return s.lstrip("+")


LB = {}      # symbol -> lower bound (or None)


def sym(name, lb=None):
    if lb is not None:
        LB[name] = lb
    return Lin({name: 1})


def lin_ub(l):
    r = lin_lb(-l)
    return None if r is None else -r


def as_lin(x):
    if isinstance(x, bool):
        return Lin((), int(x))
    if isinstance(x, int):
        return Lin((), x)
    if isinstance(x, Lin):
        return x
    if isinstance(x, S) and x.kind == "int":
        return x.lin
    return None


LOOPS = {}     # loop symbol -> (lo, hi): values lo <= sym < hi


def lin_vn(l):
    v = vnm.scal(l.c % vnm.PR)
    for k, n in l.t:
        b = vnm.index(0) if k.startswith("it") else vnm.scal(vnm.h("sym", k))
        v = vnm.add(v, vnm.mul(vnm.scal(n), b))
    return v


def _sub_loops(l, lower):
    for _ in range(8):
        ks = [k for k, _ in l.t if k in LOOPS]
        if not ks:
            return l
        k = max(ks, key=lambda s: int(s[2:]))
        n = dict(l.t)[k]
        lo, hi = LOOPS[k]
        r = (lo if (n > 0) == lower else hi - 1).scale(n)
        l = Lin({a: b for a, b in l.t if a != k}, l.c) + r
    return l


def lin_lb(l):
    """lower bound of a Lin or None."""
    l = _sub_loops(l, True)
    s = l.c
    for k, v in l.t:
        if v < 0 or LB.get(k) is None:
            return None
        s += v * LB[k]
    return s


def lin_val(l):
    """Lin -> python int if constant else S"""
    if l.is_const:
        return l.c
    return S("int", Elem(lin_vn(l)), lin=l)


PRODDIM = {}       # symbol naming a composite length -> its factors

# batch axes: their members must stay independent
BATCH = ("P", "K", "Q", "T")


class Fac:
    """One factor of a dimension (size > 1 or unknown)."""
    __slots__ = ("k", "n", "start", "base")

    def __init__(self, k, n, start=0, base=None):
        self.k = k          # 'c' const, 's' symbolic Lin, 'u' unknown, 'm' marker: only the subset
        #                     of the preceding factors selected by mask key n
        self.n = n
        self.start = start
        self.base = base

    def same(self, o):
        return self.k == o.k and self.n == o.n

    def __eq__(self, o):
        return isinstance(o, Fac) and self.k == o.k and self.n == o.n and self.start == o.start

    def __hash__(self):
        return hash((self.k, self.n, self.start))

    def lin(self):
        if self.k == "c":
            return Lin((), self.n)
        if self.k == "s":
            return self.n
        nm = "len%s" % self.n
        PRODDIM[nm] = (self,)
        return sym(nm, 1)

    @property
    def name(self):
        if self.k == "s":
            return ",".join(k for k, _ in self.n.t)
        return None

    def batch(self):
        nm = self.name
        if nm is None:
            return frozenset()
        return frozenset(x for x in nm.split(",") if x in BATCH)

    @property
    def order(self):
        """is this the (windowed) order axis?"""
        return self.k == "s" and not self.batch() and not any(a.startswith("len") for a, _ in self.n.t)

    def __repr__(self):
        if self.k == "c":
            return str(self.n)
        if self.k == "s":
            return repr(self.n)
        if self.k == "m":
            return "sel"
        return "?"


def cdim(n):
    return () if n == 1 else (Fac("c", n),)


def udim():
    return (Fac("u", fresh()),)


def ldim(l, start=0):
    """dim from Lin/int length"""
    if isinstance(l, int):
        return cdim(l)
    if l.is_const:
        return cdim(l.c)
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][0] in PRODDIM:
        return PRODDIM[l.t[0][0]]
    return (Fac("s", l, start),)


def dim_lin(d):
    """length of a dim as Lin"""
    if not d:
        return Lin((), 1)
    if len(d) == 1:
        return d[0].lin()
    if all(f.k == "c" for f in d):
        r = 1
        for f in d:
            r *= f.n
        return Lin((), r)
    if any(f.k == "m" for f in d):
        nm = "lenm%x" % (vnm.h("mdim", tuple((f.k, repr(f.n)) for f in d)) & 0xffffffff)
        PRODDIM[nm] = d
        return sym(nm, 1)
    nm = "*".join("(%r)" % (f.n,) if f.k == "s" and (len(f.n.t) > 1 or f.n.c) else
                  (repr(f.n) if f.k != "u" else "len%s" % f.n) for f in d)
    PRODDIM[nm] = d
    lb = 1
    for f in d:
        lb *= max(1, f.n if f.k == "c" else (lin_lb(f.n) or 1) if f.k == "s" else 1)
    return sym(nm, lb)


def dim_unknown(d):
    return any(f.k == "u" for f in d)


def sig(shape):
    """numbers of const factor slots in order"""
    return [f.n for d in shape for f in d if f.k == "c"]


def nels(shape):
    r = 1
    for n in sig(shape):
        r *= n
    return r


MAXEL = 400


def show(shape):
    if shape is None:
        return "(?)"
    return "(" + ", ".join("*".join(map(repr, d)) if d else "1" for d in shape) + ")"


# ------------------------------------------------------------------ element facts
EMPTY = frozenset()
POLY = "poly"       # unit-polymorphic (zero, guards, infinities)
UNK = None


class Elem:
    """Facts about the value stored at one (constant) position of a tensor."""
    __slots__ = ("v", "live", "dead", "mix", "unit", "r32", "exact", "const")

    def __init__(self, v, live=EMPTY, dead=EMPTY, mix=EMPTY, unit=0, r32=EMPTY,
                 exact=False, const=None):
        self.v = v
        self.live = live
        self.dead = dead
        self.mix = mix
        self.unit = unit
        self.r32 = r32
        self.exact = exact
        self.const = const

    def cp(self, **kw):
        e = Elem(self.v, self.live, self.dead, self.mix, self.unit, self.r32, self.exact, self.const)
        for k, x in kw.items():
            setattr(e, k, x)
        return e

    def key(self):
        return (self.v, self.live, self.dead, self.mix, self.unit, self.r32, self.exact, self.const)

    def leaves(self):
        return frozenset(self.live) | frozenset(l for l, _ in self.dead)


def is_tiny(c):
    try:
        return c is not None and not isinstance(c, bool) and 0 < abs(c) <= 2e-6
    except TypeError:
        return False


def const_elem(c):
    """Elem of a Python number."""
    if isinstance(c, bool):
        return Elem(vnm.const(int(c)), const=c, exact=True)
    unit = 0
    try:
        if c == 0 or c != c or abs(c) == float("inf") or is_tiny(c):
            unit = POLY
    except TypeError:
        pass
    ex = False
    if isinstance(c, complex):
        ex = c.real == int(c.real) and c.imag == int(c.imag) if c == c and abs(c) < 1e6 else False
    elif isinstance(c, int):
        ex = abs(c) < 2 ** 24
    else:
        ex = c == c and abs(c) < 1e6 and (c * 1024) == int(c * 1024) or is_tiny(c) or abs(c) == float("inf") or c != c
    cv = c
    if isinstance(c, float) and c == c and abs(abs(c) - 1) < 2e-6:
        cv = 1 if c > 0 else -1
    return Elem(vnm.const(cv), unit=unit, exact=bool(ex), const=c)


def join_unit(a, b):
    if a == b:
        return a
    if a == POLY:
        return b
    if b == POLY:
        return a
    return UNK


def join_elem(a, b, site, cond=None):
    if a is b or a.key() == b.key():
        return a
    if a.v == b.v:
        v = a.v
    elif cond is not None:
        v = vnm.where(cond, a.v, b.v)
    else:
        v = vnm.fn("phi", site, a.v, b.v)
    return Elem(v, a.live | b.live, a.dead | b.dead, a.mix | b.mix, join_unit(a.unit, b.unit),
                a.r32 | b.r32, a.exact and b.exact, a.const if same_const(a.const, b.const) else None)


def same_const(a, b):
    return type(a) is type(b) and (a == b or (a != a and b != b))


# ------------------------------------------------------------------ tensors
class T:
    __slots__ = ("shape", "dt", "dev", "el", "sid", "tid", "np", "view", "expd", "leafs", "idx_of", "lin", "pre", "pos")

    def __init__(self, shape, dt, dev, el, sid=None, np=False, view=False, expd=False,
                 leafs=EMPTY, idx_of=None, lin=None, pre=None):
        self.shape = shape          # tuple of dims or None
        self.dt = dt
        self.dev = dev
        self.el = el
        self.sid = frozenset((fresh(),)) if sid is None else sid
        self.tid = fresh()
        self.np = np
        self.view = view
        self.expd = expd
        self.leafs = leafs          # names of user leaves whose storage this aliases
        self.idx_of = idx_of        # mask if this is an index vector from nonzero(mask)
        self.lin = lin              # (lo, hi) Lin bounds of an integer range / scalar
        self.pos = None             # memory position of each dim if known not to be row-major ('x': expanded)
        self.pre = pre              # values at leading positions of the order axis (if special)
        if shape is not None:
            n = nels(shape)
            if n != len(el):
                if len(el) == 1 and n <= MAXEL:
                    self.el = el * n
                else:
                    self.el = [summ(el)]
                    if n != 1:
                        # too many / inconsistent constant positions: forget them
                        self.shape = tuple(udim() if any(f.k == "c" for f in d) else d for d in shape)
        elif len(el) != 1:
            self.el = [summ(el)]

    def cp(self, **kw):
        d = dict(shape=self.shape, dt=self.dt, dev=self.dev, el=self.el, sid=self.sid, np=self.np,
                 view=self.view, expd=self.expd, leafs=self.leafs, idx_of=self.idx_of, lin=self.lin,
                 pre=self.pre)
        d.update(kw)
        return T(**d)

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def live(self):
        return frozenset().union(*[e.live for e in self.el])

    def dead(self):
        return frozenset().union(*[e.dead for e in self.el])

    def mix(self):
        return frozenset().union(*[e.mix for e in self.el])

    def r32(self):
        return frozenset().union(*[e.r32 for e in self.el])

    def units(self):
        return set(e.unit for e in self.el)

    def __repr__(self):
        return "T%s:%s@%s" % (show(self.shape), self.dt, self.dev)


def summ(els):
    if not els:
        return Elem(vnm.ZERO)
    r = els[0]
    if len(els) > 1:
        v = vnm.fn("summ", *[e.v for e in els])
        for e in els[1:]:
            r = join_elem(r, e, "summ")
        r = r.cp(v=v, const=None)
    return r


class S:
    """Abstract Python/NumPy scalar."""
    __slots__ = ("kind", "el", "lin", "truth_kind")

    def __init__(self, kind, el, lin=None, truth_kind="data"):
        self.kind = kind            # 'int' 'float' 'complex' 'bool' None
        self.el = el
        if kind == "int" and lin is None:
            nm = "i%x" % (el.v.w[len(el.v.w) // 2][0] & 0xffffffffff)
            lin = sym(nm)
            vnm.INTV[nm] = el.v
            LB.setdefault(nm, None)
        self.lin = lin
        self.truth_kind = truth_kind

    def __repr__(self):
        return "S(%s%s)" % (self.kind, ":" + repr(self.lin) if self.lin is not None else "")


# ------------------------------------------------------------------ other values
class Top:
    """Unknown value, with a fingerprint of its provenance."""
    __slots__ = ("v", "why", "live", "dead")

    def __init__(self, why="", v=None, live=EMPTY, dead=EMPTY):
        self.why = why
        self.v = v if v is not None else vnm.fn("top", why)
        self.live = live
        self.dead = dead

    def __repr__(self):
        return "Top(%s)" % self.why


class Ext:
    """External (not analysed) object, by dotted path."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return "Ext(%s)" % self.path


class Mod:
    """Module of the analysed package."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return "Mod(%s)" % self.name


class Fn:
    __slots__ = ("name", "node", "mod", "closure", "defaults", "kwdefaults", "qual", "static", "cls", "prop")

    def __init__(self, name, node, mod, closure, defaults, kwdefaults, qual, static=None, cls=None, prop=False):
        self.name, self.node, self.mod, self.closure = name, node, mod, closure
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.static = static
        self.cls = cls
        self.prop = prop

    def __repr__(self):
        return "Fn(%s)" % self.qual


class Bound:
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return "Bound(%r)" % (self.fn,)


class Cls:
    __slots__ = ("name", "bases", "attrs", "mod", "qual", "node")

    def __init__(self, name, bases, attrs, mod, qual, node):
        self.name, self.bases, self.attrs, self.mod, self.qual, self.node = name, bases, attrs, mod, qual, node

    def __repr__(self):
        return "Cls(%s)" % self.qual


class Meth:
    """bound builtin method: (receiver, name)"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Meth(%r.%s)" % (self.obj, self.name)


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Dt:
    """torch/numpy dtype value"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Dt) and o.d == self.d

    def __hash__(self):
        return hash(("dt", self.d))

    def __repr__(self):
        return "Dt(%s)" % self.d


class PathV:
    """file-system path of the analysed tree (data files)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, PathV) and o.p == self.p

    def __hash__(self):
        return hash(("path", self.p))

    def __repr__(self):
        return "Path(%s)" % self.p


class Dev:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Dev) and o.d == self.d

    def __hash__(self):
        return hash(("dev", self.d))

    def __repr__(self):
        return "Dev(%s)" % self.d


class Ref:
    """Reference to a heap object."""
    __slots__ = ("id",)

    def __init__(self, i=None):
        self.id = i if i is not None else fresh()

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%d)" % self.id


# heap records (treated as immutable)
class Seg:
    """Homogeneous list segment of symbolic length.  Position p of the segment
    corresponds to order index iota = off + p (or off + n-1 - p when rev)."""
    __slots__ = ("n", "val", "fac", "off", "rev")

    def __init__(self, n, val, fac=None, off=0, rev=False):
        self.n, self.val, self.fac, self.off, self.rev = n, val, fac, off, rev

    def cp(self, **kw):
        d = dict(n=self.n, val=self.val, fac=self.fac, off=self.off, rev=self.rev)
        d.update(kw)
        return Seg(**d)

    def __repr__(self):
        return "Seg(%r,%r)" % (self.n, self.val)


class HList:
    __slots__ = ("items", "loop", "front")

    def __init__(self, items, loop=None, front=False):
        self.front = front             # last changed by insertion at the front
        self.items = list(items) if items is not None else None   # values and Seg; None: unknown
        self.loop = loop               # LoopList info while inside a symbolic loop

    def __repr__(self):
        return "HList%r" % (self.items,)


class HDict:
    __slots__ = ("d", "unk")

    def __init__(self, d=None, unk=None):
        self.d = dict(d or {})
        self.unk = list(unk or [])     # [(key, value)] of non-constant keys

    def __repr__(self):
        return "HDict%r" % (self.d,)


class HObj:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})

    def __repr__(self):
        return "HObj(%s)%r" % (getattr(self.cls, "name", self.cls), self.attrs)


class HSet:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)
