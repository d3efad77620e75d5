"""Global value numbering by random interpretation (Gulwani/Necula).

A value number is a fingerprint of the *expression* that produces a value, in a
large prime field: ring operations are interpreted exactly, every other
operation as an uninterpreted (hashed) function.  Two expressions equal by
ring/field laws always get equal fingerprints; different ones collide with
negligible probability.  Nothing of the analysed program is executed.

Each number is a small window of pairs:
  * the pair (v, vbar) carries the value and its complex conjugate, so that
    conj/real/imag/abs are exact,
  * the window carries the value at neighbouring positions of the (single)
    symbolic order axis, so that shifts along it are exact.
Numbers which do not vary along the order axis have a window of length one.
"""
import hashlib
import math
from fractions import Fraction

PR = (1 << 100) - 99          # replaced below by a prime = 5 mod 8
W = 4                         # window offsets -W..W
NW = 2 * W + 1


def _mr(n):
    d = n - 1
    s = 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


while not (PR % 8 == 5 and _mr(PR)):
    PR -= 2
I = pow(2, (PR - 1) // 4, PR)           # sqrt(-1)
INV2 = pow(2, -1, PR)


def h(*args):
    """Hash anything hashable/repr-able to a field element."""
    m = hashlib.blake2b(repr(args).encode(), digest_size=16)
    return int.from_bytes(m.digest(), "big") % PR


_sqrt_tab = {}        # opaque root -> radicand
_sqrt_memo = {}
_cos_tab = {}         # acos fingerprint -> argument
PI = h("pi")


def _fsqrt(a):
    if a == 0:
        return 0
    r = _sqrt_memo.get(a)
    if r is not None:
        return r
    b = pow(a, (PR + 3) // 8, PR)
    if b * b % PR != a:
        b = b * I % PR
    if b * b % PR != a:
        b = h("sqrt", a)
        _sqrt_tab[b] = a
    else:
        b = min(b, PR - b)
    _sqrt_memo[a] = b
    return b


def _sq(a):
    if a in _sqrt_tab:
        return _sqrt_tab[a]
    if PR - a in _sqrt_tab:
        return _sqrt_tab[PR - a]
    return a * a % PR


def _inv(a):
    if a == 0:
        return h("inv0")
    return pow(a, -1, PR)


def _frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    f = Fraction(x).limit_denominator(5000)
    if x != 0 and abs(float(f) - x) <= 1e-15 * abs(x):
        return f
    return Fraction(str(x)) if "e" not in str(x) and "n" not in str(x) else Fraction(x)


def fnum(x):
    """Field image of a real Python number."""
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return h("special", str(x))
        if x != 0.0:
            q = x / math.pi
            fq = Fraction(q).limit_denominator(48)
            if fq != 0 and abs(float(fq) - q) <= 2e-15 * abs(q) and abs(fq) < 1000:
                return fq.numerator * pow(fq.denominator, -1, PR) * PI % PR
    f = _frac(x)
    if f.denominator % PR == 0:
        return h("den", x)
    return f.numerator * pow(f.denominator, -1, PR) % PR


class V:
    __slots__ = ("w", "o")               # window, set of uninterpreted functions below (bit mask)

    def __init__(self, w, o=0):
        self.o = o
        if len(w) > 1:
            f = w[0]
            for q in w:
                if q != f:
                    break
            else:
                w = (f,)
        self.w = w

    def __eq__(self, o):
        return isinstance(o, V) and self.w == o.w

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.w)

    def __repr__(self):
        return "V%s" % (hex(self.w[len(self.w) // 2][0])[-6:],)

    @property
    def real(self):
        return all(a == b for a, b in self.w)


def const(x):
    if isinstance(x, complex):
        if x.imag == 0:
            x = x.real
        else:
            re, im = fnum(x.real), fnum(x.imag)
            return V((((re + I * im) % PR, (re - I * im) % PR),))
    a = fnum(x)
    return V(((a, a),))


ZERO = const(0)
ONE = const(1)
HALF = const(Fraction(1, 2)) if False else V(((INV2, INV2),))


def leaf(name, real=True, square=True):
    a = h("leaf", name)
    a = a * a % PR * (a * a % PR) % PR if square else a
    if real:
        return V(((a, a),))
    b = h("leafbar", name)
    b = b * b % PR * (b * b % PR) % PR if square else b
    return V(((a, b),))


def index(c=0, sgn=1):
    """value  c + sgn*iota, iota = position on the order axis (window)."""
    base = h("iota")
    return V(tuple(((c + sgn * (base + d)) % PR,) * 2 for d in range(-W, W + 1)))


def scal(a):
    a %= PR
    return V(((a, a),))


def _z(*vs):
    n = max(len(v.w) for v in vs)
    if n == 1:
        return [tuple(v.w[0] for v in vs)]
    cols = [v.w if len(v.w) == n else v.w * n for v in vs]
    return list(zip(*cols))


def add(x, y):
    return V(tuple(((a[0] + b[0]) % PR, (a[1] + b[1]) % PR) for a, b in _z(x, y)), x.o | y.o)


def sub(x, y):
    return V(tuple(((a[0] - b[0]) % PR, (a[1] - b[1]) % PR) for a, b in _z(x, y)), x.o | y.o)


def neg(x):
    return V(tuple((-a % PR, -b % PR) for a, b in x.w), x.o)


def _mul1(a, b):
    if a == b or a == PR - b:
        s = _sq(a)
        return s if a == b else -s % PR
    return a * b % PR


def mul(x, y):
    return V(tuple((_mul1(a[0], b[0]), _mul1(a[1], b[1])) for a, b in _z(x, y)), x.o | y.o)


def inv(x):
    return V(tuple((_inv(a), _inv(b)) for a, b in x.w), x.o)


def div(x, y):
    if x == y:
        return ONE
    return mul(x, inv(y))


def powi(x, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(x, -n))
    r = None
    while n >= 2:
        sq = mul(x, x)
        if n % 2:
            r = x if r is None else mul(r, x)
        x = sq
        n //= 2
    return x if r is None else mul(r, x)


def sqrt(x):
    return V(tuple((_fsqrt(a), _fsqrt(b)) for a, b in x.w), x.o)


def conj(x):
    return V(tuple((b, a) for a, b in x.w), x.o)


def re(x):
    return V(tuple(((a + b) * INV2 % PR,) * 2 for a, b in x.w), x.o)


def im(x):
    i2 = _inv(2 * I % PR)
    return V(tuple(((a - b) * i2 % PR,) * 2 for a, b in x.w), x.o)


def abs2(x):
    if x.real:
        return mul(x, x)
    return V(tuple((_mul1(a, b),) * 2 for a, b in x.w), x.o)


def abs_(x):
    if x.real:
        # |x| for reals: even function
        out = []
        for a, _ in x.w:
            r = h("absr", min(a, PR - a))
            _sqrt_tab.setdefault(r, a * a % PR)
            out.append((r, r))
        return V(tuple(out), x.o)
    out = []
    for a, b in x.w:
        r = _fsqrt(a * b % PR)
        out.append((r, r))
    return V(tuple(out), x.o)


_EXPG = {}             # exponents that are integer combinations of registered ones


def exp_group(gens, m=4):
    """the exponential turns integer combinations of these value numbers into products"""
    import itertools
    for pos in range(NW if any(len(g.w) > 1 for g in gens) else 1):
        for c in (0, 1):
            g = [x.w[pos if len(x.w) > 1 else 0][c] for x in gens]
            e = [_exp1(a) for a in g]
            for ks in itertools.product(range(-m, m + 1), repeat=len(g)):
                a, r = 0, 1
                for k, x, y in zip(ks, g, e):
                    a = (a + k * x) % PR
                    r = r * pow(y if k >= 0 else _inv(y), abs(k), PR) % PR
                _EXPG[a] = r


def _exp1(a):
    if a == 0:
        return 1
    if a in _EXPG:
        return _EXPG[a]
    if a > PR - a:
        return _inv(h("exp", PR - a))
    return h("exp", a)


def exp(x):
    return V(tuple((_exp1(a), _exp1(b)) for a, b in x.w), x.o)


def _cos1(a):
    if a in _cos_tab:
        return _cos_tab[a]
    e = _exp1(I * a % PR)
    return (e + _inv(e)) * INV2 % PR


def _sin1(a):
    if a in _cos_tab:                    # sin(acos c) = sqrt(1 - c^2)
        return _fsqrt((1 - _sq(_cos_tab[a])) % PR)
    e = _exp1(I * a % PR)
    return (e - _inv(e)) * _inv(2 * I % PR) % PR


def cos(x):
    return V(tuple((_cos1(a), _cos1(b)) for a, b in x.w), x.o)


def sin(x):
    return V(tuple((_sin1(a), _sin1(b)) for a, b in x.w), x.o)


def acos(x):
    out = []
    for a, b in x.w:
        p = (h("acos", a), h("acos", b))
        _cos_tab[p[0]] = a
        _cos_tab[p[1]] = b
        out.append(p)
    return V(tuple(out), x.o)


OPS = set()            # names of the uninterpreted functions applied so far
INTV = {}              # integer symbol -> value number it stands for
INV = {}               # fingerprint -> (name, arguments), for the functions listed in REC
REC = {"int", "round", "floor", "ceil", "trunc", "max", "min", "pow", "lt0", "at", "mean", "nanmean", "median", "floordiv", "powe"}


_bits = {}             # operation name -> bit
_col_ops = {}          # colour -> operations below it


def opbit(name):
    b = _bits.get(name)
    if b is None:
        b = _bits[name] = 1 << len(_bits)
    return b


def _below(name, vs):
    o = opbit(name)
    for v in vs:
        o |= v.o
    return o


def ops(*vs):
    """names of the uninterpreted functions the values are made of"""
    o = 0
    for v in vs:
        o |= v.o
    return {n for n, b in _bits.items() if o & b}


def _note(name, args, r):
    if name in REC:
        INV[r.w[len(r.w) // 2]] = (name, args)
    return r


def fn(name, *args):
    """Uninterpreted function, componentwise (commutes with conjugation)."""
    OPS.add(name)
    vs = [a for a in args if isinstance(a, V)]
    oth = tuple(a for a in args if not isinstance(a, V))
    if not vs:
        a = h("fn", name, oth)
        return V(((a, a),), opbit(name))
    return _note(name, args, V(tuple((h("fn", name, oth, tuple(q[0] for q in col)),
                                      h("fn", name, oth, tuple(q[1] for q in col))) for col in _z(*vs)), _below(name, vs)))


def fnr(name, *args):
    """Uninterpreted function of real result (value independent of conj order)."""
    OPS.add(name)
    vs = [a for a in args if isinstance(a, V)]
    oth = tuple(a for a in args if not isinstance(a, V))
    if not vs:
        a = h("fnr", name, oth)
        return V(((a, a),), opbit(name))
    return _note(name, args, V(tuple((h("fnr", name, oth, col),) * 2 for col in _z(*vs)), _below(name, vs)))


def bag(name, *args):
    """Window-free fingerprint of everything in args (index-free colour)."""
    OPS.add(name)
    c1, c2 = [], []
    for a in args:
        if isinstance(a, V):
            q = a.w[len(a.w) // 2]
            c1.append((len(a.w) > 1, q[0]))
            c2.append((len(a.w) > 1, q[1]))
        else:
            c1.append(a)
            c2.append(a)
    r = V(((h("bag", name, tuple(c1)), h("bag", name, tuple(c2))),), _below(name, [a for a in args if isinstance(a, V)]))
    _col_ops[r.w[0]] = r.o
    return r


def mid(x):
    return x.w[len(x.w) // 2]


def mu(colour, d=0):
    """sequence value number: position iota + d of the sequence `colour`."""
    b = h("iota")
    c1, c2 = colour
    return V(tuple((h("mu", c1, (b + d + k) % PR), h("mu", c2, (b + d + k) % PR)) for k in range(-W, W + 1)), _col_ops.get(tuple(colour), 0))


def shift(x, d):
    """value at position iota+d."""
    if d == 0 or len(x.w) == 1:
        return x
    out = []
    for i in range(NW):
        j = i + d
        if 0 <= j < NW:
            out.append(x.w[j])
        else:
            out.append((h("edge", tuple(q[0] for q in x.w), j),
                        h("edge", tuple(q[1] for q in x.w), j)))
    return V(tuple(out), x.o)


def collapse(x, idx):
    """value at a constant position of the order axis (opaque)."""
    if len(x.w) == 1:
        return x
    return bag("at", x, idx)


def sum_window(x, key):
    """Linear functional over the order axis (value at the generic position)."""
    k = h("sumlen", key, len(x.w) > 1)
    a, b = x.w[len(x.w) // 2]
    return V(((a * k % PR, b * k % PR),), x.o)


def sum_axis(x, key):
    k = h("axsum", key)
    return V(tuple((a * k % PR, b * k % PR) for a, b in x.w), x.o)


def where(m, a, b):
    r = add(b, mul(m, sub(a, b)))
    if mid(m) in INV and len(r.w) == 1:
        INV.setdefault(mid(r), ("where", (m, a, b)))
    return r


_sph_memo = {}


def _sph1(kind, n, z):
    """spherical Bessel function of order n as a solution of the three-term
    recurrence f(n-1) + f(n+1) = (2n+1)/z f(n) in the field."""
    key = (kind, n, z)
    r = _sph_memo.get(key)
    if r is not None:
        return r
    iz = _inv(z)
    base = None
    for b in (0, h("iota")):
        k = (n - b) % PR
        if k > PR // 2:
            k -= PR
        if abs(k) <= 80:
            base = b
            break
    if base is None:
        r = h("sph", kind, n, z)
    else:
        if base == 0:
            s, c = _sin1(z), _cos1(z)
            if kind == "j":
                f0, f1 = s * iz % PR, (s * iz % PR * iz - c * iz) % PR
            else:
                f0, f1 = -c * iz % PR, (-c * iz % PR * iz - s * iz) % PR
        else:
            f0, f1 = h("sph", kind, "b0", z), h("sph", kind, "b1", z)
        if k >= 0:
            a, b2, m = f0, f1, 0
            while m < k:
                # a=f_m, b2=f_{m+1}
                nn = (base + m + 1) % PR
                a, b2 = b2, ((2 * nn + 1) * iz % PR * b2 - a) % PR
                m += 1
            r = a
        else:
            a, b2, m = f0, f1, 0
            while m > k:
                nn = (base + m) % PR
                a, b2 = ((2 * nn + 1) * iz % PR * a - b2) % PR, a
                m -= 1
            r = a
    _sph_memo[key] = r
    return r


def sph(kind, n, z):
    return V(tuple((_sph1(kind, a[0], a[1]), _sph1(kind, b[0], b[1]))
                   for a, b in (((p[0], q[0]), (p[1], q[1])) for p, q in _z(n, z))), n.o | z.o)
