"""Field-exact theory: special functions and multilayer Mie solution as value
numbers.  Used (a) as summaries of the package's special functions while the
solvers are analysed and (b) as the reference the solvers' results are compared
with.  Both sides are fingerprints; nothing of the package is executed.
"""
import vn as vnm
from vn import V
from dom import *
from interp import MISSING


class X:
    """value number with arithmetic"""
    __slots__ = ("v",)

    def __init__(self, v):
        if isinstance(v, X):
            v = v.v
        self.v = v if isinstance(v, V) else vnm.const(v)

    def _b(f):
        return lambda a, b: X(f(a.v, X(b).v))
    __add__ = __radd__ = _b(vnm.add)
    __mul__ = __rmul__ = _b(vnm.mul)
    __sub__ = _b(vnm.sub)
    __rsub__ = _b(lambda a, b: vnm.sub(b, a))
    __truediv__ = _b(vnm.div)
    __rtruediv__ = _b(lambda a, b: vnm.div(b, a))

    def __neg__(self):
        return X(vnm.neg(self.v))

    def __pow__(self, n):
        return X(vnm.powi(self.v, n))

    def conj(self):
        return X(vnm.conj(self.v))

    @property
    def re(self):
        return X(vnm.re(self.v))

    @property
    def im(self):
        return X(vnm.im(self.v))

    @property
    def abs2(self):
        return X(vnm.abs2(self.v))

    def sqrt(self):
        return X(vnm.sqrt(self.v))

    def __eq__(self, o):
        return self.v == X(o).v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "X%r" % (self.v,)


I_ = X(1j)
PI_ = X(vnm.scal(vnm.PI))


def cos(x):
    return X(vnm.cos(X(x).v))


def sin(x):
    return X(vnm.sin(X(x).v))


def exp(x):
    return X(vnm.exp(X(x).v))


def jn(n, z):
    return X(vnm.sph("j", X(n).v, X(z).v))


def yn(n, z):
    return X(vnm.sph("y", X(n).v, X(z).v))


def hn(n, z):
    return jn(n, z) + I_ * yn(n, z)


def der(f, n, z):
    """f' of a spherical Bessel function"""
    return f(X(n) - 1, z) - (X(n) + 1) / z * f(n, z)


psi = lambda n, z: X(z) * jn(n, z)
chi = lambda n, z: -(X(z) * yn(n, z))
zeta = lambda n, z: X(z) * hn(n, z)
dpsi = lambda n, z: jn(n, z) + X(z) * der(jn, n, z)
dchi = lambda n, z: -(yn(n, z) + X(z) * der(yn, n, z))
dzeta = lambda n, z: hn(n, z) + X(z) * der(hn, n, z)


def D1(n, z):
    return dpsi(n, z) / psi(n, z)


def D3(n, z):
    return dzeta(n, z) / zeta(n, z)


def Qn(n, z1, z2):
    return (psi(n, z1) / zeta(n, z1)) / (psi(n, z2) / zeta(n, z2))


def pitau(n, mu):
    """angular functions of one constant order"""
    p = [X(0), X(1)]
    mu = X(mu)
    for m in range(2, n + 1):
        p.append((X(2 * m - 1) * mu * p[m - 1] - X(m) * p[m - 2]) / X(m - 1))
    return p[n], X(n) * mu * p[n] - X(n + 1) * p[n - 1]


# ------------------------------------------------------------------ summaries
def order_of(ip, n):
    l = ip.tm.as_scalar_lin(n)
    return l


def seq(ip, n, z, f, dt="c128"):
    """tensor of f(order, z element) for orders 0..n"""
    l = order_of(ip, n)
    if l is None or not isinstance(z, T) or z.shape is None:
        return MISSING
    shape = z.shape if z.shape else ((),)
    if l.is_const:
        els = [Elem(f(k, e.v).v, live=e.live, dead=e.dead, mix=e.mix) for k in range(l.c + 1) for e in z.el]
    else:
        els = [Elem(f(vnm.index(0), e.v).v, live=e.live, dead=e.dead, mix=e.mix) for e in z.el]
    return T((ldim(l + 1),) + shape, dt, z.dev, els)


def bound(ip, fn, args, kw, names):
    """arguments of a summarised function by canonical name (falls back to the position)"""
    loc = ip.bind(fn, list(args), dict(kw))
    a = fn.node.args
    params = [p.arg for p in a.posonlyargs + a.args]
    out = []
    for i, n in enumerate(names):
        out.append(loc.get(n if n in params or n in [p.arg for p in a.kwonlyargs] else params[i] if i < len(params) else n))
    return out


def inexact(what):
    vnm.OPS.add(what)          # makes later disagreement with the exact theory undecidable, never a violation
    return MISSING


def is_exact(t, ref):
    """argument tensor t carries the value numbers of the exact sequence ref"""
    return isinstance(t, T) and isinstance(ref, T) and len(t.el) == len(ref.el) and all(vnm.mid(a.v) == vnm.mid(b.v) for a, b in zip(t.el, ref.el))


def hook1(f):
    def g(ip, fn, args, kw):
        n, z = bound(ip, fn, args, kw, ("n", "z"))
        r = seq(ip, n, z, f)
        return r if r is not MISSING else inexact("body of " + fn.name)
    return g


def hook_d3(ip, fn, args, kw):
    n, z, d1 = bound(ip, fn, args, kw, ("n", "z", "D1"))
    if d1 is not None and not is_exact(d1, seq(ip, n, z, D1)):
        return MISSING                      # evaluated with another sequence: follow the recurrence
    r = seq(ip, n, z, D3)
    return r if r is not MISSING else inexact("body of " + fn.name)


def hook_pz(ip, fn, args, kw):
    n, z, d1, d3 = bound(ip, fn, args, kw, ("n", "z", "D1", "D3"))
    if not is_exact(d1, seq(ip, n, z, D1)) or not is_exact(d3, seq(ip, n, z, D3)):
        return MISSING
    a, b = seq(ip, n, z, psi), seq(ip, n, z, zeta)
    return (a, b) if a is not MISSING and b is not MISSING else inexact("body of " + fn.name)


def hook_q(ip, fn, args, kw):
    n, z1, z2, x1, x2, p1, p2, q1, q2 = bound(ip, fn, args, kw, ("n", "z1", "z2", "x1", "x2", "D1_z1", "D1_z2", "D3_z1", "D3_z2"))
    if not all(isinstance(t, T) for t in (z1, z2, x1, x2)) or z1.shape != z2.shape or len(z1.el) != len(z2.el):
        return inexact("body of " + fn.name)
    l = order_of(ip, n)
    if l is None or any(t.shape is None for t in (x1, x2)):
        return inexact("body of " + fn.name)
    for z, f, t in ((z1, D1, p1), (z2, D1, p2), (z1, D3, q1), (z2, D3, q2)):
        if not is_exact(t, seq(ip, n, z, f)):
            return MISSING
    if len(x1.el) != len(x2.el):
        return MISSING
    for i in range(len(z1.el)):            # the summary needs x1/x2 = z1/z2
        j = min(i, len(x1.el) - 1)
        if vnm.mid(vnm.mul(x1.el[j].v, z2.el[i].v)) != vnm.mid(vnm.mul(x2.el[j].v, z1.el[i].v)):
            return MISSING
    it = iter(list(z2.el) * 400)
    return seq(ip, n, z1, lambda k, v: Qn(k, v, next(it).v))


def hook_pitau(ip, fn, args, kw):
    n, mu = bound(ip, fn, args, kw, ("n", "mu"))
    l = order_of(ip, n)
    if l is None or not l.is_const or not isinstance(mu, T):
        return MISSING
    sh = mu.shape
    a = []
    for j in (0, 1):
        els = [Elem(pitau(k, e.v)[j].v, live=e.live, dead=e.dead, mix=e.mix) for k in range(l.c + 1) for e in mu.el] if l.c else None
        if els is None:
            return MISSING
        a.append(T((ldim(l + 1),) + sh, mu.dt, mu.dev, els))
    return tuple(a)


SPH = "pymiediff.special."
HOOKS = {
    SPH + "pena_D1_n": hook1(D1), SPH + "pena_D3_n": hook_d3, SPH + "pena_psi_zeta_n": hook_pz, SPH + "pena_Q_n": hook_q,
    SPH + "sph_jn_torch": hook1(jn), SPH + "sph_jn_torch_via_rec": hook1(jn), SPH + "sph_yn_torch": hook1(yn),
}


# ------------------------------------------------------------------ Mie theory
class Mie:
    """exact solution for one generic (particle, wavenumber): layers x[l] = k r_l, relative indices m[l]"""

    def __init__(self, k0, r, eps, env):
        self.k0, self.env = X(k0), X(env)
        self.nenv = self.env.sqrt()
        self.k = self.k0 * self.nenv
        self.r = [X(a) for a in r]
        self.nl = [X(a).sqrt() for a in eps]
        self.m = [a / self.nenv for a in self.nl]
        self.L = len(self.r)
        self._c = {}

    def ab(self, n):
        """scattering coefficients"""
        return self.coeffs(n)["a"], self.coeffs(n)["b"]

    def coeffs(self, n):
        """per region (layers 0..L-1, outside = L): amplitudes (p, q) of
        p psi(z) - q zeta(z), for the electric (d, a) and magnetic (c, b) type"""
        key = n if isinstance(n, int) else "sym"
        if key in self._c:
            return self._c[key]
        L, m = self.L, self.m + [X(1)]
        out = {}
        for typ in ("a", "b"):
            # march outwards with core amplitude 1
            st = [(X(1), X(0))]
            for l in range(L):
                x = self.k * self.r[l]
                z, z1 = m[l] * x, m[l + 1] * x
                p, q = st[-1]
                u, du = p * psi(n, z) - q * zeta(n, z), p * dpsi(n, z) - q * dzeta(n, z)
                # electric: u and u'/m continuous; magnetic: u/m and u' continuous
                if typ == "a":
                    du = du * m[l + 1] / m[l]
                else:
                    u = u * m[l + 1] / m[l]
                # solve p1 psi - q1 zeta = u ; p1 psi' - q1 zeta' = du at z1
                A, B, C, Dd = psi(n, z1), zeta(n, z1), dpsi(n, z1), dzeta(n, z1)
                det = B * C - A * Dd
                p1 = (du * B - u * Dd) / det
                q1 = (du * A - u * C) / det
                st.append((p1, q1))
            norm = st[-1][0]
            st = [(p / norm, q / norm) for p, q in st]
            out[typ] = st[-1][1]
            out["regions_" + typ] = st
        self._c[key] = out
        return out

    # -------------------------------------------------------------- fields
    def vsh(self, n, rho, ct, st, cp, sp, kind):
        """(M_o, M_e, N_o, N_e) spherical components of one order, radial function psi or zeta"""
        f, df = (psi, dpsi) if kind == 1 else (zeta, dzeta)
        zn = f(n, rho) / rho
        dz = df(n, rho) / rho
        p, t = pitau(n, ct)
        nn = X(n * (n + 1))
        Mo = (X(0), cp * p * zn, -(sp * t * zn))
        Me = (X(0), -(sp * p * zn), -(cp * t * zn))
        No = (sp * nn * st * p * zn / rho, sp * t * dz, cp * p * dz)
        Ne = (cp * nn * st * p * zn / rho, cp * t * dz, -(sp * p * dz))
        return Mo, Me, No, Ne

    def fields(self, N, region, pos, E0):
        """(E, H) cartesian, sum of orders 1..N; region L: scattered field"""
        x, y, z = [X(a) for a in pos]
        r = (x * x + y * y + z * z).sqrt()
        theta = X(vnm.acos((z / r).v))
        return self._fields(N, region, r, theta, None, E0)

    def _fields(self, N, region, r, theta, phi, E0):
        ct, st, cp, sp = cos(theta), sin(theta), cos(phi), sin(phi)
        nmed = (self.nl + [self.nenv])[region]
        rho = self.k0 * nmed * r
        E, H = [X(0)] * 3, [X(0)] * 3
        for n in range(1, N + 1):
            En = X(1j ** (n % 4) if n % 4 else 1) * E0 * X(2 * n + 1) / X(n * (n + 1))
            if n % 4:
                En = X({1: 1j, 2: -1, 3: -1j}[n % 4]) * E0 * X(2 * n + 1) / X(n * (n + 1))
            c = self.coeffs(n)
            d, a = c["regions_a"][region]
            cc, b = c["regions_b"][region]
            if region == self.L:
                d, cc = X(0), X(0)
            M1o, M1e, N1o, N1e = self.vsh(n, rho, ct, st, cp, sp, 1)
            M3o, M3e, N3o, N3e = self.vsh(n, rho, ct, st, cp, sp, 3)
            for i in range(3):
                E[i] = E[i] + En * (cc * M1o[i] - I_ * d * N1e[i] + I_ * a * N3e[i] - b * M3o[i])
                H[i] = H[i] - nmed * En * (d * M1e[i] + I_ * cc * N1o[i] - I_ * b * N3o[i] - a * M3e[i])
        out = []
        for f in (E, H):
            out.append((f[0] * st * cp + f[1] * ct * cp - f[2] * sp,
                        f[0] * st * sp + f[1] * ct * sp + f[2] * cp,
                        f[0] * ct - f[1] * st))
        return out
