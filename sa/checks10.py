"""Order-indexed special functions (C21)."""
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings

SP_ = "pymiediff.special."


class Ref_:
    """exact sequences with their closed starting values"""

    def __init__(self, z):
        self.z = X(z)
        c, s = cos(self.z), sin(self.z)
        self.j = {-1: c / self.z, 0: s / self.z}
        self.y = {-1: s / self.z, 0: -(c / self.z)}

    def f(self, kind, n):
        t = {"j": self.j, "y": self.y}.get(kind)
        if t is None:
            return self.f("j", n) + I_ * self.f("y", n)
        if n not in t:
            t[n] = X(2 * n - 1) / self.z * self.f(kind, n - 1) - self.f(kind, n - 2)
        return t[n]

    def df(self, kind, n):
        return self.f(kind, n - 1) - X(n + 1) / self.z * self.f(kind, n)

    def psi(self, n):
        return self.z * self.f("j", n)

    def zeta(self, n):
        return self.z * self.f("h", n)

    def D1(self, n):
        return self.f("j", n - 1) / self.f("j", n) - X(n) / self.z

    def D3(self, n):
        return self.f("h", n - 1) / self.f("h", n) - X(n) / self.z


def exact_seq(z, N, f, dt="c128"):
    """tensor of the exact sequence for orders 0..N"""
    R = [Ref_(e.v) for e in z.el]
    sh = z.shape if z.shape else ((cdim(1)),)
    return T((cdim(N + 1),) + sh, dt, z.dev, [Elem(f(q, n).v, live=e.live, mix=e.mix) for n in range(N + 1) for q, e in zip(R, z.el)])


def group(z):
    """exp is a homomorphism on the combinations of Re z and Im z that can occur"""
    for e in z if isinstance(z, list) else [z]:
        v = e.v
        re_, im_ = vnm.re(v), vnm.im(v)
        vnm.exp_group([vnm.mul(vnm.const(1j), re_), im_], 4)


def group2(a, b):
    vnm.exp_group([vnm.mul(vnm.const(1j), vnm.re(a.v)), vnm.mul(vnm.const(1j), vnm.re(b.v)), vnm.im(a.v), vnm.im(b.v)], 2)


@check("C21", "Interpretation of every order-indexed special function at concrete highest orders with the argument symbolic: each entry must equal, in exact field arithmetic, the starting value or the recurrence applied to its neighbours "
              "(or the exact sequence itself, when its inputs are exact), at its own order.")
def c21(tier):
    out = []
    NS = (0, 1, 2, 3, 5, 24, 60) if tier == "quick" else (0, 1, 2, 3, 4, 5, 7, 9, 12, 17, 24, 33, 48, 90)
    DIMS = ((), ("K",), (2,), ("P", "K"))

    def begin(ctx, fname, dims, dt, np_dev=False):
        r = Run()
        z = r.leaf("zz", dims, dt=dt, dev="cpu" if np_dev else "D")
        group(list(z.el))
        return r, z

    def result(ctx, r, v, what, fname, n, m, pick=None):
        """the tensor with n entries of m values, or None after reporting"""
        ctx.saw(r.ip)
        if r.err is not None:
            ctx.und(what, "%s: %s" % (r.err.etype, r.err.msg))
            return None
        if pick is not None:
            v = v[pick] if isinstance(v, tuple) and len(v) > pick else None
        if not isinstance(v, T) or v.shape is None:
            ctx.und(what, "result not determined")
            return None
        if len(v.el) != n * m:
            ctx.expect(False if not any(f_.k != "c" for d in v.shape[:1] for f_ in d) and len(v.el) % m == 0 and not risky_(r) else None,
                       what + ": one entry per order from 0 to n_max", "%d values instead of %d" % (len(v.el), n * m), func=fname, kind="count")
            return None
        return [X(e.v) for e in v.el]

    def risky_(r):
        return sorted(o for o in vnm.OPS if o not in SAFE and o not in ("spherical_jn", "spherical_yn", "downward recurrence"))

    def tell(ctx, r, ok, what, detail, fname, kind):
        if ok:
            return ctx.ok(what)
        rk = risky_(r)
        if rk:
            return ctx.und(what, "differs, but the calculation uses %s" % ", ".join(rk[:5]))
        ctx.bad(what, detail, func=fname, kind=kind)

    def opts_of(**kw):
        return {k: v for k, v in kw.items() if v is not None}

    # ---- logarithmic derivatives of the first kind
    def d1(ctx, fname, N, add, dims, dt, prec):
        vnm.OPS.clear()
        r, z = begin(ctx, fname, dims, dt)
        v = r.call(SP_ + fname, N, z, **opts_of(n_add=add, precision=prec))
        what = "%s(n=%d, n_add=%s, z%s %s%s)" % (fname, N, add, list(dims), dt, ", " + prec if prec else "")
        m = len(z.el)
        e = result(ctx, r, v, what, fname, N + 1, m)
        if e is None:
            return
        for q in range(m):
            zz = X(z.el[q].v)
            D_ = [e[n * m + q] for n in range(N + 1)]
            for n in range(1, N + 1):
                tell(ctx, r, D_[n - 1] == X(n) / zz - X(1) / (D_[n] + X(n) / zz), what + ": D_%d follows from D_%d" % (n - 1, n), "the ratio recurrence does not hold", fname, "recurrence")
            a = add if add is not None else 15
            hit = None
            for s in range(N, N + a + 30):
                d = X(0)
                for n in range(s, N, -1):
                    d = X(n) / zz - X(1) / (d + X(n) / zz)
                if d == D_[N]:
                    hit = s
                    break
            if hit is None:
                ctx.und(what + ": start", "not a downward recurrence from zero")
            else:
                tell(ctx, r, hit >= N + a - 1, what + ": the downward recurrence starts n_add orders above the highest one", "starts at order %d" % hit, fname, "start")
    for fname in ("pena_D1_n", "D1n_torch"):
        for N in NS:
            for add in ((None, 4, 10) if fname == "pena_D1_n" else (4, 10)):
                for dims, dt, prec in (((), "c128", None), (("K",), "c128", None), ((2,), "f64", "double"), (("P", "K"), "c64", "single")):
                    out.append(("%s %d %s %s %s %s" % (fname, N, add, dims, dt, prec), lambda c, z=(fname, N, add, dims, dt, prec): d1(c, *z)))

    # ---- of the third kind, from the exact first kind
    def d3(ctx, fname, N, dims, dt, prec):
        vnm.OPS.clear()
        r, z = begin(ctx, fname, dims, dt)
        D1t = exact_seq(z, N, lambda q, n: q.D1(n))
        v = r.call(SP_ + fname, N, z, D1t, **opts_of(precision=prec))
        what = "%s(n=%d, z%s %s)" % (fname, N, list(dims), dt)
        m = len(z.el)
        e = result(ctx, r, v, what, fname, N + 1, m, pick=0 if isinstance(v, tuple) else None)
        if e is None:
            return
        for q in range(m):
            R = Ref_(z.el[q].v)
            for n in range(N + 1):
                tell(ctx, r, e[n * m + q] == R.D3(n), what + ": entry %d is the derivative of order %d" % (n, n), "differs from zeta'/zeta", fname, "value")
        if isinstance(v, tuple):
            e = result(ctx, r, v, what, fname, N + 1, m, pick=1)
            for q in range(m):
                R = Ref_(z.el[q].v)
                for n in range(N + 1):
                    tell(ctx, r, e is None or e[n * m + q] == R.psi(n) * R.zeta(n), what + ": product of order %d" % n, "differs from psi*zeta", fname, "product")
    for fname in ("pena_D3_n", "D3n_torch"):
        for N in NS:
            for dims, dt, prec in (((), "c128", None), (("K",), "c128", None), ((2,), "c128", "double"), (("P", "K"), "f64", None)):
                if fname == "D3n_torch" and dims == ():
                    continue
                out.append(("%s %d %s %s %s" % (fname, N, dims, dt, prec), lambda c, z=(fname, N, dims, dt, prec): d3(c, *z)))

    # ---- Riccati-Bessel functions and the layer ratio from exact derivatives
    def pz(ctx, N, dims, dt, prec):
        vnm.OPS.clear()
        f = "pena_psi_zeta_n"
        r, z = begin(ctx, f, dims, dt)
        v = r.call(SP_ + f, N, z, exact_seq(z, N, lambda q, n: q.D1(n)), exact_seq(z, N, lambda q, n: q.D3(n)), **opts_of(precision=prec))
        what = "%s(n=%d, z%s %s)" % (f, N, list(dims), dt)
        m = len(z.el)
        for i, nm in enumerate(("psi", "zeta")):
            e = result(ctx, r, v, what, f, N + 1, m, pick=i)
            if e is None:
                continue
            for q in range(m):
                R = Ref_(z.el[q].v)
                for n in range(N + 1):
                    tell(ctx, r, e[n * m + q] == (R.psi(n) if i == 0 else R.zeta(n)), what + ": %s of order %d" % (nm, n), "differs from the Riccati-Bessel function", f, nm)
    for N in NS:
        for dims, dt, prec in (((), "c128", None), (("K",), "c128", None), ((2,), "c64", "single"), (("P", "K"), "f64", None)):
            out.append(("psi zeta %d %s %s" % (N, dims, dt), lambda c, z=(N, dims, dt, prec): pz(c, *z)))

    def qn(ctx, N, dims, dt, prec):
        vnm.OPS.clear()
        f = "pena_Q_n"
        r = Run()
        x1, x2, mm = r.leaf("x1", dims, dt="f64"), r.leaf("x2", dims, dt="f64"), r.leaf("mm", dims, dt=dt)
        z1, z2 = r.ip.binop("Mult", mm, x1), r.ip.binop("Mult", mm, x2)
        for a, b in zip(z1.el, z2.el):
            group2(a, b)
        a = [exact_seq(z, N, g) for g in (lambda q, n: q.D1(n), lambda q, n: q.D3(n)) for z in (z1, z2)]
        v = r.call(SP_ + f, N, z1, z2, x1, x2, *a, **opts_of(precision=prec))
        what = "%s(n=%d, %s %s)" % (f, N, list(dims), dt)
        m = len(z1.el)
        e = result(ctx, r, v, what, f, N + 1, m)
        if e is None:
            return
        for q in range(m):
            R1, R2 = Ref_(z1.el[q].v), Ref_(z2.el[q].v)
            for n in range(N + 1):
                tell(ctx, r, e[n * m + q] == (R1.psi(n) / R1.zeta(n)) / (R2.psi(n) / R2.zeta(n)), what + ": ratio of order %d" % n, "differs from psi/zeta at the inner radius over psi/zeta at the outer one", f, "ratio")
    for N in NS:
        for dims, dt, prec in (((), "c128", None), (("K",), "c128", None), ((2,), "c64", "single"), (("P", "K"), "f64", None)):
            out.append(("Q %d %s %s" % (N, dims, dt), lambda c, z=(N, dims, dt, prec): qn(c, *z)))

    # ---- torch-native Bessel functions
    def jn_(ctx, fname, N, add, dims, dt, prec):
        vnm.OPS.clear()
        r, z = begin(ctx, fname, dims, dt)
        r.ip.tm.keep_tiny = fname == "sph_jn_torch_via_rec"
        v = r.call(SP_ + fname, N, z, **opts_of(n_add=add, precision=prec))
        what = "%s(n=%d, n_add=%s, z%s %s)" % (fname, N, add, list(dims), dt)
        m = len(z.el)
        e = result(ctx, r, v, what, fname, N + 1, m)
        if e is None:
            return
        for q in range(m):
            zz = X(z.el[q].v)
            J = [e[n * m + q] for n in range(N + 1)]
            tell(ctx, r, J[0] == sin(zz) / zz, what + ": order 0 is sin z / z", "another starting value", fname, "start value")
            for n in range(1, N):
                tell(ctx, r, J[n - 1] + J[n + 1] == X(2 * n + 1) / zz * J[n], what + ": orders %d to %d" % (n - 1, n + 1), "the three-term recurrence does not hold", fname, "recurrence")
            if N:
                hit = None
                for s in range(N, N + add + 30):
                    t = X(0)
                    for n in range(s, N - 1, -1):
                        t = X(1) / (X(2 * n + 1) / zz - t)
                    if t == J[N] / J[N - 1]:
                        hit = s
                        break
                if hit is None:
                    ctx.und(what + ": start", "not a downward recurrence from zero")
                else:
                    tell(ctx, r, hit >= N + add - 2, what + ": the downward recurrence starts n_add orders above the highest one", "starts at order %d" % hit, fname, "start")
    for fname in ("sph_jn_torch", "sph_jn_torch_via_rec"):
        for N in NS:
            for add in (6, 20):
                for dims, dt, prec in (((), "c128", None), (("K",), "c128", None), (("K",), "f64", "double"), (("P", "K"), "c64", "single")):
                    out.append(("%s %d %s %s %s" % (fname, N, add, dims, dt), lambda c, z=(fname, N, add, dims, dt, prec): jn_(c, *z)))

    def yn_(ctx, N, dims, dt):
        vnm.OPS.clear()
        f = "sph_yn_torch"
        r, z = begin(ctx, f, dims, dt)
        v = r.call(SP_ + f, N, z)
        what = "%s(n=%d, z%s %s)" % (f, N, list(dims), dt)
        m = len(z.el)
        e = result(ctx, r, v, what, f, N + 1, m)
        if e is None:
            return
        for q in range(m):
            R = Ref_(z.el[q].v)
            for n in range(N + 1):
                tell(ctx, r, e[n * m + q] == R.f("y", n), what + ": entry %d is the function of order %d" % (n, n), "differs", f, "value")
    for N in NS:
        for dims, dt in (((), "c128"), (("K",), "c128"), ((2,), "f64"), (("P", "K"), "c64")):
            out.append(("yn %d %s %s" % (N, dims, dt), lambda c, z=(N, dims, dt): yn_(c, *z)))

    # ---- order derivative, Riccati forms
    def fder(ctx, N, kind, dims, dt):
        vnm.OPS.clear()
        f = "f_der"
        r, z = begin(ctx, f, dims, dt)
        v = r.call(SP_ + f, N, z, exact_seq(z, N, lambda q, n: q.f(kind, n)))
        what = "%s(n=%d, %s, z%s %s)" % (f, N, kind, list(dims), dt)
        m = len(z.el)
        e = result(ctx, r, v, what, f, N + 1, m)
        if e is None:
            return
        for q in range(m):
            R = Ref_(z.el[q].v)
            for n in range(N + 1):
                tell(ctx, r, e[n * m + q] == R.df(kind, n), what + ": derivative of order %d" % n, "differs", f, "value")
    for N in NS[1:]:
        for kind in "jyh":
            for dims, dt in (((), "c128"), (("K",), "c128"), ((2,), "c128"), (("P", "K"), "c64")):
                out.append(("f_der %d %s %s %s" % (N, kind, dims, dt), lambda c, z=(N, kind, dims, dt): fder(c, *z)))

    def summary(kind):
        def h(ip, fn, args, kw):
            loc = ip.bind(fn, list(args), dict(kw))
            n, z = loc.get("n"), loc.get("z")
            l = ip.tm.as_scalar_lin(n)
            if l is None or not l.is_const or not isinstance(z, T):
                return MISSING
            return exact_seq(z, l.c, lambda q, k: q.f(kind, k))
        return h
    from interp import MISSING
    BESS = {"sph_jn": "j", "sph_yn": "y", "sph_h1n": "h", "sph_jn_torch": "j", "sph_jn_torch_via_rec": "j", "sph_yn_torch": "y", "sph_h1n_torch": "h"}

    def riccati(ctx, f, N, dims, dt):
        vnm.OPS.clear()
        r, z = begin(ctx, f, dims, dt, np_dev=not f.endswith("torch"))
        for k, v in BESS.items():
            r.ip.hooks[SP_ + k] = summary(v)
        v = r.call(SP_ + f, N, z)
        what = "%s(n=%d, z%s %s)" % (f, N, list(dims), dt)
        kind = dict(psi="j", chi="y", xi="h")[f.split("_")[0]]
        sg = X(-1) if kind == "y" else X(1)
        m = len(z.el)
        for i in (0, 1):
            e = result(ctx, r, v, what, f, N + 1, m, pick=i)
            if e is None:
                continue
            for q in range(m):
                R = Ref_(z.el[q].v)
                for n in range(N + 1):
                    w = sg * R.z * R.f(kind, n) if i == 0 else sg * (R.f(kind, n) + R.z * R.df(kind, n))
                    tell(ctx, r, e[n * m + q] == w, what + ": %s of order %d" % ("function" if i == 0 else "derivative", n), "differs", f, "function" if i == 0 else "derivative")
    for f in ("psi", "chi", "xi", "psi_torch", "chi_torch", "xi_torch"):
        for N in NS[1:]:
            for dims, dt in (((), "c128"), (("K",), "c128"), ((2,), "c128"), (("P", "K"), "c64")):
                out.append(("%s %d %s %s" % (f, N, dims, dt), lambda c, z=(f, N, dims, dt): riccati(c, *z)))

    # ---- SciPy based functions: entry n is order n
    def scipy_(ctx, f, N, dims, dt, nkind):
        vnm.OPS.clear()
        r, z = begin(ctx, f, dims, dt, np_dev=not f.endswith("torch"))
        n = N if nkind == "int" else T((), "i64", z.dev, [const_elem(N)])
        v = r.call(SP_ + f, n, z)
        what = "%s(n=%d %s, z%s %s)" % (f, N, nkind, list(dims), dt)
        m = len(z.el)
        e = result(ctx, r, v, what, f, N + 1, m)
        if e is None:
            return
        single = []
        base = {"sph_jn": ("spherical_jn",), "sph_yn": ("spherical_yn",), "sph_h1n": ("spherical_jn", "spherical_yn")}[f.replace("_der", "")]
        der = f.endswith("_der")
        mod = r.ip.load("pymiediff.special")
        for k in range(N + 1):
            for q in range(m):
                t = []
                for b in base:
                    fn = Ext("scipy.special." + b)
                    x = r.ip.call(fn, [T((), "i64", "cpu", [const_elem(k)], np=True), T((), z.dt, "cpu", [Elem(z.el[q].v)], np=True)], {"derivative": True} if der else {})
                    t.append(X(x.el[0].v) if isinstance(x, T) else None)
                if any(y is None for y in t):
                    return ctx.und(what, "reference not determined")
                single.append(t[0] if len(t) == 1 else t[0] + I_ * t[1])
        for k in range(N + 1):
            for q in range(m):
                tell(ctx, r, e[k * m + q] == single[k * m + q], what + ": entry %d is order %d" % (k, k), "another order, argument or kind", f, "order")
    for f in ("sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der"):
        for N in NS:
            for dims, dt, nk in (((), "c128", "int"), (("K",), "c128", "int"), ((2,), "c128", "tensor"), (("P", "K"), "c128", "tensor")):
                out.append(("%s %d %s %s" % (f, N, dims, nk), lambda c, z=(f, N, dims, dt, nk): scipy_(c, *z)))

    def hankel(ctx, N, dims, dt):
        vnm.OPS.clear()
        f = "sph_h1n_torch"
        r, z = begin(ctx, f, dims, dt)
        for k in ("sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch"):
            r.ip.hooks[SP_ + k] = summary(BESS[k])
        v = r.call(SP_ + f, N, z)
        what = "%s(n=%d, z%s)" % (f, N, list(dims))
        m = len(z.el)
        e = result(ctx, r, v, what, f, N + 1, m)
        if e is None:
            return
        for q in range(m):
            R = Ref_(z.el[q].v)
            for n in range(N + 1):
                tell(ctx, r, e[n * m + q] == R.f("h", n), what + ": order %d is j + i y" % n, "differs", f, "value")
    for N in NS:
        for dims in DIMS:
            out.append(("h1n %d %s" % (N, dims), lambda c, z=(N, dims, "c128"): hankel(c, *z)))

    # ---- angular functions
    def pt(ctx, N, dims, nkind, dt):
        vnm.OPS.clear()
        f = "pi_tau"
        r = Run()
        mu = r.leaf("mu", dims, dt=dt)
        n = N if nkind == "int" else T((), "i64", "D", [const_elem(N)])
        v = r.call(SP_ + f, n, mu)
        what = "%s(n=%d %s, mu%s)" % (f, N, nkind, list(dims))
        m = len(mu.el)
        for i, nm in enumerate(("pi", "tau")):
            e = result(ctx, r, v, what, f, N + 1, m, pick=i)
            if e is None:
                continue
            for q in range(m):
                for k in range(N + 1):
                    w = pitau(k, mu.el[q].v)[i] if k else X(0)
                    tell(ctx, r, e[k * m + q] == w, what + ": %s of order %d" % (nm, k), "differs", f, nm)
    for N in NS[1:]:
        for dims in DIMS + ((2, "K"),):
            for nk, dt in (("int", "f64"), ("tensor", "f32")):
                out.append(("pi_tau %d %s %s" % (N, dims, nk), lambda c, z=(N, dims, nk, dt): pt(c, *z)))
    return uniq(out)
