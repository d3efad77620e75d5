"""Checks that compare value numbers with the exact theory."""
from frame import check
from theory import *
from sets import *
from checks import opened

ALLB = ("pena", "torch", "scipy")


def cfg(tier, quick, deep):
    return list(quick) + (list(deep) if tier == "thorough" else [])


# ---------------------------------------------------------------- C02
def forward_of(out, n, z):
    """which function of order n, argument z has value number out"""
    for nm, f in (("j", jn), ("y", yn), ("h1", hn)):
        if eqv(out, f(n, z)):
            return nm, f, 0
        if eqv(out, der(f, n, z)):
            return nm + "'", f, 1
    return None


@check("C02", "Global value numbering of every torch.autograd.Function: the backward value number must equal incoming gradient times the "
              "conjugate of the derivative (from the spherical Bessel equation) of the function the forward pass computes.")
def c02(tier):
    def one(ctx, nm, n, zdt, dims):
        sc = opened(ctx, lambda: special(nm, n=n, zdt=zdt, dims=dims))
        if sc is None:
            return
        ev = sc.events("customfn")
        if not ev:
            ctx.und("hand-written backward of %s" % nm, "no autograd.Function is applied any more")
        for e in ev:
            args, out, g = e["args"], e["out"], e["gradout"]
            if len(args) != 2 or not all(isinstance(a, T) for a in args):
                ctx.und("backward of %s" % e["cls"], "unexpected signature")
                continue
            nn, z = args
            gr = e["grads"]
            if not isinstance(gr, tuple) or len(gr) != 2:
                ctx.und("backward of %s" % e["cls"], gr)
                continue
            ctx.expect(gr[0] is None, "no gradient for the integer order in %s" % e["cls"], "returns %r" % (gr[0],), kind="ngrad", func=e["cls"])
            q = gr[1]
            if not isinstance(q, T) or len(z.el) != 1 or len(nn.el) != len(out.el):
                ctx.und("gradient of %s" % e["cls"], q)
                continue
            if len(q.el) != len(out.el):
                ctx.und("gradient of %s" % e["cls"], "gradient is reduced explicitly")
                continue
            bad = []
            for i, o in enumerate(out.el):
                f = forward_of(o.v, nn.el[i].v, z.el[0].v)
                if f is None:
                    ctx.und("forward of %s" % e["cls"], "not a spherical Bessel function")
                    bad = None
                    break
                nv, zv = X(nn.el[i].v), X(z.el[0].v)
                d = der(f[1], nv, zv)
                if f[2]:
                    d = -(X(2) / zv) * d - (X(1) - nv * (nv + 1) / (zv * zv)) * f[1](nv, zv)
                if not eqv(q.el[i].v, X(g.el[min(i, len(g.el) - 1)].v) * d.conj()):
                    bad.append((i, f[0]))
            if bad is None:
                continue
            if bad and risky(sc):
                ctx.und("gradient of %s" % e["cls"], risky(sc))
            elif bad:
                ctx.bad("backward of %s is gradient times conjugate derivative" % e["cls"], "for the forward function %s (%s), argument %s"
                        % (bad[0][1], nm, zdt), kind="vjp", func=e["cls"])
            else:
                ctx.ok("backward of %s is gradient times conjugate derivative" % e["cls"])
    out = []
    for nm in SPECIALS_SCIPY:
        for n in cfg(tier, (None, 3), (0, 1, 2, 6)):
            for zdt in ("c128", "f64"):
                for dims in (("P", "K"), ()) if n == 3 or tier == "thorough" else (("P", "K"),):
                    out.append(("%s n=%s %s %d-d" % (nm, n, zdt, len(dims)), lambda c, a=(nm, n, zdt, dims): one(c, *a)))
    return out


# ---------------------------------------------------------------- C13
def cs_ref(k, r, a, b):
    """dict of reference values, a/b lists over orders"""
    N = len(a)
    pre = X(2) * PI_ / (k * k)
    ext = [[pre * X(2 * i + 3) * q[i].re for i in range(N)] for q in (a, b)]
    sca = [[pre * X(2 * i + 3) * q[i].abs2 for i in range(N)] for q in (a, b)]
    ab = [[x - y for x, y in zip(p, q)] for p, q in zip(ext, sca)]
    geo = PI_ * r * r
    d = {}
    for nm, m in (("ext", ext), ("sca", sca), ("abs", ab)):
        fl = m[0] + m[1]
        s = X(0)
        for q in fl:
            s = s + q
        d["cs_%s_multipoles" % nm] = fl
        d["q_%s_multipoles" % nm] = [q / geo for q in fl]
        d["cs_" + nm] = [s]
        d["q_" + nm] = [s / geo]
    d["cs_geo"] = [geo]
    return d


def ang_ref(mu, a, b):
    s1 = s2 = X(0)
    for i, (p, q) in enumerate(zip(a, b)):
        n = i + 1
        pi, tau = pitau(n, mu)
        w = X(2 * n + 1) / X(n * (n + 1))
        s1 = s1 + w * (p * pi + q * tau)
        s2 = s2 + w * (p * tau + q * pi)
    ip, il = s1.abs2, s2.abs2
    return dict(S1=[s1], S2=[s2], i_per=[ip], i_par=[il], i_unpol=[(ip + il) / 2], pol_degree=[(ip - il) / (ip + il)])


@check("C13", "Value-numbered observables are compared with the textbook expressions over the value numbers of the coefficients returned "
              "for the same inputs (exact field arithmetic, each order separately).")
def c13(tier):
    def cs(ctx, be, L, n, lay):
        a = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n=n, **lay))
        s = opened(ctx, lambda: solved("cross_sections", backend=be, L=L, n=n, **lay))
        if a is None or s is None:
            return
        an, bn = vals(a.get("a_n")), vals(a.get("b_n"))
        if an is None or bn is None or len(an) != n:
            ctx.und("coefficients", a.get("a_n"))
            return
        m = mie_of(s.kw)
        for k, ref in cs_ref(m.k, m.r[-1], an, bn).items():
            t = s.get(k)
            if t is None:
                ctx.und("'%s'" % k, "not returned")
                continue
            agree(ctx, s, t, ref, "cross_sections '%s' follows from the coefficients" % k, "formula", "cross_sections")

    def an(ctx, be, L, n, lay):
        a = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n=n, **lay))
        s = opened(ctx, lambda: solved("angular_scattering", backend=be, L=L, n=n, **lay))
        if a is None or s is None:
            return
        an_, bn = vals(a.get("a_n")), vals(a.get("b_n"))
        if an_ is None or bn is None or len(an_) != n:
            ctx.und("coefficients", a.get("a_n"))
            return
        for k, ref in ang_ref(cos(s.kw["theta"].el[0].v), an_, bn).items():
            agree(ctx, s, s.get(k), ref, "angular_scattering '%s' follows from the coefficients" % k, "formula", "angular_scattering")

    def sym(ctx, be, L):
        """any order: multipole contributions at the generic order, totals as the sum over them"""
        a = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n="N"))
        s = opened(ctx, lambda: solved("cross_sections", backend=be, L=L, n="N"))
        if a is None or s is None:
            return
        A, B = a.get("a_n"), a.get("b_n")
        if not (isinstance(A, T) and isinstance(B, T) and len(A.el) == len(B.el) == 1):
            ctx.und("coefficients", A)
            return
        m = mie_of(s.kw)
        n = X(vnm.index(0))
        pre = X(2) * PI_ / (m.k * m.k) * (n * 2 + 1)
        geo = PI_ * m.r[-1] ** 2
        ext = [pre * X(q.el[0].v).re for q in (A, B)]
        sca = [pre * X(q.el[0].v).abs2 for q in (A, B)]
        for nm, ref in (("ext", ext), ("sca", sca), ("abs", [x - y for x, y in zip(ext, sca)])):
            for pf, d in (("cs_", X(1)), ("q_", geo)):
                t = s.get("%s%s_multipoles" % (pf, nm))
                soft(ctx, s, t, [q / d for q in ref], "cross_sections '%s%s_multipoles' at every order" % (pf, nm))
    out = []
    lays = [dict(), dict(P=None, eps="L"), dict(legacy="cs", eps="PK")]
    for be in ALLB:
        for n in cfg(tier, (1, 2, 3, 6, 12), (4, 8, 16, 24)):
            for L in (1, 2) if be != "pena" else (1, 3, 5):
                for lay in lays if n == 2 or tier == "thorough" else lays[:1]:
                    if lay.get("legacy") and L != 2:
                        continue
                    out.append(("cross_sections %s L=%d n_max=%d %s" % (be, L, n, lay), lambda c, z=(be, L, n, lay): cs(c, *z)))
                    out.append(("angular_scattering %s L=%d n_max=%d %s" % (be, L, n, lay), lambda c, z=(be, L, n, lay): an(c, *z)))
        out.append(("cross_sections %s any order" % be, lambda c, b=be: sym(c, b, 2)))
    return out


def soft(ctx, sc, t, refs, what):
    """agreement at the generic symbolic order; disagreement alone decides nothing"""
    if isinstance(t, T) and len(t.el) == len(refs) and all(eqv(e.v, q) for e, q in zip(t.el, refs)):
        ctx.ok(what)
    else:
        ctx.und(what, "not decided for a symbolic order (decided for the concrete orders)")


# ---------------------------------------------------------------- C14
def regions_for(L):
    return [(i, None) for i in range(L + 1)] + [(i, i) for i in range(L)]


@check("C14", "Case analysis over the position of the probe radius relative to the layer radii (comparison outcomes fixed per region): in each "
              "case the value number of every field must be that of exactly this region, and total = scattered + incident only outside.")
def c14(tier):
    def one(ctx, be, L, n, reg, on, lay):
        sc = opened(ctx, lambda: near(be, L=L, n=n, region=reg, on=on, **lay))
        if sc is None:
            return
        # exactly on an interface the inner region (region = on) or the outer one may be chosen, but consistently
        refs = [near_ref(sc, n, reg)]
        if on is not None:
            refs.append(near_ref(sc, n, reg + 1))
        names = ["E_i", "H_i", "E_t", "H_t"] + (["E_s", "H_s"] if reg == L else [])
        good = []
        for j, ref in enumerate(refs):
            fail = []
            for k in names:
                t = sc.get(k)
                if not isinstance(t, T) or len(t.el) != 3:
                    ctx.und("field %s" % k, t)
                    return
                if not all(eqv(e.v, q) for e, q in zip(t.el, ref[k])):
                    fail.append(k)
            good.append(fail)
        if any(not f for f in good):
            for k in names:
                ctx.ok("%s in region %d of %d%s" % (k, reg, L, " on the interface" if on is not None else ""))
            return
        rk = risky(sc)
        f = min(good, key=len)
        what = "field of the region of the probe point (region %d of %d%s)" % (reg, L, ", exactly on the interface" if on is not None else "")
        if rk:
            ctx.und(what, "%s differ, but the calculation uses %s" % (", ".join(f), ", ".join(rk)))
        else:
            ctx.bad(what, "%s: %s differ from the field of that region" % (sc.name, ", ".join(f)), kind="region", func="nearfields %s" % be)
    out = []
    for be in ("pena", "torch"):
        for L in ((1, 2, 3, 4, 5) if be == "pena" else (1, 2)):
            for reg, on in regions_for(L):
                for n in cfg(tier, (1, 2, 5) if L < 4 else (1,), (3, 8)):
                    if n == 1 and on is None and tier != "thorough":
                        continue
                    out.append(("nearfields %s L=%d n=%d region %d%s" % (be, L, n, reg, " interface" if on is not None else ""),
                                lambda c, z=(be, L, n, reg, on, {}): one(c, *z)))
        for lay in (dict(P=None, K=None, eps="L"), dict(envdt="c128"), dict(opts=(("which_jn", "ratios"),))) if be == "torch" or tier == "thorough" else \
                (dict(P=None, K=None, eps="L"), dict(envdt="c128")):
            for reg, on in regions_for(2):
                out.append(("nearfields %s L=2 %s region %d%s" % (be, lay, reg, " interface" if on is not None else ""),
                            lambda c, z=(be, 2, 1, reg, on, lay): one(c, *z)))
    if tier == "thorough":
        for L in (6, 8):
            for reg, on in regions_for(L):
                out.append(("nearfields pena L=%d n=1 region %d" % (L, reg), lambda c, z=("pena", L, 1, reg, on, {}): one(c, *z)))
    return out


# ---------------------------------------------------------------- C22
@check("C22", "With exact summaries of the special functions, the value numbers of all coefficients must equal those of the solution of the "
              "layer-by-layer boundary conditions; vector harmonics and coordinate transforms must equal their definitions.")
def c22(tier):
    def coef(ctx, be, L, n, lay):
        sc = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n=n, **lay))
        if sc is None:
            return
        m = mie_of(sc.kw)
        if n == "N":
            ra, rb = m.ab(vnm.index(0))
            soft(ctx, sc, sc.get("a_n"), [ra], "a_n solves the boundary conditions at every order")
            soft(ctx, sc, sc.get("b_n"), [rb], "b_n solves the boundary conditions at every order")
            return
        ab = [m.ab(i + 1) for i in range(n)]
        ok = True
        for k, j in (("a_n", 0), ("b_n", 1)):
            ok = coef_agree(ctx, sc, sc.get(k), [q[j] for q in ab], "%s solves the boundary conditions of %d layers" % (k, L), be, L, n, lay, k)
        if dict(lay.get("opts", ())).get("return_internal"):
            for k, typ, reg, j in (("c_n", "b", 0, 0), ("d_n", "a", 0, 0)):
                agree(ctx, sc, sc.get(k), [m.coeffs(i + 1)["regions_" + typ][reg][j] for i in range(n)],
                      "%s solves the boundary conditions" % k, "boundary", "mie_coefficients %s" % be)
            # shell: f psi - v chi (magnetic), g psi - w chi (electric), with zeta = psi - i chi
            if L == 2:
                for k, typ, f in (("f_n", "b", 0), ("g_n", "a", 0), ("v_n", "b", 1), ("w_n", "a", 1)):
                    ref = []
                    for i in range(n):
                        p, q = m.coeffs(i + 1)["regions_" + typ][1]
                        ref.append(p - q if f == 0 else -(I_ * q))
                    agree(ctx, sc, sc.get(k), ref, "%s solves the boundary conditions" % k, "boundary", "mie_coefficients %s" % be)

    def vshc(ctx, name, kind, n):
        sc = opened(ctx, lambda: vsh_exact(name, kind, n))
        if sc is None:
            return
        v = sc.value
        if not isinstance(v, tuple) or len(v) != 4:
            ctx.und("vector harmonics", v)
            return
        k0, nm, r, th_, ph = [X(q.el[0].v) for q in sc.args[1:6]]
        rho = k0 * nm * r
        f, df = {1: (psi, dpsi), 2: (chi, dchi), 3: (zeta, dzeta)}[kind]
        refs = [[], [], [], []]
        for i in range(1, n + 1):
            zn, dz = f(i, rho) / rho, df(i, rho) / rho
            p, t = pitau(i, cos(th_))
            nn = X(i * (i + 1))
            ct, st, cp, sp = cos(th_), sin(th_), cos(ph), sin(ph)
            s = -1 if kind == 2 else 1
            refs[0] += [X(0), cp * p * zn, -(sp * t * zn)]
            refs[1] += [X(0), -(sp * p * zn), -(cp * t * zn)]
            refs[2] += [sp * nn * st * p * zn / rho, sp * t * dz, cp * p * dz]
            refs[3] += [cp * nn * st * p * zn / rho, cp * t * dz, -(sp * p * dz)]
        for nmv, t, ref in zip(("M_o1n", "M_e1n", "N_o1n", "N_e1n"), v, refs):
            agree(ctx, sc, t, ref, "%s of kind %d (%s)" % (nmv, kind, name), "vsh", name)

    def transf(ctx):
        sc = opened(ctx, lambda: helper("transform_fields_spherical_to_cartesian"))
        if sc is not None:
            r = sc.run
            e = [X(vnm.leaf(q, real=False)) for q in ("E_r", "E_t", "E_ph")]
            t, p = X(vnm.leaf("theta")), X(vnm.leaf("phi"))
            ref = ([e[0] * sin(t) * cos(p) + e[1] * cos(t) * cos(p) - e[2] * sin(p)],
                   [e[0] * sin(t) * sin(p) + e[1] * cos(t) * sin(p) + e[2] * cos(p)],
                   [e[0] * cos(t) - e[1] * sin(t)])
            for nm, v, q in zip("xyz", sc.value if isinstance(sc.value, tuple) else (), ref):
                agree(ctx, sc, v, q, "cartesian component %s of a spherical vector" % nm, "transform", "transform_fields_spherical_to_cartesian")
        sc = opened(ctx, lambda: helper("transform_spherical_to_xyz"))
        if sc is not None:
            r, t, p = [X(vnm.leaf(q)) for q in ("r", "theta", "phi")]
            for nm, v, q in zip("xyz", sc.value if isinstance(sc.value, tuple) else (), (r * sin(t) * cos(p), r * sin(t) * sin(p), r * cos(t))):
                agree(ctx, sc, v, [q], "%s from spherical coordinates" % nm, "transform", "transform_spherical_to_xyz")
        sc = opened(ctx, lambda: helper("transform_xyz_to_spherical"))
        if sc is not None and isinstance(sc.value, tuple) and len(sc.value) == 3:
            x, y, z = [X(vnm.leaf(q)) for q in "xyz"]
            r = (x * x + y * y + z * z).sqrt()
            agree(ctx, sc, sc.value[0], [r], "radius from cartesian coordinates", "transform", "transform_xyz_to_spherical")
            t = sc.value[1]
            if isinstance(t, T) and len(t.el) == 1:
                agree(ctx, sc, t.cp(el=[Elem(vnm.cos(t.el[0].v))]), [z / r], "polar angle from cartesian coordinates", "transform", "transform_xyz_to_spherical")
            agree(ctx, sc, sc.value[2], [X(vnm.fn("atan2", y.v, x.v))], "azimuth from cartesian coordinates", "transform", "transform_xyz_to_spherical")
    out = [("coordinate transforms", transf)]
    for be in ALLB:
        for L in ((1, 2, 3, 4, 5, 6) if be == "pena" else (1, 2)) if tier == "quick" else ((1, 2, 3, 4, 5, 6, 8, 10) if be == "pena" else (1, 2)):
            for n in cfg(tier, (1, 3, "N", 10), (2, 6, 16, 24)):
                out.append(("mie_coefficients %s L=%d n_max=%s" % (be, L, n), lambda c, z=(be, L, n, {}): coef(c, *z)))
        out.append(("mie_coefficients %s complex host" % be, lambda c, z=(be, 2, 2, dict(envdt="c128")): coef(c, *z)))
        if be != "pena":
            for L in (1, 2):
                for n in cfg(tier, (2, 8), (1, 5, 16)):
                    out.append(("internal coefficients %s L=%d n_max=%d" % (be, L, n), lambda c, z=(be, L, n, dict(opts=(("return_internal", True),))): coef(c, *z)))
    out.append(("mie_coefficients torch ratios", lambda c: coef(c, "torch", 2, 3, dict(opts=(("which_jn", "ratios"),)))))
    for name, kinds in (("vsh", (1, 2, 3)), ("vsh_pena", (1, 3))):
        for k in kinds:
            for n in cfg(tier, (1, 3, 10), (2, 6, 20)):
                out.append(("%s kind=%d n=%d" % (name, k, n), lambda c, z=(name, k, n): vshc(c, *z)))
    return out


def coef_agree(ctx, sc, t, refs, what, be, L, n, lay, key):
    if isinstance(t, T) and len(t.el) == len(refs) and all(eqv(e.v, q) for e, q in zip(t.el, refs)):
        ctx.ok(what)
        return True
    return agree(ctx, sc, t, refs, what, "boundary", "mie_coefficients %s" % be)


@memo
def vsh_exact(name, kind, n):
    r = Run(hooks=dict(HOOKS))
    args = [n, r.leaf("k0", (1, 1, "K", 1, 1), unit=-1), r.leaf("n_medium", (1, "P", "K", 1, 1), dt="c128"),
            r.leaf("r", (1, "P", 1, "Q", 1), unit=1), r.leaf("theta", (1, "P", 1, "Q", 1)), r.leaf("phi", (1, "P", 1, "Q", 1)), kind]
    v = r.call(SP + name, *args)
    sc = Sc("%s(n=%d, kind=%d)" % (name, n, kind), r, v, {})
    sc.args = args
    return sc


# ---------------------------------------------------------------- C23 (backends)
@check("C23", "Sibling comparison: the value numbers of every quantity returned by the three solver backends (and both near-field "
              "implementations) for one symbolic input must coincide, given exact summaries of the special functions.")
def c23(tier):
    def cmp_(ctx, fn, L, n, lay):
        ref = None
        for be in ALLB if fn != "nearfields" else ("pena", "torch"):
            sc = opened(ctx, lambda: solved(fn, backend=be, L=L, n=n, **lay))
            if sc is None:
                continue
            if ref is None:
                ref = sc
                continue
            ks, kr = sc.keys() or [], ref.keys() or []
            for k in kr:
                a, b = ref.get(k), sc.get(k)
                if k not in ks:
                    ctx.bad("'%s' returned by every backend" % k, "%s lacks it" % sc.name, kind="key", func=fn)
                elif isinstance(a, T) and isinstance(b, T):
                    if a.shape != b.shape:
                        ctx.bad("'%s' has one shape in all backends" % k, "%s: %s, %s: %s" % (ref.name, show(a.shape), sc.name, show(b.shape)), kind="shape", func=fn)
                    else:
                        agree(ctx, sc, b, vals(a), "'%s' agrees between the backends" % k, "backend", fn, detail="reference " + ref.name)

    def fields(ctx, L, n, reg, on, lay):
        a = opened(ctx, lambda: near("pena", L=L, n=n, region=reg, on=on, **lay))
        b = opened(ctx, lambda: near("torch", L=L, n=n, region=reg, on=on, **lay))
        if a is None or b is None:
            return
        for k in a.keys() or []:
            agree(ctx, b, b.get(k), vals(a.get(k)) or [], "'%s' agrees between both field implementations (region %d of %d)" % (k, reg, L), "backend", "nearfields")
    out = []
    for fn in ("mie_coefficients", "cross_sections", "angular_scattering"):
        for L in (1, 2):
            for n in cfg(tier, (2, 7), (1, 4, 12)):
                for lay in (dict(), dict(P=None, K=None, eps="L"), dict(eps="LK", P=None), dict(envdt="c128"), dict(legacy="cs", eps="P")) if L == 2 else (dict(), dict(legacy="h", eps="PK")):
                    out.append(("%s L=%d n=%d %s" % (fn, L, n, lay), lambda c, z=(fn, L, n, lay): cmp_(c, *z)))
    for L in (1, 2):
        for reg, on in regions_for(L):
            for n in cfg(tier, (2, 5), (3, 9)):
                out.append(("nearfields L=%d region %d %s n=%d" % (L, reg, on, n), lambda c, z=(L, n, reg, on, {}): fields(c, *z)))
            out.append(("nearfields L=%d region %d %s legacy" % (L, reg, on), lambda c, z=(L, 1, reg, on, dict(legacy="cs" if L == 2 else "h", eps="P")): fields(c, *z)))
    return out


# ---------------------------------------------------------------- C24 (energy, optical theorem)
@check("C24", "Exact value numbering with real material constants: absorption must have the value number of zero, |a_n|^2 that of Re a_n, "
              "and 4 pi/k^2 Re S(0) that of the extinction cross section.")
def c24(tier):
    def lossless(ctx, be, L, n):
        sc = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n=n, realeps=True))
        cs = opened(ctx, lambda: solved("cross_sections", backend=be, L=L, n=n, realeps=True))
        if sc is not None:
            for k in ("a_n", "b_n"):
                t = sc.get(k)
                if not isinstance(t, T) or len(t.el) != n:
                    ctx.und(k, t)
                    continue
                agree(ctx, sc, t.cp(el=[e.cp(v=vnm.abs2(e.v)) for e in t.el]), [X(e.v).re for e in t.el],
                      "|%s|^2 = Re %s without losses" % (k, k), "energy", "mie_coefficients %s" % be)
        if cs is not None:
            for k in ("cs_abs", "q_abs", "cs_abs_multipoles", "q_abs_multipoles"):
                t = cs.get(k)
                if isinstance(t, T):
                    agree(ctx, cs, t, [X(0)] * len(t.el), "'%s' vanishes without losses" % k, "energy", "cross_sections")
                else:
                    ctx.und(k, t)

    def optical(ctx, be, L, n):
        cs = opened(ctx, lambda: solved("cross_sections", backend=be, L=L, n=n))
        an = opened(ctx, lambda: solved("angular_scattering", backend=be, L=L, n=n, theta=0))
        if cs is None or an is None:
            return
        m = mie_of(cs.kw)
        for k in ("S1", "S2"):
            t = an.get(k)
            if not isinstance(t, T) or len(t.el) != 1:
                ctx.und(k, t)
                continue
            ref = X(4) * PI_ / (m.k * m.k) * X(t.el[0].v).re
            agree(ctx, cs, cs.get("cs_ext"), [ref], "extinction = 4 pi/k^2 Re %s(0)" % k, "optical", "cross_sections")

    def sym(ctx, be):
        """forward amplitude symmetric, backward antisymmetric"""
        f = opened(ctx, lambda: solved("angular_scattering", backend=be, L=2, n=3, theta=0))
        if f is not None:
            agree(ctx, f, f.get("S2"), vals(f.get("S1")) or [], "S1(0) = S2(0)", "optical", "angular_scattering")
    out = []
    for be in ALLB:
        for L in (1, 2, 3, 4, 6) if be == "pena" else (1, 2):
            for n in cfg(tier, (1, 3, 8), (2, 6, 14)):
                out.append(("lossless %s L=%d n=%d" % (be, L, n), lambda c, z=(be, L, n): lossless(c, *z)))
                out.append(("optical theorem %s L=%d n=%d" % (be, L, n), lambda c, z=(be, L, n): optical(c, *z)))
        out.append(("forward amplitudes %s" % be, lambda c, b=be: sym(c, b)))
    return out


# ---------------------------------------------------------------- C25 (continuity)
@check("C25", "The fields of the two regions adjoining an interface are value-numbered at one point of that interface; tangential E and H "
              "(and normal eps E, H) must have equal value numbers.")
def c25(tier):
    def one(ctx, be, L, l, n, lay={}):
        ins = opened(ctx, lambda: iface(be, L, n, l, True, **lay))
        out = opened(ctx, lambda: iface(be, L, n, l, False, **lay))
        if ins is None or out is None:
            return
        m = mie_of(ins.kw)
        th_, ph = ins.theta, ins.phi
        ct, st, cp, sp = cos(th_), sin(th_), cos(ph), sin(ph)
        key = ("E_t", "H_t")
        fi = [vals(ins.get(k)) for k in key]
        fo = [vals(out.get(k)) for k in (key if l < L - 1 else ("E_s", "H_s"))]
        if any(f is None or len(f) != 3 for f in fi + fo):
            ctx.und("fields", "not available")
            return
        if l == L - 1:      # add the incident wave, truncated at the same order
            inc = incident_order_sum(m, n, ins)
            fo = [[x + y for x, y in zip(f, g)] for f, g in zip(fo, inc)]
        ei = m.nl[l] ** 2
        eo = (m.nl + [m.nenv])[l + 1] ** 2
        comp = {"theta": lambda f: f[0] * ct * cp + f[1] * ct * sp - f[2] * st, "phi": lambda f: f[1] * cp - f[0] * sp,
                "r": lambda f: f[0] * st * cp + f[1] * st * sp + f[2] * ct}
        rk = sorted(set(risky(ins)) | set(risky(out)))
        for f, g, nm in ((fi[0], fo[0], "E"), (fi[1], fo[1], "H")):
            for c, pr in comp.items():
                a_, b_ = pr(f), pr(g)
                if nm == "E" and c == "r":
                    a_, b_ = ei * a_, eo * b_
                what = "%s_%s continuous at interface %d of %d" % (nm, c, l, L)
                if eqv(a_, b_):
                    ctx.ok(what)
                elif rk:
                    ctx.und(what, rk)
                else:
                    ctx.bad(what, "%s, %d order(s)" % (be, n), kind="continuity", func="nearfields %s" % be)
    out = []
    for be in ("pena", "torch"):
        for L in (1, 2, 3, 4, 5) if be == "pena" else (1, 2):
            for l in range(L):
                for n in cfg(tier, (1, 2, 5) if L < 4 else (1, 3), (3, 8)):
                    out.append(("nearfields %s interface %d of %d n=%d" % (be, l, L, n), lambda c, z=(be, L, l, n): one(c, *z)))
                if L < 4:
                    for lay in (dict(envdt="c128"), dict(env="scalar", envdt="c128"), dict(P=None, K=None, eps="L")) + ((dict(legacy="cs" if L == 2 else "h", eps="PK"), dict(legacy="cs" if L == 2 else "h", eps="P", envdt="c128")) if L < 3 else ()):
                        out.append(("nearfields %s interface %d of %d %s" % (be, l, L, lay), lambda c, z=(be, L, l, 2, lay): one(c, *z)))
    if tier == "thorough":
        for L in (6, 8):
            for l in range(L):
                out.append(("nearfields pena interface %d of %d n=1" % (l, L), lambda c, z=("pena", L, l, 1): one(c, *z)))
    return out


@memo
def iface(be, L, n, l, inside, **lay):
    """point on interface l, analysed as if infinitesimally inside / outside of it"""
    r = Run(hooks=dict(HOOKS))
    dev = "D"
    kw = layer_inputs(r, L=L, dev=dev, **lay)
    kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dev=dev, unit=1)
    kw["E_0"] = r.leaf("E_0", (), dt="c128", dev=dev)
    pos = [X(e.v) for e in kw["r_probe"].el]
    rr = (pos[0] ** 2 + pos[1] ** 2 + pos[2] ** 2).sqrt()
    rl = kw["r_layers"].el if "r_layers" in kw else [kw[k].el[0] for k in ("r_c", "r_s") if k in kw]
    rl[l].v = rr.v
    r.ip.region = regmap(rr, [X(e.v) for e in rl], l if inside else l + 1, l)
    r.ip.side = inside
    kw.update(backend=be, n_max=n)
    v = r.call(MS + "nearfields", **kw)
    sc = Sc("nearfields(backend=%s, L=%d, %s interface %d)" % (be, L, "inside" if inside else "outside", l), r, v, kw)
    sc.kw, sc.pos, sc.r = kw, pos, rr
    sc.theta = X(vnm.acos((pos[2] / rr).v))
    sc.phi = X(vnm.fn("atan2", pos[1].v, pos[0].v))
    sc.E0 = X(kw["E_0"].el[0].v)
    return sc


# ---------------------------------------------------------------- C26 (invisible interfaces)
@check("C26", "Value numbering with coinciding permittivities: an interface between equal media must not change any result's value number, "
              "and a particle made of the host medium must have coefficients with the value number zero.")
def c26(tier):
    def split(ctx, be, L, i, n, lay={}):
        """layers i and i+1 of equal material == the particle without radius i"""
        a = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n=n, same=(i, i + 1), **lay))
        if a is None:
            return
        kw = a.kw
        m = mie_of(kw)
        b = Mie(m.k0.v, [q.v for j, q in enumerate(m.r) if j != i], [(q ** 2).v for j, q in enumerate(m.nl) if j != i], m.env.v)
        for k, j in (("a_n", 0), ("b_n", 1)):
            agree(ctx, a, a.get(k), [b.ab(q + 1)[j] for q in range(n)], "%s unchanged by an interface between equal media (%d, %d of %d)" % (k, i, i + 1, L),
                  "invisible", "mie_coefficients %s" % be)

    def matched(ctx, be, L, n, lay={}):
        a = opened(ctx, lambda: solved("mie_coefficients", backend=be, L=L, n=n, match=L - 1, **lay))
        if a is None:
            return
        if L == 1:
            for k in ("a_n", "b_n"):
                agree(ctx, a, a.get(k), [X(0)] * n, "%s vanishes for a particle of host material" % k, "matched", "mie_coefficients %s" % be)
            return
        m = mie_of(a.kw)
        b = Mie(m.k0.v, [q.v for q in m.r[:-1]], [(q ** 2).v for q in m.nl[:-1]], m.env.v)
        for k, j in (("a_n", 0), ("b_n", 1)):
            agree(ctx, a, a.get(k), [b.ab(q + 1)[j] for q in range(n)], "%s unchanged by a shell of host material" % k, "matched", "mie_coefficients %s" % be)

    def fields(ctx, be, L, i, n, reg, lay={}):
        sc = opened(ctx, lambda: near(be, L=L, n=n, region=reg, same=(i, i + 1), **lay))
        if sc is None:
            return
        m = mie_of(sc.kw)
        b = Mie(m.k0.v, [q.v for j, q in enumerate(m.r) if j != i], [(q ** 2).v for j, q in enumerate(m.nl) if j != i], m.env.v)
        E, H = b._fields(n, reg if reg <= i else reg - 1, sc.r, sc.theta, sc.phi, sc.E0)
        for k, f in (("E_s", E), ("H_s", H)):
            agree(ctx, sc, sc.get(k), list(f), "%s unchanged by an interface between equal media (region %d)" % (k, reg), "invisible", "nearfields %s" % be)
    out = []
    for be in ALLB:
        for L in (2, 3, 4, 5, 6) if be == "pena" else (2,):
            for i in range(L - 1):
                for n in cfg(tier, (2, 6), (1, 5, 12)):
                    out.append(("%s split layer %d of %d n=%d" % (be, i, L, n), lambda c, z=(be, L, i, n): split(c, *z)))
        for L in (1, 2, 3, 4, 5) if be == "pena" else (1, 2):
            out.append(("%s host-matched outer layer of %d" % (be, L), lambda c, z=(be, L, 3): matched(c, *z)))
    for be in ("pena", "torch"):
        for L in (2, 3, 4, 5) if be == "pena" else (2,):
            for i in range(L - 1):
                for reg in range(L + 1):
                    out.append(("%s near fields, split layer %d of %d, region %d" % (be, i, L, reg), lambda c, z=(be, L, i, 1, reg): fields(c, *z)))
    # the core-shell arguments, other layouts, absorbing hosts
    for be in ALLB:
        for lay in (dict(envdt="c128"), dict(P=None, K=None, eps="L", env="scalar"), dict(eps="LK", P=None), dict(legacy="cs", eps="PK"), dict(legacy="cs", eps=""), dict(legacy="cs", eps="P"),
                    dict(legacy="cs", eps="PK", envdt="c128"), dict(legacy="cs", eps="", P=None, K=None, env="scalar")):
            out.append(("%s split core-shell %s" % (be, lay), lambda c, z=(be, 2, 0, 2, lay): split(c, *z)))
            out.append(("%s host-matched shell %s" % (be, lay), lambda c, z=(be, 2, 2, lay): matched(c, *z)))
            if be != "scipy":
                for reg in range(3):
                    out.append(("%s near fields, split core-shell %s region %d" % (be, lay, reg), lambda c, z=(be, 2, 0, 2, reg, lay): fields(c, *z)))
        for lay in (dict(envdt="c128"), dict(legacy="h", eps="PK"), dict(legacy="h", eps=""), dict(legacy="h", eps="P", envdt="c128"), dict(P=None, K=None, eps="L", env="scalar")):
            out.append(("%s host-matched sphere %s" % (be, lay), lambda c, z=(be, 1, 3, lay): matched(c, *z)))
    return out
