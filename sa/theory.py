"""Scenarios whose results are compared with the exact theory."""
from scenarios import *
from exact import *
import exact

SAFE = {"all", "any", "equal", "atan2", "linspace", "mask", "phi", "summ", "lt0", "eq0", "max", "min", "round", "int", "nz", "at", "empty", "alias",
        "init", "last", "c", "pick", "val", "T", "file", "format", "join", "py", "ext", "log", "lgamma", "num", "pos", "item",
        "elem", "arange", "seq", "sel", "field", "dict", "obj", "cond", "cond2", "nonempty", "part", "setpart", "flip"}


def eqv(a, b):
    """same value at the generic position"""
    if isinstance(a, X):
        a = a.v
    if isinstance(b, X):
        b = b.v
    return vnm.mid(a) == vnm.mid(b)


def vals(t):
    return [X(e.v) for e in t.el] if isinstance(t, T) else None


def risky(sc):
    return sorted(o for o in sc.ops if o not in SAFE)


def tri(got, want, allow=SAFE):
    """are the values equal: True, False, or None when a difference comes from operations whose meaning is not known"""
    got, want = list(got), list(want)
    if len(got) != len(want):
        return False
    off = [(g, w) for g, w in zip(got, want) if g != w]
    if not off:
        return True
    return None if vnm.ops(*[g for g, _ in off]) - vnm.ops(*[w for _, w in off]) - allow else False


def both(*c):
    """conjunction of True / False / None"""
    return False if any(x is False for x in c) else None if any(x is None for x in c) else True


def agree(ctx, sc, t, refs, what, kind, func=None, alt=None, detail=""):
    """every element of tensor t must be the value number of the reference"""
    if not isinstance(t, T):
        ctx.und(what, "result is %r" % (t,))
        return None
    if len(t.el) != len(refs):
        ctx.und(what, "shape %s instead of %d entries" % (show(t.shape), len(refs)))
        return None
    bad = [i for i, (e, q) in enumerate(zip(t.el, refs)) if not eqv(e.v, q) and not (alt and eqv(e.v, alt[i]))]
    if not bad:
        ctx.ok(what)
        return True
    rk = risky(sc)
    if rk:
        ctx.und(what, "differs, but the calculation uses %s" % ", ".join(rk[:6]))
        return None
    ctx.bad(what, "%s: entry %s of %s differs from the reference%s" % (sc.name, ",".join(map(str, bad[:6])), show(t.shape), "; " + detail if detail else ""),
            kind=kind, func=func or sc.name.split("(")[0])
    return False


def mie_of(kw, **over):
    g = lambda k: [e.v for e in kw[k].el] if isinstance(kw[k], T) else [kw[k].el.v if isinstance(kw[k], S) else vnm.const(kw[k])]
    if "r_layers" in kw:
        r, eps = g("r_layers"), g("eps_layers")
    else:
        r, eps = g("r_c"), g("eps_c")
        if "r_s" in kw:
            r, eps = r + g("r_s"), eps + g("eps_s")
    return Mie(g("k0")[0], r, eps, g("eps_env")[0] if "eps_env" in kw else vnm.ONE)


def regmap(r, rl, region, on=None):
    """assumed order of the probe radius r and the layer radii rl (known to increase)"""
    rg = {}

    def put(a, b, lt):
        for p, q in ((a, b), (a * a, b * b)):
            rg[(p / q).v] = lt
            rg[(p - q).v] = lt
            rg[(q / p).v] = not lt
            rg[(q - p).v] = not lt
    for j, q in enumerate(rl):
        if on != j:
            put(r, q, j >= region)
    for i in range(len(rl)):
        for j in range(i + 1, len(rl)):
            put(rl[i], rl[j], True)
    return rg


@memo
def solved(fn, backend="pena", L=2, n=3, opts=(), exactf=True, same=None, match=None, realeps=False, TH="T", Q="Q", theta=None, q0=0, **lay):
    """functional call with the special functions replaced by their exact summaries.
    same=(i, j): layers i and j have one permittivity; match=i: layer i has the host's permittivity"""
    r = Run(hooks=dict(HOOKS) if exactf else {})
    dev = dev_of(backend, lay.pop("dev", "D"))
    kw = layer_inputs(r, L=L, dev=dev, **lay)
    if realeps:
        for e in kw["eps_layers"].el:
            e.v = vnm.re(e.v)
    e = [kw["eps_layers"].el[i] for i in range(len(kw["eps_layers"].el))] if "eps_layers" in kw else [kw[k].el[0] for k in ("eps_c", "eps_s") if k in kw]
    if same:
        e[same[1]].v = e[same[0]].v
    if match is not None:
        e[match].v = kw["eps_env"].el[0].v
    dt = lay.get("dt", "f64")
    if fn == "angular_scattering":
        kw["theta"] = r.leaf("theta", (TH,) if TH else (), dt=dt, dev=dev, names=["theta#%d" % (q0 + i) for i in range(TH)] if isinstance(TH, int) else None)
        if theta is not None:
            kw["theta"].el[0].v = vnm.const(theta)
            kw["theta"].el[0].const = theta
    if fn == "nearfields":
        kw["r_probe"] = r.leaf("r_probe", (Q, 3), dt=dt, dev=dev, unit=1,
                               names=["r_probe#%d" % (3 * q0 + i) for i in range(3 * Q)] if isinstance(Q, int) else None)
    kw["backend"] = backend
    kw["n_max"] = r.order() if n == "N" else n
    kw.update(dict(opts))
    v = r.call(MS + fn, **kw)
    sc = Sc("%s(backend=%s, L=%s, n_max=%s%s)" % (fn, backend, L, n, "".join(", %s=%s" % x for x in list(lay.items()) + list(opts))), r, v, kw)
    sc.kw = kw
    return sc


@memo
def near(backend="pena", L=2, n=1, region=0, on=None, E0=True, same=None, opts=(), **lay):
    """near fields at a generic point assumed to lie in `region` (on: exactly on interface `on`)"""
    r = Run(hooks=dict(HOOKS))
    dev = dev_of(backend, lay.pop("dev", "D"))
    kw = layer_inputs(r, L=L, dev=dev, **lay)
    kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dev=dev, unit=1)
    if E0:
        kw["E_0"] = r.leaf("E_0", (), dt="c128", dev=dev)
    pos = [X(e.v) for e in kw["r_probe"].el]
    rr = (pos[0] ** 2 + pos[1] ** 2 + pos[2] ** 2).sqrt()
    rl = kw["r_layers"].el if "r_layers" in kw else [kw["r_c"].el[0]] + ([kw["r_s"].el[0]] if "r_s" in kw else [])
    if on is not None:
        rl[on].v = rr.v
    if same:
        e = kw["eps_layers"].el if "eps_layers" in kw else [kw[k].el[0] for k in ("eps_c", "eps_s") if k in kw]
        e[same[1]].v = e[same[0]].v
    r.ip.region = regmap(rr, [X(e.v) for e in rl], region, on)
    kw["backend"] = backend
    kw["n_max"] = n
    kw.update(dict(opts))
    v = r.call(MS + "nearfields", **kw)
    sc = Sc("nearfields(backend=%s, L=%s, n_max=%s, point in region %s%s%s)" % (
        backend, L, n, region, ", on interface %d" % on if on is not None else "", "".join(", %s=%s" % x for x in list(lay.items()) + list(opts))), r, v, kw)
    sc.kw, sc.pos, sc.r = kw, pos, rr
    sc.theta = X(vnm.acos((pos[2] / rr).v))
    sc.phi = X(vnm.fn("atan2", pos[1].v, pos[0].v))
    sc.E0 = X(kw["E_0"].el[0].v) if E0 else X(1)
    return sc


def near_ref(sc, n, region):
    """reference (E_s, H_s, E_i, H_i, E_t, H_t) for the region"""
    m = mie_of(sc.kw)
    E, H = m._fields(n, region, sc.r, sc.theta, sc.phi, sc.E0)
    pw = sc.E0 * exp(I_ * m.k * sc.pos[2])
    Ei, Hi = (pw, X(0), X(0)), (X(0), m.nenv * pw, X(0))
    out = region == m.L
    return dict(E_s=E, H_s=H, E_i=Ei, H_i=Hi, E_t=tuple(a + b for a, b in zip(E, Ei)) if out else E,
                H_t=tuple(a + b for a, b in zip(H, Hi)) if out else H)


def incident_order_sum(m, N, sc):
    """incident plane wave truncated after order N (cartesian)"""
    inc = Mie.__new__(Mie)
    inc.__dict__.update(m.__dict__)
    inc._c = {}
    inc.r, inc.nl, inc.m, inc.L = [sc.r], [m.nenv], [X(1)], 1
    inc._c = {n: dict(regions_a=[(X(1), X(0))], regions_b=[(X(1), X(0))]) for n in range(1, N + 1)}
    return inc._fields(N, 0, sc.r, sc.theta, sc.phi, sc.E0)
