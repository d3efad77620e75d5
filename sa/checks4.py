"""Layout contract, input layouts, option forwarding, rejection and truncation checks."""
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings
from checks2 import ALLB, cfg
from checks3 import flat, facts, compare
from tmodel import CPLX
from fractions import Fraction
import itertools
import math
import zlib


def hash_(*a):
    return zlib.crc32(repr(a).encode())


# ---------------------------------------------------------------- expected axes
FIELD = {k: "PKQ3" for k in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t")}
AXES = {
    "mie_coefficients": dict(a_n="NPK", b_n="NPK"),
    "cross_sections": dict([(p + q, "PK") for p in ("q_", "cs_") for q in ("ext", "sca", "abs")]
                           + [(p + q + "_multipoles", "2NPK") for p in ("q_", "cs_") for q in ("ext", "sca", "abs")] + [("cs_geo", "~PK")]),
    "angular_scattering": dict(S1="PKT", S2="PKT", i_per="PKT", i_par="PKT", i_unpol="PKT", pol_degree="PKT"),
    "nearfields": FIELD,
}
META = {"mie_coefficients": dict(n="~N", k0="~K", k="~K"), "cross_sections": dict(n="~N", k0="~K", wavelength="~K"),
        "angular_scattering": dict(theta="~T", k0="~K", wavelength="~K"), "nearfields": {}}
INTERNAL = dict((k + "_n", "NPK") for k in "cdfgvw")
COMPLEX = {"a_n", "b_n", "S1", "S2"} | set(INTERNAL) | set(FIELD)


def sizes_of(P="P", K="K", N="N", T="T", Q="Q"):
    one = lambda x: 1 if x is None else x
    return {"P": one(P), "K": one(K), "N": N, "T": one(T), "Q": Q, "2": 2, "3": 3}


def expected(axes, size, squeeze=False):
    """(shape text, modulo size-one axes?)"""
    loose = axes.startswith("~")
    dims = [size[a] for a in axes.lstrip("~")]
    if squeeze or loose:
        dims = [d for d in dims if d != 1]
    return show(D(*dims)), loose


def shape_text(t, loose):
    if t.shape is None:
        return None
    sh = tuple(d for d in t.shape if d != ()) if loose else t.shape
    return show(sh)


def layout(ctx, sc, fn, size, squeeze=False, extra=None, opt=()):
    exp = dict(AXES[fn])
    exp.update(META[fn])
    exp.update(extra or {})
    ks = sc.keys()
    if ks is None:
        ctx.und("returned keys", sc.value)
        return
    for k, ax in exp.items():
        v = sc.get(k)
        if v is None:
            ctx.bad("'%s' is returned" % k, "%s returns %s" % (sc.name, ", ".join(map(str, ks))), kind="key", func=fn)
            continue
        if not isinstance(v, T):
            ctx.und("axes of '%s'" % k, v)
            continue
        want, loose = expected(ax, size, squeeze)
        got = shape_text(v, loose)
        if got is None or any(dim_unknown(d) for d in v.shape):
            ctx.und("axes of '%s'" % k, show(v.shape) if v.shape else "unknown")
        else:
            ctx.expect(got == want, "axes of '%s' are as documented" % k, "%s instead of %s in %s" % (got, want, sc.name), kind="axes", func=fn)
        if ax.lstrip("~") not in ("N",):
            c = v.dt in CPLX if v.dt else None
            if k in COMPLEX:
                ctx.expect(c, "'%s' is complex" % k, "is %s in %s" % (v.dt, sc.name), kind="class", func=fn)
            elif k not in ("k", "k0", "wavelength", "theta"):
                ctx.expect(None if c is None else not c and v.dt in ("f32", "f64"), "'%s' is real" % k, "is %s in %s" % (v.dt, sc.name), kind="class", func=fn)


@check("C09", "Symbolic shape and number-type inference of every returned tensor against the documented axes (order, particle, wavenumber, "
              "angle / position, component), for every backend, layout and both APIs.")
def c09(tier):
    def func(ctx, fn, be, L, n, lay, opts=()):
        sc = opened(ctx, lambda: functional(fn, backend=be, L=L, nmax=n, opts=opts, **lay))
        if sc is None:
            return
        size = sizes_of(P=lay.get("P", "P"), K=lay.get("K", "K"), N=n, T=lay.get("TH", "T"))
        if n is None:
            t = sc.get("n_max")
            l = t.lin[0] if isinstance(t, T) and t.lin else None
            if l is None and fn in ("mie_coefficients", "cross_sections"):
                ctx.und("automatic order", t)
                return
            size["N"] = (Fac("s", l),) if l is not None else "N"
        ex = INTERNAL if dict(opts).get("return_internal") else None
        layout(ctx, sc, fn, size, extra=ex)

    def part(ctx, m, n, kw):
        sc = opened(ctx, lambda: particle(m, nmax=n, **kw))
        if sc is None:
            return
        size = sizes_of(P=1, K=kw.get("K", "K"), N=n, T=kw.get("TH", "T"))
        ex = INTERNAL if dict(kw.get("opts", ())).get("return_internal") else None
        layout(ctx, sc, METH[m], size, squeeze=True, extra=ex)

    def keys(ctx, fn, L):
        ref = None
        for be in ("pena", "torch", "scipy"):
            sc = opened(ctx, lambda: functional(fn, backend=be, L=L, nmax=2))
            if sc is None or sc.keys() is None:
                continue
            if ref is None:
                ref = sc
                continue
            d = set(map(str, sc.keys())) ^ set(map(str, ref.keys()))
            ctx.expect(not d, "%s returns the same keys for all backends" % fn, "%s / %s differ in %s" % (ref.name, sc.name, ", ".join(sorted(d))), kind="keys", func=fn)

    def perm(ctx, L):
        for kw in (dict(), dict(mats="table"), dict(eps="LK"), dict(eps="L"), dict(env="num")):
            sc = opened(ctx, lambda: particle("get_material_permittivities", L=L, **kw))
            if sc is None:
                continue
            v = sc.value
            if not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[0], T):
                ctx.und("permittivities", v)
                continue
            want = [show(D(L, "K")), show(D(L))]
            g = shape_text(v[0], False)
            ctx.expect(None if g is None else g in want, "layer permittivities have the layer axis first", "%s" % g, kind="axes", func="get_material_permittivities")
    out = []
    for fn in FUNCS:
        for be in ALLB:
            for L in (1, 2):
                for n in cfg(tier, ("N", 1, 3), (2, 5)):
                    out.append(("%s %s L=%d n_max=%s" % (fn, be, L, n), lambda c, z=(fn, be, L, n, {}): func(c, *z)))
            out.append(("%s %s automatic order" % (fn, be), lambda c, z=(fn, be, 2, None, {}): func(c, *z)))
            for lay in (dict(P=None, eps="L"), dict(K=None, eps="PL", env="scalar"), dict(P=None, K=None, eps="L", env="scalar"), dict(P=1, eps="PL"),
                        dict(legacy="cs", eps="PK"), dict(legacy="h", eps="P"), dict(env="number"), dict(TH=None) if fn == "angular_scattering" else dict(env=None),
                        dict(edt="f64"), dict(envdt="c128")):
                out.append(("%s %s %s" % (fn, be, lay), lambda c, z=(fn, be, 2, 2, lay): func(c, *z)))
        out.append(("%s pena L=4" % fn, lambda c, z=(fn, "pena", 4, "N", {}): func(c, *z)))
        out.append(("%s keys" % fn, lambda c, f=fn: keys(c, f, 2)))
    for be in ("torch", "scipy"):
        for L in (1, 2):
            for n in ("N", 1, 2):
                out.append(("internal coefficients %s L=%d n_max=%s" % (be, L, n), lambda c, z=("mie_coefficients", be, L, n, {}, (("return_internal", True),)): func(c, *z)))
    for m in METH:
        for n in cfg(tier, ("N", 1, 2), (3,)):
            for kw in (dict(L=1), dict(L=2), dict(L=3), dict(L=2, legacy=True), dict(L=2, K=None), dict(L=1, K=None, legacy=True), dict(L=2, mats="table", env="num"),
                       dict(L=2, opts=(("backend", "torch"),)), dict(L=2, eps="LK"), dict(L=2, K=1)):
                if tier != "thorough" and n == 1 and kw.get("mats"):
                    continue
                out.append(("Particle.%s n_max=%s %s" % (m, n, kw), lambda c, z=(m, n, kw): part(c, *z)))
        if m == "get_angular_scattering":
            out.append(("Particle.%s single angle" % m, lambda c, z=(m, 2, dict(L=2, TH=None)): part(c, *z)))
    out.append(("Particle internal coefficients", lambda c: part(c, "get_mie_coefficients", 2, dict(L=2, opts=(("backend", "torch"), ("return_internal", True))))))
    for L in (1, 2, 3):
        out.append(("Particle permittivities L=%d" % L, lambda c, L=L: perm(c, L)))
    return out


def singles(ctx, fn, be, P, K, L, Q, n):
    """C08: every entry of a batch is exactly the result of evaluating that entry alone"""
    sc = opened(ctx, lambda: solved(fn, backend=be, L=L, n=n, P=P, K=K, named="PLK", TH=Q, Q=Q))
    if sc is None:
        return
    last = fn in ("angular_scattering", "nearfields")
    size = {"P": P, "K": K, "N": n, "T": Q, "Q": Q, "2": 2, "3": 3}
    got = {}
    for p, k, q in itertools.product(range(P), range(K), range(Q if last else 1)):
        got[p, k, q] = opened(ctx, lambda: solved(fn, backend=be, L=L, n=n, P=1, K=1, named="PLK", at0=(p, k), q0=q, TH=1, Q=1))
        if got[p, k, q] is None:
            return
    for key, ax in AXES[fn].items():
        if ax[0] == "~":
            continue
        what = "'%s' of %d particles, %d wavenumbers%s equals the values computed one by one" % (key, P, K, ", %d positions or angles" % Q if last else "")
        b = sc.get(key)
        dims = [size[c] for c in ax]
        if not isinstance(b, T) or b.shape is None or len(b.el) != math.prod(dims):
            ctx.expect(False, what, "unexpected shape %s" % (b,), kind="axes", func=fn)
            continue
        cnt, bad = {}, None
        for i, ix in enumerate(itertools.product(*[range(d) for d in dims])):
            at = dict(zip(ax, ix))
            w = at["P"], at["K"], at.get("T", at.get("Q", 0))
            a = got[w].get(key)
            j = cnt[w] = cnt.get(w, -1) + 1
            if not isinstance(a, T) or j >= len(a.el) or X(a.el[j].v) != X(b.el[i].v):
                bad = bad or at
        ctx.expect(bad is None, what, "differs at %s" % ", ".join("%s=%d" % x for x in (bad or {}).items()), kind="mix", func=fn)


# ---------------------------------------------------------------- C10
def sub1(t, P, K):
    """shape text without size-one axes after dropping the axes the layout does not have"""
    if t.shape is None:
        return None
    drop = {x for x, v in (("P", P), ("K", K)) if v in (None, 1)}
    return show(tuple(d for d in t.shape if d != () and show((d,)) not in ["(%s)" % x for x in drop]))


@check("C10", "Layout equivalence by value numbering: every documented input layout must attach the same value number (layer by layer) to "
              "every output as the full (particles, layers, wavenumbers) layout, with matching axes and no cross-axis combination.")
def c10(tier):
    def one(ctx, fn, be, L, lay, n=2):
        lay = dict(lay)
        env = lay.get("env", "K")
        base = {k: lay[k] for k in ("edt", "envdt") if k in lay}
        base["env"] = "K" if env is not None else None
        ref = opened(ctx, lambda: solved(fn, backend=be, L=L, n=n, **base))
        sc = opened(ctx, lambda: solved(fn, backend=be, L=L, n=n, **lay))
        if sc is None or ref is None:
            return
        P, K = lay.get("P", "P"), lay.get("K", "K")
        skip = ("r_layers", "eps_layers") if lay.get("legacy") else ()
        for k in AXES[fn]:
            a, b = ref.get(k), sc.get(k)
            if not isinstance(a, T) or not isinstance(b, T):
                ctx.und("'%s'" % k, b)
                continue
            s1, s2 = sub1(a, P, K), sub1(b, P, K)
            if s1 is None or s2 is None:
                ctx.und("'%s'" % k, "shape not determined")
            elif s1 != s2:
                ctx.bad("'%s' has the same axes in every input layout" % k, "%s instead of %s in %s" % (s2, s1, sc.name), kind="axes", func=fn)
            else:
                agree(ctx, sc, b, vals(a), "'%s' is the same in every input layout" % k, "layout", fn, detail="reference " + ref.name)
            m = [x for x in b.mix() if x in ("P", "K")]
            ctx.expect(not m, "'%s': every value stays with its own particle and wavenumber" % k, "entries along %s are mixed in %s" % (", ".join(m), sc.name), kind="mix", func=fn)
        findings(ctx, sc, ("axismix", "maskmix"), "no operation combines different axes")

    def sameeps(ctx, fn, be):
        """legacy homogeneous particle == one layer; core and shell radius equal == one layer"""
        a = opened(ctx, lambda: solved(fn, backend=be, L=1, n=2))
        b = opened(ctx, lambda: solved(fn, backend=be, L=1, n=2, legacy="h", eps="PK"))
        if a is None or b is None:
            return
        for k in AXES[fn]:
            if isinstance(a.get(k), T):
                agree(ctx, b, b.get(k), vals(a.get(k)), "'%s' of a homogeneous particle in legacy form" % k, "layout", fn)
    def coincide(ctx, fn, be, P, K, L, e):
        """sizes that coincide: the same entries as the full (particles, layers, wavenumbers) layout"""
        a = opened(ctx, lambda: solved(fn, backend=be, L=L, n=2, P=P, K=K, eps=e, named=e, TH=P, Q=P))
        b = opened(ctx, lambda: solved(fn, backend=be, L=L, n=2, P=P, K=K, eps="PLK", named=e, TH=P, Q=P))
        if a is None or b is None:
            return
        for k, ax in AXES[fn].items():
            x, y = a.get(k), b.get(k)
            if not isinstance(x, T) or not isinstance(y, T) or x.shape != y.shape:
                ctx.expect(False, "'%s' for sizes %s and %s" % (k, e, (P, L, K)), "%s instead of %s" % (x, y), kind="axes", func=fn)
                continue
            agree(ctx, a, x, vals(y), "'%s' for permittivities %s, %d particles, %d layers, %d wavenumbers" % (k, e, P, L, K), "layout", fn)
    LAY = [dict(eps="L"), dict(eps="PL"), dict(eps="LK"), dict(eps="1LK"), dict(eps="PL1"), dict(eps="1L1"), dict(P=None, eps="L"), dict(P=None, eps="LK"), dict(P=None, eps="1LK"),
           dict(P=1, eps="PL"), dict(P=1, eps="PLK"), dict(P=1, eps="LK"), dict(K=None, eps="PL"), dict(K=None, eps="L"), dict(P=None, K=None, eps="L"), dict(K=1, eps="PLK"),
           dict(K=1, eps="LK"), dict(K=1, eps="PL"), dict(K=None, eps="PL1"),
           dict(env="scalar"), dict(env="1"), dict(env="number"), dict(K=None, eps="PL", env="scalar"), dict(P=None, eps="L", env="scalar"), dict(env=None), dict(env=None, eps="L", P=None),
           dict(eps="L", env="scalar", edt="f64")]
    LEG = [dict(eps=""), dict(eps="1"), dict(eps="P"), dict(eps="K", P=None), dict(eps="PK"), dict(eps="", P=None), dict(eps="1", P=1), dict(eps="K", P=1), dict(eps="PK", P=1),
           dict(eps="", K=None), dict(eps="", K=None, P=None, env="scalar"), dict(eps="P", K=None), dict(eps="P", env="scalar")]
    out = []
    for fn in FUNCS:
        for be in ALLB:
            if fn == "nearfields" and be == "scipy":
                continue
            for lay in LAY:
                for L in ((2,) if tier != "thorough" else (1, 2, 3) if be == "pena" else (1, 2)):
                    if be == "scipy" and tier != "thorough" and fn != "mie_coefficients":
                        continue
                    out.append(("%s %s L=%d %s" % (fn, be, L, lay), lambda c, z=(fn, be, L, lay): one(c, *z)))
            for lay in LEG:
                for g, L in (("cs", 2), ("h", 1)):
                    if be == "scipy" and tier != "thorough" and fn != "mie_coefficients":
                        continue
                    out.append(("%s %s legacy %s %s" % (fn, be, g, lay), lambda c, z=(fn, be, L, dict(lay, legacy=g)): one(c, *z)))
            out.append(("%s %s homogeneous" % (fn, be), lambda c, z=(fn, be): sameeps(c, *z)))
            for L in (1, 2, 3) if be == "pena" else (1, 2):
                for P, K in itertools.product((2, 3, 4) if tier == "thorough" or fn != "nearfields" else (2, 3), repeat=2):
                    for e in ("PL", "LK", "L", "1LK", "PL1", "1L1"):
                        if e == "LK" and P == L == K:
                            continue        # read as (particles, layers)
                        if fn in ("mie_coefficients", "nearfields") or tier == "thorough" or hash_(fn, be, L, P, K, e) % 3 == 0:
                            if fn != "nearfields" or tier == "thorough" or e in ("PL", "LK") and (P == L or K == L or P == K):
                                out.append(("%s %s L=%d %d particles %d wavenumbers %s" % (fn, be, L, P, K, e), lambda c, z=(fn, be, P, K, L, e): coincide(c, *z)))
        for lay in (dict(eps="L"), dict(eps="1LK"), dict(eps="LK", P=None)):
            out.append(("%s pena L=3 %s" % (fn, lay), lambda c, z=(fn, "pena", 3, lay): one(c, *z)))
    return out
