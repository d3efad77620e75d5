"""Automatic truncation, option forwarding and rejection checks."""
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings
from checks2 import ALLB, cfg, soft, cs_ref, ang_ref
from checks4 import AXES
from fractions import Fraction


# ---------------------------------------------------------------- C15
def f0(v):
    return vnm.mid(v)[0]


TENTHS = {c: vnm.fnum(c / 20) for c in range(0, 241)}
OFFS = {vnm.fnum(Fraction(d, 2)): Fraction(d, 2) for d in range(-120, 241)}


def inv_of(v):
    return vnm.INV.get(vnm.mid(v))


class Leaf:
    """alpha * x + c * x**(1/3) + d, x the largest entry over `axes` of the entries `els` (kind: the reduction)"""

    def __init__(self, alpha, c, d, x, els, axes, kind):
        self.alpha, self.c, self.d, self.x, self.els, self.axes, self.kind = alpha, c, d, x, els, axes, kind

    def __repr__(self):
        return "%s*x%s%+g with x the %s over (%s)" % (self.alpha, "%+g*x^(1/3)" % (self.c / 20) if self.c else "", float(self.d), self.kind, ", ".join(sorted(self.axes)))


def reduction(v):
    """(elements, axes, kind) of a recorded reduction over symbolic axes"""
    axes, els, kind = set(), [], "maximum"
    todo = [v]
    while todo:
        q = todo.pop()
        r = inv_of(q)
        if r and r[0] in ("max", "min", "mean", "nanmean", "median", "at"):
            if r[0] != "max":
                kind = {"at": "single entry", "min": "minimum"}.get(r[0], r[0])
            axes |= {x for x in r[1] if isinstance(x, str)}
            todo += [x for x in r[1] if isinstance(x, vnm.V)][:1] if r[0] == "at" else [x for x in r[1] if isinstance(x, vnm.V)]
        elif r and r[0] == "where" and maxmin(r[1]):
            if maxmin(r[1]) == "min":
                kind = "minimum"
            todo += [r[1][1], r[1][2]]
        else:
            els.append(q)
    return els, axes, kind


def maxmin(a):
    """where(lt0(d), x, y): is it max(x, y) or min(x, y)?"""
    m, x, y = a
    r = inv_of(m)
    if not r or r[0] != "lt0":
        return None
    d = r[1][0]
    if vnm.mid(d) == vnm.mid(vnm.sub(y, x)):     # y < x -> x
        return "max"
    if vnm.mid(d) == vnm.mid(vnm.sub(x, y)):     # x < y -> x
        return "min"
    return None


def linear(v, cands):
    """v = alpha x + c x^(1/3) + d for a recorded reduction x"""
    t = f0(v)
    for x, roots in cands:
        fx = f0(x)
        for al, fa in ((Fraction(1), 1), (Fraction(0), 0), (Fraction(1, 2), vnm.INV2), (Fraction(2), 2), (Fraction(3, 2), 3 * vnm.INV2)):
            base = (t - fa * fx) % vnm.PR
            for c, fc in TENTHS.items():
                if c and not roots:
                    break
                if not al and not c:
                    continue
                for rt, z in roots or ((0, Fraction(1, 3)),):
                    d = OFFS.get((base - fc * rt) % vnm.PR)
                    if d is not None:
                        # a smaller power does not cover the published one for large sizes
                        return al, c if z >= Fraction(1, 3) else 0, d, x
    return None


def candidates():
    xs = [k for k, r in vnm.INV.items() if r[0] in ("max", "min", "mean", "nanmean", "median", "at")]
    out = []
    for k in xs:
        x = vnm.V((k,))
        roots = [(q[0], z) for q, r in vnm.INV.items() if r[0] in ("pow", "powe") and isinstance(r[1][0], vnm.V) and vnm.mid(r[1][0]) == k
                 for z in [expo(r[1][1:])] if z is not None and 0 < z < 1]
        out.append((x, roots))
    # the entry reduced last first
    return out


def expo(args):
    """the real exponent of a recorded power"""
    for z in args:
        if isinstance(z, vnm.V):
            for q in (Fraction(1, 3), Fraction(1, 4), Fraction(1, 2), Fraction(2, 3), Fraction(1, 5), Fraction(1, 6), Fraction(3, 10)):
                if vnm.mid(z) == vnm.mid(vnm.const(q)):
                    return q
            continue
        try:
            q = Fraction(str(z)).limit_denominator(1000)
            return Fraction(1, 3) if abs(q - Fraction(1, 3)) < Fraction(1, 500) else q
        except (TypeError, ValueError):
            pass
    return None


def leaves(v, cands, d=Fraction(0), depth=0, rnd=False):
    """leaves of the tree of maxima that makes an order; None: not understood"""
    if depth > 30:
        return None
    r = inv_of(v)
    if r:
        n, a = r
        if n in ("int", "round", "ceil"):
            if n == "int" and not rnd:
                q = inv_of(a[0])
                if not q or q[0] not in ("round", "ceil", "floor", "trunc", "int"):
                    # truncation instead of rounding: at most one order less
                    return leaves(a[0], cands, d, depth + 1, True)
            return leaves(a[0], cands, d, depth + 1, True)
        if n == "where":
            mm = maxmin(a)
            if mm is None:
                return None
            p, q = leaves(a[1], cands, d, depth + 1, rnd), leaves(a[2], cands, d, depth + 1, rnd)
            if p is None or q is None:
                return None
            return p + q if mm == "max" else None
        if n == "max" and not any(isinstance(z, str) for z in a):
            out = []
            for z in a:
                if isinstance(z, vnm.V):
                    q = leaves(z, cands, d, depth + 1, rnd)
                    if q is None:
                        out = None
                        break
                    out += q
            if out is not None:
                return out
    m = linear(v, cands)
    if m:
        al, c, dd, x = m
        r = inv_of(x)
        if al == 1 and not c and r and r[0] == "max" and not any(isinstance(z, str) for z in r[1]) and len(r[1]) > 1:
            qs = [leaves(z, cands, d + dd, depth + 1, rnd) for z in r[1] if isinstance(z, vnm.V)]
            if all(q is not None for q in qs):
                return sum(qs, [])
        els, axes, kind = reduction(x)
        return [Leaf(al, c, dd + d, x, els, axes, kind)]
    for dd in [Fraction(i, 2) for i in range(-80, 81)]:
        if dd and inv_of(vnm.sub(v, vnm.const(dd))):
            return leaves(vnm.sub(v, vnm.const(dd)), cands, d + dd, depth + 1, rnd)
    return None


def same_abs(e, ref):
    return vnm.mid(vnm.abs2(e)) == vnm.mid(vnm.abs2(ref))


def published(x):
    """(c in twentieths, d) of the published criterion in the regime of size x"""
    return (80, 1) if x <= 8 else (81, 2) if x < 4200 else (80, 2)


def key_of(v):
    return vnm.mid(vnm.abs2(v))


def forms_of(q, axes):
    """the quantity itself and every recorded reduction of it: (value, axes reduced, kind)"""
    out = [(q, frozenset(), "maximum")]
    todo = [(q, frozenset(), "maximum")]
    keys = {}
    for k, r in vnm.INV.items():
        if r[0] in ("max", "min", "mean", "nanmean", "median", "at") and isinstance(r[1][0], vnm.V):
            keys.setdefault(key_of(r[1][0]), []).append((vnm.V((k,)), r))
    while todo and len(out) < 12:
        v, ax, kind = todo.pop()
        for w, r in keys.get(key_of(v), ()):
            if len([z for z in r[1] if isinstance(z, vnm.V)]) > 1 and r[0] != "at":
                continue
            a2 = ax | {z for z in r[1] if isinstance(z, str)}
            k2 = kind if r[0] == "max" else {"at": "single entry", "min": "minimum"}.get(r[0], r[0])
            t = (w, a2, k2)
            out.append(t)
            todo.append(t)
    return out


def known_sizes(kw, ka):
    """|value| -> (the size parameter it stands for, axes over which it is already the largest, kind)

    Contains the wanted size parameters, what they become when a factor is missing, reduced, taken from another
    layer, or cut to its real part, all of which are smaller for some request."""
    tab = {}

    def put(v, stands, axes=frozenset(), kind="maximum"):
        tab.setdefault(key_of(v), (key_of(stands), axes, kind))
    put(vnm.ZERO, vnm.ZERO)
    if ka is not None:
        for v, a, k in forms_of(ka, "PK"):
            put(v, ka, a, k)
        put(vnm.re(ka), vnm.re(ka))
        return tab
    k0, env = kw["k0"].el[0].v, kw["eps_env"].el[0].v
    rs = [e.v for e in kw["r_layers"].el]
    es = [e.v for e in kw["eps_layers"].el]
    ne = vnm.sqrt(env)
    k0f = forms_of(k0, "K")
    media = [[(ne, ne)], [(vnm.ONE, vnm.ONE)], [(env, env)], [(vnm.re(ne), vnm.re(ne))]] + [[(vnm.sqrt(e), vnm.sqrt(e))] for e in es] \
        + [[(vnm.re(vnm.sqrt(e)),) * 2] for e in es] + [[(vnm.div(vnm.sqrt(e), ne),) * 2] for e in es] + [[(vnm.re(vnm.div(vnm.sqrt(e), ne)),) * 2] for e in es]
    for md in media:
        m = md[0][0]
        mf = forms_of(m, "PK")
        for j, rad in enumerate(rs):
            rf = forms_of(rad, "P")
            x = vnm.mul(vnm.mul(k0, m), rad)
            for v, a, k in forms_of(x, "PK") + forms_of(vnm.abs_(x), "PK"):
                put(v, x, a, k)
            for kv, ka_, kk in k0f:
                for mv, ma, mk in mf:
                    for rv, ra, rk in rf:
                        kinds = [z for z in (kk, mk, rk) if z != "maximum"]
                        full = set()
                        # an axis counts as reduced once every factor that has it is reduced over it
                        if "K" in ka_ and ("K" in ma or mv is m and m == vnm.ONE):
                            full.add("K")
                        if "P" in ra:
                            full.add("P")
                        put(vnm.mul(vnm.mul(kv, mv), rv), x, frozenset(full), kinds[0] if kinds else "maximum")
    return tab


@check("C15", "The value number of the automatic order is decomposed into a tree of maxima of alpha*x + c*x^(1/3) + d (x a recorded "
              "maximum over batch axes); each published criterion must be dominated by one branch, for each of the three size "
              "regimes; the same order (symbol) must then drive every result.")
def c15(tier):
    def tree(ctx, sc, v, kw, regime, pena, what, ka=None):
        cands = candidates()
        ls = leaves(v, cands)
        if ka is not None:
            xl, ml = ka, []
        else:
            k0, env = kw["k0"].el[0].v, kw["eps_env"].el[0].v
            rs = [e.v for e in kw["r_layers"].el]
            es = [e.v for e in kw["eps_layers"].el]
            ne = vnm.sqrt(env)
            nl = [vnm.sqrt(e) for e in es]
            xl = functools_reduce(vnm.mul, (k0, ne, rs[-1]))
            ml = [functools_reduce(vnm.mul, (k0, a, b)) for a, b in zip(nl, rs)] if pena else []
        table = known_sizes(kw, ka)
        need = {"P", "K"}
        c, d = published(regime)
        extra = 15 if pena else 0
        req = [(what + " covers the published criterion for the largest host size parameter (size %g)" % regime, xl, c, d + extra)]
        req += [("%s covers the optical size of layer %d (size %g)" % (what, i, regime), q, 0, extra) for i, q in enumerate(ml)]
        for nm, x, c, d in req:
            if ls is None:
                ctx.und(nm, "the order is not a tree of maxima of recognised terms")
                continue
            good, unk = False, []
            for l in ls:
                ent = [table.get(key_of(e)) for e in l.els]
                if any(q is None for q in ent):
                    unk.append("x is not a recognised size parameter")
                    continue
                hit = [q for q in ent if q[0] == key_of(x) and q[2] == "maximum" and (q[1] | l.axes) >= need] if l.kind == "maximum" else []
                if hit and l.alpha >= 1 and l.c >= c and l.d >= d:
                    good = True
                elif hit and l.alpha >= 1 and (l.c > c or l.d > d or l.alpha > 1):
                    unk.append("coefficients are not comparable")
            if good:
                ctx.ok(nm)
                continue
            if unk:
                ctx.und(nm, unk[0])
            else:
                ctx.bad(nm, "%s uses %s" % (sc.name, "; ".join(map(repr, ls))), kind="truncation", func=sc.name.split("(")[0])

    def auto(ctx, be, L, regime, lay):
        vnm.INV.clear()
        r = Run(decide=True)
        r.ip.regime = float(regime)
        kw = layer_inputs(r, L=L, dev=dev_of(be, "D"), **lay)
        v = r.call(MS + "mie_coefficients", backend=be, **kw)
        ctx.saw(r.ip)
        sc = Sc("mie_coefficients(backend=%s, L=%d%s)" % (be, L, "".join(", %s=%s" % x for x in lay.items())), r, v, kw)
        e = order_data(ctx, sc)
        if e is None:
            return
        tree(ctx, sc, e, kw, regime, be == "pena", "the automatic order")

    def order_data(ctx, sc, key="n_max"):
        t = sc.get(key) if key else sc.value
        l = getattr(t, "lin", None)
        l = l[0] if isinstance(l, tuple) else l
        nm = onesym(l)
        if sc.err is not None or nm not in vnm.INTV:
            ctx.und("automatic order", sc.err or t)
            return None
        v = vnm.INTV[nm]
        return vnm.add(v, vnm.const(l.c)) if l.c else v

    def direct(ctx, name, regime):
        vnm.INV.clear()
        r = Run(decide=True)
        r.ip.regime = float(regime)
        if "wiscombe" in name:
            kw = dict(ka=r.leaf("ka", ("P", "K"), dt="c128"))
        else:
            kw = dict(k0=r.leaf("k0", (1, "K"), unit=-1), r_layers=r.leaf("r_layers", ("P", 3), unit=1), eps_layers=r.leaf("eps_layers", ("P", 3, "K"), dt="c128"),
                      eps_env=r.leaf("eps_env", (1, "K")))
        v = r.call(HP + name, **kw)
        ctx.saw(r.ip)
        sc = Sc("helper." + name, r, v, kw)
        q = getattr(v, "lin", None)
        q = q[0] if isinstance(q, tuple) else q
        nm = onesym(q)
        if r.err is not None or nm not in vnm.INTV:
            ctx.und(name, r.err or v)
            return
        e = vnm.INTV[nm]
        if q.c:
            e = vnm.add(e, vnm.const(q.c))
        tree(ctx, sc, e, kw, regime, "pena" in name, name, ka=kw["ka"].el[0].v if "ka" in kw else None)

    def used(ctx, fn, be, L, lay):
        """the automatic order drives everything: same results as passing it explicitly"""
        a = opened(ctx, lambda: functional(fn, backend=be, L=L, nmax=None, **lay))
        if a is None:
            return
        if fn in ("mie_coefficients", "cross_sections"):
            t = a.get("n_max")
            l = t.lin[0] if isinstance(t, T) and t.lin else None
        else:
            m = opened(ctx, lambda: functional("mie_coefficients", backend=be, L=L, nmax=None, **lay))
            t = m.get("n_max") if m is not None else None
            l = t.lin[0] if isinstance(t, T) and t.lin else None
        if onesym(l) is None:
            ctx.und("automatic order of %s" % fn, l)
            return
        b = opened(ctx, lambda: explicit(fn, be, L, l, tuple(lay.items())))
        if b is None:
            return
        for k in AXES[fn]:
            p, q = a.get(k), b.get(k)
            what = "'%s' uses the automatic order throughout" % k
            if not isinstance(p, T) or not isinstance(q, T) or p.shape is None or q.shape is None:
                ctx.und(what, p)
            elif show(p.shape) != show(q.shape):
                ctx.bad(what, "%s: axes %s, with the same order given explicitly %s" % (a.name, show(p.shape), show(q.shape)), kind="order", func=fn)
            elif len(p.el) == len(q.el) and all(eqv(x.v, y.v) for x, y in zip(p.el, q.el)):
                ctx.ok(what)
            else:
                ctx.und(what, "value numbers differ from the call with that order given explicitly")

    def given(ctx, fn, be, L, n, kind):
        def run():
            r = Run()
            kw = layer_inputs(r, L=L, dev=dev_of(be, "D"))
            if fn == "angular_scattering":
                kw["theta"] = r.leaf("theta", ("T",), dev=dev_of(be, "D"))
            if fn == "nearfields":
                kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dev=dev_of(be, "D"), unit=1)
            nv = n
            if kind == "tensor":
                nv = r.call(r.ip.getattr(r.ip.load("torch"), "tensor"), n) if False else T((), "i64", "cpu", [Elem(vnm.const(n), const=n, exact=True)], lin=(Lin({}, n), Lin({}, n)))
            v = r.call(MS + fn, backend=be, n_max=nv, **kw)
            return Sc("%s(backend=%s, L=%d, n_max=%s)" % (fn, be, L, n), r, v, kw)
        sc = opened(ctx, run)
        if sc is None:
            return
        t = sc.get("n")
        if isinstance(t, T):
            what = "orders 1..%d are returned when n_max=%d" % (n, n)
            got = [e.const for e in t.el]
            if all(q is not None for q in got):
                ctx.expect(got == list(range(1, n + 1)), what, "%s returns %s" % (sc.name, got), kind="orders", func=fn)
            else:
                agree(ctx, sc, t, [X(i + 1) for i in range(n)], what, "orders", fn)
        t = sc.get("n_max")
        if fn == "mie_coefficients":
            l = t.lin[0] if isinstance(t, T) and t.lin else t if isinstance(t, int) else None
            l = lin_const(l)
            ctx.expect(None if l is None else l == n, "the given order is returned as n_max", "n_max=%s" % (l,), kind="orders", func=fn)
            for k in ("a_n", "b_n"):
                a = sc.get(k)
                if isinstance(a, T) and a.shape is not None:
                    ctx.expect(len(a.el) == n, "'%s' has one entry per order" % k, "%d entries for n_max=%d" % (len(a.el), n), kind="orders", func=fn)

    out = []
    for regime in (2, 7.9, 8.1, 100, 4199, 4201):
        for nm in ("get_truncution_criteroin_wiscombe", "get_truncution_criteroin_pena2009"):
            out.append(("%s size %s" % (nm, regime), lambda c, z=(nm, regime): direct(c, *z)))
        for be, L in (("pena", 1), ("pena", 2), ("pena", 3), ("pena", 4), ("torch", 1), ("torch", 2), ("scipy", 1), ("scipy", 2)):
            for lay in cfg(tier, (dict(),), (dict(envdt="c128"), dict(edt="f64"))):
                out.append(("automatic order %s L=%d size %s %s" % (be, L, regime, lay), lambda c, z=(be, L, regime, lay): auto(c, *z)))
        for be in ALLB:
            for lay in (dict(envdt="c128"), dict(P=None, eps="L"), dict(K=None, eps="PL", env="scalar")):
                if lay.get("envdt"):
                    out.append(("automatic order %s L=2 size %s %s" % (be, regime, lay), lambda c, z=(be, 2, regime, lay): auto(c, *z)))
    for fn in FUNCS:
        for be in ALLB:
            for L in (1, 2):
                for lay in (dict(), dict(P=None, eps="L")):
                    out.append(("%s %s L=%d automatic order used %s" % (fn, be, L, lay), lambda c, z=(fn, be, L, lay): used(c, *z)))
            for n in cfg(tier, (1, 2, 4), (7, 12)):
                for kind in ("int", "tensor"):
                    out.append(("%s %s n_max=%d %s" % (fn, be, n, kind), lambda c, z=(fn, be, 2, n, kind): given(c, *z)))
    return out


def onesym(l):
    return l.t[0][0] if isinstance(l, Lin) and len(l.t) == 1 and l.t[0][1] == 1 else None


def lin_const(l):
    if isinstance(l, int):
        return l
    if isinstance(l, Lin) and not l.t:
        return l.c
    return None


def functools_reduce(f, q):
    r = q[0]
    for x in q[1:]:
        r = f(r, x)
    return r


def explicit(fn, be, L, l, lay):
    r = Run()
    dev = dev_of(be, "D")
    lay = dict(lay)
    kw = layer_inputs(r, L=L, dev=dev, **lay)
    if fn == "angular_scattering":
        kw["theta"] = r.leaf("theta", ("T",), dev=dev)
    if fn == "nearfields":
        kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dev=dev, unit=1)
    nm = onesym(l)
    LB.setdefault(nm, 1)
    v = r.call(MS + fn, backend=be, n_max=lin_val(l), **kw)
    return Sc("%s(backend=%s, L=%d, n_max=given)" % (fn, be, L), r, v, kw)


# ---------------------------------------------------------------- C11
DEFAULTS = dict(backend="pena", precision="double", which_jn="recurrence", return_internal=False, n_max=None, eps_env=1.0, E_0=1)
COEF = MS + "mie_coefficients"


def ident(ip, v):
    """comparable identity of an argument value; None when unknown"""
    if isinstance(v, str):
        return v.lower()
    if v is None or isinstance(v, (bool, int, float, complex)):
        return ("c", vnm.mid(vnm.const(v))) if not isinstance(v, bool) and v is not None else v
    if isinstance(v, T):
        if v.lin is not None:
            return ("c", vnm.mid(lin_vn(v.lin[0]))) if v.lin[0] == v.lin[1] else None
        return ("c",) + tuple(vnm.mid(e.v) for e in v.el)
    if isinstance(v, S):
        if v.lin is not None:
            return ("c", vnm.mid(lin_vn(v.lin)))
        return ("c", vnm.mid(v.el.v))
    l = as_lin(v)
    if l is not None:
        return ("c", vnm.mid(lin_vn(l)))
    return None


def call_obs(fn, opts, L=2, rec=True, dt="f64", edt="c128", env="K", nm=2):
    """functional observable with a recorded coefficient call"""
    r = Run()
    r.ip.hooks["record"] = {COEF}
    o = dict(opts)
    if rec == "opt":
        r.ip.hooks["options"] = ("precision", "which_jn")
    dev = dev_of(o.get("backend", "pena"), "D")
    kw = layer_inputs(r, L=L, dev=dev, dt=dt, edt=edt, env=None if "eps_env" in o else env)
    if fn == "angular_scattering":
        kw["theta"] = r.leaf("theta", ("T",), dt=dt, dev=dev)
    if fn == "nearfields":
        kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dt=dt, dev=dev, unit=1)
    if o.get("E_0") == "leaf":
        o["E_0"] = r.leaf("E_0", (), dt="c128", dev=dev)
    if o.get("eps_env") == "leaf":
        o["eps_env"] = r.leaf("eps_env", ("K",), dt=dt, dev=dev)
    if "n_max" not in o:
        kw["n_max"] = nm
    elif o["n_max"] == "N":
        o["n_max"] = r.order()
    elif o["n_max"] is None:
        o.pop("n_max")
    kw.update(o)
    v = r.call(MS + fn, **kw)
    sc = Sc("%s(%s)" % (fn, ", ".join("%s=%s" % x for x in opts)), r, v, kw)
    sc.opts = o
    sc.run = r
    return sc


def flat_facts(v):
    """number types, axes and value numbers of a (tuple of) tensor(s)"""
    if isinstance(v, T):
        return None if v.shape is None else (show(v.shape), v.dt, tuple(vnm.mid(e.v) for e in v.el))
    if isinstance(v, (tuple, list)):
        q = [flat_facts(x) for x in v]
        return None if None in q else tuple(q)
    if v is None or isinstance(v, (int, float, str)):
        return (v,)
    return None


def result_facts(sc, names):
    out = {}
    for k in names:
        t = sc.get(k)
        if not isinstance(t, T) or t.shape is None:
            out[k] = None
        else:
            out[k] = (show(t.shape), tuple(vnm.mid(e.v) for e in t.el), t.dt)
    return out


@check("C11", "Call recording and value numbering: every option must arrive unchanged at the coefficient evaluation and must change the "
              "observable wherever it changes the coefficients; particle methods must have the value numbers of the functional call "
              "made with the particle's radii and material permittivities.")
def c11(tier):
    def reach(ctx, fn, base, opt, val):
        opts = tuple(base) + ((opt, val),)
        sc = opened(ctx, lambda: call_obs(fn, opts))
        if sc is None:
            return
        want = ident(sc.ip, sc.opts.get(opt)) if val is not None else None
        dflt = ident(sc.ip, DEFAULTS[opt])
        ev = [e for e in sc.events("call") if e["fn"] == COEF]
        what = "%s passes %s=%s on to the coefficients" % (fn, opt, val)
        got = [ident(sc.ip, e["args"].get(opt)) for e in ev]
        if not ev:
            ctx.und(what, "the coefficients are not computed by mie_coefficients")
        elif want in got:
            ctx.ok(what)
        elif all(g == dflt for g in got):
            ctx.bad(what, "the call at %s uses the default" % ev[0]["site"], site=ev[0]["site"], func=fn, kind="dropped %s" % opt)
        elif opt in ("backend", "precision", "which_jn") and all(isinstance(g, str) for g in got) and all(g in OPTION_VALUES[opt] for g in got):
            ctx.bad(what, "the call at %s uses %s" % (ev[0]["site"], ", ".join(got)), site=ev[0]["site"], func=fn, kind="dropped %s" % opt)
        else:
            ctx.und(what, "the value passed is not recognised")

    def effect(ctx, fn, base, opt, v1, v2, dt, edt):
        """the observable changes where the coefficients do"""
        kw = dict(dt=dt, edt=edt)
        res = []
        for f in ("mie_coefficients", fn):
            q = []
            for v in (v1, v2):
                sc = opened(ctx, lambda: call_obs(f, tuple(base) + ((opt, v),), **kw))
                if sc is None:
                    return
                q.append(result_facts(sc, AXES[f]))
            res.append(q)
        what = "%s depends on %s where the coefficients do (%s/%s, %s)" % (fn, opt, v1, v2, edt)
        (m1, m2), (o1, o2) = res
        if None in m1.values() or None in m2.values() or None in o1.values() or None in o2.values():
            ctx.und(what, "result not determined")
        elif m1 == m2:
            ctx.ok(what + ": no difference in the coefficients")
        else:
            same = [k for k in AXES[fn] if o1[k] == o2[k] and k not in ("cs_geo", "E_i", "H_i")]
            ctx.expect(not same, what, "%s identical for %s=%s and %s (%s)" % (", ".join(same[:4]), opt, v1, v2, ", ".join("%s=%s" % b for b in base)), kind="ignored %s" % opt, func=fn)

    def depends(ctx, base, opt, v1, v2, key):
        """the coefficients themselves depend on the option"""
        q = []
        for v in (v1, v2):
            sc = opened(ctx, lambda: call_obs("mie_coefficients", tuple(base) + ((opt, v),), dt="f32" if opt == "precision" else "f64", edt="c64" if opt == "precision" else "c128"))
            if sc is None:
                return
            q.append(result_facts(sc, (key,)))
        what = "mie_coefficients applies %s (%s / %s, %s)" % (opt, v1, v2, dict(base))
        if None in q[0].values() or None in q[1].values():
            ctx.und(what, "result not determined")
        else:
            ctx.expect(q[0] != q[1], what, "'%s' is identical for %s=%s and %s" % (key, opt, v1, v2), kind="ignored %s" % opt, func="mie_coefficients")

    def inner(ctx, fn, base, opt, val):
        """every public function called on the way gets the option, unless it makes no difference to its result"""
        def run():
            sc = call_obs(fn, tuple(base) + ((opt, val),), rec="opt")
            return sc
        sc = opened(ctx, run)
        if sc is None:
            return
        ip = sc.ip
        ip.hooks.pop("options", None)
        seen = set()
        for e in list(sc.events("optcall")):
            short = e["fn"].split(".")[-1]
            if short.startswith("_") or e["fn"] == MS + fn or not e["fn"].startswith("pymiediff."):
                continue
            got = e["bound"].get(opt)
            got = got if got is not None else (e["kw"].get(opt))
            what = "%s is applied to %s" % (opt, short)
            if isinstance(got, str) and got.lower() == val:
                ctx.ok(what)
                continue
            key = (e["fn"], e["site"])
            if key in seen:
                continue
            seen.add(key)
            # called through a public function that offers no such option
            if any(g is not None and not g.name.startswith("_") and opt not in [x.arg for x in g.node.args.args + g.node.args.kwonlyargs] and g.node.args.kwarg is None and g.cls is None
                   for g in e["callers"]):
                continue
            a = e["f"].node.args
            if opt not in [x.arg for x in a.args + a.kwonlyargs]:
                continue                      # the function has no such option
            kw1 = dict(e["kw"])
            kw2 = dict(e["kw"], **{opt: val})
            if opt in [x.arg for x in a.args][:len(e["args"])]:
                continue
            r = sc.run
            x, y = r.call(e["f"], *e["args"], **kw1), r.call(e["f"], *e["args"], **kw2)
            if r.err is not None:
                ctx.und(what, r.err)
                r.err = None
                continue
            fx, fy = flat_facts(x), flat_facts(y)
            if fx is None or fy is None:
                ctx.und(what, "result not determined")
            elif fx == fy:
                ctx.ok(what + ": no difference")
            else:
                ctx.bad(what, "%s: the call of %s at %s uses %s, which changes its result" % (sc.name, short, e["site"], got if got is not None else "its default"), site=e["site"], func=short, kind="dropped %s" % opt)

    def linear_E0(ctx, be, L, n):
        """every field is the incident amplitude times the field of unit amplitude"""
        r = Run()
        kw = layer_inputs(r, L=L, dev=dev_of(be, "D"))
        kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dev=dev_of(be, "D"), unit=1)
        e0 = r.leaf("E_0", (), dt="c128", dev=dev_of(be, "D"))
        a = r.call(MS + "nearfields", backend=be, n_max=n, E_0=e0, **kw)
        b = r.call(MS + "nearfields", backend=be, n_max=n, **kw)
        ctx.saw(r.ip)
        if r.err is not None:
            ctx.und("call completes", r.err)
            return
        for k in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"):
            x, y = r.get(a, k), r.get(b, k)
            what = "'%s' is proportional to E_0" % k
            if not isinstance(x, T) or not isinstance(y, T) or len(x.el) != len(y.el):
                ctx.und(what, x)
                continue
            if all(eqv(p.v, vnm.mul(q.v, e0.el[0].v)) for p, q in zip(x.el, y.el)):
                ctx.ok(what)
            elif all(eqv(p.v, q.v) for p, q in zip(x.el, y.el)):
                ctx.bad(what, "nearfields(backend=%s): '%s' does not change with E_0" % (be, k), kind="ignored E_0", func="nearfields")
            else:
                ctx.und(what, "value numbers differ")

    def obs(ctx, fn, opts, L):
        """observables from the coefficients computed with the same options (no exact theory: the options matter)"""
        a = opened(ctx, lambda: call_obs("mie_coefficients", opts, L=L))
        s = opened(ctx, lambda: call_obs(fn, opts, L=L))
        if a is None or s is None:
            return
        an, bn = vals(a.get("a_n")), vals(a.get("b_n"))
        if an is None or bn is None or len(an) != 2:
            ctx.und("coefficients", a.get("a_n"))
            return
        m = mie_of(s.inputs)
        if fn == "cross_sections":
            ref = cs_ref(m.k, m.r[-1], an, bn)
        else:
            ref = ang_ref(cos(s.inputs["theta"].el[0].v), an, bn)
        for k, q in ref.items():
            t = s.get(k)
            if isinstance(t, T) and len(t.el) == len(q) and all(eqv(e.v, x) for e, x in zip(t.el, q)):
                ctx.ok("'%s' is computed from the coefficients of the same options" % k)
            else:
                ctx.und("'%s' is computed from the coefficients of the same options" % k, "value numbers differ")

    def part(ctx, meth, mats, env, L, opts, K, form):
        fn = METH[meth]
        r = Run(hooks={"yaml": yaml_hook(kind="tabulated", distinct=True)})
        r.ip.hooks["record"] = {MS + fn}
        o = dict(opts)
        dev = dev_of(o.get("backend", "pena"), "D")
        ms = [make_material(r, mats, i, dev) for i in range(L)]
        me = make_material(r, env, "env", dev)
        kw = {}
        if form == "legacy":
            kw["r_core"], kw["mat_core"] = r.leaf("r_layers#0", (), unit=1, dev=dev), ms[0]
            if L > 1:
                kw["r_shell"], kw["mat_shell"] = r.leaf("r_layers#1", (), unit=1, dev=dev), ms[1]
            if L == 1:
                kw["r_core"].el[0].v = vnm.leaf("r_layers")
        else:
            kw["r_layers"] = r.leaf("r_layers", (L,), unit=1, dev=dev)
            if form == "eps":
                kw["eps_layers"] = r.leaf("eps_layers", (L, "K") if K else (L,), dt="c64", dev=dev)
            else:
                kw["mat_layers"] = r.lst(list(ms), owner="mat_layers list")
        kw["mat_env"] = me
        if dev != "cpu":
            kw["device"] = Dev(dev)
        p = r.call("pymiediff.Particle", **kw)
        name = "Particle.%s(%s)" % (meth, ", ".join(["L=%d" % L, form, "materials=%s" % mats, "env=%s" % env] + ["%s=%s" % x for x in opts]))
        if r.err is not None:
            ctx.saw(r.ip)
            ctx.und("particle", r.err)
            return
        k0 = r.leaf("k0", (K,) if K else (), unit=-1, dev=dev)
        args = [k0]
        if "angular" in meth:
            args.append(r.leaf("theta", ("T",), dev=dev))
        if "nearfields" in meth:
            args.append(r.leaf("r_probe", ("Q", 3), dev=dev, unit=1))
        if o.get("E_0") == "leaf":
            o["E_0"] = r.leaf("E_0", (), dt="c128", dev=dev)
        o.setdefault("n_max", 2)
        if o["n_max"] is None:
            o.pop("n_max")
        v1 = r.call(r.ip.getattr(p, meth), *args, **o)
        sc = Sc(name, r, v1, {})
        ctx.saw(r.ip)
        if r.err is not None:
            ctx.und("call completes", "%s: %s" % (r.err.etype, r.err.msg))
            return
        # the functional call
        wl = r.ip.tm.binop("Div", r.ip.tm.binop("Mult", 2, 3.141592653589793), k0)

        def eps_of(m):
            if isinstance(m, T):
                return r.ip.tm.binop("Mult", m, m)
            if isinstance(m, S):
                t = T((), "c64", dev, [m.el.cp(v=vnm.mul(m.el.v, m.el.v))])
                return t
            return r.call(r.ip.getattr(m, "get_epsilon"), wl)
        fkw = {"k0": k0}
        if "theta" in fn or "angular" in fn:
            fkw["theta"] = args[1]
        if fn == "nearfields":
            fkw["r_probe"] = args[1]
        fkw["r_layers"] = kw["r_layers"] if "r_layers" in kw else r.ip.tm.fns.f_stack([r.lst([kw[q] for q in ("r_core", "r_shell") if q in kw])], {})
        if form == "eps":
            fkw["eps_layers"] = kw["eps_layers"]
        else:
            es = [eps_of(m) for m in ms]
            if r.err is not None or not all(isinstance(e, T) for e in es):
                ctx.und("permittivities of the materials", r.err or es)
                return
            fkw["eps_layers"] = r.ip.tm.fns.f_stack([r.lst(es)], {})
        fkw["eps_env"] = eps_of(me)
        if r.err is not None:
            ctx.und("permittivity of the environment", r.err)
            return
        fkw.update(o)
        v2 = r.call(MS + fn, **fkw)
        if r.err is not None:
            ctx.und("functional call completes", "%s: %s" % (r.err.etype, r.err.msg))
            return
        # recorded options
        ev = [e for e in r.ip.events if e["kind"] == "call" and e["fn"] == MS + fn][:1]
        if ev:
            for k, v in o.items():
                want, got = ident(r.ip, v), ident(r.ip, ev[0]["args"].get(k))
                what = "%s passes %s on" % (meth, k)
                if want == got:
                    ctx.ok(what)
                elif got == ident(r.ip, DEFAULTS.get(k)):
                    ctx.bad(what, "%s: the default is used at %s" % (name, ev[0]["site"]), site=ev[0]["site"], kind="dropped %s" % k, func=meth)
                else:
                    ctx.und(what, "the value passed is not recognised")
        names = list(AXES[fn]) + (["n", "wavelength"] if fn == "cross_sections" else [])
        if o.get("return_internal"):
            names += [k + "_n" for k in "cdfgvw"]
        sq = lambda t: show(tuple(d for d in t.shape if d != ())) if t.shape is not None else None
        bad = []
        for k in names:
            a, b = r.get(v1, k), r.get(v2, k)
            what = "'%s' of %s equals the functional result" % (k, meth)
            if not isinstance(a, T) or not isinstance(b, T) or sq(a) is None or sq(b) is None:
                if isinstance(b, T) and r.keys(v1) is not None and k not in r.keys(v1):
                    ctx.bad(what, "%s: not returned" % name, kind="particle", func=meth)
                else:
                    ctx.und(what, a)
            elif sq(a) != sq(b):
                ctx.bad(what, "%s: axes %s instead of %s" % (name, sq(a), sq(b)), kind="particle", func=meth)
            elif len(a.el) == len(b.el) and all(eqv(x.v, y.v) for x, y in zip(a.el, b.el)):
                if a.dt != b.dt and None not in (a.dt, b.dt):
                    ctx.bad(what, "%s: number type %s instead of %s" % (name, a.dt, b.dt), kind="particle", func=meth)
                else:
                    ctx.ok(what)
            else:
                bad.append(k)
        if bad:
            confirm(ctx, bad, meth, fn, name, r, p, args, o, fkw)

    def confirm(ctx, bad, meth, fn, name, r, p, args, o, fkw):
        """value numbers differ: decided with the exact summaries of the special functions, otherwise open"""
        what = "%s equals the functional result" % meth
        ip = r.ip
        keep = set(vnm.OPS)
        vnm.OPS.clear()
        try:
            ip.hooks.update(HOOKS)
            a = r.call(ip.getattr(p, meth), *args, **o)
            e1 = r.err
            b = r.call(MS + fn, **fkw)
            e2 = r.err
            ops = set(vnm.OPS)
        finally:
            vnm.OPS.update(keep)
        if e1 or e2:
            ctx.und(what, e1 or e2)
            return
        rk = sorted(q for q in ops if q not in SAFE)
        dif = []
        for k in bad:
            x, y = r.get(a, k), r.get(b, k)
            if not (isinstance(x, T) and isinstance(y, T) and len(x.el) == len(y.el) and all(eqv(u.v, w.v) for u, w in zip(x.el, y.el))):
                dif.append(k)
        if not dif:
            ctx.und(what, "equal up to the algorithm of the special functions, %s differ in it" % ", ".join(bad[:4]))
        elif rk:
            ctx.und(what, "%s differ, but the calculation uses %s" % (", ".join(dif[:4]), ", ".join(rk[:4])))
        else:
            ctx.bad(what, "%s: %s differ from the functional call with the same radii, permittivities and options" % (name, ", ".join(dif[:6])), kind="particle value", func=meth)

    out = []
    for fn in ("cross_sections", "angular_scattering", "nearfields"):
        R = [((), "backend", "torch"), ((), "backend", "scipy"), ((), "precision", "single"), ((("backend", "torch"),), "precision", "single"),
             ((("backend", "torch"),), "which_jn", "ratios"), ((("backend", "torch"),), "which_jn", "continued_fraction"), ((), "n_max", 3), ((), "n_max", "N"), ((("backend", "torch"),), "n_max", 4),
             ((), "eps_env", "leaf"), ((("backend", "torch"),), "eps_env", "leaf"), ((("backend", "scipy"),), "n_max", 3)]
        for base, o, v in R:
            out.append(("%s %s %s=%s" % (fn, dict(base), o, v), lambda c, z=(fn, base, o, v): reach(c, *z)))
        for base, o, v1, v2 in (((), "backend", "pena", "torch"), ((), "precision", "single", "double"), ((("backend", "torch"),), "precision", "single", "double"),
                                ((("backend", "torch"),), "which_jn", "recurrence", "ratios"), ((), "n_max", 2, 3), ((("backend", "torch"),), "n_max", 2, 3)):
            # for double precision inputs 'single' need not change the number type of the result
            for dt, edt in ((("f64", "c128"),) if o != "precision" else ()) + (("f32", "c64"),):
                out.append(("%s %s effect of %s %s/%s %s" % (fn, dict(base), o, v1, v2, dt), lambda c, z=(fn, base, o, v1, v2, dt, edt): effect(c, *z)))
        for base, o, v in (((), "precision", "single"), ((("backend", "torch"),), "precision", "single"), ((("backend", "torch"),), "which_jn", "ratios")):
            out.append(("%s %s inner %s=%s" % (fn, dict(base), o, v), lambda c, z=(fn, base, o, v): inner(c, *z)))
        if fn != "nearfields":
            for opts in ((), (("backend", "torch"),), (("backend", "scipy"),), (("backend", "torch"), ("which_jn", "ratios")), (("precision", "single"),)):
                for L in (1, 2):
                    out.append(("%s %s L=%d from its coefficients" % (fn, dict(opts), L), lambda c, z=(fn, opts, L): obs(c, *z)))
    T_ = (("backend", "torch"),)
    RI = (("return_internal", True),)
    for base, o, v in (((), "precision", "single"), (T_, "precision", "single"), (T_ + RI, "precision", "single"), (T_, "which_jn", "ratios")):
        out.append(("mie_coefficients %s inner %s=%s" % (dict(base), o, v), lambda c, z=("mie_coefficients", base, o, v): inner(c, *z)))
    for base, o, v1, v2 in (((), "backend", "pena", "torch"), ((), "precision", "single", "double"), (T_, "which_jn", "recurrence", "ratios"),
                            ((), "n_max", 2, 3), (T_, "n_max", 2, 3), (T_, "precision", "single", "double")):
        for key in ("a_n", "b_n"):
            out.append(("mie_coefficients %s %s %s/%s %s" % (dict(base), o, v1, v2, key), lambda c, z=(base, o, v1, v2, key): depends(c, *z)))
    for be in ALLB:
        for L in (1, 2):
            out.append(("nearfields %s L=%d proportional to E_0" % (be, L), lambda c, z=(be, L, 2): linear_E0(c, *z)))
    OPT = [(), (("backend", "torch"),), (("precision", "single"),), (("backend", "torch"), ("which_jn", "ratios")), (("n_max", 3),), (("n_max", None),)]
    for m in METH:
        extra = [(("backend", "torch"), ("return_internal", True))] if m == "get_mie_coefficients" else [(("E_0", "leaf"),), (("backend", "torch"), ("E_0", "leaf"))] if m == "get_nearfields" else []
        for opts in OPT + extra:
            out.append(("%s %s" % (m, dict(opts)), lambda c, z=(m, "const", "const", 2, opts, "K", "layers"): part(c, *z)))
        for mats, env, L, K, form in (("table", "num", 2, "K", "layers"), ("table", "table", 3, "K", "layers"), ("MatConstant", "MatConstant", 2, "K", "layers"), ("num", "num", 3, "K", "layers"),
                                      ("complex", "const", 2, "K", "layers"), ("const", "const", 1, "K", "legacy"), ("table", "num", 2, "K", "legacy"), ("num", "MatConstant", 2, "K", "eps"),
                                      ("table", "num", 2, None, "layers"), ("const", "table", 1, None, "layers"), ("num", "num", 2, None, "eps")):
            out.append(("%s materials=%s env=%s L=%d K=%s %s" % (m, mats, env, L, K, form), lambda c, z=(m, mats, env, L, (), K, form): part(c, *z)))
            if tier == "thorough":
                for opts in OPT[1:] + extra:
                    if L > 2 and ("backend", "torch") in opts:
                        continue
                    out.append(("%s materials=%s env=%s L=%d K=%s %s %s" % (m, mats, env, L, K, form, dict(opts)), lambda c, z=(m, mats, env, L, opts, K, form): part(c, *z)))
    return out


OPTION_VALUES = dict(backend=("pena", "torch", "scipy"), precision=("single", "double"), which_jn=("recurrence", "ratios", "continued_fraction"))
