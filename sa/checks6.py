"""Rejection of invalid configurations; units; imports; materials; bridge; totality; recurrences."""
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings
from checks2 import ALLB, cfg, soft
from checks4 import AXES
import itertools


def consts(r, name, vals, dt="f64", dev="cpu", unit=0):
    """a user tensor with known numbers (nested lists)"""
    shape, q = [], vals
    while isinstance(q, (list, tuple)):
        shape.append(len(q))
        q = q[0] if q else None

    def fl(v):
        return [x for y in v for x in fl(y)] if isinstance(v, (list, tuple)) else [v]
    els = [Elem(vnm.const(x), const=x, exact=True, unit=unit, live=frozenset((name,))) for x in fl(vals)]
    t = T(D(*shape), dt, dev, els, leafs=frozenset((name,)))
    for s in t.sid:
        r.ip.sid_owner[s] = ("user", name)
    return t


class Case:
    """one configuration: r.call(fn, **kw), then the steps on the result"""

    def __init__(self, text, mk):
        self.text, self.mk = text, mk


GOOD = {}


def raises(ctx, text, good, bad, func, kind="accepted"):
    """`bad(r)` must raise where `good(r)` completes; each returns nothing, the Run keeps the exception"""
    what = "rejects %s" % text
    if good not in GOOD:
        r = Run(decide=True, hooks={"yaml": yaml_hook()})
        good(r)
        ctx.saw(r.ip)
        GOOD[good] = None if r.err is None else "%s: %s" % (r.err.etype, r.err.msg)
    if GOOD[good] is not None:
        ctx.und(what, "the valid counterpart does not complete: %s" % GOOD[good])
        return
    r = Run(decide=True, hooks={"yaml": yaml_hook()})
    v = bad(r)
    ctx.saw(r.ip)
    if r.err is not None:
        ctx.ok(what + " (%s)" % r.err.etype)
    elif any(r.ip.pending[0]):
        ctx.und(what, "raises on some path: %s" % r.ip.pending[0][0].msg)
    elif isinstance(v, Top) or r.ip.uncertain:
        ctx.und(what, "result not determined")
    else:
        ctx.bad(what, "%s is computed without an error" % text, kind="%s %s" % (kind, text), func=func)


def args_of(r, fn, be, L=2, P=2, K=3, **over):
    """functional arguments with concrete sizes; over: name -> (dims | value)"""
    dev = "cpu"
    dims = dict(k0=(K,), r_layers=(P, L), eps_layers=(P, L, K), eps_env=(K,))
    if fn == "angular_scattering":
        dims["theta"] = (4,)
    if fn == "nearfields":
        dims["r_probe"] = (5, 3)
    unit = dict(k0=-1, r_layers=1, r_probe=1, r_c=1, r_s=1)
    kw = dict(backend=be, n_max=2)
    for k, v in list(over.items()):
        if v is None:
            dims.pop(k, None)
            kw.pop(k, None)
        elif isinstance(v, tuple) and all(isinstance(x, int) for x in v):
            dims[k] = v
        else:
            dims.pop(k, None)
            kw[k] = v(r) if callable(v) else v
    for k, d in dims.items():
        if k == "r_layers":
            # increasing radii for every particle
            n = 1
            for x in d:
                n *= x
            t = r.leaf(k, d, dev=dev, unit=1)
            last = d[-1] if d else 1
            for i, e in enumerate(t.el):
                c = 40.0 + 10 * (i % last) + i // last
                e.v, e.const = vnm.const(c), c
            kw[k] = t
        else:
            kw[k] = r.leaf(k, d, dt="c128" if k.startswith("eps_") and k != "eps_env" else "f64", dev=dev, unit=unit.get(k, 0))
    return kw


def fcall(fn, be, **over):
    return lambda r: r.call(MS + fn, **args_of(r, fn, be, **over))


def bad_radii(L, P):
    """(text, table) of radii that do not increase at exactly one interface of exactly one particle"""
    base = [[40.0 + 15 * j + 3 * p for j in range(L)] for p in range(P)]
    for p in range(P):
        for j in range(L - 1):
            for nm, f in (("equal", lambda a, b: (a, a)), ("slightly decreasing", lambda a, b: (a, a * (1 - 1e-6))), ("decreasing", lambda a, b: (b, a))):
                t = [list(x) for x in base]
                t[p][j], t[p][j + 1] = f(t[p][j], t[p][j + 1])
                if nm == "equal" and j + 2 < L or nm != "equal":
                    # only this interface is wrong
                    for q in range(j + 2, L):
                        t[p][q] = base[p][q] + 100
                    if nm == "decreasing" and j > 0:
                        # the lower neighbour stays below
                        t[p][j + 1] = t[p][j] - 1
                yield "%s radii %d/%d of particle %d of %d" % (nm, j, j + 1, p, P), t


PART_VALID = dict(r_layers=[50.0, 60.0], mat_layers=2)


def part_kw(r, spec):
    kw = {}
    for k, v in spec.items():
        if k == "mat_layers":
            kw[k] = r.lst([r.call("pymiediff.materials.MatConstant", r.leaf("m%d" % i, (), dt="c64", dev="cpu")) for i in range(v)])
        elif k in ("mat_core", "mat_shell"):
            kw[k] = r.call("pymiediff.materials.MatConstant", r.leaf(k, (), dt="c64", dev="cpu"))
        elif k == "eps_layers":
            kw[k] = r.leaf(k, v, dt="c64", dev="cpu")
        elif k == "r_layers" and not isinstance(v, list):
            kw[k] = consts(r, k, v[0], unit=1)
        elif k == "r_layers":
            kw[k] = r.lst(list(v))
        elif k.startswith("r_"):
            kw[k] = consts(r, k, v[0], unit=1) if isinstance(v, tuple) else v
    kw["mat_env"] = 1.0
    return kw


def pcall(spec, meth="get_cross_sections", opts=()):
    def run(r):
        p = r.call("pymiediff.Particle", **part_kw(r, spec))
        if r.err is not None or meth is None:
            return p
        args = [r.leaf("k0", (3,), dev="cpu", unit=-1)]
        if "angular" in meth:
            args.append(r.leaf("theta", (4,), dev="cpu"))
        if "nearfields" in meth:
            args.append(r.leaf("r_probe", (5, 3), dev="cpu", unit=1))
        return r.call(r.ip.getattr(p, meth), *args, **dict(dict(n_max=2), **dict(opts)))
    return run


@check("C12", "Abstract execution of every documented invalid configuration (concrete sizes and radii, everything else symbolic) and of its "
              "valid counterpart: the invalid one must end in a raised exception on every path.")
def c12(tier):
    out = []

    def add(label, text, good, bad, func):
        out.append((label, lambda c, z=(text, good, bad, func): raises(c, *z)))

    for fn in FUNCS:
        for be in ALLB:
            ok = fcall(fn, be)
            A = lambda text, fn=fn, be=be, ok=ok, **over: add("%s %s: %s" % (fn, be, text), "%s(backend=%s) with %s" % (fn, be, text), ok, fcall(fn, be, **over), fn)
            if be == "pena":                 # the other solvers have no rule of their own: they stumble over the empty order axis
                for n in (0, -1):
                    A("n_max=%d" % n, n_max=n)
                A("n_max=0 as a tensor", n_max=lambda r: T((), "i64", "cpu", [Elem(vnm.const(0), const=0, exact=True)], lin=(Lin({}, 0), Lin({}, 0))))
            A("radii without permittivities", eps_layers=None)
            A("permittivities without radii", r_layers=None)
            A("no particle description", r_layers=None, eps_layers=None)
            A("core radius without core permittivity", r_layers=None, eps_layers=None, r_c=lambda r: r.leaf("r_c", (2,), dev="cpu", unit=1))
            A("core permittivity without core radius", r_layers=None, eps_layers=None, eps_c=lambda r: r.leaf("eps_c", (2,), dt="c128", dev="cpu"))
            A("a two-dimensional wavenumber table", k0=(2, 3))
            A("a square wavenumber table", k0=(3, 3))
            A("a wavenumber table of one row per particle", k0=(2, 3), eps_env=(), eps_layers=(2,))
            A("a square wavenumber table and constant materials", k0=(2, 2), eps_env=(), eps_layers=(2,))
            A("layer radii only, next to a core permittivity and radius", eps_layers=None, r_c=lambda r: r.leaf("r_c", (2,), dev="cpu", unit=1), eps_c=lambda r: r.leaf("eps_c", (), dt="c128", dev="cpu"))
            A("layer permittivities only, next to a core permittivity and radius", r_layers=None, r_c=lambda r: r.leaf("r_c", (2,), dev="cpu", unit=1), eps_c=lambda r: r.leaf("eps_c", (), dt="c128", dev="cpu"))
            A("host permittivities at three wavenumbers for one", K=1, k0=(1,), eps_env=(3,), eps_layers=(2,))
            A("permittivities at three wavenumbers for one", K=1, k0=(1,), eps_env=(), eps_layers=(2, 2, 3))
            A("a two-dimensional host permittivity of one row", eps_env=(1, 3))
            A("a square host permittivity", eps_env=(3, 3))
            A("a two-dimensional host permittivity of one column", eps_env=(3, 1))
            A("host permittivity per particle", eps_env=(2,), eps_layers=(2,))
            A("four host permittivities for three wavenumbers", eps_env=(4,))
            A("two host permittivities for three wavenumbers", eps_env=(2,))
            A("a two-dimensional host permittivity", eps_env=(2, 3))
            for sh, t in (((3,), "three permittivities for two layers"), ((1,), "one permittivity for two layers"), ((2, 4), "permittivities (2, 4) for 2 particles, 2 layers, 3 wavenumbers"),
                          ((3, 2), "permittivities (3, 2) for 2 particles, 2 layers, 3 wavenumbers"), ((3, 3), "permittivities (3, 3) for 2 particles, 2 layers, 3 wavenumbers"),
                          ((2, 3, 3), "permittivities of three layers for two"), ((2, 1, 3), "permittivities of one layer for two"),
                          ((2, 2, 4), "permittivities at four wavenumbers for three"), ((2, 2, 2), "permittivities at two wavenumbers for three"), ((3, 2, 3), "permittivities of three particles for two"),
                          ((3, 1), "permittivities (3, 1) for 2 particles, 2 layers, 3 wavenumbers"), ((1, 3), "permittivities (1, 3) for 2 particles, 2 layers, 3 wavenumbers"), ((1, 2, 2, 3), "four-dimensional permittivities (1, 2, 2, 3)"),
                          ((1, 2, 2), "shared permittivities at two wavenumbers for three"), ((1, 1, 3), "shared permittivities of one layer for two"), ((1, 3, 3), "shared permittivities of three layers for two"), ((2, 2, 3, 1), "four-dimensional permittivities")):
                A(t, eps_layers=sh)
            A("three-dimensional radii", r_layers=lambda r: consts(r, "r_layers", [[[40.0, 50.0]], [[41.0, 51.0]]], unit=1))
            if fn == "angular_scattering":
                for sh in ((2, 4), (1, 4), (3, 4), (4, 1), (1, 1)):
                    A("two-dimensional angles %s" % (sh,), theta=sh)
            if fn == "nearfields":
                A("two-dimensional probe positions", r_probe=(5, 2))
            for L in (2,) if be != "pena" else cfg(tier, (2, 3, 4), (5, 6)):
                for P in cfg(tier, (2,) if fn != "mie_coefficients" else (1, 2), (1, 3)):
                    good = fcall(fn, be, L=L, P=P, eps_layers=(L,))
                    for t, tab in bad_radii(L, P):
                        add("%s %s L=%d: %s" % (fn, be, L, t), "%s(backend=%s, L=%d) with %s" % (fn, be, L, t), good,
                            fcall(fn, be, L=L, P=P, eps_layers=(L,), r_layers=lambda r, q=tab: consts(r, "r_layers", q, unit=1)), fn)
            # legacy radii
            for t, rc, rs in (("shell below core", [50.0, 50.0], [60.0, 40.0]), ("shell equal to core for one particle", [50.0, 50.0], [60.0, 50.0]), ("shell below core for all", [50.0, 50.0], [45.0, 40.0]),
                              ("different numbers of core and shell radii", [50.0, 51.0], [60.0, 61.0, 62.0])):
                leg = dict(r_layers=None, eps_layers=None, eps_c=lambda r: r.leaf("eps_c", (), dt="c128", dev="cpu"), eps_s=lambda r: r.leaf("eps_s", (), dt="c128", dev="cpu"))
                add("%s %s legacy: %s" % (fn, be, t), "%s(backend=%s) with %s" % (fn, be, t),
                    fcall(fn, be, r_c=lambda r: consts(r, "r_c", [50.0, 51.0], unit=1), r_s=lambda r: consts(r, "r_s", [60.0, 61.0], unit=1), **leg),
                    fcall(fn, be, r_c=lambda r, q=rc: consts(r, "r_c", q, unit=1), r_s=lambda r, q=rs: consts(r, "r_s", q, unit=1), **leg), fn)
        for bad in ("foo", "", "numpy", "torchscipy"):
            add("%s backend=%r" % (fn, bad), "%s(backend=%r)" % (fn, bad), fcall(fn, "pena"), fcall(fn, bad), fn)
        for be in ("torch", "scipy"):
            for L in cfg(tier, (3, 4), (5, 7)):
                add("%s %s L=%d" % (fn, be, L), "%s(backend=%s) of %d layers" % (fn, be, L), fcall(fn, "pena", L=L), fcall(fn, be, L=L), fn)
    for L in (1, 2, 3):
        add("internal coefficients pena L=%d" % L, "mie_coefficients(backend=pena, return_internal=True, L=%d)" % L, fcall("mie_coefficients", "pena", L=L),
            fcall("mie_coefficients", "pena", L=L, return_internal=True), "mie_coefficients")
    # particles
    V = pcall(PART_VALID)
    for t, s in (("no description", dict()), ("core radius only", dict(r_core=50.0)), ("core material only", dict(mat_core=1)), ("shell radius without shell material", dict(r_core=50.0, mat_core=1, r_shell=60.0)),
                 ("shell material without shell radius", dict(r_core=50.0, mat_core=1, mat_shell=1)), ("both descriptions", dict(r_core=50.0, mat_core=1, r_layers=[50.0], mat_layers=1)),
                 ("both descriptions, core radius only", dict(r_core=50.0, r_layers=[50.0], mat_layers=1)), ("both descriptions, core material only", dict(mat_core=1, r_layers=[50.0], mat_layers=1)),
                 ("both descriptions, shell radius only", dict(r_shell=70.0, r_layers=[50.0], mat_layers=1)), ("both descriptions, shell material only", dict(mat_shell=1, r_layers=[50.0], mat_layers=1)),
                 ("both descriptions, core-shell and permittivities", dict(r_core=40.0, mat_core=1, eps_layers=(1,))), ("both descriptions, core radius and permittivities", dict(r_core=40.0, eps_layers=(1,))),
                 ("both descriptions, core-shell and layer materials", dict(r_core=40.0, mat_core=1, mat_layers=1)),
                 ("layer radii only", dict(r_layers=[50.0, 60.0])), ("layer materials only", dict(mat_layers=1)), ("layer permittivities only", dict(eps_layers=(1,))), ("layer radii with core material", dict(r_layers=[50.0], mat_core=1)),
                 ("one material for two radii", dict(r_layers=[50.0, 60.0], mat_layers=1)), ("three materials for two radii", dict(r_layers=[50.0, 60.0], mat_layers=3)),
                 ("materials and permittivities", dict(r_layers=[50.0, 60.0], mat_layers=2, eps_layers=(2,))),
                 ("three permittivities for two radii", dict(r_layers=[50.0, 60.0], eps_layers=(3,))), ("one permittivity for two radii", dict(r_layers=[50.0, 60.0], eps_layers=(1,))),
                 ("two-dimensional radii", dict(r_layers=([[50.0, 60.0], [51.0, 61.0]],), mat_layers=2)),
                 ("no layers", dict(r_layers=[], mat_layers=0)), ("a vector of core radii", dict(r_core=([50.0, 60.0],), mat_core=1)), ("vectors of core and shell radii", dict(r_core=([50.0, 60.0],), r_shell=([70.0, 80.0],), mat_core=1, mat_shell=1)),
                 ("shell inside the core", dict(r_core=60.0, mat_core=1, r_shell=50.0, mat_shell=1)), ("shell radius equal to the core radius", dict(r_core=60.0, mat_core=1, r_shell=60.0, mat_shell=1))):
        add("Particle %s" % t, "Particle with %s" % t, V, pcall(s), "Particle")
    for m in METH:
        for t, rr in (("decreasing radii", [60.0, 50.0]), ("equal radii", [50.0, 50.0]), ("last radius too small", [50.0, 70.0, 60.0]), ("middle radius too small", [50.0, 40.0, 60.0]), ("middle radii equal", [40.0, 50.0, 50.0, 60.0])):
            n = len(rr)
            for form in (dict(mat_layers=n), dict(eps_layers=(n,))):
                add("Particle.%s %s %s" % (m, t, sorted(form)), "Particle.%s with %s (%s)" % (m, t, sorted(form)[0]), pcall(dict(r_layers=sorted(x + i * 5 for i, x in enumerate(rr)), **form), m), pcall(dict(r_layers=rr, **form), m), "Particle")
        for be in ("torch", "scipy"):
            s = dict(r_layers=[40.0, 50.0, 60.0], mat_layers=3)
            add("Particle.%s 3 layers %s" % (m, be), "Particle.%s(backend=%s) of 3 layers" % (m, be), pcall(s, m), pcall(s, m, (("backend", be),)), m)
        for n in (0, -1):
            add("Particle.%s n_max=%d" % (m, n), "Particle.%s(n_max=%d)" % (m, n), pcall(PART_VALID, m), pcall(PART_VALID, m, (("n_max", n),)), m)
        add("Particle.%s backend" % m, "Particle.%s(backend='foo')" % m, pcall(PART_VALID, m), pcall(PART_VALID, m, (("backend", "foo"),)), m)
    add("Particle internal coefficients", "Particle.get_mie_coefficients(return_internal=True) with the multilayer backend", pcall(PART_VALID, "get_mie_coefficients"),
        pcall(PART_VALID, "get_mie_coefficients", (("return_internal", True),)), "get_mie_coefficients")

    # special functions
    def vsh(name, kind, n=2):
        def run(r):
            a = [r.leaf(q, d, dt=t, dev="cpu", unit=u) for q, d, t, u in (("k0", (1, 1, 3, 1, 1), "f64", -1), ("nm", (1, 2, 3, 1, 1), "c128", 0), ("r", (1, 1, 1, 5, 1), "f64", 1), ("th", (1, 1, 1, 5, 1), "f64", 0), ("ph", (1, 1, 1, 5, 1), "f64", 0))]
            return r.call(SP + name, n, *a, kind)
        return run
    for kind in (0, 4, -1):
        add("vsh kind=%d" % kind, "vsh(kind=%d)" % kind, vsh("vsh", 1), vsh("vsh", kind), "vsh")
    for kind in (0, 2, 4):
        add("vsh_pena kind=%d" % kind, "vsh_pena(kind=%d)" % kind, vsh("vsh_pena", 1), vsh("vsh_pena", kind), "vsh_pena")

    def spc(name, n):
        return lambda r: r.call(SP + name, n, r.leaf("z", (3,), dt="f64" if name == "pi_tau" else "c128", dev="cpu"))
    for name in ("pena_D1_n", "pena_D3_n"):
        add("%s order -1" % name, "%s at order -1" % name, spc(name, 2), spc(name, -1), name)
    for n in (0, -1):
        add("pi_tau order %d" % n, "pi_tau at order %d" % n, spc("pi_tau", 2), spc("pi_tau", n), "pi_tau")

    # materials
    def mat(name=None, typ=None):
        def run(r):
            if typ is not None:
                r.ip.hooks["yaml"] = yaml_hook(kind="formula" if typ.startswith("formula") else "tabulated", typ=typ)
            m = r.call("pymiediff.materials.MatDatabase", name or "Si")
            if r.err is not None:
                return None
            return r.call(r.ip.getattr(m, "get_epsilon"), r.leaf("wl", (3,), dt="f32", dev="cpu"))
        return run
    for nm in ("unobtainium", "si ", "Si_2"):
        add("material %r" % nm, "the unknown material %r" % nm, mat(), mat(nm), "MatDatabase")
    for typ in ("formula 2", "formula 3", "formula 9", "formula 11", "formula 0"):
        add("model %s" % typ, "a data set of type '%s'" % typ, mat(typ="formula 1"), mat(typ=typ), "MatDatabase")
    for typ in ("spline nk", "model", "lorentz"):
        add("model %s" % typ, "a data set of type '%s'" % typ, mat(typ="tabulated nk"), mat(typ=typ), "MatDatabase")

    # bridge
    def pw(plane, pol):
        def run(r):
            r.ip.hooks.update(tg_hooks())
            m = r.ip.load("pymiediff.helper.tg")
            p = make_particle(r, L=2, mats="const", env="num", dev="cpu", dt="f32")
            if r.err is not None:
                return None
            conf = r.ip.new(HDict({"angle": r.leaf("angle", (), dt="f32", dev="cpu"), "inc_plane": plane, "polarization": pol}))
            r.ip.hooks["pymiediff.main.Particle.get_nearfields"] = opaque_fields
            return r.call(TG + "_eval_mie", p, conf, r.leaf("k0", (), dt="f32", dev="cpu", unit=-1), r.leaf("r_probe", (5, 3), dt="f32", dev="cpu", unit=1), r.leaf("r_gpm", (4, 3), dt="f32", dev="cpu", unit=1))
        return run
    for plane in ("xz", "yz", "xy"):
        for pol in ("x", "", "sp"):
            add("bridge %s %r" % (plane, pol), "polarization %r in plane %s" % (pol, plane), pw(plane, "s"), pw(plane, pol), "_eval_mie")
    for plane in ("zx", "", "x", "xyz"):
        for pol in ("s", "p"):
            add("bridge plane %r %s" % (plane, pol), "incidence plane %r" % plane, pw("xz", pol), pw(plane, pol), "_eval_mie")
    return out


# ---------------------------------------------------------------- C16
UNIT = dict(a_n=0, b_n=0, c_n=0, d_n=0, f_n=0, g_n=0, v_n=0, w_n=0, n=0, n_max=0, L=0, k=-1, k0=-1, wavelength=1, r_c=1, r_s=1, r_layers=1, eps_c=0, eps_s=0, eps_layers=0,
            eps_env=0, n_c=0, n_s=0, n_env=0, m_layers=0, theta=0, S1=0, S2=0, i_per=0, i_par=0, i_unpol=0, pol_degree=0, E_i=0, H_i=0, E_s=0, H_s=0, E_t=0, H_t=0, cs_geo=2, cs_ext=2,
            cs_sca=2, cs_abs=2, cs_ext_multipoles=2, cs_sca_multipoles=2, cs_abs_multipoles=2, q_ext=0, q_sca=0, q_abs=0, q_ext_multipoles=0, q_sca_multipoles=0, q_abs_multipoles=0)


@check("C16", "Dimensional analysis: every value carries an exponent of length; sums, comparisons, stores and selections must combine equal exponents, "
              "functions, orders and roundings must get dimensionless arguments, and every output must have its documented exponent.")
def c16(tier):
    def one(ctx, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        findings(ctx, sc, ("unit",), "lengths and wavenumbers enter only through dimensionless products")
        for k, v in outs(sc):
            k = k.strip("'")
            if not isinstance(v, T) or k not in UNIT:
                continue
            us = {e.unit for e in v.el if e.unit != POLY}
            what = "'%s' scales with length^%d" % (k, UNIT[k])
            if not us:
                continue
            if UNK in us:
                ctx.und(what, "dimension not determined")
            else:
                ctx.expect(us == {UNIT[k]}, what, "%s: '%s' has dimension length^%s" % (sc.name, k, "/".join(str(u) for u in sorted(us))), kind="output unit", func=sc.name.split("(")[0])

    def spec(ctx, name, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        findings(ctx, sc, ("unit",), "%s combines quantities of one dimension only" % name)

    out = per(func_set(tier), one)
    for fn in FUNCS:
        for be in ALLB:
            for L in (1, 2) if be != "pena" else (1, 2, 3):
                for n in cfg(tier, (None, 2), (1, 3, 5)):
                    out.append(("%s %s L=%d n_max=%s" % (fn, be, L, n), lambda c, z=(fn, be, L, n): one(c, lambda: functional(z[0], backend=z[1], L=z[2], nmax=z[3]))))
    for nm, mk in particle_set(tier):
        if "table" not in nm and "hooks" not in nm:
            out.append((nm, lambda c, m=mk: one(c, m)))
    # coordinate helper and vector harmonics: functions of position
    for nm in ("transform_xyz_to_spherical", "transform_spherical_to_xyz"):
        out.append((nm, lambda c, q=nm: spec(c, q, lambda: helper(q))))
    return uniq(out)
