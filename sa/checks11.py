"""Totality: documented calls complete (C20)."""
from frame import check
from theory import *
from sets import *
from checks7 import uses
import scenarios as sc_

IMPLICIT_OK = {"StopIteration", "GeneratorExit"}
FIELDS = ("get_mie_coefficients", "get_cross_sections", "get_angular_scattering", "get_nearfields")


def layouts_layers(L):
    """documented layouts of the layer arguments"""
    return [dict(P="P", eps="PLK"), dict(P="P", eps="PL"), dict(P="P", eps="LK"), dict(P="P", eps="L"), dict(P=None, eps="L"), dict(P=None, eps="LK"),
            dict(P="P", eps="PLK", K=1), dict(P=1, eps="PLK"), dict(P=1, eps="PL", K=1), dict(P=3, K=5, eps="PLK"), dict(P=1, K=1, eps="PLK"),
            dict(P=None, K=None, eps="L"), dict(P=None, K=1, eps="L"), dict(P="P", K=None, eps="PL"), dict(P=None, K="K", eps="L"),
            dict(P="P", eps="1LK"), dict(P="P", eps="PL1"), dict(P="P", eps="1L1"), dict(P=3, K=1, eps="1LK")]


def judge(ctx, what, func, err, pending, top=False):
    """no exception on any path that the analysis follows; explicit raises under a condition on data are input validation"""
    if err is not None:
        return ctx.bad(what, "%s: %s" % (err.etype, err.msg), site=str(getattr(err, "site", "") or ""), func=func, kind="raises")
    bad = [p for p in pending if not p.explicit and p.etype not in IMPLICIT_OK]
    sure = [p for p in bad if not p.uncertain]
    if sure:
        p = sure[0]
        return ctx.bad(what, "%s: %s (on some path)" % (p.etype, p.msg), site=str(p.site or ""), func=func, kind="raises")
    if bad:
        return ctx.und(what, "%s: %s" % (bad[0].etype, bad[0].msg))
    if top:
        return ctx.und(what, "result not determined")
    ctx.ok(what)


@check("C20", "Every public call of the sweep (solver, getter, special function, helper, material and bridge calls over layouts, sizes, dtypes, precisions, depth options and order kinds) "
              "is interpreted with all values symbolic; no path that the analysis follows may end in a name, attribute, type, index or shape error, and none may end in an error on every path.")
def c20(tier):
    out = []

    def add(label, thunk, func):
        def task(ctx):
            s = thunk()
            ctx.saw(s.ip)
            judge(ctx, "%s completes" % label, func, s.err, s.pending, isinstance(s.value, Top))
        out.append((label, task))

    def addr(label, f, func):
        def task(ctx):
            r = Run(hooks=dict(tg_hooks()))
            f(r)
            ctx.saw(r.ip)
            judge(ctx, "%s completes" % label, func, r.err, list(r.ip.pending[0]))
        out.append((label, task))

    base = func_set(tier) + particle_set("thorough") + special_set(tier) + material_set("thorough") + tg_set("thorough")
    base += [th("helper." + n, helper, n) for n in HELPERS2]
    base += [th("helper." + n, helper, n, dev="cpu") for n in ("detach_tensor", "detach_tensor_item", "funct_grad_checker")]
    base += [th("helper.%s %s" % (n, list(d)), helper, n, dims=d) for n in HELPERS for d in ((), (1,), ("P", "Q"), (2, 3))]
    base += [th("helper.%s %s transposed" % (n, list(d)), helper, n, dims=d, trans=True) for n in HELPERS for d in (("P", "Q"), (2, 3))]
    for l, f in base:
        add(l, f, l.split(" ")[0])

    # ---- functional solvers: options against layouts
    PR = (None, "single", "double")
    JN = {"torch": (None, "recurrence", "ratios"), "pena": (None,), "scipy": (None,)}
    N_ = (None, "N", 1, 2, "tensor")
    for fn in FUNCS:
        k = 0
        for be in ("pena", "torch", "scipy"):
            for L in ((1, 2, 3) if be == "pena" else (1, 2)):
                for lay in layouts_layers(L):
                    if fn == "nearfields" and lay.get("P") == 3:
                        lay = dict(lay, P=2, K=3)
                    for rep in range((2 if lay in layouts_layers(L)[:5] else 1) if tier != "thorough" else 6):
                        # options rotate so that all pairs (backend, option) and (layout, option) occur
                        k += 1
                        dt, edt = (("f64", "c128"), ("f32", "c64"), ("f64", "c64"), ("f64", "f64"), ("f32", "c128"), ("f32", "f32"))[k % 6]
                        env = ("K", "scalar", "number", "1", None)[k % 5]
                        if lay.get("K", "K") is None and env == "K":
                            env = "scalar"
                        op = [("precision", PR[k % 3])] if PR[k % 3] else []
                        jn = JN[be][k % len(JN[be])]
                        if jn:
                            op.append(("which_jn", jn))
                        kw = dict(lay, backend=be, L=L, dt=dt, edt=edt, env=env, nmax=N_[(k // 3) % 5], opts=tuple(op))
                        if fn == "mie_coefficients" and k % 2 and be != "pena":
                            kw["opts"] += (("return_internal", True),)
                        if fn == "angular_scattering":
                            kw["TH"] = ("T", 1, 4)[k % 3]
                        if fn == "nearfields":
                            kw["Q"] = ("Q", 1, 2)[k % 3]
                            kw["E0"] = (None, "c128", "f64")[(k // 2) % 3]
                        add(lab(fn, kw), (lambda a=fn, b=kw: functional(a, **b)), fn)
        for leg in ("h", "cs"):
            for be in ("pena", "torch", "scipy"):
                for P, e in (("P", ""), ("P", "P"), ("P", "PK"), ("P", "1"), (None, ""), (1, "P"), (3, "PK"), (1, "")):
                    for K in ("K", 1, 4):
                        if tier != "thorough" and (hash_(fn, leg, be, P, e, K) % 3):
                            continue
                        kw = dict(legacy=leg, backend=be, P=P, eps=e, K=K)
                        add(lab(fn, kw), (lambda a=fn, b=kw: functional(a, **b)), fn)
        # arguments that are transposed views of other tensors
        for be in ("pena", "torch", "scipy"):
            for lay in (dict(P="P", eps="PLK"), dict(P="P", eps="PL"), dict(P=None, eps="LK"), dict(P=3, K=2, eps="PLK"), dict(legacy="cs", eps="PK"), dict(legacy="h", eps="PK")):
                kw = dict(lay, backend=be, trans=True)
                if "legacy" not in lay:
                    kw["L"] = 2
                add(lab(fn, kw), (lambda a=fn, b=kw: functional(a, **b)), fn)
        # the legacy namespace and defaults
        kw = dict(mod="pymiediff.coreshell", L=2, default_backend=True, nmax=None)
        add(lab(fn, kw), (lambda a=fn, b=kw: functional(a, **b)), fn)
        kw = dict(L=2, default_backend=True, nmax=None, env=None)
        add(lab(fn, kw), (lambda a=fn, b=kw: functional(a, **b)), fn)

    # ---- particles
    for m in FIELDS + ("get_material_permittivities",):
        k = 0
        for mats in ("const", "num", "complex", "MatConstant", "table"):
            for K in ("K", 1, 3, None):
                for kk in ("tensor", "num") if K is None else ("tensor",):
                    for nm in (None, "N", 2):
                        k += 1
                        if tier != "thorough" and k % 2:
                            continue
                        kw = dict(L=1 + k % 3, mats=mats, K=K, kkind=kk, nmax=nm, env=("num", "const", "MatConstant", "table")[k % 4], radii=("tensor", "list")[k // 4 % 2],
                                  dev=("D", "cpu")[k // 2 % 2])
                        if "angular" in m:
                            kw["TH"] = ("T", 1, None)[k % 3]
                        if "nearfields" in m:
                            kw["Q"] = ("Q", 1, 5)[k % 3]
                        if m != "get_material_permittivities":
                            be = ("pena", "torch", "scipy")[k // 2 % 3]
                            if be == "scipy":
                                kw["dev"] = "cpu"
                            if kw["L"] > 2 and be != "pena":
                                kw["L"] = 2
                            op = [("backend", be)]
                            if k % 3 == 0:
                                op.append(("precision", "single" if k % 2 else "double"))
                            kw["opts"] = tuple(op)
                        add(lab("Particle." + m, kw), (lambda a=m, b=kw: particle(a, **b)), "Particle." + m)
                        if k % 4 == 0:
                            kw = dict(kw, legacy=True, L=min(kw["L"], 2), radii="tensor")
                            add(lab("Particle." + m, kw), (lambda a=m, b=kw: particle(a, **b)), "Particle." + m)
        for e in ("L", "LK"):
            for K in ("K", 1) + ((None,) if e == "L" else ()):
                kw = dict(L=2, eps=e, K="K" if e == "LK" else K)
                add(lab("Particle." + m, kw), (lambda a=m, b=kw: particle(a, **b)), "Particle." + m)

    # ---- special functions: arguments of any dimension, orders, depth options, precisions
    for nm in SPECIALS_SCIPY + SPECIALS_TORCH:
        for dims in ((), (1,), ("K",), (3,), ("P", "K"), (2, 3), (1, "K"), ("P", "K", "Q")):
            for n, nk in ((None, "int"), (None, "tensor"), (0, "int"), (1, "int"), (5, "int")):
                if nm in ("pi_tau", "psi", "chi", "xi", "psi_torch", "chi_torch", "xi_torch", "f_der") and n == 0:
                    continue                # defined from order 1
                if nm == "D3n_torch" and dims == ():
                    continue                # unfinished: see DESIGN
                for zdt in ("c128", "f64", "c64"):
                    for op in ((), (("precision", "single"),)) if nm in PREC else ((),):
                        h = hash_(nm, dims, n, nk, zdt, op)
                        if tier != "thorough" and h % 4:
                            continue
                        kw = dict(dims=dims, n=n, nkind=nk, zdt=zdt, opts=op)
                        add(lab("special." + nm, kw), (lambda a=nm, b=kw: special(a, **b)), nm)
        for dims in (("P", "K"), (2, 3), ("P", "K", "Q")):
            for nk in ("int", "tensor"):
                kw = dict(dims=dims, nkind=nk, trans=True)
                if nm == "f_der" or nm.startswith("D3"):
                    continue
                add(lab("special." + nm, kw), (lambda a=nm, b=kw: special(a, **b)), nm)
        if nm in DEPTH:
            for add_ in DEPTH[nm]:
                for dims in ((), ("K",), ("P", "K")):
                    kw = dict(dims=dims, opts=(("n_add", add_),))
                    add(lab("special." + nm, kw), (lambda a=nm, b=kw: special(a, **b)), nm)
    for nm, kinds in (("vsh", (1, 2, 3)), ("vsh_pena", (1, 3))):
        for kd in kinds:
            for n in (None, 1, 3):
                kw = dict(kind=kd, n=n)
                add(lab("special." + nm, kw), (lambda a=nm, b=kw: special(a, **b)), nm)

    # ---- materials: evaluation, description, plots
    for kind in ("tabulated", "formula", "constant"):
        for wl in (("K",), (), (1,), (3,), "num"):
            for wdt in ("f32", "f64"):
                kw = dict(kind=kind, wl=wl, wdt=wdt)
                add(lab("material", kw), (lambda b=kw: material(**b)), "get_epsilon")
    for op in ((("cols", 2),), (("rangekey", "range"),), (("typ", "formula 1"), ("rows", 1))):
        kind = "formula" if any(a[1] != 2 or a[0] != "cols" for a in op) else "tabulated"
        kw = dict(kind=kind, hooks=op)
        add(lab("material", kw), (lambda b=kw: material(**b)), "get_epsilon")
    for nm, f in uses(tier):
        addr(nm, f, nm)
    MAT = "pymiediff.materials."

    def objs(r):
        yield "constant", r.call(MAT + "MatConstant", r.leaf("m", (), dt="c64", dev="cpu"))
        yield "number", r.call(MAT + "MatConstant", 2.25)
        yield "complex", r.call(MAT + "MatConstant", 2.25 + 0.5j)
        yield "table", r.call(MAT + "MatDatabase", "Si")

    def method(i, meth, args, kw):
        def f(r):
            o = list(objs(r))[i][1]
            if r.err is not None:
                return None
            if meth == "repr":
                return r.call(r.ip.getattr(o, "__repr__"), *args, **kw)
            return r.call(r.ip.getattr(o, meth), *[a(r) if callable(a) else a for a in args], **kw)
        return f
    for i, nm in enumerate(("constant", "number", "complex", "table")):
        for meth, args, kw in (("repr", (), {}), ("repr", (), {"verbose": True}), ("plot_epsilon", (), {}), ("plot_refractive_index", (), {}),
                               ("plot_epsilon", (lambda r: r.leaf("wl", ("K",), dev="cpu"),), {}), ("plot_refractive_index", (lambda r: r.leaf("wl", ("K",), dev="cpu", dt="f32"),), {}),
                               ("set_device", (Dev("cpu"),), {}), ("get_epsilon", (500.0,), {}), ("get_epsilon", (lambda r: r.leaf("wl", (1, "K"), dev="cpu"),), {})):
            addr("%s material %s%s%s" % (nm, meth, "(wl)" if args else "()", " verbose" if kw else ""), method(i, meth, args, kw), "material." + meth)
    for v in (False, True):
        addr("list_available_materials(verbose=%s)" % v, lambda r, q=v: r.call(MAT + "list_available_materials", verbose=q), "list_available_materials")
    addr("list_available_materials()", lambda r: r.call(MAT + "list_available_materials"), "list_available_materials")

    # ---- particles: description and moving
    def rep(meth, *a, **pk):
        def f(r):
            p = make_particle(r, **pk)
            if p is None:
                return None
            return r.call(r.ip.getattr(p, meth), *a)
        return f
    for L in (1, 2, 3):
        for mats in ("const", "num", "complex", "MatConstant", "table"):
            for dev in ("cpu", "D"):
                for leg in (False, True) if L < 3 else (False,):
                    kw = dict(L=L, mats=mats, env="num" if L % 2 else "MatConstant", dev=dev, legacy=leg)
                    addr(lab("repr(Particle)", kw), rep("__repr__", **kw), "Particle.__repr__")
                    addr(lab("Particle.set_device", kw), rep("set_device", Dev("cpu"), **kw), "Particle.set_device")
        for e in ("L", "LK"):
            for dev in ("cpu", "D"):
                kw = dict(L=L, eps=e, env="num", dev=dev)
                addr(lab("repr(Particle)", kw), rep("__repr__", **kw), "Particle.__repr__")
                addr(lab("Particle.set_device", kw), rep("set_device", Dev("cpu"), **kw), "Particle.set_device")

    # ---- torchgdm bridge
    for name in ("mie_ab_sphere_3d_AD", "StructAutodiffMieEffPola3D", "extract_GPM_sphere_miediff", "StructAutodiffMieGPM3D"):
        for L in (1, 2):
            for W in ("K", 1, 3):
                for ne in (None, True):
                    for leg in (False, True):
                        if "GPM" in name:
                            if ne or tier != "thorough" and (W != "K" or leg != (L == 1)):
                                continue
                            kw = dict(L=L, W=W, legacy=leg, opaque=True, dev="cpu")
                        else:
                            kw = dict(L=L, W=W, n_env=ne, legacy=leg, dev="cpu")
                        add(lab("tg." + name, kw), (lambda a=name, b=kw: tg(a, **b)), name)
    return uniq(out)


def hash_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


PREC = {"pena_D1_n", "pena_D3_n", "pena_psi_zeta_n", "pena_Q_n", "sph_jn_torch", "sph_jn_torch_via_rec", "D1n_torch", "D3n_torch"}
DEPTH = {"pena_D1_n": (1, 2, 15, 40), "sph_jn_torch": ("auto", 1, 20), "sph_jn_torch_via_rec": ("auto", 2, 20), "D1n_torch": ("auto", 2, 20)}
