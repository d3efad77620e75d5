"""The checks, one per property: tasks that produce obligations."""
from frame import check, Ctx
from sets import *
import vn as vnm


def outs(sc):
    """(label, value) of every returned value"""
    v = sc.value
    if isinstance(v, tuple):
        return [("[%d]" % i, x) for i, x in enumerate(v)]
    if isinstance(v, Ref):
        ks = sc.keys()
        if ks is not None:
            return [("'%s'" % k, sc.get(k)) for k in ks]
        it = sc.ip.list_items(v)
        return [("[%d]" % i, x) for i, x in enumerate(it)] if it else []
    return [("", v)]


def tens(sc):
    return [(k, v) for k, v in outs(sc) if isinstance(v, T)]


def opened(ctx, mk):
    """run a scenario; None when it has no usable result"""
    try:
        sc = mk()
    except Anchor as e:
        ctx.und("anchor", e)
        return None
    ctx.saw(sc.ip)
    if sc.err is not None:
        ctx.und("call completes", "%s: %s at %s" % (sc.err.etype, sc.err.msg, sc.err.site))
        return None
    return sc


def per(sets, f):
    return [(n, (lambda c, m=m: f(c, m))) for n, m in sets]


def findings(ctx, sc, kinds, rule):
    bad = False
    for f in sc.ip.findings:
        if f["kind"] not in kinds:
            continue
        if f["uncertain"]:
            ctx.und(rule, "%s at %s (on a path the analyser cannot decide)" % (f["msg"], f["site"]))
        else:
            bad = True
            ctx.bad(rule, f["msg"] + (" via " + f["via"] if f.get("via") else ""), site=f["site"], func=f["func"], kind=f["kind"])
    if not bad:
        ctx.ok(rule, sc.name)


# ---------------------------------------------------------------- C01
@check("C01", "Gradient-flow (taint) analysis: for every returned value the set of inputs it depends on only through a "
              "gradient-severing construct (detach, item, numpy, reconstruction, rounding, no_grad) must be empty.")
def c01(tier):
    def f(ctx, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        for k, v in outs(sc):
            if isinstance(v, T):
                d = v.dead()
                if not d:
                    ctx.ok("gradient reaches output %s" % k)
                for nm, why in sorted(d):
                    ctx.bad("gradient of output %s with respect to %s is cut" % (k, nm), why, func=why.split(" in ")[-1], site=why, kind="dead")
            elif isinstance(v, Top):
                ctx.und("gradient of output %s" % k, v)
    return per(func_set(tier) + particle_set(tier) + special_set(tier) + helper_set(tier)
               + [x for x in material_set(tier)] + tg_set(tier), f)


# ---------------------------------------------------------------- C03 / C04
@check("C03", "Effect analysis of in-place writes against aliases of inputs requiring grad, expanded views and tensors recorded "
              "for the backward pass (version-counter typestate).")
def c03(tier):
    def f(ctx, mk):
        sc = opened(ctx, mk)
        if sc is not None:
            findings(ctx, sc, ("leafwrite", "savedwrite", "expandwrite"), "no in-place write to recorded or leaf tensors")
    return per(func_set(tier) + particle_set(tier) + special_set(tier) + helper_set(tier) + material_set(tier) + tg_set(tier), f)


@check("C04", "Ownership/alias analysis: no write (tensor storage, list, dict, attribute) reaches an object supplied by the caller.")
def c04(tier):
    def f(ctx, mk):
        sc = opened(ctx, mk)
        if sc is not None:
            findings(ctx, sc, ("argwrite",), "no write to caller-supplied data")
    return per(func_set(tier) + particle_set(tier) + special_set(tier) + helper_set(tier) + material_set(tier) + tg_set(tier), f)


# ---------------------------------------------------------------- C06
@check("C06", "Device typestate: every tensor carries the abstract device of the inputs (D) or the host; combining both, or returning "
              "a tensor of another device, is a violation.")
def c06(tier):
    def f(ctx, mk, want="D"):
        sc = opened(ctx, mk)
        if sc is None:
            return
        findings(ctx, sc, ("devmix",), "no operation mixes devices")
        for k, v in tens(sc):
            if v.dev in ("any", None):
                ctx.und("device of output %s" % k, v.dev)
            else:
                ctx.expect(v.dev == want, "output %s is on the device of the inputs" % k, "device %s instead of %s in %s" % (v.dev, want, sc.name), kind="outdev", func=sc.name)
    keep = lambda s: [x for x in s if "scipy" not in x[0]]
    D_ = keep(func_set(tier)) + keep(particle_set(tier)) + [x for x in special_set(tier) if x[0].split()[0].split(".")[1] not in SPECIALS_SCIPY] \
        + helper_set(tier) + material_set(tier) + [x for x in tg_set(tier)]
    D_ = [x for x in D_ if "setdev" not in x[0]]
    out = per(D_, f)
    for m in GETTERS:
        for kw in (dict(L=2, kdev="cpu"), dict(L=2, radii="list"), dict(L=2, pdev="cpu"), dict(L=2, legacy=True, pdev="cpu"), dict(L=2, mats="table", kdev="cpu"),
                   dict(L=2, mats="num", env="num"), dict(L=2, eps="LK", pdev="cpu")):
            n, mk = PT(m, **kw)
            out.append((n, lambda c, m=mk: f(c, m)))
        for kw in (dict(L=2, dev="cpu", setdev="D"), dict(L=2, dev="cpu", setdev="D", mats="table"), dict(L=1, dev="cpu", setdev="D", legacy=True),
                   dict(L=2, dev="cpu", setdev="D", eps="LK"), dict(L=2, dev="cpu", setdev="D", mats="MatConstant", env="MatConstant")):
            n, mk = PT(m, **kw)
            out.append((n, lambda c, m=mk: f(c, m)))
    for kind in ("tabulated", "formula", "constant"):
        n, mk = th("%s material moved to the device of the wavelengths" % kind, material, kind, dev="cpu", wdev="cpu", calls=2, setdev="D")
        out.append((n, lambda c, m=mk: f(c, m)))
        for kd in ("cpu",):
            n, mk = th("%s material, host wavelengths" % kind, material, kind, dev="D", wdev=kd)
            out.append((n, lambda c, m=mk: f(c, m)))
    out.append(("held tensors after set_device", c06_held))
    return out


def c06_held(ctx):
    """after set_device every tensor reachable from the object is on the new device"""
    for kw in (dict(L=2), dict(L=2, legacy=True), dict(L=1), dict(L=2, eps="LK"), dict(L=2, mats="table"), dict(L=2, mats="table", legacy=True),
               dict(L=2, mats="table", hooks=(("kind", "formula"),))):
        sc = particle("get_material_permittivities", dev="cpu", setdev="D", **kw)
        ctx.saw(sc.ip)
        if sc.err is not None or not hasattr(sc, "obj"):
            ctx.und("tensors held by Particle(%s)" % kw, sc.err)
            continue
        held(ctx, sc.ip, sc.obj, "Particle(%s)" % kw)
    for kind in ("tabulated", "formula", "constant"):
        sc = material(kind, dev="cpu", wdev="cpu", wlive=False, calls=1)
        r = sc.run
        if sc.err is not None or not hasattr(sc, "obj"):
            ctx.und("tensors held by a %s material" % kind, sc.err)
            continue
        r.call(r.ip.getattr(sc.obj, "set_device"), Dev("D"))
        ctx.saw(sc.ip)
        held(ctx, sc.ip, sc.obj, "%s material" % kind)


def held(ctx, ip, root, what):
    seen = set()
    stack = [(root, "")]
    n = 0
    while stack:
        v, path = stack.pop()
        if isinstance(v, T):
            n += 1
            if v.dev in ("any", None):
                ctx.und("device of %s%s" % (what, path), v.dev)
            else:
                ctx.expect(v.dev == "D", "%s%s moved by set_device" % (what, path), "still on %s" % v.dev, kind="held", func=what + path)
        elif isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            r = ip.get(v)
            if isinstance(r, HList):
                for i, x in enumerate(ip.list_items(v) or []):
                    stack.append((x.val if isinstance(x, Seg) else x, path + "[%d]" % i))
            elif isinstance(r, HDict):
                for k, x in r.d.items():
                    stack.append((x, path + "[%s]" % (k,)))
            elif isinstance(r, HObj):
                for k, x in r.attrs.items():
                    stack.append((x, path + "." + k))
        elif isinstance(v, (tuple, list)):
            for i, x in enumerate(v):
                stack.append((x, path + "[%d]" % i))
    if not n:
        ctx.und("tensors held by %s" % what, "none found")


# ---------------------------------------------------------------- C07
@check("C07", "Precision typestate: dtype of every output and taint of every value that was rounded through a 32-bit format.",
       ["Applies to the functional API and the torch special functions with double precision inputs; materials and the torchgdm bridge "
        "are single precision by design."])
def c07(tier):
    def f(ctx, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        for k, v in tens(sc):
            c = v.dt
            if "env=None" in ctx.task and k in ("'eps_env'", "'n_env'"):
                continue                       # the default host is the Python number 1.0
            if c is None:
                ctx.und("number type of output %s" % k)
            elif c in ("i64", "i32", "bool"):
                continue
            else:
                ctx.expect(c in ("f64", "c128"), "output %s is double precision" % k, "is %s" % c, kind="dtype", func=sc.name)
                r = v.r32()
                if r:
                    s = sorted(r)[0]
                    ctx.bad("output %s carries double precision" % k, "rounded to 32 bits at %s" % ", ".join(sorted(r)[:3]), site=s.split(":", 1)[-1], func=s.split(":")[0], kind="r32")
                else:
                    ctx.ok("output %s carries double precision" % k)
    keep = [x for x in func_set(tier) if "f32" not in x[0] and "env=number" not in x[0]]
    out = per(keep + special_set(tier) + [x for x in helper_set(tier)] + [th("helper." + n, helper, n) for n in ("plane_wave_expansion", "plane_wave_expansion_t")], f)

    def single(ctx, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        for k, v in tens(sc):
            if v.dt in ("c64", "c128") and k not in ("'eps_c'", "'eps_s'", "'eps_layers'", "'n_c'", "'n_s'", "'m_layers'", "'eps_env'", "'n_env'"):
                ctx.expect(v.dt == "c64", "output %s is single precision when requested" % k, "is %s" % v.dt, kind="single", func=sc.name)
    out += [(n + " (single)", lambda c, m=m: single(c, m)) for n, m in
            [th("special." + s, special, s, opts=(("precision", "single"),)) for s in ("pena_D1_n", "pena_D3_n", "pena_psi_zeta_n", "pena_Q_n", "sph_jn_torch", "sph_jn_torch_via_rec", "D1n_torch")]
            + [F("mie_coefficients", backend="pena", L=2, opts=(("precision", "single"),), dt="f32", edt="c64")]]
    return out


# ---------------------------------------------------------------- C08
@check("C08", "Dependence analysis along the batch axes: no reduction, selection, permutation or cross-axis combination over the particle, "
              "wavenumber, angle or position axis may reach an output.")
def c08(tier):
    def f(ctx, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        for k, v in tens(sc):
            m = [a for a in v.mix() if a in BATCH]
            ctx.expect(not m, "output %s is computed entry by entry" % k, "entries along axis %s influence each other" % ", ".join(m), kind="mix", func=sc.name)
        findings(ctx, sc, ("axismix", "maskmix"), "no operation combines different batch axes")
    import checks4
    one = []
    for fn in FUNCS:
        for be in ("pena", "torch", "scipy"):
            if fn == "nearfields" and be == "scipy":
                continue
            for L in (1, 2, 3) if be == "pena" else (1, 2):
                for P, K, Q in ((2, 2, 2), (3, 3, 3), (2, 3, 2), (3, 2, 3), (1, 3, 2), (2, 1, 3), (1, 1, 3)) if fn != "nearfields" or tier == "thorough" else ((2, 2, 2), (2, 3, 3), (1, 2, 3)):
                    for n in (1, 2, 3) if tier == "thorough" else (2,):
                        one.append(("%s %s L=%d sizes %d %d %d n=%d" % (fn, be, L, P, K, Q, n), lambda c, z=(fn, be, P, K, L, Q, n): checks4.singles(c, *z)))
    keep = [x for x in func_set(tier)]
    return one + per(keep + particle_set(tier) + special_set(tier) + [x for x in helper_set(tier) if "interp1d" not in x[0]]
               + [th("helper.interp1d", helper, "interp1d_b"), th("helper.interp1d real", helper, "interp1d_real_b")] + material_set(tier), f)
