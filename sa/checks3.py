"""History, layout, option and rejection checks."""
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings
import interp as interpm


# ---------------------------------------------------------------- structural comparison
def flat(ip, v, path=""):
    """[(path, leaf value)] of a nested result"""
    if isinstance(v, tuple):
        return [x for i, q in enumerate(v) for x in flat(ip, q, path + "[%d]" % i)]
    if isinstance(v, Ref):
        r = ip.get(v)
        if isinstance(r, HDict):
            if r.unk:
                return [(path, Top("dict"))]
            return [x for k in sorted(r.d, key=repr) for x in flat(ip, r.d[k], path + "[%r]" % (k,))]
        if isinstance(r, HList):
            it = ip.list_items(v)
            if it is None or any(isinstance(x, Seg) for x in it):
                return [(path, Top("list"))]
            return [x for i, q in enumerate(it) for x in flat(ip, q, path + "[%d]" % i)]
        if isinstance(r, HObj):
            return [(path, "object")]
        return [(path, Top("?"))]
    return [(path, v)]


def facts(ip, v, meta=True):
    """comparable description of a leaf value, None when unknown"""
    if isinstance(v, T):
        d = [show(v.shape) if v.shape is not None else None, tuple(vnm.mid(e.v) for e in v.el)]
        if d[0] is None:
            return None
        if meta:
            d += [v.dt, v.dev, tuple(sorted(v.live())), tuple(sorted(x[0] for x in v.dead()))]
        return tuple(d)
    if isinstance(v, Top):
        return None
    if isinstance(v, S):
        return ("num", vnm.mid(ip.val_vn(v)))
    return ("const", repr(v))


FACT = ("shape", "value", "number type", "device", "gradient", "cut gradient")


def compare(ctx, ipa, a, ipb, b, what, kind, func, meta=True, skip=(), risk=None):
    fa, fb = dict(flat(ipa, a)), dict(flat(ipb, b))
    if set(fa) != set(fb):
        ctx.bad("%s: same keys" % what, "only in one: %s" % ", ".join(sorted(set(fa) ^ set(fb))[:6]), kind=kind, func=func)
        return
    for k in fa:
        if any(s in k for s in skip):
            continue
        x, y = facts(ipa, fa[k], meta), facts(ipb, fb[k], meta)
        w = "%s: result%s" % (what, k)
        if x is None or y is None:
            ctx.und(w, "not determined")
        elif x == y:
            ctx.ok(w)
        else:
            d = [FACT[i] if x[0] not in ("num", "const") else "value" for i in range(min(len(x), len(y))) if x[i] != y[i]]
            if risk and "shape" not in d and "number type" not in d:
                ctx.und(w, "differs (%s), but uses %s" % (", ".join(d), ", ".join(risk)))
            else:
                ctx.bad(w, "%s differ: %s" % (", ".join(d) or "values", "; ".join("%s / %s" % (x[i], y[i]) for i in range(min(len(x), len(y))) if x[i] != y[i] and i != 1)[:200]),
                        kind=kind, func=func)


# ---------------------------------------------------------------- C05
def state_tensors(r, obj):
    """tensors kept between calls: reachable from the object, modules, classes, memo tables"""
    ip = r.ip
    seen, out, stack = set(), {}, []
    if obj is not None:
        stack.append(obj)
    for fid, fr in ip.st.frames.items():
        if isinstance(fid, tuple) and fid[0] == "mod":
            stack += list(fr.values())
    stack += [x[1] for x in ip.memo_tab] + list(ip.fn_attrs.values())
    while stack:
        v = stack.pop()
        if isinstance(v, T):
            out[id(v)] = v
        elif isinstance(v, (tuple, list)):
            stack += list(v)
        elif isinstance(v, Seg):
            stack.append(v.val)
        elif isinstance(v, Cls) and id(v) not in seen:
            seen.add(id(v))
            stack += list(v.attrs.values())
        elif isinstance(v, Fn) and id(v) not in seen:
            seen.add(id(v))
            stack += list(v.defaults) + list(v.kwdefaults.values())
        elif isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            q = ip.get(v)
            if isinstance(q, HDict):
                stack += list(q.d.values()) + [x for _, x in q.unk]
            elif isinstance(q, (HList, HSet)):
                stack += list(q.items or [])
            elif isinstance(q, HObj):
                stack += list(q.attrs.values())
    return out


def mark_stale(r, obj, before):
    for i, t in state_tensors(r, obj).items():
        if i not in before and t.live() and not t.leafs:
            t.el = [e.cp(mix=e.mix | frozenset(("stale",))) for e in t.el]


def do_step(r, p, st, dev="D"):
    """one step of a history on object p (particle or material)"""
    name, kw = st[0], dict(st[1] if len(st) > 1 else {})
    ip = r.ip
    if name == "set_device":
        return r.call(ip.getattr(p, "set_device"), Dev(kw["dev"]))
    if name == "repr":
        return r.call(ip.getattr(p, "__repr__"))
    if name == "get_epsilon":
        w = r.leaf(kw.get("k", "wl"), (kw.get("K", "K"),) if kw.get("K", "K") else (), dt="f32", dev=kw.get("dev", dev), live=kw.get("live", False))
        return r.call(ip.getattr(p, "get_epsilon"), w)
    k0 = r.leaf(kw.get("k", "k0"), ("K",), unit=-1, dev=kw.get("dev", dev), live=kw.get("live", True))
    args, k2 = [k0], {}
    if "angular" in name:
        args.append(r.leaf("theta" + kw.get("s", ""), ("T",), dev=dev))
    if "nearfields" in name:
        args.append(r.leaf("r_probe" + kw.get("s", ""), ("Q", 3), dev=dev, unit=1))
    if name != "get_material_permittivities":
        k2["n_max"] = kw.get("n", 2)
    k2.update(kw.get("opts", {}))
    return r.call(ip.getattr(p, name), *args, **k2)


def build(r, kind, dev="D", **pk):
    if kind == "particle":
        return make_particle(r, dev=dev, **pk)
    if kind == "constant":
        return r.call("pymiediff.materials.MatConstant", r.leaf("eps", (), dt="c64", dev=dev), device=Dev(dev))
    return r.call("pymiediff.materials.MatDatabase", "Si", device=Dev(dev))


def hist(kind, steps, final, other=None, yk="tabulated", dev="D", **pk):
    hooks = {"yaml": yaml_hook(kind=yk, distinct=True)}
    r = Run(hooks=hooks)
    r.ip.distinct_keys = True
    p = build(r, kind, dev=dev, **pk)
    if p is None:
        return None, r
    q = p
    if other == "new":
        q = build(r, kind, dev=dev, **pk)
    elif other == "share":
        q = r.call("pymiediff.Particle", r_layers=r.leaf("rr", (2,), unit=1, dev=dev), mat_layers=r.ip.getattr(p, "mat_layers"), mat_env=r.num("nn"), device=Dev(dev))
    before = state_tensors(r, p)
    for st in steps:
        do_step(r, q, st, dev)
        if r.err is not None:
            return None, r
        if st[0] == "set_device":        # explicit moves are allowed to re-create what the object holds
            before.update(state_tensors(r, p))
    mark_stale(r, p, before)
    v = do_step(r, p, final, dev)
    r.obj = p
    return v, r


RETAIN = "results do not reuse a graph recorded by an earlier call"


@check("C05", "Effect analysis (module, class, default-argument and global-library state; random numbers) plus two-run value numbering: every "
              "result after a history of other calls must have the value number, device and gradient connection of a first call; keys of "
              "evaluation caches must determine the wavelength exactly.")
def c05(tier):
    def effects(ctx, mk):
        sc = opened(ctx, mk)
        if sc is None:
            return
        findings(ctx, sc, ("modwrite",), "no module-level, class-level or default-argument state is modified")
        gl = [e for e in sc.events("globalstate", "rng")]
        for e in gl:
            ctx.bad("no global library state is changed and no random numbers are used", "calls %s" % e["path"], site=e["site"], func=e["func"], kind="global")
        for e in sc.events("extset"):
            ctx.bad("no global library state is changed and no random numbers are used", "sets %s" % e["path"], site=e["site"], func=e["func"], kind="global")
        if not gl:
            ctx.ok("no global library state is changed and no random numbers are used")

    def meta(ctx, kind, steps, final, other, kw):
        what = "%s after %s%s" % (final[0] + ("" if final[1].get("live", True) else " (no gradient)") if len(final) > 1 else final[0],
                                  ", ".join(s[0] + ("" if len(s) < 2 else " %s" % (s[1],)) for s in steps), {"new": " on another object", "share": " on a particle sharing the materials"}.get(other, ""))
        a, ra = hist(kind, [], final, **kw)
        a2, ra2 = hist(kind, [], final, **kw)
        b, rb = hist(kind, steps, final, other, **kw)
        for r in (ra, rb):
            ctx.saw(r.ip)
        if a is None or a2 is None:
            ctx.und(what, ra.err)
            return
        if b is None:
            e = rb.err
            ctx.und(what, "%s: %s at %s" % (e.etype, e.msg, e.site))
            return
        for f in rb.ip.findings:
            if f["kind"] == "modwrite" and not f["uncertain"]:
                ctx.bad("no module-level, class-level or default-argument state is modified", f["msg"], site=f["site"], func=f["func"], kind="modwrite")
        # results that differ between two identical runs are analysis artefacts
        fa, f2 = dict(flat(ra.ip, a)), dict(flat(ra2.ip, a2))
        skip = [k for k in fa if k not in f2 or facts(ra.ip, fa[k]) != facts(ra2.ip, f2[k])]
        for k in skip:
            ctx.und(what, "result%s is not reproducible by the analyser" % k)
        if skip and "" in skip:
            return
        compare(ctx, ra.ip, a, rb.ip, b, what, "history", kind + "." + final[0], skip=skip)
        st = [k for k, v in flat(rb.ip, b) if isinstance(v, T) and "stale" in v.mix()]
        ctx.expect(not st, RETAIN, "%s: result%s is computed from a gradient-carrying tensor kept from an earlier call" % (what, ", ".join(st[:3])), kind="stale", func=kind + "." + final[0])

    def keys(ctx, yk, live):
        v, r = hist("table", [], ("get_epsilon", dict(live=live)), yk=yk)
        ctx.saw(r.ip)
        if v is None:
            ctx.und("cache keys", r.err)
            return
        kept = set()
        stack = [r.obj]
        while stack:
            x = stack.pop()
            if isinstance(x, Ref) and x.id not in kept:
                kept.add(x.id)
                q = r.ip.get(x)
                if isinstance(q, HObj):
                    stack += list(q.attrs.values())
                elif isinstance(q, HDict):
                    stack += list(q.d.values())
        w = vnm.mid(vnm.leaf("wl", real=True))
        n = 0
        for e in r.ip.events:
            if e["kind"] != "dictwrite" or e["ref"] not in kept:
                continue
            n += 1
            k = e["key"]
            parts = list(k) if isinstance(k, tuple) else [k]
            vals_ = [vnm.mid(r.ip.val_vn(x)) for x in parts if not isinstance(x, (str, type(None)))]
            lossy = sorted(o for o in vnm.OPS if o in ("round", "int", "floor", "ceil", "trunc", "format", "mod", "floordiv"))
            if w in vals_:
                ctx.ok("cache key is the exact wavelength")
            elif lossy or not vals_:
                ctx.bad("cache key is the exact wavelength", "entries stored under a rounded or constant key", site=e["site"], func=e["func"], kind="key")
            else:
                ctx.und("cache key is the exact wavelength", "key expression not understood")
        if not n:
            ctx.ok("no value is cached")

    def keys_run(ctx, yk, live):
        keep = set(vnm.OPS)
        vnm.OPS.clear()
        try:
            keys(ctx, yk, live)
        finally:
            vnm.OPS.update(keep)

    def func(ctx, fn, be, L):
        """functional call after a call with other inputs and after the same call"""
        def run(pre):
            r = Run()
            r.ip.distinct_keys = True
            dev = dev_of(be, "D")

            def one(s, n, shape):
                kw = layer_inputs(r, L=L, dev=dev, **shape)
                for x in kw.values():
                    if s:
                        x.el = [e.cp(v=vnm.fn("other", e.v)) for e in x.el]
                if fn == "angular_scattering":
                    kw["theta"] = r.leaf("theta" + s, ("T",), dev=dev)
                if fn == "nearfields":
                    kw["r_probe"] = r.leaf("r_probe" + s, ("Q", 3), dev=dev, unit=1)
                return r.call(MS + fn, backend=be, n_max=n, **kw)
            before = state_tensors(r, None)
            for s, n, sh in pre:
                one(s, n, sh)
                if r.err:
                    return None, r
            mark_stale(r, None, before)
            return one("", 2, {}), r
        a, ra = run([])
        a2, ra2 = run([])
        for pre, nm in (([("x", 2, {})], "other inputs"), ([("", 2, {})], "the same call"), ([("", 3, {})], "a higher order"), ([("", 1, dict(P=None, eps="L"))], "another layout")):
            b, rb = run(pre)
            ctx.saw(rb.ip)
            if a is None or b is None:
                ctx.und("%s after %s" % (fn, nm), (ra.err or rb.err))
                continue
            skip = [k for (k, v), (_, v2) in zip(flat(ra.ip, a), flat(ra2.ip, a2)) if facts(ra.ip, v) != facts(ra2.ip, v2)]
            compare(ctx, ra.ip, a, rb.ip, b, "%s(%s) after %s" % (fn, be, nm), "history", fn, skip=skip)
            st = [k for k, v in flat(rb.ip, b) if isinstance(v, T) and "stale" in v.mix()]
            ctx.expect(not st, RETAIN, "%s" % st[:3], kind="stale", func=fn)

    def spec(ctx, nm, dims):
        def run(pre):
            r = Run()
            scs = []
            for s, n, d in pre + [("", 2, dims)]:
                dev = "cpu" if nm in SPECIALS_SCIPY else "D"
                z = r.leaf("z" + s, d, dt="c128", dev=dev)
                v = r.call(SP + nm, n, z)
                if r.err:
                    return None, r
            return v, r
        a, ra = run([])
        for pre in ([("x", 2, dims)], [("", 2, dims)], [("", 4, dims)], [("", 1, ())]):
            b, rb = run(pre)
            ctx.saw(rb.ip)
            if a is None or b is None:
                ctx.und("special.%s" % nm, ra.err or rb.err)
                continue
            compare(ctx, ra.ip, a, rb.ip, b, "special.%s after n=%d z%s" % (nm, pre[0][1], pre[0][0]), "history", nm)

    out = per(func_set(tier) + particle_set(tier) + special_set(tier) + helper_set(tier) + material_set(tier) + tg_set(tier), effects)
    out = [("effects: " + n, f) for n, f in out]
    for yk in ("tabulated", "formula"):
        for live in (False, True):
            out.append(("cache keys %s live=%s" % (yk, live), lambda c, z=(yk, live): keys_run(c, *z)))
        pri = [[("get_epsilon", dict(live=False))], [("get_epsilon", dict(live=True))], [("get_epsilon", dict(k="wl2", live=False))],
               [("get_epsilon", dict(k="wl2", live=True))], [("repr",)], [("get_epsilon", dict(live=False)), ("set_device", dict(dev="cpu")), ("set_device", dict(dev="D"))],
               [("get_epsilon", dict(live=False, K=None))], [("get_epsilon", dict(live=False)), ("get_epsilon", dict(live=True))]]
        for live in (False, True):
            for K in ("K", None):
                for p in pri:
                    for oth in (None, "new"):
                        out.append(("%s material %s live=%s K=%s %s" % (yk, p, live, K, oth),
                                    lambda c, z=("table", p, ("get_epsilon", dict(live=live, K=K)), oth, dict(yk=yk)): meta(c, *z)))
    for live in (False, True):
        for p in ([("get_epsilon", dict(live=False))], [("repr",)], [("set_device", dict(dev="cpu")), ("set_device", dict(dev="D"))]):
            out.append(("constant material %s live=%s" % (p, live), lambda c, z=("constant", p, ("get_epsilon", dict(live=live)), None, {}): meta(c, *z)))
    confs = [dict(L=2, mats="table", env="num"), dict(L=2, mats="const")]
    if tier == "thorough":
        confs += [dict(L=3, mats="table", env="num"), dict(L=2, mats="MatConstant", env="MatConstant"), dict(L=2, eps="LK"), dict(L=1, legacy=True, mats="table"),
                  dict(L=2, legacy=True, mats="table"), dict(L=2, mats="table", yk="formula", env="num")]
    for kw in confs:
        for g in GETTERS + ["get_material_permittivities"]:
            pris = [[(g, {})], [(g, dict(live=False))], [(g, dict(k="k1", s="x"))], [("set_device", dict(dev="cpu")), ("set_device", dict(dev="D"))], [("repr",)]]
            if g != "get_material_permittivities":
                pris += [[(g, dict(n=4))], [(g, dict(opts={"backend": "torch"}))]] if kw.get("L", 2) <= 2 else [[(g, dict(n=4))]]
            pris += [[(h, {})] for h in GETTERS + ["get_material_permittivities"] if h != g]
            for p in pris:
                for live in (True, False):
                    if live is False and len(p) == 1 and p[0][0] not in (g, "get_material_permittivities"):
                        continue
                    out.append(("Particle(%s).%s live=%s after %s" % (kw, g, live, p), lambda c, z=("particle", p, (g, dict(live=live)), None, kw): meta(c, *z)))
            out.append(("Particle(%s).%s after another particle" % (kw, g), lambda c, z=("particle", [(g, {})], (g, {}), "new", kw): meta(c, *z)))
            if kw.get("mats") == "table" and not kw.get("legacy"):
                out.append(("Particle(%s).%s after a particle sharing materials" % (kw, g), lambda c, z=("particle", [(g, {})], (g, {}), "share", kw): meta(c, *z)))
    for fn in FUNCS:
        for be in ("pena", "torch", "scipy"):
            if fn == "nearfields" and be == "scipy":
                continue
            out.append(("%s %s history" % (fn, be), lambda c, z=(fn, be, 2): func(c, *z)))
    for nm in SPECIALS_SCIPY + ["pena_D1_n", "pena_D3_n", "sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch", "xi_torch", "D1n_torch"]:
        out.append(("special.%s history" % nm, lambda c, n=nm: spec(c, n, ("K",))))
    return out
