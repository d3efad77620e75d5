"""The torchgdm bridge (C19)."""
from frame import check
from theory import *
from sets import *
from scenarios import tg_hooks, opaque_fields, TG
from checks import opened, outs, tens, per, findings
from checks2 import ALLB, cfg

FROMF = "ext:torchgdm.struct.eff_model_tools.extract_gpm_from_fields"
PART = "pymiediff.main.Particle."


def dot(a, b):
    s = vnm.ZERO
    for x, y in zip(a, b):
        s = vnm.add(s, vnm.mul(x, y))
    return s


def cross(a, b):
    return [vnm.sub(vnm.mul(a[(i + 1) % 3], b[(i + 2) % 3]), vnm.mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def rows(t):
    return [[t.el[3 * i + j].v for j in range(3)] for i in range(3)]


def proper(ctx, R, what, func, **kw):
    """R: rows; orthonormal and of determinant one"""
    g = tri([dot(R[i], R[j]) for i in range(3) for j in range(3)], [vnm.ONE if i == j else vnm.ZERO for i in range(3) for j in range(3)])
    ctx.expect(g, what + ": lengths and angles are preserved", "R R^T is not the identity", func=func, kind="rotation")
    if g:
        ctx.expect(tri([dot(R[0], cross(R[1], R[2]))], [vnm.ONE]), what + ": the frame stays right-handed", "determinant is not +1", func=func, kind="handedness")


def bridge(hooks=()):
    h = dict(tg_hooks())
    h.update(hooks)
    r = Run(hooks=h)
    r.ip.load("pymiediff.helper.tg")
    return r


def eye3(r, name, dev="D"):
    return T(D(3, 3), "f32", dev, [const_elem(1.0 if i % 4 == 0 else 0.0) for i in range(9)])


def failed(ctx, r, what, func):
    ctx.saw(r.ip)
    if r.err is None:
        return False
    ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func=func, kind="fails")
    return True


@check("C19", "Interpretation of the bridge with torchgdm opaque: the frames given to the near-field solver, read off by following unit probe vectors, must be proper rotations for every plane, polarization and angle, "
              "every field handed on must be the solver's field turned back by the transpose and scaled alike; the 6x6 response must equal the published expression in the first coefficients; coefficients come wavelength first.")
def c19(tier):
    out = []

    # ---- elementary rotations
    def elementary(ctx, ax, dev, dt):
        r = bridge()
        a = r.leaf("alpha", (), dt="f32", dev=dev)
        kw = {"device": Dev(dev)} if dev != "cpu" else {}
        if dt:
            kw["DTYPE_FLOAT"] = Dt(dt)
        v = r.call(TG + "rotation_" + ax, a, **kw)
        what = "rotation_%s (%s%s)" % (ax, dev, ", " + dt if dt else "")
        if failed(ctx, r, what + " completes", "rotation_" + ax):
            return
        if not isinstance(v, T) or v.shape is None or len(v.el) != 9:
            return ctx.und(what, "result not determined")
        R = rows(v)
        f = "rotation_" + ax
        proper(ctx, R, what, f)
        i = "xyz".index(ax)
        c, s = vnm.cos(a.el[0].v), vnm.sin(a.el[0].v)
        j, k = (i + 1) % 3, (i + 2) % 3
        ctx.expect(tri([R[i][i], R[j][j], R[k][k], R[k][j], R[j][k]], [vnm.ONE, c, c, s, vnm.neg(s)]), what + ": turns by the angle about its own axis", "other axis or sense", func=f, kind="axis")
    for ax in "xyz":
        for dev in ("cpu", "D"):
            for dt in (None, "f64"):
                out.append(("rotation_%s %s %s" % (ax, dev, dt), lambda c, z=(ax, dev, dt): elementary(c, *z)))

    # ---- the set of illuminations
    def configs(ctx, n, planes):
        r = bridge()
        v = r.call(TG + "setup_plane_waves_configs", n, **({} if planes is None else {"inc_planes": r.lst(list(planes))}))
        what = "illuminations for %d angles, planes %s" % (n, planes or "default")
        if failed(ctx, r, what, "setup_plane_waves_configs"):
            return
        it = r.ip.list_items(v) if isinstance(v, Ref) else None
        if it is None:
            return ctx.und(what, "result not determined")
        seen = []
        for d in it:
            a, p, q = r.get(d, "angle"), r.get(d, "inc_plane"), r.get(d, "polarization")
            if not isinstance(a, T) or not isinstance(p, str) or not isinstance(q, str):
                return ctx.und(what, "entries not determined")
            seen.append((a.el[0].v, p, q))
        pl = planes or ("xz", "xy")
        want = set()
        for i in range(n):
            x = vnm.div(vnm.mul(vnm.const(2 * i), vnm.scal(vnm.PI)), vnm.const(n))
            want |= {(x, p, q) for p in pl for q in "sp"}
        ctx.expect(len(seen) == len(want), what + ": one per angle, plane and polarization", "%d entries" % len(seen), func="setup_plane_waves_configs", kind="count")
        ctx.expect(len(set(seen)) == len(seen), what + ": none twice", "entries repeat", func="setup_plane_waves_configs", kind="repeat")
        ctx.expect({(p, q) for _, p, q in seen} == {(p, q) for _, p, q in want}, what + ": every plane with both polarizations", "missing combination", func="setup_plane_waves_configs", kind="missing")
        ctx.expect(set(seen) == want, what + ": the angles divide the full turn evenly", "other angles", func="setup_plane_waves_configs", kind="angles")
    for n in (1, 2, 3, 5, 12):
        for pl in (None, ("xz",), ("yz", "xy"), ("xz", "yz", "xy")):
            out.append(("configs %d %s" % (n, pl), lambda c, z=(n, pl): configs(c, *z)))

    # ---- frames and fields
    def extraction(ctx, n, K, L, legacy, dev, backend, nmax, ctor):
        got = []

        def from_fields(ip, a, k):
            got.append(dict(k))
            return ip.new(HDict({"GPM": T(D(3, 6, 6), "c64", dev, [Elem(vnm.leaf("gpm"))])}))
        r = bridge({FROMF: from_fields, PART + "get_nearfields": opaque_fields})
        p = make_particle(r, L=L, mats="const", env="num", dev=dev, dt="f32", legacy=legacy)
        if p is None:
            return ctx.und("particle", r.err and r.err.msg)
        wl = r.leaf("wavelengths", (K,) if K else (), dt="f32", dev=dev, unit=1)
        kw = dict(r_probe=eye3(r, "r_probe", dev), r_gpm=eye3(r, "r_gpm", dev), n_src_pw_angles=n, verbose=False, progress_bar=False)
        if backend:
            kw["backend"] = backend
        if nmax:
            kw["n_max"] = nmax
        fname = "StructAutodiffMieGPM3D" if ctor else "extract_GPM_sphere_miediff"
        v = r.call(TG + fname, p, wl, **kw)
        what = "%s (%d angles, %s wavelengths, %d layers%s%s)" % (fname, n, K or "scalar", L, ", core-shell form" if legacy else "", ", " + dev)
        if failed(ctx, r, what + " completes", fname):
            return
        nk = K or 1
        fe = [e for e in r.ip.events if e["kind"] == "fields"]
        if len(got) != nk:
            return ctx.expect(False if not any(r.ip.pending[0]) and isinstance(K, int) else None, what + ": one fit per wavelength", "%d fits" % len(got), func=fname, kind="fits")
        nc = n * 6
        if len(fe) != 2 * nc * nk:
            return ctx.und(what, "%d field evaluations" % len(fe))
        frames = []
        for q, g in enumerate(got):
            lam = wl.el[q if len(wl.el) > 1 else 0].v
            k0 = vnm.div(vnm.mul(vnm.const(2), vnm.scal(vnm.PI)), lam)
            w = g.get("wavelength")
            ctx.expect(None if not isinstance(w, T) else tri([w.el[0].v], [lam]), what + ": fit %d is made for its own wavelength" % q, "another wavelength", func=fname, kind="wavelength")
            for nm in ("r_probe", "r_gpm"):
                x = g.get(nm)
                ctx.expect(None if not isinstance(x, T) or len(x.el) != 9 else tri([e.v for e in x.el], [e.v for e in kw[nm].el]), what + ": the fit sees the %s positions of the original frame" % nm, "other positions", func=fname, kind="positions")
            F = {nm: g.get(nm) for nm in ("efields_sca", "hfields_sca", "efields_inc", "hfields_inc")}
            if any(not isinstance(x, T) or x.shape is None or len(x.el) != nc * 9 for x in F.values()):
                ctx.und(what + ": fields", "not determined: %s" % {k: getattr(x, "shape", x) for k, x in F.items()})
                continue
            blk = fe[2 * nc * q: 2 * nc * (q + 1)]
            for c in range(nc):
                pair = blk[2 * c: 2 * c + 2]
                fr = []
                for e in pair:
                    ok = tri([e["k0"].el[0].v], [k0]) if isinstance(e["k0"], T) else None
                    ctx.expect(ok, what + ": fields are computed at the wavenumber of the fit", "another wavenumber", func=fname, kind="wavenumber")
                    fr.append(rows(e["r_probe"]) if isinstance(e["r_probe"], T) and len(e["r_probe"].el) == 9 else None)
                if None in fr:
                    ctx.und(what + ": frame %d" % c, "positions not determined")
                    continue
                ctx.expect(tri(sum(fr[0], []), sum(fr[1], [])), what + ": scattered and incident fields are taken in the same frame", "different frames", func=fname, kind="frame")
                R = fr[0]
                proper(ctx, R, what + ": frame %d" % c, fname)
                if q == 0:
                    frames.append(R)
                scale = set()
                okall = True
                for e, nms in ((pair, None),):
                    for i, (nm, kind) in enumerate((("efields_sca", "E_s"), ("hfields_sca", "H_s"), ("efields_inc", "E_i"), ("hfields_inc", "H_i"))):
                        hit, odd = None, False
                        for ev in (pair if i < 2 else pair[::-1]):
                            ratio = set()
                            for q_ in range(3):
                                src = field_of(r, ev, kind, q_)
                                want = [dot(src, R[j]) for j in range(3)]      # turned back by the transpose
                                have = [F[nm].el[c * 9 + 3 * q_ + j].v for j in range(3)]
                                # parallel vectors: every 2x2 minor vanishes
                                if all(vnm.mul(want[a], have[b]) == vnm.mul(want[b], have[a]) for a, b in ((0, 1), (0, 2), (1, 2))) and all(h != vnm.ZERO for h in have):
                                    ratio.add(vnm.div(have[0], want[0]))
                                else:
                                    ratio.add(None)
                                    odd |= bool(vnm.ops(*have) - vnm.ops(*want) - SAFE)
                            if len(ratio) == 1 and None not in ratio:
                                hit = ratio.pop()
                                break
                        if hit is None and odd:
                            okall = False
                            ctx.und(what + ": %s mapped back" % nm, "made of operations whose meaning is not known")
                        elif hit is None:
                            okall = False
                            ctx.bad(what + ": %s is the solver's %s in the original frame" % (nm, kind), "illumination %d: not the field mapped back by the inverse rotation" % c, func=fname, kind="mapped %s" % nm)
                        else:
                            ctx.ok(what + ": %s mapped back" % nm)
                            scale.add(hit)
                if okall:
                    ctx.expect(len(scale) == 1, what + ": electric, magnetic, incident and scattered fields keep their ratios", "illumination %d: different scale factors" % c, func=fname, kind="scale")
                    ctx.expect(tri(list(scale), [vnm.conj(s) for s in scale]), what + ": the scale is real", "complex scale", func=fname, kind="scale")
        if frames:
            # columns of R: electric, magnetic and propagation direction
            for nm, ax in (("yz", 0), ("xz", 1), ("xy", 2)):
                inpl = [R for R in frames if R[ax][2] == vnm.ZERO]
                s = [R for R in inpl if all(R[i][0] == vnm.ZERO for i in range(3) if i != ax)]
                pp = [R for R in inpl if R[ax][0] == vnm.ZERO]
                ctx.expect(len(s) >= n and len(pp) >= n, what + ": both polarizations in plane %s" % nm, "%d perpendicular, %d in plane" % (len(s), len(pp)), func=fname, kind="polarization")
        if not ctor:
            er = r.get(v, "enclosing_radius")
            want = vnm.leaf("r_layers" if L == 1 else "r_layers#%d" % (L - 1), real=True)
            for nm, wv in (("k0_spectrum", [vnm.div(vnm.mul(vnm.const(2), vnm.scal(vnm.PI)), e.v) for e in wl.el]), ("wavelengths", [e.v for e in wl.el])):
                x = r.get(v, nm)
                ctx.expect(None if not isinstance(x, T) else tri([e.v for e in x.el], wv), what + ": %s of the model" % nm, "other values", func=fname, kind="spectrum")
            if not legacy:
                ctx.expect(None if not isinstance(er, T) else tri([er.el[0].v], [want]), what + ": the enclosing radius is the outermost one", "another radius", func=fname, kind="enclosing")
        else:
            sc = [e for e in r.ip.events if e["kind"] == "supercall"]
            gd = sc[-1]["kw"].get("gpm_dicts") if sc else None
            it = r.ip.list_items(gd) if isinstance(gd, Ref) else None
            ctx.expect(None if it is None else len(it) == 1, what + ": the extracted model is what the structure is built from", "not handed on", func=fname, kind="handed on")

    def field_of(r, ev, kind, q):
        """the components the opaque solver returned for this evaluation"""
        k0, rp = ev["k0"], ev["r_probe"]
        key = vnm.bag("nf", r.ip.val_vn(k0), r.ip.val_vn(rp), *sorted((vnm.fn(k, r.ip.val_vn(v)) for k, v in ev["kw"].items()), key=repr))
        return [vnm.fn("field", kind, q, i, key) for i in range(3)]

    ext = [(1, 1, 1, False, "D", None, None, False), (2, 2, 2, False, "D", None, None, False), (3, 1, 2, True, "D", "pena", 3, False), (3, 2, 3, False, "cpu", None, 4, False),
           (5, 1, 1, True, "cpu", "torch", None, False), (1, None, 2, False, "D", "torch", 2, False), (3, 2, 2, False, "D", None, 2, True), (1, 1, 1, False, "cpu", None, None, True)]
    if tier == "thorough":
        ext += [(n, K, L, lg, d, b, m, c) for n in (2, 4, 7, 12) for K in (1, 3) for L, lg in ((1, False), (2, True), (4, False)) for d in ("D",) for b, m in ((None, None), ("pena", 5)) for c in (False, True)]
    for z in ext:
        out.append(("extraction %s" % (z,), lambda c, q=z: extraction(c, *q)))

    # ---- coefficients, wavelength first
    def coeffs(ctx, K, nmax, L, legacy, backend, n_env, as_dict, env, dt):
        r = bridge()
        p = make_particle(r, L=L, mats="const", env=env, dev="D", dt="f32", legacy=legacy)
        if p is None:
            return ctx.und("particle", r.err and r.err.msg)
        wl = r.leaf("wavelengths", (K,) if K else (), dt=dt, dev="D", unit=1)
        k0 = T(wl.shape, "f32", "D", [Elem(vnm.div(vnm.mul(vnm.const(2), vnm.scal(vnm.PI)), e.v), live=frozenset(("wavelengths",)), unit=-1) for e in wl.el], leafs=frozenset(("wavelengths",)))
        kw = dict(n_max=nmax, as_dict=as_dict)
        if backend:
            kw["backend"] = backend
        if n_env:
            kw["n_env"] = r.num("menv", n_env)
        f = "mie_ab_sphere_3d_AD"
        what = "%s(%s wavelengths, %d orders, %d layers%s, backend %s%s)" % (f, K or "scalar", nmax, L, ", core-shell form" if legacy else "", backend, ", n_env" if n_env else "")
        v = r.call(TG + f, p, wl, **kw)
        if failed(ctx, r, what + " completes", f):
            return
        a, b = (v[0], v[1]) if isinstance(v, tuple) else (r.get(v, "a_n"), r.get(v, "b_n"))
        if not isinstance(a, T) or not isinstance(b, T) or a.shape is None or b.shape is None:
            return ctx.und(what, "result not determined")
        want_shape = D(K or 1, nmax)
        for nm, x in (("a_n", a), ("b_n", b)):
            ctx.expect(r.ip.tm.shape_eq(x.shape, want_shape), what + ": %s has one row per wavelength and one column per order" % nm, "shape %s" % (x.shape,), func=f, kind="axes")
        alt = []
        for be in ([backend] if backend else ["torch", "pena"]):
            ref = r.call(r.ip.getattr(p, "get_mie_coefficients"), k0, n_max=nmax, backend=be)
            if r.err is None:
                alt.append((r.get(ref, "a_n"), r.get(ref, "b_n")))
        nk = K if isinstance(K, int) else 1
        good = []
        for ra, rb in alt:
            if not all(isinstance(x, T) and x.shape is not None and len(x.el) == nmax * nk for x in (ra, rb)) or len(a.el) != nmax * nk or len(b.el) != nmax * nk:
                continue
            good.append(tuple(tri([c.el[w * nmax + o].v for w in range(nk) for o in range(nmax)], [rc.el[o * nk + w].v for w in range(nk) for o in range(nmax)]) for c, rc in ((a, ra), (b, rb))))
        if not good:
            ctx.und(what + ": values", "reference not determined")
        else:
            for i, nm in enumerate(("a_n", "b_n")):
                ctx.expect(True if any(g[i] for g in good) else None if any(g[i] is None for g in good) else False, what + ": %s are the particle's own coefficients of each wavelength and order" % nm, "other values or another axis order", func=f, kind="values")
        if as_dict:
            er = r.get(v, "r_enclosing")
            rl = vnm.leaf("r_layers" if L == 1 else "r_layers#%d" % (L - 1), real=True)
            if not legacy:
                ctx.expect(None if not isinstance(er, T) else tri([er.el[0].v], [rl]), what + ": enclosing radius", "another radius", func=f, kind="enclosing")
            x = r.get(v, "wavelengths")
            ctx.expect(None if not isinstance(x, T) else tri([e.v for e in x.el], [e.v for e in wl.el]), what + ": wavelengths", "other values", func=f, kind="spectrum")
            ne = r.get(v, "n_env")
            me = vnm.leaf("menv", real=True)
            ctx.expect(None if not isinstance(ne, T) else tri([vnm.mul(e.v, e.v) for e in ne.el], [vnm.mul(me, me)] * len(ne.el)), what + ": host index", "another index", func=f, kind="host")
    for K in ("K", 1, 2, 3, None):
        for nmax in (1, 2, 3):
            for L, lg in ((1, False), (2, False), (2, True), (3, False)):
                for be in (None, "pena") if L == 3 else (None, "torch", "pena"):
                    for ne, ad in ((None, True), ("float", False)):
                        out.append(("coefficients %s %d L=%d %s %s %s" % (K, nmax, L, lg, be, ne), lambda c, z=(K, nmax, L, lg, be, ne, ad, "num", "f32" if nmax != 2 else "f64"): coeffs(c, *z)))

    def override(ctx, f, n, L, given):
        """the documented override repeats the host index and must be accepted"""
        r = bridge({FROMF: lambda ip, a, k: ip.new(HDict({"GPM": T(D(3, 6, 6), "c64", "D", [Elem(vnm.leaf("gpm"))])})), PART + "get_nearfields": opaque_fields})
        p = r.call("pymiediff.Particle", mat_env=n, r_layers=r.leaf("r_layers", (L,), dt="f32", dev="D", unit=1), mat_layers=r.lst([r.num("m%d" % i) for i in range(L)]))
        if r.err is None:
            r.call(r.ip.getattr(p, "set_device"), Dev("D"))
        if r.err is not None:
            return ctx.und("particle", r.err.msg)
        kw = {"n_env": n} if given else {}
        if "GPM" in f:
            kw.update(r_probe=eye3(r, "r_probe"), r_gpm=eye3(r, "r_gpm"), n_src_pw_angles=1, verbose=False)
        elif "Eff" in f:
            kw["verbose"] = False
        r.call(TG + f, p, r.leaf("wavelengths", (2,), dt="f32", dev="D", unit=1), **kw)
        what = "%s accepts %s for a host of index %s" % (f, "n_env=%s" % n if given else "no override", n)
        if failed(ctx, r, what, f):
            return
        ctx.ok(what)
    for f in ("mie_ab_sphere_3d_AD", "extract_GPM_sphere_miediff", "StructAutodiffMieEffPola3D", "StructAutodiffMieGPM3D"):
        for n in (1.0, 1.5, 2.0):
            for L in (1, 2):
                for g in (True, False):
                    out.append(("override %s %s %d %s" % (f, n, L, g), lambda c, z=(f, n, L, g): override(c, *z)))

    # ---- dipole response
    def dipole(ctx, K, L, legacy, backend, n_env, pos):
        r = bridge()
        p = make_particle(r, L=L, mats="const", env="num", dev="D", dt="f32", legacy=legacy)
        if p is None:
            return ctx.und("particle", r.err and r.err.msg)
        wl = r.leaf("wavelengths", (K,) if K else (), dt="f32", dev="D", unit=1)
        f = "StructAutodiffMieEffPola3D"
        what = "%s(%s wavelengths, %d layers%s, backend %s%s%s)" % (f, K or "scalar", L, ", core-shell form" if legacy else "", backend, ", n_env" if n_env else "", ", r0" if pos else "")
        kw = {}
        if backend:
            kw["backend"] = backend
        if n_env:
            kw["n_env"] = r.num("menv")
        r0 = None
        if pos:
            r0 = kw["r0"] = r.leaf("r0", (3,) if pos == 1 else (1, 3), dt="f32", dev="D", unit=1)
        r.call(TG + f, p, wl, verbose=False, **kw)
        if failed(ctx, r, what + " completes", f):
            return
        sc = [e for e in r.ip.events if e["kind"] == "supercall"]
        ad = sc[-1]["kw"].get("alpha_dicts") if sc else None
        it = r.ip.list_items(ad) if isinstance(ad, Ref) else None
        if not it or len(it) != 1:
            return ctx.und(what, "what the structure is built from is not determined")
        al = r.get(it[0], "alpha_6x6")
        nk = K if isinstance(K, int) else 1
        k0 = T(wl.shape, "f32", "D", [Elem(vnm.div(vnm.mul(vnm.const(2), vnm.scal(vnm.PI)), e.v), live=frozenset(("wavelengths",)), unit=-1) for e in wl.el], leafs=frozenset(("wavelengths",)))
        if not isinstance(al, T) or al.shape is None or len(al.el) != 36 * nk:
            return ctx.und(what, "response not determined")
        ctx.expect(r.ip.tm.shape_eq(al.shape, D(K or 1, 6, 6)), what + ": one 6x6 response per wavelength", "shape %s" % (al.shape,), func=f, kind="axes")
        m = vnm.leaf("menv", real=True)
        n = vnm.sqrt(vnm.mul(m, m))
        res = None
        for be in ([backend] if backend else ["torch", "pena"]):
            ref = r.call(r.ip.getattr(p, "get_mie_coefficients"), k0, n_max=2, backend=be)
            if r.err is not None:
                continue
            ra, rb = r.get(ref, "a_n"), r.get(ref, "b_n")
            if not all(isinstance(x, T) and x.shape is not None and len(x.el) == 2 * nk for x in (ra, rb)):
                continue
            e = []
            for w in range(nk):
                k3 = vnm.mul(vnm.mul(k0.el[w].v, k0.el[w].v), k0.el[w].v)
                pre = vnm.div(vnm.const(1.5j), k3)
                pe = vnm.div(vnm.mul(pre, ra.el[w].v), n)
                mh = vnm.div(vnm.mul(pre, rb.el[w].v), vnm.mul(n, vnm.mul(n, n)))
                e.append([pe, mh])
            r_ = [True, True, True]
            for w in range(nk):
                for i in range(6):
                    for j in range(6):
                        v = al.el[36 * w + 6 * i + j].v
                        q = 2 if i != j else 0 if i < 3 else 1
                        r_[q] = both(r_[q], tri([v], [vnm.ZERO if q == 2 else e[w][q]]))
            if res is None or sum(x is True for x in r_) > sum(x is True for x in res):
                res = r_
        if res is None:
            ctx.und(what, "reference not determined")
        else:
            for ok, t in zip(res, ("electric dipole block 3i/2 a_1 / (k0^3 n)", "magnetic dipole block 3i/2 b_1 / (k0^3 n^3)", "no coupling outside the diagonal")):
                ctx.expect(ok, what + ": " + t, "another expression", func=f, kind=t.split()[0] + " block")
        for nm, wv in (("k0_spectrum", [e.v for e in k0.el]), ("wavelengths", [e.v for e in wl.el])):
            x = r.get(it[0], nm)
            ctx.expect(None if not isinstance(x, T) else tri([e.v for e in x.el], wv), what + ": %s" % nm, "other values", func=f, kind="spectrum")
        er = r.get(it[0], "enclosing_radius")
        if not legacy:
            ctx.expect(None if not isinstance(er, T) else tri([er.el[0].v], [vnm.leaf("r_layers" if L == 1 else "r_layers#%d" % (L - 1), real=True)]), what + ": enclosing radius", "another radius", func=f, kind="enclosing")
        want = [e.v for e in r0.el] if r0 is not None else [vnm.ZERO] * 3
        for nm in ("r0", "r0_MD", "r0_ED"):
            x = r.get(it[0], nm)
            ctx.expect(None if not isinstance(x, T) or len(x.el) != 3 else tri([e.v for e in x.el], want), what + ": %s is the requested position" % nm, "another position", func=f, kind="position")
        x = sc[-1]["kw"].get("positions")
        ctx.expect(None if not isinstance(x, T) or len(x.el) != 3 else tri([e.v for e in x.el], want), what + ": structure position", "another position", func=f, kind="position")
    for K in ("K", 1, 2, 3, None):
        for L, lg in ((1, False), (1, True), (2, False), (2, True), (3, False)):
            for be, ne, pos in ((None, False, 0), ("pena", True, 1), (None, True, 2)) + ((("torch", False, 1),) if L < 3 else ()):
                out.append(("dipole %s L=%d %s %s %s %s" % (K, L, lg, be, ne, pos), lambda c, z=(K, L, lg, be, ne, pos): dipole(c, *z)))

    # ---- several structures together
    def combined(ctx, n, nested, given):
        r = bridge()
        sts, pos, dicts = [], [], []
        for i in range(n):
            t = r.leaf("pos%d" % i, (3,), dt="f32", dev="D", unit=1)
            g = r.ip.new(HDict({"id": i}))
            pos.append(t)
            dicts.append(g)
            sts.append(r.ip.new(HObj(Ext("struct"), {"r0": t, "gpm_dict": r.lst([g]) if nested else g, "environment": "env%d" % i, "device": Dev("D")})))
        kw = {"environment": "mine"} if given else {}
        f = "combine_gpm_structures_autodiff"
        seen = []
        r.ip.hooks["ext:torchgdm.struct.struct3d.gpm3d.StructGPM3D"] = lambda ip, a, k: seen.append((list(a), dict(k))) or Top("struct")
        r.call(TG + f, r.lst(sts), **kw)
        what = "%s of %d structures" % (f, n)
        if failed(ctx, r, what + " completes", f):
            return
        if len(seen) != 1:
            return ctx.und(what, "construction not determined")
        a, k = seen[0]
        p = k.get("positions", a[0] if a else None)
        d = k.get("gpm_dicts", a[1] if len(a) > 1 else None)
        ctx.expect(None if not isinstance(p, T) or len(p.el) != 3 * n else tri([e.v for e in p.el], [e.v for t in pos for e in t.el]), what + ": positions in the order given", "other positions", func=f, kind="positions")
        it = r.ip.list_items(d) if isinstance(d, Ref) else None
        ids = [r.get(x, "id") for x in it] if it else None
        ctx.expect(None if ids is None else ids == list(range(n)), what + ": models in the order of the positions", "models %s" % ids, func=f, kind="models")
        ctx.expect(k.get("environment") == ("mine" if given else "env0"), what + ": environment", "%r" % (k.get("environment"),), func=f, kind="environment")
    for n in (1, 2, 3, 5):
        for nested in (False, True):
            for given in (False, True):
                out.append(("combined %d %s %s" % (n, nested, given), lambda c, z=(n, nested, given): combined(c, *z)))
    return uniq(out)
