"""Scenario sets shared by the checks (thunks, so that each runs in its own worker)."""
from scenarios import *

SPECIALS_SCIPY = ["sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi"]
SPECIALS_TORCH = ["pena_D1_n", "pena_D3_n", "pena_psi_zeta_n", "pena_Q_n", "sph_jn_torch", "sph_jn_torch_via_rec",
                  "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch", "xi_torch", "pi_tau", "f_der", "D1n_torch",
                  "D3n_torch"]
GETTERS = list(METH)


def th(label, f, *a, **kw):
    return (label, lambda: f(*a, **kw))


def lab(fn, kw):
    return fn + "".join(" %s=%s" % (k, v) for k, v in kw.items())


def F(fn, **kw):
    return th(lab(fn, kw), functional, fn, **kw)


def PT(meth, **kw):
    return th(lab("Particle." + meth, kw), particle, meth, **kw)


def func_set(tier, core=False):
    out = []
    for fn in FUNCS:
        out += [F(fn, backend="pena", L=3), F(fn, backend="pena", L=1), F(fn, backend="torch", L=2), F(fn, backend="scipy", L=2)]
        if core:
            continue
        out += [F(fn, backend="pena", L=2, nmax=None), F(fn, backend="torch", L=1, nmax=None), F(fn, backend="torch", L=2, opts=(("which_jn", "ratios"),)),
                F(fn, backend="pena", L=2, P=None, eps="L"), F(fn, backend="pena", L=2, P=None, K=None, eps="L", env="scalar"),
                F(fn, backend="pena", L=2, eps="PL", env="scalar"), F(fn, backend="pena", L=2, eps="LK", P=None, env="number"),
                F(fn, backend="pena", L=2, env=None), F(fn, backend="pena", legacy="cs", eps="PK"), F(fn, backend="torch", legacy="h", eps="P"),
                F(fn, backend="pena", L=2, edt="f64"), F(fn, backend="pena", L=2, envdt="c128"), F(fn, backend="torch", L=2, nmax="tensor")]
        if tier == "thorough":
            for be in ("pena", "torch", "scipy"):
                for L in ((1, 2, 3, 4) if be == "pena" else (1, 2)):
                    for nm in ("N", None, "tensor", 1, 3):
                        out.append(F(fn, backend=be, L=L, nmax=nm))
                for lay in (dict(eps="L"), dict(eps="PL"), dict(eps="LK", P=None), dict(eps="PLK", K=1), dict(P=None, K=None, eps="L"),
                            dict(env="scalar"), dict(env="number"), dict(env=None), dict(legacy="cs", eps="P"), dict(legacy="cs", eps=""),
                            dict(legacy="h", eps=""), dict(legacy="h", eps="PK"), dict(legacy="cs", eps="PK"), dict(edt="f64"), dict(envdt="c128"),
                            dict(dt="f32", edt="c64")):
                    out.append(F(fn, backend=be, L=2, **lay))
            out.append(F(fn, backend="torch", L=2, opts=(("which_jn", "continued_fraction"),)))
            out.append(F(fn, backend="scipy", L=1))
    out += [F("nearfields", backend=b, L=2, E0="c128") for b in ("pena", "torch")]
    out.append(F("mie_coefficients", backend="torch", L=2, opts=(("return_internal", True),)))
    out.append(F("mie_coefficients", backend="scipy", L=2, opts=(("return_internal", True),)))
    return uniq(out)


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        if x[0] not in seen:
            seen.add(x[0])
            out.append(x)
    return out


def particle_set(tier, core=False):
    out = []
    for m in GETTERS:
        out += [PT(m, L=2), PT(m, L=3, env="num")]
        if core:
            continue
        out += [PT(m, L=1, legacy=True, env="num"), PT(m, L=2, legacy=True, opts=(("backend", "torch"),)), PT(m, L=2, eps="LK"), PT(m, L=2, eps="L", nmax=None),
                PT(m, L=2, mats="table"), PT(m, L=1, K=None), PT(m, L=2, mats="MatConstant", env="MatConstant")]
        if tier == "thorough":
            out += [PT(m, L=2, kdev="cpu"), PT(m, L=2, mats="num"), PT(m, L=2, mats="complex"), PT(m, L=2, radii="list"),
                    PT(m, L=2, mats="table", hooks=(("kind", "formula"), ("rows", 2))), PT(m, L=2, legacy=True, mats="table"),
                    PT(m, L=2, dev="cpu", opts=(("backend", "scipy"),)), PT(m, L=4), PT(m, L=2, nmax=1), PT(m, L=2, nmax=3), PT(m, L=2, setdev="cpu")]
    out.append(PT("get_material_permittivities", L=2))
    out.append(PT("get_material_permittivities", L=2, mats="table"))
    return uniq(out)


def special_set(tier):
    out = []
    for nm in SPECIALS_SCIPY + SPECIALS_TORCH:
        out.append(th("special." + nm, special, nm))
        out.append(th("special." + nm + " 0-d", special, nm, dims=()))
        out.append(th("special." + nm + " 1-d", special, nm, dims=("K",)))
        out.append(th("special." + nm + " n-tensor", special, nm, dims=("K",), nkind="tensor"))
        if tier == "thorough":
            out.append(th("special." + nm + " 3-d", special, nm, dims=("P", "K", "Q")))
            for n in (1, 2, 4):
                out.append(th("special." + nm + " n=%d" % n, special, nm, dims=("K",), n=n))
            if nm not in ("pi_tau",):
                out.append(th("special." + nm + " real z", special, nm, dims=("K",), zdt="f64"))
    for nm, kinds in (("vsh", (1, 2, 3)), ("vsh_pena", (1, 3))):
        for k in kinds:
            out.append(th("special.%s kind=%d" % (nm, k), special, nm, kind=k))
    return out


HELPERS = ["transform_fields_spherical_to_cartesian", "transform_spherical_to_xyz", "transform_xyz_to_spherical", "interp1d",
           "interp1d_real"]
HELPERS2 = ["plane_wave_expansion", "plane_wave_expansion_t", "get_truncution_criteroin_wiscombe", "get_truncution_criteroin_pena2009",
            "num_center_diff"]


def helper_set(tier):
    return [th("helper." + n, helper, n) for n in HELPERS]


def material_set(tier):
    out = []
    for kind in ("tabulated", "formula", "constant"):
        for wl in (("K",), ()):
            out.append(th("%s material wl%s" % (kind, list(wl)), material, kind, wl=wl))
            out.append(th("%s material wl%s twice" % (kind, list(wl)), material, kind, wl=wl, calls=2))
    return out


def tg_set(tier):
    out = [th("tg.rotation_" + x, tg, "rotation_" + x) for x in "xyz"]
    out.append(th("tg.mie_ab", tg, "mie_ab_sphere_3d_AD", n="N", opts=(("as_dict", True),)))
    out.append(th("tg.mie_ab default", tg, "mie_ab_sphere_3d_AD"))
    out.append(th("tg.mie_ab n_env", tg, "mie_ab_sphere_3d_AD", n=1, opts=(("as_dict", True),), n_env=True))
    out.append(th("tg.EffPola", tg, "StructAutodiffMieEffPola3D"))
    return out
