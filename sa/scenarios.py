"""Named analysis scenarios: which public call is analysed with which symbolic
inputs.  Every scenario is a set of runs, not one run: axes are symbolic, all
values are symbolic; only the layer count, the layout and the options are fixed.
"""
from scen import *

MS = "pymiediff.multishell."
FUNCS = ("mie_coefficients", "cross_sections", "angular_scattering", "nearfields")
_cache = {}


class Sc:
    """result of one scenario"""

    def __init__(self, name, run, value, inputs):
        self.name, self.run, self.value, self.inputs = name, run, value, inputs
        self.err = run.err
        self.pending = list(run.ip.pending[0])
        self.ops = set(vnm.OPS)

    @property
    def ip(self):
        return self.run.ip

    def get(self, key):
        return self.run.get(self.value, key)

    def keys(self):
        return self.run.keys(self.value)

    def findings(self, *kinds, certain=True):
        return [f for f in self.ip.findings if f["kind"] in kinds and not (certain and f["uncertain"])]

    def events(self, *kinds):
        return [e for e in self.ip.events if e["kind"] in kinds]


def memo(f):
    def g(*a, **kw):
        k = (f.__name__, repr(a), repr(sorted(kw.items(), key=repr)))
        if k not in _cache:
            keep = set(vnm.OPS)
            vnm.OPS.clear()
            r = _cache[k] = f(*a, **kw)
            if isinstance(r, Sc):
                r.ops = set(vnm.OPS)
            vnm.OPS.update(keep)
        return _cache[k]
    g.__name__ = f.__name__
    return g


def dev_of(backend, dev):
    return "cpu" if backend == "scipy" else dev


def layer_inputs(r, L=3, P="P", K="K", eps="PLK", env="K", dev="D", dt="f64", edt="c128", envdt=None, legacy=None,
                 live=True, kname="k0", named=None, at0=(0, 0)):
    """solver inputs by keyword; `P`/`K` None: no such axis; legacy: 'h' or 'cs'.
    named (concrete sizes only): 'layer' -- entries differ by layer only; else the permittivity layout whose entries the
    given layout repeats (entries then differ by particle, layer and wavenumber); at0: indices of the first particle and
    wavenumber"""
    kw = {}
    ax = {"P": P, "L": L, "K": K, "1": 1}
    if named:
        import itertools

        def leaf(nm, axes, **k):
            dims = tuple(ax[c] for c in axes)
            names = []
            for ix in itertools.product(*[range(x) for x in dims]):
                at = dict(zip(axes, ix))
                for c, o in zip("PK", at0):
                    if c in at:
                        at[c] += o
                use = "L" if named == "layer" else (named if nm == "eps_layers" else axes)
                names.append(nm + "".join("#%d" % at[c] if named == "layer" else "#%s%d" % (c, at[c]) for c in "PLK" if c in use and c in at))
            return r.leaf(nm, dims, dev=dev, live=live, names=names, **k)
        kw["k0"] = leaf("k0", "K", dt=dt, unit=-1)
        kw["r_layers"] = leaf("r_layers", "PL", dt=dt, unit=1)
        kw["eps_layers"] = leaf("eps_layers", eps, dt=edt)
        kw["eps_env"] = leaf("eps_env", "K", dt=envdt or dt)
        return kw
    kw["k0"] = r.leaf(kname, (K,) if K else (), dt=dt, unit=-1, dev=dev, live=live)
    if legacy:
        kd = {"": (), "P": (P,), "K": (K,), "PK": (P, K), "1": (1,)}
        lay = eps if eps in kd else "P"
        rad = (P,) if P else ()
        nm = ["eps_c", "eps_s"]
        rn = ["r_c", "r_s"]
        for i in range(2 if legacy == "cs" else 1):
            sfx = "#%d" % i if legacy == "cs" else ""
            kw[rn[i]] = r.leaf("r_layers" + sfx, rad, dt=dt, unit=1, dev=dev, live=live)
            kw[nm[i]] = r.leaf("eps_layers" + sfx, kd[lay], dt=edt, dev=dev, live=live)
    else:
        kw["r_layers"] = r.leaf("r_layers", (P, L) if P else (L,), dt=dt, unit=1, dev=dev, live=live)
        kw["eps_layers"] = r.leaf("eps_layers", tuple(ax[c] for c in eps), dt=edt, dev=dev, live=live)
    if env == "K":
        kw["eps_env"] = r.leaf("eps_env", (K,) if K else (), dt=envdt or dt, dev=dev, live=live)
    elif env == "scalar":
        kw["eps_env"] = r.leaf("eps_env", (), dt=envdt or dt, dev=dev, live=live)
    elif env == "1":
        kw["eps_env"] = r.leaf("eps_env", (1,), dt=envdt or dt, dev=dev, live=live)
    elif env == "number":
        kw["eps_env"] = r.num("eps_env")
    return kw


def order_arg(r, nmax):
    if nmax == "N":
        return r.order()
    if nmax == "tensor":
        return T((), "i64", "cpu", [Elem(lin_vn(Lin({"N": 1})), exact=True)], lin=(Lin({"N": 1}), Lin({"N": 1})))
    if nmax == "dtensor":
        return T((), "i64", "D", [Elem(lin_vn(Lin({"N": 1})), exact=True)], lin=(Lin({"N": 1}), Lin({"N": 1})))
    return nmax


@memo
def functional(fn, backend="pena", L=3, nmax="N", E0=None, Q="Q", TH="T", probe="f64", opts=(), default_backend=False,
               mod="pymiediff.multishell", trans=False, **lay):
    r = Run()
    r.trans = trans
    dev = dev_of(backend, lay.pop("dev", "D"))
    kw = layer_inputs(r, L=L, dev=dev, **lay)
    dt = lay.get("dt", "f64")
    if not default_backend:
        kw["backend"] = backend
    if fn == "angular_scattering":
        kw["theta"] = r.leaf("theta", (TH,) if TH else (), dt=dt, dev=dev)
    if fn == "nearfields":
        kw["r_probe"] = r.leaf("r_probe", (Q, 3), dt=dt, dev=dev, unit=1)
        if E0:
            kw["E_0"] = r.leaf("E_0", (), dt=E0, dev=dev)
    if nmax is not None:
        kw["n_max"] = order_arg(r, nmax)
    kw.update(dict(opts))
    v = r.call(mod + "." + fn, **kw)
    nm = "%s(backend=%s, L=%s%s)" % (fn, backend, L, "".join(
        ", %s=%s" % (k, x) for k, x in list(lay.items()) + list(opts) + [("n_max", nmax)] if x is not None))
    return Sc(nm, r, v, kw)


# ------------------------------------------------------------------ particles
METH = {"get_mie_coefficients": "mie_coefficients", "get_cross_sections": "cross_sections",
        "get_angular_scattering": "angular_scattering", "get_nearfields": "nearfields"}


def yaml_hook(kind="tabulated", rows=4, cols=3, nent=1, rangekey="wavelength_range", typ=None, distinct=False):
    """what yaml.load (BaseLoader) returns for a material file: strings; numbers in it are symbolic (@name)"""
    count = [0]

    def hook(ip, args, kw):
        ent = {}
        sx = "x%d" % count[0] if distinct and count[0] else ""
        count[0] += 1
        if kind == "tabulated":
            ent["type"] = typ or ("tabulated nk" if cols == 3 else "tabulated n")
            ent["data"] = "\n".join(" ".join("@%s%d%s" % (c, i, sx) for c in "wnk"[:cols]) for i in range(rows)) + "\n"
        else:
            ent["type"] = typ or "formula 1"
            ent[rangekey] = "@wlo%s @whi%s" % (sx, sx)
            ent["coefficients"] = " ".join("@c%d%s" % (i, sx) for i in range(1 + 2 * rows))
        es = [ip.new(HDict(ent))] + [ip.new(HDict({"type": "tabulated k", "data": "@x0 @y0"})) for _ in range(nent - 1)]
        return ip.new(HDict({"REFERENCES": "", "DATA": ip.new_list(es)}))
    return hook


def make_material(r, kind, i, dev="D", L=None):
    """one layer material in the given representation; the name's value symbol is m<i>"""
    if kind == "const":
        return r.leaf("m%s" % i, (), dt="c128", dev=dev)
    if kind == "num":
        return r.num("m%s" % i)
    if kind == "complex":
        return r.num("m%s" % i, "complex")
    if kind == "MatConstant":
        e = r.leaf("m%s" % i, (), dt="c64", dev="cpu")
        return r.call("pymiediff.materials.MatConstant", e)
    if kind == "table":
        m = r.call("pymiediff.materials.MatDatabase", "Si")
        return m
    raise ValueError(kind)


def make_particle(r, L=2, mats="const", env="const", dev="D", pdev=None, dt="f64", legacy=False, eps=None, radii="tensor"):
    """Particle(...) ; returns the object (r.err set on failure)"""
    kw = {}
    rd = dev if pdev is None else pdev
    if legacy:
        kw["r_core"] = r.leaf("r_layers#0", (), dt=dt, unit=1, dev=rd)
        kw["mat_core"] = make_material(r, mats, 0, rd)
        if L > 1:
            kw["r_shell"] = r.leaf("r_layers#1", (), dt=dt, unit=1, dev=rd)
            kw["mat_shell"] = make_material(r, mats, 1, rd)
    else:
        if radii == "tensor":
            kw["r_layers"] = r.leaf("r_layers", (L,), dt=dt, unit=1, dev=rd)
        else:
            kw["r_layers"] = r.lst([r.num("r_layers#%d" % i, unit=1) for i in range(L)], owner="r_layers list")
        if eps:
            ax = {"L": L, "K": "K"}
            kw["eps_layers"] = r.leaf("eps_layers", tuple(ax[c] for c in eps), dt="c128", dev=rd)
        else:
            kw["mat_layers"] = r.lst([make_material(r, mats, i, rd) for i in range(L)], owner="mat_layers list")
    kw["mat_env"] = make_material(r, env, "env", rd)
    if dev != "cpu":
        kw["device"] = Dev(dev)
    p = r.call("pymiediff.Particle", **kw)
    return p


@memo
def particle(meth, L=2, nmax="N", opts=(), K="K", kdev=None, hooks=None, setdev=None, Q="Q", TH="T", kdt="f64",
             kkind="tensor", wl=None, **pk):
    r = Run(hooks={"yaml": yaml_hook(**dict(hooks or (("kind", "tabulated"),)))})
    dev = pk.get("dev", "D")
    p = make_particle(r, L=L, **pk)
    if p is None:
        return Sc("Particle(%s)" % pk, r, None, {})
    if setdev:
        r.call(r.ip.getattr(p, "set_device"), Dev(setdev))
        dev = setdev
    kd = kdev or dev
    if kkind == "tensor":
        k0 = r.leaf("k0", (K,) if K else (), unit=-1, dev=kd, dt=kdt)
    else:
        k0 = r.num("k0", unit=-1)
    args = [k0]
    kw = {}
    if "angular" in meth:
        args.append(r.leaf("theta", (TH,) if TH else (), dev=kd))
    if "nearfields" in meth:
        args.append(r.leaf("r_probe", (Q, 3), dev=kd, unit=1))
    if nmax is not None and meth != "get_material_permittivities":
        kw["n_max"] = order_arg(r, nmax)
    kw.update(dict(opts))
    v = r.call(r.ip.getattr(p, meth), *args, **kw)
    sc = Sc("Particle.%s(L=%s%s)" % (meth, L, "".join(", %s=%s" % x for x in list(pk.items()) + list(opts)
                                                       + [("n_max", nmax)] if x[1] is not None)), r, v, kw)
    sc.obj = p
    return sc


@memo
def material(kind, wl=("K",), wdt="f32", dev="D", wdev=None, calls=1, setdev=None, meth="get_epsilon", name="Si", hooks=(), wlive=True,
             same=True):
    """MatDatabase / MatConstant evaluated `calls` times"""
    h = {"yaml": yaml_hook(kind=kind, **dict(hooks))} if kind in ("tabulated", "formula") else {}
    r = Run(hooks=h)
    if kind == "constant":
        e = r.leaf("eps", (), dt="c64", dev=dev)
        m = r.call("pymiediff.materials.MatConstant", e, **({"device": Dev(dev)} if dev != "cpu" else {}))
    else:
        m = r.call("pymiediff.materials.MatDatabase", name, **({"device": Dev(dev)} if dev != "cpu" else {}))
    if m is None:
        return Sc("material %s" % kind, r, None, {})
    vals = []
    if wl == "num":
        w = r.num("wl", unit=0)
    else:
        w = r.leaf("wl", wl, dt=wdt, dev=wdev or dev, live=wlive)
    v = None
    for i in range(calls):
        if i and setdev:
            r.call(r.ip.getattr(m, "set_device"), Dev(setdev))
        v = r.call(r.ip.getattr(m, meth), w)
        vals.append(v)
    sc = Sc("%s material.%s(%s)" % (kind, meth, wl), r, v, {})
    sc.vals = vals
    sc.obj = m
    return sc


# ------------------------------------------------------------------ special functions
SP = "pymiediff.special."


def order_tensor(r, name="N", dev="D"):
    return T((), "i64", dev, [Elem(lin_vn(Lin({name: 1})), exact=True)], lin=(Lin({name: 1}), Lin({name: 1})))


@memo
def special(name, dims=("P", "K"), zdt="c128", nkind="int", dev="D", opts=(), n=None, kind=None, part=None, trans=False):
    """special.<name>(n, z, ...) for a symbolic argument tensor; composite signatures are built from the others"""
    r = Run()
    r.trans = trans
    if name in ("sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi"):
        dev = "cpu"
    if n is None:
        n = order_tensor(r, dev=dev) if nkind == "tensor" else r.order()
    kw = dict(opts)
    ins = {}

    def z(nm="z", dt=None):
        ins[nm] = r.leaf(nm, dims, dt=dt or zdt, dev=dev)
        return ins[nm]
    cal = lambda f, *a, **k: r.call(SP + f, *a, **k)
    prec = {k: v for k, v in kw.items() if k == "precision"}
    if name == "pena_D3_n":
        args = [n, z()]
    elif name == "pena_psi_zeta_n":
        zz = z()
        D1 = cal("pena_D1_n", n, zz, **prec)
        D3 = cal("pena_D3_n", n, zz, D1=D1, **prec)
        args = [n, zz, D1, D3]
    elif name == "pena_Q_n":
        z1, z2, x1, x2 = z("z1"), z("z2"), z("x1", "f64"), z("x2", "f64")
        D11, D12 = cal("pena_D1_n", n, z1, **prec), cal("pena_D1_n", n, z2, **prec)
        D31, D32 = cal("pena_D3_n", n, z1, D1=D11, **prec), cal("pena_D3_n", n, z2, D1=D12, **prec)
        args = [n, z1, z2, x1, x2, D11, D12, D31, D32]
    elif name == "f_der":
        zz = z()
        f = cal("sph_jn_torch", n, zz)
        args = [n, zz, f]
    elif name == "D3n_torch":
        zz = z()
        args = [n, zz, cal("D1n_torch", n, zz)]
    elif name == "pi_tau":
        args = [n, z("mu", "f64" if zdt == "c128" else zdt)]
    elif name in ("vsh", "vsh_pena"):
        args = [n, r.leaf("k0", (1, 1, "K", 1, 1), dev=dev, unit=-1),
                r.leaf("n_medium", (1, "P", "K", 1, 1), dt=zdt, dev=dev),
                r.leaf("r", (1, "P", 1, "Q", 1), dev=dev, unit=1), r.leaf("theta", (1, "P", 1, "Q", 1), dev=dev),
                r.leaf("phi", (1, "P", 1, "Q", 1), dev=dev), kind]
    else:
        args = [n, z()]
    if r.err is None:
        v = r.call(SP + name, *args, **kw)
    else:
        v = None
    sc = Sc("special.%s(z%s %s%s)" % (name, list(dims), zdt, "".join(", %s=%s" % x for x in opts)), r, v, ins)
    sc.args = args
    return sc


# ------------------------------------------------------------------ helpers
HP = "pymiediff.helper.helper."


@memo
def helper(name, dev="D", dims=("Q",), dt="f64", trans=False):
    r = Run()
    r.trans = trans
    L = lambda nm, d=dims, **k: r.leaf(nm, d, dt=k.pop("dt", dt), dev=dev, **k)
    if name == "transform_fields_spherical_to_cartesian":
        args = [L("E_r", dt="c128"), L("E_t", dt="c128"), L("E_ph", dt="c128"), L("r", unit=1), L("theta"), L("phi")]
    elif name == "transform_spherical_to_xyz":
        args = [L("r", unit=1), L("theta"), L("phi")]
    elif name == "transform_xyz_to_spherical":
        args = [L("x", unit=1), L("y", unit=1), L("z", unit=1)]
    elif name == "interp1d":
        args = [L("x_eval"), L("x_dat", ("T",), live=False), L("y_dat", ("T",), dt="c128")]
    elif name in ("interp1d_b", "interp1d_real_b"):     # the table axis is not a batch axis
        args = [L("x_eval"), L("x_dat", ("TAB",), live=False), L("y_dat", ("TAB",), dt=dt if "real" in name else "c128")]
        name = "interp1d"
    elif name == "interp1d_real":
        name, args = "interp1d", [L("x_eval"), L("x_dat", ("T",), live=False), L("y_dat", ("T",))]
    elif name == "plane_wave_expansion":
        args = [r.order()]
    elif name == "plane_wave_expansion_t":
        name, args = "plane_wave_expansion", [order_tensor(r, dev=dev)]
    elif name == "get_truncution_criteroin_wiscombe":
        args = [L("ka", ("P", "K"), dt="f64")]
    elif name == "get_truncution_criteroin_pena2009":
        args = [L("k0", (1, "K"), unit=-1), L("r_layers", ("P", 3), unit=1), L("eps_layers", ("P", 3, "K"), dt="c128"),
                L("eps_env", (1, "K"))]
    elif name == "detach_tensor":
        args = [(L("x", ()), L("y", ()))] if dev == "cpu" else [(L("x", ()),)]
    elif name == "detach_tensor_item":
        name, args = "detach_tensor", [(L("x", ()), L("y", ())), True]
    elif name == "num_center_diff":
        args = [r.fn(SP + "sph_jn_torch"), r.order(), L("z", ("K",), dt="c128")]
    elif name == "funct_grad_checker":
        zz = L("z", ("K",), dt="c128")
        args = [zz, r.fn(SP + "sph_jn"), (order_tensor(r, dev=dev), zz)]
    elif name == "_squeeze_dimensions":
        args = [r.ip.new(HDict({"a": L("a", (1, "K"))}))]
    else:
        raise ValueError(name)
    v = r.call(HP + name, *args)
    return Sc("helper.%s(%s)" % (name, list(dims)), r, v, {})


# ------------------------------------------------------------------ torchgdm bridge
TG = "pymiediff.helper.tg."


def opaque_fields(ip, f, args, kw):
    a = ip.tm_args = list(args)
    b = dict(kw)
    names = ["self", "k0", "r_probe"]
    for n, v in zip(names, a):
        b[n] = v
    k0, rp = b.get("k0"), b.get("r_probe")
    ip.event("fields", k0=k0, r_probe=rp, kw={k: v for k, v in b.items() if k not in names})
    if not isinstance(k0, T) or not isinstance(rp, T) or rp.shape is None or k0.shape is None:
        return MISSING
    sh = tuple(d for d in (k0.shape[:1] + (rp.shape[0],) if k0.shape else (rp.shape[0],)) if d != ())
    key = vnm.bag("nf", ip.val_vn(k0), ip.val_vn(rp), *sorted((vnm.fn(k, ip.val_vn(v)) for k, v in b.items() if k not in names), key=repr))
    live = k0.live() | rp.live()
    out = {}
    for nm in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"):
        np_ = nels(sh)
        els = [Elem(vnm.fn("field", nm, i, key) if np_ == 1 else vnm.fn("field", nm, q, i, key), live=live, dead=k0.dead() | rp.dead(), mix=k0.mix() | rp.mix()) for q in range(np_) for i in range(3)]
        out[nm] = T(sh + (cdim(3),), "c128", k0.dev, els)
    return ip.new(HDict(out))


def tg_hooks():
    return {"ext:torchgdm.tqdm": lambda ip, a, k: a[0] if a else k.get("iterable"),
            "ext:torchgdm.env.EnvHomogeneous3D": lambda ip, a, k: ip.new(HObj(Ext("env3d"), dict(k))),
            "yaml": yaml_hook()}


@memo
def tg(name, L=2, dev="D", pdev=None, opts=(), W="K", n_env=None, args=(), n=None, wdt="f32", legacy=False, env="num",
       opaque=False):
    """a call of the torchgdm bridge with torchgdm taken as an opaque external package;
    opaque: the particle's near fields are opaque tensors (one symbol per field name)"""
    r = Run(hooks=tg_hooks())
    if opaque:
        r.ip.hooks["pymiediff.main.Particle.get_nearfields"] = opaque_fields
    try:
        m = r.ip.load("pymiediff.helper.tg")
    except AbsRaise as e:
        r.err = e
        return Sc("import tg", r, None, {})
    kw = dict(opts)
    v = None
    ins = {}
    if name.startswith("rotation_"):
        ins["alpha"] = r.leaf("alpha", (), dt=kw.pop("adt", "f32"), dev=dev)
        a = [ins["alpha"]]
        if dev != "cpu":
            kw["device"] = Dev(dev)
    elif name == "_plane_wave_rotation":
        a = [r.leaf("angle", (), dt="f32", dev=dev)] + list(args) + [Dev(dev)]
    elif name == "setup_plane_waves_configs":
        a = list(args)
    else:
        p = make_particle(r, L=L, mats="const", env=env, dev=dev, pdev=pdev, dt="f32", legacy=legacy)
        if p is None:
            return Sc("tg." + name, r, None, {})
        if name == "_eval_mie":
            conf = r.ip.new(HDict({"angle": r.leaf("angle", (), dt="f32", dev=dev), "inc_plane": args[0], "polarization": args[1]}))
            a = [p, conf, r.leaf("k0", (), dt="f32", dev=dev, unit=-1), r.leaf("r_probe", ("Q", 3), dt="f32", dev=dev, unit=1),
                 r.leaf("r_gpm", ("Q2", 3), dt="f32", dev=dev, unit=1)]
        elif name.startswith("_get") or name.startswith("_resolve"):
            a = [p] + list(args)
        else:
            a = [p, r.leaf("wavelengths", (W,) if W else (), dt=wdt, dev=dev, unit=1)]
            if n_env:
                kw["n_env"] = r.num("n_env")
            if name in ("extract_GPM_sphere_miediff", "StructAutodiffMieGPM3D"):
                kw.setdefault("r_gpm", r.leaf("r_gpm", ("Q2", 3), dt="f32", dev=dev, unit=1))
                kw.setdefault("r_probe", r.leaf("r_probe", ("Q", 3), dt="f32", dev=dev, unit=1))
            if n is not None and "n_max" not in kw:
                kw["n_max"] = order_arg(r, n)
    if r.err is None:
        v = r.call(TG + name, *a, **kw)
    return Sc("tg.%s(%s)" % (name, ", ".join(map(str, list(args) + ["%s=%s" % x for x in opts]))), r, v, ins)
