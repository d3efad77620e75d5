"""Imports and names (C17)."""
import ast
import builtins
import symtable
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings
from checks2 import ALLB, cfg
import itertools

# optional packages, by what they are for
OPTIONAL = (("torchgdm",), ("matplotlib",), ("pymiecs", "PyMieScatt", "treams"), ("tqdm",))
# documented names (package docstring, helper docstring, README, tutorials)
PUBLIC = {
    "pymiediff": ("Particle", "multishell", "coreshell", "materials", "special", "helper"),
    "pymiediff.multishell": FUNCS,
    "pymiediff.coreshell": FUNCS,
    "pymiediff.materials": ("MatDatabase", "MatConstant", "list_available_materials"),
    "pymiediff.helper": ("get_truncution_criteroin_wiscombe", "get_truncution_criteroin_pena2009", "detach_tensor", "transform_fields_spherical_to_cartesian",
                         "transform_spherical_to_xyz", "transform_xyz_to_spherical", "interp1d", "funct_grad_checker", "plane_wave_expansion", "tg", "helper"),
    "pymiediff.helper.tg": ("StructAutodiffMieEffPola3D", "StructAutodiffMieGPM3D", "mie_ab_sphere_3d_AD", "extract_GPM_sphere_miediff"),
    "pymiediff.special": tuple(SPECIALS_SCIPY) + tuple(x for x in SPECIALS_TORCH) + ("vsh", "vsh_pena", "bessel2ndDer"),
}
IMPORT_ERRORS = ("ImportError", "ModuleNotFoundError", "NameError", "AttributeError", "UnboundLocalError")


def package_files():
    base = os.path.join(ROOT, "pymiediff")
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, ROOT)[:-3].split(os.sep)
                yield ".".join(rel[:-1] if rel[-1] == "__init__" else rel), p


# ------------------------------------------------------------ uses that need no optional package
def use_solver(fn, be, leg):
    def f(r):
        dev = dev_of(be, "D")
        kw = layer_inputs(r, L=2, dev=dev, legacy=leg)
        if fn == "angular_scattering":
            kw["theta"] = r.leaf("theta", ("T",), dev=dev)
        if fn == "nearfields":
            kw["r_probe"] = r.leaf("r_probe", ("Q", 3), dev=dev, unit=1)
        return r.call(MS + fn, backend=be, n_max=r.order(), **kw)
    return f


def use_getter(m, mats, env="num"):
    def f(r):
        r.ip.hooks["yaml"] = yaml_hook()
        p = make_particle(r, L=2, mats=mats, env=env)
        if p is None:
            return None
        args = [r.leaf("k0", ("K",), unit=-1, dev="D")]
        if "angular" in m:
            args.append(r.leaf("theta", ("T",), dev="D"))
        if "nearfields" in m:
            args.append(r.leaf("r_probe", ("Q", 3), dev="D", unit=1))
        kw = {} if m == "get_material_permittivities" else {"n_max": r.order()}
        return r.call(r.ip.getattr(p, m), *args, **kw)
    return f


def use_repr(cls):
    def f(r):
        r.ip.hooks["yaml"] = yaml_hook()
        o = make_particle(r, L=2, mats="const", env="num") if cls == "Particle" else r.call("pymiediff.materials." + cls, "Si" if cls == "MatDatabase" else r.leaf("eps", (), dt="c64", dev="cpu"))
        return r.call(r.ip.getattr(o, "__repr__")) if o is not None else None
    return f


def use_material(kind):
    def f(r):
        r.ip.hooks["yaml"] = yaml_hook(kind=kind) if kind != "constant" else yaml_hook()
        m = r.call("pymiediff.materials.MatConstant", r.leaf("eps", (), dt="c64", dev="cpu")) if kind == "constant" else r.call("pymiediff.materials.MatDatabase", "Si")
        return r.call(r.ip.getattr(m, "get_epsilon"), r.leaf("wl", ("K",), dt="f32", dev="cpu")) if m is not None else None
    return f


def use_special(nm):
    def f(r):
        if nm in ("vsh", "vsh_pena"):
            return r.call(SP + nm, r.order(), r.leaf("k0", (1, 1, "K", 1, 1), unit=-1), r.leaf("n", (1, "P", "K", 1, 1), dt="c128"), r.leaf("r", (1, "P", 1, "Q", 1), unit=1),
                          r.leaf("theta", (1, "P", 1, "Q", 1)), r.leaf("phi", (1, "P", 1, "Q", 1)), 1)
        return r.call(SP + nm, r.order(), r.leaf("z", ("K",), dt="f64" if nm == "pi_tau" else "c128", dev="cpu"))
    return f


def use_helper(nm):
    def f(r):
        H = "pymiediff.helper."
        v = lambda n, **k: r.leaf(n, ("K",), **k)
        if nm == "transform_fields_spherical_to_cartesian":
            return r.call(H + nm, *[v(x, dt="c128") for x in ("Er", "Et", "Ep")], *[v(x) for x in ("r", "theta", "phi")])
        if nm in ("transform_spherical_to_xyz", "transform_xyz_to_spherical", "interp1d"):
            return r.call(H + nm, v("a"), v("b"), v("c"))
        if nm == "plane_wave_expansion":
            return r.call(H + nm, 3)
        if nm == "detach_tensor":
            return r.call(H + nm, v("a", dev="cpu"))
        if nm.startswith("rotation"):
            return r.call(TG + nm, r.leaf("alpha", (), dt="f32", dev="cpu"))
        if nm == "get_truncution_criteroin_wiscombe":
            return r.call(H + nm, v("ka"))
        if nm == "get_truncution_criteroin_pena2009":
            return r.call(H + nm, r.leaf("k0", (1, "K"), unit=-1), r.leaf("r", ("P", 2), unit=1), r.leaf("e", ("P", 2, "K"), dt="c128"), r.leaf("env", (1, "K")))
        if nm == "list_available_materials":
            return r.call("pymiediff.materials." + nm)
        if nm == "setup_plane_waves_configs":
            return r.call(TG + nm, 3)
    return f


HUSE = ("transform_fields_spherical_to_cartesian", "transform_spherical_to_xyz", "transform_xyz_to_spherical", "interp1d", "plane_wave_expansion", "detach_tensor",
        "rotation_x", "rotation_y", "rotation_z", "get_truncution_criteroin_wiscombe", "get_truncution_criteroin_pena2009", "list_available_materials", "setup_plane_waves_configs")
# what may legitimately need a package, so that it is not asked of the use when that package is missing
NEEDS = {"plot_epsilon": ("matplotlib",), "plot_refractive_index": ("matplotlib",)}


def uses(tier):
    out = []
    for fn in FUNCS:
        for be in ALLB:
            out.append(("%s(backend=%s)" % (fn, be), use_solver(fn, be, None)))
        out.append(("%s legacy radii" % fn, use_solver(fn, "pena", "cs")))
    for m in list(METH) + ["get_material_permittivities"]:
        for mats in ("const", "table", "MatConstant"):
            out.append(("Particle.%s, %s materials" % (m, mats), use_getter(m, mats)))
    for c in ("Particle", "MatDatabase", "MatConstant"):
        out.append(("repr of %s" % c, use_repr(c)))
    for k in ("tabulated", "formula", "constant"):
        out.append(("%s material" % k, use_material(k)))
    for s in SPECIALS_SCIPY + ["pena_D1_n", "pena_D3_n", "sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch", "xi_torch", "pi_tau", "D1n_torch", "vsh", "vsh_pena"]:
        out.append(("special.%s" % s, use_special(s)))
    for h in HUSE:
        out.append((h, use_helper(h)))
    return out


# ------------------------------------------------------------ names
def module_bindings(tree, star):
    """names bound in a module's namespace, by any statement outside functions and classes; star(module)->names"""
    out = {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__annotations__", "__class__"}

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                if a.name == "*":
                    r = star(n)
                    if r is None:
                        out.add("*")
                    else:
                        out.update(r)
                else:
                    out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    V().visit(tree)
    for n in ast.walk(tree):                # functions may bind globals
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out


def loads(tree):
    """name -> first line it is read on, in any scope"""
    out, g = {}, guarded(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in g:
            out.setdefault(n.id, n.lineno)
    return out


class Names:
    """the package's modules and what each of them binds, from the syntax trees"""

    def __init__(self):
        self.src, self.tree, self.bind = {}, {}, {}
        for m, p in package_files():
            self.src[m] = open(p).read()
            self.tree[m] = ast.parse(self.src[m])
        self.pkg = {m for m, p in package_files() if p.endswith("__init__.py")}
        for m in self.tree:
            self.binds(m)

    def absolute(self, m, n):
        if not n.level:
            return n.module
        parts = m.split(".")
        if m not in self.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def binds(self, m):
        if m not in self.bind:
            self.bind[m] = set()
            def star(n):
                q = self.absolute(m, n)
                return {x for x in self.binds(q) if not x.startswith("_")} if q in self.tree else None
            self.bind[m] = module_bindings(self.tree[m], star)
            self.bind[m] |= {x[len(m) + 1:] for x in self.tree if x.startswith(m + ".") and "." not in x[len(m) + 1:]}
        return self.bind[m]


def unresolved(names, m):
    """(name, line, scope) read in module m but bound nowhere"""
    b = names.binds(m)
    if "*" in b:
        return None
    out, lines = [], loads(names.tree[m])
    tb = symtable.symtable(names.src[m], m, "exec")

    def walk(t):
        for s in t.get_symbols():
            nm = s.get_name()
            if s.is_referenced() and (s.is_global() or t.get_type() == "module") and not hasattr(builtins, nm) and nm not in b and nm in lines:
                out.append((nm, lines[nm], t.get_name()))
        for c in t.get_children():
            walk(c)
    walk(tb)
    return out


def guarded(tree):
    """nodes inside a try whose handlers catch the failure"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            hs = set()
            for h in n.handlers:
                for x in (ast.walk(h.type) if h.type is not None else [ast.Name(id="Exception")]):
                    if isinstance(x, ast.Name):
                        hs.add(x.id)
            if hs & {"Exception", "BaseException", "ImportError", "ModuleNotFoundError", "AttributeError", "NameError"}:
                for s in n.body:
                    out.update(id(x) for x in ast.walk(s))
    return out


def main_guard(tree):
    out = set()
    for n in tree.body:
        if isinstance(n, ast.If) and "__main__" in ast.dump(n.test):
            out.update(id(x) for x in ast.walk(n))
    return out


def import_refs(names, m):
    """(line, text, exists) of every import from the package and every attribute of a package module"""
    out = []
    tree = names.tree[m]
    g = guarded(tree)

    def has(q, nm):
        return nm in names.binds(q) or "*" in names.binds(q) or "__getattr__" in names.binds(q)
    for n in ast.walk(tree):
        if id(n) in g:
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "pymiediff":
                    out.append((n.lineno, "import %s" % a.name, a.name in names.tree))
        elif isinstance(n, ast.ImportFrom):
            q = names.absolute(m, n)
            if (q or "").split(".")[0] != "pymiediff":
                continue
            if q not in names.tree:
                out.append((n.lineno, "from %s import" % q, False))
                continue
            for a in n.names:
                if a.name != "*":
                    out.append((n.lineno, "from %s import %s" % (q, a.name), has(q, a.name)))
    # names that always denote one package module: bound by imports only, in the scope that uses them
    def scope(node, outer):
        env, nodes, subs = dict(outer), [], []

        def local(x):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    subs.append(c)
                    if not isinstance(c, ast.Lambda):
                        stores.add(c.name)
                        for d in c.decorator_list:
                            local(d)
                else:
                    nodes.append(c)
                    local(c)
        stores = set()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            stores |= {x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", []) + [y for y in (a.vararg, a.kwarg) if y]}
        local(node)
        imps = {}
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    nm, q = (a.asname, a.name) if a.asname else (a.name.split(".")[0],) * 2
                    imps.setdefault(nm, set()).add(q if q in names.tree else None)
            elif isinstance(n, ast.ImportFrom):
                q = names.absolute(m, n)
                for a in n.names:
                    s = "%s.%s" % (q, a.name)
                    # a module only if the package does not bind the name to something else
                    imps.setdefault(a.asname or a.name, set()).add(s if s in names.tree and not rebinds(q, a.name) else None)
        for k in stores:
            env.pop(k, None)
        for k, v in imps.items():
            if k not in stores and len(v) == 1 and None not in v:
                env[k] = next(iter(v))
            else:
                env.pop(k, None)
        for n in nodes:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in g:
                q = chain(n.value, env)
                if q is not None:
                    out.append((n.lineno, "%s.%s" % (q, n.attr), has(q, n.attr)))
        for s in subs:
            scope(s, env)

    def rebinds(q, nm):
        """does package q bind nm to something that is not its submodule?"""
        if q not in names.tree:
            return False
        for n in ast.walk(names.tree[q]):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == nm:
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == nm:
                return True
            if isinstance(n, ast.ImportFrom):
                src = names.absolute(q, n)
                for a in n.names:
                    if (a.asname or a.name) == nm and "%s.%s" % (src, a.name) != "%s.%s" % (q, nm):
                        return True
        return False

    def chain(x, env):
        if isinstance(x, ast.Name):
            return env.get(x.id)
        if isinstance(x, ast.Attribute):
            q = chain(x.value, env)
            s = "%s.%s" % (q, x.attr)
            return s if q is not None and s in names.tree and not rebinds(q, x.attr) else None
        return None
    scope(tree, {})
    return out


def attr_refs(names, m):
    """self.X read in a class of the package with no base outside it, for which no attribute X exists anywhere"""
    out = []
    stored, dyn = set(), False
    for t in names.tree.values():
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    stored.add(n.args[1].value)
                else:
                    dyn = True
            if isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__getattr__", "__setattr__"):
                dyn = True
    classes = {}
    for t in names.tree.values():
        for n in ast.walk(t):
            if isinstance(n, ast.ClassDef):
                classes.setdefault(n.name, []).append(n)

    def members(c, seen):
        """None if the class has a base outside the package"""
        if c in seen:
            return set()
        r = {s.name for s in c.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        for s in c.body:
            for n in ast.walk(s) if not isinstance(s, ast.FunctionDef) else ():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            if not (isinstance(b, ast.Name) and len(classes.get(b.id, ())) == 1):
                return None
            q = members(classes[b.id][0], seen | {c})
            if q is None:
                return None
            r |= q
        return r
    for n in ast.walk(names.tree[m]):
        if not isinstance(n, ast.ClassDef) or dyn or n.keywords:
            continue
        mem = members(n, frozenset())
        if mem is None or "__getattr__" in mem:
            continue
        # subclasses in the package may define it
        for k in classes.values():
            for c in k:
                if any(isinstance(b, ast.Name) and b.id == n.name for b in c.bases):
                    mem |= members(c, frozenset()) or set()
        for f in n.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args or any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    if not (x.attr.startswith("__") and x.attr.endswith("__")):
                        out.append((x.lineno, "%s.%s" % (n.name, x.attr), x.attr in mem or x.attr in stored))
    return out


@check("C17", "Import graph and name resolution: the package is loaded under every subset of missing optional packages and its features are followed under each; every name read, "
              "every import inside the package and every attribute of one of its modules or objects must be bound somewhere; the documented names exist and the legacy namespace holds the same objects.")
def c17(tier):
    out = []
    groups = [tuple(itertools.chain(*c)) for k in range(len(OPTIONAL) + 1) for c in itertools.combinations(OPTIONAL, k)]
    allopt = tuple(itertools.chain(*OPTIONAL))

    def load(ctx, miss):
        r = Run(load=False, missing=miss)
        r.err = None
        what = "import pymiediff without %s" % (", ".join(miss) or "nothing")
        try:
            r.ip.load("pymiediff")
            for m, _ in package_files():
                r.ip.load(m)
        except AbsRaise as e:
            r.err = e
        ctx.saw(r.ip)
        if r.err is not None:
            ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(getattr(r.err, "site", None) or ""), func="pymiediff", kind="import")
        elif any(x.etype in IMPORT_ERRORS for x in r.ip.pending[0]):
            ctx.und(what, str(r.ip.pending[0][0].msg))
        else:
            ctx.ok(what)

    def use(ctx, nm, f, miss):
        r = Run(missing=miss)
        f(r)
        ctx.saw(r.ip)
        what = "%s works without %s" % (nm, ", ".join(miss))
        if r.err is not None:
            if r.err.etype in ("ImportError", "ModuleNotFoundError"):
                ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func=nm, kind="needs optional package")
            else:
                ctx.und(what, "%s: %s" % (r.err.etype, r.err.msg))
        else:
            p = [x for x in r.ip.pending[0] if x.etype in ("ImportError", "ModuleNotFoundError")]
            if p:
                ctx.bad(what, "%s: %s on some path" % (p[0].etype, p[0].msg), site=str(p[0].site or ""), func=nm, kind="needs optional package")
            else:
                ctx.ok(what)

    def bridge(ctx, cls, miss):
        r = Run(missing=miss)
        what = "%s without torchgdm raises the missing-dependency error" % cls
        try:
            p = make_particle(r, L=2, mats="const", env="num", dev="cpu", dt="f32")
            if p is None:
                return ctx.und(what, "particle")
            v = r.call(TG + cls, p, r.leaf("wl", ("K",), dt="f32", dev="cpu"))
        finally:
            ctx.saw(r.ip)
        e = r.err
        if e is None:
            ctx.expect(None if isinstance(v, Top) else False, what, "the constructor completes", func=cls, kind="bridge")
        else:
            ctx.expect(bridge_error(r.ip, e), what, "raises %s instead" % e.etype, func=cls, kind="bridge")

    def bridge_error(ip, e):
        if e.etype == "RuntimeError":
            return True
        v = e.value
        rec = ip.get(v) if isinstance(v, Ref) else None
        c = getattr(rec, "cls", v)
        for _ in range(6):
            if isinstance(c, Cls):
                if c.name == "RuntimeError":
                    return True
                c = (c.bases or [None])[0]
            else:
                return isinstance(c, Ext) and c.path.split(".")[-1] == "RuntimeError"
        return False

    for g in groups:
        out.append(("import without %s" % ",".join(g), lambda c, q=g: load(c, q)))
        if "torchgdm" in g:
            for cls in ("StructAutodiffMieEffPola3D", "StructAutodiffMieGPM3D"):
                out.append(("%s without %s" % (cls, ",".join(g)), lambda c, q=g, k=cls: bridge(c, k, q)))
    for nm, f in uses(tier):
        for g in ((allopt,) if tier != "thorough" else [x for x in groups if x]):
            out.append(("%s without %s" % (nm, ",".join(g)), lambda c, n=nm, h=f, q=g: use(c, n, h, q)))

    def names_task(ctx, m):
        names = Names()
        ctx.funcs.add(m)
        u = unresolved(names, m)
        if u is None:
            ctx.und("%s: names resolve" % m, "imports * from outside the package")
        else:
            n = len(loads(names.tree[m]))
            for nm, ln, sc in u:
                ctx.bad("%s: name '%s' is bound" % (m, nm), "line %d in %s reads a name that is bound nowhere" % (ln, sc), site="%s:%d" % (m, ln), func="%s.%s" % (m, sc), kind="unresolved name")
            for _ in range(n - len({x[0] for x in u})):
                ctx.ok("%s: a name read is bound" % m)
        for ln, t, okk in import_refs(names, m):
            ctx.expect(okk, "%s: %s exists" % (m, t), "line %d refers to %s, which does not exist" % (ln, t), site="%s:%d" % (m, ln), func=m, kind="unresolved reference")
        for ln, t, okk in attr_refs(names, m):
            ctx.expect(okk, "%s: %s exists" % (m, t), "line %d reads %s, which is never set" % (ln, t), site="%s:%d" % (m, ln), func=m, kind="unresolved attribute")
    for m, _ in package_files():
        out.append(("names of %s" % m, lambda c, q=m: names_task(c, q)))

    def public(ctx, miss):
        r = Run(missing=miss)
        ctx.saw(r.ip)
        sfx = " without %s" % ", ".join(miss) if miss else ""
        for m, ns in PUBLIC.items():
            try:
                mod = r.ip.load(m)
            except AbsRaise as e:
                ctx.bad("module %s%s" % (m, sfx), "%s: %s" % (e.etype, e.msg), func=m, kind="public name")
                continue
            for nm in ns:
                try:
                    v = r.ip.getattr(mod, nm)
                    ctx.expect(None if isinstance(v, Top) else True, "%s.%s exists%s" % (m, nm, sfx))
                except AbsRaise as e:
                    ctx.bad("%s.%s exists%s" % (m, nm, sfx), "%s: %s" % (e.etype, e.msg), func=m, kind="public name")

    def legacy(ctx):
        r = Run()
        ctx.saw(r.ip)
        a, b = r.ip.load("pymiediff.multishell"), r.ip.load("pymiediff.coreshell")
        fa, fb = r.ip.st.frames[("mod", a.name)], r.ip.st.frames[("mod", b.name)]
        for k, v in sorted(fa.items()):
            if k.startswith("_"):
                continue
            mine = isinstance(v, (Fn, Cls)) and getattr(v, "mod", "").startswith("pymiediff")
            if k not in fb:
                if mine:
                    ctx.bad("coreshell.%s is multishell.%s" % (k, k), "the legacy namespace lacks it", func="pymiediff.coreshell", kind="legacy name")
            elif mine:
                ctx.expect(fb[k] is v or fb[k] == v, "coreshell.%s is multishell.%s" % (k, k), "the legacy namespace holds another object", func="pymiediff.coreshell", kind="legacy name")
    out.append(("public names", lambda c: public(c, ())))
    out.append(("public names, nothing optional", lambda c: public(c, allopt)))
    out.append(("legacy namespace", legacy))
    return uniq(out)
