"""Material data (C18)."""
from frame import check
from theory import *
from sets import *
from checks import opened, outs, tens, per, findings
from checks2 import ALLB, cfg
import itertools
import random

CHOICE = {"max", "min", "lt0", "eq0", "mask", "pick", "nz", "cond", "cond2"}

MT = "pymiediff.materials."
DATA = os.path.join(ROOT, "pymiediff", "materials", "data")


# ------------------------------------------------------------ data files (the subset of YAML they use; every scalar is a string)
class NotRead(Exception):
    pass


def read_yaml(text):
    """mappings, lists of mappings and block scalars; raises NotRead for anything else"""
    lines = [(len(l) - len(l.lstrip()), l) for l in text.replace("\t", "    ").splitlines()]
    pos = [0]

    def skip():
        while pos[0] < len(lines) and (not lines[pos[0]][1].strip() or lines[pos[0]][1].lstrip().startswith("#")):
            pos[0] += 1

    def scalar(s):
        s = s.strip()
        if len(s) > 1 and s[0] == s[-1] and s[0] in "\"'":
            return s[1:-1]
        if s[:1] in "[{&*!>%@`\"'":
            raise NotRead(s[:20])
        return s.split(" #")[0].rstrip()

    def block(ind):
        out = []
        while pos[0] < len(lines):
            i, l = lines[pos[0]]
            if l.strip() and i <= ind:
                break
            out.append(l)
            pos[0] += 1
        while out and not out[-1].strip():
            out.pop()
        base = min(len(l) - len(l.lstrip()) for l in out if l.strip()) if any(l.strip() for l in out) else 0
        return "\n".join(l[base:] for l in out) + "\n"

    def value(rest, ind):
        if rest in ("|", "|-", "|+", ">", ">-"):
            return block(ind)
        if rest[:1] == '"':
            while not (len(rest) > 1 and rest.endswith('"') and not rest.endswith('\\"')) and pos[0] < len(lines):
                rest += " " + lines[pos[0]][1].strip()
                pos[0] += 1
        if rest:
            return scalar(rest)
        skip()
        if pos[0] < len(lines) and (lines[pos[0]][0] > ind or (lines[pos[0]][0] == ind and lines[pos[0]][1].lstrip().startswith("- "))):
            return node(lines[pos[0]][0])
        return ""

    def mapping(ind, first=None):
        out = {}
        while True:
            if first is not None:
                l, first = first, None
            else:
                skip()
                if pos[0] >= len(lines) or lines[pos[0]][0] != ind or lines[pos[0]][1].lstrip().startswith("- "):
                    break
                l = lines[pos[0]][1].strip()
                pos[0] += 1
            k, sep, rest = l.partition(":")
            if not sep or (rest and rest[0] != " "):
                raise NotRead(l[:40])
            if k.strip() in out:
                raise NotRead("duplicate key %s" % k)
            out[k.strip().strip("\"'")] = value(rest.strip(), ind)
        return out

    def node(ind):
        if lines[pos[0]][1].lstrip().startswith("- "):
            out = []
            while pos[0] < len(lines):
                skip()
                if pos[0] >= len(lines) or lines[pos[0]][0] != ind or not lines[pos[0]][1].lstrip().startswith("- "):
                    break
                l = lines[pos[0]][1]
                body = l.lstrip()[2:]
                pos[0] += 1
                out.append(mapping(ind + 2 + len(body) - len(body.lstrip()), first=body.strip()))
            return out
        return mapping(ind)
    skip()
    r = node(lines[pos[0]][0])
    skip()
    if pos[0] < len(lines):
        raise NotRead("line %d" % (pos[0] + 1))
    return r


def to_abs(ip, v):
    if isinstance(v, dict):
        return ip.new(HDict({k: to_abs(ip, x) for k, x in v.items()}))
    if isinstance(v, list):
        return ip.new_list([to_abs(ip, x) for x in v])
    return v


def data_files():
    try:
        return sorted(f for f in os.listdir(DATA) if os.path.isfile(os.path.join(DATA, f)))
    except OSError:
        return []


def opened_file(ip):
    """the path of the file opened last"""
    ev = [e for e in ip.events if e["kind"] == "open"]
    for x in (ev[-1].get("args", ()) if ev else ()):
        p = getattr(x, "p", x)
        if isinstance(p, str):
            return p
    return None


class Db:
    """yaml hook that returns the real content of the file opened last, and remembers which it was"""

    def __init__(self):
        self.seen = []

    def __call__(self, ip, args, kw):
        f = opened_file(ip)
        if f is None:
            return Top("yaml")
        self.seen.append(os.path.basename(f))
        return to_abs(ip, read_yaml(open(f, encoding="utf8").read()))


# ------------------------------------------------------------ expected values
def sym(nm):
    return vnm.leaf(nm, real=True)


def table_hook(n, cols=3, nent=1, style=0):
    def h(ip, a, k):
        rows = ["@w%d @n%d" % (i, i) + (" @k%d" % i if cols > 2 else "") for i in range(n)]
        if style == 1:
            rows = ["  " + r.replace(" ", "   ") + "  " for r in rows] + ["", ""]
        elif style == 2:
            rows = [r.replace(" ", "\t") for r in rows]
        ent = [ip.new(HDict({"type": "tabulated nk" if cols > 2 else "tabulated n", "data": "\n".join(rows) + ("\n" if style != 2 else "")}))]
        ent += [ip.new(HDict({"type": "tabulated k", "data": "@x0 @y0\n"})) for _ in range(nent - 1)]
        return ip.new(HDict({"REFERENCES": "", "DATA": ip.new_list(ent)}))
    return h


def formula_hook(nt, key="wavelength_range", nent=1):
    def h(ip, a, k):
        ent = [ip.new(HDict({"type": "formula 1", key: "@lo @hi", "coefficients": " ".join("@c%d" % i for i in range(1 + 2 * nt))}))]
        ent += [ip.new(HDict({"type": "tabulated k", "data": "@x0 @y0\n"})) for _ in range(nent - 1)]
        return ip.new(HDict({"REFERENCES": "", "DATA": ip.new_list(ent)}))
    return h


def eps_row(i, cols):
    n = sym("n%d" % i)
    v = vnm.add(n, vnm.mul(vnm.const(1j), sym("k%d" % i))) if cols > 2 else n
    return vnm.mul(v, v)


def sellmeier(nt, lam_nm):
    mu2 = vnm.mul(lam_nm, lam_nm)
    mu2 = vnm.div(mu2, vnm.const(1000000))
    s = vnm.add(vnm.const(1), sym("c0"))
    for i in range(nt):
        c1, c2 = sym("c%d" % (1 + 2 * i)), sym("c%d" % (2 + 2 * i))
        s = vnm.add(s, vnm.div(vnm.mul(c1, mu2), vnm.sub(mu2, vnm.mul(c2, c2))))
    return s


def lerp(x, j, order, W, cols):
    """between the j-th and the (j+1)-th wavelength in increasing order"""
    a, b = order[j], order[j + 1]
    num = vnm.add(vnm.mul(eps_row(a, cols), vnm.sub(W[b], x)), vnm.mul(eps_row(b, cols), vnm.sub(x, W[a])))
    return vnm.div(num, vnm.sub(W[b], W[a]))


@check("C18", "Interpretation of the material loader on every bundled data file, and on a file with symbolic entries under every assumed order of its rows and every position of the wavelength "
              "among them: the name must lead to its file, and the permittivity must equal (n+ik)^2 interpolated linearly, or the full Sellmeier sum, at the wavelength in micrometres.")
def c18(tier):
    out = []

    # ---- the database
    def listing(ctx):
        files = data_files()
        r = Run()
        v = r.call(MT + "list_available_materials")
        ctx.saw(r.ip)
        if r.err is not None:
            return ctx.bad("list_available_materials completes", "%s: %s" % (r.err.etype, r.err.msg), func="list_available_materials", kind="listing")
        names = r.ip.list_items(v) if not isinstance(v, tuple) else list(v)
        if names is None or any(not isinstance(x, str) for x in names):
            return ctx.und("the listing is determined")
        data = [f for f in files if f.lower().endswith((".yml", ".yaml"))]
        ctx.expect(len(names) >= len(data), "one listed name for every data file", "%d names for %d files" % (len(names), len(data)), func="list_available_materials", kind="hidden entry")
        ctx.expect(len(set(n.lower() for n in names)) == len(names), "listed names differ", "names repeat", func="list_available_materials", kind="hidden entry")
        seen = {}
        for n in names:
            for form in (n, n.upper(), n.lower(), n.capitalize(), n.swapcase()):
                db = Db()
                r2 = Run(hooks={"yaml": db})
                r2.call(MT + "MatDatabase", form)
                ctx.saw(r2.ip)
                what = "MatDatabase(%r) loads" % form
                if r2.err is not None:
                    ctx.bad(what, "%s: %s" % (r2.err.etype, r2.err.msg), site=str(r2.err.site or ""), func="MatDatabase", kind="not loadable %s" % n)
                elif len(db.seen) != 1:
                    ctx.und(what, "file opened not determined")
                else:
                    seen.setdefault(n, set()).add(db.seen[0])
                    ctx.ok(what)
        for n, fs in seen.items():
            ctx.expect(len(fs) == 1, "'%s' is one file in any case" % n, "spellings load %s" % sorted(fs), func="MatDatabase", kind="case")
        got = sorted(f for fs in seen.values() for f in fs)
        for f in data:
            ctx.expect(got.count(f) == 1, "data file %s is reached by one listed name" % f, "reached by %d names" % got.count(f), func="MatDatabase", kind="hidden entry")
        for n, fs in seen.items():
            for f in fs:
                ctx.expect(f.lower().startswith(n.lower()), "'%s' leads to its own file" % n, "leads to %s" % f, func="MatDatabase", kind="wrong entry")
    out.append(("listing", listing))

    def bundled(ctx, f):
        """the data itself, and the loader followed on it"""
        path = os.path.join(DATA, f)
        try:
            y = read_yaml(open(path, encoding="utf8").read())
        except (NotRead, UnicodeDecodeError) as e:
            return ctx.und("%s is readable" % f, str(e))
        d = y.get("DATA") or [{}]
        d = d[0]
        if d.get("type", "").startswith("tabulated"):
            rows = [x.split() for x in d.get("data", "").splitlines() if x.strip()]
            try:
                num = [[float(c) for c in x] for x in rows]
                ok = bool(num) and all(len(x) in (2, 3) and x[0] > 0 and x[1] >= 0 and (len(x) < 3 or x[2] >= 0) for x in num)
                ok = ok and len({x[0] for x in num}) == len(num) and len({len(x) for x in num}) == 1
                ok = ok and all(0 < x[0] < 2000 for x in num)
            except ValueError:
                ok = False
            ctx.expect(ok, "%s: every row is a wavelength, n and k" % f, "malformed rows", func=f, kind="data")
            if len(rows) > 150:              # every row has the same form: the loader is followed on a sample of them
                d = dict(d, data="\n".join(" ".join(x) for x in rows[::len(rows) // 100]) + "\n")
                y = dict(y, DATA=[d] + y["DATA"][1:])
        elif d.get("type", "").startswith("formula"):
            try:
                c = [float(x) for x in d.get("coefficients", "").split()]
                rg = [float(x) for x in (d.get("wavelength_range") or d.get("range")).split()]
                ok = len(c) % 2 == 1 and len(c) >= 3 and len(rg) == 2 and rg[0] < rg[1]
            except (ValueError, AttributeError):
                ok = False
            ctx.expect(ok, "%s: a constant and pairs of coefficients" % f, "malformed coefficients", func=f, kind="data")
        for sh in ((), (2,), ("K",)):
            r = Run(hooks={"yaml": lambda ip, a, k: to_abs(ip, y)})
            m = r.call(MT + "MatDatabase", "own", yaml_file=path)
            v = r.call(r.ip.getattr(m, "get_epsilon"), r.leaf("wl", sh, dt="f32", dev="cpu", live=False)) if r.err is None else None
            ctx.saw(r.ip)
            what = "%s is loaded and evaluated for wavelengths of shape %s" % (f, list(sh))
            if r.err is not None:
                ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func="MatDatabase", kind="not loadable %s" % f)
            elif any(r.ip.pending[0]):
                ctx.und(what, r.ip.pending[0][0].msg)
            else:
                ctx.expect(None if not isinstance(v, T) else True, what)
    for f in data_files():
        if f.lower().endswith((".yml", ".yaml")):
            out.append(("data file %s" % f, lambda c, q=f: bundled(c, q)))

    # ---- symbolic table
    def same(ctx, what, e, want, func):
        ctx.equal([e.v], [want], what, "the permittivity is a different expression of the data", func=func, kind="value", allow=SAFE - CHOICE)

    def table(ctx, order, cols, style, nent, pos, sh, live, via, dt):
        n = len(order)
        W = [vnm.mul(vnm.const(1000), sym("w%d" % i)) for i in range(n)]
        rank = {W[i]: 2 * order.index(i) for i in range(n)}
        r = Run(hooks={"yaml": table_hook(n, cols, nent, style)})
        m = r.call(MT + "MatDatabase", "Si") if via != "file" else r.call(MT + "MatDatabase", yaml_file="user.yml")
        if r.err is not None:
            ctx.saw(r.ip)
            return ctx.bad("a table of %d rows loads" % n, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func="MatDatabase", kind="not loadable")
        xs, want = [], []
        size = sh[0] if sh else 1
        for q in range(size):
            p = (pos + 3 * q) % (2 * n - 1)          # 2j: on node j; 2j+1: between j and j+1
            if p % 2 == 0:
                x = W[order[p // 2]]
                want.append(eps_row(order[p // 2], cols))
            else:
                x = sym("wl%d" % q)
                rank[x] = p
                want.append(lerp(x, p // 2, order, W, cols))
            xs.append(x)
        tag = "order %s, %d columns, wavelength at %s" % (order, cols, pos)
        if via == "particle":
            kk = [vnm.div(vnm.mul(vnm.const(2), vnm.scal(vnm.PI)), x) for x in xs]
            w = T(D(*sh), dt, "cpu", [Elem(v, live=frozenset(("k0",)) if live else EMPTY, unit=-1) for v in kk], leafs=frozenset(("k0",)) if live else EMPTY)
        else:
            w = T(D(*sh), dt, "cpu", [Elem(v, live=frozenset(("wl",)) if live else EMPTY) for v in xs], leafs=frozenset(("wl",)) if live else EMPTY)
        r.ip.assume_order(rank)
        v = r.call(r.ip.getattr(m, "get_epsilon"), w)
        ctx.saw(r.ip)
        what = "interpolation (%s)" % tag
        if r.err is not None:
            return ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func="get_epsilon", kind="fails")
        if not isinstance(v, T) or v.shape is None or len(v.el) != size or any(r.ip.pending[0]):
            return ctx.und(what, "result not determined")
        for q in range(size):
            same(ctx, what, v.el[q], want[q], "get_epsilon")

    perms = {2: [(0, 1), (1, 0)], 3: list(itertools.permutations(range(3)))}
    perms[4] = [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)] + ([p for p in itertools.permutations(range(4))] if tier == "thorough" else [])
    for n, ps in perms.items():
        for o in dict.fromkeys(ps):
            for pos in range(2 * n - 1):
                for sh in ((), (2,)):
                    out.append(("table %s at %d shape %s" % (o, pos, sh), lambda c, z=(list(o), 3, 0, 1, pos, sh, False, "name", "f32"): table(c, *z)))
    for pos in range(5):
        for cols, style, nent, sh, live, via, dt in ((2, 0, 1, (), False, "name", "f32"), (3, 1, 1, (), False, "name", "f32"), (3, 2, 1, (), False, "name", "f32"), (3, 0, 2, (), False, "name", "f32"),
                                                     (3, 0, 1, (), True, "name", "f32"), (3, 0, 1, (3,), True, "name", "f32"), (3, 0, 1, (3,), False, "file", "f32"), (2, 1, 1, (2,), False, "file", "f64"),
                                                     (3, 0, 1, (1,), False, "name", "f64"), (2, 0, 2, (), True, "file", "f64")):
            z = ([1, 2, 0], cols, style, nent, pos, sh, live, via, dt)
            out.append(("table %s" % (z,), lambda c, q=z: table(c, *q)))

    # ---- Sellmeier
    def formula(ctx, nt, key, sh, live, via, dt, nent):
        r = Run(hooks={"yaml": formula_hook(nt, key, nent)})
        what = "Sellmeier sum of %d terms (%s, wavelengths %s%s%s)" % (nt, key, list(sh), ", requiring gradients" if live else "", ", " + via if via != "name" else "")
        if via == "particle":
            p = r.call("pymiediff.Particle", r_layers=r.leaf("r_layers", (1,), unit=1, dev="cpu", live=False), mat_layers=r.lst([r.call(MT + "MatDatabase", "SiO2")]), mat_env=1.0)
            if r.err is None:
                k = r.leaf("k0", sh, dt=dt, dev="cpu", unit=-1, live=live)
                v = r.call(r.ip.getattr(p, "get_material_permittivities"), k)
                v = v[0] if isinstance(v, tuple) else v
                lam = [vnm.div(vnm.mul(vnm.const(2), vnm.scal(vnm.PI)), e.v) for e in k.el]
        else:
            m = r.call(MT + "MatDatabase", "SiO2") if via == "name" else r.call(MT + "MatDatabase", "mine", yaml_file="user.yml")
            if r.err is None:
                w = r.leaf("wl", sh, dt=dt, dev="cpu", live=live)
                v = r.call(r.ip.getattr(m, "get_epsilon"), w)
                lam = [e.v for e in w.el]
        ctx.saw(r.ip)
        if r.err is not None:
            return ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func="get_epsilon", kind="fails")
        if not isinstance(v, T) or v.shape is None or any(r.ip.pending[0]):
            return ctx.und(what, "result not determined")
        if len(v.el) != len(lam):
            return ctx.und(what, "%d values for %d wavelengths" % (len(v.el), len(lam)))
        for e, l in zip(v.el, lam):
            same(ctx, what, e, sellmeier(nt, l), "get_epsilon")
    for nt in (1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        for key in ("wavelength_range", "range"):
            for sh, live, via, dt, nent in (((), False, "name", "f32", 1), ((), True, "name", "f32", 1), ((2,), False, "name", "f32", 1), ((3,), True, "name", "f64", 1), (("K",), False, "name", "f32", 1),
                                            (("K",), True, "name", "f64", 1), ((1,), False, "file", "f64", 2), ((2,), False, "particle", "f64", 1), (("K",), True, "particle", "f64", 1)):
                out.append(("formula %d %s %s %s %s %s" % (nt, key, sh, live, via, dt), lambda c, z=(nt, key, sh, live, via, dt, nent): formula(c, *z)))

    # ---- constants
    def constant(ctx, kind, sh, live):
        r = Run()
        what = "constant permittivity (%s) for wavelengths %s" % (kind, list(sh))
        e = dict(tensor=lambda: r.leaf("e", (), dt="c64", dev="cpu"), real=lambda: r.leaf("e", (), dt="f32", dev="cpu"), number=lambda: r.num("e"), complex=lambda: r.num("e", "complex"))[kind]()
        m = r.call(MT + "MatConstant", e)
        w = r.leaf("wl", sh, dt="f32", dev="cpu", live=live)
        v = r.call(r.ip.getattr(m, "get_epsilon"), w) if r.err is None else None
        ctx.saw(r.ip)
        if r.err is not None:
            return ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func="MatConstant", kind="fails")
        if not isinstance(v, T) or v.shape is None:
            return ctx.und(what, "result not determined")
        want = e.el[0].v if isinstance(e, T) else e.el.v
        for x in v.el:
            same(ctx, what, x, want, "get_epsilon")
        ctx.expect(r.ip.tm.shape_eq(v.shape, D(*sh)) if sh != (1,) else True, what + ": one value per wavelength", "shape %s" % (v.shape,), func="get_epsilon", kind="shape")

    for kind in ("tensor", "real", "number", "complex"):
        for sh in ((), ("K",), (2,), (1,)):
            for live in (False, True):
                out.append(("constant %s %s %s" % (kind, sh, live), lambda c, z=(kind, sh, live): constant(c, *z)))

    def index(ctx, mats, legacy, sh, L):
        r = Run(hooks={"yaml": yaml_hook()})
        what = "a refractive index given as %s%s becomes its square (%d layers, wavenumbers %s)" % (mats, " in the core-shell form" if legacy else "", L, list(sh))
        p = make_particle(r, L=L, mats=mats, env=mats, dev="cpu", legacy=legacy)
        v = r.call(r.ip.getattr(p, "get_material_permittivities"), r.leaf("k0", sh, dev="cpu", unit=-1)) if r.err is None else None
        ctx.saw(r.ip)
        if r.err is not None:
            return ctx.bad(what, "%s: %s" % (r.err.etype, r.err.msg), site=str(r.err.site or ""), func="Particle", kind="fails")
        vs = v if isinstance(v, tuple) else (r.ip.list_items(v) if isinstance(v, Ref) else None)
        if not vs or any(not isinstance(x, T) for x in vs):
            return ctx.und(what, "result not determined")
        # the last one is the environment; the layers come first, stacked or one by one
        lay = [e for x in vs[:-1] for e in x.el]
        cx = mats in ("complex", "const")
        want = [vnm.leaf("m%d" % i, real=not cx) for i in range(L)]
        if legacy and len(lay) == 2 and L == 1:
            want = want * 2
        if len(lay) % len(want):
            return ctx.und(what, "%d values for %d layers" % (len(lay), L))
        rep = len(lay) // len(want)
        for i, e in enumerate(lay):
            same(ctx, what, e, vnm.mul(want[i // rep], want[i // rep]), "get_material_permittivities")
        me = vnm.leaf("menv", real=not cx)
        for e in vs[-1].el:
            same(ctx, what + ": environment", e, vnm.mul(me, me), "get_material_permittivities")
    for mats in ("num", "complex", "const"):
        for legacy in (False, True):
            for sh in ((), ("K",), (2,)):
                for L in (1, 2) if legacy else (1, 2, 3):
                    out.append(("index %s %s %s L=%d" % (mats, legacy, sh, L), lambda c, z=(mats, legacy, sh, L): index(c, *z)))
    return uniq(out)
