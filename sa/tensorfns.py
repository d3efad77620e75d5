"""Torch / NumPy function and method semantics on abstract tensors."""
import cmath as _cm
import itertools
import math as _m
from fractions import Fraction

import vn as vnm
from dom import *
from interp import AbsRaise, MISSING
from tmodel_base import FLOATS, CPLX, INTS, R32, cat_of, promote2, real_of, cplx_of

NUM = (S, bool, int, float, complex)
DT_NAMES = {"float32": "f32", "float": "f32", "float64": "f64", "double": "f64", "complex64": "c64", "cfloat": "c64",
            "complex128": "c128", "cdouble": "c128", "int": "i32", "int32": "i32", "int64": "i64", "long": "i64",
            "int16": "i16", "int8": "i8", "uint8": "u8", "bool": "bool", "float16": "f16", "half": "f16",
            "bool_": "bool", "complex": "c128"}
EPS = {"f64": 2.220446049250313e-16, "f32": 1.1920929e-07, "c128": 2.220446049250313e-16, "c64": 1.1920929e-07, "f16": 1e-3}


def lin_zero(d):
    if dim_unknown(d):
        return False
    n = dim_lin(d)
    return n.is_const and n.c == 0


class Args:
    """positional/keyword argument reader"""

    def __init__(self, args, kw):
        self.a, self.k = list(args), kw

    def get(self, i, name, default=None):
        if isinstance(name, str):
            name = (name,)
        if i is not None and i < len(self.a):
            return self.a[i]
        for n in name:
            if n in self.k:
                return self.k[n]
        return default


def float_dt(dt, np_):
    if dt is None or cat_of(dt) in (2, 3):
        return dt
    return "f64" if np_ else "f32"


class TensorFns:
    def __init__(self, tm):
        self.tm = tm
        self.ip = tm.ip

    # ------------------------------------------------------------ conversion
    def dtype_of(self, v):
        if isinstance(v, Dt):
            return v.d
        if isinstance(v, Ext):
            return {"float": "f64", "int": "i64", "complex": "c128", "bool": "bool"}.get(v.path)
        if isinstance(v, str):
            return DT_NAMES.get(v)
        return None

    def dev_of(self, v):
        """device argument -> name or None when unknown"""
        if isinstance(v, Dev):
            return v.d
        if isinstance(v, str):
            return v
        return None

    def dev_arg(self, A, i=None, default="cpu"):
        v = A.get(i, "device")
        if v is None:
            return default
        return self.dev_of(v)

    def asarr(self, v, np_=True):
        """any array-like -> T or None"""
        if isinstance(v, T):
            return v
        if isinstance(v, NUM):
            k = self.ip.scal_kind(v)
            dt = {"bool": "bool", "int": "i64", "float": "f64", "complex": "c128"}.get(k, "f64")
            if not np_:
                dt = {"f64": "f32", "c128": "c64"}.get(dt, dt)
            t = T((), dt, "cpu", [self.ip.scal_elem(v)], np=np_)
            l = as_lin(v)
            if l is not None:
                t.lin = (l, l)
            return t
        if isinstance(v, (tuple, Ref)):
            r = self.from_list(v, np_)
            return r if isinstance(r, T) else None
        return None

    def need(self, v, what):
        if isinstance(v, T):
            return v
        if isinstance(v, Top):
            return None
        raise AbsRaise("TypeError", "%s(): argument must be Tensor, not %s" % (what, self.ip.tname(v)))

    def from_list(self, v, np_=False):
        """nested sequence -> fresh T (no autograd history)"""
        if isinstance(v, Top):
            return self.tm.fail("array", v)
        if isinstance(v, (T,) + NUM):
            return self.asarr(v, np_)
        items = self.ip.list_items(v)
        if items is None:
            r = self.ip.get(v) if isinstance(v, Ref) else None
            if isinstance(r, HObj) and getattr(r.cls, "path", "") in ("range", "iter"):
                parts = self.ip.iter_parts(v)
                if parts and all(k == "item" for k, _ in parts):
                    items = [x for _, x in parts]
                elif parts and getattr(r.cls, "path", "") == "range" and len(parts) == 1:
                    lo, hi, st = r.attrs["a"]
                    return self.f_arange([lo, hi, st], {}, np_)
            if items is None:
                return self.tm.fail("array", v)
        if isinstance(v, str):
            raise AbsRaise("TypeError", "cannot convert a string to a tensor")
        if not items:
            return T(((Fac("c", 0),),), "f64" if np_ else "f32", "cpu", [], np=np_)
        ts = []
        for x in items:
            if isinstance(x, Seg):
                q = self.from_list(x.val, np_)
                if not isinstance(q, T):
                    return self.tm.fail("array", v)
                ts.append(x.cp(val=q))
            else:
                if isinstance(x, (str, type(None), Ext)):
                    raise AbsRaise("TypeError", "cannot build a tensor from %s" % self.ip.tname(x))
                q = self.from_list(x, np_)
                if not isinstance(q, T):
                    return self.tm.fail("array", v)
                ts.append(q)
        raw = [x for x in items if isinstance(x, T) and x.shape]
        if raw and not np_:
            for x in raw:
                for d in x.shape:
                    if d and not dim_unknown(d):
                        raise AbsRaise("ValueError", "only one element tensors can be converted to Python scalars")
            ts = [q.cp(shape=()) if isinstance(q, T) and q.shape is not None and not any(q.shape) else q for q in ts]
        dt = None
        for q in ts:
            t = q.val if isinstance(q, Seg) else q
            dt = t.dt if dt is None else promote2(dt, t.dt)
        return self.stack_items(ts, 0, dt, "cpu", np_)

    def tensor(self, v, kw, alias=False, args=()):
        """torch.tensor / torch.as_tensor / np.array / np.asarray"""
        A = Args(args, kw)
        dtv = A.get(0, "dtype")
        dt = self.dtype_of(dtv) if dtv is not None else None
        if dtv is not None and dt is None:
            return self.tm.fail("dtype", v)
        devv = A.get(1, "device")
        if isinstance(v, Top):
            return self.tm.fail("tensor", v)
        if isinstance(v, T):
            if alias:
                r = v
                if v.np:
                    r = v.cp(np=False)
                    r.view = True
                return self.convert(r, dt, devv, keep=True)
            r = self.detached(v, "torch.tensor() copy")
            r = r.cp(sid=None, np=False, leafs=EMPTY, view=False, expd=False)
            return self.convert(r, dt, devv)
        t = self.from_list(v)
        if not isinstance(t, T):
            return t
        if any(e.live for e in t.el) or (t.pre and any(e.live for r in t.pre for e in r)):
            t = self.detached(t, "rebuilding a tensor from Python scalars or a list")
        dev = self.dev_of(devv) if devv is not None else "cpu"
        if dt is not None and dt != t.dt:
            t = self.convert(t, dt, None)
        return self.tm.mk(t.shape, t.dt, dev, list(t.el), pre=t.pre, lin=t.lin)

    def detached(self, t, why):
        def f(e):
            return e.cp(live=EMPTY, dead=e.dead | frozenset((l, why + " in " + self.ip.func()) for l in e.live)) if e.live else e
        r = t.cp(el=[f(e) for e in t.el], pre=[[f(e) for e in q] for q in t.pre] if t.pre else None)
        return r

    def convert(self, t, dt, devv, keep=False):
        """.to()"""
        tm = self.tm
        dev = t.dev
        if devv is not None:
            dev = self.dev_of(devv)
        if dt is None:
            dt = t.dt
        if dt == t.dt and dev == t.dev:
            return t
        els = list(t.el)
        pre = t.pre
        if dt != t.dt:
            c0, c1 = cat_of(t.dt), cat_of(dt)
            if c0 == 3 and c1 == 2 and any(not e.v.real for e in els):
                self.ip.emit("cplxcast", "casts complex values to real")

            def f(e):
                if e.const is not None and not isinstance(e.const, complex) and c1 is not None and c1 <= 1:
                    try:
                        return const_elem(bool(e.const) if dt == "bool" else int(e.const))
                    except (OverflowError, ValueError):
                        pass
                if c1 is not None and c1 <= 1 and c0 is not None and c0 >= 2:
                    v = vnm.fnr("nz" if dt == "bool" else "int", e.v)
                    return Elem(v, EMPTY, e.dead | frozenset((l, "integer cast") for l in e.live), e.mix, 0, EMPTY, True)
                if dt == "bool":
                    return Elem(vnm.fnr("nz", e.v), EMPTY, EMPTY, e.mix, 0, EMPTY, True)
                if c1 == 2 and c0 == 3:
                    return e.cp(v=vnm.re(e.v), const=None)
                return e
            els = [f(e) for e in els]
            pre = [[f(e) for e in r] for r in pre] if pre else None
        return tm.mk(t.shape, dt, dev, els, np=t.np, pre=pre, lin=t.lin, idx_of=t.idx_of)

    # ------------------------------------------------------------ attributes
    def attr(self, t, name):
        tm = self.tm
        if name == "shape":
            if t.shape is None:
                return Top("shape", vnm.bag("shape", self.ip.val_vn(t)))
            return tuple(lin_val(dim_lin(d)) for d in t.shape)
        if name in ("ndim",):
            return t.ndim if t.shape is not None else Top("ndim")
        if name == "dtype":
            return Dt(t.dt) if t.dt is not None else Top("dtype")
        if name == "device":
            return Dev("cpu" if t.dev == "any" else t.dev) if t.dev is not None else Top("device")
        if name == "real":
            if cat_of(t.dt) != 3 and t.dt is not None:
                return t
            r = tm.elementwise([t], lambda c: c[0].cp(v=vnm.re(c[0].v), const=None), real_of(t.dt), "real")
            return r.cp(sid=t.sid, view=True, leafs=t.leafs, np=t.np)
        if name == "imag":
            if cat_of(t.dt) != 3 and t.dt is not None:
                if t.np:
                    return tm.elementwise([t], lambda c: const_elem(0.0), t.dt, "imag")
                raise AbsRaise("RuntimeError", "imag is not implemented for tensors with non-complex dtypes")
            r = tm.elementwise([t], lambda c: c[0].cp(v=vnm.im(c[0].v), const=None), real_of(t.dt), "imag")
            return r.cp(sid=t.sid, view=True, leafs=t.leafs, np=t.np)
        if name in ("T", "mT", "H", "mH"):
            if t.shape is None:
                return tm.fail("T", t)
            r = self.permute(t, list(range(len(t.shape)))[::-1]) if name in ("T", "H") else self.f_transpose([t, -1, -2], {})
            if name in ("H", "mH"):
                r = self.f_conj([r], {})
            return r
        if name == "data":
            return self.detached(t, ".data")
        if name == "requires_grad":
            if t.np:
                raise AbsRaise("AttributeError", "'numpy.ndarray' object has no attribute 'requires_grad'")
            return bool(any(e.live for e in t.el))
        if name == "is_leaf":
            return bool(t.leafs) or not any(e.live for e in t.el)
        if name == "grad":
            return Top("grad", vnm.bag("grad", self.ip.val_vn(t)))
        if name == "is_cuda":
            return Top("is_cuda")
        if name == "size" and t.np:
            return self.numel(t)
        if name in ("itemsize", "nbytes", "strides", "layout", "grad_fn", "flat", "base"):
            return Top(name)
        if name.startswith("__"):
            return Top(name)
        if getattr(self, "f_" + name, None) is None and getattr(self, "m_" + name, None) is None and not name.endswith("_") and \
                name not in UN and name not in BIN:
            import_names = TENSOR_METHODS
            if name not in import_names:
                raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'" % ("numpy.ndarray" if t.np else "Tensor", name))
        if t.np and name in NOT_NP:
            raise AbsRaise("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
        return Meth(t, name)

    def numel(self, t):
        if t.shape is None:
            return Top("numel")
        d = tuple(f for x in t.shape for f in x)
        return lin_val(dim_lin(d))

    # ------------------------------------------------------------ dispatch
    def method(self, t, name, args, kw):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return m(t, args, kw)
        if name.endswith("_") and not name.startswith("_"):
            if name in ("requires_grad_", "retain_grad_"):
                return t
            if name == "copy_":
                src = args[0]
                self.tm.setitem(t, (Ext("Ellipsis"),), src)
                return self.find_tid(t)
            if name in ("zero_", "fill_"):
                val = 0.0 if name == "zero_" else args[0]
                self.tm.setitem(t, (Ext("Ellipsis"),), val)
                return self.find_tid(t)
            base = name[:-1]
            r = self.call(base, [t] + list(args), kw)
            if isinstance(r, T):
                return self.tm.inplace(t, r, "." + name + "()")
            self.tm.write(t, "." + name + "()")
            return r
        return self.call(name, [t] + list(args), kw, t.np)

    def find_tid(self, t):
        for fr in self.ip.st.frames.values():
            for v in fr.values():
                if isinstance(v, T) and v.tid == t.tid:
                    return v
        return t

    def call(self, name, args, kw, np_=False):
        kw = dict(kw)
        out = kw.pop("out", None)
        if np_:
            args = list(args)
            if args and name not in ("concatenate", "stack", "array", "asarray", "zeros", "ones", "arange", "linspace", "full", "empty",
                                     "hstack", "vstack", "where", "column_stack", "errstate", "isscalar", "meshgrid", "eye", "float64", "float32"):
                if not isinstance(args[0], T):
                    a = self.asarr(args[0])
                    if a is None and isinstance(args[0], Top):
                        return self.tm.fail("np." + name, *args)
                    if a is not None:
                        args[0] = a
        r = self._call(name, args, kw, np_)
        if out is not None and isinstance(out, T) and isinstance(r, T):
            r = self.tm.inplace(out, r, "out=")
        return r

    def _call(self, name, args, kw, np_):
        if name in UN:
            if not args:
                a0 = kw.get("input", kw.get("x"))
            else:
                a0 = args[0]
            if np_ and not isinstance(a0, T):
                a0 = self.asarr(a0)
            a0 = self.need(a0, name)
            if a0 is None:
                return self.tm.fail(name, *args)
            return self.unary(name, a0)
        if name in BIN:
            a = list(args)
            if len(a) < 2:
                a = a + [kw[k] for k in ("other", "exponent", "input") if k in kw]
            if len(a) < 2:
                raise AbsRaise("TypeError", "%s() missing arguments" % name)
            alpha = kw.get("alpha")
            if any(isinstance(x, Top) for x in a[:2]):
                return self.tm.fail(name, *a)
            if np_:
                a = [x if isinstance(x, (T,) + NUM) else self.asarr(x) for x in a]
                if a[0] is None or a[1] is None:
                    return self.tm.fail(name)
            if alpha is not None:
                a[1] = self.ip.binop("Mult", a[1], alpha)
            k = BIN[name]
            if k in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
                return self.tm.compare(k, a[0], a[1])
            if k == "NOT_AND":
                pass
            if k in ("And", "Or", "Xor"):
                b = [self.as_bool(x) for x in a[:2]]
                return self.tm.logical({"And": "BitAnd", "Or": "BitOr", "Xor": "BitXor"}[k], *b)
            if not isinstance(a[0], T) and not isinstance(a[1], T) and not np_:
                raise AbsRaise("TypeError", "%s(): argument must be Tensor" % name)
            return self.ip.binop(k, a[0], a[1])
        f = getattr(self, "f_" + name, None)
        if f is None:
            u = self.ip.unmodelled
            u["torch." + name] = u.get("torch." + name, 0) + 1
            return self.tm.fail(name, *args, *kw.values())
        if np_ and name in NPAWARE:
            return f(args, kw, np_=True)
        for x in list(args[:1]):
            if isinstance(x, Top):
                return self.tm.fail(name, *args)
            if isinstance(x, T) and x.shape is None and name not in SHAPELESS:
                return self.tm.fail(name, *args)
        return f(args, kw)

    def as_bool(self, x):
        t = self.tm.wrap(x)
        if t.dt == "bool":
            return t
        return self.tm.elementwise([t], lambda c: Elem(vnm.fnr("nz", c[0].v), mix=c[0].mix, exact=True), "bool", "bool")

    # ------------------------------------------------------------ unary
    def unary(self, name, t):
        fv, unit, save, dtk, dead = UN[name]
        tm = self.tm
        dt = t.dt
        if dtk == "real":
            dt = real_of(dt)
        elif dtk == "float":
            dt = float_dt(dt, t.np)
        elif dtk == "bool":
            dt = "bool"
        live = tm.islive(t)
        if live and save == "self":
            tm.save(t, name)

        def f(c):
            e = c[0]
            if unit == "same":
                u = e.unit
                if name in ROUNDS and e.const is None:
                    tm.u_zero(e, "the %s" % name)
            elif unit == "half":
                u = e.unit if e.unit in (POLY, UNK) else e.unit / 2
                if u not in (POLY, UNK) and u == int(u):
                    u = int(u)
            elif unit == "inv":
                u = e.unit if e.unit in (POLY, UNK) else -e.unit
            elif unit == "dbl":
                u = e.unit if e.unit in (POLY, UNK) else 2 * e.unit
            elif unit == "zero":
                u = tm.u_zero(e, "the %s" % name)
            elif unit == "none":
                u = 0
            else:
                u = UNK if e.unit not in (0, POLY) else 0
            r = tm.merge([e], fv(e.v), u, exact=e.exact and name in ("abs", "conj", "neg", "negative", "positive", "square", "absolute", "sign"))
            if e.const is not None and name in CONSTF:
                try:
                    r2 = const_elem(CONSTF[name](e.const))
                    r2.v = r.v if name not in ("abs", "neg", "absolute", "negative") else r2.v
                    return r2
                except Exception:
                    pass
            if dtk == "bool":
                return Elem(r.v, EMPTY, EMPTY, e.mix, 0, EMPTY, True)
            if dead:
                r = r.cp(live=EMPTY, dead=e.dead | frozenset((l, name) for l in e.live))
            return r
        r = tm.elementwise([t], f, dt, name)
        if name in ("neg", "negative") and t.lin is not None:
            r.lin = (-t.lin[1], -t.lin[0])
        if live and save == "result":
            tm.save(r, name)
        return r

    # ------------------------------------------------------------ helpers on layout
    def axis(self, t, d, n=None):
        n = len(t.shape) if n is None else n
        if isinstance(d, T):
            d = self.tm.as_index(d)
        if isinstance(d, S) and d.lin is not None and d.lin.is_const:
            d = d.lin.c
        if not isinstance(d, int):
            return None
        if not -max(n, 1) <= d < max(n, 1):
            raise AbsRaise("IndexError", "Dimension out of range (got %d for a tensor of %d dimensions)" % (d, n))
        return d % max(n, 1)

    def view(self, t, shape, els=None, pre=None, expd=None, keep=True):
        r = self.view_(t, shape, els, pre, expd, keep)
        if t.pos is not None and keep:
            a = [(d, q) for d, q in zip(t.shape, t.pos) if d]
            b = [d for d in r.shape or () if d]
            if len(a) == len(b) and all(self.tm.dim_eq(x[0], y) for x, y in zip(a, b)):
                it = iter(a)
                r.pos = tuple(next(it)[1] if d else None for d in r.shape)
        return r

    def stacked(self, t, out):
        """can the dims of `out` be laid over the memory of t without a copy?"""
        src = [(f, i) for i, d in enumerate(t.shape) for f in d]
        live = [q for d, q in zip(t.shape, t.pos) if d]
        k = 0
        for d in out:
            ds = []
            for f in d:
                size = f.n if f.k == "c" else None
                while True:
                    if k >= len(src):
                        return True
                    g, i = src[k]
                    if i not in ds:
                        ds.append(i)
                    if size is not None and g.k == "c" and g.n > size:
                        return True             # a split: not followed further
                    k += 1
                    if size is None or g.k != "c" or g.n == size:
                        break
                    size //= g.n
            for a, b in zip(ds, ds[1:]):
                pa, pb = t.pos[a], t.pos[b]
                if pa == "x" and pb == "x":
                    continue
                if pa == "x" or pb == "x" or not isinstance(pa, int) or not isinstance(pb, int):
                    return not ("x" in (pa, pb))
                if not any(isinstance(q, int) and pa < q < pb for q in live) and pa < pb:
                    continue
                return False
        return True

    def view_(self, t, shape, els=None, pre=None, expd=None, keep=True):
        return T(shape, t.dt, t.dev, list(t.el) if els is None else els, sid=t.sid if keep else None, np=t.np, view=True if keep else False,
                 expd=(t.expd if expd is None else expd) and keep, leafs=t.leafs if keep else EMPTY, lin=t.lin, pre=pre,
                 idx_of=None)

    def permute(self, t, order):
        shape = t.shape
        ns = tuple(shape[i] for i in order)
        csz = [self.tm.csizes(d) for d in shape]

        def perm(els):
            if len(els) <= 1:
                return list(els)
            strides = [0] * len(csz)
            s = 1
            for i in range(len(csz) - 1, -1, -1):
                strides[i] = s
                s *= csz[i]
            if s != len(els):
                return [summ(els)]
            pos = [0]
            for i in order:
                pos = [o + k * strides[i] for o in pos for k in range(csz[i])]
            return [els[p] for p in pos]
        pre = [perm(r) for r in t.pre] if t.pre else None
        r = self.view_(t, ns, perm(t.el), pre)
        pos = tuple((t.pos or range(len(shape)))[i] for i in order)
        mine = [q for d, q in zip(ns, pos) if d]
        if r.shape is not None and mine != sorted(q for q in mine if isinstance(q, int)):
            r.pos = pos
        return r

    def f_permute(self, args, kw):
        t = args[0]
        dims = args[1:] if len(args) != 2 or isinstance(args[1], int) else (self.ip.list_items(args[1]) or [])
        if not dims and "dims" in kw:
            dims = self.ip.list_items(kw["dims"])
        if len(dims) != len(t.shape):
            raise AbsRaise("RuntimeError", "permute: number of dims does not match")
        return self.permute(t, [self.axis(t, d) for d in dims])

    def f_transpose(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        if t.np and not args[1:]:
            return self.permute(t, list(range(len(t.shape)))[::-1])
        a, b = self.axis(t, A.get(0, "dim0")), self.axis(t, A.get(1, "dim1"))
        o = list(range(len(t.shape)))
        o[a], o[b] = o[b], o[a]
        return self.permute(t, o)

    f_swapaxes = f_transpose
    f_swapdims = f_transpose

    def f_t(self, args, kw):
        return self.permute(args[0], list(range(len(args[0].shape)))[::-1])

    def f_moveaxis(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        s, d = A.get(0, ("source",)), A.get(1, ("destination",))
        ls = [s] if isinstance(s, int) else self.ip.list_items(s)
        ld = [d] if isinstance(d, int) else self.ip.list_items(d)
        ls = [self.axis(t, x) for x in ls]
        ld = [self.axis(t, x) for x in ld]
        rest = [i for i in range(len(t.shape)) if i not in ls]
        o = [None] * len(t.shape)
        for a, b in zip(ls, ld):
            o[b] = a
        it = iter(rest)
        o = [x if x is not None else next(it) for x in o]
        return self.permute(t, o)

    f_movedim = f_moveaxis

    def f_unsqueeze(self, args, kw):
        t = args[0]
        d = Args(args[1:], kw).get(0, ("dim", "axis"))
        a = self.axis(t, d, len(t.shape) + 1)
        if a is None:
            return self.tm.fail("unsqueeze", t)
        return self.view(t, t.shape[:a] + ((),) + t.shape[a:], pre=t.pre)

    f_expand_dims = f_unsqueeze

    def f_squeeze(self, args, kw):
        t = args[0]
        d = Args(args[1:], kw).get(0, ("dim", "axis"))
        if d is None:
            if any(dim_unknown(x) for x in t.shape):
                return self.view(t, tuple(x for x in t.shape if x), pre=t.pre)
            return self.view(t, tuple(x for x in t.shape if x), pre=t.pre)
        ds = [d] if not isinstance(d, tuple) and not isinstance(d, Ref) else self.ip.list_items(d)
        ds = [self.axis(t, x) for x in ds]
        return self.view(t, tuple(x for i, x in enumerate(t.shape) if i not in ds or x), pre=t.pre)

    def f_flatten(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        s = A.get(0, "start_dim", 0)
        e = A.get(1, "end_dim", -1)
        if not t.shape:
            return self.view(t, ((),))
        s, e = self.axis(t, s), self.axis(t, e)
        return self.view(t, t.shape[:s] + (tuple(f for d in t.shape[s:e + 1] for f in d),) + t.shape[e + 1:], pre=t.pre)

    def f_ravel(self, args, kw):
        return self.f_flatten([args[0]], {})

    def size_args(self, args):
        if len(args) == 1 and not isinstance(args[0], NUM) and not isinstance(args[0], T):
            r = self.ip.list_items(args[0])
            return r
        return list(args)

    def f_reshape(self, args, kw):
        t = args[0]
        rest = args[1:]
        if not rest and "shape" in kw:
            rest = [kw["shape"]]
        if len(rest) == 1 and isinstance(rest[0], Dt):
            return self.tm.fail("view", t)
        sizes = self.size_args(rest)
        if sizes is None or any(isinstance(s, Top) for s in sizes):
            return self.tm.fail("reshape", t)
        sizes = [self.tm.as_index(s) if isinstance(s, T) else s for s in sizes]
        ls = [as_lin(s) for s in sizes]
        if any(l is None for l in ls):
            raise AbsRaise("TypeError", "reshape(): sizes must be integers")
        return self.reshape(t, ls)

    def f_view(self, args, kw):
        t = args[0]
        r = self.f_reshape(args, kw)
        if t.pos is not None and not t.np and isinstance(r, T) and r.shape is not None and not any(dim_unknown(d) for d in r.shape + t.shape):
            if not self.stacked(t, r.shape):
                raise AbsRaise("RuntimeError", "view size is not compatible with input tensor's size and stride (at least one dimension spans across two contiguous subspaces)")
        return r

    def f_view_as(self, args, kw):
        o = args[1]
        if not isinstance(o, T) or o.shape is None:
            return self.tm.fail("view_as", args[0])
        return self.reshape(args[0], [dim_lin(d) for d in o.shape])

    f_reshape_as = f_view_as

    def reshape(self, t, ls):
        facs = [f for d in t.shape for f in d]
        # target dims, consuming factors in order
        out = []
        i = 0
        k = [Fac(f.k, f.n, f.start, f.base) for f in facs]
        neg1 = [j for j, l in enumerate(ls) if l == -1]

        def take(l):
            """consume factors of total length l; None if impossible"""
            nonlocal i
            if l == 1:
                return ()
            got = ()
            while True:
                if got and dim_lin(got) == l:
                    # trailing marker factors belong to their factors
                    return got
                if i >= len(k):
                    return None
                f = k[i]
                if l.is_const:
                    cur = 1
                    for g in got:
                        cur *= g.n
                    if f.k != "c":
                        return None
                    need = l.c // cur if l.c % cur == 0 else None
                    if need is None:
                        return None
                    if f.n <= need:
                        got += (f,)
                        i += 1
                        continue
                    if f.n % need == 0:
                        got += (Fac("c", need),)
                        k[i] = Fac("c", f.n // need)
                        continue
                    return None
                got += (f,)
                i += 1
                if len(got) > 8:
                    return None
        if t.shape is None:
            return self.tm.fail("reshape", t)
        if len(neg1) > 1:
            raise AbsRaise("RuntimeError", "only one dimension can be inferred")
        ok = True
        if neg1:
            j = neg1[0]
            head = []
            for l in ls[:j]:
                d = take(l)
                if d is None:
                    ok = False
                    break
                head.append(d)
            if ok:
                # consume the tail from the back
                rem = k[i:]
                tail = []
                for l in reversed(ls[j + 1:]):
                    if l == 1:
                        tail.insert(0, ())
                        continue
                    got = ()
                    hit = False
                    while rem:
                        f = rem[-1]
                        if l.is_const:
                            cur = 1
                            for g in got:
                                cur *= g.n
                            need = l.c // cur if l.c % cur == 0 else None
                            if f.k != "c" or need is None:
                                break
                            if f.n > need and f.n % need == 0:
                                got = (Fac("c", need),) + got
                                rem[-1] = Fac("c", f.n // need)
                            elif f.n <= need:
                                got = (f,) + got
                                rem.pop()
                            else:
                                break
                        else:
                            got = (f,) + got
                            rem.pop()
                        if dim_lin(got) == l:
                            hit = True
                            break
                    if not hit:
                        ok = False
                        break
                    tail.insert(0, got)
                if ok:
                    out = head + [tuple(rem)] + tail
        else:
            for l in ls:
                d = take(l)
                if d is None:
                    ok = False
                    break
                out.append(d)
            if ok and i < len(k):
                ok = False
        if ok:
            return self.view(t, tuple(out), pre=t.pre)
        # sizes do not line up: are they the same multiset?
        unknown = any(f.k == "u" for f in facs) or any(not self.tm_known(l) for l in ls)
        if not unknown:
            src = sorted(repr(f.n) for f in facs if f.k != "c")
            tgt = []
            for l in ls:
                if not l.is_const:
                    nm = l.t[0][0] if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 else None
                    if nm is None:
                        unknown = True          # 2*P etc.: may equal a product of other sizes
                    tgt += [repr(f.n) for f in PRODDIM[nm]] if nm in PRODDIM else [repr(l)]
            cs = ct = 1
            for f in facs:
                if f.k == "c":
                    cs *= f.n
            for l in ls:
                if l.is_const and l.c != -1:
                    ct *= l.c
            tgt = sorted(x for x in tgt if not x.isdigit())
            if not neg1 and src != tgt and not unknown:
                raise AbsRaise("RuntimeError", "shape '%s' is invalid for input of shape %s" % (ls, show(t.shape)))
            if not neg1 and src == tgt and cs != ct:
                raise AbsRaise("RuntimeError", "shape '%s' is invalid for input of shape %s" % (ls, show(t.shape)))
            ax = frozenset().union(*[f.batch() for f in facs]) if facs else EMPTY
            if ax:
                self.ip.emit("axismix", "reshapes %s to (%s), which reinterprets the batch axes" % (show(t.shape), ", ".join(map(repr, ls))))
        e = summ(t.el)
        e = e.cp(v=vnm.bag("reshape", e.v, repr(ls)), const=None, mix=e.mix | frozenset().union(*[f.batch() for f in facs]) if facs else e.mix)
        shp = tuple(ldim(l) if not l == -1 else udim() for l in ls)
        if nels(shp) > MAXEL:
            shp = tuple(udim() for _ in ls)
        return T(shp, t.dt, t.dev, [e] * max(1, nels(shp)), sid=t.sid, np=t.np, view=True)

    def tm_known(self, l):
        from tmodel import known
        return all(all(known(Lin({p: 1})) for p in kk.replace("(", "").replace(")", "").split("*")) for kk, _ in l.t)

    def f_expand(self, args, kw):
        t = args[0]
        sizes = self.size_args(args[1:] or [kw.get("size", kw.get("shape"))])
        return self.broadcast(t, sizes)

    def f_broadcast_to(self, args, kw):
        return self.f_expand(args, kw)

    def f_expand_as(self, args, kw):
        o = args[1]
        if not isinstance(o, T) or o.shape is None:
            return self.tm.fail("expand_as", args[0])
        return self.broadcast_shape(args[0], o.shape)

    def broadcast(self, t, sizes):
        if sizes is None or any(isinstance(s, Top) for s in sizes):
            return self.tm.fail("expand", t)
        sizes = [self.tm.as_index(s) if isinstance(s, T) else s for s in sizes]
        tgt = []
        off = len(sizes) - len(t.shape)
        if off < 0:
            raise AbsRaise("RuntimeError", "expand: the number of sizes must be greater or equal to the number of dimensions")
        for i, s in enumerate(sizes):
            l = as_lin(s)
            if l is None:
                raise AbsRaise("TypeError", "expand sizes must be integers")
            if l == -1:
                if i < off:
                    raise AbsRaise("RuntimeError", "expand: -1 not allowed in a leading dimension")
                tgt.append(t.shape[i - off])
                continue
            d = ldim(l)
            if i >= off and t.shape[i - off]:
                src = t.shape[i - off]
                if dim_lin(src) == l:
                    d = src
                elif not dim_unknown(src) and (self.tm.differs(dim_lin(src), l) or l == 1):
                    raise AbsRaise("RuntimeError", "The expanded size (%r) must match the existing size (%r)" % (l, dim_lin(src)))
            tgt.append(d)
        return self.broadcast_shape(t, tuple(tgt))

    def broadcast_shape(self, t, shape):
        tm = self.tm
        out = []
        off = len(shape) - len(t.shape)
        grew = off > 0 and any(shape[:off])
        for i, d in enumerate(shape):
            if i >= off:
                s = t.shape[i - off]
                if s:
                    if not tm.dim_eq(s, d) and not dim_unknown(s) and not dim_unknown(d) and (not d or tm.differs(dim_lin(s), dim_lin(d))):
                        raise AbsRaise("RuntimeError", "cannot broadcast %s to %s" % (show(t.shape), show(shape)))
                    d = s
                elif d:
                    grew = True
            out.append(d)
        out = tuple(out)
        els = tm.expand_els(t, out)
        pre = None
        if t.pre:
            pre = [tm.pre_els(t, p, out) for p in range(len(t.pre))]
        r = self.view_(t, out, els, pre, expd=t.expd or grew)
        if r.shape is not None and grew:
            r.pos = tuple("x" if d and (i < off or not t.shape[i - off]) else (t.pos or range(len(t.shape)))[i - off] if i >= off else None for i, d in enumerate(out))
        elif r.shape is not None and t.pos is not None:
            r.pos = (None,) * off + tuple(t.pos)
        return r

    def f_broadcast_tensors(self, args, kw):
        sh = self.tm.bshape([a.shape for a in args])
        if sh is None:
            return tuple(self.tm.fail("broadcast", a) for a in args)
        return tuple(self.broadcast_shape(a, sh) for a in args)

    def f_atleast_1d(self, args, kw):
        if len(args) > 1:
            return tuple(self.f_atleast_1d([a], {}) for a in args)
        t = args[0]
        if isinstance(t, NUM):
            raise AbsRaise("TypeError", "atleast_1d(): argument must be tensor, not %s" % self.ip.tname(t))
        if t.shape == ():
            return self.view(t, ((),))
        return t

    def f_atleast_2d(self, args, kw):
        t = args[0]
        if len(t.shape) >= 2:
            return t
        return self.view(t, ((),) * (2 - len(t.shape)) + t.shape, pre=t.pre)

    def f_repeat(self, args, kw):
        t = args[0]
        if t.np:
            return self.tm.fail("repeat", *args)
        sizes = self.size_args(args[1:])
        if sizes is None or any(isinstance(s, Top) for s in sizes):
            return self.tm.fail("repeat", t)
        out = t
        if len(sizes) > len(t.shape):
            out = self.view(t, ((),) * (len(sizes) - len(t.shape)) + t.shape, pre=t.pre)
        shape = []
        for d, s in zip(out.shape, sizes):
            l = as_lin(s)
            if l is None:
                return self.tm.fail("repeat", t)
            if l == 1:
                shape.append(d)
            elif not d:
                shape.append(ldim(l))
            else:
                shape.append(ldim(l) + d)
        # leading repetition factors broadcast
        els = []
        probe = []
        for d, nd in zip(out.shape, shape):
            probe.append((d, nd))
        els = list(out.el)
        pos = [0]
        for d, nd in probe:
            c, cn = self.tm.csizes(d), self.tm.csizes(nd)
            pos = [o * c + (k % c) for o in pos for k in range(cn)]
        if len(els) > 1:
            els = [els[p] for p in pos]
        else:
            els = els * max(1, len(pos))
        if nels(tuple(shape)) > MAXEL:
            els = [summ(out.el)]
        return self.tm.mk(tuple(shape), t.dt, t.dev, els, np=t.np)

    f_tile = f_repeat

    def f_flip(self, args, kw):
        t = args[0]
        dims = self.size_args(args[1:] or [kw.get("dims", kw.get("axis"))])
        if dims is None or any(d is None for d in dims):
            dims = list(range(len(t.shape)))
        r = t
        for d in dims:
            a = self.axis(t, d)
            r = self.tm.apply_plan(r, [("flip", i) if i == a else ("all", i) for i in range(len(t.shape))])
        return r.cp(sid=None, view=False, expd=False, leafs=EMPTY)

    def f_unbind(self, args, kw):
        t = args[0]
        a = self.axis(t, Args(args[1:], kw).get(0, ("dim", "axis"), 0))
        n = dim_lin(t.shape[a])
        if not n.is_const:
            return self.ip.new_list([Seg(n, self.tm.fail("unbind", t), t.shape[a])]) if False else self.tm.fail("unbind", t)
        full = [("all", i) for i in range(len(t.shape))]
        out = []
        for i in range(n.c):
            p = list(full)
            p[a] = self.tm.plan_int(a, t.shape[a], i)
            out.append(self.tm.apply_plan(t, p))
        return tuple(out)

    def f_chunk(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        k = A.get(0, "chunks")
        a = self.axis(t, A.get(1, ("dim",), 0))
        n = dim_lin(t.shape[a])
        if not n.is_const or not isinstance(k, int):
            return self.tm.fail("chunk", t)
        sz = -(-n.c // k)
        return self.split_at(t, a, [min(sz, n.c - i) for i in range(0, n.c, sz)])

    def f_split(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        k = A.get(0, ("split_size_or_sections", "split_size"))
        a = self.axis(t, A.get(1, ("dim",), 0))
        n = dim_lin(t.shape[a])
        if not n.is_const:
            return self.tm.fail("split", t)
        if isinstance(k, int):
            szs = [min(k, n.c - i) for i in range(0, n.c, k)]
        else:
            szs = self.ip.list_items(k)
        return self.split_at(t, a, szs)

    def split_at(self, t, a, szs):
        out = []
        o = 0
        for s in szs:
            p = [("all", i) for i in range(len(t.shape))]
            p[a] = self.tm.plan_slice(t, a, t.shape[a], slice(o, o + s))
            out.append(self.tm.apply_plan(t, p))
            o += s
        return tuple(out)

    def f_narrow(self, args, kw):
        t, d, s, l = (list(args) + [None] * 4)[:4]
        a = self.axis(t, d)
        p = [("all", i) for i in range(len(t.shape))]
        p[a] = self.tm.plan_slice(t, a, t.shape[a], slice(s, self.ip.binop("Add", s, l)))
        return self.tm.apply_plan(t, p)

    def f_select(self, args, kw):
        t = args[0]
        a = self.axis(t, args[1])
        p = [("all", i) for i in range(len(t.shape))]
        p[a] = self.tm.plan_int(a, t.shape[a], args[2])
        return self.tm.apply_plan(t, p)

    def f_index_select(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        a = self.axis(t, A.get(0, "dim"))
        ix = A.get(1, "index")
        return self.tm.getitem(t, (slice(None),) * a + (ix,))

    def f_take(self, args, kw):
        return self.tm.getitem(self.f_flatten([args[0]], {}), args[1])

    def f_gather(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        a = self.axis(t, A.get(0, "dim"))
        ix = A.get(1, "index")
        if not isinstance(ix, T):
            return self.tm.fail("gather", *args)
        ax = frozenset().union(*[f.batch() for f in t.shape[a]]) if t.shape[a] else EMPTY
        src, ie = summ(t.el), summ(ix.el)
        e = src.cp(v=vnm.fn("gather", src.v, ie.v), mix=src.mix | ax | ie.mix, const=None)
        return self.tm.mk(ix.shape, t.dt, t.dev, [e] * max(1, nels(ix.shape)) if ix.shape is not None else [e])

    def f_take_along_axis(self, args, kw):
        A = Args(args[1:], kw)
        return self.f_gather([args[0], A.get(1, ("axis", "dim")), A.get(0, "indices")], {})

    f_take_along_dim = f_take_along_axis

    # ------------------------------------------------------------ stacking
    def f_stack(self, args, kw, np_=False):
        A = Args(args, kw)
        seq = A.get(0, ("tensors", "arrays"))
        d = A.get(1, ("dim", "axis"), 0)
        items = self.ip.list_items(seq)
        if items is None and not isinstance(seq, Top):
            parts = self.ip.iter_parts(seq)
            if parts and all(k == "item" for k, _ in parts):
                items = [x for _, x in parts]
        if items is None:
            return self.tm.fail("stack", seq)
        if not items:
            raise AbsRaise("RuntimeError", "stack expects a non-empty TensorList")
        ts = []
        for x in items:
            v = x.val if isinstance(x, Seg) else x
            if np_:
                v = self.asarr(v)
            if isinstance(v, Top) or v is None and np_:
                return self.tm.fail("stack", *[y.val if isinstance(y, Seg) else y for y in items])
            if not isinstance(v, T):
                raise AbsRaise("TypeError", "expected Tensor as element of stack, but got %s" % self.ip.tname(v))
            ts.append(x.cp(val=v) if isinstance(x, Seg) else v)
        vals = [x.val if isinstance(x, Seg) else x for x in ts]
        if any(v.shape is None for v in vals):
            return self.tm.fail("stack", *vals)
        dt = self.cat_dt(vals)
        dev = self.tm.device(vals, "stack", strict=True)
        nd = len(vals[0].shape) + 1
        d = self.axis(vals[0], d, nd)
        r = self.stack_items(ts, d, dt, dev, np_ or all(v.np for v in vals))
        return self.tm.const_order(r, d) if any(isinstance(x, Seg) for x in ts) else r

    def cat_dt(self, vals):
        dt = vals[0].dt
        for v in vals[1:]:
            dt = promote2(dt, v.dt)
        return dt

    def common_shape(self, vals, what):
        tm = self.tm
        base = list(vals[0].shape)
        for v in vals[1:]:
            if len(v.shape) != len(base):
                raise AbsRaise("RuntimeError", "%s expects each tensor to be equal size, got %s and %s" % (what, show(vals[0].shape), show(v.shape)))
            for i, (x, y) in enumerate(zip(base, v.shape)):
                if tm.dim_eq(x, y):
                    continue
                if dim_unknown(x) or dim_unknown(y):
                    if dim_unknown(x):
                        base[i] = y
                    continue
                if not x or not y or tm.differs(dim_lin(x), dim_lin(y)):
                    raise AbsRaise("RuntimeError", "%s expects each tensor to be equal size, got %s and %s" % (what, show(tuple(base)), show(v.shape)))
        return tuple(base)

    def stack_items(self, ts, d, dt, dev, np_):
        """ts: list of T / Seg of T"""
        tm = self.tm
        vals = [x.val if isinstance(x, Seg) else x for x in ts]
        sh = self.common_shape(vals, "stack")
        segs = [x for x in ts if isinstance(x, Seg)]
        csz = [tm.csizes(x) for x in sh]
        before = 1
        for c in csz[:d]:
            before *= c
        after = 1
        for c in csz[d:]:
            after *= c

        def els_of(v):
            e = tm.expand_els(v, sh)
            return e if len(e) == before * after else [summ(e)] * (before * after)
        if not segs:
            n = len(ts)
            nsh = sh[:d] + (cdim(n),) + sh[d:]
            if before * after * n > MAXEL:
                e = summ([summ(els_of(v)) for v in vals])
                return tm.mk(tuple(udim() if any(f.k == "c" for f in q) else q for q in nsh), dt, dev, [e], np=np_)
            cols = [els_of(v) for v in vals]
            els = [cols[j][b * after + a] for b in range(before) for j in range(n) for a in range(after)]
            pre = None
            if any(v.pre for v in vals):
                m = max(len(v.pre) for v in vals if v.pre)
                pre = []
                for p in range(m):
                    pc = [tm.pre_els(v, p, sh) for v in vals]
                    pc = [c if len(c) == before * after else [summ(c)] * (before * after) for c in pc]
                    pre.append([pc[j][b * after + a] for b in range(before) for j in range(n) for a in range(after)])
            lin = None
            if n == 1 and vals[0].lin is not None:
                lin = vals[0].lin
            return tm.mk(nsh, dt, dev, els, np=np_, pre=pre, lin=lin)
        # symbolic segments
        tot = Lin((), 0)
        for x in ts:
            tot = tot + (x.n if isinstance(x, Seg) else 1)
        s = segs[0]
        batch = s.fac is not None
        if len(segs) == 1 and isinstance(ts[-1], Seg):
            k = len(ts) - 1
            v = els_of(s.val)
            if batch:
                if k == 0:
                    nd = s.fac if dim_lin(s.fac) == tot else ldim(tot)
                    return tm.mk(sh[:d] + (nd,) + sh[d:], dt, dev, v, np=np_)
            else:
                if s.rev:
                    v = [e.cp(v=vnm.fn("revax", e.v, repr(s.n), repr(s.off)) if len(e.v.w) > 1 else e.v) for e in v]
                    st = as_lin(0) - k
                else:
                    st = as_lin(s.off) - k
                pre = []
                for q in range(k):
                    pre.append(els_of(ts[q]))
                # leading entries that follow the law of the sequence
                while pre:
                    q = len(pre) - 1
                    law = [tm.v_at(e.v, st + q) for e in v]
                    if all(a == b.v for a, b in zip(law, pre[q])):
                        # absorb their facts
                        v = [e.cp(live=e.live | p.live, dead=e.dead | p.dead, mix=e.mix | p.mix, r32=e.r32 | p.r32,
                                  unit=join_unit(e.unit, p.unit)) for e, p in zip(v, pre[q])]
                        pre.pop()
                    else:
                        break
                fac = (Fac("s", tot, st.c if st.is_const else st),)
                if not any(sh) or not any(f.order for x in sh for f in x):
                    return tm.mk(sh[:d] + (fac,) + sh[d:], dt, dev, v, np=np_, pre=pre or None)
        # general: forget positions along the new axis
        e = [els_of(v) for v in vals]
        out = e[0]
        for c in e[1:]:
            out = [join_elem(a, b, "stack", vnm.fn("stackpos")) for a, b in zip(out, c)]
        out = [x.cp(const=None) for x in out]
        nd = ldim(tot)
        if batch and len(segs) == len(ts) == 1:
            nd = s.fac
        return tm.mk(sh[:d] + (nd,) + sh[d:], dt, dev, out, np=np_)

    def f_cat(self, args, kw, np_=False):
        tm = self.tm
        A = Args(args, kw)
        seq = A.get(0, ("tensors", "arrays"))
        items = self.ip.list_items(seq)
        if items is None or any(isinstance(x, Seg) for x in items):
            return tm.fail("cat", *([x.val if isinstance(x, Seg) else x for x in items] if items else [seq]))
        if np_:
            items = [self.asarr(x) for x in items]
        if any(isinstance(x, Top) or x is None for x in items):
            return tm.fail("cat", *[x for x in items if x is not None])
        for x in items:
            if not isinstance(x, T):
                raise AbsRaise("TypeError", "expected Tensor as element of cat, but got %s" % self.ip.tname(x))
        if any(x.shape is None for x in items):
            return tm.fail("cat", *items)
        items = [x for x in items if not (len(x.shape) == 1 and x.shape[0] and x.shape[0][0].k == "c" and x.shape[0][0].n == 0)] or items[:1]
        d = self.axis(items[0], A.get(1, ("dim", "axis"), 0))
        full = [x for x in items if not (len(x.shape) > d and x.shape[d] and x.shape[d][0].k == "c" and x.shape[d][0].n == 0)]
        if full and len(full) < len(items) and all(len(x.shape) == len(full[0].shape) for x in items):
            dt0 = self.cat_dt(items)
            items = full if self.cat_dt(full) == dt0 else items
        if items[0].shape == ():
            raise AbsRaise("RuntimeError", "zero-dimensional tensor cannot be concatenated")
        dt = self.cat_dt(items)
        dev = tm.device(items, "cat", strict=True)
        base = [list(x.shape) for x in items]
        vs = []
        for x in items:
            vs.append(x.cp(shape=x.shape[:d] + ((),) + x.shape[d + 1:], el=[summ(x.el)] * 1) if False else x)
        # other dims must agree
        probe = [T(x.shape[:d] + x.shape[d + 1:], x.dt, x.dev, [summ(x.el)]) for x in items]
        sh = self.common_shape(probe, "cat")
        lens = [dim_lin(x.shape[d]) for x in items]
        if all(l.is_const for l in lens) and all(len(x.shape[d]) <= 1 for x in items):
            n = sum(l.c for l in lens)
            nsh = sh[:d] + (cdim(n),) + sh[d:]
            before = after = 1
            for c in sh[:d]:
                before *= tm.csizes(c)
            for c in sh[d:]:
                after *= tm.csizes(c)
            if before * after * n <= MAXEL:
                cols = []
                pres = max([len(x.pre) for x in items if x.pre] or [0])
                for x, l in zip(items, lens):
                    full = sh[:d] + (cdim(l.c),) + sh[d:]
                    c = tm.expand_els(x, full)
                    if len(c) != before * after * l.c:
                        c = [summ(c)] * (before * after * l.c)
                    cols.append(c)
                els = []
                for b in range(before):
                    for c, l in zip(cols, lens):
                        els += c[b * l.c * after:(b + 1) * l.c * after]
                return tm.mk(nsh, dt, dev, els, np=np_)
        tot = Lin((), 0)
        for l in lens:
            tot = tot + l
        # leading constant entries followed by an order axis
        last = items[-1]
        if len(last.shape[d]) == 1 and last.shape[d][0].order and all(l.is_const for l in lens[:-1]) and sum(l.c for l in lens[:-1]) <= 4:
            k = sum(l.c for l in lens[:-1])
            f = last.shape[d][0]
            st = as_lin(f.start) - k
            fac = (Fac("s", tot, st.c if st.is_const else st),)
            nsh = sh[:d] + (fac,) + sh[d:]
            els = list(last.el)
            heads = []
            for x, l in zip(items[:-1], lens[:-1]):
                for q in range(l.c):
                    p = [("all", i) for i in range(len(x.shape))]
                    p[d] = tm.plan_int(d, x.shape[d], q)
                    h = tm.apply_plan(x, p)
                    heads.append(tm.expand_els(T(h.shape[:d] + ((),) + h.shape[d:], h.dt, h.dev, h.el), nsh))
            pre = heads + [list(r) for r in (last.pre or [])]
            if not last.pre:
                while pre:
                    q = len(pre) - 1
                    if all(tm.v_at(e.v, st + q) == p.v for e, p in zip(els, pre[q])):
                        pre.pop()
                    else:
                        break
            return tm.mk(nsh, dt, dev, els, np=np_, pre=pre or None)
        e = summ([summ(x.el) for x in items]).cp(const=None)
        nsh = sh[:d] + (ldim(tot),) + sh[d:]
        if nels(nsh) > MAXEL:
            return tm.fail("cat", *items)
        return tm.mk(nsh, dt, dev, [e] * max(1, nels(nsh)), np=np_)

    f_concat = f_cat
    f_concatenate = f_cat

    def f_hstack(self, args, kw, np_=False):
        items = self.ip.list_items(args[0])
        if items and isinstance(items[0], T) and items[0].shape is not None:
            return self.f_cat([args[0], 1 if len(items[0].shape) > 1 else 0], {}, np_=np_)
        return self.tm.fail("hstack", args[0])

    def f_vstack(self, args, kw, np_=False):
        items = self.ip.list_items(args[0])
        if items and all(isinstance(x, T) and x.shape is not None and not any(isinstance(q, Seg) for q in items) for x in items):
            return self.f_cat([self.ip.new_list([self.f_atleast_2d([x], {}) for x in items]), 0], {}, np_=np_)
        return self.tm.fail("vstack", args[0])

    def f_column_stack(self, args, kw, np_=False):
        return self.f_stack([args[0], -1], {}, np_=np_)

    def f_diag_embed(self, args, kw):
        tm = self.tm
        t = args[0]
        A = Args(args[1:], kw)
        off, d1, d2 = A.get(0, ("offset",), 0), A.get(1, ("dim1",), -2), A.get(2, ("dim2",), -1)
        n = tm.csizes(t.shape[-1]) if isinstance(t, T) and t.shape and all(f.k == "c" for f in t.shape[-1]) else None
        if n is None or off != 0 or (d1, d2) != (-2, -1):
            return tm.fail("diag_embed", *args)
        z = self.f_zeros_like([t], {})
        pick = lambda x, i: tm.apply_plan(x, [("all", j) for j in range(len(x.shape) - 1)] + [tm.plan_int(len(x.shape) - 1, x.shape[-1], i)])
        rows = []
        for i in range(n):
            rows.append(self.f_stack([self.ip.new_list([pick(t if i == j else z, j) for j in range(n)]), -1], {}))
        return self.f_stack([self.ip.new_list(rows), -2], {})

    def f_block_diag(self, args, kw):
        return self.tm.fail("block_diag", *args)

    # ------------------------------------------------------------ reductions
    def dims_arg(self, t, A, i=0):
        d = A.get(i, ("dim", "axis"))
        if d is None:
            return list(range(len(t.shape)))
        ds = [d] if isinstance(d, (int, S, T)) else self.ip.list_items(d)
        if ds is None:
            return None
        out = [self.axis(t, x) for x in ds]
        return None if any(x is None for x in out) else out

    def reduce(self, t, dims, keep, comb, ordf, batchf, dt, posn=False):
        """comb(list Elem)->Elem over const positions; ordf(els-row-elem, fac, pre-list)->Elem; batchf(elem, fac)->Elem"""
        tm = self.tm
        shape = t.shape
        csz = [tm.csizes(d) for d in shape]
        nsh = []
        for i, d in enumerate(shape):
            if i in dims:
                if keep:
                    nsh.append(())
            else:
                nsh.append(d)
        nsh = tuple(nsh)
        facs = [f for i in dims for f in shape[i]]
        ords = [f for f in facs if f.order]

        def red(row_of):
            strides = []
            s = 1
            for c in reversed(csz):
                strides.insert(0, s)
                s *= c
            kept = [0]
            for i, c in enumerate(csz):
                if i not in dims:
                    kept = [o + k * strides[i] for o in kept for k in range(c)]
            inner = [0]
            for i, c in enumerate(csz):
                if i in dims:
                    inner = [o + k * strides[i] for o in inner for k in range(c)]
            return [[(o + j) for j in inner] for o in kept]
        groups = red(None)
        if len(t.el) == 1:
            groups = [[0] * min(len(g), 9) for g in groups]
        memo = {}

        def final(g, row):
            e = comb([row[i if len(row) > 1 else 0] for i in g])
            return e
        out = []
        for g in groups:
            key = tuple(id(t.el[i if len(t.el) > 1 else 0]) for i in g)
            if key in memo and not t.pre:
                out.append(memo[key])
                continue
            e = final(g, t.el)
            for f in ords:
                heads = [final(g, r) for r in t.pre] if t.pre else []
                e = ordf(e, f, heads)
            for f in facs:
                if f.k != "c" and not f.order:
                    e = batchf(e, f)
            memo[key] = e
            out.append(e)
        npre = None
        if t.pre and not ords:
            npre = []
            for r in t.pre:
                pr = []
                for g in groups:
                    e = final(g, r)
                    for f in facs:
                        if f.k != "c" and not f.order:
                            e = batchf(e, f)
                    pr.append(e)
                npre.append(pr)
        return tm.mk(nsh, dt, t.dev, out or [const_elem(0)], np=t.np, pre=npre)

    def f_sum(self, args, kw, scale=None):
        tm = self.tm
        t = args[0]
        if isinstance(t, Ref):
            t = self.asarr(t)
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        keep = A.get(1, ("keepdim", "keepdims"), False)
        if dims is None:
            return tm.fail("sum", t)
        dtv = kw.get("dtype")
        dt = self.dtype_of(dtv) if dtv is not None else ("i64" if cat_of(t.dt) in (0, 1) else t.dt)

        def comb(es):
            e = es[0]
            for x in es[1:]:
                e = tm.el_add(e, x)
            return e

        def ordf(e, f, heads):
            u = vnm.shift(e.v, as_lin(f.start).c) if as_lin(f.start).is_const else vnm.fn("shift", e.v, repr(f.start))
            v = vnm.sum_window(u, repr(f.n))
            r = e.cp(v=v, const=None, exact=False)
            for q, h in enumerate(heads):
                at = tm.el_at(e, as_lin(f.start) + q)
                r = tm.merge([r, h], vnm.add(r.v, vnm.sub(h.v, at.v)), tm.u_same([r, h], "a sum"))
            return r

        def batchf(e, f):
            return e.cp(v=vnm.sum_axis(e.v, repr(f.n)), const=None, exact=False, mix=e.mix | f.batch())
        return self.reduce(t, dims, keep is True, comb, ordf, batchf, dt)

    f_nansum = f_sum

    def f_mean(self, args, kw):
        t = args[0]
        if isinstance(t, Ref):
            t = self.asarr(t)
        r = self.f_sum([t] + list(args[1:]), kw)
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        if not isinstance(r, T) or dims is None:
            return self.tm.fail("mean", t)
        d = tuple(f for i in dims for f in t.shape[i])
        n = dim_lin(d)
        q = self.tm.binop("Div", r, lin_val(n))
        if isinstance(q, T) and len(q.el) == len(t.el) == 1:
            vnm.INV.setdefault(vnm.mid(q.el[0].v), ("mean", (t.el[0].v,) + tuple(repr(f.n) for f in d)))
        return q

    def f_prod(self, args, kw):
        tm = self.tm
        t = args[0]
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        if dims is None:
            return tm.fail("prod", t)
        if tm.islive(t):
            tm.save(t, "prod")

        def comb(es):
            e = es[0]
            for x in es[1:]:
                e = tm.el_mul(e, x)
            return e
        return self.reduce(t, dims, A.get(1, ("keepdim", "keepdims"), False) is True, comb,
                           lambda e, f, h: e.cp(v=vnm.bag("prod", e.v, repr(f.n), repr(f.start)), const=None, unit=UNK if e.unit not in (0, POLY) else e.unit),
                           lambda e, f: e.cp(v=vnm.fn("prod", e.v, repr(f.n)), const=None, mix=e.mix | f.batch()), t.dt)

    def extremum(self, name, t, dims, keep, dt=None):
        tm = self.tm
        if isinstance(t, T) and t.shape is not None and any(lin_zero(t.shape[d]) for d in dims):
            raise AbsRaise("RuntimeError", "%s(): reduction over an axis without elements" % name)

        def comb(es):
            if len(set(id(x) for x in es)) == 1:
                return es[0]
            if all(x.const is not None for x in es):
                try:
                    return const_elem((max if name == "max" else min)(x.const for x in es))
                except TypeError:
                    pass
            e = tm.merge(es, vnm.fn(name, *sorted([x.v for x in es], key=lambda q: q.w)), tm.u_same(es, "a %s" % name))
            return e
        r = self.reduce(t, dims, keep, comb,
                        lambda e, f, h: e.cp(v=vnm.bag(name, e.v, repr(f.n), *[x.v for x in h]), const=None),
                        lambda e, f: e.cp(v=vnm.fn(name, e.v, repr(f.n)), mix=e.mix | f.batch(), const=e.const), dt or t.dt)
        if t.lin is not None and (t.lin[0] == t.lin[1] or len(dims) == len(t.shape)):
            q = t.lin[1] if name == "max" else t.lin[0]
            r.lin = (q, q)
        return r

    def f_max(self, args, kw, name="max"):
        t = args[0]
        if isinstance(t, Ref):
            t = self.asarr(t)
            if t is None:
                return self.tm.fail(name, *args)
        if len(args) > 1 and isinstance(args[1], T):
            return self.maximum(args[0], args[1], name)
        A = Args(args[1:], kw)
        d = A.get(0, ("dim", "axis"))
        if d is None:
            return self.extremum(name, t, list(range(len(t.shape))), False)
        dims = self.dims_arg(t, A)
        if dims is None:
            return self.tm.fail(name, t)
        keep = A.get(1, ("keepdim", "keepdims"), False) is True
        r = self.extremum(name, t, dims, keep)
        if t.np:
            return r
        idx = self.arg_reduce(t, dims, keep)
        return self.ip.new(HObj(Ext("minmax"), {"values": r, "indices": idx, "items": (r, idx)}))

    def f_min(self, args, kw):
        return self.f_max(args, kw, "min")

    def f_amax(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        return self.extremum("max", t, dims, A.get(1, ("keepdim", "keepdims"), False) is True)

    def f_amin(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        return self.extremum("min", t, dims, A.get(1, ("keepdim", "keepdims"), False) is True)

    f_nanmax = f_amax
    f_nanmin = f_amin

    def arg_reduce(self, t, dims, keep, name="arg"):
        def comb(es):
            return Elem(vnm.fn(name, *[x.v for x in es]), mix=frozenset().union(*[x.mix for x in es]), exact=True)
        return self.reduce(t, dims, keep, comb, lambda e, f, h: e.cp(v=vnm.bag(name, e.v, repr(f.n))),
                           lambda e, f: e.cp(v=vnm.fn(name, e.v, repr(f.n)), mix=e.mix | f.batch()), "i64")

    def f_argmax(self, args, kw, name="argmax"):
        t = args[0]
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        return self.arg_reduce(t, dims, A.get(1, ("keepdim", "keepdims"), False) is True, name)

    def f_argmin(self, args, kw):
        return self.f_argmax(args, kw, "argmin")

    def f_all(self, args, kw, name="all"):
        tm = self.tm
        t = args[0]
        A = Args(args[1:], kw)
        dims = self.dims_arg(t, A)
        if dims is None:
            return tm.fail(name, t)

        def one(x):
            return x if t.dt == "bool" else vnm.fnr("nz", x)

        def comb(es):
            if all(e.const is not None for e in es):
                return const_elem(bool(all(e.const for e in es) if name == "all" else any(e.const for e in es)))
            v = one(es[0].v)
            mix = es[0].mix
            for x in es[1:]:
                w = one(x.v)
                v = tm.m_and(v, w) if name == "all" else tm.m_or(v, w)
                mix = mix | x.mix
            return Elem(v, mix=mix, exact=True)

        def q(e, f, b=frozenset()):
            if e.const is not None or e.v in (vnm.ONE, vnm.ZERO):
                return e.cp(mix=e.mix | b)
            return e.cp(v=vnm.bag(name, e.v, repr(f.n)) if f.order else vnm.fn(name, e.v, repr(f.n)), mix=e.mix | b)
        return self.reduce(t, dims, A.get(1, ("keepdim", "keepdims"), False) is True, comb, lambda e, f, h: q(e, f), lambda e, f: q(e, f, f.batch()), "bool")

    def f_any(self, args, kw):
        return self.f_all(args, kw, "any")

    def f_norm(self, args, kw):
        tm = self.tm
        t = args[0]
        if isinstance(t, Ref):
            t = self.asarr(t)
            if t is None:
                return tm.fail("norm", *args)
        A = Args(args[1:], kw)
        o = A.get(0, ("ord", "p"))
        d = A.get(1, ("dim", "axis"))
        keep = A.get(2, ("keepdim", "keepdims"), False) is True
        if o not in (None, 2, 2.0) and o != "fro":
            return tm.fail("norm", t)
        if tm.islive(t):
            tm.save(t, "norm")
        sq = tm.elementwise([t], lambda c: tm.merge([c[0]], vnm.abs2(c[0].v), c[0].unit if c[0].unit in (POLY, UNK) else 2 * c[0].unit), real_of(t.dt), "norm")
        s = self.f_sum([sq], {"dim": d, "keepdim": keep})
        if not isinstance(s, T):
            return s
        r = self.unary("sqrt", s)
        return r

    f_vector_norm = f_norm

    def f_std(self, args, kw):
        return self.extremum("std", args[0], self.dims_arg(args[0], Args(args[1:], kw)), False)

    f_var = f_std
    f_median = f_std

    def f_cumprod(self, args, kw, name="cumprod"):
        tm = self.tm
        t = args[0]
        a = self.axis(t, Args(args[1:], kw).get(0, ("dim", "axis"), 0))
        d = t.shape[a]
        live = tm.islive(t)
        if live and name == "cumprod":
            tm.save(t, name)
        if not d:
            return t.cp(sid=None)
        if len(d) == 1 and d[0].order:
            st = as_lin(d[0].start)
            if not st.is_const:
                return tm.fail(name, t)

            def f(e, i):
                c = vnm.bag(name, vnm.shift(e.v, st.c), *([x.v for r in (t.pre or []) for x in r]))
                return e.cp(v=vnm.shift(vnm.mu((vnm.h("el", vnm.mid(c)[0]), vnm.h("el", vnm.mid(c)[1]))), -st.c), const=None, exact=False)
            r = tm.mk(t.shape, t.dt, t.dev, [f(e, i) for i, e in enumerate(t.el)], np=t.np)
        elif len(d) == 1 and d[0].k == "c":
            n = d[0].n
            csz = [tm.csizes(x) for x in t.shape]
            after = 1
            for c in csz[a + 1:]:
                after *= c
            els = list(t.el)
            if len(els) == 1:
                els = els * max(1, nels(t.shape))
            for i in range(len(els)):
                j = (i // after) % n
                if j:
                    els[i] = (tm.el_mul if name == "cumprod" else tm.el_add)(els[i - after], els[i])
            r = tm.mk(t.shape, t.dt, t.dev, els, np=t.np)
        else:
            ax = frozenset().union(*[f.batch() for f in d])
            r = tm.mk(t.shape, t.dt, t.dev, [e.cp(v=vnm.fn(name, e.v), mix=e.mix | ax, const=None) for e in t.el], np=t.np)
        if live and name == "cumprod":
            tm.save(r, name)
        return r

    def f_cumsum(self, args, kw):
        return self.f_cumprod(args, kw, "cumsum")

    def ranked(self, t):
        """positions that sort a one-dimensional tensor whose order is known, or None"""
        R = self.ip.ranks
        if R is None or not isinstance(t, T) or t.shape is None or len(t.shape) != 1 or len(t.el) != nels(t.shape) or any(f.k != "c" for f in t.shape[0]):
            return None
        if any(e.v not in R for e in t.el):
            return None
        return sorted(range(len(t.el)), key=lambda i: R[t.el[i].v])

    def f_sort(self, args, kw):
        t = args[0]
        p = self.ranked(t)
        if p is not None:
            A = Args(args[1:], kw)
            if A.get(1, ("descending",), False) is True:
                p = p[::-1]
            r = self.tm.mk(t.shape, t.dt, t.dev, [t.el[i] for i in p], np=t.np)
            return r if t.np else (r, self.tm.mk(t.shape, "i64", t.dev, [const_elem(i) for i in p], np=t.np))
        a = self.axis(t, Args(args[1:], kw).get(0, ("dim", "axis"), -1)) if t.shape else 0
        ax = frozenset().union(*[f.batch() for f in t.shape[a]]) if t.shape and t.shape[a] else EMPTY
        r = self.tm.mk(t.shape, t.dt, t.dev, [e.cp(v=vnm.fn("sort", e.v), mix=e.mix | ax, const=None) for e in t.el], np=t.np)
        if t.np:
            return r
        i = self.f_argsort(args, kw)
        return (r, i)

    def f_argsort(self, args, kw):
        t = args[0]
        p = self.ranked(t)
        if p is not None:
            if Args(args[1:], kw).get(1, ("descending",), False) is True:
                p = p[::-1]
            return self.tm.mk(t.shape, "i64", t.dev, [const_elem(i) for i in p], np=t.np)
        a = self.axis(t, Args(args[1:], kw).get(0, ("dim", "axis"), -1)) if t.shape else 0
        ax = frozenset().union(*[f.batch() for f in t.shape[a]]) if t.shape and t.shape[a] else EMPTY
        return self.tm.mk(t.shape, "i64", t.dev, [Elem(vnm.fn("argsort", e.v), mix=e.mix | ax, exact=True) for e in t.el], np=t.np)

    def f_bucketize(self, args, kw):
        t, b = args[0], args[1]
        if not isinstance(t, T):
            t = self.asarr(t)
        if isinstance(b, T) and t.dev != b.dev and t.shape != ():
            self.ip.emit("devmix", "bucketize on %s with boundaries on %s" % (self.tm.dn(t.dev), self.tm.dn(b.dev)))
        p = self.ranked(b)
        if p is not None and p == list(range(len(p))) and t.shape is not None and all(e.v in self.ip.ranks for e in t.el):
            R = self.ip.ranks
            right = kw.get("right", args[2] if len(args) > 2 and isinstance(args[2], bool) else False)
            if kw.get("side") is not None:
                right = kw["side"] == "right"
            if isinstance(right, bool):
                def pos(c):
                    x = R[c[0].v]
                    return const_elem(sum(1 for e in b.el if (R[e.v] <= x if right else R[e.v] < x)))
                return self.tm.elementwise([t], pos, "i64", "bucketize")
        bv = self.ip.val_vn(b)
        ex = [repr(kw[k]) for k in sorted(kw)]
        return self.tm.elementwise([t], lambda c: Elem(vnm.fn("bucketize", c[0].v, bv, *ex), mix=c[0].mix, exact=True), "i64", "bucketize")

    def f_searchsorted(self, args, kw):
        return self.f_bucketize([args[1], args[0]], kw)

    # ------------------------------------------------------------ selection
    def f_where(self, args, kw, np_=False):
        tm = self.tm
        if len(args) == 1 and not kw:
            return self.nonzero_tuple(args[0])
        A = Args(args, kw)
        c, a, b = A.get(0, "condition"), A.get(1, ("input", "x", "self")), A.get(2, ("other", "y"))
        if any(isinstance(x, Top) for x in (c, a, b)):
            return tm.fail("where", c, a, b)
        if np_:
            c, a, b = [x if isinstance(x, (T,) + NUM) else self.asarr(x) for x in (c, a, b)]
            if not isinstance(c, T):
                c = self.asarr(c)
        if not isinstance(c, T):
            raise AbsRaise("TypeError", "where(): condition must be a Tensor, not %s" % self.ip.tname(c))
        if c.dt not in ("bool", None, "u8") and not np_ and not c.np:
            raise AbsRaise("RuntimeError", "where expected condition to be a boolean tensor")
        for x in (a, b):
            if not isinstance(x, (T,) + NUM):
                raise AbsRaise("TypeError", "where(): argument must be Tensor or number, not %s" % self.ip.tname(x))
        ta, tb = tm.wrap(a), tm.wrap(b)
        cls = lambda x, t: 2 if not isinstance(x, T) else (1 if t.shape == () else 0)
        dt = tm.prom([(ta.dt, cls(a, ta)), (tb.dt, cls(b, tb))], np_ or c.np)
        if tm.islive(ta, tb):
            tm.save(c, "where")

        def f(col):
            m, x, y = col
            mv = m.v if c.dt == "bool" else vnm.fnr("nz", m.v)
            if m.const is not None:
                return x if m.const else y
            u = tm.u_same([x, y], "a selection (where)")
            if mv == vnm.ZERO:
                v = y.v
            elif mv == vnm.ONE:
                v = x.v
            elif is_tiny(x.const) or is_tiny(y.const):
                v = y.v if is_tiny(x.const) else x.v
            else:
                v = vnm.where(mv, x.v, y.v)
            r = tm.merge([x, y], v, u, x.exact and y.exact)
            r.mix = r.mix | m.mix
            return r
        return tm.elementwise([c, ta, tb], f, dt, "where", np_=np_ or c.np)

    def f_masked_fill(self, args, kw):
        A = Args(args[1:], kw)
        t = args[0]
        m, v = A.get(0, "mask"), A.get(1, "value")
        r = self.f_where([m, v, t], {})
        if isinstance(r, T):
            r = r.cp(dt=t.dt)
        return r

    def nonzero_tuple(self, m):
        if not isinstance(m, T) or m.shape is None:
            return self.tm.fail("nonzero", m)
        if len(m.shape) == 1:
            e = summ(m.el)
            key = self.tm.mask_key(m)
            d = m.shape[0] + (Fac("m", key),)
            r = T((d,), "i64", m.dev, [Elem(vnm.fn("nz", e.v), mix=e.mix, exact=True)], idx_of=(key, e.mix, e.v), np=m.np)
            return (r,)
        return tuple(T((udim(),), "i64", m.dev, [Elem(vnm.fn("nz", summ(m.el).v, i), mix=m.mix(), exact=True)], np=m.np) for i in range(len(m.shape)))

    def f_nonzero(self, args, kw):
        t = args[0]
        if kw.get("as_tuple") is True or t.np:
            return self.nonzero_tuple(t)
        e = summ(t.el)
        ax = EMPTY
        for d in t.shape:
            for f in d:
                ax |= f.batch()
        return T((udim(), cdim(len(t.shape))), "i64", t.dev, [Elem(vnm.fn("nonzero", e.v, i), mix=e.mix, exact=True) for i in range(max(1, len(t.shape)))])

    f_argwhere = f_nonzero

    def f_flatnonzero(self, args, kw):
        r = self.nonzero_tuple(self.f_flatten([args[0]], {}))
        return r[0] if isinstance(r, tuple) else r

    def f_scatter(self, args, kw):
        t = args[0]
        A = Args(args[1:], kw)
        src = A.get(2, ("src", "value"))
        ix = A.get(1, "index")
        es = summ(src.el) if isinstance(src, T) else self.ip.scal_elem(src) if isinstance(src, NUM) else None
        if es is None or not isinstance(ix, T):
            return self.tm.fail("scatter", *args)
        if self.tm.islive(t, src):
            self.tm.save(ix, "scatter")
        ie = summ(ix.el)
        els = [join_elem(es, e, "scatter", vnm.fn("scat", ie.v)) for e in t.el]
        els = [e.cp(mix=e.mix | ie.mix) for e in els]
        return self.tm.mk(t.shape, t.dt, t.dev, els)

    def f_clamp(self, args, kw):
        tm = self.tm
        t = args[0]
        A = Args(args[1:], kw)
        lo, hi = A.get(0, ("min", "a_min")), A.get(1, ("max", "a_max"))
        if t.dt in CPLX:
            raise AbsRaise("RuntimeError", "clamp is not supported for complex types")
        if isinstance(lo, Top) or isinstance(hi, Top):
            return tm.fail("clamp", t)
        if tm.islive(t):
            tm.save(t, "clamp")
        r = t
        guard = lambda c, s: isinstance(c, (int, float)) and not isinstance(c, bool) and (abs(abs(c) - 1) < 1e-5 and (c > 0) == (s > 0))
        both = guard(lo, -1) and guard(hi, 1)
        if lo is not None and not both:
            if isinstance(lo, float) and is_tiny(lo):
                pass
            else:
                r = self.maximum(r, lo, "max")
        if hi is not None and not both:
            r = self.maximum(r, hi, "min")
        if r is t:
            r = tm.mk(t.shape, t.dt, t.dev, list(t.el), np=t.np, pre=t.pre, lin=t.lin)
        return r

    f_clip = f_clamp

    def f_clamp_min(self, args, kw):
        return self.f_clamp([args[0], args[1]], {})

    def maximum(self, a, b, name):
        tm = self.tm
        ta, tb = tm.wrap(a), tm.wrap(b)
        cls = lambda x, t: 2 if not isinstance(x, T) else (1 if t.shape == () else 0)
        dt = tm.prom([(ta.dt, cls(a, ta)), (tb.dt, cls(b, tb))], ta.np or tb.np)
        if tm.islive(ta, tb):
            tm.save(a, name)
            tm.save(b, name)

        def f(c):
            x, y = c
            if x.const is not None and y.const is not None:
                try:
                    return const_elem((max if name == "max" else min)(x.const, y.const))
                except TypeError:
                    pass
            if x.v == y.v:
                return x
            for p, q in ((x, y), (y, x)):
                if is_tiny(q.const) and name == "max":
                    return tm.merge([p, q], p.v, tm.u_same([x, y], "a maximum"))
            a_, b_ = (x, y) if x.v.w <= y.v.w else (y, x)
            lt = tm.lt_v(a_.v, b_.v)
            v = vnm.where(lt, b_.v, a_.v) if name == "max" else vnm.where(lt, a_.v, b_.v)
            return tm.merge([x, y], v, tm.u_same([x, y], "a %s" % name))
        r = tm.elementwise([ta, tb], f, dt, name)
        return r

    def f_maximum(self, args, kw):
        if any(isinstance(a, Top) for a in args):
            return self.tm.fail("maximum", *args)
        return self.maximum(args[0], args[1], "max")

    def f_minimum(self, args, kw):
        if any(isinstance(a, Top) for a in args):
            return self.tm.fail("minimum", *args)
        return self.maximum(args[0], args[1], "min")

    f_fmax = f_maximum
    f_fmin = f_minimum

    def f_atan2(self, args, kw):
        tm = self.tm
        a, b = args[0], args[1] if len(args) > 1 else kw.get("other")
        if isinstance(a, Top) or isinstance(b, Top):
            return tm.fail("atan2", a, b)
        ta, tb = tm.wrap(a), tm.wrap(b)
        if tm.islive(ta, tb):
            tm.save(a, "atan2")
            tm.save(b, "atan2")
        dt = tm.prom([(ta.dt, 0 if ta.shape else 1), (tb.dt, 0 if tb.shape else 1)], ta.np or tb.np)
        return tm.elementwise([ta, tb], lambda c: (tm.u_same(c, "atan2"), tm.merge(c, vnm.fn("atan2", c[0].v, c[1].v), 0))[1], float_dt(dt, ta.np), "atan2")

    f_arctan2 = f_atan2

    def f_hypot(self, args, kw):
        r = self.ip.binop("Add", self.ip.binop("Pow", args[0], 2), self.ip.binop("Pow", args[1], 2))
        return self.unary("sqrt", r) if isinstance(r, T) else r

    def f_complex(self, args, kw):
        return self.ip.binop("Add", args[0], self.ip.binop("Mult", 1j, args[1]))

    def f_polar(self, args, kw):
        return self.ip.binop("Mult", args[0], self._call("exp", [self.ip.binop("Mult", 1j, args[1])], {}, False))

    def f_lerp(self, args, kw):
        a, b, w = args[0], args[1], args[2]
        return self.ip.binop("Add", a, self.ip.binop("Mult", w, self.ip.binop("Sub", b, a)))

    def f_addcmul(self, args, kw):
        r = self.ip.binop("Mult", args[1], args[2])
        if "value" in kw:
            r = self.ip.binop("Mult", kw["value"], r)
        return self.ip.binop("Add", args[0], r)

    def f_equal(self, args, kw):
        a, b = args[0], args[1]
        if isinstance(a, T) and isinstance(b, T):
            if a.shape is not None and b.shape is not None and self.tm.shape_eq(a.shape, b.shape):
                if len(a.el) == len(b.el) and all(x.v == y.v for x, y in zip(a.el, b.el)):
                    return True
                if all(x.const is not None for x in a.el + b.el):
                    return False
                return False
            if a.shape is not None and b.shape is not None:
                return False
        return Top("equal")

    f_array_equal = f_equal

    def tol_unit(self, args, kw):
        """an absolute tolerance on a quantity that has a dimension"""
        c = Args(args, kw).get(3, ("atol",))
        if isinstance(c, (int, float)) and abs(c) > 1e-8:
            for a in args[:2]:
                for e in (a.el if isinstance(a, T) else [a.el] if isinstance(a, S) else ()):
                    self.tm.u_zero(e, "a tolerance of %s" % c)

    def f_allclose(self, args, kw):
        self.tol_unit(args, kw)
        return S("bool", Elem(vnm.bag("allclose", *[self.ip.val_vn(a) for a in args])))

    def f_isclose(self, args, kw):
        self.tol_unit(args, kw)
        ta, tb = self.tm.wrap(args[0]), self.tm.wrap(args[1])
        return self.tm.elementwise([ta, tb], lambda c: self.tm.el_cmp("Eq", c[0], c[1]), "bool", "isclose")

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b):
        tm = self.tm
        if not (isinstance(a, T) and isinstance(b, T)) or a.shape is None or b.shape is None:
            return tm.fail("matmul", a, b)
        if not a.shape or not b.shape:
            raise AbsRaise("RuntimeError", "both arguments to matmul need to be at least 1D")
        if a.dt != b.dt and a.dt and b.dt and not (a.np or b.np):
            raise AbsRaise("RuntimeError", "expected both matrices to have the same dtype, but got %s and %s" % (a.dt, b.dt))
        if tm.islive(a):
            tm.save(b, "matmul")
        if tm.islive(b):
            tm.save(a, "matmul")
        v1, v2 = len(a.shape) == 1, len(b.shape) == 1
        sa = ((),) + a.shape if v1 else a.shape
        sb = b.shape + ((),) if v2 else b.shape
        x, y = sa[-1], sb[-2]
        if not tm.dim_eq(x, y) and not dim_unknown(x) and not dim_unknown(y) and (not x or not y or tm.differs(dim_lin(x), dim_lin(y))):
            raise AbsRaise("RuntimeError", "mat1 and mat2 shapes cannot be multiplied (%s and %s)" % (show(a.shape), show(b.shape)))
        ta = T(sa + ((),), a.dt, a.dev, a.el, np=a.np, pre=a.pre)
        tb = T(sb[:-2] + ((),) + sb[-2:], b.dt, b.dev, b.el, np=b.np, pre=b.pre)
        g = self.ip.grad
        p = tm.elementwise([ta, tb], lambda c: tm.el_mul(c[0], c[1]), promote2(a.dt, b.dt), "matmul", strict=True)
        r = self.f_sum([p], {"dim": -2})
        if isinstance(r, T):
            sh = r.shape
            if v2:
                sh = sh[:-1]
            if v1:
                sh = sh[:-2] + sh[-1:] if not v2 else sh[:-1]
            r = T(sh, r.dt, r.dev, r.el, np=r.np, pre=r.pre)
        return r

    def f_matmul(self, args, kw):
        return self.matmul(args[0], args[1] if len(args) > 1 else kw.get("other"))

    f_mm = f_matmul
    f_bmm = f_matmul
    f_mv = f_matmul

    def f_dot(self, args, kw):
        return self.matmul(args[0], args[1])

    def f_einsum(self, args, kw):
        tm = self.tm
        eq = args[0]
        ops = args[1:]
        if len(ops) == 1 and not isinstance(ops[0], T):
            ops = self.ip.list_items(ops[0]) or ops
        if not isinstance(eq, str) or not all(isinstance(o, T) and o.shape is not None for o in ops):
            return tm.fail("einsum", *ops)
        eq = eq.replace(" ", "")
        if "." in eq:
            lhs, arrow, rhs = eq.partition("->")
            own = [len(t.shape) - len(s.replace("...", "")) if "..." in s else 0 for s, t in zip(lhs.split(","), ops)]
            names = "".join(chr(0x3b1 + i) for i in range(max(own)))
            free = sorted(c for c in set(lhs) if c not in ",." and lhs.count(c) == 1)
            lhs = ",".join(s.replace("...", names[len(names) - k:]) for s, k in zip(lhs.split(","), own))
            eq = lhs + "->" + (rhs.replace("...", names) if arrow else names + "".join(free))
            if min(own) < 0 or "." in eq:
                return tm.fail("einsum", *ops)
        lhs, _, rhs = eq.partition("->")
        ins = lhs.split(",")
        if "->" not in eq:
            rhs = "".join(sorted(c for c in set(lhs) if c != "," and lhs.count(c) == 1))
        letters = []
        for s in ins:
            for c in s:
                if c not in letters:
                    letters.append(c)
        order = list(rhs) + [c for c in letters if c not in rhs]
        r = None
        for s, t in zip(ins, ops):
            if len(s) != len(t.shape) or len(set(s)) != len(s):
                return tm.fail("einsum", *ops)
            p = self.permute(t, [s.index(c) for c in order if c in s])
            sh = []
            it = iter(p.shape)
            for c in order:
                sh.append(next(it) if c in s else ())
            q = T(tuple(sh), p.dt, p.dev, p.el, np=p.np, sid=p.sid, pre=p.pre)
            r = q if r is None else tm.binop("Mult", r, q)
        dims = list(range(len(rhs), len(order)))
        return self.f_sum([r], {"dim": tuple(dims)}) if dims else r

    def f_cross(self, args, kw):
        tm = self.tm
        a, b = args[0], args[1]
        A = Args(args[2:], kw)
        if any(not isinstance(x, T) or x.shape is None for x in (a, b)):
            return tm.fail("cross", a, b)
        d = A.get(0, ("dim", "axis"), -1)
        n = max(len(a.shape), len(b.shape))
        sel = lambda t, i: tm.apply_plan(t, [tm.plan_int(j, t.shape[j], i) if j == self.axis(t, d) else ("all", j) for j in range(len(t.shape))])
        ca, cb = [sel(a, i) for i in range(3)], [sel(b, i) for i in range(3)]
        comp = []
        for i, j in ((1, 2), (2, 0), (0, 1)):
            comp.append(tm.binop("Sub", tm.binop("Mult", ca[i], cb[j]), tm.binop("Mult", ca[j], cb[i])))
        return self.f_stack([self.ip.new_list(comp), d], {})

    def f_outer(self, args, kw):
        a, b = args[0], args[1]
        return self.ip.binop("Mult", self.f_unsqueeze([a, -1], {}), self.f_unsqueeze([b, 0], {}))

    # ------------------------------------------------------------ factories
    def factory(self, args, kw, el, np_=False, extra=0):
        A = Args([], kw)
        sz = args[: len(args) - extra] if extra else args
        if not sz and ("size" in kw or "shape" in kw):
            sz = [kw.get("size", kw.get("shape"))]
        dtv = kw.get("dtype")
        if np_ and len(sz) == 2 and isinstance(sz[1], (Dt, Ext)):
            dtv = sz[1]
            sz = sz[:1]
        sizes = self.size_args(sz)
        dt = self.dtype_of(dtv) if dtv is not None else ("f64" if np_ else "f32")
        if sizes is None or any(isinstance(s, Top) for s in sizes):
            return self.tm.fail("factory")
        shape = []
        for s in sizes:
            if isinstance(s, T):
                s = self.tm.as_index(s)
            l = as_lin(s)
            if l is None:
                raise AbsRaise("TypeError", "sizes must be integers, not %s" % self.ip.tname(s))
            shape.append(ldim(l))
        if nels(tuple(shape)) > MAXEL:
            shape = [udim() if any(f.k == "c" and f.n > 20 for f in d) else d for d in shape]
        return self.tm.mk(tuple(shape), dt, self.dev_arg(A), [el], np=np_)

    def f_zeros(self, args, kw, np_=False):
        return self.factory(args, kw, const_elem(0.0), np_)

    def f_ones(self, args, kw, np_=False):
        return self.factory(args, kw, const_elem(1.0), np_)

    def f_empty(self, args, kw, np_=False):
        return self.factory(args, kw, Elem(vnm.fn("uninitialised"), unit=POLY), np_)

    def f_full(self, args, kw, np_=False):
        A = Args(args, kw)
        v = A.get(1, "fill_value")
        if isinstance(v, Top):
            return self.tm.fail("full", v)
        e = summ(v.el) if isinstance(v, T) else self.ip.scal_elem(v)
        if "dtype" not in kw:
            k = self.ip.scal_kind(v) if not isinstance(v, T) else None
            d = {"bool": "bool", "int": "i64", "float": "f64" if np_ else "f32", "complex": "c128" if np_ else "c64"}.get(k) or (v.dt if isinstance(v, T) else "f32")
            kw = dict(kw, dtype=Dt(d))
        if e.live:
            e = e.cp(live=EMPTY, dead=e.dead | frozenset((l, "torch.full") for l in e.live))
        return self.factory([A.get(0, ("size", "shape"))], {k: x for k, x in kw.items() if k not in ("fill_value", "size", "shape")}, e, np_)

    def like(self, args, kw, el):
        t = args[0]
        if not isinstance(t, T):
            t = self.asarr(t)
        dtv = kw.get("dtype")
        dt = self.dtype_of(dtv) if dtv is not None else t.dt
        if t.shape is None:
            return T(None, dt, t.dev, [el], np=t.np)
        return self.tm.mk(t.shape, dt, self.dev_arg(Args([], kw), default=t.dev), [el], np=t.np)

    def f_zeros_like(self, args, kw):
        return self.like(args, kw, const_elem(0.0))

    def f_ones_like(self, args, kw):
        return self.like(args, kw, const_elem(1.0))

    def f_empty_like(self, args, kw):
        return self.like(args, kw, Elem(vnm.fn("uninitialised"), unit=POLY))

    def f_full_like(self, args, kw):
        v = Args(args, kw).get(1, "fill_value")
        return self.like(args, kw, summ(v.el) if isinstance(v, T) else self.ip.scal_elem(v))

    def f_new_zeros(self, args, kw):
        t = args[0]
        kw = dict(kw)
        kw.setdefault("dtype", Dt(t.dt))
        kw.setdefault("device", Dev(t.dev))
        return self.f_zeros(args[1:], kw)

    def f_new_ones(self, args, kw):
        t = args[0]
        kw = dict(kw)
        kw.setdefault("dtype", Dt(t.dt))
        kw.setdefault("device", Dev(t.dev))
        return self.f_ones(args[1:], kw)

    def f_new_tensor(self, args, kw):
        t = args[0]
        return self.tensor(args[1], {"dtype": Dt(t.dt), "device": Dev(t.dev)})

    def f_eye(self, args, kw, np_=False):
        n = as_lin(args[0]) if args else None
        m = as_lin(args[1]) if len(args) > 1 and not isinstance(args[1], Dt) else n
        dt = self.dtype_of(kw["dtype"]) if "dtype" in kw else ("f64" if np_ else "f32")
        if n is None or not n.is_const or not m.is_const or n.c * m.c > MAXEL:
            return self.tm.fail("eye")
        return self.tm.mk((cdim(n.c), cdim(m.c)), dt, self.dev_arg(Args([], kw)),
                          [const_elem(1.0 if i == j else 0.0) for i in range(n.c) for j in range(m.c)], np=np_)

    def f_arange(self, args, kw, np_=False):
        tm = self.tm
        a = [tm.as_index(x) if isinstance(x, T) and cat_of(x.dt) == 1 else x for x in args]
        if "start" in kw or "end" in kw:
            a = [kw.get("start", 0), kw.get("end", a[-1] if a else None)] + ([kw["step"]] if "step" in kw else [])
        elif "step" in kw:
            a = (a if len(a) > 1 else [0] + a) + [kw["step"]]
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a[:3]
        if any(isinstance(x, (Top, T)) for x in (lo, hi, st)):
            return tm.fail("arange", *a)
        dtv = kw.get("dtype")
        if dtv is not None:
            dt = self.dtype_of(dtv)
        elif any(self.ip.scal_kind(x) == "float" for x in (lo, hi, st)):
            dt = "f64" if np_ else "f32"
        else:
            dt = "i64"
        dev = self.dev_arg(Args([], kw))
        L = [as_lin(x) for x in (lo, hi, st)]
        if any(l is None for l in L):
            if all(isinstance(x, (int, float)) for x in (lo, hi, st)):
                import math
                n = max(0, math.ceil((hi - lo) / st))
                if n <= 200:
                    return tm.mk((cdim(n),), dt, dev, [const_elem(lo + i * st) for i in range(n)] or [const_elem(0.0)], np=np_)
            # a data-dependent floating range end: arange(n_max + 1.0)
            def lin_of(x):
                l = as_lin(x)
                if l is not None:
                    return l
                if isinstance(x, float) and x == int(x):
                    return Lin((), int(x))
                return None
            L = [lin_of(x) for x in (lo, hi, st)]
            if any(l is None for l in L):
                return T((udim(),), dt, dev, [Elem(vnm.fn("arange"))], np=np_)
        lo, hi, st = L
        if st == -1:
            n = lo - hi
            if n.is_const:
                return tm.mk((cdim(max(0, n.c)),), dt, dev, [const_elem((lo.c - i) if lo.is_const else 0) for i in range(n.c)], np=np_)
            # descending order axis
            fac = Fac("s", n, 0)
            return tm.mk(((fac,),), dt, dev, [Elem(vnm.sub(lin_vn(lo), vnm.index(0)), exact=True)], np=np_, lin=(hi + 1, lo))
        if not st == 1:
            n = hi - lo
            if n.is_const and st.is_const and lo.is_const:
                vals = list(range(lo.c, hi.c, st.c))
                return tm.mk((cdim(len(vals)),), dt, dev, [const_elem(x) for x in vals], np=np_)
            return T((udim(),), dt, dev, [Elem(vnm.fn("arange", lin_vn(lo), lin_vn(st)))], np=np_)
        n = hi - lo
        if n.is_const:
            if n.c <= 0:
                return T(((Fac("c", 0),),), dt, dev, [], np=np_)
            if n.c <= 200:
                if lo.is_const:
                    els = [const_elem((lo.c + i) if cat_of(dt) == 1 else float(lo.c + i)) for i in range(n.c)]
                else:
                    els = [Elem(lin_vn(lo + i), exact=True) for i in range(n.c)]
                return tm.mk((cdim(n.c),), dt, dev, els, np=np_, lin=(lo, hi - 1) if n.c > 1 else (lo, lo))
            return T((udim(),), dt, dev, [Elem(vnm.fn("arange"))], np=np_)
        bat = [k for k, _ in n.t if any(p in BATCH for p in k.replace("(", "").replace(")", "").split("*"))]
        if bat:
            return tm.mk((ldim(n),), dt, dev, [Elem(vnm.fn("pos", repr(n), repr(lo)), exact=True)], np=np_, lin=(lo, hi - 1))
        fac = Fac("s", n, lo.c if lo.is_const else lo)
        return tm.mk(((fac,),), dt, dev, [Elem(vnm.index(0), exact=True)], np=np_, lin=(lo, hi - 1))

    f_range = f_arange

    def f_linspace(self, args, kw, np_=False):
        tm = self.tm
        A = Args(args, kw)
        a, b, n = A.get(0, "start"), A.get(1, ("end", "stop")), A.get(2, ("steps", "num"), 50)
        dtv = kw.get("dtype")
        dt = self.dtype_of(dtv) if dtv is not None else ("f64" if np_ else "f32")
        dev = self.dev_arg(A)
        if any(isinstance(x, Top) for x in (a, b, n)):
            return tm.fail("linspace", a, b, n)
        n = tm.as_index(n) if isinstance(n, T) else n
        ln = as_lin(n)
        if ln is None:
            return tm.fail("linspace", a, b)
        if ln.is_const and ln.c <= 40 and all(isinstance(x, (int, float)) for x in (a, b)):
            m = ln.c
            return tm.mk((cdim(m),), dt, dev, [const_elem(float(a + (b - a) * i / max(1, m - 1))) for i in range(m)], np=np_)
        ea, eb = [summ(x.el) if isinstance(x, T) else self.ip.scal_elem(x) for x in (a, b)]
        v = vnm.fn("linspace", ea.v, eb.v, repr(ln))
        e = tm.merge([ea, eb], v, tm.u_same([ea, eb], "linspace"))
        d = ldim(ln)
        if ln.is_const and ln.c > 40:
            d = udim()
        return tm.mk((d,), dt, dev, [e] * max(1, nels((d,))), np=np_)

    def f_meshgrid(self, args, kw, np_=False):
        items = args
        if len(args) == 1 and not isinstance(args[0], T):
            items = self.ip.list_items(args[0]) or []
        if not all(isinstance(x, T) and x.shape is not None and len(x.shape) == 1 for x in items):
            return self.tm.fail("meshgrid", *args)
        ij = kw.get("indexing", "xy" if np_ else "ij") == "ij"
        n = len(items)
        full = [x.shape[0] for x in items]
        if not ij and n > 1:
            full[0], full[1] = full[1], full[0]
        out = []
        for i, x in enumerate(items):
            p = i if ij or i > 1 else 1 - i
            sh = tuple(x.shape[0] if j == p else () for j in range(n))
            out.append(self.broadcast_shape(T(sh, x.dt, x.dev, x.el, sid=x.sid, np=x.np), tuple(full)))
        return tuple(out)

    def f_rand(self, args, kw):
        return self.factory(args, kw, Elem(vnm.fn("rand", fresh())))

    f_randn = f_rand

    # ------------------------------------------------------------ copies, casts
    def f_clone(self, args, kw):
        t = args[0]
        return T(t.shape, t.dt, t.dev, list(t.el), np=t.np, lin=t.lin, pre=t.pre, idx_of=t.idx_of)

    f_copy = f_clone

    def f_contiguous(self, args, kw):
        t = args[0]
        if t.expd or t.pos is not None:
            return self.f_clone(args, kw)
        return t

    def f_conj(self, args, kw):
        t = args[0]
        if not isinstance(t, T):
            t = self.asarr(t)
        if t.dt is not None and cat_of(t.dt) != 3:
            return t
        r = self.tm.elementwise([t], lambda c: c[0].cp(v=vnm.conj(c[0].v), const=None), t.dt, "conj")
        # torch: lazily conjugated view
        return r.cp(sid=t.sid, view=True, leafs=t.leafs) if not t.np else r

    f_conj_physical = f_conj

    def f_resolve_conj(self, args, kw):
        return self.f_clone(args, kw)

    f_conjugate = f_conj

    def f_real(self, args, kw):
        return self.attr(args[0], "real")

    def f_imag(self, args, kw):
        return self.attr(args[0], "imag")

    def f_detach(self, args, kw):
        return self.detached(args[0], ".detach()")

    def f_cpu(self, args, kw):
        return self.convert(args[0], None, "cpu")

    def f_cuda(self, args, kw):
        return self.convert(args[0], None, "cuda")

    def f_to(self, args, kw):
        t = args[0]
        dt, dev = None, None
        seen_dt = False
        unknown_dt = unknown_dev = False
        for x in list(args[1:]) + [kw.get("dtype"), kw.get("device"), kw.get("other")]:
            if isinstance(x, Dt):
                dt = x.d
            elif isinstance(x, Dev):
                dev = x
            elif isinstance(x, str):
                if x in DT_NAMES:
                    dt = DT_NAMES[x]
                else:
                    dev = x
            elif isinstance(x, T):
                dt, dev = x.dt, Dev(x.dev)
            elif isinstance(x, Top):
                if x is kw.get("device") or "dev" in x.why:
                    unknown_dev = True
                else:
                    unknown_dt = True
            elif isinstance(x, Ext):
                d = self.dtype_of(x)
                if d:
                    dt = d
        if unknown_dt or unknown_dev:
            return T(t.shape, None if unknown_dt else (dt or t.dt), None if unknown_dev else t.dev, list(t.el), pre=t.pre, lin=t.lin)
        r = self.convert(t, dt, dev)
        if r is t and kw.get("copy") is True:
            return self.f_clone([t], {})
        return r

    def f_type(self, args, kw):
        if len(args) == 1 and not kw:
            return Top("typestr")
        return self.f_to(args, kw)

    def f_type_as(self, args, kw):
        return self.f_to(args, kw)

    def f_astype(self, args, kw):
        dt = self.dtype_of(args[1] if len(args) > 1 else kw.get("dtype"))
        if dt is None:
            return self.tm.fail("astype", args[0])
        r = self.convert(args[0], dt, None)
        return self.f_clone([r], {}) if r is args[0] else r

    def f_numpy(self, args, kw):
        t = args[0]
        if any(e.live for e in t.el) and self.ip.grad and kw.get("force") is not True:
            raise AbsRaise("RuntimeError", "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if t.dev not in ("cpu", None, "any") and kw.get("force") is not True:
            raise AbsRaise("TypeError", "can't convert %s device type tensor to numpy. Use Tensor.cpu() first" % self.tm.dn(t.dev))
        r = self.detached(t, ".numpy()")
        return r.cp(np=True, view=True)

    def f_from_numpy(self, args, kw):
        t = args[0]
        if not isinstance(t, T):
            raise AbsRaise("TypeError", "expected np.ndarray (got %s)" % self.ip.tname(t))
        if not t.np:
            raise AbsRaise("TypeError", "expected np.ndarray (got Tensor)")
        return t.cp(np=False, view=True)

    def f_item(self, args, kw):
        t = args[0]
        if t.shape is not None:
            for d in t.shape:
                if d and not dim_unknown(d):
                    raise AbsRaise("RuntimeError", "a Tensor with more than one element cannot be converted to Scalar")
        e = summ(t.el)
        l = self.tm.as_scalar_lin(t)
        c = cat_of(t.dt)
        if l is not None and c == 1:
            return lin_val(l)
        if e.const is not None:
            if c == 1 and not isinstance(e.const, complex):
                return int(e.const)
            if c == 2:
                return float(e.const) if not isinstance(e.const, complex) else e.const
            return e.const
        e = e.cp(live=EMPTY, dead=e.dead | frozenset((l2, ".item() in " + self.ip.func()) for l2 in e.live))
        k = {0: "bool", 1: "int", 2: "float", 3: "complex"}.get(c, "float")
        if k == "int":
            return self.tm.to_int(t)
        return S(k, e)

    def f_tolist(self, args, kw):
        t = args[0]
        if t.shape == ():
            return self.f_item([t], {})
        if t.shape is None:
            return self.tm.fail("tolist", t)
        n = dim_lin(t.shape[0])
        if n.is_const:
            return self.ip.new_list([self.f_tolist([self.tm.getitem(t, i)], {}) for i in range(n.c)])
        d = self.detached(t, ".tolist()")
        e = self.tm.getitem(d, 0)
        if len(t.shape) == 1:
            ee = d.el[0]
            k = {0: "bool", 1: "int", 2: "float", 3: "complex"}.get(cat_of(t.dt), "float")
            val = S(k, ee)
            f = t.shape[0]
            if len(f) == 1 and f[0].order:
                return self.ip.new_list([Seg(n, val, None, off=f[0].start)])
            return self.ip.new_list([Seg(n, val, f)])
        return self.ip.new_list(None)

    def m_float(self, t, a, k):
        return self.convert(t, "f32", None)

    def m_double(self, t, a, k):
        return self.convert(t, "f64", None)

    def m_long(self, t, a, k):
        return self.convert(t, "i64", None)

    def m_int(self, t, a, k):
        return self.convert(t, "i32", None)

    def m_bool(self, t, a, k):
        return self.convert(t, "bool", None)

    def m_cfloat(self, t, a, k):
        return self.convert(t, "c64", None)

    def m_cdouble(self, t, a, k):
        return self.convert(t, "c128", None)

    def m_size(self, t, a, k):
        if t.shape is None:
            return Top("size")
        d = Args(a, k).get(0, "dim")
        if d is None:
            return self.attr(t, "shape")
        return lin_val(dim_lin(t.shape[self.axis(t, d)]))

    def m_dim(self, t, a, k):
        return t.ndim if t.shape is not None else Top("ndim")

    m_ndimension = m_dim

    def m_numel(self, t, a, k):
        return self.numel(t)

    m_nelement = m_numel

    def m_is_complex(self, t, a, k):
        return cat_of(t.dt) == 3 if t.dt else Top("is_complex")

    def m_is_floating_point(self, t, a, k):
        return cat_of(t.dt) == 2 if t.dt else Top("is_fp")

    def m_is_contiguous(self, t, a, k):
        return True

    def m_get_device(self, t, a, k):
        return Top("device index")

    def m_backward(self, t, a, k):
        self.ip.event("backward", t=t)
        return None

    def m_retain_grad(self, t, a, k):
        return None

    def m_requires_grad_(self, t, a, k):
        return t

    def m_register_hook(self, t, a, k):
        return Top("hook")

    def m_element_size(self, t, a, k):
        return Top("element_size")

    def m_data_ptr(self, t, a, k):
        return Top("ptr")

    def m_apply_(self, t, a, k):
        self.tm.write(t, "apply_")
        return t

    def f_numel(self, args, kw):
        return self.numel(args[0])

    def f_is_complex(self, args, kw):
        return self.m_is_complex(args[0], (), {})

    def f_is_floating_point(self, args, kw):
        return self.m_is_floating_point(args[0], (), {})

    def f_ndim(self, args, kw):
        return len(args[0].shape)

    def f_iscomplexobj(self, args, kw):
        return cat_of(args[0].dt) == 3

    def f_result_type(self, args, kw):
        r = self.tm.prom([(self.tm.wrap(a).dt, 2 if not isinstance(a, T) else (1 if a.shape == () else 0)) for a in args if isinstance(a, (T,) + NUM)])
        return Dt(r) if r else Top("dtype")

    def f_promote_types(self, args, kw):
        a, b = [self.dtype_of(x) for x in args]
        r = promote2(a, b)
        return Dt(r) if r else Top("dtype")

    def f_finfo(self, args, kw):
        d = self.dtype_of(args[0]) if args else "f32"
        if d is None or d not in EPS:
            return Top("finfo")
        return self.ip.new(HObj(Ext("finfo"), {"eps": EPS[d], "tiny": 1e-300 if d in ("f64", "c128") else 1e-38,
                                               "max": float("inf"), "min": float("-inf"), "smallest_normal": 1e-300}))

    def f_nan_to_num(self, args, kw, np_=False):
        t = args[0]
        if not isinstance(t, T):
            t = self.asarr(t)
            if t is None:
                return self.tm.fail("nan_to_num", *args)
        if kw.get("copy") is False:
            self.tm.write(t, "nan_to_num(copy=False)")
        return self.tm.mk(t.shape, t.dt, t.dev, list(t.el), np=t.np, pre=t.pre)

    def f_array(self, args, kw, np_=True):
        return self.f_asarray(args, kw, np_, copy=True)

    def f_asarray(self, args, kw, np_=True, copy=False):
        v = args[0]
        A = Args(args[1:], kw)
        dtv = A.get(0, "dtype")
        dt = self.dtype_of(dtv) if dtv is not None else None
        if isinstance(v, T) and not v.np:
            v = self.f_numpy([v], {})
        if isinstance(v, T):
            r = self.f_clone([v], {}) if copy else v
        else:
            r = self.from_list(v, np_=True)
            if not isinstance(r, T):
                return r
            if any(e.live for e in r.el):
                raise AbsRaise("RuntimeError", "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if dt is not None:
            r = self.convert(r, dt, None)
        return r

    f_asanyarray = f_asarray
    f_ascontiguousarray = f_asarray

    def f_isscalar(self, args, kw, np_=True):
        return isinstance(args[0], NUM)

    def f_is_tensor(self, args, kw):
        if isinstance(args[0], Top):
            return Top("is_tensor")
        return isinstance(args[0], T) and not args[0].np

    def f_float64(self, args, kw, np_=True):
        a = self.asarr(args[0])
        return self.convert(a, "f64", None) if a is not None else self.tm.fail("float64", *args)

    def f_float32(self, args, kw, np_=True):
        a = self.asarr(args[0])
        return self.convert(a, "f32", None) if a is not None else self.tm.fail("float32", *args)

    def f_diff(self, args, kw):
        A = Args(args, kw)
        t = A.get(0, "input", None)
        if t is None:
            t = kw.get("a")
        n, dim = A.get(1, "n", 1), A.get(2, "dim", kw.get("axis", -1))
        if not isinstance(t, T):
            t = self.asarr(t)
        if not isinstance(t, T) or n != 1 or type(dim) is not int or len(kw.keys() - {"input", "a", "n", "dim", "axis"}):
            return self.tm.fail("diff", *args)
        a = self.axis(t, dim)
        lead = (slice(None),) * a
        return self.ip.binop("Sub", self.tm.getitem(t, lead + (slice(1, None),)), self.tm.getitem(t, lead + (slice(None, -1),)))

    # ------------------------------------------------------------ custom autograd functions
    def custom_apply(self, cls, args):
        ip = self.ip
        fwd = ip.find_method(cls, "forward")
        bwd = ip.find_method(cls, "backward")
        setup = ip.find_method(cls, "setup_context")
        if not isinstance(fwd, Fn):
            raise AbsRaise("RuntimeError", "autograd.Function without forward")
        ins = []
        for a in args:
            if isinstance(a, T):
                q = a.cp(el=[e.cp(live=EMPTY) if e.live else e for e in a.el], leafs=EMPTY)
                q.tid = a.tid
                ins.append(q)
            else:
                ins.append(a)
        need = [isinstance(a, T) and bool(a.live()) for a in args]
        if not any(need):                 # the backward pass is then analysed for itself
            need = [isinstance(a, T) and cat_of(a.dt) >= 2 for a in args]
        ctx = ip.new(HObj(Ext("ctx"), {"needs_input_grad": tuple(need)}))
        if isinstance(setup, Fn):
            out = ip.call_fn(fwd, ins, {})
            ip.call_fn(setup, [ctx, tuple(ins), out], {})
        else:
            out = ip.call_fn(fwd, [ctx] + ins, {})
        live = [a.live() if isinstance(a, T) else EMPTY for a in args]
        if not isinstance(out, T):
            return out
        add_live, add_dead = EMPTY, EMPTY
        saved = None
        if any(live):
            sv = (ip.get(ctx).attrs.get("saved_tensors") if isinstance(ip.get(ctx), HObj) else None) or ()
            for x in sv if isinstance(sv, tuple) else ():
                if isinstance(x, T):
                    self.tm.save(x, cls.name)
        grads = None
        if isinstance(bwd, Fn):
            g = T(out.shape, out.dt, out.dev, [Elem(vnm.leaf("gradout", real=cat_of(out.dt) != 3), live=frozenset(("__grad",)), unit=POLY)] * max(1, len(out.el)))
            st = ip.st.copy()
            gr, ip.grad = ip.grad, True
            try:
                grads = ip.call_fn(bwd, [ctx, g], {})
            finally:
                ip.grad = gr
            ip.event("customfn", cls=cls.qual, args=tuple(args), out=out, grads=grads, gradout=g)
            ip.st.heap.update({})
        if isinstance(grads, tuple):
            gl = list(grads)
        elif grads is None:
            gl = [None] * len(args)
        elif isinstance(grads, T):
            gl = [grads]
        else:
            gl = [Top("grad")] * len(args)
        if isinstance(grads, (tuple, T)) and len(gl) != len(args):
            ip.event("gradcount", cls=cls.qual, got=len(gl), want=len(args))
        for l, q in zip(live, gl + [None] * (len(args) - len(gl))):
            if q is None:
                add_dead |= frozenset((x, "backward() of %s returns no gradient" % cls.name) for x in l)
            elif isinstance(q, T) and not any("__grad" in e.live for e in q.el):
                add_dead |= frozenset((x, "backward() of %s does not use the incoming gradient" % cls.name) for x in l)
            else:
                add_live |= l
        els = [e.cp(live=e.live | add_live, dead=e.dead | add_dead) for e in out.el]
        r = T(out.shape, out.dt, out.dev, els, np=False, pre=[[e.cp(live=e.live | add_live, dead=e.dead | add_dead) for e in p] for p in out.pre] if out.pre else None)
        return r

    # scipy.special.spherical_*
    def sph_bessel(self, kind, args, kw):
        tm = self.tm
        A = Args(args, kw)
        n, z = A.get(0, "n"), A.get(1, "z")
        der = A.get(2, "derivative", False)
        if any(isinstance(x, Top) for x in (n, z)) or not isinstance(der, bool):
            return tm.fail("spherical_" + kind, n, z)
        n, z = self.asarr(n), self.asarr(z)
        if n is None or z is None:
            return tm.fail("spherical_" + kind)
        for x in (n, z):
            if any(e.live for e in x.el) and not x.np:
                raise AbsRaise("RuntimeError", "Can't call numpy() on Tensor that requires grad.")
            if x.dev not in ("cpu", "any", None):
                raise AbsRaise("TypeError", "can't convert device tensor to numpy")

        def f(c):
            en, ez = c
            tm.u_zero(ez, "a Bessel function")
            v = vnm.sph(kind, en.v, ez.v)
            if der:
                v1 = vnm.sph(kind, vnm.add(en.v, vnm.ONE), ez.v)
                v = vnm.sub(vnm.mul(vnm.div(en.v, ez.v), v), v1)
            return tm.merge([en, ez], v, 0)
        dt = z.dt if cat_of(z.dt) == 3 else "f64"
        return tm.elementwise([n.cp(np=True), z.cp(np=True)], f, dt, "spherical_" + kind, np_=True)


def _u(f, unit="zero", save="self", dt="float", dead=False):
    return (f, unit, save, dt, dead)


_fn = lambda n: (lambda v: vnm.fn(n, v))
_fnr = lambda n: (lambda v: vnm.fnr(n, v))
UN = {
    "abs": _u(vnm.abs_, "same", "self", "real"), "absolute": _u(vnm.abs_, "same", "self", "real"), "fabs": _u(vnm.abs_, "same", "self", "real"),
    "sqrt": _u(vnm.sqrt, "half", "result"), "rsqrt": _u(lambda v: vnm.inv(vnm.sqrt(v)), "x", "result"),
    "square": _u(lambda v: vnm.mul(v, v), "dbl", "self", "same"),
    "exp": _u(vnm.exp, "zero", "result"), "cos": _u(vnm.cos), "sin": _u(vnm.sin),
    "tan": _u(lambda v: vnm.div(vnm.sin(v), vnm.cos(v)), "zero", "result"),
    "acos": _u(vnm.acos), "arccos": _u(vnm.acos), "asin": _u(_fn("asin")), "arcsin": _u(_fn("asin")), "atan": _u(_fn("atan")), "arctan": _u(_fn("atan")),
    "log": _u(_fn("log")), "log10": _u(_fn("log10")), "log2": _u(_fn("log2")), "log1p": _u(_fn("log1p")), "expm1": _u(_fn("expm1"), "zero", "result"),
    "sinh": _u(_fn("sinh")), "cosh": _u(_fn("cosh")), "tanh": _u(_fn("tanh"), "zero", "result"), "sigmoid": _u(_fn("sigmoid"), "zero", "result"),
    "lgamma": _u(_fn("lgamma")), "erf": _u(_fn("erf")), "relu": _u(_fn("relu"), "same"), "deg2rad": _u(_fn("deg2rad")), "rad2deg": _u(_fn("rad2deg")),
    "reciprocal": _u(vnm.inv, "inv", "result"), "sinc": _u(_fn("sinc")),
    "neg": _u(vnm.neg, "same", None, "same"), "negative": _u(vnm.neg, "same", None, "same"), "positive": _u(lambda v: v, "same", None, "same"),
    "angle": _u(_fnr("angle"), "none", "self", "real"),
    "sign": _u(_fnr("sign"), "none", None, "same", True), "sgn": _u(_fn("sgn"), "none", "self", "same"),
    "round": _u(_fn("round"), "same", None, "same", True), "floor": _u(_fnr("floor"), "same", None, "same", True), "ceil": _u(_fnr("ceil"), "same", None, "same", True),
    "trunc": _u(_fnr("trunc"), "same", None, "same", True), "rint": _u(_fn("round"), "same", None, "same", True),
    "isnan": _u(lambda v: vnm.ZERO, "none", None, "bool"), "isinf": _u(lambda v: vnm.ZERO, "none", None, "bool"),
    "isfinite": _u(lambda v: vnm.ONE, "none", None, "bool"), "isreal": _u(_fnr("isreal"), "none", None, "bool"),
    "logical_not": _u(lambda v: vnm.sub(vnm.ONE, v), "none", None, "bool"), "bitwise_not": _u(lambda v: vnm.sub(vnm.ONE, v), "none", None, "bool"),
}
def _exact_sqrt(x):
    r = _m.sqrt(x)
    if Fraction(r) * Fraction(r) != Fraction(x):
        raise ValueError
    return r


CONSTF = {"sqrt": _exact_sqrt, "abs": abs, "absolute": abs, "neg": lambda x: -x, "negative": lambda x: -x, "square": lambda x: x * x}
BIN = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "divide": "Div", "true_divide": "Div",
       "pow": "Pow", "power": "Pow", "float_power": "Pow", "floor_divide": "FloorDiv", "remainder": "Mod", "fmod": "Mod",
       "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt",
       "greater_equal": "GtE", "not_equal": "NotEq",
       "logical_and": "And", "logical_or": "Or", "logical_xor": "Xor", "bitwise_and": "And", "bitwise_or": "Or"}
NPAWARE = {"stack", "cat", "concat", "concatenate", "hstack", "vstack", "column_stack", "where", "zeros", "ones", "empty", "full", "eye", "arange", "linspace",
           "meshgrid", "array", "asarray", "asanyarray", "ascontiguousarray", "nan_to_num", "isscalar", "float64", "float32"}
ROUNDS = {"round", "floor", "ceil", "trunc", "rint"}
SHAPELESS = {"detach", "clone", "to", "numpy", "cpu", "contiguous", "conj", "from_numpy", "equal", "allclose", "type", "zeros_like", "ones_like",
             "real", "imag", "isclose", "nan_to_num", "where", "is_tensor", "maximum", "minimum", "atan2", "finfo", "result_type"}
NOT_NP = {"detach", "requires_grad", "numpy", "unsqueeze", "cpu", "to", "backward", "clone", "numel", "nelement", "expand", "abs", "view_as", "dim"}
TENSOR_METHODS = {"unfold", "kthvalue", "masked_select", "masked_scatter", "index_add", "index_copy", "index_fill", "scatter_add", "logsumexp", "quantile",
                  "unflatten", "diag", "diagonal", "triu", "tril", "trace", "det", "inverse", "solve", "unique", "histc", "bincount", "roll", "topk",
                  "softmax", "log_softmax", "fmod", "stride", "storage", "share_memory_", "pin_memory", "half", "char", "short", "byte", "baddbmm", "addmm",
                  "put", "fill", "dot", "inner", "kron", "std", "var", "median", "mode", "logdet", "norm", "dist", "cov", "heaviside", "copysign",
                  "nextafter", "ldexp", "frexp", "is_same_size", "is_set_to", "new_empty", "new_full", "to_sparse", "count_nonzero", "swapaxes"}
