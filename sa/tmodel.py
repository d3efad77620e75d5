"""Abstract semantics of tensors (torch / NumPy): shapes, dtypes, devices,
storage aliasing, autograd bookkeeping and element facts."""
import itertools
from fractions import Fraction

import vn as vnm
from dom import *
from interp import AbsRaise, LoopSplit, LoopList, MISSING, Stop

from tmodel_base import *


def known(l):
    """all symbols of the size are mutually distinct generic sizes"""
    return all(k in DECL or k.startswith("Z") for k, _ in l.t)


def num_unit(e, o):
    """in a product a tiny number is just a number, unless it multiplies a mask (only in sums and comparisons is it a guard)"""
    return 0 if e.unit == POLY and is_tiny(e.const) and not o.exact else e.unit


class TModel:
    keep_tiny = False
    def __init__(self, ip):
        self.ip = ip
        self.jmemo = {}
        self.nel = 0
        import tensorfns
        self.fns = tensorfns.TensorFns(self)

    # ------------------------------------------------------------ basics
    @property
    def st(self):
        return self.ip.st

    def site(self):
        return self.ip.site()

    def mk(self, shape, dt, dev, els, like=None, **kw):
        self.ip.nops += 1
        self.nel += len(els)
        if dt in R32:
            s = self.ip.func() + ":" + self.site()
            els = [e if e.exact else e.cp(r32=e.r32 | {s}) for e in els]
        els = [self.canon_real(e, dt) for e in els]
        if not self.ip.grad:
            els = [e.cp(live=EMPTY, dead=e.dead | frozenset((l, "no_grad") for l in e.live)) if e.live else e for e in els]
        return T(shape, dt, dev, els, **kw)

    def cat(self, dt):
        return cat_of(dt)

    def canon_real(self, e, dt):
        return e

    def wrap(self, x, dev=None):
        """operand -> T (python numbers become 0-d marker tensors with dt of weak kind)"""
        if isinstance(x, T):
            return x
        k = self.ip.scal_kind(x)
        return T((), {"bool": "bool", "int": "i64", "float": "f64", "complex": "c128"}.get(k, "f64"), "any", [self.ip.scal_elem(x)])

    def prom(self, ops, np_=False):
        """result dtype of operands [(dt, cls)], cls 0 dim>0 tensor,1 0-d tensor,2 python scalar"""
        best = None
        groups = ([], [], [])
        for dt, c in ops:
            if dt is None:
                return None
            groups[c].append(dt)
        if np_:
            # numpy: arrays and 0-d arrays alike, python scalars weak
            groups = (groups[0] + groups[1], [], groups[2])
        res = None
        for gi, g in enumerate(groups):
            if not g:
                continue
            r = g[0]
            for d in g[1:]:
                r = promote2(r, d)
            if gi == 2:
                # default dtypes of python scalars
                r = {"f64": "f32", "c128": "c64"}.get(r, r) if res is None or cat_of(res) is None or cat_of(r) > cat_of(res) else r
                if np_:
                    r = {"f32": "f64", "c64": "c128"}.get(r, r)
            if res is None:
                res = r
            elif cat_of(r) > cat_of(res):
                if cat_of(r) == 3 and gi > 0:
                    # complex of the precision of the stronger operand
                    if cat_of(res) == 2:
                        res = cplx_of(res) if gi == 2 else promote2(cplx_of(res), r) if res == "f64" else cplx_of(res)
                    else:
                        res = r
                else:
                    res = r
        return res

    # ------------------------------------------------------------ saved tensors
    def save(self, t, op):
        if not isinstance(t, T) or not self.ip.grad or t.dev == "any":
            return
        if len(t.sid) == 1:
            for s in t.sid:
                self.st.saved[s] = (op, self.site(), self.ip.func())

    def islive(self, *ts):
        return self.ip.grad and any(isinstance(t, T) and any(e.live for e in t.el) for t in ts)

    # ------------------------------------------------------------ writes
    def write(self, t, what):
        ip = self.ip
        for s in t.sid:
            o = ip.sid_owner.get(s)
            if o is not None:
                kind, name = o
                if kind == "user":
                    ip.emit("argwrite", "overwrites the caller's %s in place (%s)" % (name, what))
                elif kind == "module":
                    ip.emit("modwrite", "overwrites module-level %s in place (%s)" % (name, what))
                else:
                    ip.event("objwrite", name=name, what=what + " (in place)", ref=None)
            sv = self.st.saved.get(s)
            if sv is not None and not t.np:
                ip.emit("savedwrite", "overwrites a tensor the backward pass of '%s' (%s) still needs (%s)" % (sv[0], sv[1], what))
            elif sv is not None:
                ip.emit("savedwrite", "overwrites (NumPy view of) a tensor needed by the backward pass of '%s' (%s)" % (sv[0], what))
        if t.leafs and not t.np and ip.grad and any(e.live for e in t.el):
            ip.emit("leafwrite", "in-place write to a tensor that requires gradients (%s)" % what)
        if t.expd:
            ip.emit("expandwrite", "in-place write to an expanded view (%s)" % what)

    def map_values(self, f):
        """apply f to every T stored in frames and heap; returns nothing"""
        def go(v):
            if isinstance(v, T):
                return f(v)
            if isinstance(v, tuple):
                r = tuple(go(x) for x in v)
                return v if all(a is b for a, b in zip(r, v)) else r
            if isinstance(v, Seg):
                r = go(v.val)
                return v if r is v.val else v.cp(val=r)
            return v
        st = self.st
        for fr in st.frames.values():
            for k, v in list(fr.items()):
                if isinstance(v, (T, tuple)):
                    r = go(v)
                    if r is not v:
                        fr[k] = r
        for h, rec in list(st.heap.items()):
            if isinstance(rec, HList) and rec.items:
                n = [go(x) for x in rec.items]
                if any(a is not b for a, b in zip(n, rec.items)):
                    st.heap[h] = HList(n, rec.loop)
            elif isinstance(rec, HDict):
                n = {k: go(x) for k, x in rec.d.items()}
                if any(n[k] is not rec.d[k] for k in n):
                    st.heap[h] = HDict(n, rec.unk)
            elif isinstance(rec, HObj):
                n = {k: go(x) for k, x in rec.attrs.items()}
                if any(n[k] is not rec.attrs[k] for k in n):
                    st.heap[h] = HObj(rec.cls, n)

    def rebind(self, old, new):
        new.tid = old.tid
        ee = summ(new.el)

        def f(t):
            if t is new:
                return t
            if t.tid == old.tid:
                return new
            if t.sid & old.sid:
                els = [e.cp(v=vnm.fn("alias", e.v, ee.v), live=e.live | ee.live, dead=e.dead | ee.dead, mix=e.mix | ee.mix,
                            unit=join_unit(e.unit, ee.unit), r32=e.r32 | ee.r32, const=None, exact=False) for e in t.el]
                r = t.cp(el=els, pre=None)
                r.tid = t.tid
                return r
            return t
        self.map_values(f)

    def inplace(self, cur, r, what):
        """cur op= ..., r: computed result"""
        self.write(cur, what)
        if not isinstance(r, T):
            return r
        if cur.shape is not None and r.shape is not None and not self.shape_eq(cur.shape, r.shape):
            if len(r.shape) > len(cur.shape) or any(d and not c for d, c in zip(r.shape[::-1], cur.shape[::-1])):
                raise AbsRaise("RuntimeError", "output with shape %s doesn't match the broadcast shape %s" % (show(cur.shape), show(r.shape)))
        if cur.dt and r.dt and cat_of(r.dt) is not None and cat_of(r.dt) > (cat_of(cur.dt) or 0):
            raise AbsRaise("RuntimeError", "result type %s can't be cast to the output type %s" % (r.dt, cur.dt))
        n = self.mk(r.shape, cur.dt, cur.dev, list(r.el), sid=cur.sid, np=cur.np, view=cur.view, leafs=cur.leafs, pre=r.pre)
        self.rebind(cur, n)
        return n

    # ------------------------------------------------------------ shapes
    def shape_eq(self, a, b):
        return len(a) == len(b) and all(self.dim_eq(x, y) for x, y in zip(a, b))

    def dim_eq(self, x, y):
        return len(x) == len(y) and all(f.same(g) for f, g in zip(x, y))

    def bdim(self, x, y, what="broadcast"):
        if not x:
            return y
        if not y:
            return x
        if self.dim_eq(x, y):
            return x
        if dim_unknown(x) or dim_unknown(y):
            return y if dim_unknown(x) and not dim_unknown(y) else x
        if sorted(map(repr, x)) == sorted(map(repr, y)) and len(x) > 1:
            self.ip.emit("axismix", "combines a merged axis %s with %s" % (show((x,)), show((y,))))
            return udim()
        lx, ly = dim_lin(x), dim_lin(y)
        if lx == ly:
            return x
        if self.differs(lx, ly):
            raise AbsRaise("RuntimeError", "The size of tensor a (%r) must match the size of tensor b (%r)" % (lx, ly))
        return udim()

    def differs(self, lx, ly):
        """sizes that are generically different"""
        d = lx - ly
        if d.is_const:
            return d.c != 0
        if all(known(Lin({p: 1})) for l in (lx, ly) for k, _ in l.t for p in k.replace("(", "").replace(")", "").split("*")
               if not p.isdigit()):
            return True
        # a data-dependent order count versus a batch size
        ks = [k for k, _ in lx.t] + [k for k, _ in ly.t]
        bat = [k for k in ks if all(p in BATCH for p in k.split("*"))]
        return len(bat) == 1 and len(ks) == 2 and all(k in bat or k[0] in "ij" for k in ks)

    def bshape(self, shapes):
        if any(s is None for s in shapes):
            return None
        n = max([len(s) for s in shapes] or [0])
        out = []
        for i in range(n):
            d = ()
            for s in shapes:
                j = i - (n - len(s))
                if j >= 0:
                    d = self.bdim(d, s[j])
            out.append(d)
        return tuple(out)

    def axis_start(self, shape):
        """(fac, start) of the order axis in shape"""
        if shape is None:
            return None
        for d in shape:
            for f in d:
                if f.order:
                    return f.start
        return None

    def aligned(self, t, rshape):
        """els of t seen from result shape (order axis alignment)"""
        if rshape is None or t.shape is None:
            return t.el
        a, b = self.axis_start(t.shape), self.axis_start(rshape)
        if a is None or b is None or a == b:
            return t.el
        d = as_lin(a) - as_lin(b)
        if d.is_const:
            return [e.cp(v=vnm.shift(e.v, d.c)) if len(e.v.w) > 1 else e for e in t.el]
        return [e.cp(v=vnm.fn("misalign", e.v, repr(d))) if len(e.v.w) > 1 else e for e in t.el]

    def csizes(self, d):
        r = 1
        for f in d:
            if f.k == "c":
                r *= f.n
        return r

    def bindex(self, shape, rshape):
        """for each result const position the const position in shape"""
        rs = [self.csizes(d) for d in rshape]
        off = len(rshape) - len(shape)
        strides = [0] * len(rshape)
        st = 1
        for i in range(len(shape) - 1, -1, -1):
            c = self.csizes(shape[i])
            if c > 1:
                strides[i + off] = st if c == rs[i + off] else 0
            st *= c
        out = [0]
        for i, n in enumerate(rs):
            out = [o + k * strides[i] for o in out for k in range(n)]
        return out

    def expand_els(self, t, rshape):
        els = self.aligned(t, rshape)
        if rshape is None or t.shape is None:
            return [summ(els)]
        if nels(rshape) > MAXEL:
            return [summ(els)]
        if nels(t.shape) != len(els):
            return [summ(els)] * nels(rshape)
        if len(els) == 1:
            return els * nels(rshape)
        if nels(rshape) == 0:
            return []
        ix = self.bindex(t.shape, rshape)
        if len(ix) != nels(rshape) or max(ix) >= len(els):
            return [summ(els)] * nels(rshape)
        return [els[i] for i in ix]

    def device(self, ts, what, strict=False):
        dev = None
        for t in ts:
            if t.dev == "any":
                continue
            if dev is None:
                dev = t
                continue
            if t.dev == dev.dev or t.dev is None or dev.dev is None:
                if t.dev is None:
                    continue
                continue
            z1 = dev.shape == () and dev.dev == "cpu" and not strict
            z2 = t.shape == () and t.dev == "cpu" and not strict
            if z2:
                continue
            if z1:
                dev = t
                continue
            self.ip.emit("devmix", "combines tensors on %s and %s (%s)" % (self.dn(dev.dev), self.dn(t.dev), what))
            if t.dev != "cpu":
                dev = t
        return dev.dev if dev is not None else "cpu"

    def dn(self, d):
        return "the input device" if d == "D" else "the default device (cpu)" if d == "cpu" else str(d)

    # ------------------------------------------------------------ elementwise core
    def elementwise(self, ops, f, dt, what, strict=False, np_=None, rdt=None):
        """ops: list of T; f(list of Elem) -> Elem"""
        rshape = self.bshape([t.shape for t in ops])
        ref = None
        cols = [self.expand_els(t, rshape) for t in ops]
        n = max(len(c) for c in cols)
        cols = [c if len(c) == n else c * n for c in cols]
        memo = {}
        els = []
        for col in zip(*cols):
            k = tuple(map(id, col))
            r = memo.get(k)
            if r is None:
                r = memo[k] = f(list(col))
            els.append(r)
        pre = None
        m = max([len(t.pre) for t in ops if t.pre] or [0])
        if m and rshape is not None and self.axis_start(rshape) is not None:
            pre = []
            for p in range(m):
                pc = []
                for t in ops:
                    pc.append(self.pre_els(t, p, rshape))
                pre.append([f(list(c)) for c in zip(*pc)])
        dev = self.device(ops, what, strict)
        if np_ is None:
            np_ = any(t.np for t in ops)
        return self.mk(rshape, dt, dev, els, np=np_, pre=pre)

    def pre_els(self, t, p, rshape):
        """els of t at leading order position p, expanded to rshape"""
        if t.pre and p < len(t.pre):
            tt = T(t.shape, t.dt, t.dev, t.pre[p])
            return self.expand_els(tt, rshape)
        a = self.axis_start(t.shape) if t.shape is not None else None
        if a is None:
            return self.expand_els(t, rshape)
        tt = T(t.shape, t.dt, t.dev, [self.el_at(e, as_lin(a) + p) for e in t.el])
        return self.expand_els(tt, rshape)

    def el_at(self, e, pos):
        """element at axis label pos (Lin)"""
        if len(e.v.w) == 1:
            return e
        return e.cp(v=self.v_at(e.v, pos), const=None)

    def v_at(self, v, pos):
        if len(v.w) == 1:
            return v
        pos = as_lin(pos)
        its = [(k, c) for k, c in pos.t if k.startswith("it") and k in LOOPS]
        rest = Lin({k: c for k, c in pos.t if not (k.startswith("it") and k in LOOPS)}, pos.c)
        if len(its) == 1 and its[0][1] == 1 and rest.is_const:
            return vnm.shift(v, rest.c)
        if not its:
            if pos.is_const and v == vnm.index(0):
                return vnm.scal(pos.c)
            ini = self.ip.mu_init_at(v, pos) if pos.is_const else None
            if ini is not None:
                return ini
            if v == vnm.index(0):
                return lin_vn(pos)
            return vnm.collapse(v, repr(pos))
        return vnm.fn("at", v, repr(rest), tuple(c for _, c in its))

    def at_iota(self, val, pos):
        if isinstance(val, T):
            r = val.cp(el=[self.el_at(e, pos) for e in val.el], sid=val.sid)
            r.tid = val.tid
            return r
        if isinstance(val, S):
            if val.kind == "int" and val.lin is not None:
                loops = [k for k, _ in val.lin.t if k.startswith("it") and k in LOOPS]
                if len(loops) == 1:
                    c = dict(val.lin.t)[loops[0]]
                    return lin_val(Lin({a: b for a, b in val.lin.t if a != loops[0]}, val.lin.c) + as_lin(pos).scale(c))
                return val
            return S(val.kind, self.el_at(val.el, pos))
        if isinstance(val, tuple):
            return tuple(self.at_iota(x, pos) for x in val)
        if isinstance(val, Top):
            return Top(val.why, self.v_at(val.v, pos), val.live, val.dead)
        return val

    def retag(self, val, fn, fac=None):
        ax = frozenset()
        for f in (fac or ()):
            ax |= f.batch()
        if isinstance(val, T):
            r = val.cp(el=[e.cp(v=fn(e.v), const=None, mix=e.mix | ax) for e in val.el], sid=val.sid)
            return r
        if isinstance(val, S) and val.kind != "int":
            return S(val.kind, val.el.cp(v=fn(val.el.v), mix=val.el.mix | ax))
        if isinstance(val, tuple):
            return tuple(self.retag(x, fn, fac) for x in val)
        return val

    # ------------------------------------------------------------ element arithmetic
    def u_same(self, es, what):
        u = POLY
        for e in es:
            if e.unit is UNK:
                u = UNK
            elif e.unit == POLY:
                continue
            elif u == POLY:
                u = e.unit
            elif u is UNK:
                continue
            elif u != e.unit:
                self.ip.emit("unit", "%s combines quantities of dimension length^%s and length^%s" % (what, u, e.unit))
                return UNK
        return u

    def u_zero(self, e, what):
        if e.unit not in (0, POLY, UNK):
            self.ip.emit("unit", "%s of a quantity of dimension length^%s" % (what, e.unit))
        return 0 if e.unit is not UNK else UNK

    def merge(self, es, v, unit, exact=False, const=None):
        if const is not None:
            r = const_elem(const)
            return r
        if len(es) == 1:
            e = es[0]
            return Elem(v, e.live, e.dead, e.mix, unit, e.r32, exact)
        live, dead, mix, r32 = es[0].live, es[0].dead, es[0].mix, es[0].r32
        for e in es[1:]:
            if e.live:
                live = live | e.live
            if e.dead:
                dead = dead | e.dead
            if e.mix:
                mix = mix | e.mix
            if e.r32:
                r32 = r32 | e.r32
        return Elem(v, live, dead, mix, unit, r32, exact)

    def el_add(self, a, b, sub=False):
        if a.const is not None and b.const is not None:
            try:
                return self.merge([a, b], None, None, const=(a.const - b.const if sub else a.const + b.const))
            except Exception:
                pass
        what = "a difference" if sub else "a sum"
        u = self.u_same([a, b], what)
        if is_tiny(b.const) and not self.keep_tiny:
            v = a.v
        elif is_tiny(a.const) and not self.keep_tiny:
            v = vnm.neg(b.v) if sub else b.v
        else:
            v = vnm.sub(a.v, b.v) if sub else vnm.add(a.v, b.v)
        return self.merge([a, b], v, u, a.exact and b.exact)

    def el_mul(self, a, b):
        if a.const is not None and b.const is not None:
            try:
                return self.merge([a, b], None, None, const=a.const * b.const)
            except Exception:
                pass
        x, y = num_unit(a, b), num_unit(b, a)
        u = UNK if x is UNK or y is UNK else POLY if POLY in (x, y) else x + y
        r = self.merge([a, b], vnm.mul(a.v, b.v), u, a.exact and b.exact)
        if is_tiny(a.const) or is_tiny(b.const):
            # eps * x: still a guard if x is one / a mask
            pass
        return r

    def el_div(self, a, b):
        if a.const is not None and b.const is not None:
            try:
                if b.const != 0:
                    return self.merge([a, b], None, None, const=a.const / b.const)
            except Exception:
                pass
        x, y = num_unit(a, b), num_unit(b, a)
        u = UNK if x is UNK or y is UNK else POLY if POLY in (x, y) else x - y
        ex = a.exact and b.const in (1, 2, 4, 8, 0.5, 0.25, 10**0)
        return self.merge([a, b], vnm.div(a.v, b.v), u, ex)

    def el_pow(self, a, b):
        c = b.const
        if a.const is not None and c is not None:
            try:
                r = a.const ** c
                return self.merge([a, b], None, None, const=r)
            except Exception:
                pass
        if c is not None and not isinstance(c, complex):
            fr = Fraction(c).limit_denominator(64)
            if abs(float(fr) - c) < 1e-12:
                u = a.unit if a.unit in (POLY, UNK) else a.unit * fr
                if u not in (POLY, UNK) and u == int(u):
                    u = int(u)
                if fr.denominator == 1:
                    v = vnm.powi(a.v, fr.numerator)
                elif fr.denominator == 2:
                    v = vnm.powi(vnm.sqrt(a.v), fr.numerator)
                else:
                    v = vnm.fn("pow", a.v, str(fr))
                return self.merge([a], v, u, a.exact and fr.denominator == 1 and fr > 0)
            return self.merge([a], vnm.fn("pow", a.v, repr(c)), UNK if a.unit not in (0, POLY) else a.unit)
        self.u_zero(b, "an exponent")
        u = a.unit if a.unit in (0, UNK) else (0 if a.unit == POLY else UNK)
        return self.merge([a, b], vnm.fn("powe", a.v, b.v), u)

    def lt_v(self, a, b):
        """value number of a < b"""
        if a == b:
            return vnm.ZERO
        if self.ip.ranks is not None:
            sg = self.ip.rank_sign(a, b)
            if sg is not None:
                return vnm.ONE if sg < 0 else vnm.ZERO
        rg = self.ip.region
        if rg:
            q = vnm.div(a, b)
            if q in rg:
                return vnm.ONE if rg[q] else vnm.ZERO
            d = vnm.sub(a, b)
            if d in rg:
                return vnm.ONE if rg[d] else vnm.ZERO
        return vnm.fnr("lt0", vnm.sub(a, b))

    def el_cmp(self, op, a, b):
        if a.const is not None and b.const is not None:
            x, y = a.const, b.const
            try:
                r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y,
                     "Eq": lambda: x == y, "NotEq": lambda: x != y}[op]()
                return const_elem(bool(r))
            except Exception:
                pass
        self.u_same([a, b], "a comparison")
        mix = a.mix | b.mix
        rg = self.ip.regime
        if rg is not None and op not in ("Eq", "NotEq"):
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x.const is None and isinstance(y.const, (int, float)) and abs(y.const) > 1e-3:
                    lt = rg < y.const
                    return const_elem(lt if (op in ("Lt", "LtE")) != sw else not lt)
        if self.ip.ranks is not None:
            sg = self.ip.rank_sign(a.v, b.v)
            if sg is not None:
                return const_elem({"Lt": sg < 0, "LtE": sg <= 0, "Gt": sg > 0, "GtE": sg >= 0, "Eq": sg == 0, "NotEq": sg != 0}[op])
        v = self.cmp_v(op, a, b)
        return Elem(v, EMPTY, EMPTY, mix, 0, EMPTY, True)

    def cmp_v(self, op, a, b):
        x, y = a.v, b.v
        if op in ("Eq", "NotEq"):
            if x == y:
                v = vnm.ONE
            elif (b.const == 0 and b.const is not None and not isinstance(b.const, bool) and a.const is None) or \
                    (a.const == 0 and a.const is not None and not isinstance(a.const, bool) and b.const is None):
                v = vnm.ZERO          # exact zero: measure-zero guard
            else:
                d = vnm.sub(x, y)
                v = vnm.fnr("eq0", vnm.mul(d, d))
                if self.ip.generic:
                    v = vnm.ZERO
            return v if op == "Eq" else vnm.sub(vnm.ONE, v)
        if op in ("Gt", "GtE"):
            a, b, x, y = b, a, y, x
            op = "Lt" if op == "Gt" else "LtE"
        side = self.ip.side
        if side is not None and x == y and ("r_probe" in a.live) != ("r_probe" in b.live):
            # a probe point on an interface, taken as just inside (True) or outside
            return vnm.ONE if ("r_probe" in a.live) == side else vnm.ZERO
        # tiny guards: |x| < eps
        if is_tiny(b.const) and a.const is None:
            return vnm.ZERO
        if is_tiny(a.const) and b.const is None:
            return vnm.ONE
        if op == "Lt":
            return self.lt_v(x, y)
        return vnm.sub(vnm.ONE, self.lt_v(y, x))

    # ------------------------------------------------------------ operators
    def fail(self, why, *args):
        """unknown result"""
        live = dead = EMPTY
        vs = []
        for a in args:
            if isinstance(a, T):
                live = live | a.live()
                dead = dead | a.dead()
            elif isinstance(a, Top):
                live, dead = live | a.live, dead | a.dead
            elif isinstance(a, S):
                live, dead = live | a.el.live, dead | a.el.dead
            vs.append(self.ip.val_vn(a))
        return Top(why, vnm.bag("unk", why, *vs), live, dead)

    def binop(self, op, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return self.fail("op" + op, a, b)
        ta, tb = self.wrap(a), self.wrap(b)
        np_ = ta.np or tb.np
        cls = lambda x, t: 2 if not isinstance(x, T) else (1 if t.shape == () else 0)
        if op == "MatMult":
            return self.fns.matmul(ta, tb)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.logical(op, ta, tb)
        dt = self.prom([(ta.dt, cls(a, ta)), (tb.dt, cls(b, tb))], np_)
        live = self.islive(ta, tb)
        if op in ("Add", "Sub"):
            if op == "Sub" and dt == "bool" and not np_:
                raise AbsRaise("RuntimeError", "Subtraction with two bool tensors is not supported")
            r = self.elementwise([ta, tb], lambda c: self.el_add(c[0], c[1], op == "Sub"), dt, op)
            r.lin = self.lin_op(op, a, b, ta, tb)
            return r
        if op == "Mult":
            if live:
                if self.islive(ta):
                    self.save(b, "mul")
                if self.islive(tb):
                    self.save(a, "mul")
            r = self.elementwise([ta, tb], lambda c: self.el_mul(c[0], c[1]), dt, op)
            r.lin = self.lin_op(op, a, b, ta, tb)
            return r
        if op == "Div":
            if cat_of(dt) in (0, 1):
                dt = "f64" if np_ else "f32"
            if live:
                self.save(b, "div")
                if self.islive(tb):
                    self.save(a, "div")
            return self.elementwise([ta, tb], lambda c: self.el_div(c[0], c[1]), dt, op)
        if op == "Pow":
            if live:
                self.save(a, "pow")
                if isinstance(b, T):
                    self.save(b, "pow")
            if isinstance(b, (int, float)) and cat_of(ta.dt) == 1 and isinstance(b, int) and b < 0 and not np_:
                raise AbsRaise("RuntimeError", "Integers to negative integer powers are not allowed.")
            r = self.elementwise([ta, tb], lambda c: self.el_pow(c[0], c[1]), dt, op)
            if live and isinstance(b, T):
                self.save(r, "pow")
            return r
        if op in ("FloorDiv", "Mod"):
            def f(c):
                e = self.merge(c, vnm.fn(op, c[0].v, c[1].v), UNK)
                if op == "FloorDiv":
                    e.dead, e.live = e.dead | frozenset((l, "floor division") for l in e.live), EMPTY
                return e
            return self.elementwise([ta, tb], f, dt, op)
        raise AbsRaise("TypeError", "unsupported tensor operation %s" % op)

    def lin_op(self, op, a, b, ta, tb):
        la = ta.lin if isinstance(a, T) else ((as_lin(a),) * 2 if as_lin(a) is not None else None)
        lb = tb.lin if isinstance(b, T) else ((as_lin(b),) * 2 if as_lin(b) is not None else None)
        if la is None or lb is None:
            return None
        if op == "Add":
            return (la[0] + lb[0], la[1] + lb[1])
        if op == "Sub":
            return (la[0] - lb[1], la[1] - lb[0])
        if op == "Mult":
            for x, y in ((la, lb), (lb, la)):
                if y[0] == y[1] and y[0].is_const:
                    c = y[0].c
                    return (x[0].scale(c), x[1].scale(c)) if c >= 0 else (x[1].scale(c), x[0].scale(c))
        return None

    def as_scalar_lin(self, t):
        if isinstance(t, T):
            if t.lin is not None and t.lin[0] == t.lin[1]:
                return t.lin[0]
            return None
        return as_lin(t)

    def logical(self, op, ta, tb):
        def f(c):
            m = {"BitAnd": self.m_and, "BitOr": self.m_or, "BitXor": lambda x, y: vnm.fn("xor", x, y)}[op](c[0].v, c[1].v)
            return Elem(m, EMPTY, EMPTY, c[0].mix | c[1].mix, 0, EMPTY, True)
        dt = "bool" if ta.dt == tb.dt == "bool" else promote2(ta.dt, tb.dt)
        return self.elementwise([ta, tb], f, dt, op)

    def m_and(self, a, b):
        if a == vnm.ONE or a == b:
            return b
        if b == vnm.ONE:
            return a
        if vnm.ZERO in (a, b) or vnm.add(a, b) == vnm.ONE:
            return vnm.ZERO
        return vnm.mul(a, b)

    def m_or(self, a, b):
        n = lambda x: vnm.sub(vnm.ONE, x)
        return n(self.m_and(n(a), n(b)))

    def scalar_binop(self, op, a, b):
        ip = self.ip
        if not isinstance(a, S) and not isinstance(b, S):
            import operator as o
            fn = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod,
                  "Pow": o.pow, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift, "RShift": o.rshift}.get(op)
            try:
                return fn(a, b)
            except (TypeError, ZeroDivisionError, OverflowError, ValueError) as e:
                raise AbsRaise(type(e).__name__, str(e))
        ka, kb = ip.scal_kind(a), ip.scal_kind(b)
        la, lb = as_lin(a), as_lin(b)
        if la is not None and lb is not None and op in ("Add", "Sub", "Mult"):
            if op == "Add":
                r = la + lb
            elif op == "Sub":
                r = la - lb
            elif la.is_const or lb.is_const:
                r = lb.scale(la.c) if la.is_const else la.scale(lb.c)
            else:
                r = None
            if r is not None:
                v = lin_val(r)
                if isinstance(v, S):
                    # keep facts about the data it came from
                    ea, eb = ip.scal_elem(a), ip.scal_elem(b)
                    v.el.mix = ea.mix | eb.mix
                return v
        if op in ("BitAnd", "BitOr", "BitXor") and ka == kb == "bool":
            x, y = ip.scal_elem(a).v, ip.scal_elem(b).v
            return S("bool", Elem({"BitAnd": self.m_and, "BitOr": self.m_or}.get(op, lambda p, q: vnm.fn("xor", p, q))(x, y)))
        ea, eb = ip.scal_elem(a), ip.scal_elem(b)
        order = ["bool", "int", "float", "complex"]
        k = order[max(order.index(ka or "float"), order.index(kb or "float"), 1)]
        if op == "Add" or op == "Sub":
            return S(k, self.el_add(ea, eb, op == "Sub"))
        if op == "Mult":
            return S(k, self.el_mul(ea, eb))
        if op == "Div":
            return S("complex" if k == "complex" else "float", self.el_div(ea, eb))
        if op == "Pow":
            return S(k, self.el_pow(ea, eb))
        if op in ("FloorDiv", "Mod"):
            if k == "int":
                nm = "i%x" % (vnm.h(op, vnm.mid(ea.v), vnm.mid(eb.v)) & 0xffffffffff)
                x = lin_lb(la) if la is not None else None
                LB.setdefault(nm, 0 if x is not None and x >= 0 else None)
                return S("int", self.merge([ea, eb], vnm.fn(op, ea.v, eb.v), 0), lin=sym(nm))
            return S(k, self.merge([ea, eb], vnm.fn(op, ea.v, eb.v), UNK))
        return S(k, self.merge([ea, eb], vnm.fn(op, ea.v, eb.v), UNK))

    def compare(self, op, a, b):
        ta, tb = self.wrap(a), self.wrap(b)
        la, lb = self.as_scalar_lin(a), self.as_scalar_lin(b)
        if la is not None and lb is not None and (isinstance(a, T) and a.shape == () or not isinstance(a, T)) and \
                (not isinstance(b, T) or b.shape == ()):
            r = self.lin_cmp(op, la, lb)
            if r is not None:
                t = T((), "bool", ta.dev if ta.dev != "any" else tb.dev, [const_elem(r)])
                return t
        if op in ("Lt", "LtE", "Gt", "GtE") and not (ta.np or tb.np):
            for t, x in ((ta, a), (tb, b)):
                if t.dt in CPLX and (isinstance(x, T)):
                    raise AbsRaise("RuntimeError", "ordering comparison of complex tensors is not supported")
        return self.elementwise([ta, tb], lambda c: self.el_cmp(op, c[0], c[1]), "bool", "comparison")

    def lin_cmp(self, op, a, b):
        """decide comparison of Lins: True/False/None; may raise LoopSplit"""
        d = a - b
        if op in ("Gt", "GtE"):
            return self.lin_cmp("Lt" if op == "Gt" else "LtE", b, a)
        if op in ("Eq", "NotEq"):
            if d.is_const:
                return (d.c == 0) == (op == "Eq")
            lo, up = lin_lb(d), lin_ub(d)
            if lo is not None and lo > 0 or up is not None and up < 0:
                return op == "NotEq"
            s = self.try_split(d, "Eq")
            if s is not None:
                return s
            if self.differs(a, b) and not any(k in LOOPS for k, _ in d.t):
                # sizes: generically different
                if not (a.is_const or b.is_const):
                    return op == "NotEq"
                c, l = (a, b) if a.is_const else (b, a)
                if all(all(p in BATCH for p in k.split("*")) for k, _ in l.t):
                    return op == "NotEq"
            return None
        if op == "LtE":
            d = d - 1
        # decide d < 0
        up = lin_ub(d)
        if up is not None and up < 0:
            return True
        lo = lin_lb(d)
        if lo is not None and lo >= 0:
            return False
        return self.try_split(d, "Lt")

    def try_split(self, d, op):
        """undecided d (cmp) 0 involving an active loop symbol: split the loop"""
        for k, c in d.t:
            if k in self.ip.track_loops and c in (1, -1):
                rest = Lin({x: y for x, y in d.t if x != k}, d.c)
                lo, hi = LOOPS[k]
                # c*k + rest < 0
                if op == "Lt":
                    at = (-rest) if c == 1 else (rest + 1)      # k < -rest ; k > rest -> k >= rest+1
                    cands = [at]
                else:
                    p = -rest if c == 1 else rest
                    cands = [p, p + 1]
                for at in cands:
                    a, b = lin_lb(at - lo), lin_lb(hi - at)
                    if a is not None and a >= 0 and b is not None and b >= 0 and not at == lo and not at == hi:
                        raise LoopSplit(k, at)
        return None

    def scalar_compare(self, op, a, b):
        if not isinstance(a, S) and not isinstance(b, S):
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
                        "Eq": lambda: a == b, "NotEq": lambda: a != b}[op]()
            except TypeError as e:
                raise AbsRaise("TypeError", str(e))
        la, lb = as_lin(a), as_lin(b)
        if la is not None and lb is not None:
            r = self.lin_cmp(op, la, lb)
            if r is not None:
                return r
            # lin of a boolean: the condition means lin > 0
            d = {"Gt": la - lb, "GtE": la - lb + 1, "Lt": lb - la, "LtE": lb - la + 1}.get(op)
            return S("bool", self.el_cmp(op, self.ip.scal_elem(lin_val(la)), self.ip.scal_elem(lin_val(lb))), lin=d)
        ka, kb = self.ip.scal_kind(a), self.ip.scal_kind(b)
        if op not in ("Eq", "NotEq") and "complex" in (ka, kb):
            raise AbsRaise("TypeError", "'%s' not supported between complex numbers" % op)
        return S("bool", self.el_cmp(op, self.ip.scal_elem(a), self.ip.scal_elem(b)))

    def neg(self, x):
        if isinstance(x, T):
            if x.dt == "bool" and not x.np:
                raise AbsRaise("RuntimeError", "Negation of a bool tensor is not supported")
            r = self.elementwise([x], lambda c: self.merge([c[0]], vnm.neg(c[0].v), c[0].unit, c[0].exact,
                                                           const=(-c[0].const if c[0].const is not None else None)), x.dt, "neg")
            if x.lin is not None:
                r.lin = (-x.lin[1], -x.lin[0])
            return r
        if isinstance(x, S):
            if x.kind == "int":
                return lin_val(-x.lin)
            return S(x.kind, x.el.cp(v=vnm.neg(x.el.v), const=None))
        return -x

    def invert(self, x):
        if isinstance(x, T):
            if x.dt == "bool":
                return self.elementwise([x], lambda c: Elem(vnm.sub(vnm.ONE, c[0].v), EMPTY, EMPTY, c[0].mix, 0, EMPTY, True), "bool", "not")
            return self.elementwise([x], lambda c: self.merge([c[0]], vnm.fn("inv", c[0].v), 0), x.dt, "invert")
        if isinstance(x, S):
            return S("int", Elem(vnm.fn("inv", x.el.v)))
        return ~x

    def as_index(self, t):
        """T used as list index"""
        if not isinstance(t, T):
            return t
        if t.shape is not None and any(d for d in t.shape if not dim_unknown(d)):
            raise AbsRaise("TypeError", "only integer tensors of a single element can be converted to an index")
        if cat_of(t.dt) not in (0, 1):
            raise AbsRaise("TypeError", "only integer tensors of a single element can be converted to an index")
        return self.to_int(t)

    def to_int(self, t):
        """int(t)"""
        l = self.as_scalar_lin(t)
        if l is not None:
            return lin_val(l)
        e = summ(t.el) if isinstance(t, T) else t.el
        if e.const is not None and not isinstance(e.const, complex) and e.const == e.const and abs(e.const) != float("inf"):
            return int(e.const)
        integral = isinstance(t, T) and cat_of(t.dt) == 1
        v = e.v if integral else vnm.fnr("int", e.v)
        nm = "i%x" % (vnm.mid(v)[0] & 0xffffffffff)
        LB.setdefault(nm, 1)
        vnm.INTV[nm] = v
        return S("int", Elem(v, unit=0), lin=sym(nm))

    # ------------------------------------------------------------ join
    def join(self, a, b, m):
        if a.tid == b.tid and a is b:
            return a
        key = (id(a), id(b), m)
        r = self.jmemo.get(key)
        if r is not None and r[0] is a and r[1] is b:
            return r[2]
        site = "join"
        if a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
            shape = None
        else:
            shape = []
            for x, y in zip(a.shape, b.shape):
                if self.dim_eq(x, y):
                    shape.append(x)
                else:
                    shape.append(udim())
            shape = tuple(shape)
        if shape is not None and self.shape_eq(a.shape, b.shape):
            eb = self.aligned(b, a.shape)
            els = [join_elem(x, y, site, m) for x, y in zip(a.el, eb)] if len(a.el) == len(eb) else [join_elem(summ(a.el), summ(eb), site, m)]
            shape = a.shape
        else:
            els = [join_elem(summ(a.el), summ(b.el), site, m)]
            if shape is not None:
                els = els * nels(shape)
        pre = None
        if a.pre and b.pre and len(a.pre) == len(b.pre):
            pre = [[join_elem(x, y, site, m) for x, y in zip(p, q)] for p, q in zip(a.pre, b.pre)]
        lin = a.lin if a.lin == b.lin else None
        r = T(shape, a.dt if a.dt == b.dt else None, a.dev if a.dev == b.dev else (a.dev if b.dev == "any" else b.dev if a.dev == "any" else None),
              els, sid=a.sid | b.sid, np=a.np and b.np, view=a.view or b.view, expd=a.expd and b.expd,
              leafs=a.leafs | b.leafs, idx_of=a.idx_of if a.idx_of == b.idx_of else None, lin=lin, pre=pre)
        if a.tid == b.tid:
            r.tid = a.tid
        if len(self.jmemo) > 20000:
            self.jmemo.clear()
        self.jmemo[key] = (a, b, r)
        return r

    # ------------------------------------------------------------ indexing
    def norm_index(self, t, idx):
        """-> list of components, one per consumed dim (None entries for new axes)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        comps = []
        for i in idx:
            if isinstance(i, Ref):
                r = self.ip.get(i)
                if isinstance(r, HList):
                    if r.items is None:
                        comps.append(Top("idx"))
                    else:
                        comps.append(("list", r.items))
                    continue
            comps.append(i)
        nd = len(t.shape)
        used = 0
        for c in comps:
            if c is None or isinstance(c, Ext):
                continue
            if isinstance(c, T) and c.dt == "bool":
                if c.shape is None:
                    return None
                used += len(c.shape)
            else:
                used += 1
        if used > nd:
            raise AbsRaise("IndexError", "too many indices for tensor of dimension %d" % nd)
        out = []
        seen = False
        for c in comps:
            if isinstance(c, Ext) and c.path == "Ellipsis":
                if seen:
                    raise AbsRaise("IndexError", "two ellipses")
                seen = True
                out += [slice(None)] * (nd - used)
            else:
                out.append(c)
        if not seen:
            out += [slice(None)] * (nd - used)
        return out

    def select(self, t, idx):
        """plan of an indexing operation.  Returns None if unknown, else list of
        (kind, ...) steps and the resulting dims with per-dim const selection."""
        comps = self.norm_index(t, idx)
        if comps is None:
            return None
        plan = []
        di = 0
        for c in comps:
            if c is None:
                plan.append(("new",))
                continue
            if isinstance(c, bool):
                return None
            if isinstance(c, T) and c.dt == "bool":
                n = len(c.shape)
                plan.append(("mask", di, n, c))
                di += n
                continue
            d = t.shape[di]
            if isinstance(c, slice):
                plan.append(self.plan_slice(t, di, d, c))
            elif isinstance(c, T) and c.idx_of is not None:
                plan.append(("mask1", di, c))
            elif isinstance(c, T) and c.shape == () and cat_of(c.dt) == 1:
                l = self.as_scalar_lin(c)
                if l is None and len(c.el) == 1 and type(c.el[0].const) is int:
                    l = Lin((), c.el[0].const)
                plan.append(self.plan_int(di, d, lin_val(l)) if l is not None else ("gather0", di, c))
            elif isinstance(c, T):
                if cat_of(c.dt) not in (0, 1, None):
                    raise AbsRaise("IndexError", "tensors used as indices must be long, byte or bool tensors")
                plan.append(("gather", di, c))
            elif isinstance(c, tuple) and c and c[0] == "list":
                if all(isinstance(x, int) and not isinstance(x, bool) for x in c[1]):
                    plan.append(("pick", di, list(c[1])))
                else:
                    return None
            elif isinstance(c, (int, S)):
                plan.append(self.plan_int(di, d, c))
            elif isinstance(c, Top):
                return None
            else:
                raise AbsRaise("IndexError", "only integers, slices, ellipsis, None and tensors are valid indices (got %s)" % self.ip.tname(c))
            di += 1
        if any(p is None for p in plan):
            return None
        return plan

    def plan_int(self, di, d, c):
        l = as_lin(c)
        if l is None:
            if isinstance(c, S) and c.kind in ("float", "complex"):
                raise AbsRaise("IndexError", "index must be an integer, not %s" % c.kind)
            return ("gather0", di, c)
        n = dim_lin(d)
        if l.is_const and n.is_const:
            if not (-n.c <= l.c < n.c):
                raise AbsRaise("IndexError", "index %d is out of bounds for dimension with size %d" % (l.c, n.c))
            return ("int", di, l if l.c >= 0 else l + n.c)
        if l.is_const and l.c < 0:
            if not dim_unknown(d):
                up = lin_ub(n)
                if up is not None and up < -l.c:
                    raise AbsRaise("IndexError", "index %d is out of bounds" % l.c)
            return ("int", di, n + l.c)
        # bounds
        if not dim_unknown(d):
            rel = lin_lb(l - n)
            if rel is not None and rel >= 0 and not any(k[0] in "ij" for k, _ in l.t):
                raise AbsRaise("IndexError", "index %r is out of bounds for dimension with size %r" % (l, n))
            if l.is_const and not n.is_const and l.c >= 1:
                lo = lin_lb(n)
                if lo is not None and lo <= l.c and d[0].order:
                    self.ip.event("smallindex", at=repr(l), size=repr(n))
        return ("int", di, l)

    def plan_slice(self, t, di, d, s):
        a, b, st = s.start, s.stop, s.step
        if a is None and b is None and st is None:
            return ("all", di)
        cv = lambda x: self.as_index(x) if isinstance(x, T) else x
        a, b, st = cv(a), cv(b), cv(st)
        if any(isinstance(x, Top) for x in (a, b, st)):
            return None
        for x in (a, b, st):
            if not (x is None or as_lin(x) is not None):
                raise AbsRaise("TypeError", "slice indices must be integers or None")
        n = dim_lin(d)
        la = Lin((), 0) if a is None else as_lin(a)
        lb_ = n if b is None else as_lin(b)
        ls = Lin((), 1) if st is None else as_lin(st)
        if ls.is_const and ls.c <= 0 and not t.np:
            raise AbsRaise("ValueError", "step must be greater than zero")
        if ls.is_const and ls.c == -1 and a is None and b is None:
            return ("flip", di)
        if a is not None and la.is_const and la.c < 0:
            la = n + la.c
        if b is not None and lb_.is_const and lb_.c < 0:
            lb_ = n + lb_.c
        if n.is_const and la.is_const and lb_.is_const and ls.is_const:
            return ("pick", di, list(range(n.c))[slice(max(0, la.c), max(0, lb_.c), ls.c)])
        if not (ls == 1):
            return ("sub", di, repr((repr(la), repr(lb_), repr(ls))))
        if dim_unknown(d):
            return ("sub", di, repr((repr(la), repr(lb_))))
        # stop beyond the end?
        over = lin_lb(lb_ - n)
        if over is not None and over >= 0:
            lb_ = n
        if la == 0 and lb_ == n:
            return ("all", di)
        return ("range", di, la, lb_)

    def getitem(self, t, idx):
        if isinstance(idx, Top) or t.shape is None:
            return self.fail("index", t, *(idx if isinstance(idx, tuple) else (idx,)))
        if not t.shape and not (isinstance(idx, tuple) or isinstance(idx, (T, Ext, type(None)))) and not isinstance(idx, slice):
            raise AbsRaise("IndexError", "invalid index of a 0-dim tensor")
        plan = self.select(t, idx)
        if plan is None:
            return self.fail("index", t)
        return self.apply_plan(t, plan)

    def const_order(self, t, d):
        """order axis of known small length -> separate elements"""
        if isinstance(t, T) and t.shape and len(t.shape[d]) == 1:
            f = t.shape[d][0]
            if f.k == "s" and f.order and f.n.is_const and 0 < f.n.c <= 8:
                plan = [("all", i) for i in range(len(t.shape))]
                plan[d] = ("range", d, Lin((), 0), f.n)
                r = self.apply_plan(t, plan)
                if isinstance(r, T):
                    return r
        return t

    def apply_plan(self, t, plan):
        """value of t[plan]"""
        shape = t.shape
        csz = [self.csizes(d) for d in shape]
        ok_el = nels(shape) == len(t.el)
        els_src = t.el if ok_el else [summ(t.el)] * max(1, nels(shape) if nels(shape) <= MAXEL else 1)
        sel = []           # per source dim list of const positions
        newdims = []
        vf = []            # transforms of els (after selection)
        view = True
        pre = t.pre
        gathers = [p for p in plan if p[0] in ("gather",)]
        expo = []
        for p in plan:
            k = p[0]
            if k == "new":
                newdims.append(())
                continue
            di = p[1]
            if k == "mask":
                n, m = p[2], p[3]
                for j in range(n):
                    md, sd = m.shape[j], shape[di + j]
                    if not self.dim_eq(md, sd) and not dim_unknown(md) and not dim_unknown(sd):
                        if self.differs(dim_lin(md), dim_lin(sd)) or not md or not sd:
                            raise AbsRaise("IndexError", "The shape of the mask %s does not match the indexed tensor %s" % (show(m.shape), show(shape)))
                    sel.append(list(range(csz[di + j])))
                key = self.mask_key(m)
                nd = tuple(f for j in range(n) for f in shape[di + j]) + (Fac("m", key),)
                newdims.append(nd)
                mm = summ(m.el)
                if mm.mix:
                    vf.append(lambda e, q=mm.mix: e.cp(mix=e.mix | q))
                view = False
                if self.islive(t):
                    self.save(m, "index")
                continue
            d = shape[di]
            if k == "all":
                sel.append(list(range(csz[di])))
                newdims.append(d)
            elif k == "int":
                l = p[2]
                if not d:
                    sel.append([0])
                elif all(f.k == "c" for f in d):
                    if l.is_const:
                        sel.append([l.c])
                    else:
                        its = [q for q, _ in l.t if q in LOOPS]
                        if its and len(its) == 1 and its[0] in self.ip.track_loops:
                            lo, hi = LOOPS[its[0]]
                            raise_split = lin_val(lo + 1)
                        sel.append(("sum", list(range(csz[di])), repr(l)))
                elif len(d) == 1 and d[0].k == "s":
                    sel.append([0])
                    f = d[0]
                    if f.order:
                        pos = l + as_lin(f.start)
                        if pre is not None and l.is_const and l.c < len(pre):
                            els_src = pre[l.c]
                        else:
                            vf.append(lambda e, q=pos: self.el_at(e, q))
                        pre = None
                    else:
                        own = [q for q, c in l.t if q in LOOPS]
                        if len(own) == 1 and own[0].startswith("ib") and l == Lin({own[0]: 1}) and LOOPS[own[0]][1] == dim_lin(d):
                            pass
                        else:
                            ax = f.batch()
                            vf.append(lambda e, q=repr(l), x=ax: e.cp(v=vnm.fn("at", e.v, q), mix=e.mix | x, const=e.const))
                else:
                    ax = frozenset().union(*[f.batch() for f in d])
                    sel.append(("sum", list(range(csz[di])), repr(l)))
                    vf.append(lambda e, q=repr(l), x=ax: e.cp(v=vnm.fn("at", e.v, q), mix=e.mix | x, const=e.const))
            elif k == "pick":
                pos = p[2]
                if not d:
                    sel.append([0] * len(pos))
                    if not pos:
                        if any(q[0] not in ("all", "new") for q in plan[plan.index(p) + 1:]):
                            return self.fail("empty selection", t)
                        return T(tuple(newdims) + ((Fac("c", 0),),) + tuple(shape[di + 1:]), t.dt, t.dev, [], sid=t.sid, view=True)
                    newdims.append(cdim(len(pos)))
                elif len(d) == 1 and d[0].k == "c":
                    if not pos:
                        # empty selection
                        return T(tuple(newdims) + ((Fac("c", 0),),) + tuple(shape[di + 1:]), t.dt, t.dev, [], sid=t.sid, view=True)
                    bad = [x for x in pos if not -d[0].n <= x < d[0].n]
                    if bad:
                        raise AbsRaise("IndexError", "index %d is out of bounds" % bad[0])
                    sel.append([x % d[0].n for x in pos])
                    newdims.append(cdim(len(pos)))
                else:
                    return self.fail("pick", t)
            elif k == "range":
                la, lb_ = p[2], p[3]
                n = lb_ - la
                if len(d) == 1 and d[0].k == "s":
                    f = d[0]
                    if f.order:
                        if n.is_const and n.c >= 0 and n.c <= 6 and la.is_const:
                            if n.c == 0:
                                return self.fail("empty", t)
                            # constant number of leading orders
                            sel.append(("orders", [la + i for i in range(n.c)], f))
                            newdims.append(cdim(n.c))
                            pre = pre
                        else:
                            sel.append([0])
                            newdims.append((Fac("s", n, self.padd(f.start, la)),))
                            if pre is not None:
                                pre = pre[la.c:] if la.is_const else None
                                pre = pre or None
                    else:
                        ax = f.batch()
                        full = n == f.n
                        sel.append([0])
                        newdims.append(ldim(n))
                        vf.append(lambda e, q=repr((la, lb_)), x=ax: e.cp(v=vnm.fn("part", e.v, q), mix=e.mix | x))
                else:
                    return self.fail("slice", t)
            elif k == "flip":
                sel.append(list(range(csz[di]))[::-1])
                newdims.append(d)
                ax = frozenset().union(*[f.batch() for f in d]) if d else frozenset()
                if ax:
                    vf.append(lambda e, x=ax: e.cp(v=vnm.fn("flip", e.v), mix=e.mix | x))
                elif any(f.order for f in d):
                    vf.append(lambda e: e.cp(v=vnm.fn("flip", e.v), const=None))
                    pre = None
            elif k == "sub":
                ax = frozenset().union(*[f.batch() for f in d]) if d else frozenset()
                sel.append(("sum", list(range(csz[di])), p[2]))
                newdims.append(udim())
                vf.append(lambda e, q=p[2], x=ax: e.cp(v=vnm.fn("part", e.v, q), mix=e.mix | x))
            elif k == "mask1":
                c = p[2]
                sel.append(list(range(csz[di])))
                newdims.append(d + (Fac("m", c.idx_of[0]),))
                if c.idx_of[1]:
                    vf.append(lambda e, q=c.idx_of[1]: e.cp(mix=e.mix | q))
                view = False
            elif k == "gather0":
                c = p[2]
                ev = summ(c.el) if isinstance(c, T) else self.ip.scal_elem(c)
                ax = frozenset().union(*[f.batch() for f in d]) if d else frozenset()
                sel.append(("sum", list(range(csz[di])), "g"))
                vf.append(lambda e, q=ev, x=ax: e.cp(v=vnm.fn("gather", e.v, q.v), mix=e.mix | x | q.mix, const=None))
            elif k == "gather":
                c = p[2]
                sel.append(("gather", list(range(csz[di])), c, len(newdims)))
                newdims.append(("G", c))
                view = False
            else:
                return self.fail(k, t)
        # several integer index tensors: pairwise selection
        gs = [(i, s) for i, s in enumerate(sel) if isinstance(s, tuple) and s[0] == "gather"]
        if gs:
            return self.gather(t, els_src, sel, newdims, gs, vf, csz)
        # source positions
        pos = [0]
        sums = False
        orders = None
        for di, n in enumerate(csz):
            s = sel[di]
            if isinstance(s, tuple) and s[0] == "orders":
                orders = (di, s)
                s = [0]
                # expanded below
                pos = [(o if isinstance(o, tuple) else (o, None)) for o in pos]
                pos = [(o[0] * n, j) for o in pos for j in range(len(orders[1][1]))]
                continue
            if isinstance(s, tuple):
                sums = True
                s = s[1]
            pos = [((o[0] * n + k, o[1]) if isinstance(o, tuple) else o * n + k) for o in pos for k in s]
        if orders is not None:
            f = orders[1][2]
            els = []
            for o, j in pos:
                l = orders[1][1][j]
                if t.pre and l.is_const and l.c < len(t.pre):
                    els.append(t.pre[l.c][o])
                else:
                    els.append(self.el_at(els_src[o], l + as_lin(f.start)))
            pre = None
        else:
            if not els_src and nels(shape) == 0:
                pos = []
            els = [els_src[o] for o in pos] if len(els_src) != 1 or nels(shape) == 1 else [els_src[0]] * len(pos)
        npre = None
        if pre is not None:
            npre = []
            for row in pre:
                r = [row[o] if len(row) > 1 else row[0] for o in pos]
                for f_ in vf:
                    r = [f_(e) for e in r]
                npre.append(r)
        for f_ in vf:
            memo = {}
            out = []
            for e in els:
                r = memo.get(id(e))
                if r is None:
                    r = memo[id(e)] = f_(e)
                out.append(r)
            els = out
        if sums:
            e = summ(els)
            els = [e] * max(1, nels(tuple(newdims)))
        nshape = tuple(newdims)
        if not els and els_src:
            els = [summ(els_src)]
        sid = t.sid if view else None
        scalarnp = t.np
        lin = None
        if t.lin is not None:
            if t.lin[0] == t.lin[1] or all(p[0] in ("all", "new") for p in plan):
                lin = t.lin
            elif len(els) == 1 and els[0].const is not None and isinstance(els[0].const, int):
                lin = (Lin((), els[0].const),) * 2
            elif len(shape) == 1 and plan and plan[0][0] == "int" and shape[0] and shape[0][0].k == "s":
                # element of a range
                q = t.lin[0] + plan[0][2]
                lin = (q, q)
            elif len(shape) == 1 and plan and plan[0][0] == "range":
                lin = (t.lin[0] + plan[0][2], t.lin[0] + plan[0][3] - 1)
        return T(nshape, t.dt, t.dev, els, sid=sid, np=scalarnp, view=view, expd=t.expd and view,
                 leafs=t.leafs if view else EMPTY, lin=lin, pre=npre)

    def padd(self, start, la):
        r = as_lin(start) + la
        return r.c if r.is_const else r

    def mask_key(self, m):
        """identity of a boolean mask's selection"""
        vs = []
        for e in m.el:
            if not vs or vs[-1] != e.v:
                vs.append(e.v)
        if len(vs) == 1:
            return vnm.mid(vnm.bag("mask", vs[0]))[0]
        return vnm.mid(vnm.bag("mask", *vs))[0]

    def gather(self, t, els_src, sel, newdims, gs, vf, csz):
        shape = t.shape
        idxs = [s[2] for _, s in gs]
        ish = self.bshape([c.shape for c in idxs])
        if ish is None:
            return self.fail("gather", t)
        consts = all(all(e.const is not None for e in c.el) for c in idxs) and all(
            d and len(d) == 1 and d[0].k == "c" for d in (shape[i] for i, _ in gs))
        # output dims
        out = []
        done = False
        gpos = [i for i, d in enumerate(newdims) if isinstance(d, tuple) and len(d) == 2 and d[0] == "G" and isinstance(d[1], T)]
        adjacent = gpos == list(range(gpos[0], gpos[0] + len(gpos)))
        nd = []
        if not adjacent:
            nd += list(ish)
        for i, d in enumerate(newdims):
            if i in gpos:
                if adjacent and not done:
                    nd += list(ish)
                    done = True
            else:
                nd.append(d)
        nd = tuple(nd)
        gdims = [i for i, _ in gs]
        if consts:
            n = nels(ish)
            cols = [self.expand_els(c, ish) for c in idxs]
            before = 1
            els = []
            gi0 = gdims[0]
            def rec(di, base, gsel):
                # yields positions; gather dims take gsel
                if di == len(csz):
                    return [base]
                s = sel[di]
                if di in gdims:
                    k = cols[gdims.index(di)][gsel].const
                    k = int(k)
                    if not -csz[di] <= k < csz[di]:
                        raise AbsRaise("IndexError", "index %d out of bounds" % k)
                    return rec(di + 1, base * csz[di] + k % csz[di], gsel)
                if isinstance(s, tuple):
                    s = s[1]
                r = []
                for k in s:
                    r += rec(di + 1, base * csz[di] + k, gsel)
                return r
            # leading const dims before the first gather dim
            lead = [sel[i] if not isinstance(sel[i], tuple) else sel[i][1] for i in range(gi0)] if adjacent else []
            combos = list(itertools.product(*lead)) if adjacent else [()]
            for cb in combos:
                b0 = 0
                for i, k in enumerate(cb):
                    b0 = b0 * csz[i] + k
                for g in range(n):
                    els += [els_src[q if len(els_src) > 1 else 0] for q in rec(gi0 if adjacent else 0, b0, g)]
            for f_ in vf:
                els = [f_(e) for e in els]
            return T(nd, t.dt, t.dev, els, np=t.np)
        # data-dependent gather
        ax = frozenset()
        for i in gdims:
            for f in shape[i]:
                ax |= f.batch()
        iv = [self.expand_els(c, ish) for c in idxs]
        src = summ(els_src)
        cols = [self.expand_els(T(ish, c.dt, "cpu", c.el if len(c.el) > 1 else [c.el[0]] * max(1, nels(ish))), nd) if nels(nd) <= MAXEL else [summ(c.el)] for c in idxs]
        els = []
        for j in range(max(1, nels(nd)) if nels(nd) <= MAXEL else 1):
            ee = [c[j if len(c) > 1 else 0] for c in cols]
            mix = src.mix | ax
            for x in ee:
                mix = mix | x.mix
            els.append(src.cp(v=vnm.fn("gather", src.v, *[x.v for x in ee]), mix=mix, const=None))
        for f_ in vf:
            els = [f_(e) for e in els]
        for c in idxs:
            if c.dev not in ("cpu", "any", None) and t.dev not in (c.dev, None):
                self.ip.emit("devmix", "indexes a tensor on %s with indices on %s" % (self.dn(t.dev), self.dn(c.dev)))
        return self.mk(nd, t.dt, t.dev, els, np=t.np)

    def elem_of(self, t, itl):
        """iterating over the first axis: member at loop position itl"""
        return self.apply_plan(t, [self.plan_int(0, t.shape[0], lin_val(itl))] + [("all", i) for i in range(1, len(t.shape))])

    # ------------------------------------------------------------ item assignment
    def setitem(self, o, idx, v):
        self.write(o, "item assignment")
        if isinstance(v, Top):
            ev = Elem(v.v, v.live, v.dead, EMPTY, UNK)
            n = o.cp(el=[e.cp(v=vnm.fn("set", e.v, ev.v), live=e.live | ev.live, dead=e.dead | ev.dead, unit=UNK, const=None) for e in o.el], sid=o.sid, pre=None)
            self.rebind(o, n)
            return
        if self.ip.is_list(v):
            v = self.fns.tensor(v, {}, alias=False)
        tv = self.wrap(v)
        if o.dt is not None and tv.dt in CPLX and o.dt not in CPLX and not o.np and isinstance(v, T):
            if not isinstance(idx, T):
                self.ip.emit("cplxcast", "complex values written into a real tensor")
        plan = self.select(o, idx) if o.shape is not None and not isinstance(idx, Top) else None
        if plan is None:
            ev = summ(tv.el)
            n = o.cp(el=[join_elem(e, ev, "set", vnm.fn("setm")) for e in o.el], sid=o.sid, pre=None)
            self.rebind(o, n)
            return
        masks = [p for p in plan if p[0] in ("mask", "mask1")]
        if masks and isinstance(v, T):
            if tv.dev != o.dev and not (tv.shape == () and tv.dev == "cpu") and tv.dev not in (None, "any") and o.dev is not None:
                self.ip.emit("devmix", "stores values on %s into a tensor on %s" % (self.dn(tv.dev), self.dn(o.dev)))
            if tv.dt is not None and o.dt is not None and tv.dt != o.dt and not o.np and tv.shape != ():
                raise AbsRaise("RuntimeError", "Index put requires the source and destination dtypes match, got %s for the destination and %s for the source." % (o.dt, tv.dt))
        elif isinstance(v, T) and any(p[0] == "gather" for p in plan) and tv.dt != o.dt and tv.shape != () and not o.np and tv.dt and o.dt:
            raise AbsRaise("RuntimeError", "Index put requires the source and destination dtypes match")
        if masks and self.islive(tv, o):
            for p in masks:
                self.save(p[-1], "index_put")
        n = self.assigned(o, plan, tv)
        self.rebind(o, n)

    def cast_el(self, e, o):
        u = e.unit
        if o.dt in R32 and not e.exact:
            return e.cp(r32=e.r32 | {self.ip.func() + ":" + self.site()})
        if o.dt is not None and cat_of(o.dt) == 2 and not e.v.real:
            return e.cp(v=vnm.re(e.v), const=None)
        return e

    def assigned(self, o, plan, tv):
        shape = o.shape
        csz = [self.csizes(d) for d in shape]
        old = list(o.el)
        # target sub-shape
        probe = T(shape, o.dt, o.dev, [Elem(vnm.const(i + 7)) for i in range(len(old))], sid=o.sid)
        target = self.apply_plan(probe, plan)
        if not isinstance(target, T) or target.shape is None:
            ev = summ(tv.el)
            return o.cp(el=[join_elem(e, ev, "set", vnm.fn("setm")) for e in old], sid=o.sid, pre=None)
        # broadcast check
        tsh = target.shape
        msk = [p for p in plan if p[0] in ("mask", "mask1")]
        vsh = tv.shape
        misfit = False
        if vsh is None:
            misfit = True
        else:
            lead = len(vsh) - len(tsh)
            if lead > 0 and any(vsh[:lead]):
                raise AbsRaise("RuntimeError", "shape mismatch: value tensor of shape %s cannot be broadcast to indexing result of shape %s" % (show(vsh), show(tsh)))
            vs = vsh[lead:] if lead > 0 else vsh
            for x, y in zip(vs[::-1], tsh[::-1]):
                if not x or self.dim_eq(x, y):
                    continue
                if dim_unknown(x) or dim_unknown(y):
                    misfit = True
                    continue
                mx, my = [f for f in x if f.k == "m"], [f for f in y if f.k == "m"]
                if mx and my:
                    if [f.n for f in mx] != [f.n for f in my]:
                        self.ip.emit("maskmix", "values selected by one mask are stored at the positions of another")
                    misfit = True
                    continue
                if not y or self.differs(dim_lin(x), dim_lin(y)):
                    raise AbsRaise("RuntimeError", "shape mismatch: value tensor of shape %s cannot be broadcast to indexing result of shape %s" % (show(vsh), show(tsh)))
                misfit = True
            tv2 = T(vs, tv.dt, tv.dev, tv.el, pre=tv.pre) if lead > 0 else tv
        if misfit:
            ev = summ(tv.el)
            m = vnm.fn("setpart", repr([p[0] for p in plan]))
            return o.cp(el=[join_elem(e, ev, "set", m) for e in old], sid=o.sid, pre=None)
        vals = self.expand_els(tv2, tsh)
        if len(vals) != nels(tsh):
            vals = [summ(vals)] * nels(tsh)
        # where does each target element come from (constant positions)
        src = self.positions(shape, plan, csz)
        if src is None or len(src) != len(vals):
            ev = summ(tv.el)
            return o.cp(el=[join_elem(e, ev, "set", vnm.fn("setm")) for e in old], sid=o.sid, pre=None)
        new = list(old)
        newpre = [list(r) for r in o.pre] if o.pre else None
        nshape = shape
        cond = vnm.ONE
        mm = [None] * len(old)
        order_part = None
        for p in plan:
            if p[0] == "mask":
                # per-element mask value
                m = p[3]
                sub = tuple(shape[p[1]:p[1] + p[2]])
                cm = self.expand_els(m, sub)
                lead = 1
                for c in csz[:p[1]]:
                    lead *= c
                inner = 1
                for c in csz[p[1]:p[1] + p[2]]:
                    inner *= c
                trail = 1
                for c in csz[p[1] + p[2]:]:
                    trail *= c
                for i in range(len(old)):
                    j = (i // trail) % inner
                    mm[i] = cm[j if len(cm) > 1 else 0]
            elif p[0] == "mask1":
                c = p[2]
                for i in range(len(old)):
                    mm[i] = Elem(c.idx_of[2], mix=c.idx_of[1])
            elif p[0] in ("int", "range") and shape[p[1]] and shape[p[1]][0].k == "s":
                f = shape[p[1]][0]
                if f.order and len(shape[p[1]]) == 1:
                    order_part = (p, f)
                else:
                    cond = vnm.fn("batchpart", repr(p[2:]))
                    own = None
                    if p[0] == "int":
                        own = [q for q, c in p[2].t if q in LOOPS]
                    if own and len(own) == 1 and own[0].startswith("ib") and p[2] == Lin({own[0]: 1}):
                        if LOOPS[own[0]][1] == f.n and LOOPS[own[0]][0] == 0:
                            cond = vnm.ONE
                        else:
                            for i in range(len(vals)):
                                pass
                    else:
                        vals = [e.cp(mix=e.mix | f.batch()) for e in vals]
        for i, s in enumerate(src):
            e = self.cast_el(vals[i], o)
            if mm[s] is not None:
                m = mm[s]
                if o.np or True:
                    u = join_unit(new[s].unit, e.unit)
                    if new[s].unit not in (POLY, UNK) and e.unit not in (POLY, UNK) and new[s].unit != e.unit:
                        self.ip.emit("unit", "stores a quantity of dimension length^%s among length^%s" % (e.unit, new[s].unit))
                        u = UNK
                mv = m.v
                r = Elem(vnm.where(mv, e.v, new[s].v) if mv != vnm.ZERO else new[s].v, e.live | new[s].live, e.dead | new[s].dead,
                         e.mix | new[s].mix | m.mix, u, e.r32 | new[s].r32, e.exact and new[s].exact)
                if mv == vnm.ONE:
                    r.v = e.v
                new[s] = r
            elif order_part is None:
                if cond != vnm.ONE:
                    new[s] = join_elem(e, new[s], "set", cond)
                else:
                    new[s] = e
        start = None
        if order_part is not None:
            p, f = order_part
            row = {}
            for i, s in enumerate(src):
                row[s] = self.cast_el(vals[i], o)
            return self.order_assign(o, p, f, row, tv2, csz)
        r = T(nshape, o.dt, o.dev, new, sid=o.sid, np=o.np, view=o.view, expd=False, leafs=o.leafs, pre=newpre)
        if newpre is not None:
            r.pre = None if not masks_only(plan) else newpre
            if masks_only(plan) and r.pre:
                r.pre = [[join_elem(x, new[i], "set", vnm.fn("setpre")) if x is not new[i] else x for i, x in enumerate(row)] for row in newpre]
        return r

    def positions(self, shape, plan, csz):
        """const positions of the source touched, in target element order"""
        per = []
        for p in plan:
            if p[0] == "new":
                continue
            if p[0] == "mask":
                for j in range(p[2]):
                    per.append(list(range(csz[p[1] + j])))
            elif p[0] in ("all", "mask1", "flip"):
                per.append(list(range(csz[p[1]])))
            elif p[0] == "int":
                d = shape[p[1]]
                if d and all(f.k == "c" for f in d):
                    if not p[2].is_const:
                        return None
                    per.append([p[2].c])
                else:
                    if csz[p[1]] != 1:
                        return None
                    per.append([0])
            elif p[0] == "pick":
                per.append([x % max(1, csz[p[1]]) for x in p[2]])
            elif p[0] == "range":
                if csz[p[1]] != 1:
                    return None
                per.append([0])
            elif p[0] == "gather":
                per.append(("g", p))
            else:
                return None
        gs = [(i, q) for i, q in enumerate(per) if isinstance(q, tuple)]
        if gs:
            cols = []
            for i, (_, p) in gs:
                c = p[2]
                if not all(e.const is not None for e in c.el) or c.shape is None or len(c.shape) != 1:
                    return None
                cols.append([int(e.const) for e in c.el])
            n = max(map(len, cols))
            cols = [c if len(c) == n else c * n for c in cols]
            ids = [i for i, _ in gs]
            if ids != list(range(ids[0], ids[0] + len(ids))):
                return None
            out = []
            groups = per[:ids[0]]
            after = per[ids[-1] + 1:]
            for cb in itertools.product(*groups):
                for g in range(n):
                    for ca in itertools.product(*after):
                        full = list(cb) + [c[g] for c in cols] + list(ca)
                        o = 0
                        for k, m in zip(full, csz):
                            o = o * m + k
                        out.append(o)
            return out
        out = [0]
        for q, n in zip(per, csz):
            out = [o * n + k for o in out for k in q]
        return out

    def order_assign(self, o, p, f, row, tv, csz):
        """write into (part of) the order axis.  row: const position -> Elem"""
        n = f.n
        els = list(o.el)
        pre = [list(r) for r in o.pre] if o.pre else []
        newf = f
        st0 = as_lin(f.start)
        mk = lambda els_, start, pre_: T(tuple(tuple(Fac("s", n, start) if g is f else g for g in d) for d in o.shape),
                                          o.dt, o.dev, els_, sid=o.sid, np=o.np, view=o.view, leafs=o.leafs, pre=pre_ or None)
        full = len(row) == len(els)
        if p[0] == "int":
            l = p[2]
            its = [(k, c) for k, c in l.t if k.startswith("it") and k in LOOPS]
            if l.is_const or (not its):
                if l.is_const and 0 <= l.c <= 4:
                    while len(pre) <= l.c:
                        q = len(pre)
                        pre.append([self.el_at(e, st0 + q) for e in els])
                    for s, e in row.items():
                        pre[l.c][s] = e
                    return mk(els, f.start, pre)
                els = [join_elem(row[i], e, "set", vnm.fn("orderpart", repr(l))) if i in row else e for i, e in enumerate(els)]
                return mk(els, f.start, pre)
            if len(its) == 1 and its[0][1] == 1:
                k = its[0][0]
                rest = Lin({a: b for a, b in l.t if a != k}, l.c)
                lo, hi = LOOPS[k]
                first, last = lo + rest, hi + rest          # rows first..last-1
                start = -rest
                # the law holds at iota = p - rest
                cover_lo = first.is_const and first.c <= max(len(pre), 0) or first == 0
                if (first == 0 or (first.is_const and 0 <= first.c <= 4)) and last == n and start.is_const:
                    npre = []
                    for q in range(first.c):
                        npre.append(pre[q] if q < len(pre) else [self.el_at(e, st0 + q) for e in els])
                    if not full:
                        if not (as_lin(start) == st0):
                            els = [e.cp(v=vnm.shift(e.v, (st0 - start).c)) if (st0 - start).is_const else e for e in els]
                    for i in row:
                        els[i] = row[i]
                    return mk(els, start.c, npre)
                els = [join_elem(row[i], e, "set", vnm.fn("orderpart", repr(l - Lin({k: 1})))) if i in row else e for i, e in enumerate(els)]
                return mk(els, f.start, pre)
            els = [join_elem(row[i], e, "set", vnm.fn("orderpart")) if i in row else e for i, e in enumerate(els)]
            return mk(els, f.start, pre)
        la, lb_ = p[2], p[3]
        if la.is_const and 0 <= la.c <= 4 and lb_ == n:
            # tail overwritten: head kept as special leading values
            npre = []
            for q in range(la.c):
                npre.append(pre[q] if q < len(pre) else [self.el_at(e, st0 + q) for e in els])
            # value tensor label: target axis position p (>= la); value position p-la
            vs = self.axis_start(tv.shape)
            if vs is not None:
                # row els were aligned to the target's axis (start + la)
                pass
            if tv.pre:
                sub = tuple(tuple(Fac("s", lb_ - la, self.padd(f.start, la)) if g is f else g for g in d) for d in o.shape)
                for q in range(len(tv.pre)):
                    ex = self.pre_els(tv, q, sub)
                    npre.append(list(ex) if len(ex) == len(els) else [ex[0]] * len(els))
            for i in row:
                els[i] = row[i]
            return mk(els, f.start, npre)
        els = [join_elem(row[i], e, "set", vnm.fn("orderpart", repr((la, lb_)))) if i in row else e for i, e in enumerate(els)]
        return mk(els, f.start, pre)

    # ------------------------------------------------------------ attributes
    def getattr(self, t, name):
        return self.fns.attr(t, name)

    def setattr(self, t, name, v):
        if name == "requires_grad":
            return
        if name == "data":
            self.write(t, "assignment to .data")
            return
        if name == "grad":
            return
        raise AbsRaise("AttributeError", "cannot set tensor attribute '%s'" % name)


def masks_only(plan):
    return all(p[0] in ("mask", "mask1", "all") for p in plan)
