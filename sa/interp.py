"""Abstract interpreter for the analysed package (interprocedural dataflow).

Every run parses the current sources.  Values are elements of the domains in
dom.py; branches whose condition is not decided by constants are both followed
and their results joined; loops of symbolic length are solved by a fixpoint.
"""
import ast
import os

import extapi
from desugar import desugar
import vn as vnm
from dom import *
from dom import _sub_loops

PKG = "pymiediff"


TREES = {}         # source text -> desugared syntax tree (not changed afterwards)


class AbsRaise(Exception):
    def __init__(self, etype, msg="", value=None, explicit=False):
        Exception.__init__(self, etype, msg)
        self.etype, self.msg, self.value, self.explicit = etype, msg, value, explicit
        self.site, self.func = None, None


class LoopSplit(Exception):
    def __init__(self, symname, at):
        self.symname, self.at = symname, at      # split at iota = at (Lin)


class Stop(Exception):
    """analysis budget exceeded"""


class Exc:
    """Flow info of an exceptional exit."""
    __slots__ = ("etype", "msg", "value", "explicit", "site", "state", "stack", "uncertain")

    def __init__(self, etype, msg, value, explicit, site, state, stack, uncertain):
        self.etype, self.msg, self.value, self.explicit = etype, msg, value, explicit
        self.site, self.state, self.stack, self.uncertain = site, state, stack, uncertain


class State:
    __slots__ = ("frames", "stack", "heap", "saved")

    def __init__(self):
        self.frames, self.stack, self.heap, self.saved = {}, [], {}, {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.stack = list(self.stack)
        s.heap = dict(self.heap)
        s.saved = dict(self.saved)
        return s


class Flows:
    def __init__(self):
        self.norm = None
        self.ret = []        # (state, value, guard)
        self.brk = []
        self.cont = []

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


class LoopList:
    """What a list looks like inside a symbolic loop that appends to it."""
    __slots__ = ("prefix", "app", "colour", "done", "proto", "reads", "front")

    def __init__(self, prefix, app, colour, done, proto, reads, front=False):
        self.prefix, self.app, self.colour, self.done = prefix, app, colour, done
        self.proto, self.reads, self.front = proto, reads, front

    def added(self, xs):
        return LoopList(self.prefix, self.app + list(xs), self.colour, self.done, self.proto, self.reads, self.front)


TYPENAMES = {"int", "float", "complex", "bool", "str", "list", "tuple", "dict", "set", "object", "type",
             "slice", "bytes", "frozenset"}
EXC_BASES = {
    "KeyError": ["LookupError", "Exception", "BaseException"],
    "IndexError": ["LookupError", "Exception", "BaseException"],
    "ModuleNotFoundError": ["ImportError", "Exception", "BaseException"],
    "UnboundLocalError": ["NameError", "Exception", "BaseException"],
    "NotImplementedError": ["RuntimeError", "Exception", "BaseException"],
    "ZeroDivisionError": ["ArithmeticError", "Exception", "BaseException"],
    "FileNotFoundError": ["OSError", "Exception", "BaseException"],
}
INTERNAL_ERRORS = {"TypeError", "AttributeError", "NameError", "UnboundLocalError", "IndexError", "KeyError",
                   "RuntimeError", "ImportError", "ModuleNotFoundError"}


class Missing:
    pass


MISSING = Missing()


class Interp:
    def __init__(self, root, missing=(), decide=False):
        self.root = root                       # <repo>/src
        self.missing = set(missing)
        self.decide = decide
        self.st = State()
        self.modules = {}
        self.asts = {}
        self.findings = []
        self._seen = set()
        self.events = []
        self.quiet = 0
        self.uncertain = 0
        self.site_ = ("", 0, "")
        self.callstack = []
        self.guard = vnm.ONE
        self.pending = [[]]                    # may-exceptions per try level
        self.owned = {}                        # heap id -> owner
        self.sid_owner = {}                    # storage id -> owner
        self.region = None                     # region oracle
        self.regime = None                     # assumed size of data compared with a constant
        self.ranks = None                      # assumed order of values: value number -> rank
        self.rdiff = {}
        self.side = None                       # side of an interface a coinciding probe point is taken to be on
        self.steps = 0
        self.max_steps = 3000000
        self.unmodelled = {}
        self.ncalls = 0
        self.nops = 0
        self.funcs_seen = set()
        self.hooks = {}
        self.depth = 0
        self.track_loops = []
        self.grad = True
        self.generic = False
        self.pos = None
        self.mu_reg = {}
        self.memo_fns, self.memo_tab, self.in_memo = set(), [], False
        self.fn_attrs = {}
        self.loaded = False
        self.distinct_keys = False             # generic position: dictionary keys with different values differ
        import tmodel
        import bmodel
        self.tm = tmodel.TModel(self)
        self.bm = bmodel.BModel(self)

    # ---------------------------------------------------------------- reporting
    def site(self):
        return "%s:%d" % (self.site_[0], self.site_[1])

    def func(self):
        return self.site_[2]

    def emit(self, kind, msg, **kw):
        if self.quiet:
            return
        st = "; ".join(self.callstack[-3:])
        key = (kind, self.site(), msg)
        if key in self._seen:
            return
        self._seen.add(key)
        self.findings.append(dict(kind=kind, site=self.site(), func=self.func(), msg=msg,
                                  uncertain=bool(self.uncertain), via=st, **kw))

    def event(self, kind, **kw):
        if self.quiet:
            return
        kw.update(kind=kind, site=self.site(), func=self.func(), uncertain=bool(self.uncertain))
        self.events.append(kw)

    # ---------------------------------------------------------------- heap
    def new(self, rec):
        r = Ref()
        self.st.heap[r.id] = rec
        return r

    def get(self, ref):
        return self.st.heap.get(ref.id)

    def put(self, ref, rec, what=""):
        o = self.owned.get(ref.id)
        if o is not None:
            self.heap_write(ref, o, what)
        self.st.heap[ref.id] = rec

    def heap_write(self, ref, owner, what):
        kind, name = owner
        if kind == "user":
            self.emit("argwrite", "modifies the caller's %s (%s)" % (name, what))
        elif kind == "module":
            self.emit("modwrite", "modifies module-level %s (%s)" % (name, what))
        elif kind == "object":
            self.event("objwrite", name=name, what=what, ref=ref.id)

    def new_list(self, items):
        return self.new(HList(items))

    def list_items(self, v):
        """items of a list/tuple value, None if unknown"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                return r.items if r.loop is None else None
            if isinstance(r, HSet):
                return r.items
        return None

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.get(v), HList)

    # ---------------------------------------------------------------- modules
    def modfile(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return Mod(name)
        parent = name.rpartition(".")[0]
        if parent and parent not in self.modules:
            self.load(parent)
            if name in self.modules:
                return Mod(name)
        fn, ispkg = self.modfile(name)
        if fn is None:
            raise AbsRaise("ModuleNotFoundError", "No module named '%s'" % name)
        src = open(fn, encoding="utf8").read()
        tree = TREES.get(src)
        if tree is None:
            tree = TREES[src] = desugar(ast.parse(src))
        self.asts[name] = tree
        fid = ("mod", name)
        self.modules[name] = (fn, ispkg)
        fr = self.st.frames.setdefault(fid, {})
        fr["__name__"] = name
        fr["__file__"] = fn
        fr.setdefault("__doc__", None)
        save = self.site_
        self.site_ = (os.path.relpath(fn, os.path.dirname(self.root)), 0, name)
        self.st.stack.append(fid)
        try:
            fl = self.exec_block(tree.body)
            if fl.norm is None:
                if not self.pending[-1]:
                    raise Stop("module %s does not complete" % name)
                x = self.pending[-1].pop()
                self.st = x.state.copy()
                self.modules.pop(name, None)
                e = AbsRaise(x.etype, x.msg, x.value, x.explicit)
                e.site = x.site
                raise e
            self.st = fl.norm
        finally:
            self.st.stack = [x for x in self.st.stack if x != fid] if fid not in self.st.stack[:-1] else self.st.stack[:-1]
            self.site_ = save
        if parent:
            self.st.frames[("mod", parent)][name.rpartition(".")[2]] = Mod(name)
        return Mod(name)

    def assume_order(self, ranks):
        """from now on these values are taken to be in this order"""
        self.ranks = dict(ranks)
        it = list(self.ranks.items())
        self.rdiff = {vnm.sub(a, b): (x > y) - (x < y) for a, x in it for b, y in it}

    def rank_sign(self, x, y):
        """sign of x - y under the assumed order, or None"""
        if self.ranks is None:
            return None
        if x in self.ranks and y in self.ranks:
            a, b = self.ranks[x], self.ranks[y]
            return (a > b) - (a < b)
        return self.rdiff.get(vnm.sub(x, y))

    def own_modules(self):
        """everything reachable from module globals is shared state"""
        self.loaded = True
        for fid, fr in self.st.frames.items():
            if isinstance(fid, tuple) and fid[0] == "mod":
                for k, v in fr.items():
                    self.own(v, ("module", fid[1] + "." + k))

    def own(self, v, owner, seen=None):
        seen = set() if seen is None else seen
        if isinstance(v, Ref):
            if v.id in seen:
                return
            seen.add(v.id)
            self.owned.setdefault(v.id, owner)
            r = self.get(v)
            if isinstance(r, (HList, HSet)) and r.items:
                for x in r.items:
                    self.own(x.val if isinstance(x, Seg) else x, owner, seen)
            elif isinstance(r, HDict):
                for x in r.d.values():
                    self.own(x, owner, seen)
            elif isinstance(r, HObj):
                for k, x in r.attrs.items():
                    self.own(x, (owner[0], owner[1] + "." + k), seen)
        elif isinstance(v, tuple):
            for x in v:
                self.own(x, owner, seen)
        elif isinstance(v, Cls) and id(v) not in seen:
            seen.add(id(v))
            for k, x in v.attrs.items():
                self.own(x, (owner[0], owner[1] + "." + k), seen)
        elif isinstance(v, T):
            for s in v.sid:
                self.sid_owner.setdefault(s, owner)

    # ---------------------------------------------------------------- joins
    def join_vals(self, a, b, m, depth=0):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return self.tm.join(a, b, m)
        if isinstance(a, (int, float, complex, bool, S)) and isinstance(b, (int, float, complex, bool, S)):
            if not isinstance(a, S) and not isinstance(b, S) and type(a) is type(b) and same_const(a, b):
                return a
            ea, eb = self.scal_elem(a), self.scal_elem(b)
            ka, kb = self.scal_kind(a), self.scal_kind(b)
            e = join_elem(ea, eb, "join", m)
            if ka == kb == "int":
                la, lb = as_lin(a), as_lin(b)
                if la == lb:
                    return a
                if m is not None and m == vnm.ONE and self.decide:
                    return a
                nm = "j%x" % (vnm.mid(e.v)[0] & 0xffffffffff)
                x, y = lin_lb(la), lin_lb(lb)
                LB[nm] = min(x, y) if x is not None and y is not None else None
                return S("int", e.cp(const=None), lin=sym(nm))
            if ka == kb == "bool":
                return S("bool", e)
            k = ka if ka == kb else ("complex" if "complex" in (ka, kb) else "float")
            return S(k, e)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_vals(x, y, m, depth + 1) for x, y in zip(a, b))
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, T) and isinstance(b, (int, float, complex)) or isinstance(b, T) and isinstance(a, (int, float, complex)):
            t, s = (a, b) if isinstance(a, T) else (b, a)
            if t.shape == ():
                ts = T((), t.dt, t.dev, [self.scal_elem(s)])
                return self.join_vals(t, ts, m) if a is t else self.join_vals(ts, t, m)
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn:
            return Bound(self.join_vals(a.self_, b.self_, m), a.fn)
        if isinstance(a, Ref) and isinstance(b, Ref) and depth < 6:
            ra, rb = self.get(a), self.get(b)
            if ra is not None and rb is not None and type(ra) is type(rb):
                rec = self.join_recs(ra, rb, m, depth + 1)
                if rec is not None:
                    return self.new(rec)
        return Top("join", vnm.bag("join", self.val_vn(a), self.val_vn(b)))

    def join_recs(self, a, b, m, depth=0):
        if a is b:
            return a
        if isinstance(a, HList):
            if a.items is not None and b.items is not None and len(a.items) != len(b.items) and self.pos is not None:
                ab = self.drop_empty(a, b)
                if ab is not None:
                    a, b = ab
            if a.items is None or b.items is None or len(a.items) != len(b.items) or (a.loop is None) != (b.loop is None):
                return HList(None)
            out = []
            for x, y in zip(a.items, b.items):
                if isinstance(x, Seg) or isinstance(y, Seg):
                    if isinstance(x, Seg) and isinstance(y, Seg) and x.n == y.n and x.off == y.off and x.rev == y.rev:
                        out.append(x.cp(val=self.join_vals(x.val, y.val, m, depth)))
                        continue
                    return HList(None)
                out.append(self.join_vals(x, y, m, depth))
            lp = a.loop
            if lp is not None:
                if len(a.loop.app) != len(b.loop.app):
                    return HList(None)
                lp = LoopList(lp.prefix, [self.join_vals(x, y, m, depth) for x, y in zip(a.loop.app, b.loop.app)],
                              lp.colour, lp.done, lp.proto, lp.reads, lp.front)
            return HList(out, lp, a.front and b.front)
        if isinstance(a, HDict):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                if k in a.d and k in b.d:
                    d[k] = self.join_vals(a.d[k], b.d[k], m, depth)
                else:
                    d[k] = a.d.get(k, b.d.get(k))
            unk = list(a.unk) + [x for x in b.unk if not any(x is y for y in a.unk)]
            return HDict(d, unk[:8])
        if isinstance(a, HObj):
            if a.cls is not b.cls and not a.cls == b.cls:
                return None
            d = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    d[k] = self.join_vals(a.attrs[k], b.attrs[k], m, depth)
                else:
                    d[k] = a.attrs.get(k, b.attrs.get(k))
            return HObj(a.cls, d)
        if isinstance(a, HSet):
            return HSet(list(a.items) + [x for x in b.items if x not in a.items])
        return None

    def join_states(self, a, b, m):
        if a is None:
            return b
        if b is None or a is b:
            return a
        out = State()
        out.stack = list(a.stack)
        self_st = self.st
        # a scratch state where both heaps are visible for record joins
        hp = dict(b.heap)
        hp.update(a.heap)
        scratch = State()
        scratch.heap = hp
        self.st = scratch
        try:
            for k in set(a.heap) & set(b.heap):
                x, y = a.heap[k], b.heap[k]
                if x is not y:
                    # joined records must look at their own versions
                    r = self.join_recs(x, y, m)
                    scratch.heap[k] = r if r is not None else HList(None)
            for fid in a.frames:
                if fid not in b.frames:
                    out.frames[fid] = a.frames[fid]
                    continue
                fa, fb = a.frames[fid], b.frames[fid]
                d = {}
                for k in fa:
                    if k in fb:
                        d[k] = fa[k] if fa[k] is fb[k] else self.join_vals(fa[k], fb[k], m)
                    else:
                        d[k] = fa[k]
                for k in fb:
                    if k not in d:
                        d[k] = fb[k]
                out.frames[fid] = d
            for fid in b.frames:
                if fid not in out.frames:
                    out.frames[fid] = b.frames[fid]
            out.heap = scratch.heap
        finally:
            self.st = self_st
        out.saved = dict(a.saved)
        for k, v in b.saved.items():
            out.saved.setdefault(k, v)
        return out

    def join_rets(self, rets):
        st, v, g = rets[-1]
        for st2, v2, g2 in reversed(rets[:-1]):
            hp = dict(st.heap)
            hp.update(st2.heap)
            j = self.join_states(st2, st, g2)
            self.st = j
            for k, r in hp.items():
                j.heap.setdefault(k, r)
            v = v2 if v2 is v else self.join_vals(v2, v, g2)
            st = j
        return st, v

    # ---------------------------------------------------------------- scalars
    def scal_kind(self, x):
        if isinstance(x, S):
            return x.kind
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, int):
            return "int"
        if isinstance(x, float):
            return "float"
        if isinstance(x, complex):
            return "complex"
        return None

    def scal_elem(self, x):
        if isinstance(x, S):
            return x.el
        return const_elem(x)

    def val_vn(self, v, depth=0):
        """provenance fingerprint of any value"""
        if isinstance(v, T):
            if len(v.el) == 1:
                return v.el[0].v
            return vnm.bag("T", *[e.v for e in v.el])
        if isinstance(v, S):
            return v.el.v
        if isinstance(v, (int, float, complex, bool)):
            return vnm.const(v)
        if isinstance(v, Top):
            return v.v
        if isinstance(v, (str, type(None))):
            return vnm.fn("py", v)
        if depth > 4:
            return vnm.fn("deep")
        if isinstance(v, tuple):
            return vnm.bag("seq", *[self.val_vn(x, depth + 1) for x in v])
        if isinstance(v, Seg):
            return vnm.bag("seg", repr(v.n), self.val_vn(v.val, depth + 1))
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                if r.items is None:
                    return vnm.fn("list?")
                return vnm.bag("seq", *[self.val_vn(x, depth + 1) for x in r.items])
            if isinstance(r, HDict):
                out = []
                for k in sorted(r.d, key=repr):
                    out += [repr(k), self.val_vn(r.d[k], depth + 1)]
                return vnm.bag("dict", *out)
            if isinstance(r, HObj):
                out = [getattr(r.cls, "name", str(r.cls))]
                for k in sorted(r.attrs):
                    out += [k, self.val_vn(r.attrs[k], depth + 1)]
                return vnm.bag("obj", *out)
        if isinstance(v, Ext):
            return vnm.fn("ext", v.path)
        return vnm.fn("val", repr(v))

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        """-> (True/False/'data'/'top', V or None)"""
        if isinstance(v, (bool, int, float, complex, str, bytes, type(None), tuple)):
            return bool(v), None
        if isinstance(v, S):
            if v.el.const is not None and v.kind != "int":
                return bool(v.el.const), None
            if v.kind == "int":
                if v.lin.is_const:
                    return v.lin.c != 0, None
                lo = lin_lb(v.lin)
                if lo is not None and lo > 0:
                    return True, None
                return "data", vnm.fnr("nz", v.el.v)
            m = v.el.v
            if v.kind != "bool":
                m = vnm.fnr("nz", m)
            if self.decide and m in (vnm.ZERO, vnm.ONE):
                return m == vnm.ONE, None
            return "data", m
        if isinstance(v, T):
            if v.shape is not None:
                for d in v.shape:
                    if d and not dim_unknown(d):
                        raise AbsRaise("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous")
            e = summ(v.el)
            if e.const is not None:
                return bool(e.const), None
            m = e.v if v.dt == "bool" else vnm.fnr("nz", e.v)
            if self.decide and m in (vnm.ZERO, vnm.ONE):
                return m == vnm.ONE, None
            return "data", m
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                if r.items is None:
                    return "top", None
                if not r.items and r.loop is None:
                    return False, None
                for x in r.items:
                    if not isinstance(x, Seg):
                        return True, None
                    lo = lin_lb(x.n)
                    if lo is not None and lo > 0:
                        return True, None
                return "data", vnm.fn("nonempty")
            if isinstance(r, HDict):
                if r.d:
                    return True, None
                return ("data", vnm.fn("nonempty")) if r.unk else (False, None)
            if isinstance(r, HSet):
                return bool(r.items), None
            return True, None
        if isinstance(v, Top):
            return "top", vnm.fnr("nz", v.v)
        return True, None

    def not_(self, v):
        t, m = self.truth(v)
        if t in (True, False):
            return not t
        if isinstance(v, Top) or t == "top":
            return Top("not", vnm.sub(vnm.ONE, m if m is not None else vnm.fn("?")))
        return S("bool", Elem(vnm.sub(vnm.ONE, m)))

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts):
        out = Flows()
        for s in stmts:
            fl = self.exec_stmt(s)
            if fl is None:
                continue
            out.absorb(fl)
            if fl.norm is None:
                return out
            self.st = fl.norm
        out.norm = self.st
        return out

    def raise_flow(self, e):
        x = Exc(e.etype, e.msg, e.value, e.explicit, self.site(), self.st, list(self.callstack), bool(self.uncertain))
        self.pending[-1].append(x)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stop("step budget")
        self.site_ = (self.site_[0], s.lineno, self.site_[2])
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Stop("statement %s" % type(s).__name__)
        try:
            return m(s)
        except AbsRaise as e:
            self.raise_flow(e)
            return Flows()

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value)

    def x_Pass(self, s):
        return None

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            rhs = self.ev(s.value)
            nv = self.aug(op, cur, rhs)
            if nv is not cur:
                self.assign(t, nv)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            idx = self.ev_index(t.slice)
            cur = self.getitem(obj, idx)
            rhs = self.ev(s.value)
            nv = self.aug(op, cur, rhs, nowrite=isinstance(obj, T))
            if isinstance(obj, T) and isinstance(cur, T) and isinstance(nv, T) and nv.dt and cur.dt and nv.dt != cur.dt:
                # an in-place operation keeps the type of the (selected) target
                if (self.tm.cat(nv.dt) or 0) > (self.tm.cat(cur.dt) or 0):
                    raise AbsRaise("RuntimeError", "result type %s can't be cast to the output type %s" % (nv.dt, cur.dt))
                nv = self.tm.fns.convert(nv, cur.dt, None)
            self.setitem(obj, idx, nv)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            cur = self.getattr(obj, t.attr)
            rhs = self.ev(s.value)
            nv = self.aug(op, cur, rhs)
            self.setattr(obj, t.attr, nv)
        else:
            raise Stop("augassign")

    def aug(self, op, cur, rhs, nowrite=False):
        if isinstance(cur, T) and not nowrite:
            r = self.tm.binop(op, cur, rhs)
            if isinstance(r, T):
                return self.tm.inplace(cur, r, "in-place %s=" % op)
            return r
        if self.is_list(cur) and op == "Add":
            rec = self.get(cur)
            items = self.list_items(rhs)
            if items is not None and rec.items is not None and rec.loop is not None and not rec.loop.front and \
                    not any(isinstance(x, Seg) for x in items):
                self.put(cur, HList(rec.items, rec.loop.added(items)), "+=")
            elif items is None or rec.items is None or rec.loop is not None:
                self.put(cur, HList(None), "+=")
            else:
                self.put(cur, HList(rec.items + items), "+=")
            return cur
        return self.binop(op, cur, rhs)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        fl = Flows()
        fl.ret = [(self.st, v, self.guard)]
        return fl

    def x_If(self, s):
        c = self.ev(s.test)
        t, m = self.truth(c)
        if t is True:
            return self.exec_block(s.body)
        if t is False:
            return self.exec_block(s.orelse)
        return self.branch(t, m, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse),
                           c.lin if isinstance(c, S) and c.kind == "bool" else None)

    def branch(self, t, m, fa, fb, pos=None):
        if m is None:
            m = vnm.fn("cond", self.site())
        base = self.st
        g0 = self.guard
        if t == "top":
            self.uncertain += 1
        self.st = base.copy()
        self.guard = vnm.mul(g0, m) if g0 != m else m
        try:
            a = fa()
            self.st = base.copy()
            self.guard = vnm.mul(g0, vnm.sub(vnm.ONE, m))
            b = fb()
        finally:
            if t == "top":
                self.uncertain -= 1
            self.guard = g0
        out = Flows()
        out.absorb(a)
        out.absorb(b)
        if a.norm is not None and b.norm is not None:
            sv, self.pos = self.pos, pos
            try:
                out.norm = self.join_states(a.norm, b.norm, m)
            finally:
                self.pos = sv
        else:
            out.norm = a.norm if a.norm is not None else b.norm
        return out

    def drop_empty(self, a, b):
        """list segments absent from the other branch whose length is zero there
        (the branch condition says self.pos > 0 in a, <= 0 in b)"""
        d = self.pos
        la, lb = len(a.items), len(b.items)
        big, small, neg = (a.items, b.items, d) if la > lb else (b.items, a.items, Lin((), 1) - d)
        need = abs(la - lb)
        out, j = [], 0
        for x in big:
            if need and isinstance(x, Seg) and (x.n - neg).is_const and (x.n - neg).c <= 0 and \
                    not (j < len(small) and isinstance(small[j], Seg) and small[j].n == x.n):
                out.append(x)
                need -= 1
                continue
            if j >= len(small):
                return None
            out.append(small[j])
            j += 1
        if need or j != len(small):
            return None
        return (a, HList(out, b.loop)) if la > lb else (HList(out, a.loop), b)

    def x_Assert(self, s):
        c = self.ev(s.test)
        t, m = self.truth(c)
        if t is True:
            return None
        if t is False:
            raise AbsRaise("AssertionError", "assertion fails", explicit=True)
        base = self.st
        self.st = base.copy()
        self.raise_flow(AbsRaise("AssertionError", "", explicit=True))
        self.st = base
        return None

    def x_Raise(self, s):
        if s.exc is None:
            raise AbsRaise("Exception", "re-raise", explicit=True)
        v = self.ev(s.exc)
        raise AbsRaise(self.exc_name(v), "", value=v, explicit=True)

    def exc_name(self, v):
        if isinstance(v, Ext):
            return v.path.split(".")[-1]
        if isinstance(v, Cls):
            return v.name
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HObj):
                return getattr(r.cls, "name", None) or str(getattr(r.cls, "path", "Exception")).split(".")[-1]
        return "Exception"

    def exc_matches(self, etype, typ):
        if typ is None:
            return True
        if isinstance(typ, tuple):
            return any(self.exc_matches(etype, t) for t in typ)
        if isinstance(typ, Ext):
            n = typ.path.split(".")[-1]
            return n == etype or n in EXC_BASES.get(etype, ["Exception", "BaseException"])
        if isinstance(typ, Cls):
            return typ.name == etype
        return True

    def x_Try(self, s):
        self.pending.append([])
        base_unc = self.uncertain
        depth = list(self.st.stack)
        fl = self.exec_block(s.body)
        excs = self.pending.pop()
        self.uncertain = base_unc
        out = Flows()
        out.absorb(fl)
        norms = []
        if fl.norm is not None:
            self.st = fl.norm
            e = self.exec_block(s.orelse)
            out.absorb(e)
            if e.norm is not None:
                norms.append(e.norm)
        rest = list(excs)
        for hd in s.handlers:
            if not rest:
                break
            typ = None
            if hd.type is not None:
                self.st = rest[0].state
                try:
                    typ = self.ev(hd.type)
                except AbsRaise:
                    typ = None
            mt = [x for x in rest if self.exc_matches(x.etype, typ)]
            if not mt:
                continue
            rest = [x for x in rest if x not in mt]
            st = mt[0].state.copy()
            for x in mt[1:]:
                st = self.join_states(st, x.state, vnm.fn("exc", self.site()))
            for f in st.stack[len(depth):]:
                st.frames.pop(f, None)
            st.stack = list(depth)
            self.st = st
            if hd.name:
                self.frame()[hd.name] = Top("exception")
            h2 = self.exec_block(hd.body)
            out.absorb(h2)
            if h2.norm is not None:
                norms.append(h2.norm)
        self.pending[-1] += rest
        nst = None
        for x in norms:
            nst = x if nst is None else self.join_states(nst, x, vnm.fn("exc", self.site()))
        out.norm = nst
        if s.finalbody and nst is not None:
            self.st = nst
            f = self.exec_block(s.finalbody)
            out.absorb(f)
            out.norm = f.norm
        return out

    def x_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if isinstance(v, Ref) and isinstance(self.get(v), HObj):
                self.event("with", path=str(getattr(getattr(self.get(v), "cls", None), "path", "")))
                m = self.find_method(self.get(v).cls, "__enter__") if isinstance(self.get(v).cls, Cls) else MISSING
                if m is not MISSING:
                    v = self.call(Bound(v, m), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        nograd = any("no_grad" in ast.dump(it.context_expr) or "inference_mode" in ast.dump(it.context_expr)
                     or "set_grad_enabled(False)" in ast.unparse(it.context_expr)
                     for it in s.items)
        g = self.grad
        if nograd:
            self.grad = False
        try:
            fl = self.exec_block(s.body)
        finally:
            self.grad = g
        return fl

    def x_FunctionDef(self, s):
        f = self.make_fn(s)
        for d in getattr(s, "decorator_list", []):
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") and isinstance(d.value, ast.Name):
                if d.attr == "setter":
                    self.frame()["__set_" + d.value.id] = f
                return
        for d in reversed(getattr(s, "decorator_list", [])):
            if isinstance(d, ast.Call):
                dn = ast.unparse(d.func)
            else:
                dn = ast.unparse(d)
            if dn.split(".")[-1] in ("lru_cache", "cache"):
                if isinstance(f, Fn):
                    self.memo_fns.add(id(f.node))
                continue
            if dn.split(".")[-1] in ("staticmethod", "classmethod", "property", "cached_property", "no_grad", "inference_mode", "once_differentiable", "wraps",
                                     "setter", "enable_grad", "abstractmethod", "overload"):
                continue
            v = self.ev(d)
            if isinstance(v, (Fn, Bound)):       # decorators written in Python; external ones are taken as transparent
                f = self.call(v, [f], {})
        self.frame()[s.name] = f

    def memo_key(self, args, kw):
        def k(v):
            if isinstance(v, T):
                return ("T", tuple(sorted(v.sid, key=repr)), id(v))
            if isinstance(v, Ref):
                return ("R", v.id)
            if isinstance(v, tuple):
                return tuple(k(x) for x in v)
            if isinstance(v, (Fn, Cls)):
                return id(v)
            return (type(v).__name__, self.val_vn(v))
        return tuple(k(a) for a in args), tuple(sorted((n, k(x)) for n, x in kw.items()))

    def make_fn(self, s, qual=None):
        mod = self.cur_mod()
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {p.arg: self.ev(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(s, "name", "<lambda>")
        encl = self.st.stack[-1]
        clos = tuple(f for f in self.st.stack[-1:] if not (isinstance(f, tuple) and f[0] == "mod"))
        q = qual or (self.func() + "." + name if clos else mod + "." + name)
        # enclosing chain: remember the defining frame
        f = Fn(name, s, mod, clos, defaults, kwd, q)
        for d in getattr(s, "decorator_list", []):
            dn = ast.unparse(d)
            if dn == "staticmethod":
                f.static = "static"
            elif dn == "classmethod":
                f.static = "class"
            elif dn.split(".")[-1] in ("property", "cached_property"):
                f.prop = True
            elif "no_grad" in dn or "inference_mode" in dn:
                f.static = f.static or None
                self.hooks.setdefault("nograd", set()).add(id(s))
        for v in defaults + list(kwd.values()):
            if isinstance(v, Ref):
                self.owned.setdefault(v.id, ("module", q + " default argument"))
            if isinstance(v, T):
                for sd in v.sid:
                    self.sid_owner.setdefault(sd, ("module", q + " default argument"))
        return f

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fid = ("cls", fresh())
        self.st.frames[fid] = {}
        q = self.cur_mod() + "." + s.name
        save = self.site_
        self.site_ = (save[0], s.lineno, q)
        self.st.stack.append(fid)
        mod = self.cur_mod()
        fl = self.exec_block(s.body)
        if fl.norm is None:
            raise Stop("class body")
        self.st = fl.norm
        self.st.stack.pop()
        attrs = self.st.frames.pop(fid)
        self.site_ = save
        c = Cls(s.name, bases, attrs, mod, q, s)
        for k, v in attrs.items():
            if isinstance(v, Fn):
                v.cls = c
                v.closure = tuple(x for x in v.closure if x != fid)
                v.qual = q + "." + k
        self.frame()[s.name] = c

    def x_Import(self, s):
        for a in s.names:
            v = self.import_module(a.name)
            if a.asname:
                self.frame()[a.asname] = v
            else:
                top = a.name.split(".")[0]
                self.frame()[top] = self.import_module(top)

    def x_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            cur = self.cur_mod()
            fn, ispkg = self.modules[cur]
            parts = cur.split(".")
            if not ispkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    fr = self.st.frames[("mod", m.name)]
                    if "__all__" in fr:
                        names = self.list_items(fr["__all__"]) or []
                    else:
                        names = [k for k in fr if not k.startswith("_")]
                    for k in names:
                        self.frame()[k] = fr[k]
                continue
            if isinstance(m, Mod):
                fr = self.st.frames[("mod", m.name)]
                if a.name in fr:
                    v = fr[a.name]
                elif self.modfile(m.name + "." + a.name)[0]:
                    v = self.load(m.name + "." + a.name)
                else:
                    raise AbsRaise("ImportError", "cannot import name '%s' from '%s'" % (a.name, m.name))
            else:
                v = self.ext_attr(m.path + "." + a.name)
            self.frame()[a.asname or a.name] = v

    def import_module(self, name):
        top = name.split(".")[0]
        if top in self.missing:
            raise AbsRaise("ModuleNotFoundError", "No module named '%s'" % top)
        if top == PKG:
            return self.load(name)
        return self.ext_attr(name)

    def ext_attr(self, path):
        v = self.bm.ext_value(path)
        return v

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame().pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev_index(t.slice)
                if isinstance(o, Ref):
                    r = self.get(o)
                    if isinstance(r, HDict) and not isinstance(i, (S, T, Top)):
                        d = dict(r.d)
                        d.pop(i, None)
                        self.put(o, HDict(d, r.unk), "del")
                    else:
                        self.put(o, HList(None) if isinstance(r, HList) else r, "del")

    def x_Global(self, s):
        fr = self.frame()
        fr.setdefault("__globals__", ())
        fr["__globals__"] = tuple(fr["__globals__"]) + tuple(s.names)

    x_Nonlocal = x_Global

    def x_Break(self, s):
        fl = Flows()
        fl.brk = [self.st]
        return fl

    def x_Continue(self, s):
        fl = Flows()
        fl.cont = [self.st]
        return fl

    # ---------------------------------------------------------------- loops
    def x_For(self, s):
        it = self.ev(s.iter)
        parts = self.iter_parts(it)
        out = Flows()
        brk = []
        if parts is None:
            parts = [("unknown", Top("elem", vnm.fn("elem", self.val_vn(it))))]
        ints = [p[1] for p in parts if p[0] == "item" and type(p[1]) is int]
        if len(ints) > 7 and ints[0] > ints[-1]:
            vnm.OPS.add("downward recurrence")
        for kind, spec in parts:
            if kind == "item":
                self.assign(s.target, spec)
                fl = self.exec_block(s.body)
                out.ret += fl.ret
                brk += fl.brk
                sts = fl.cont + ([fl.norm] if fl.norm is not None else [])
                if not sts:
                    self.st = None
                    break
                st = sts[0]
                for x in sts[1:]:
                    st = self.join_states(st, x, vnm.fn("cont", self.site()))
                self.st = st
            elif kind == "unknown":
                self.uncertain += 1
                base = self.st.copy()
                self.st = self.st.copy()
                for _ in range(2):
                    self.assign(s.target, spec)
                    fl = self.exec_block(s.body)
                    out.ret += fl.ret
                    brk += fl.brk
                    for x in fl.cont + ([fl.norm] if fl.norm is not None else []):
                        base = self.join_states(base, x, vnm.fn("loop", self.site()))
                    self.st = base.copy()
                self.st = base
                self.uncertain -= 1
            else:
                def body(val):
                    self.assign(s.target, val)
                    return self.exec_block(s.body)
                fl = self.sym_loop(spec, body, s.body, s)
                out.ret += fl.ret
                if fl.norm is None:
                    self.st = None
                    break
                self.st = fl.norm
        st = self.st
        if st is not None and s.orelse:
            self.st = st
            fl = self.exec_block(s.orelse)
            out.absorb(fl)
            st = fl.norm
        for x in brk:
            st = x if st is None else self.join_states(st, x, vnm.fn("brk", self.site()))
        out.norm = st
        return out

    def iter_parts(self, it):
        """-> list of ('item', v) / ('sym', spec) or None"""
        if isinstance(it, tuple):
            return [("item", x) for x in it]
        if isinstance(it, str):
            return [("item", x) for x in it]
        if isinstance(it, T):
            if it.shape is None:
                return None
            if not it.shape:
                raise AbsRaise("TypeError", "iteration over a 0-d tensor")
            d = it.shape[0]
            n = dim_lin(d)
            if n.is_const:
                return [("item", self.tm.getitem(it, i)) for i in range(n.c)]
            return [("sym", dict(n=n, elem=lambda sy: self.tm.elem_of(it, sy), fac=d, kind="elem"))]
        if isinstance(it, Ref):
            r = self.get(it)
            if isinstance(r, HList):
                if r.items is None or r.loop is not None:
                    return None
                out = []
                for x in r.items:
                    if isinstance(x, Seg):
                        if x.fac is not None:
                            out.append(("sym", dict(n=x.n, elem=(lambda it, q=x: q.val), fac=x.fac, kind="seg")))
                        else:
                            out.append(("sym", dict(n=x.n, elem=(lambda it, q=x: self.tm.at_iota(q.val, as_lin(q.off) + it)),
                                                    fac=None, kind="seg", asc=not x.rev)))
                    else:
                        out.append(("item", x))
                return out
            if isinstance(r, HDict):
                if r.unk:
                    return [("item", k) for k in r.d] + [("unknown", k) for k, _ in r.unk[:2]]
                return [("item", k) for k in r.d]
            if isinstance(r, HSet):
                return [("item", k) for k in r.items]
            if isinstance(r, HObj) and getattr(r.cls, "path", "") == "range":
                return self.range_parts(r.attrs["a"])
            if isinstance(r, HObj) and getattr(r.cls, "path", "") == "iter":
                return r.attrs["parts"]
            if isinstance(r, HObj) and getattr(r.cls, "path", "") == "minmax":
                return [("item", x) for x in r.attrs["items"]]
            if isinstance(r, HObj):
                m = self.find_method(r.cls, "__iter__")
                if m is not MISSING:
                    return self.iter_parts(self.call(Bound(it, m), [], {}))
                if isinstance(r.cls, Cls) and not self.has_ext_base(r.cls):
                    raise AbsRaise("TypeError", "'%s' object is not iterable" % r.cls.name)
        if it is None or isinstance(it, (bool, int, float, complex, Lin, Fn, Bound, S)):
            raise AbsRaise("TypeError", "'%s' object is not iterable" % type(it).__name__)
        return None

    def range_parts(self, a, reverse=False):
        lo, hi, step = a
        L = [as_lin(x) for x in a]
        if any(x is None for x in L):
            return None
        lo, hi, step = L
        if not step.is_const or step.c == 0:
            return None
        d = (hi - lo) if step.c > 0 else (lo - hi)
        if d.is_const:
            n = max(0, -(-d.c // abs(step.c)))
            if n <= 200:
                r = range(n)
                if reverse:
                    r = reversed(r)
                return [("item", lin_val(lo + step.scale(i))) for i in r]
        if abs(step.c) != 1:
            return None
        asc = step.c > 0
        if reverse:
            # last value of the original becomes the first
            lo, hi = (hi - 1, lo - 1) if asc else (hi + 1, lo + 1)
            asc = not asc
            d = (hi - lo) if asc else (lo - hi)
        return [("sym", dict(n=d, kind="range", lo=lo, asc=asc, last=(hi - 1 if asc else hi + 1), fac=None))]

    def x_While(self, s):
        out = Flows()
        brk = []
        spec = self.while_spec(s) if self.symbolic_test(s.test) else None
        for it in range(0 if spec else 240):
            c = self.ev(s.test)
            t, m = self.truth_nosplit(c)
            if t is True:
                if it == 220:
                    break
                fl = self.exec_block(s.body)
                out.ret += fl.ret
                brk += fl.brk
                sts = fl.cont + ([fl.norm] if fl.norm is not None else [])
                if not sts:
                    st = None
                    for x in brk:
                        st = x if st is None else self.join_states(st, x, vnm.fn("brk", self.site()))
                    out.norm = st
                    return out
                st = sts[0]
                for x in sts[1:]:
                    st = self.join_states(st, x, vnm.fn("cont", self.site()))
                self.st = st
                continue
            if t is False:
                st = self.st
                for x in brk:
                    st = self.join_states(st, x, vnm.fn("brk", self.site()))
                out.norm = st
                return out
            break
        # undecided: try a linear induction
        spec = spec or self.while_spec(s)
        if spec is not None:
            fl = self.sym_loop(spec, lambda v: self.exec_block(s.body), s.body, s)
            out.ret += fl.ret
            st = fl.norm
        else:
            self.uncertain += 1
            base = self.st.copy()
            self.st = self.st.copy()
            for _ in range(3):
                fl = self.exec_block(s.body)
                out.ret += fl.ret
                brk += fl.brk
                for x in fl.cont + ([fl.norm] if fl.norm is not None else []):
                    base = self.join_states(base, x, vnm.fn("loop", self.site()))
                self.st = base.copy()
                self.ev(s.test)
            self.uncertain -= 1
            st = base
        for x in brk:
            st = x if st is None else self.join_states(st, x, vnm.fn("brk", self.site()))
        out.norm = st
        return out

    def truth_nosplit(self, c):
        return self.truth(c)

    def symbolic_test(self, t):
        """a comparison of counters whose distance is not a number"""
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, (ast.Name, ast.BinOp, ast.Constant))
                and isinstance(t.comparators[0], (ast.Name, ast.BinOp, ast.Constant))):
            return False
        a, b = as_lin(self.ev(t.left)), as_lin(self.ev(t.comparators[0]))
        return a is not None and b is not None and not (a - b).is_const

    def while_spec(self, s):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        op = type(t.ops[0]).__name__
        S0 = self.st
        try:
            a0, b0 = as_lin(self.ev(t.left)), as_lin(self.ev(t.comparators[0]))
            if a0 is None or b0 is None:
                return None
            self.st = S0.copy()
            self.quiet += 1
            self.pending.append([])
            try:
                fl = self.exec_block(s.body)
            finally:
                self.quiet -= 1
                self.pending.pop()
            if fl.norm is None:
                return None
            self.st = fl.norm
            a1, b1 = as_lin(self.ev(t.left)), as_lin(self.ev(t.comparators[0]))
            if a1 is None or b1 is None:
                return None
        except (AbsRaise, LoopSplit):
            return None
        finally:
            self.st = S0
        dif, d1 = a0 - b0, a1 - b1
        c = d1 - dif
        if not c.is_const or abs(c.c) != 1:
            return None
        if op in ("Gt", "GtE", "NotEq") and c.c == -1:
            n = dif + (1 if op == "GtE" else 0)
        elif op in ("Lt", "LtE", "NotEq") and c.c == 1:
            n = -dif + (1 if op == "LtE" else 0)
        else:
            return None
        # direction: anchored at the constant end
        asc = a0.is_const
        return dict(n=n, kind="while", asc=asc, fac=None)

    # ---- symbolic loop
    def rbw(self, stmts):
        """names read before being (definitely) written, and names stored"""
        read, stored = set(), set()

        def walk(node, asg):
            if isinstance(node, ast.Name):
                if isinstance(node.ctx, ast.Load):
                    if node.id not in asg:
                        read.add(node.id)
                else:
                    asg.add(node.id)
                    stored.add(node.id)
                return
            if isinstance(node, ast.Assign):
                walk(node.value, asg)
                for t in node.targets:
                    walk(t, asg)
                return
            if isinstance(node, ast.AugAssign):
                if isinstance(node.target, ast.Name):
                    if node.target.id not in asg:
                        read.add(node.target.id)
                    walk(node.value, asg)
                    asg.add(node.target.id)
                    stored.add(node.target.id)
                else:
                    walk(node.target, asg)
                    walk(node.value, asg)
                return
            if isinstance(node, ast.If):
                walk(node.test, asg)
                a, b = set(asg), set(asg)
                for x in node.body:
                    walk(x, a)
                for x in node.orelse:
                    walk(x, b)
                asg |= (a & b)
                return
            if isinstance(node, (ast.For, ast.While)):
                if isinstance(node, ast.For):
                    walk(node.iter, asg)
                    a = set(asg)
                    walk(node.target, a)
                else:
                    walk(node.test, asg)
                    a = set(asg)
                for x in node.body:
                    walk(x, a)
                return
            if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                a = set(asg)
                sv = set(stored)
                for g in node.generators:
                    walk(g.iter, a)
                    walk(g.target, a)
                    for c in g.ifs:
                        walk(c, a)
                for f in ("elt", "key", "value"):
                    if hasattr(node, f):
                        walk(getattr(node, f), a)
                stored.clear()
                stored.update(sv)
                return
            if isinstance(node, ast.Lambda):
                return
            for c in ast.iter_child_nodes(node):
                walk(c, asg)

        asg = set()
        for s in stmts:
            walk(s, asg)
        return read, stored

    def sym_loop(self, spec, body, stmts, node, targets=()):
        segs = [(Lin((), 0), spec["n"])]
        n = spec["n"]
        if n.is_const and n.c <= 0:
            fl = Flows()
            fl.norm = self.st
            return fl
        base = self.st.copy()
        pend = list(self.pending[-1])
        site0 = self.site_
        for attempt in range(6):
            try:
                return self._sym_loop(spec, body, stmts, node, segs)
            except LoopSplit as e:
                if e.symname not in self.track_loops:
                    raise
                if not self._mine(e.symname, spec):
                    raise
                at = e.at
                new = []
                for lo, hi in segs:
                    a, b = lin_lb(at - lo), lin_lb(hi - at)
                    if a is not None and a >= 0 and b is not None and b >= 0 and not (at == lo) and not (at == hi):
                        new += [(lo, at), (at, hi)]
                    else:
                        new.append((lo, hi))
                if len(new) == len(segs):
                    # cannot order the threshold: give up splitting here
                    spec.setdefault("nosplit", set()).add(repr(at))
                segs = new
                self.st = base.copy()
                self.pending[-1] = list(pend)
                self.site_ = site0
        raise Stop("loop splitting")

    def _mine(self, symname, spec):
        return symname == spec.get("sym")

    def loop_symbol(self, spec, lo, hi):
        order = self.order_loop(spec)
        nm = ("it%d" if order else "ib%d") % fresh()
        LOOPS[nm] = (lo, hi)
        LB[nm] = 0
        spec["sym"] = nm
        return nm

    def order_loop(self, spec):
        if spec["kind"] in ("range", "while"):
            names = [k for k, _ in spec["n"].t]
            return not any(x in BATCH for k in names for x in k.split("*"))
        f = spec.get("fac")
        if f:
            return any(x.order for x in f)
        return True

    def _sym_loop(self, spec, body, stmts, node, segs):
        read, stored = self.rbw(stmts)
        S0 = self.st
        fid = S0.stack[-1]
        fr0 = S0.frames[fid]
        order = self.order_loop(spec)
        asc = spec.get("asc", True)
        axis = frozenset()
        if not order:
            f = spec.get("fac")
            if f:
                for x in f:
                    axis |= x.batch()
            else:
                axis = frozenset(x for k, _ in spec["n"].t for x in k.split("*") if x in BATCH)
        carried = sorted(k for k in read & stored if k in fr0)
        ROUNDS = 5
        colour = {}
        inits = {}
        facts = {}
        induct = {}
        delay = {}
        lists = {}              # heap id -> info
        for k in carried:
            inits[k] = fr0[k]
            facts[k] = fr0[k]
            colour[k] = vnm.bag("init", self.val_vn(fr0[k]))
        loopsegs = segs if asc else list(reversed(segs))
        segsyms = []
        result = None
        n_ = spec["n"]
        for rnd in range(ROUNDS + 1):
            final = rnd == ROUNDS
            if not final:
                self.quiet += 1
            self.pending.append([])
            npend = None
            try:
                st = S0.copy()
                vends = {k: [] for k in carried}
                lapp = {h: [] for h in lists}
                changed_heap = set()
                flows = Flows()
                ends = []
                for si, (lo, hi) in enumerate(loopsegs):
                    sy = self.loop_symbol(spec, lo, hi)
                    self.track_loops.append(sy)
                    itl = Lin({sy: 1})
                    done = itl if asc else (n_ - 1) - itl
                    self.st = st.copy()
                    fr = self.st.frames[fid]
                    for k in carried:
                        if k in induct:
                            fr[k] = lin_val(as_lin(inits[k]) + done.scale(induct[k])) if order else self.ind_val(inits[k], done, induct[k])
                        else:
                            fr[k] = self.mu_value(facts[k], colour[k], delay.get(k, 0), order, axis, asc,
                                                  colour.get(delay[k][0]) if k in delay else None,
                                                  delay.get(k))
                    for h, info in lists.items():
                        rec = self.st.heap[h]
                        ll = LoopList(info["prefix"], [], info["colour"], done, info["proto"], info["reads"], info["front"])
                        self.st.heap[h] = HList(info["prefix"], ll)
                        ll.reads.append((asc, order, axis))
                    heap_before = dict(self.st.heap)
                    val = self.loop_value(spec, itl, sy, asc)
                    start_vals = {k: fr[k] for k in carried}
                    fl = body(val)
                    self.track_loops.pop()
                    flows.ret += fl.ret
                    sts = fl.cont + ([fl.norm] if fl.norm is not None else [])
                    flows.brk += fl.brk
                    if not sts:
                        st = None
                        break
                    e = sts[0]
                    for x in sts[1:]:
                        e = self.join_states(e, x, vnm.fn("cont", node.lineno))
                    fr = e.frames[fid]
                    for k in carried:
                        vends[k].append((start_vals[k], fr.get(k)))
                    for h, rec in e.heap.items():
                        if h in heap_before and rec is not heap_before[h]:
                            if h in lists:
                                lapp[h].append(((lo, hi), rec))
                            else:
                                changed_heap.add(h)
                    for h in lists:
                        if not any(q[0] == (lo, hi) for q in lapp[h]):
                            lapp[h].append(((lo, hi), e.heap[h]))
                    ends.append(e)
                    st = e
            finally:
                if not final:
                    self.quiet -= 1
                pend = self.pending.pop()
            if final:
                self.pending[-1] += pend
            if st is None:
                flows.norm = None
                if final or rnd == 0:
                    if not final:
                        self.pending[-1] += pend
                    out = Flows()
                    out.ret = flows.ret
                    b = None
                    for x in flows.brk:
                        b = x if b is None else self.join_states(b, x, vnm.fn("brk", node.lineno))
                    out.norm = b
                    return out
            # newly discovered changing lists
            newl = False
            for h in changed_heap:
                rec0 = S0.heap.get(h)
                rec1 = st.heap[h]
                if isinstance(rec0, HList) and isinstance(rec1, HList) and rec0.loop is None and rec0.items is not None \
                        and rec1.items is not None and len(rec1.items) > len(rec0.items) and \
                        not any(isinstance(x, Seg) for x in rec0.items) and \
                        all(a is b for a, b in zip(reversed(rec0.items), reversed(rec1.items)) if rec1.front) and \
                        all(a is b for a, b in zip(rec0.items, rec1.items) if not rec1.front):
                    app = rec1.items[len(rec0.items):] if not rec1.front else rec1.items[:len(rec1.items) - len(rec0.items)][::-1]
                    pv = [self.val_vn(x) for x in rec0.items[-3:]]
                    proto = app[0]
                    for x in rec0.items[-1:]:
                        pass
                    lists[h] = dict(prefix=list(rec0.items), colour=vnm.bag("init", *(pv[-1:] or ["empty"])),
                                    proto=proto, reads=[], napp=len(app), front=rec1.front)
                    newl = True
            # induction variables
            for k in carried:
                if k in induct or not vends[k]:
                    continue
                a, b = vends[k][0]
                la, lb = as_lin(a), as_lin(b)
                if la is not None and lb is not None and as_lin(inits[k]) is not None and rnd == 0:
                    df = lb - la
                    if df.is_const and df.c != 0:
                        induct[k] = df.c
            # colours
            newc = {}
            for k in carried:
                if k in induct:
                    continue
                vs = []
                for a, b in vends[k]:
                    v = self.val_vn(b) if b is not None else vnm.fn("unbound")
                    if not vs or vs[-1] != v:
                        vs.append(v)
                    if b is not None:
                        facts[k] = self.join_facts(facts[k], b)
                # delay: end value is the start value of another carried variable
                if rnd >= 1 and len(vs) == 1 and order:
                    for k2 in carried:
                        if k2 != k and k2 not in induct and k2 not in delay and k not in delay and vends[k2] and vs[0] == self.val_vn(vends[k2][0][0]) and \
                                vs[0] != self.val_vn(vends[k][0][0]):
                            delay[k] = (k2, 1)
                newc[k] = vs
            for k, vs in newc.items():
                if k in delay:
                    continue
                extra = sorted((self.val_vn(inits[d]).w for d in delay if delay[d][0] == k))
                colour[k] = vnm.bag("c", self.val_vn(inits[k]), *([repr(extra)] if extra else []), *vs)
            for h, info in lists.items():
                apps = []
                for rng, rec in lapp.get(h, []):
                    if rec.loop is not None:
                        apps.append(rec.loop.app)
                vs = []
                for ap in apps:
                    if len(ap) == 1:
                        v = self.val_vn(ap[0])
                        if not vs or vs[-1] != v:
                            vs.append(v)
                        info["proto"] = self.join_facts(info["proto"], ap[0])
                    elif ap:
                        vs.append(vnm.bag("multi", *[self.val_vn(x) for x in ap]))
                pv = [self.val_vn(x) for x in info["prefix"]]
                deep = max([d for r in info["reads"] if isinstance(r, int) for d in [r]] or [1])
                ini = pv[-1:] or [vnm.fn("empty")]
                extra = sorted(x.w for x in pv[-deep:-1]) if deep > 1 else []
                info["colour"] = vnm.bag("c", ini[0], *([repr(extra)] if extra else []), *vs)
            if final:
                break
        # ---------------- after the loop
        out = Flows()
        out.ret = flows.ret
        subst = []
        for k in carried:
            if k in induct or k in delay or not vends[k]:
                continue
            b = vends[k][-1][1]
            if isinstance(b, (T, S)) and isinstance(facts[k], (T, S)):
                subst.append((k, b))
        st = ends[-1].copy()
        self.st = st
        fr = st.frames[fid]
        mvals = []
        for k, b in subst:
            if isinstance(b, T):
                for i, e in enumerate(b.el):
                    mvals.append((e.v, vnm_mu(colour[k], i, 0, order)))
            else:
                mvals.append((b.el.v, vnm_mu(colour[k], 0, 0, order)))

        def canon(v):
            """value -> same with end-of-iteration fingerprints named by their sequence"""
            if isinstance(v, T):
                els, ch = [], False
                for e in v.el:
                    for old, new in mvals:
                        if e.v == old and e.v != new and e.const is None:
                            e = e.cp(v=new)
                            ch = True
                            break
                    els.append(e)
                return v.cp(el=els) if ch else v
            if isinstance(v, S) and v.kind != "int":
                for old, new in mvals:
                    if v.el.v == old:
                        return S(v.kind, v.el.cp(v=new))
            if isinstance(v, tuple):
                return tuple(canon(x) for x in v)
            return v

        for h, info in lists.items():
            items = list(info["prefix"])
            ok = True
            sgs = []
            for (lo, hi), rec in lapp[h]:
                if rec.loop is None:
                    ok = False
                    break
                ap = rec.loop.app
                if not ap:
                    continue
                if len(ap) != 1:
                    ok = False
                    break
                v = ap[0]
                cv = canon(v)
                if cv is v and any(isinstance(r, int) for r in info["reads"]):
                    cv = self.mu_rename(v, info["colour"], order)
                sgs.append(Seg(hi - lo, cv, spec.get("fac") if not order else None, off=lo, rev=not asc))
            if not ok:
                st.heap[h] = HList(None)
                continue
            # merge adjacent segments with equal values
            mg = []
            for s in sgs:
                if mg and self.val_vn(mg[-1].val) == self.val_vn(s.val):
                    p = mg[-1]
                    if not p.rev and p.off + p.n == s.off:
                        mg[-1] = p.cp(n=p.n + s.n)
                        continue
                    if p.rev and s.off + s.n == p.off:
                        mg[-1] = p.cp(n=p.n + s.n, off=s.off)
                        continue
                mg.append(s)
            if len(mg) == 1 and not asc and not order:
                mg[0] = mg[0].cp(rev=False)
            if info["front"]:
                st.heap[h] = HList([x.cp(rev=not x.rev) for x in reversed(mg)] + items)
            else:
                st.heap[h] = HList(items + mg)
        for k in carried:
            if k in induct:
                fr[k] = lin_val(as_lin(inits[k]) + n_.scale(induct[k]))
            elif k in fr:
                fr[k] = self.last_value(fr[k], colour.get(k, None) if k not in delay else colour[delay[k][0]], axis, order)
        for k in stored:
            if k in fr and k not in carried:
                fr[k] = self.last_value(canon(fr[k]), None, axis, order)
        # records holding arrays written row by row
        for k, v in list(fr.items()):
            if isinstance(v, T) and k not in stored:
                cv = canon(v)
                if cv is not v:
                    cv.tid = v.tid
                    fr[k] = cv
        for h, rec in list(st.heap.items()):
            if isinstance(rec, HList) and rec.items and h not in lists and rec is not S0.heap.get(h):
                st.heap[h] = HList([x.cp(val=canon(x.val)) if isinstance(x, Seg) else canon(x) for x in rec.items], rec.loop, rec.front)
        lo = lin_lb(n_)
        if lo is None or lo < 1:
            pass
        if order:
            self.register_mu(carried, induct, delay, inits, colour, lists, asc, n_)
        out.norm = st
        for b in flows.brk:
            out.norm = self.join_states(out.norm, b, vnm.fn("brk", node.lineno))
        self.event("loop", n=n_, asc=asc, order=order, line=node.lineno)
        return out

    def register_mu(self, carried, induct, delay, inits, colour, lists, asc, n_):
        """remember the initial values of the recurrence sequences (positions -1, -2, ..)"""
        if not asc:
            return
        for k in carried:
            if k in induct or k in delay:
                continue
            hist = [inits[k]]
            for d, (k2, _) in delay.items():
                if k2 == k:
                    hist.append(inits[d])
            self._reg(colour[k], hist)
        for h, info in lists.items():
            if info["prefix"]:
                self._reg(info["colour"], list(reversed(info["prefix"])))

    def _reg(self, col, hist):
        cols = []
        for x in hist:
            if isinstance(x, T):
                cols.append([e.v for e in x.el])
            elif isinstance(x, (S, int, float, complex)):
                cols.append([self.scal_elem(x).v])
            else:
                return
        for i in range(len(cols[0])):
            key = vnm_mu(col, i, 0, True)
            self.mu_reg[key] = [c[i if i < len(c) else 0] for c in cols]

    def mu_init_at(self, v, pos):
        """value of a recurrence sequence at a constant position before its start"""
        if not pos.is_const:
            return None
        for d in range(-3, 4):
            h = self.mu_reg.get(vnm.shift(v, -d)) if d == 0 else None
            if h is None and d:
                continue
            # v(iota) = mu(iota)
            k = -1 - pos.c
            if h is not None and 0 <= k < len(h):
                return h[k]
        return self._mu_shifted(v, pos)

    def _mu_shifted(self, v, pos):
        # v(iota) = mu(iota + d): compare the windows away from the edges
        if len(v.w) == 1:
            return None
        for d in (1, -1, 2, -2):
            for key, h in self.mu_reg.items():
                if len(key.w) == len(v.w):
                    a, b = vnm.shift(key, d).w, v.w
                    if a[vnm.W] == b[vnm.W] and a[vnm.W + (1 if d < 0 else -1)] == b[vnm.W + (1 if d < 0 else -1)]:
                        k = -1 - (pos.c + d)
                        if 0 <= k < len(h):
                            return h[k]
        return None

    def ind_val(self, init, done, c):
        return lin_val(as_lin(init) + done.scale(c))

    def mu_value(self, fact, colour, _d, order, axis, asc, dcol, dinfo):
        back = -1 if asc else 1
        if dinfo is not None:
            colour = dcol
            back *= 2
        return self.mu_rename(fact, colour, order, back, axis)

    def mu_rename(self, fact, colour, order, back=0, axis=frozenset()):
        if isinstance(fact, T):
            els = [e.cp(v=vnm_mu(colour, i, back, order), const=None, mix=e.mix | axis) for i, e in enumerate(fact.el)]
            return fact.cp(el=els, sid=None, lin=None, pre=None)
        if isinstance(fact, S) or isinstance(fact, (int, float, complex)) and not isinstance(fact, bool):
            e = self.scal_elem(fact).cp(v=vnm_mu(colour, 0, back, order), const=None)
            e.mix = e.mix | axis
            k = self.scal_kind(fact)
            if k == "int":
                return S("int", e)
            return S(k, e)
        if isinstance(fact, Top):
            return Top(fact.why, vnm_mu(colour, 0, back, order))
        if isinstance(fact, tuple):
            return tuple(self.mu_rename(x, vnm.bag("tup", colour, i), order, back, axis) for i, x in enumerate(fact))
        return fact

    def join_facts(self, a, b):
        if a is b:
            return a
        return self.join_vals(a, b, None)

    def last_value(self, v, colour, axis, order):
        def f(e, i):
            nv = vnm.bag("last", e.v if colour is None else colour, i)
            return e.cp(v=nv, const=None, mix=e.mix | axis)
        if isinstance(v, T):
            if all(len(e.v.w) == 1 for e in v.el) and colour is None and not axis:
                return v
            r = v.cp(el=[f(e, i) for i, e in enumerate(v.el)])
            r.tid = v.tid
            return r
        if isinstance(v, S):
            if v.kind == "int":
                l = v.lin
                for k, _ in v.lin.t:
                    if k in LOOPS:
                        # final value of an affine expression of the loop index
                        return S("int", f(v.el, 0))
                return v
            return S(v.kind, f(v.el, 0))
        if isinstance(v, tuple):
            return tuple(self.last_value(x, colour, axis, order) for x in v)
        return v

    def loop_value(self, spec, itl, sy, asc):
        k = spec["kind"]
        if k == "range":
            if asc:
                l = spec["lo"] + itl
            else:
                l = spec["last"] + itl
            return lin_val(l)
        if k == "while":
            return None
        return spec["elem"](itl)

    # ---------------------------------------------------------------- names
    def frame(self):
        return self.st.frames[self.st.stack[-1]]

    def cur_mod(self):
        for f in reversed(self.st.stack):
            if isinstance(f, tuple) and f[0] == "mod":
                return f[1]
            if isinstance(f, tuple) and f[0] == "cls":
                continue
            fr = self.st.frames[f]
            if "__mod__" in fr:
                return fr["__mod__"]
        return PKG

    def lookup(self, name):
        fid = self.st.stack[-1]
        fr = self.st.frames[fid]
        if name in fr and not (name in fr.get("__globals__", ())):
            return fr[name]
        for c in fr.get("__closure__", ()):
            seen = set()
            stack = [c]
            while stack:
                f = stack.pop(0)
                if f in seen or f not in self.st.frames:
                    continue
                seen.add(f)
                if name in self.st.frames[f]:
                    return self.st.frames[f][name]
                stack += list(self.st.frames[f].get("__closure__", ()))
        m = self.st.frames.get(("mod", self.cur_mod()))
        if m is not None and name in m:
            return m[name]
        if name in self.st.frames[fid]:
            return self.st.frames[fid][name]
        b = self.bm.builtin(name)
        if b is not MISSING:
            return b
        raise AbsRaise("NameError", "name '%s' is not defined" % name)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frame()
            if t.id in fr.get("__globals__", ()):
                self.emit("modwrite", "assigns global '%s'" % t.id)
                self.st.frames[("mod", self.cur_mod())][t.id] = v
                return
            fr[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - k - 1
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"))
                    return
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                mid = items[k:len(items) - after]
                self.assign(t.elts[k].value, self.new_list(mid))
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x)
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Stop("assign target")

    def unpack(self, v, n, star=False):
        items = None
        if isinstance(v, T):
            if v.shape is None:
                return [Top("unpack") for _ in range(n)]
            if not v.shape:
                raise AbsRaise("TypeError", "iteration over a 0-d tensor")
            L = dim_lin(v.shape[0])
            if not L.is_const:
                if not star and not dim_unknown(v.shape[0]):
                    raise AbsRaise("ValueError", "cannot unpack a dimension of size %r into %d names" % (L, n))
                return None if star else [Top("unpack") for _ in range(n)]
            items = [self.tm.getitem(v, i) for i in range(L.c)]
        else:
            parts = self.iter_parts(v)
            if parts is None or any(k != "item" for k, _ in parts):
                if isinstance(v, (int, float, complex, type(None), S)) :
                    raise AbsRaise("TypeError", "cannot unpack non-iterable object")
                return None if star else [Top("unpack", vnm.fn("unpack", self.val_vn(v), i)) for i in range(n)]
            items = [x for _, x in parts]
        if not star and len(items) != n:
            raise AbsRaise("ValueError", "unpacking %d values into %d names" % (len(items), n))
        return items

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stop("step budget")
        if hasattr(n, "lineno") and n.lineno != self.site_[1]:
            self.site_ = (self.site_[0], n.lineno, self.site_[2])
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Stop("expression %s" % type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        if n.value is Ellipsis:
            return Ext("Ellipsis")
        return n.value

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        return tuple(self.ev_seq(n.elts))

    def ev_seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                items = self.list_items(v)
                if items is None:
                    parts = self.iter_parts(v)
                    if parts is None or any(k != "item" for k, _ in parts):
                        out.append(Top("star"))
                        continue
                    items = [x for _, x in parts]
                out += items
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.new_list(self.ev_seq(n.elts))

    def e_Set(self, n):
        return self.new(HSet(self.ev_seq(n.elts)))

    def e_Dict(self, n):
        d = {}
        unk = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                r = self.get(o) if isinstance(o, Ref) else None
                if isinstance(r, HDict):
                    d.update(r.d)
                    unk += r.unk
                continue
            kv = self.ev(k)
            vv = self.ev(v)
            if self.hashable(kv):
                d[kv] = vv
            else:
                unk.append((kv, vv))
        return self.new(HDict(d, unk))

    def hashable(self, k):
        if isinstance(k, tuple):
            return all(self.hashable(x) for x in k)
        return isinstance(k, (str, int, float, complex, bool, type(None), bytes, Ext, Dt, Dev, PathV))

    def e_JoinedStr(self, n):
        parts = []
        conc = True
        vs = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(str(p.value))
                vs.append(str(p.value))
            else:
                v = self.ev(p.value)
                spec = ""
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec)
                if isinstance(v, (str, int, float, complex, bool, type(None))) and isinstance(spec, str) and p.conversion in (-1, 115, 114):
                    try:
                        x = repr(v) if p.conversion == 114 else v
                        parts.append(format(x, spec))
                    except (TypeError, ValueError) as e:
                        raise AbsRaise("ValueError", str(e))
                else:
                    conc = False
                vs.append(self.val_vn(v))
        if conc:
            return "".join(parts)
        return Top("str", vnm.bag("fstr", *vs))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        return self._boolop(n.values, isand)

    def _boolop(self, vals, isand):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        t, m = self.truth(v)
        if t is True:
            return self._boolop(vals[1:], isand) if isand else v
        if t is False:
            return v if isand else self._boolop(vals[1:], isand)
        w = self._boolop(vals[1:], isand)
        t2, m2 = self.truth(w)
        if m is None:
            m = vnm.fn("cond", self.site())
        if t2 is False:
            return False if isand else (v if not isinstance(v, Top) else Top("bool", m))
        if t2 is True:
            m2 = vnm.ONE
            if not isand:
                return True
        if m2 is None:
            m2 = vnm.fn("cond2", self.site())
        r = self.tm.m_and(m, m2) if isand else self.tm.m_or(m, m2)
        if "top" in (t, t2):
            return Top("bool", r)
        return S("bool", Elem(r))

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        op = type(n.op).__name__
        if op == "Not":
            return self.not_(v)
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, T):
            if op == "USub":
                return self.tm.neg(v)
            if op == "Invert":
                return self.tm.invert(v)
            return v
        if isinstance(v, (bool, int, float, complex)):
            try:
                return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
            except TypeError as e:
                raise AbsRaise("TypeError", str(e))
        if isinstance(v, S):
            if op == "USub":
                e = v.el.cp(v=vnm.neg(v.el.v), const=None if v.el.const is None else -v.el.const)
                if v.kind == "int":
                    return S("int", e, lin=-v.lin)
                return S(v.kind, e)
            if op == "UAdd":
                return v
            return Top("invert", vnm.fn("invert", v.el.v))
        if isinstance(v, Top):
            return Top("unop", vnm.fn("unop" + op, v.v))
        raise AbsRaise("TypeError", "bad operand type for unary operator: %s" % self.tname(v))

    def tname(self, v):
        if isinstance(v, T):
            return "Tensor"
        if isinstance(v, S):
            return v.kind or "number"
        if isinstance(v, Ref):
            r = self.get(v)
            if isinstance(r, HList):
                return "list"
            if isinstance(r, HDict):
                return "dict"
            if isinstance(r, HObj):
                return getattr(r.cls, "name", None) or str(getattr(r.cls, "path", "object"))
        return type(v).__name__

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.site_ = (self.site_[0], n.lineno, self.site_[2])
        return self.binop(type(n.op).__name__, a, b)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul", "Mod": "mod", "FloorDiv": "floordiv",
              "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def binop(self, op, a, b):
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and op in self.DUNDER:
                r = self.get(x)
                if isinstance(r, HObj) and isinstance(r.cls, Cls):
                    m = self.find_method(r.cls, pre + self.DUNDER[op] + "__")
                    if m is not MISSING:
                        return self.call(Bound(x, m), [y], {})
                    if self.has_ext_base(r.cls):
                        return Top("extop")
        if op == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(self.get(a), HDict) and isinstance(self.get(b), HDict):
            ra, rb = self.get(a), self.get(b)
            if not ra.unk and not rb.unk:
                return self.new(HDict(dict(ra.d, **rb.d) if all(isinstance(k, str) for k in rb.d) else {**ra.d, **rb.d}))
            return Top("dict")
        if isinstance(a, Top) or isinstance(b, Top):
            if op == "Mod" and isinstance(a, str):
                return Top("str", vnm.bag("fmt", a, self.val_vn(b)))
            va, vb = self.val_vn(a), self.val_vn(b)
            f = {"Add": vnm.add, "Sub": vnm.sub, "Mult": vnm.mul, "Div": vnm.div}.get(op)
            v = f(va, vb) if f else vnm.fn(op, va, vb)
            return Top("binop", v)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, T) and isinstance(b, (T, S, bool, int, float, complex)) or isinstance(a, (S, bool, int, float, complex)):
                return self.tm.binop(op, a, b)
            o = b if isinstance(a, T) else a
            if isinstance(o, Ref) and isinstance(self.get(o), HList) and (isinstance(a, T) and a.np or isinstance(b, T) and b.np):
                return Top("np-list op")
            raise AbsRaise("TypeError", "unsupported operand types for %s: %s and %s" % (op, self.tname(a), self.tname(b)))
        na = isinstance(a, (S, bool, int, float, complex))
        nb = isinstance(b, (S, bool, int, float, complex))
        if na and nb:
            return self.tm.scalar_binop(op, a, b)
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if self.is_list(a) and self.is_list(b):
                x, y = self.list_items(a), self.list_items(b)
                return self.new_list(x + y if x is not None and y is not None else None)
        if op == "Mult":
            if isinstance(b, (str, tuple)) or self.is_list(b):
                a, b = b, a
            if isinstance(a, (str, tuple)) and isinstance(b, int):
                return a * b
            if self.is_list(a):
                items = self.list_items(a)
                l = as_lin(b)
                if items is None or l is None:
                    return self.new_list(None)
                if l.is_const:
                    return self.new_list(items * max(0, l.c))
                if len(items) == 1:
                    return self.new_list([Seg(l, items[0])])
                return self.new_list(None)
        if op == "Div" and isinstance(a, PathV) and isinstance(b, (str, PathV)):
            return PathV(os.path.join(a.p, b.p if isinstance(b, PathV) else b))
        if op == "Mod" and isinstance(a, str):
            if isinstance(b, (str, int, float)):
                return a % b
            return Top("str", vnm.bag("fmt", a, self.val_vn(b)))
        if op in ("BitOr", "BitAnd", "Sub") and isinstance(a, Ref) and isinstance(self.get(a), HSet):
            return Top("set")
        if isinstance(a, HObjLike) or isinstance(a, Ref) and isinstance(self.get(a), HObj):
            r = self.get(a)
            p = getattr(r.cls, "path", "")
            if p == "pathlib.Path":
                return Top("path", vnm.bag("path", self.val_vn(a), self.val_vn(b)))
            m = self.find_method(r.cls, {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(op, "__?__"))
            if m is not MISSING:
                return self.call(Bound(a, m), [b], {})
        if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, Ref) and isinstance(self.get(a), HObj) and isinstance(self.get(a).cls, Ext):
            return Top("extop")
        raise AbsRaise("TypeError", "unsupported operand types for %s: %s and %s" % (op, self.tname(a), self.tname(b)))

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                t, m = self.truth(res)
                t2, m2 = self.truth(r)
                if t is False or t2 is False:
                    return False
                if t is True:
                    res = r
                elif t2 is True:
                    pass
                else:
                    res = S("bool", Elem(self.tm.m_and(m, m2))) if "top" not in (t, t2) else Top("cmp")
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            if r is None:
                return Top("is")
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if r in (True, False):
                return r if op == "In" else not r
            return r if op == "In" else self.not_(r)
        num = (S, bool, int, float, complex)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (T,) + num) and isinstance(b, (T,) + num):
                return self.tm.compare(op, a, b)
            if isinstance(a, Top) or isinstance(b, Top):
                return Top("cmp", vnm.fn("cmp" + op, self.val_vn(a), self.val_vn(b)))
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            raise AbsRaise("TypeError", "comparison of %s and %s" % (self.tname(a), self.tname(b)))
        if isinstance(a, num) and isinstance(b, num):
            return self.tm.scalar_compare(op, a, b)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("cmp", vnm.fn("cmp" + op, self.val_vn(a), self.val_vn(b)))
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if r in (True, False):
                return r if op == "Eq" else not r
            if r is None:
                return Top("eq")
            return r if op == "Eq" else self.not_(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return Top("tuplecmp")
        raise AbsRaise("TypeError", "'%s' not supported between %s and %s" % (op, self.tname(a), self.tname(b)))

    def is_(self, a, b):
        if a is None or b is None:
            if isinstance(a, Top) or isinstance(b, Top):
                return None
            return a is b
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if isinstance(a, (bool,)) and isinstance(b, bool):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, T) or isinstance(b, T):
            return a is b
        if isinstance(a, S) or isinstance(b, S):
            return None if isinstance(a, S) and isinstance(b, S) else False if isinstance(a, bool) or isinstance(b, bool) else None
        return a == b

    def equal(self, a, b):
        num = (S, bool, int, float, complex)
        if isinstance(a, num) and isinstance(b, num):
            r = self.tm.scalar_compare("Eq", a, b)
            return r
        if isinstance(a, T) or isinstance(b, T):
            return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            res = True
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if r is False:
                    return False
                if r is not True:
                    res = r
            return res
        if self.is_list(a) and self.is_list(b):
            x, y = self.list_items(a), self.list_items(b)
            if x is None or y is None:
                return None
            return self.equal(tuple(x), tuple(y))
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        try:
            return bool(a == b)
        except Exception:
            return None

    def contains(self, c, x):
        if isinstance(x, Top) or isinstance(c, Top):
            return Top("in")
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise AbsRaise("TypeError", "'in <string>' requires string")
        items = self.list_items(c)
        if items is not None:
            res = False
            for y in items:
                if isinstance(y, Seg):
                    return Top("in")
                r = self.equal(x, y)
                if r is True:
                    return True
                if r is not False:
                    res = r
            if res is None:
                return Top("in")
            return res
        if isinstance(c, Ref):
            r = self.get(c)
            if isinstance(r, HDict):
                if self.hashable(x) and x in r.d:
                    return True
                if not self.hashable(x) and r.d and any(not isinstance(k, str) for k in r.d):
                    return Top("in")
                for k, _ in r.unk:
                    if self.val_vn(k) == self.val_vn(x):
                        return True
                if r.unk and self.distinct_keys:
                    return False
                if r.unk:
                    return S("bool", Elem(vnm.ZERO if not self.hashable(x) else vnm.fn("in", self.val_vn(x))))
                return False
            if isinstance(r, HObj):
                m = self.find_method(r.cls, "__contains__")
                if m is not MISSING:
                    return self.call(Bound(c, m), [x], {})
        if isinstance(c, T):
            return Top("in")
        return Top("in")

    def e_IfExp(self, n):
        c = self.ev(n.test)
        t, m = self.truth(c)
        if t is True:
            return self.ev(n.body)
        if t is False:
            return self.ev(n.orelse)
        if m is None:
            m = vnm.fn("cond", self.site())
        base = self.st
        if t == "top":
            self.uncertain += 1
        try:
            self.st = base.copy()
            a = b = None
            ea = eb = None
            try:
                a = self.ev(n.body)
                sa = self.st
            except AbsRaise as e:
                ea = e
                self.raise_flow(e)
            self.st = base.copy()
            try:
                b = self.ev(n.orelse)
                sb = self.st
            except AbsRaise as e:
                eb = e
                self.raise_flow(e)
        finally:
            if t == "top":
                self.uncertain -= 1
        if ea and eb:
            raise ea
        if ea:
            self.st = sb
            return b
        if eb:
            self.st = sa
            return a
        hp = dict(sb.heap)
        self.st = self.join_states(sa, sb, m)
        for k, r in hp.items():
            self.st.heap.setdefault(k, r)
        for k, r in sa.heap.items():
            self.st.heap.setdefault(k, r)
        return self.join_vals(a, b, m)

    def e_Lambda(self, n):
        fake = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)],
                               decorator_list=[], lineno=n.lineno, col_offset=0)
        return self.make_fn(fake)

    def e_ListComp(self, n):
        r = self.comp(n, n.generators, lambda: [self.ev(n.elt)])
        return self.new_list(r)

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        r = self.comp(n, n.generators, lambda: [self.ev(n.elt)])
        return self.new(HSet([x for x in r if not isinstance(x, Seg)])) if r is not None else Top("set")

    def e_DictComp(self, n):
        r = self.comp(n, n.generators, lambda: [(self.ev(n.key), self.ev(n.value))])
        if r is None:
            return Top("dict")
        d, unk = {}, []
        for x in r:
            if isinstance(x, Seg):
                unk.append(x.val)
            elif self.hashable(x[0]):
                d[x[0]] = x[1]
            else:
                unk.append(x)
        return self.new(HDict(d, unk))

    def comp(self, n, gens, elt):
        """comprehension -> list of items / Seg, None unknown"""
        if not gens:
            return elt()
        g = gens[0]
        it = self.ev(g.iter)
        parts = self.iter_parts(it)
        # own scope
        fid = fresh()
        fr = {"__closure__": (self.st.stack[-1],), "__mod__": self.cur_mod()}
        self.st.frames[fid] = fr
        self.st.stack.append(fid)
        try:
            if parts is None:
                self.uncertain += 1
                try:
                    self.assign(g.target, Top("elem", vnm.fn("elem", self.val_vn(it))))
                    for c in g.ifs:
                        self.ev(c)
                    self.comp(n, gens[1:], elt)
                finally:
                    self.uncertain -= 1
                return None
            out = []
            for kind, spec in parts:
                if kind == "item":
                    self.assign(g.target, spec)
                    ok = True
                    for c in g.ifs:
                        t, m = self.truth(self.ev(c))
                        if t is False:
                            ok = False
                            break
                        if t is not True:
                            ok = None
                    if ok is False:
                        continue
                    r = self.comp(n, gens[1:], elt)
                    if r is None or out is None or ok is None:
                        out = None
                    else:
                        out += r
                elif kind == "unknown":
                    self.assign(g.target, spec)
                    self.comp(n, gens[1:], elt)
                    out = None
                else:
                    segs = [(Lin((), 0), spec["n"])]
                    base = self.st.copy()
                    res = None
                    for attempt in range(6):
                        try:
                            res = []
                            for lo, hi in segs:
                                sy = self.loop_symbol(spec, lo, hi)
                                self.track_loops.append(sy)
                                self.assign(g.target, self.loop_value(spec, Lin({sy: 1}), sy, spec.get("asc", True)))
                                cond = True
                                for c in g.ifs:
                                    t, m = self.truth(self.ev(c))
                                    if t is False:
                                        cond = False
                                    elif t is not True:
                                        cond = None
                                self.track_loops.pop()
                                if cond is None:
                                    res = None
                                    break
                                if not cond:
                                    continue
                                self.track_loops.append(sy)
                                r = self.comp(n, gens[1:], elt)
                                self.track_loops.pop()
                                if r is None or len(r) != 1 or isinstance(r[0], Seg):
                                    res = None
                                    break
                                asc = spec.get("asc", True)
                                fac = spec.get("fac") if not self.order_loop(spec) else None
                                res.append(Seg(hi - lo, r[0], fac, off=lo, rev=not asc))
                            break
                        except LoopSplit as e:
                            if e.symname != spec.get("sym"):
                                raise
                            new = []
                            for lo, hi in segs:
                                a, b = lin_lb(e.at - lo), lin_lb(hi - e.at)
                                if a is not None and a >= 0 and b is not None and b >= 0 and not (e.at == lo) and not (e.at == hi):
                                    new += [(lo, e.at), (e.at, hi)]
                                else:
                                    new.append((lo, hi))
                            if len(new) == len(segs):
                                raise Stop("comprehension split")
                            segs = new
                            self.st = base.copy()
                            res = None
                    if res is None or out is None:
                        out = None
                    else:
                        if res and res[0].rev:
                            res = res[::-1]
                        out += res
            return out
        finally:
            self.st.stack.pop()
            self.st.frames.pop(fid, None)

    def e_Starred(self, n):
        raise Stop("starred")

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Slice(self, n):
        f = lambda x: None if x is None else self.ev(x)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def ev_index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_seq(n.elts))
        return self.ev(n)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        i = self.ev_index(n.slice)
        return self.getitem(o, i)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr)

    def e_Await(self, n):
        raise Stop("await")

    def e_Call(self, n):
        f = self.ev(n.func)
        args = self.ev_seq(n.args)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                r = self.get(v) if isinstance(v, Ref) else None
                if isinstance(r, HDict):
                    kw.update({a: b for a, b in r.d.items() if isinstance(a, str)})
                    if r.unk:
                        kw["**"] = Top("kwargs")
                else:
                    kw["**"] = Top("kwargs")
            else:
                kw[k.arg] = v
        self.site_ = (self.site_[0], n.lineno, self.site_[2])
        if isinstance(f, Ext) and f.path == "super":
            return self.make_super(args)
        r = self.call(f, args, kw)
        self.site_ = (self.site_[0], n.lineno, self.site_[2])
        return r

    def make_super(self, args):
        if args:
            return Super(args[0], args[1])
        fr = self.frame()
        fn = fr.get("__fn__")
        return Super(fn.cls, fr.get("__self__"))

    # ---------------------------------------------------------------- items
    def getitem(self, o, i):
        if isinstance(o, T):
            return self.tm.getitem(o, i)
        if isinstance(o, Top):
            return Top("item", vnm.fn("item", o.v, self.val_vn(i)), o.live, o.dead)
        if isinstance(o, (tuple, str)):
            if isinstance(i, slice):
                if any(not (x is None or isinstance(x, int)) for x in (i.start, i.stop, i.step)):
                    return Top("slice")
                return o[i]
            if isinstance(i, bool) or isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise AbsRaise("IndexError", "index %d out of range" % i)
            l = as_lin(i) if not isinstance(i, T) else None
            if isinstance(i, (S, T, Top)):
                vals = list(o)
                if not vals:
                    raise AbsRaise("IndexError", "empty sequence")
                if isinstance(o, str):
                    return Top("char")
                r = vals[0]
                for x in vals[1:]:
                    r = self.join_vals(r, x, vnm.fn("pick", self.val_vn(i)))
                return r
            raise AbsRaise("TypeError", "indices must be integers, not %s" % self.tname(i))
        if isinstance(o, Ref):
            r = self.get(o)
            if isinstance(r, HList):
                return self.list_getitem(o, r, i)
            if isinstance(r, HDict):
                if self.hashable(i):
                    if i in r.d:
                        return r.d[i]
                    if r.unk:
                        v = r.unk[0][1]
                        for _, x in r.unk[1:]:
                            v = self.join_vals(v, x, vnm.fn("pick"))
                        return v
                    raise AbsRaise("KeyError", "key %r" % (i,))
                for k, v in r.unk:
                    if self.val_vn(k) == self.val_vn(i):
                        return v
                vals = [v for _, v in r.unk] + list(r.d.values())
                if not vals:
                    raise AbsRaise("KeyError", "empty dictionary")
                v = vals[0]
                for x in vals[1:]:
                    v = self.join_vals(v, x, vnm.fn("pick", self.val_vn(i)))
                return v
            if isinstance(r, HObj):
                p = getattr(r.cls, "path", "")
                if p == "minmax":
                    return self.getitem(r.attrs["items"], i)
                if p == "range":
                    parts = self.range_parts(r.attrs["a"])
                    if parts and all(k == "item" for k, _ in parts) and isinstance(i, int):
                        try:
                            return parts[i][1]
                        except IndexError:
                            raise AbsRaise("IndexError", "range index")
                    return Top("rangeitem")
                m = self.find_method(r.cls, "__getitem__")
                if m is not MISSING:
                    return self.call(Bound(o, m), [i], {})
                if isinstance(r.cls, Cls) and not self.has_ext_base(r.cls):
                    raise AbsRaise("TypeError", "'%s' object is not subscriptable" % r.cls.name)
                return Top("item", vnm.fn("item", self.val_vn(o), self.val_vn(i)))
        if isinstance(o, Ext):
            return Top("item")
        if isinstance(o, (int, float, complex, bool, type(None), S)):
            raise AbsRaise("TypeError", "'%s' object is not subscriptable" % self.tname(o))
        return Top("item")

    def list_getitem(self, o, r, i):
        if r.items is None:
            return Top("listitem", vnm.fn("li", self.val_vn(i)))
        if r.loop is not None:
            return self.looplist_get(r, i)
        if isinstance(i, slice):
            return self.list_slice(r, i)
        if isinstance(i, T):
            i = self.tm.as_index(i)
        if isinstance(i, bool):
            i = int(i)
        l = as_lin(i) if not isinstance(i, Top) else None
        if isinstance(i, Top):
            return Top("listitem")
        if l is None:
            raise AbsRaise("TypeError", "list indices must be integers or slices, not %s" % self.tname(i))
        items = r.items
        if l.is_const:
            c = l.c
            if c >= 0:
                for k, x in enumerate(items):
                    if isinstance(x, Seg):
                        return self.seg_at(x, Lin((), c - k))
                    if k == c:
                        return x
            else:
                for k, x in enumerate(reversed(items)):
                    if isinstance(x, Seg):
                        return self.seg_at(x, x.n + (c + k))
                    if k == -c - 1:
                        return x
            raise AbsRaise("IndexError", "list index out of range (index %d of %d entries)" % (c, len(items)))
        # symbolic position
        pos = Lin((), 0)
        segs = [x for x in items if isinstance(x, Seg)]
        k = 0
        for x in items:
            if isinstance(x, Seg):
                rel = l - pos
                lo = lin_lb(rel)
                up = lin_lb(x.n - 1 - rel)
                if lo is not None and lo >= 0 and up is not None and up >= 0:
                    return self.seg_at(x, rel)
                pos = pos + x.n
            else:
                if l == pos:
                    return x
                pos = pos + 1
        # several candidates: exact only when they agree with the segment's own law
        if len(segs) == 1:
            s = segs[0]
            npre = items.index(s)
            return self.seg_at(s, l - npre)
        vals = [x.val if isinstance(x, Seg) else x for x in items]
        if not vals:
            raise AbsRaise("IndexError", "list index out of range")
        v = vals[0]
        for x in vals[1:]:
            v = self.join_vals(v, x, vnm.fn("pick", lin_vn(l)))
        return v

    def seg_at(self, s, rel):
        """value of segment s at relative position rel (Lin)"""
        if s.fac is not None:
            return self.tm.retag(s.val, lambda v: vnm.fn("at", v, repr(rel)), s.fac)
        off = as_lin(s.off)
        pos = (off + s.n - 1 - rel) if s.rev else off + rel
        return self.tm.at_iota(s.val, pos)

    def looplist_get(self, r, i):
        ll = r.loop
        if isinstance(i, slice):
            return Top("loop list slice")
        l = as_lin(i) if not isinstance(i, (Top, T)) else None
        if l is None:
            return Top("loop list item")
        npre = len(ll.prefix)
        if ll.front:
            if not l.is_const:
                return Top("loop list item")
            if l.c < 0:
                if -l.c <= npre:
                    return ll.prefix[l.c]
                return Top("loop list item", vnm.bag("lli", ll.colour, l.c))
            l = Lin((), -1 - l.c)
        asc, order, axis = [x for x in ll.reads if not isinstance(x, int)][-1]
        if l.is_const and l.c >= 0:
            if l.c < npre:
                return ll.prefix[l.c]
            return Top("loop list item", vnm.bag("lli", ll.colour, l.c))
        if l.is_const:
            rel = len(ll.app) + l.c      # >=0: appended this iteration
        else:
            d = l - (ll.done + npre)
            if not d.is_const:
                return Top("loop list item", vnm.bag("lli", ll.colour, repr(d)))
            rel = d.c
        if rel >= 0:
            if rel < len(ll.app):
                return ll.app[rel]
            raise AbsRaise("IndexError", "list index out of range (entry not appended yet)")
        back = -rel
        ll.reads.append(back)
        proto = ll.proto
        for x in ll.prefix[-back:]:
            proto = self.join_facts(proto, x) if not (x is None) else proto
        b = -back if asc else back
        return self.mu_rename(proto, ll.colour, order, b, axis)

    def list_slice(self, r, sl):
        items = r.items
        st, sp, step = sl.start, sl.stop, sl.step
        step = 1 if step is None else step
        if isinstance(st, S):
            st = lin_val(st.lin) if not isinstance(st.lin, int) else st
        nseg = sum(isinstance(x, Seg) for x in items)
        if nseg == 0:
            if all(x is None or isinstance(x, int) for x in (st, sp)) and isinstance(step, int):
                return self.new_list(items[st:sp:step])
            return self.new_list(None)
        if step == -1 and st is None and sp is None:
            out = [x.cp(rev=not x.rev) if isinstance(x, Seg) else x for x in reversed(items)]
            return self.new_list(out)
        if step == 1 and sp is None and isinstance(st, int) and st >= 0:
            out = list(items)
            k = st
            while k > 0 and out:
                x = out[0]
                if isinstance(x, Seg):
                    out[0] = x.cp(n=x.n - k, off=as_lin(x.off) + (0 if x.rev else k))
                    k = 0
                else:
                    out.pop(0)
                    k -= 1
            return self.new_list(out)
        if step == 1 and st in (None, 0) and isinstance(sp, int) and sp < 0:
            out = list(items)
            k = -sp
            while k > 0 and out:
                x = out[-1]
                if isinstance(x, Seg):
                    out[-1] = x.cp(n=x.n - k, off=as_lin(x.off) + (k if x.rev else 0))
                    k = 0
                else:
                    out.pop()
                    k -= 1
            return self.new_list(out)
        if step == 1 and st in (None, 0) and as_lin(sp) is not None:
            # prefix of symbolic length
            want = as_lin(sp)
            tot = self.list_len(r)
            if want == tot:
                return self.new_list(list(items))
            if isinstance(items[-1], Seg):
                x = items[-1]
                k = tot - want
                if k.is_const and k.c >= 0:
                    return self.new_list(items[:-1] + [x.cp(n=x.n - k.c, off=as_lin(x.off) + (k.c if x.rev else 0))])
        return self.new_list(None)

    def list_len(self, r):
        l = Lin((), 0)
        for x in r.items:
            l = l + (x.n if isinstance(x, Seg) else 1)
        return l

    def setitem(self, o, i, v):
        if isinstance(o, T):
            return self.tm.setitem(o, i, v)
        if isinstance(o, Ref):
            r = self.get(o)
            if isinstance(r, HDict):
                if self.hashable(i):
                    d = dict(r.d)
                    d[i] = v
                    self.event("dictwrite", ref=o.id, key=i, value=v)
                    self.put(o, HDict(d, r.unk), "item %r" % (i,))
                else:
                    self.event("dictwrite", ref=o.id, key=i, value=v)
                    unk = [(k, x) for k, x in r.unk if self.val_vn(k) != self.val_vn(i)] + [(i, v)]
                    self.put(o, HDict(r.d, unk[-8:]), "item")
                return
            if isinstance(r, HList):
                return self.list_setitem(o, r, i, v)
            if isinstance(r, HObj):
                m = self.find_method(r.cls, "__setitem__")
                if m is not MISSING:
                    self.call(Bound(o, m), [i, v], {})
                return
        if isinstance(o, (tuple, str, int, float, type(None))):
            raise AbsRaise("TypeError", "'%s' object does not support item assignment" % self.tname(o))

    def list_setitem(self, o, r, i, v):
        if r.items is None or r.loop is not None:
            return self.put(o, HList(None) if r.loop is None else r, "item assignment")
        if isinstance(i, T):
            i = self.tm.as_index(i)
        l = as_lin(i) if not isinstance(i, (Top, slice)) else None
        if isinstance(i, (Top, slice)):
            return self.put(o, HList(None), "item assignment")
        if l is None:
            raise AbsRaise("TypeError", "list indices must be integers or slices")
        items = list(r.items)
        if l.is_const and not any(isinstance(x, Seg) for x in items):
            try:
                items[l.c] = v
            except IndexError:
                raise AbsRaise("IndexError", "list assignment index out of range")
            return self.put(o, HList(items), "item assignment")
        # position depends on a loop index: the segment law becomes v
        if len(items) == 1 and isinstance(items[0], Seg):
            s = items[0]
            loops = [k for k, _ in l.t if k in LOOPS]
            if len(loops) == 1 and loops[0].startswith("it") and dict(l.t)[loops[0]] in (1, -1):
                k = loops[0]
                cf = dict(l.t)[k]
                rest = Lin({a: b for a, b in l.t if a != k}, l.c)
                lo, hi = LOOPS[k]
                # positions covered: cf*[lo,hi) + rest
                first = (lo + rest) if cf == 1 else (rest - (hi - 1))
                n = hi - lo
                full = first == Lin((), 0) and n == s.n
                off = -rest if cf == 1 else rest - (s.n - 1)
                # position p <-> iota = p - rest  (cf=1),  iota = rest - p  (cf=-1): off + n-1-p
                if full:
                    return self.put(o, HList([Seg(s.n, v, None, off=off, rev=cf == -1)]), "item assignment")
                if s.val is None:
                    # initial part still None: remember the written part only
                    last_ = first + n
                    out = []
                    if not first == Lin((), 0):
                        out.append(Seg(first, None))
                    out.append(Seg(n, v, None, off=as_lin(off) + (first if cf == 1 else 0), rev=cf == -1))
                    if not last_ == s.n:
                        out.append(Seg(s.n - last_, None))
                    return self.put(o, HList(out), "item assignment")
        if len(items) > 1 and any(isinstance(x, Seg) and x.val is None for x in items) or \
                any(isinstance(x, Seg) for x in items):
            # constant position inside a symbolic list
            if l.is_const and l.c == 0 and isinstance(items[0], Seg):
                s = items[0]
                return self.put(o, HList([v, s.cp(n=s.n - 1, off=as_lin(s.off) + (0 if s.rev else 1))] + items[1:]), "item assignment")
            if l.is_const and 0 <= l.c < len(items):
                for k in range(l.c + 1):
                    if isinstance(items[k], Seg):
                        break
                if k == l.c and not isinstance(items[k], Seg):
                    items[k] = v
                    return self.put(o, HList(items), "item assignment")
                if k == l.c:
                    s = items[k]
                    return self.put(o, HList(items[:k] + [v, s.cp(n=s.n - 1, off=as_lin(s.off) + (0 if s.rev else 1))] + items[k + 1:]), "item assignment")
            loops = [k for k, _ in l.t if k in LOOPS]
            if len(loops) == 1 and loops[0].startswith("it") and dict(l.t)[loops[0]] in (1, -1):
                # write into a trailing segment
                k = loops[0]
                cf = dict(l.t)[k]
                rest = Lin({a: b for a, b in l.t if a != k}, l.c)
                lo, hi = LOOPS[k]
                first = (lo + rest) if cf == 1 else (rest - (hi - 1))
                n = hi - lo
                pos = Lin((), 0)
                for j, x in enumerate(items):
                    ln = x.n if isinstance(x, Seg) else Lin((), 1)
                    if isinstance(x, Seg) and first == pos and n == ln:
                        # segment position q=p-pos ; iota = p - rest = q + pos - rest
                        off = pos - rest if cf == 1 else rest - pos - (n - 1)
                        items[j] = Seg(n, v, None, off=off, rev=cf == -1)
                        return self.put(o, HList(items), "item assignment")
                    pos = pos + ln
        self.put(o, HList(None), "item assignment")

    # ---------------------------------------------------------------- attributes
    def has_ext_base(self, c):
        for b in c.bases:
            if isinstance(b, Ext) and b.path not in ("object",) and b.path.split(".")[-1] not in ("RuntimeError", "Exception", "ValueError", "ImportError"):
                return True
            if isinstance(b, Cls) and self.has_ext_base(b):
                return True
            if isinstance(b, Top):
                return True
        return False

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls):
                out += [x for x in self.mro(b) if x not in out]
        return out

    def find_method(self, c, name):
        if not isinstance(c, Cls):
            return MISSING
        for k in self.mro(c):
            if name in k.attrs:
                return k.attrs[name]
        return MISSING

    def getattr(self, o, name):
        if isinstance(o, T):
            return self.tm.getattr(o, name)
        if isinstance(o, Ref):
            r = self.get(o)
            if isinstance(r, HObj):
                if name in r.attrs:
                    return r.attrs[name]
                if name == "__class__":
                    return r.cls
                if name == "__dict__":
                    return Top("__dict__")
                if isinstance(r.cls, Cls):
                    m = self.find_method(r.cls, name)
                    if m is not MISSING:
                        if isinstance(m, Fn):
                            if m.prop:
                                return self.call(m, [o], {})
                            if m.static == "static":
                                return m
                            return Bound(o if m.static != "class" else r.cls, m)
                        return m
                    if self.has_ext_base(r.cls):
                        return self.bm.obj_attr(o, r, name)
                    m = self.find_method(r.cls, "__getattr__")
                    if m is not MISSING and not name.startswith("__"):
                        return self.call(Bound(o, m), [name], {})
                    raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'" % (r.cls.name, name))
                return self.bm.obj_attr(o, r, name)
            return self.bm.container_attr(o, r, name)
        if isinstance(o, Mod):
            fr = self.st.frames[("mod", o.name)]
            if name in fr:
                return fr[name]
            if o.name + "." + name in self.modules:
                return Mod(o.name + "." + name)
            raise AbsRaise("AttributeError", "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, Ext):
            if not extapi.exists(o.path + "." + name):
                raise AbsRaise("AttributeError", "module '%s' has no attribute '%s'" % (o.path, name))
            return self.ext_attr(o.path + "." + name)
        if isinstance(o, Cls):
            m = self.find_method(o, name)
            if m is not MISSING:
                return Bound(o, m) if isinstance(m, Fn) and m.static == "class" else m
            if name == "__name__":
                return o.name
            if self.has_ext_base(o):
                return Meth(o, name)
            raise AbsRaise("AttributeError", "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, Super):
            if isinstance(o.cls, Cls):
                for b in o.cls.bases:
                    if isinstance(b, Cls):
                        m = self.find_method(b, name)
                        if m is not MISSING:
                            return Bound(o.obj, m) if isinstance(m, Fn) else m
                    elif isinstance(b, Ext):
                        return Meth(Super(b, o.obj), name)
            if name == "__init__":
                return Ext("noop")
            raise AbsRaise("AttributeError", "'super' object has no attribute '%s'" % name)
        if isinstance(o, Top):
            return Top("attr", vnm.fn("attr", o.v, name), o.live, o.dead)
        if isinstance(o, Fn) and (id(o.node), name) in self.fn_attrs:
            return self.fn_attrs[(id(o.node), name)]
        return self.bm.value_attr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            r = self.get(o)
            if isinstance(r, HObj):
                if isinstance(r.cls, Cls):
                    m = self.find_method(r.cls, "__set_" + name)
                    if m is not MISSING:
                        self.call(Bound(o, m), [v], {})
                        return
                    m = self.find_method(r.cls, name)
                    if isinstance(m, Fn) and m.prop and "cached" not in ast.dump(m.node.decorator_list[0]):
                        raise AbsRaise("AttributeError", "property '%s' of '%s' object has no setter" % (name, r.cls.name))
                d = dict(r.attrs)
                d[name] = v
                self.put(o, HObj(r.cls, d), "attribute %s" % name)
                return
        if isinstance(o, T):
            return self.tm.setattr(o, name, v)
        if isinstance(o, Cls):
            self.emit("modwrite", "sets class attribute %s.%s" % (o.name, name))
            o.attrs[name] = v
            return
        if isinstance(o, Mod):
            self.emit("modwrite", "sets module attribute %s.%s" % (o.name, name))
            self.st.frames[("mod", o.name)][name] = v
            return
        if isinstance(o, (Ext,)):
            self.event("extset", path=o.path + "." + name)
            return
        if isinstance(o, Fn):
            if ("mod", o.mod) in self.st.frames and self.loaded:
                self.emit("modwrite", "sets attribute %s of function %s" % (name, o.name))
            self.fn_attrs[(id(o.node), name)] = v
            return
        if isinstance(o, Top):
            return
        raise AbsRaise("AttributeError", "cannot set attribute '%s' on %s" % (name, self.tname(o)))

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Meth):
            return self.bm.call_method(f.obj, f.name, args, kw)
        if isinstance(f, Ext):
            return self.bm.call_ext(f.path, args, kw)
        if isinstance(f, Top):
            for a in list(args) + list(kw.values()):
                self.escape(a)
            return Top("call", vnm.bag("call", f.v, *[self.val_vn(a) for a in args],
                                       *[x for k in sorted(kw) for x in (k, self.val_vn(kw[k]))]))
        if isinstance(f, Ref):
            r = self.get(f)
            if isinstance(r, HObj) and getattr(r.cls, "path", "") == "partial":
                return self.call(r.attrs["f"], list(r.attrs["a"]) + list(args), dict(r.attrs["k"], **kw))
            if isinstance(r, HObj):
                m = self.find_method(r.cls, "__call__")
                if m is not MISSING:
                    return self.call_fn(m, [f] + list(args), kw)
                if not isinstance(r.cls, Cls) or self.has_ext_base(r.cls):
                    return Top("call", vnm.bag("call", self.val_vn(f), *[self.val_vn(a) for a in args]))
        if isinstance(f, (Dt,)):
            return self.bm.call_dtype(f, args, kw)
        raise AbsRaise("TypeError", "'%s' object is not callable" % self.tname(f))

    def escape(self, v):
        return

    def instantiate(self, c, args, kw):
        init = self.find_method(c, "__init__")
        if any(isinstance(b, Ext) and b.path.split(".")[-1].endswith(("Error", "Exception")) for b in c.bases):
            r = self.new(HObj(c))
            if init is not MISSING:
                self.call_fn(init, [r] + list(args), kw)
            return r
        r = self.new(HObj(c))
        if init is not MISSING:
            self.call_fn(init, [r] + list(args), kw)
        elif (args or kw) and not self.has_ext_base(c):
            if c.node is not None and getattr(c.node, "decorator_list", None) or self.find_method(c, "__new__") is not MISSING:
                return Top("instance of " + c.name)
            raise AbsRaise("TypeError", "%s() takes no arguments" % c.name)
        return r

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        star = kw.pop("**", None)
        if len(args) > len(names) and a.vararg is None:
            raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in out and k in names:
                raise AbsRaise("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
            if k in names or k in konly:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise AbsRaise("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            out.setdefault(n, d)
        for k, d in f.kwdefaults.items():
            out.setdefault(k, d)
        for n in names + konly:
            if n not in out:
                if star is not None:
                    out[n] = Top("kwarg")
                else:
                    raise AbsRaise("TypeError", "%s() missing required argument '%s'" % (f.name, n))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new(HDict(extra))
        return out

    def call_fn(self, f, args, kw):
        hk = self.hooks.get(f.qual)
        if hk is not None:
            r = hk(self, f, args, kw)
            if r is not MISSING:
                return r
        if len(self.callstack) > 60:
            raise Stop("recursion")
        if id(f.node) in self.memo_fns and not self.in_memo:
            key = (id(f.node), self.memo_key(args, kw))
            for q, r, keep in self.memo_tab:
                if q == key:
                    return r
            self.in_memo = True
            try:
                r = self.call_fn(f, args, kw)
            finally:
                self.in_memo = False
            self.memo_tab.append((key, r, (args, kw)))
            return r
        self.in_memo = False
        self.ncalls += 1
        self.funcs_seen.add(f.qual)
        loc = self.bind(f, args, kw)
        if f.qual in self.hooks.get("record", ()):
            self.event("call", fn=f.qual, args=dict(loc))
        if "options" in self.hooks and any(o in loc or f.node.args.kwarg is not None for o in self.hooks["options"]):
            self.event("optcall", fn=f.qual, f=f, args=args, kw=dict(kw), bound=dict(loc),
                       callers=[self.st.frames[i].get("__fn__") for i in self.st.stack if i in self.st.frames])
        fid = fresh()
        loc["__closure__"] = f.closure
        loc["__mod__"] = f.mod
        loc["__fn__"] = f
        if f.cls is not None and args:
            loc["__self__"] = args[0]
        st = self.st
        st.frames[fid] = loc
        st.stack.append(fid)
        save = self.site_
        fn = self.modules[f.mod][0] if f.mod in self.modules else f.mod
        rel = os.path.relpath(fn, os.path.dirname(self.root)) if os.path.isabs(fn) else fn
        self.callstack.append("%s:%d" % (save[0], save[1]))
        self.site_ = (rel, f.node.lineno, f.qual)
        g0 = self.guard
        self.guard = vnm.ONE
        nograd = id(f.node) in self.hooks.get("nograd", ())
        gr = self.grad
        if nograd:
            self.grad = False
        has_yield = getattr(f.node, "_yields", None)
        if has_yield is None:
            has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
            f.node._yields = has_yield
        try:
            if has_yield:
                raise Stop("generator function")
            n0 = len(self.pending[-1])
            fl = self.exec_block(f.node.body)
        except AbsRaise as e:
            if not getattr(e, "site", None):
                e.site = self.site()
                e.func = f.qual
            raise
        finally:
            self.callstack.pop()
            self.site_ = save
            self.guard = g0
            self.grad = gr
        rets = list(fl.ret)
        if fl.norm is not None:
            rets.append((fl.norm, None, vnm.ONE))
        if not rets:
            ex = self.pending[-1][n0:]
            # all paths raise: propagate the first one as definite
            if ex:
                x = ex[-1]
                del self.pending[-1][n0:]
                for y in ex[:-1]:
                    self.pending[-1].append(y)
                base = x.state.copy()
                self.pop_frame(base, fid)
                self.st = base
                e = AbsRaise(x.etype, x.msg, x.value, x.explicit)
                e.site = x.site
                raise e
            raise AbsRaise("RuntimeError", "no exit from %s" % f.qual)
        s2, v = self.join_rets(rets)
        self.pop_frame(s2, fid)
        self.st = s2
        return v

    def pop_frame(self, st, fid):
        if fid in st.stack:
            st.stack = st.stack[: st.stack.index(fid)]
        fr = st.frames.get(fid)
        if fr is not None and not any(isinstance(v, Fn) and fid in v.closure for v in fr.values()):
            st.frames.pop(fid, None)


class HObjLike:
    pass


def vnm_mu(colour, i, back, order):
    c = (vnm.h("el", vnm.mid(colour)[0], i), vnm.h("el", vnm.mid(colour)[1], i))
    if not order:
        return vnm.bag("mub", vnm.V((c,)), back)
    return vnm.mu(c, back)
