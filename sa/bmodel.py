"""Python builtins, containers and external libraries."""
import builtins as _b
import math
import os

import extapi
import vn as vnm
from dom import *
from interp import AbsRaise, MISSING, LoopList, Stop
from tensorfns import DT_NAMES, Args

NUM = (S, bool, int, float, complex)
OPERATORS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "pow": "Pow", "mod": "Mod", "matmul": "MatMult",
             "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor", "iadd": "Add"}
CMPS = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
KNOWN_BUILTINS = set(dir(_b))
EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
GLOBAL_SETTERS = ("set_default_dtype", "set_default_device", "set_default_tensor_type", "set_grad_enabled", "manual_seed", "seed", "seterr",
                  "filterwarnings", "simplefilter", "set_num_threads", "set_detect_anomaly", "set_printoptions", "use_deterministic_algorithms")
RNG = ("rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "normal", "bernoulli", "multinomial", "poisson",
       "dropout", "initial_seed")
TORCH_CONST = {"pi": math.pi, "e": math.e, "inf": float("inf"), "nan": float("nan"), "newaxis": None, "Inf": float("inf"), "NaN": float("nan"), "tau": 2 * math.pi}
NS = ("torch", "numpy", "math", "cmath")
SUBNS = ("torch.linalg", "numpy.linalg", "torch.special", "torch.nn.functional", "torch.fft", "numpy.random", "torch.Tensor")


class BModel:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if name == "NotImplemented":
            return Ext("NotImplemented")
        if name == "Ellipsis":
            return Ext("Ellipsis")
        if name in KNOWN_BUILTINS:
            return Ext(name)
        return MISSING

    def ext_value(self, path):
        top, _, rest = path.partition(".")
        if top in NS and rest:
            last = path.rpartition(".")[2]
            if path.count(".") == 1:
                if last in TORCH_CONST:
                    return TORCH_CONST[last]
                if top in ("torch", "numpy") and last in DT_NAMES and not (top == "numpy" and last in ("float", "long", "double", "half")):
                    return Dt(DT_NAMES[last])
                if top == "numpy" and last in ("float_", "double"):
                    return Dt("f64")
                if top == "numpy" and last in ("complex_",):
                    return Dt("c128")
                if top == "torch" and last in ("strided", "contiguous_format", "preserve_format"):
                    return Ext(path)
        if path == "typing.TYPE_CHECKING":
            return False
        if path.startswith("torchgdm.constants.DTYPE_"):
            return Dt({"FLOAT": "f32", "COMPLEX": "c64"}.get(path.rpartition("_")[2], "f32"))
        if path in ("sys.version_info",):
            return (3, 12, 3, "final", 0)
        return Ext(path)

    # ------------------------------------------------------------ helpers
    def top(self, why, *args):
        live = dead = EMPTY
        for a in args:
            if isinstance(a, T):
                live, dead = live | a.live(), dead | a.dead()
            elif isinstance(a, Top):
                live, dead = live | a.live, dead | a.dead
        return Top(why, vnm.bag("ext", why, *[self.ip.val_vn(a) for a in args]), live, dead)

    def parts(self, v):
        p = self.ip.iter_parts(v)
        return p

    def items(self, v):
        it = self.ip.list_items(v)
        if it is not None and not any(isinstance(x, Seg) for x in it):
            return it
        p = self.ip.iter_parts(v)
        if p is None or any(k != "item" for k, _ in p):
            return None
        return [x for _, x in p]

    def iterator(self, parts):
        return self.ip.new(HObj(Ext("iter"), {"parts": parts}))

    def spec_val(self, spec, itl):
        if spec["kind"] == "range":
            return lin_val((spec["lo"] if spec.get("asc", True) else spec["last"]) + itl)
        return spec["elem"](itl)

    # ------------------------------------------------------------ calls of external things
    def call_ext(self, path, args, kw):
        ip = self.ip
        if path == "noop":
            return None
        hk = ip.hooks.get("ext:" + path)
        if hk is not None:
            return hk(ip, args, kw)
        f = getattr(self, "b_" + path, None) if "." not in path else None
        if f is not None:
            return f(args, kw)
        if path in EXC:
            return ip.new(HObj(Ext(path), {"args": tuple(args)}))
        parts = path.split(".")
        top, last = parts[0], parts[-1]
        if last in GLOBAL_SETTERS and top in ("torch", "numpy", "warnings", "random"):
            ip.event("globalstate", path=path)
            return Top(path)
        if last in RNG and top == "torch" or top == "random" or path.startswith("numpy.random."):
            ip.event("rng", path=path)
        if top == "torch":
            return self.call_torch(path, last, args, kw)
        if top == "numpy":
            return self.call_numpy(path, last, args, kw)
        if top in ("math", "cmath"):
            return self.call_math(last, args, kw)
        if top == "scipy":
            if last in ("spherical_jn", "spherical_yn"):
                return ip.tm.fns.sph_bessel("j" if last.endswith("jn") else "y", args, kw)
            ip.event("ext", path=path, args=tuple(args), kw=kw)
            return self.top(path, *args, *kw.values())
        if top == "warnings":
            ip.event("warn", path=path, args=tuple(args))
            return None
        if path in ("copy.copy", "copy.deepcopy"):
            return self.copy_val(args[0], path.endswith("deepcopy"))
        if path == "importlib.util.find_spec":
            n = args[0] if args else kw.get("name")
            if isinstance(n, str):
                if n.split(".")[0] in ip.missing:
                    return None
                return ip.new(HObj(Ext("spec")))
            return Top("spec")
        if path == "importlib.import_module":
            if isinstance(args[0], str):
                return ip.import_module(args[0])
            return Top("module")
        if path in ("yaml.load", "yaml.safe_load", "yaml.full_load"):
            hk = ip.hooks.get("yaml")
            ip.event("yaml", path=path, args=tuple(args), kw=kw)
            if hk is not None:
                return hk(ip, args, kw)
            return Top("yaml")
        if path == "functools.partial":
            return ip.new(HObj(Ext("partial"), {"f": args[0], "a": tuple(args[1:]), "k": dict(kw)}))
        if path in ("functools.lru_cache", "functools.cache", "functools.wraps"):
            return Top(path)
        if path == "functools.reduce":
            its = self.items(args[1])
            if its is not None:
                its = list(its)
                if len(args) <= 2 and not its:
                    raise AbsRaise("TypeError", "reduce() of empty iterable with no initial value")
                acc = args[2] if len(args) > 2 else its.pop(0)
                for x in its:
                    acc = ip.call(args[0], [acc, x], {})
                return acc
        if path.startswith(("operator.", "_operator.")):
            if last in OPERATORS and len(args) == 2 and not kw:
                return ip.binop(OPERATORS[last], args[0], args[1])
            if last in CMPS and len(args) == 2 and not kw:
                return ip.compare(CMPS[last], args[0], args[1])
            if last == "getitem" and len(args) == 2:
                return ip.getitem(args[0], args[1])
            if last in ("itemgetter", "attrgetter") and args and not kw:
                return ip.new(HObj(Ext("partial"), {"f": Ext("operator.__get_" + last), "a": (tuple(args),), "k": {}}))
            if last in ("__get_itemgetter", "__get_attrgetter"):
                g = (lambda o, k: ip.getitem(o, k)) if "item" in last else (lambda o, k: ip.getattr(o, k))
                r = tuple(g(args[1], k) for k in args[0])
                return r[0] if len(r) == 1 else r
        if path in ("importlib.resources.files",) and args and isinstance(args[0], (Mod, str)):
            nm = args[0].name if isinstance(args[0], Mod) else args[0]
            fn, pk = ip.modfile(nm)
            if fn:
                return PathV(os.path.dirname(fn))
        if path in ("pathlib.Path", "pathlib.PurePath", "os.path.join", "os.fspath", "os.path.dirname", "os.path.basename",
                    "os.path.abspath", "os.path.realpath", "os.path.splitext", "os.listdir", "os.path.exists",
                    "os.path.isfile", "os.path.normpath", "os.path.expanduser", "glob.glob"):
            ps = [a.p if isinstance(a, PathV) else a for a in args]
            if ps and all(isinstance(p, str) for p in ps):
                if top == "pathlib":
                    return PathV(os.path.join(*ps))
                if last in ("join", "dirname", "basename", "abspath", "realpath", "normpath", "expanduser"):
                    return getattr(os.path, last)(*ps)
                if last == "splitext":
                    return os.path.splitext(ps[0])
                if last == "fspath":
                    return ps[0]
                if last in ("exists", "isfile"):
                    return getattr(os.path, last)(ps[0])
                if last == "listdir" and os.path.isdir(ps[0]):
                    return ip.new_list(sorted(os.listdir(ps[0])))
                if last == "glob":
                    import glob
                    return ip.new_list(sorted(glob.glob(ps[0])))
            return Top("path", vnm.bag("path", *[ip.val_vn(a) for a in args]))
        if path in ("time.time", "time.perf_counter", "time.monotonic"):
            return S("float", Elem(vnm.fn("time", fresh())))
        if path in ("itertools.pairwise", "itertools.chain.from_iterable", "itertools.zip_longest", "itertools.repeat", "itertools.starmap", "itertools.islice",
                    "itertools.accumulate", "itertools.takewhile") and not (last == "zip_longest" and len(args) > 4):
            import itertools
            if last == "repeat" and len(args) == 2 and isinstance(args[1], int):
                return ip.new_list([args[0]] * args[1])
            if last == "pairwise":
                its = self.items(args[0])
                if its is not None:
                    return ip.new_list(list(zip(its, its[1:])))
            if last == "from_iterable":
                its = self.items(args[0])
                its = None if its is None else [self.items(x) for x in its]
                if its is not None and all(i is not None for i in its):
                    return ip.new_list([x for i in its for x in i])
            if last == "zip_longest":
                its = [self.items(x) for x in args]
                if all(i is not None for i in its):
                    return ip.new_list(list(itertools.zip_longest(*its, fillvalue=kw.get("fillvalue"))))
            if last == "starmap":
                its = self.items(args[1])
                its = None if its is None else [self.items(x) for x in its]
                if its is not None and all(i is not None for i in its):
                    return ip.new_list([ip.call(args[0], list(i), {}) for i in its])
            if last == "islice" and all(isinstance(x, (int, type(None))) for x in args[1:]):
                its = self.items(args[0])
                if its is not None:
                    return ip.new_list(list(itertools.islice(its, *args[1:])))
            if last == "accumulate":
                its = self.items(args[0])
                if its is not None:
                    f = args[1] if len(args) > 1 else kw.get("func")
                    g = (lambda a, b: ip.binop("Add", a, b)) if f is None else (lambda a, b: ip.call(f, [a, b], {}))
                    out = []
                    if "initial" in kw:
                        out.append(kw["initial"])
                    for x in its:
                        out.append(g(out[-1], x) if out else x)
                    return ip.new_list(out)
            return Top(path)
        if path in ("itertools.product", "itertools.combinations", "itertools.chain", "itertools.islice", "itertools.accumulate"):
            its = [self.items(a) for a in args if not isinstance(a, int)]
            if all(i is not None for i in its):
                import itertools
                if last == "product":
                    return ip.new_list([tuple(x) for x in itertools.product(*its)])
                if last == "chain":
                    return ip.new_list([x for i in its for x in i])
                if last == "combinations":
                    return ip.new_list([tuple(x) for x in itertools.combinations(its[0], args[1])])
            return Top(path)
        if path in KNOWN_BUILTINS:
            u = ip.unmodelled
            u[path] = u.get(path, 0) + 1
            return self.top(path, *args)
        ip.event("ext", path=path, args=tuple(args), kw=kw)
        return self.top(path, *args, *[kw[k] for k in sorted(kw)])

    def copy_val(self, v, deep):
        ip = self.ip
        if isinstance(v, T):
            return ip.tm.fns.f_clone([v], {})
        if isinstance(v, Ref):
            r = ip.get(v)
            c = lambda x: self.copy_val(x, True) if deep else x
            if isinstance(r, HList) and r.items is not None and r.loop is None:
                return ip.new(HList([x.cp(val=c(x.val)) if isinstance(x, Seg) else c(x) for x in r.items]))
            if isinstance(r, HDict):
                return ip.new(HDict({k: c(x) for k, x in r.d.items()}, r.unk))
            if isinstance(r, HObj):
                return ip.new(HObj(r.cls, {k: c(x) for k, x in r.attrs.items()}))
            return ip.new(r)
        if isinstance(v, tuple) and deep:
            return tuple(self.copy_val(x, True) for x in v)
        return v

    def call_torch(self, path, last, args, kw):
        ip = self.ip
        fns = ip.tm.fns
        if path.count(".") == 1:
            why = extapi.misuse("torch", last, len(args), kw)
            if why:
                raise AbsRaise("TypeError", why)
        if path in ("torch.tensor", "torch.as_tensor", "torch.asarray", "torch.scalar_tensor"):
            v = args[0] if args else kw.get("data")
            if v is None or isinstance(v, str):
                raise AbsRaise("RuntimeError", "could not infer the data type of %r" % (v,))
            return fns.tensor(v, {k: x for k, x in kw.items() if k not in ("data", "requires_grad")}, alias=last in ("as_tensor", "asarray"), args=args[1:])
        if path == "torch.device":
            a = args[0] if args else kw.get("type")
            if isinstance(a, str):
                return Dev("D" if a == "D" else a)
            if isinstance(a, Dev):
                return a
            return Top("device")
        if path == "torch.Tensor":
            v = args[0] if args else None
            return fns.tensor(v, {"dtype": Dt("f32")})
        if path in ("torch.no_grad", "torch.inference_mode", "torch.enable_grad", "torch.autograd.no_grad", "torch.set_grad_enabled"):
            return ip.new(HObj(Ext(path)))
        if path == "torch.autograd.grad":
            ip.event("autograd", args=tuple(args))
            return self.top("autograd.grad", *args)
        if path in ("torch.autograd.backward",):
            ip.event("backward", t=args[0])
            return None
        if path.startswith("torch.autograd.") or path.startswith("torch.func.") or path.startswith("torch.cuda."):
            return self.top(path)
        if path in ("torch.get_default_dtype",):
            return Dt("f32")
        if path == "torch.Size":
            return tuple(self.items(args[0]) or ()) if args else ()
        if path.count(".") == 1 or path.rpartition(".")[0] in SUBNS:
            if last in ("float32", "float64") and False:
                pass
            if path.rpartition(".")[0] == "torch.Tensor":
                return fns.method(args[0], last, args[1:], kw) if isinstance(args[0], T) else self.top(path, *args)
            return fns.call(last, list(args), kw)
        return self.top(path, *args)

    def call_numpy(self, path, last, args, kw):
        ip = self.ip
        fns = ip.tm.fns
        if last in ("array", "asarray", "asanyarray", "ascontiguousarray"):
            if isinstance(args[0], Top):
                return self.top(path, *args)
            return (fns.f_array if last == "array" else fns.f_asarray)(list(args), kw)
        if path.startswith("numpy.random"):
            return self.top(path, *args)
        if path in ("numpy.errstate", "numpy.printoptions"):
            return ip.new(HObj(Ext(path)))
        for a in args:
            if isinstance(a, T) and not a.np and any(e.live for e in a.el) and ip.grad:
                raise AbsRaise("RuntimeError", "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
            if isinstance(a, T) and not a.np and a.dev not in ("cpu", "any", None):
                raise AbsRaise("TypeError", "can't convert device tensor to numpy")
        if path.count(".") == 1 or path.rpartition(".")[0] in SUBNS:
            r = fns.call(last, [a.cp(np=True) if isinstance(a, T) else a for a in args], kw, np_=True)
            if isinstance(r, T):
                r = r.cp(np=True) if not r.np else r
            return r
        return self.top(path, *args)

    def call_math(self, last, args, kw):
        ip = self.ip
        if all(isinstance(a, (int, float)) for a in args):
            try:
                return getattr(math, last)(*args)
            except (TypeError, ValueError, OverflowError, AttributeError) as e:
                raise AbsRaise(type(e).__name__, str(e))
        if any(isinstance(a, Top) for a in args):
            return self.top("math." + last, *args)
        a = [self.to_scalar(x) for x in args]
        if last in ("sqrt", "exp", "sin", "cos", "acos", "log", "fabs") and isinstance(a[0], S):
            import tensorfns
            fv = tensorfns.UN["abs" if last == "fabs" else last][0]
            return S("float", a[0].el.cp(v=fv(a[0].el.v), const=None, unit=0))
        if last in ("ceil", "floor"):
            e = a[0].el
            return S("int", Elem(vnm.fnr(last, e.v)), lin=self.int_sym(vnm.fnr(last, e.v)))
        return S("float", Elem(vnm.fn("math." + last, *[ip.scal_elem(x).v for x in a])))

    def int_sym(self, v):
        nm = "i%x" % (vnm.mid(v)[0] & 0xffffffffff)
        vnm.INTV[nm] = v
        LB.setdefault(nm, 1)
        return sym(nm)

    def to_scalar(self, x):
        if isinstance(x, T):
            return self.ip.tm.fns.f_item([x], {})
        return x

    def call_dtype(self, d, args, kw):
        if not args:
            return 0
        a = args[0]
        fns = self.ip.tm.fns
        if isinstance(a, Top):
            return self.top("dtype", a)
        t = fns.asarr(a)
        if t is None:
            return self.top("dtype")
        if any(e.live for e in t.el) and not t.np:
            t = fns.detached(t, "a NumPy scalar")
        return fns.convert(t.cp(np=True), d.d, None)

    # ------------------------------------------------------------ builtins
    def b_len(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, T):
            if v.shape is None:
                return Top("len")
            if not v.shape:
                raise AbsRaise("TypeError", "len() of a 0-d tensor")
            return lin_val(dim_lin(v.shape[0]))
        if isinstance(v, Ref):
            r = ip.get(v)
            if isinstance(r, HList):
                if r.items is None:
                    return S("int", Elem(vnm.fn("len", fresh())))
                if r.loop is not None:
                    l = r.loop.done + (len(r.loop.prefix) + len(r.loop.app))
                    return lin_val(l)
                return lin_val(ip.list_len(r))
            if isinstance(r, HDict):
                return len(r.d) if not r.unk else Top("len")
            if isinstance(r, HSet):
                return len(r.items)
            if isinstance(r, HObj):
                p = getattr(r.cls, "path", "")
                if p in ("range", "iter"):
                    pr = ip.iter_parts(v)
                    if pr is None:
                        return Top("len")
                    l = Lin((), 0)
                    for k, s in pr:
                        if k == "item":
                            l = l + 1
                        elif k == "sym":
                            l = l + s["n"]
                        else:
                            return Top("len")
                    return lin_val(l)
                m = ip.find_method(r.cls, "__len__")
                if m is not MISSING:
                    return ip.call(Bound(v, m), [], {})
                if isinstance(r.cls, Cls) and not ip.has_ext_base(r.cls):
                    raise AbsRaise("TypeError", "object of type '%s' has no len()" % r.cls.name)
        if isinstance(v, (int, float, complex, bool, type(None), S)):
            raise AbsRaise("TypeError", "object of type '%s' has no len()" % ip.tname(v))
        return Top("len")

    def b_range(self, args, kw):
        a = [self.ip.tm.as_index(x) if isinstance(x, T) else x for x in args]
        for x in a:
            if isinstance(x, float) or isinstance(x, S) and x.kind != "int":
                raise AbsRaise("TypeError", "'float' object cannot be interpreted as an integer")
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (a[0], a[1], 1)
        return self.ip.new(HObj(Ext("range"), {"a": tuple(a)}))

    def b_int(self, args, kw):
        if not args:
            return 0
        v = args[0]
        if isinstance(v, T):
            if v.shape is not None and any(d and not dim_unknown(d) for d in v.shape):
                raise AbsRaise("TypeError", "only one element tensors can be converted to Python scalars")
            return self.ip.tm.to_int(v)
        if isinstance(v, S):
            if v.kind == "int":
                return v
            if v.kind == "complex":
                raise AbsRaise("TypeError", "int() argument must not be complex")
            return self.ip.tm.to_int(v)
        if isinstance(v, Top):
            return S("int", Elem(vnm.fnr("int", v.v)), lin=self.int_sym(vnm.fnr("int", v.v)))
        try:
            return int(v, *args[1:]) if isinstance(v, str) else int(v)
        except (TypeError, ValueError, OverflowError) as e:
            raise AbsRaise(type(e).__name__, str(e))

    def num(self, v, kind):
        ip = self.ip
        if isinstance(v, T):
            r = ip.tm.fns.f_item([v], {})
            v = r
        if isinstance(v, S):
            if v.kind == "complex" and kind == "float":
                raise AbsRaise("TypeError", "can't convert complex to float")
            return S(kind, v.el.cp())
        if isinstance(v, Top):
            return S(kind, Elem(vnm.fn("num", v.v) if False else v.v, v.live and EMPTY, v.dead | frozenset((l, kind + "()") for l in v.live), unit=UNK))
        if isinstance(v, str) and v.startswith("@"):
            return self.token(v, kind)
        if isinstance(v, PathV):
            raise AbsRaise("TypeError", "float() argument must be a string or a real number")
        try:
            return {"float": float, "complex": complex}[kind](v)
        except (TypeError, ValueError, OverflowError) as e:
            raise AbsRaise(type(e).__name__, str(e))

    def token(self, v, kind):
        """a number written in a data file (its content is symbolic)"""
        return S(kind, Elem(vnm.leaf(v[1:], real=True)))

    def b_float(self, args, kw):
        return self.num(args[0], "float") if args else 0.0

    def b_complex(self, args, kw):
        if len(args) == 2:
            return self.ip.binop("Add", args[0], self.ip.binop("Mult", 1j, args[1]))
        return self.num(args[0], "complex") if args else 0j

    def b_bool(self, args, kw):
        if not args:
            return False
        t, m = self.ip.truth(args[0])
        if t in (True, False):
            return t
        if t == "top" or m is None:
            return Top("bool", m)
        return S("bool", Elem(m))

    def extremum(self, args, kw, name):
        ip = self.ip
        if len(args) == 1:
            if isinstance(args[0], T):
                return ip.tm.fns.f_max([args[0]], {}, name) if len(args[0].shape or ()) == 1 else self.top(name, *args)
            its = self.items(args[0])
            if its is None:
                p = ip.iter_parts(args[0])
                if p:
                    vs = []
                    for k, s in p:
                        v = s if k == "item" else (self.spec_val(s, Lin((), 0)) if k == "sym" else Top("x"))
                        vs.append(v)
                    return self.top(name, *vs) if not all(isinstance(v, NUM) for v in vs) else S("float", Elem(vnm.bag(name, *[ip.scal_elem(v).v for v in vs])))
                return self.top(name, *args)
            args = its
            if not args:
                if "default" in kw:
                    return kw["default"]
                raise AbsRaise("ValueError", "%s() arg is an empty sequence" % name)
        if "key" in kw:
            return self.top(name, *args)
        if any(isinstance(a, Top) for a in args):
            return self.top(name, *args)
        if any(isinstance(a, T) for a in args):
            r = args[0]
            for a in args[1:]:
                r = ip.tm.maximum(r, a, name)
            return r
        if not any(isinstance(a, S) for a in args):
            try:
                return (max if name == "max" else min)(args)
            except TypeError as e:
                raise AbsRaise("TypeError", str(e))
        r = args[0]
        for a in args[1:]:
            r = self.max2(r, a, name)
        return r

    def max2(self, a, b, name):
        ip = self.ip
        la, lb = as_lin(a), as_lin(b)
        if la is not None and lb is not None:
            c = ip.tm.lin_cmp("LtE", la, lb)
            if c is True:
                return b if name == "max" else a
            if c is False:
                return a if name == "max" else b
            v = vnm.fn(name, *sorted([lin_vn(la), lin_vn(lb)], key=lambda q: q.w))
            nm = "i%x" % (vnm.mid(v)[0] & 0xffffffffff)
            vnm.INTV[nm] = v
            x, y = lin_lb(la), lin_lb(lb)
            if name == "max":
                LB[nm] = max([q for q in (x, y) if q is not None], default=None)
            else:
                LB[nm] = min(x, y) if x is not None and y is not None else None
            return S("int", Elem(v), lin=sym(nm))
        ea, eb = ip.scal_elem(a), ip.scal_elem(b)
        k = "float" if "float" in (ip.scal_kind(a), ip.scal_kind(b)) else ip.scal_kind(a)
        x, y = sorted([ea.v, eb.v], key=lambda q: q.w)
        return S(k, ip.tm.merge([ea, eb], vnm.fn(name, x, y), ip.tm.u_same([ea, eb], name)))

    def b_max(self, args, kw):
        return self.extremum(args, kw, "max")

    def b_min(self, args, kw):
        return self.extremum(args, kw, "min")

    def b_abs(self, args, kw):
        v = args[0]
        if isinstance(v, T):
            return self.ip.tm.fns.unary("abs", v)
        if isinstance(v, S):
            return S("float" if v.kind == "complex" else v.kind, v.el.cp(v=vnm.abs_(v.el.v), const=None), lin=None) if v.kind != "int" else S("int", v.el.cp(v=vnm.abs_(v.el.v)))
        if isinstance(v, Top):
            return self.top("abs", v)
        try:
            return abs(v)
        except TypeError as e:
            raise AbsRaise("TypeError", str(e))

    def b_round(self, args, kw):
        v = args[0]
        if isinstance(v, T):
            return self.ip.tm.fns.unary("round", v)
        if isinstance(v, S):
            if v.kind == "int":
                return v
            x = vnm.fnr("round", v.el.v)
            return S("int", Elem(x), lin=self.int_sym(x)) if len(args) == 1 else S("float", v.el.cp(v=x))
        if isinstance(v, Top):
            return self.top("round", v)
        try:
            return round(*args)
        except (TypeError, ValueError) as e:
            raise AbsRaise(type(e).__name__, str(e))

    def b_pow(self, args, kw):
        return self.ip.binop("Pow", args[0], args[1])

    def b_divmod(self, args, kw):
        return (self.ip.binop("FloorDiv", args[0], args[1]), self.ip.binop("Mod", args[0], args[1]))

    TYPES = {"torch.Tensor": lambda v: isinstance(v, T) and not v.np, "numpy.ndarray": lambda v: isinstance(v, T) and v.np,
             "int": lambda v: isinstance(v, int) or isinstance(v, S) and v.kind in ("int", "bool"),
             "float": lambda v: isinstance(v, float) or isinstance(v, S) and v.kind == "float",
             "complex": lambda v: isinstance(v, complex) or isinstance(v, S) and v.kind == "complex",
             "bool": lambda v: isinstance(v, bool) or isinstance(v, S) and v.kind == "bool",
             "str": lambda v: isinstance(v, str), "bytes": lambda v: isinstance(v, bytes), "tuple": lambda v: isinstance(v, tuple),
             "NoneType": lambda v: v is None, "object": lambda v: True, "torch.device": lambda v: isinstance(v, Dev), "torch.dtype": lambda v: isinstance(v, Dt),
             "torch.Size": lambda v: isinstance(v, tuple), "slice": lambda v: isinstance(v, slice)}

    def is_inst(self, v, t):
        ip = self.ip
        if isinstance(t, tuple):
            res = False
            for x in t:
                r = self.is_inst(v, x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if isinstance(t, Ref):
            its = ip.list_items(t)
            return self.is_inst(v, tuple(its)) if its else None
        if isinstance(v, Top) or isinstance(t, Top):
            return None
        rec = ip.get(v) if isinstance(v, Ref) else None
        if isinstance(t, Cls):
            if isinstance(rec, HObj) and isinstance(rec.cls, Cls):
                return any(c is t for c in ip.mro(rec.cls))
            return False
        if isinstance(t, Dt):
            return isinstance(v, T) and v.np and v.shape == () and v.dt == t.d
        if isinstance(t, Ext):
            p = t.path
            if p in self.TYPES:
                return bool(self.TYPES[p](v))
            if p in ("list", "collections.abc.Sequence", "typing.Sequence", "collections.abc.Iterable", "typing.List", "List"):
                if p == "list":
                    return isinstance(rec, HList)
                return isinstance(rec, HList) or isinstance(v, tuple) or (isinstance(v, (str,))) or p.endswith("Iterable") and isinstance(v, T)
            if p in ("dict", "collections.abc.Mapping"):
                return isinstance(rec, HDict)
            if p in ("set", "frozenset"):
                return isinstance(rec, HSet)
            if p in ("numbers.Number", "numpy.number", "numbers.Real", "numbers.Complex", "numpy.generic"):
                return isinstance(v, NUM)
            if p in ("numpy.integer", "numbers.Integral", "numpy.int64", "numpy.floating", "numpy.complexfloating"):
                if p == "numbers.Integral":
                    return self.TYPES["int"](v)
                return False
            if p in EXC:
                if isinstance(rec, HObj):
                    return ip.exc_matches(ip.exc_name(v), t)
                return False
            if isinstance(rec, HObj) and isinstance(rec.cls, Cls):
                for c in ip.mro(rec.cls):
                    for b in c.bases:
                        if isinstance(b, Ext) and b.path == p:
                            return True
                return None if ip.has_ext_base(rec.cls) else False
            if isinstance(rec, HObj) and isinstance(rec.cls, Ext):
                return True if rec.cls.path == p else None
            if isinstance(v, NUM + (str, tuple, type(None), T)) or isinstance(rec, (HList, HDict, HSet)):
                return False
        return None

    def b_isinstance(self, args, kw):
        r = self.is_inst(args[0], args[1])
        return r if r is not None else Top("isinstance")

    def b_issubclass(self, args, kw):
        return Top("issubclass")

    def b_type(self, args, kw):
        v = args[0]
        if len(args) > 1:
            return Top("type")
        if isinstance(v, Ref):
            r = self.ip.get(v)
            if isinstance(r, HObj):
                return r.cls
            return Ext({"HList": "list", "HDict": "dict", "HSet": "set"}[type(r).__name__])
        if isinstance(v, T):
            return Ext("numpy.ndarray" if v.np else "torch.Tensor")
        if isinstance(v, S):
            return Ext(v.kind or "float")
        if isinstance(v, Top):
            return Top("type")
        return Ext(type(v).__name__)

    def b_print(self, args, kw):
        self.ip.event("print", args=tuple(args))
        return None

    def b_zip(self, args, kw):
        ps = [self.ip.iter_parts(a) for a in args]
        if any(p is None for p in ps):
            for a in args:
                if isinstance(a, NUM + (type(None),)):
                    raise AbsRaise("TypeError", "zip argument is not iterable")
            return self.iterator([("unknown", tuple(Top("zip") if p is None or not p or p[0][0] != "item" else p[0][1] for p in ps))])
        if all(all(k == "item" for k, _ in p) for p in ps):
            n = min([len(p) for p in ps] or [0])
            return self.iterator([("item", tuple(p[i][1] for p in ps)) for i in range(n)])
        if any(any(k == "unknown" for k, _ in p) for p in ps):
            return self.iterator([("unknown", tuple(Top("zip") for p in ps))])
        # symbolic: consume in lockstep
        out = []
        cur = [list(p) for p in ps]
        while all(cur):
            heads = [c[0] for c in cur]
            if all(k == "item" for k, _ in heads):
                out.append(("item", tuple(v for _, v in heads)))
                for c in cur:
                    c.pop(0)
                continue
            if all(k == "sym" for k, _ in heads):
                specs = [s for _, s in heads]
                ns = [s["n"] for s in specs]
                asc = [s.get("asc", True) for s in specs]
                if len(set(asc)) == 1:
                    n = ns[0]
                    ok = True
                    for m in ns[1:]:
                        c = self.ip.tm.lin_cmp("LtE", m, n)
                        if c is True:
                            n = m
                        elif c is None:
                            ok = False
                    if ok and (all(m == n for m in ns) or asc[0]):
                        fac = next((s.get("fac") for s in specs if s.get("fac")), None)
                        sp = dict(n=n, kind="zip", asc=asc[0], fac=fac, elem=(lambda it, q=specs: tuple(self.spec_val(s, it) for s in q)))
                        out.append(("sym", sp))
                        for c, s in zip(cur, specs):
                            c.pop(0)
                        if not all(m == n for m in ns):
                            break
                        continue
            # item against symbolic: peel
            for c in cur:
                k, s = c[0]
                if k == "sym":
                    if not s.get("asc", True):
                        return self.iterator([("unknown", tuple(Top("zip") for _ in ps))])
                    first = self.spec_val(s, Lin((), 0))
                    rest = dict(s)
                    rest["n"] = s["n"] - 1
                    rest["kind"] = "shifted"
                    rest["elem"] = (lambda it, q=s: self.spec_val(q, it + 1))
                    c[0] = ("item", first)
                    c.insert(1, ("sym", rest))
        return self.iterator(out)

    def b_enumerate(self, args, kw):
        A = Args(args, kw)
        start = A.get(1, "start", 0)
        ps = self.ip.iter_parts(args[0])
        if ps is None:
            return self.iterator([("unknown", (S("int", Elem(vnm.fn("enum", fresh()))), Top("elem")))])
        out = []
        pos = as_lin(start)
        for k, s in ps:
            if k == "item":
                out.append(("item", (lin_val(pos), s)))
                pos = pos + 1
            elif k == "sym":
                asc = s.get("asc", True)
                sp = dict(s)
                sp["kind"] = "enum"
                sp["elem"] = (lambda it, q=s, p=pos, a=asc: (lin_val(p + it) if a else lin_val(p + q["n"] - 1 - it), self.spec_val(q, it)))
                out.append(("sym", sp))
                pos = pos + s["n"]
            else:
                out.append(("unknown", (S("int", Elem(vnm.fn("enum", fresh()))), s)))
        return self.iterator(out)

    def b_reversed(self, args, kw):
        v = args[0]
        ip = self.ip
        if isinstance(v, Ref):
            r = ip.get(v)
            if isinstance(r, HObj) and getattr(r.cls, "path", "") == "range":
                p = ip.range_parts(r.attrs["a"], reverse=True)
                return self.iterator(p if p is not None else [("unknown", Top("elem"))])
            if isinstance(r, HList) and r.items is not None and r.loop is None:
                return ip.new_list([x.cp(rev=not x.rev) if isinstance(x, Seg) else x for x in reversed(r.items)])
        its = self.items(v)
        if its is not None:
            return ip.new_list(its[::-1])
        return self.iterator([("unknown", Top("elem"))])

    def b_sorted(self, args, kw):
        its = self.items(args[0])
        if its is None:
            return self.ip.new_list(None)
        if "key" not in kw and not any(isinstance(x, (Top, S, T, Ref)) for x in its):
            try:
                return self.ip.new_list(sorted(its, reverse=bool(kw.get("reverse", False))))
            except TypeError as e:
                raise AbsRaise("TypeError", str(e))
        return self.ip.new_list(None)

    def b_sum(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, T):
            return ip.tm.fns.f_sum([v], {"dim": 0}) if v.shape else self.top("sum", v)
        its = ip.list_items(v)
        if its is None:
            its = self.items(v)
        if its is None:
            return self.top("sum", v)
        acc = args[1] if len(args) > 1 else kw.get("start", 0)
        for x in its:
            if isinstance(x, Seg):
                t = ip.tm.fns.asarr(x.val) if not isinstance(x.val, Top) else None
                if t is None:
                    return self.top("sum", x.val)
                st = ip.tm.fns.f_stack([ip.new_list([x.cp(val=t)]), 0], {})
                x = ip.tm.fns.f_sum([st], {"dim": 0}) if isinstance(st, T) else st
            acc = x if acc == 0 and isinstance(acc, int) and not isinstance(acc, bool) and isinstance(x, (T, S)) else ip.binop("Add", acc, x)
        return acc

    def seq(self, v):
        """list items (with segments) of any iterable; None unknown"""
        ip = self.ip
        its = ip.list_items(v)
        if its is not None:
            return list(its)
        p = ip.iter_parts(v)
        if p is None:
            return None
        out = []
        for k, s in p:
            if k == "item":
                out.append(s)
            elif k == "sym":
                fac = s.get("fac") if not ip.order_loop(s) else None
                nm = ip.loop_symbol(s, Lin((), 0), s["n"])
                val = self.spec_val(s, Lin({nm: 1}))
                out.append(Seg(s["n"], val, fac, off=0, rev=not s.get("asc", True)))
            else:
                return None
        return out

    def b_list(self, args, kw):
        if not args:
            return self.ip.new_list([])
        if isinstance(args[0], NUM + (type(None),)):
            raise AbsRaise("TypeError", "'%s' object is not iterable" % self.ip.tname(args[0]))
        return self.ip.new_list(self.seq(args[0]))

    def b_tuple(self, args, kw):
        if not args:
            return ()
        s = self.seq(args[0])
        if s is None or any(isinstance(x, Seg) for x in s):
            if isinstance(args[0], NUM + (type(None),)):
                raise AbsRaise("TypeError", "'%s' object is not iterable" % self.ip.tname(args[0]))
            return Top("tuple", vnm.bag("tuple", self.ip.val_vn(args[0])))
        return tuple(s)

    def b_set(self, args, kw):
        s = self.seq(args[0]) if args else []
        if s is None:
            return Top("set")
        out = []
        for x in s:
            if isinstance(x, Seg):
                return Top("set")
            if isinstance(x, (T, Top, S)) or not any(x == y for y in out if type(x) is type(y)):
                out.append(x)
        return self.ip.new(HSet(out))

    b_frozenset = b_set

    def b_dict(self, args, kw):
        d = {}
        unk = []
        if args:
            r = self.ip.get(args[0]) if isinstance(args[0], Ref) else None
            if isinstance(r, HDict):
                d.update(r.d)
                unk += r.unk
            else:
                its = self.items(args[0])
                if its is None:
                    return Top("dict")
                for x in its:
                    p = self.items(x)
                    if p is None or len(p) != 2:
                        return Top("dict")
                    if self.ip.hashable(p[0]):
                        d[p[0]] = p[1]
                    else:
                        unk.append((p[0], p[1]))
        d.update(kw)
        return self.ip.new(HDict(d, unk))

    def b_str(self, args, kw):
        if not args:
            return ""
        v = args[0]
        if isinstance(v, (str, int, float, complex, bool, type(None))):
            return str(v)
        if isinstance(v, PathV):
            return v.p
        return Top("str", vnm.bag("str", self.ip.val_vn(v)))

    b_repr = b_str

    def b_format(self, args, kw):
        return Top("str", vnm.bag("str", *[self.ip.val_vn(v) for v in args]))

    def quant(self, args, name):
        ip = self.ip
        v = args[0]
        if isinstance(v, T):
            return ip.tm.fns.f_all([v], {}, name)
        its = ip.list_items(v)
        if its is None:
            its = self.items(v)
        if its is None:
            return Top(name)
        acc = name == "all"
        m = None
        topd = False
        for x in its:
            if isinstance(x, Seg):
                x = x.val
            t, mm = ip.truth(x)
            if t is (name != "all"):
                return name != "all"
            if t in (True, False):
                continue
            if t == "top" or mm is None:
                topd = True
                continue
            m = mm if m is None else (ip.tm.m_and(m, mm) if name == "all" else ip.tm.m_or(m, mm))
        if topd:
            return Top(name)
        if m is None:
            return acc
        return S("bool", Elem(m))

    def b_any(self, args, kw):
        return self.quant(args, "any")

    def b_all(self, args, kw):
        return self.quant(args, "all")

    def b_map(self, args, kw):
        f = args[0]
        seqs = [self.seq(a) for a in args[1:]]
        if any(s is None for s in seqs):
            return self.ip.new_list(None)
        if any(isinstance(x, Seg) for s in seqs for x in s):
            if len(seqs) == 1:
                out = []
                for x in seqs[0]:
                    out.append(x.cp(val=self.ip.call(f, [x.val], {})) if isinstance(x, Seg) else self.ip.call(f, [x], {}))
                return self.ip.new_list(out)
            return self.ip.new_list(None)
        return self.ip.new_list([self.ip.call(f, list(x), {}) for x in zip(*seqs)])

    def b_filter(self, args, kw):
        its = self.items(args[1])
        if its is None:
            return self.ip.new_list(None)
        out = []
        for x in its:
            t, _ = self.ip.truth(self.ip.call(args[0], [x], {}) if args[0] is not None else x)
            if t is True:
                out.append(x)
            elif t is not False:
                return self.ip.new_list(None)
        return self.ip.new_list(out)

    def b_iter(self, args, kw):
        r = self.ip.get(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(r, HObj) and getattr(r.cls, "path", "") == "iter":
            return args[0]
        p = self.ip.iter_parts(args[0])
        return args[0] if p is None else self.iterator(list(p))

    def b_next(self, args, kw):
        r = self.ip.get(args[0]) if isinstance(args[0], Ref) else None
        if isinstance(r, HObj) and getattr(r.cls, "path", "") == "iter":
            parts = list(r.attrs["parts"])
            if not parts:
                if len(args) > 1:
                    return args[1]
                raise AbsRaise("StopIteration", "")
            if parts[0][0] == "item":
                self.ip.put(args[0], HObj(r.cls, dict(r.attrs, parts=parts[1:])), "next")
                return parts[0][1]
            return Top("next")
        if isinstance(r, HObj) and isinstance(r.cls, Cls):
            m = self.ip.find_method(r.cls, "__next__")
            if m is not MISSING:
                return self.ip.call(Bound(args[0], m), [], {})
        return Top("next")

    def b_getattr(self, args, kw):
        if not isinstance(args[1], str):
            return Top("getattr")
        try:
            return self.ip.getattr(args[0], args[1])
        except AbsRaise as e:
            if e.etype == "AttributeError" and len(args) > 2:
                return args[2]
            raise

    def b_hasattr(self, args, kw):
        if isinstance(args[0], Top) or not isinstance(args[1], str):
            return Top("hasattr")
        try:
            v = self.ip.getattr(args[0], args[1])
            if isinstance(v, Top) or isinstance(args[0], Ext):
                return Top("hasattr")
            return True
        except AbsRaise as e:
            if e.etype == "AttributeError":
                return False
            raise

    def b_setattr(self, args, kw):
        if isinstance(args[1], str):
            self.ip.setattr(args[0], args[1], args[2])
        return None

    def b_callable(self, args, kw):
        v = args[0]
        if isinstance(v, (Fn, Bound, Meth, Cls)):
            return True
        if isinstance(v, Top):
            return Top("callable")
        if isinstance(v, Ref):
            r = self.ip.get(v)
            if isinstance(r, HObj):
                return self.ip.find_method(r.cls, "__call__") is not MISSING or (Top("callable") if not isinstance(r.cls, Cls) else False)
        return isinstance(v, Ext)

    def b_open(self, args, kw):
        self.ip.event("open", args=tuple(args), kw=kw)
        p = args[0] if args else None
        self.last_open = p.p if isinstance(p, PathV) else p
        return Top("file", vnm.bag("file", *[self.ip.val_vn(a) for a in args]))

    def b_id(self, args, kw):
        return Top("id")

    def b_hash(self, args, kw):
        return Top("hash", vnm.bag("hash", self.ip.val_vn(args[0])))

    def b_super(self, args, kw):
        return self.ip.make_super(args)

    def b_object(self, args, kw):
        return self.ip.new(HObj(Ext("object")))

    def b_slice(self, args, kw):
        if len(args) == 1:
            return slice(args[0])
        return slice(*args)

    def b_globals(self, args, kw):
        return Top("globals")

    def b_vars(self, args, kw):
        return Top("vars")

    def b_input(self, args, kw):
        return Top("input")

    def b_exec(self, args, kw):
        raise Stop("exec")

    def b_property(self, args, kw):
        return Top("property")

    # ------------------------------------------------------------ attributes
    def container_attr(self, o, rec, name):
        py = {HList: list, HDict: dict, HSet: set}[type(rec)]
        if not hasattr(py, name):
            raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'" % (py.__name__, name))
        return Meth(o, name)

    def value_attr(self, o, name):
        ip = self.ip
        if isinstance(o, (str, bytes, tuple, int, float, complex, bool, type(None))):
            if isinstance(o, (int, float, complex)) and name in ("real", "imag"):
                return getattr(o, name)
            if isinstance(o, tuple) and name == "numel":
                return Meth(o, name)
            if not hasattr(type(o), name):
                raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'" % (type(o).__name__, name))
            if name == "__class__":
                return Ext(type(o).__name__)
            return Meth(o, name)
        if isinstance(o, S):
            if name in ("real", "imag"):
                f = vnm.re if name == "real" else vnm.im
                if o.kind == "complex":
                    return S("float", o.el.cp(v=f(o.el.v), const=None))
                return o if name == "real" else 0
            py = {"int": int, "float": float, "complex": complex, "bool": bool}.get(o.kind)
            if py is not None and not hasattr(py, name):
                raise AbsRaise("AttributeError", "'%s' object has no attribute '%s'" % (o.kind, name))
            return Meth(o, name)
        if isinstance(o, PathV):
            if name in ("name", "stem", "suffix", "parent", "parts"):
                import pathlib
                r = getattr(pathlib.PurePosixPath(o.p), name)
                return PathV(str(r)) if name == "parent" else r
            return Meth(o, name)
        if isinstance(o, Dt):
            if name == "is_complex":
                return o.d in ("c64", "c128")
            if name == "is_floating_point":
                return o.d in ("f16", "f32", "f64")
            if name in ("to_real", "to_complex", "type"):
                return Meth(o, name)
            return Top("dtattr")
        if isinstance(o, Dev):
            if name == "type":
                return o.d if o.d != "D" else Top("devtype")
            return Top("devattr")
        if isinstance(o, (Fn, Bound, Meth)):
            if name in ("__name__", "__doc__", "__qualname__"):
                return getattr(o, "name", "f") if name != "__doc__" else None
            return Top("fnattr")
        if isinstance(o, slice):
            return getattr(o, name, None)
        return Top("attr")

    def obj_attr(self, o, rec, name):
        c = rec.cls
        p = getattr(c, "path", "")
        if p == "ctx":
            if name == "saved_tensors":
                return rec.attrs.get("saved_tensors", ())
            if name == "needs_input_grad":
                return Top("needs")
            return Meth(o, name)
        if p == "iter":
            return Meth(o, name)
        if p == "range":
            return rec.attrs["a"][{"start": 0, "stop": 1, "step": 2}.get(name, 0)]
        if p == "finfo":
            return Top("finfo")
        if isinstance(c, Cls):
            return Top("attr", vnm.fn("oattr", self.ip.val_vn(o), name) if False else vnm.fn("oattr", c.qual, name))
        return Top("attr", vnm.fn("oattr", p, name))

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, args, kw):
        ip = self.ip
        if name == "__getitem__" and len(args) == 1 and not isinstance(o, (Cls, Super)):
            return ip.getitem(o, args[0])
        if name == "__len__" and not args and isinstance(o, (T, Ref, str)):
            return self.b_len([o], {})
        if isinstance(o, T):
            if not o.np:
                why = extapi.misuse("tensor", name, len(args), kw)
                if why:
                    raise AbsRaise("TypeError", why)
            return ip.tm.fns.method(o, name, list(args), kw)
        if isinstance(o, str):
            return self.str_method(o, name, args, kw)
        if isinstance(o, PathV):
            return self.path_method(o, name, args, kw)
        if isinstance(o, Ref):
            r = ip.get(o)
            if isinstance(r, HList):
                return self.list_method(o, r, name, args, kw)
            if isinstance(r, HDict):
                return self.dict_method(o, r, name, args, kw)
            if isinstance(r, HSet):
                if name in ("add", "update", "discard", "remove"):
                    ip.put(o, HSet(list(r.items) + list(args)), name)
                    return None
                return Top("set." + name)
            if isinstance(r, HObj) and getattr(r.cls, "path", "") == "ctx":
                if name == "save_for_backward":
                    ip.st.heap[o.id] = HObj(r.cls, dict(r.attrs, saved_tensors=tuple(args)))
                return None
            return self.top("method " + name, *args)
        if isinstance(o, Cls):
            if name == "apply" and ip.has_ext_base(o):
                return ip.tm.fns.custom_apply(o, list(args))
            return self.top("clsmethod " + name, *args)
        if isinstance(o, Super):
            ip.event("supercall", name=name, args=tuple(args), kw=kw, base=getattr(o.cls, "path", ""))
            if name == "__init__":
                return None
            return self.top("super." + name, *args)
        if isinstance(o, (int, float, complex, bool, S)):
            if name in ("conjugate",):
                if isinstance(o, S):
                    return S(o.kind, o.el.cp(v=vnm.conj(o.el.v), const=None)) if o.kind == "complex" else o
                return o.conjugate()
            if name == "is_integer" and isinstance(o, float):
                return o.is_integer()
            if name == "is_integer":
                return Top("is_integer")
            if name == "__float__":
                return self.b_float([o], {})
            return Top("num." + name)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if ip.equal(x, args[0]) is True:
                        return i
                return Top("index")
            if name == "count":
                return Top("count")
            if name == "numel":
                r = 1
                for x in o:
                    r = ip.binop("Mult", r, x)
                return r
        if isinstance(o, Dt):
            m = {"f64": "c128", "f32": "c64"} if name == "to_complex" else {"c128": "f64", "c64": "f32"}
            return Dt(m.get(o.d, o.d))
        return self.top("method " + name, *args)

    def path_method(self, o, name, args, kw):
        ip = self.ip
        ps = [a.p if isinstance(a, PathV) else a for a in args]
        if name == "joinpath" and all(isinstance(p, str) for p in ps):
            return PathV(os.path.join(o.p, *ps))
        if name in ("iterdir", "glob", "rglob"):
            import pathlib
            q = pathlib.Path(o.p)
            if q.is_dir():
                return ip.new_list([PathV(str(x)) for x in sorted(q.iterdir() if name == "iterdir" else getattr(q, name)(ps[0]))
                                    if x.name != "__pycache__"])
        if name in ("exists", "is_file", "is_dir"):
            return {"exists": os.path.exists, "is_file": os.path.isfile, "is_dir": os.path.isdir}[name](o.p)
        if name in ("resolve", "absolute", "expanduser"):
            return o
        if name in ("as_posix", "__str__", "__fspath__"):
            return o.p
        if name == "with_suffix" and ps and isinstance(ps[0], str):
            return PathV(os.path.splitext(o.p)[0] + ps[0])
        if name in ("open", "read_text", "read_bytes"):
            f = self.b_open([o] + list(args), kw)
            return f if name == "open" else Top("text", vnm.bag("text", o.p))
        return self.top("path." + name, *args)

    def str_method(self, o, name, args, kw):
        if all(isinstance(a, (str, int, bool, type(None), tuple)) for a in args) and all(isinstance(a, (str, int)) for a in kw.values()) and name != "format":
            if name == "join":
                its = self.items(args[0])
                if its is not None and all(isinstance(x, str) for x in its):
                    return o.join(its)
                return Top("str")
            try:
                r = getattr(o, name)(*args, **kw)
            except (TypeError, ValueError) as e:
                raise AbsRaise(type(e).__name__, str(e))
            if isinstance(r, list):
                return self.ip.new_list(r)
            return r
        if name == "join":
            its = self.items(args[0])
            if its is not None:
                if all(isinstance(x, str) for x in its):
                    return o.join(its)
                for x in its:
                    if isinstance(x, NUM + (type(None), T)):
                        raise AbsRaise("TypeError", "sequence item: expected str instance, %s found" % self.ip.tname(x))
            return Top("str", vnm.bag("join", o, self.ip.val_vn(args[0])))
        if name == "format":
            if all(isinstance(a, (str, int, float, bool, type(None))) for a in list(args) + list(kw.values())):
                try:
                    return o.format(*args, **kw)
                except Exception as e:
                    raise AbsRaise(type(e).__name__, str(e))
            return Top("str", vnm.bag("format", o, *[self.ip.val_vn(a) for a in args]))
        return Top("str", vnm.bag("str." + name, o, *[self.ip.val_vn(a) for a in args]))

    def list_method(self, o, r, name, args, kw):
        ip = self.ip
        if name == "append":
            if r.items is None:
                ip.put(o, HList(None), "append")
            elif r.loop is not None:
                ip.put(o, HList(r.items, r.loop.added(args[:1])) if not r.loop.front else HList(None), "append")
            else:
                ip.put(o, HList(r.items + [args[0]]), "append")
            return None
        if name == "copy":
            return ip.new(HList(r.items, r.loop))
        if r.loop is not None and r.items is not None:
            s = self.seq(args[0]) if name == "extend" and not r.loop.front else None
            if s is not None and not any(isinstance(x, Seg) for x in s):
                ip.put(o, HList(r.items, r.loop.added(s)), name)
                return None
            if name == "insert" and r.loop.front and type(args[0]) is int and args[0] == 0:
                ip.put(o, HList(r.items, r.loop.added(args[1:2])), name)
                return None
        if r.items is None or r.loop is not None:
            if name in ("extend", "insert", "pop", "reverse", "sort", "remove", "clear"):
                ip.put(o, HList(None), name)
            return Top("list." + name)
        items = list(r.items)
        seg = any(isinstance(x, Seg) for x in items)
        if name == "extend":
            s = self.seq(args[0])
            ip.put(o, HList(items + s if s is not None else None), "extend")
            return None
        if name == "insert":
            i = args[0]
            if i == 0:
                ip.put(o, HList([args[1]] + items, front=True), "insert")
            elif isinstance(i, int) and not seg:
                items.insert(i, args[1])
                ip.put(o, HList(items), "insert")
            else:
                ip.put(o, HList(None), "insert")
            return None
        if name == "reverse":
            ip.put(o, HList([x.cp(rev=not x.rev) if isinstance(x, Seg) else x for x in reversed(items)]), "reverse")
            return None
        if name == "pop":
            i = args[0] if args else -1
            if not isinstance(i, int):
                ip.put(o, HList(None), "pop")
                return Top("pop")
            if not items:
                raise AbsRaise("IndexError", "pop from empty list")
            if not seg:
                try:
                    v = items.pop(i)
                except IndexError:
                    raise AbsRaise("IndexError", "pop index out of range")
                ip.put(o, HList(items), "pop")
                return v
            v = ip.list_getitem(o, r, i)
            if i == 0 or i == -1:
                x = items[i]
                if isinstance(x, Seg):
                    cut = (i == 0) != x.rev
                    items[i] = x.cp(n=x.n - 1, off=as_lin(x.off) + (1 if cut else 0))
                else:
                    items.pop(i)
                ip.put(o, HList(items), "pop")
            else:
                ip.put(o, HList(None), "pop")
            return v
        if name == "clear":
            ip.put(o, HList([]), "clear")
            return None
        if name == "sort":
            if not seg and "key" not in kw and all(isinstance(x, (int, float, str)) for x in items):
                ip.put(o, HList(sorted(items, reverse=bool(kw.get("reverse", False)))), "sort")
            else:
                ip.put(o, HList(None), "sort")
            return None
        if name == "index":
            for i, x in enumerate(items):
                if isinstance(x, Seg):
                    return Top("index")
                e = ip.equal(x, args[0])
                if e is True:
                    return i
                if e is not False:
                    return Top("index")
            raise AbsRaise("ValueError", "value is not in list")
        if name == "count":
            return Top("count")
        if name == "remove":
            ip.put(o, HList(None), "remove")
            return None
        return Top("list." + name)

    def dict_method(self, o, r, name, args, kw):
        ip = self.ip
        if name == "get":
            k = args[0]
            d = args[1] if len(args) > 1 else kw.get("default")
            if ip.hashable(k) and not r.unk:
                return r.d.get(k, d)
            if ip.hashable(k) and k in r.d:
                return r.d[k]
            for q, v in r.unk:
                if ip.val_vn(q) == ip.val_vn(k):
                    return v
            if ip.hashable(k):
                return r.d.get(k, d) if ip.distinct_keys or not r.unk else Top("dict.get", vnm.fn("get", *[ip.val_vn(x) for _, x in r.unk]))
            if any(not isinstance(q, str) for q in r.d):
                v = d
                for x in r.d.values():
                    v = ip.join_vals(x, v, vnm.fn("has", ip.val_vn(k)))
                return v
            return d                  # generic position: different data are different keys
        if name in ("keys", "values", "items"):
            if r.unk:
                ps = [("item", {"keys": k, "values": v, "items": (k, v)}[name]) for k, v in r.d.items()]
                ps += [("unknown", {"keys": k, "values": v, "items": (k, v)}[name]) for k, v in r.unk]
                return self.iterator(ps)
            return ip.new_list({"keys": list(r.d), "values": list(r.d.values()), "items": [tuple(x) for x in r.d.items()]}[name])
        if name == "copy":
            return ip.new(HDict(r.d, r.unk))
        if name == "update":
            d = dict(r.d)
            unk = list(r.unk)
            if args:
                q = ip.get(args[0]) if isinstance(args[0], Ref) else None
                if isinstance(q, HDict):
                    d.update(q.d)
                    unk += q.unk
            d.update(kw)
            ip.put(o, HDict(d, unk), "update")
            return None
        if name == "pop":
            k = args[0]
            if ip.hashable(k) and k in r.d:
                d = dict(r.d)
                v = d.pop(k)
                ip.put(o, HDict(d, r.unk), "pop")
                return v
            if len(args) > 1:
                return args[1]
            if not r.unk and ip.hashable(k):
                raise AbsRaise("KeyError", repr(k))
            return Top("pop")
        if name == "setdefault":
            k = args[0]
            if ip.hashable(k) and k in r.d:
                return r.d[k]
            v = args[1] if len(args) > 1 else None
            ip.setitem(o, k, v)
            return v
        if name == "clear":
            ip.put(o, HDict({}), "clear")
            return None
        if name == "popitem":
            ip.put(o, HDict(r.d, r.unk), "popitem")
        return Top("dict." + name)
