"""Rewrites of a parsed module into the constructs the interpreter knows: match statements, generator functions, data classes and
named tuples. Only the in-memory tree is changed; line numbers are kept."""
import ast


def last(n):
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def tup(xs):
    return ast.Tuple(list(xs), ast.Load())


class Unknown(Exception):
    pass


class Desugar(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def fix(self, new, old):
        for n in ast.walk(new):
            if "lineno" in n._attributes and not hasattr(n, "lineno"):
                ast.copy_location(n, old)
        return new

    # ------------------------------------------------------------------ match
    def visit_Match(self, s):
        self.generic_visit(s)
        self.k += 1
        pre, subj = [], None
        if isinstance(s.subject, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.subject.elts):
            ns = []
            for e in s.subject.elts:
                x = "__match%d_%d" % (self.k, len(ns))
                pre.append(ast.Assign([name(x, True)], e))
                ns.append(x)
            subj = tup([name(x) for x in ns])
        else:
            x = "__match%d" % self.k
            pre.append(ast.Assign([name(x, True)], s.subject))
            subj = name(x)
        try:
            chain = []
            for c in reversed(s.cases):
                t = self.pattern(c.pattern, subj)
                if c.guard is not None:
                    t = t + [c.guard]
                if not t:
                    chain = c.body
                else:
                    chain = [ast.If(t[0] if len(t) == 1 else ast.BoolOp(ast.And(), t), c.body, chain)]
        except Unknown:
            return s
        return [self.fix(x, s) for x in pre + (chain or [ast.Pass()])]

    def pattern(self, p, e):
        """list of tests, all of which have to hold"""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(e, [ast.Eq()], [p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(e, [ast.Is()], [ast.Constant(p.value)])]
        if isinstance(p, ast.MatchAs):
            t = self.pattern(p.pattern, e) if p.pattern is not None else []
            if p.name:
                t = t + [tup([ast.NamedExpr(name(p.name, True), e)])]
            return t
        if isinstance(p, ast.MatchOr):
            alts = [self.pattern(q, e) for q in p.patterns]
            if any(not a for a in alts):
                return []
            return [ast.BoolOp(ast.Or(), [a[0] if len(a) == 1 else ast.BoolOp(ast.And(), a) for a in alts])]
        if isinstance(p, ast.MatchClass) and not p.patterns:
            t = [ast.Call(name("isinstance"), [e, p.cls], [])]
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                t += self.pattern(q, ast.Attribute(e, k, ast.Load()))
            return t
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if isinstance(e, ast.Tuple):
                if len(e.elts) != len(p.patterns):
                    return [ast.Constant(False)]
                return [t for q, x in zip(p.patterns, e.elts) for t in self.pattern(q, x)]
            t = [ast.Compare(ast.Call(name("len"), [e], []), [ast.Eq()], [ast.Constant(len(p.patterns))])]
            for i, q in enumerate(p.patterns):
                t += self.pattern(q, ast.Subscript(e, ast.Constant(i), ast.Load()))
            return t
        raise Unknown

    def visit_With(self, s):
        """with contextlib.suppress(E): body -> try: body except E: pass"""
        self.generic_visit(s)
        if len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and last(s.items[0].context_expr.func) == "suppress" and s.items[0].optional_vars is None:
            e = s.items[0].context_expr.args
            h = ast.ExceptHandler(e[0] if len(e) == 1 else tup(e), None, [ast.Pass()])
            return self.fix(ast.Try(s.body, [h], [], []), s)
        return s

    # ------------------------------------------------------------------ generators
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        cm = [d for d in f.decorator_list if last(d) == "contextmanager"]
        if cm:
            own = Own()
            for s in f.body:
                own.visit(s)
            if len(own.yields) == 1 and isinstance(own.yields[0], ast.Yield) and own.yields[0] in own.plain:
                f.decorator_list = [d for d in f.decorator_list if d not in cm]
                f.body = [Once().visit(s) for s in f.body]      # entered and left around the block: what follows the yield is not modelled
                return self.fix(f, f)
        if any((last(d.func) if isinstance(d, ast.Call) else last(d)) in ("contextmanager", "asynccontextmanager", "fixture") for d in f.decorator_list):
            return f
        own = Own()
        for s in f.body:
            own.visit(s)
        if not own.yields:
            return f
        if any(y not in own.plain for y in own.yields):
            return f                                  # values sent into the generator: not modelled
        f.body = [ast.Assign([name("__yield", True)], ast.List([], ast.Load()))] + [Yield().visit(s) for s in f.body] + [ret()]
        return self.fix(f, f)

    # ------------------------------------------------------------------ data classes and named tuples
    def visit_ClassDef(self, c):
        self.generic_visit(c)
        data = next((d for d in c.decorator_list if (last(d.func) if isinstance(d, ast.Call) else last(d)) == "dataclass"), None)
        nt = any(last(b) == "NamedTuple" for b in c.bases)
        if data is None and not nt:
            return c
        have = {s.name for s in c.body if isinstance(s, ast.FunctionDef)}
        fields = [s for s in c.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation)]
        kwonly = data is not None and isinstance(data, ast.Call) and any(k.arg == "kw_only" for k in data.keywords)
        if nt:
            c.bases = [b for b in c.bases if last(b) != "NamedTuple"]
        elif any(True for b in c.bases if last(b) not in ("object", None)):
            return c                                  # inherited fields: not modelled
        c.decorator_list = [d for d in c.decorator_list if d is not data]
        args, defaults, body = [], [], []
        for s in fields:
            v = s.value
            x = s.target.id
            init = name(x)
            if isinstance(v, ast.Call) and last(v.func) == "field":
                kw = {k.arg: k.value for k in v.keywords}
                if "init" in kw:
                    return c
                if "default_factory" in kw:
                    init = ast.IfExp(ast.Compare(name(x), [ast.Is()], [ast.Constant("__missing field")]), ast.Call(kw["default_factory"], [], []), name(x))
                    init = ast.IfExp(ast.Compare(name(x), [ast.Is()], [ast.Constant(None)]), ast.Call(kw["default_factory"], [], []), name(x))
                    v = ast.Constant(None)
                else:
                    v = kw.get("default")
            args.append(ast.arg(x))
            if v is not None:
                defaults.append(v)
            body.append(ast.Assign([ast.Attribute(name("self"), x, ast.Store())], init))
        names = [s.target.id for s in fields]
        if "__post_init__" in have:
            body.append(ast.Expr(ast.Call(ast.Attribute(name("self"), "__post_init__", ast.Load()), [], [])))
        new = []

        def fn(n, params, stmts, dflt=(), kwa=None):
            if n not in have:
                a = ast.arguments([], [ast.arg(p) if isinstance(p, str) else p for p in params], None, [], [], ast.arg(kwa) if kwa else None, list(dflt))
                new.append(ast.FunctionDef(n, a, stmts or [ast.Pass()], [], None, None))
        if kwonly:
            a = ast.arguments([], [ast.arg("self")], None, args, [None] * (len(args) - len(defaults)) + defaults, None, [])
            if "__init__" not in have:
                new.append(ast.FunctionDef("__init__", a, body or [ast.Pass()], [], None, None))
        else:
            fn("__init__", ["self"] + args, body, defaults)
        if nt:
            me = lambda: tup([ast.Attribute(name("self"), x, ast.Load()) for x in names])
            fn("__iter__", ["self"], [ast.Return(me())])
            fn("__len__", ["self"], [ast.Return(ast.Constant(len(names)))])
            fn("__getitem__", ["self", "__i"], [ast.Return(ast.Subscript(me(), name("__i"), ast.Load()))])
            as_dict = lambda: ast.Dict([ast.Constant(x) for x in names], [ast.Attribute(name("self"), x, ast.Load()) for x in names])
            fn("_asdict", ["self"], [ast.Return(as_dict())])
            fn("_replace", ["self"], [ast.Return(ast.Call(name(c.name), [], [ast.keyword(None, ast.Dict([None, None], [as_dict(), name("__kw")]))]))], (), "__kw")
        c.body = c.body + new
        return self.fix(c, c)

    def visit_Assign(self, s):
        """X = namedtuple("X", [...])"""
        self.generic_visit(s)
        v = s.value
        if not (isinstance(v, ast.Call) and last(v.func) == "namedtuple" and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and len(v.args) == 2
                and not v.keywords):
            return s
        f = v.args[1]
        if isinstance(f, ast.Constant) and isinstance(f.value, str):
            fs = f.value.replace(",", " ").split()
        elif isinstance(f, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in f.elts):
            fs = [e.value for e in f.elts]
        else:
            return s
        c = ast.ClassDef(s.targets[0].id, [name("NamedTuple")], [], [ast.AnnAssign(name(x, True), name("object"), None, 1) for x in fs] or [ast.Pass()], [])
        return self.visit_ClassDef(self.fix(c, s))


class Own(ast.NodeVisitor):
    """yield expressions of one function, not of the functions defined inside it"""

    def __init__(self):
        self.yields, self.plain = [], set()

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.plain.add(n.value)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.yields.append(n)
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield


def ret():
    return ast.Return(ast.Call(name("iter"), [name("__yield")], []))


class Yield(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Yield):
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(name("__yield"), "append", ast.Load()), [v.value or ast.Constant(None)], [])), n)
        if isinstance(v, ast.YieldFrom):
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(name("__yield"), "extend", ast.Load()), [v.value], [])), n)
        return n

    def visit_Return(self, n):
        return ast.copy_location(ret(), n)


class Once(Yield):
    def visit_Expr(self, n):
        return ast.copy_location(ast.Return(n.value.value), n) if isinstance(n.value, ast.Yield) else n

    def visit_Return(self, n):
        return n


def desugar(tree):
    t = Desugar().visit(tree)
    return ast.fix_missing_locations(t)
