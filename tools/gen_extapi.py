"""gen_extapi.py (run with /opt/venv/bin/python): write sa/extapi.json, the call signatures of the torch functions and
tensor methods (from the stub files of the installed torch) and the public names of torch, numpy and scipy.special."""
import ast, json, os, sys
import numpy, scipy.special, torch

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.dirname(torch.__file__) + "/_C/"


def sig(f, method):
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(pos) - len(a.defaults)
    if method:
        pos, nd = pos[1:], nd - 1
    kwo = [[x.arg, v is not None] for x, v in zip(a.kwonlyargs, a.kw_defaults)]
    return [pos, nd, bool(a.vararg), kwo, bool(a.kwarg)]


def collect(body, method):
    out = {}
    for f in body:
        if isinstance(f, ast.FunctionDef) and not f.name.startswith("__"):
            if any(isinstance(x, ast.Name) and x.id in ("property", "staticmethod", "classmethod") for x in f.decorator_list):
                continue
            s = sig(f, method)
            if s not in out.setdefault(f.name, []):
                out[f.name].append(s)
    return out


fn = collect(ast.parse(open(d + "_VariableFunctions.pyi").read()).body, False)
me = {}
for c in ast.parse(open(d + "__init__.pyi").read()).body:
    if isinstance(c, ast.ClassDef) and c.name in ("TensorBase", "_TensorBase"):
        me = collect(c.body, True)
import types
fn = {k: v for k, v in fn.items() if isinstance(getattr(torch, k, None), types.BuiltinFunctionType)}
me = {k: v for k, v in me.items() if isinstance(getattr(torch.Tensor, k, None), types.MethodDescriptorType)}
pub = lambda m: sorted(x for x in dir(m) if not x.startswith("_"))
json.dump(dict(torch=fn, tensor=me, names={"torch": pub(torch), "torch.Tensor": pub(torch.Tensor), "numpy": pub(numpy), "numpy.ndarray": pub(numpy.ndarray), "scipy.special": pub(scipy.special),
                                           "torch.autograd": pub(torch.autograd), "torch.linalg": pub(torch.linalg), "numpy.linalg": pub(numpy.linalg), "torch.special": pub(torch.special)}),
          open(V + "/sa/extapi.json", "w"), separators=(",", ":"), sort_keys=True)
