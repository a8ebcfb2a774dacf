"""Import the code under check from /repo, with environment stand-ins."""
import importlib
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

import numpy as np
import torch

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "neural_network_lyapunov"


class _Any:
    """Object that absorbs logging-style calls."""
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(())


def _stub(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__getattr__ = lambda n: _Any() if not n.startswith("__") else (
        _ for _ in ()).throw(AttributeError(n))
    m.__path__ = []
    m.__spec__ = importlib.machinery.ModuleSpec(name, None)
    sys.modules[name] = m
    return m


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    from symx import gurobi_stub
    gurobi_stub.install()
    _stub("wandb")
    try:
        importlib.import_module("tqdm")
    except ImportError:
        _stub("tqdm", tqdm=lambda it=None, *a, **k: it, trange=range)
    for n in ("pydrake", "meshcat", "gym", "pytinydiffsim", "mpl_toolkits.x"):
        if n not in sys.modules and importlib.util.find_spec(
                n.split(".")[0]) is None:
            _stub(n)
    try:
        import torch.utils.tensorboard  # noqa
    except Exception:
        _stub("torch.utils.tensorboard", SummaryWriter=_Any)
    sys.path.insert(0, REPO)


def module(name):
    """Import neural_network_lyapunov.<name>; re-patches if symbolic."""
    install()
    m = importlib.import_module(PKG + "." + name if not name.startswith(
        PKG) else name)
    if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)):
        raise RuntimeError("%s was not loaded from %s" % (m.__name__, REPO))
    if _state["on"]:
        patch()
    return m


_state = {"on": False, "saved": []}


def mods():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == PKG or n.startswith(PKG + ".")) and
            hasattr(m, "__file__")]


_np = None
_math = None


def patch():
    from symx import npshim
    global _np, _math
    if _np is None:
        _np = npshim.NP()
        _math = npshim.FakeMath()
    done = {id(m) for m, _, _ in _state["saved"]}
    for m in mods():
        if id(m) in done:
            continue
        d = m.__dict__
        saved = {}
        for k, v in list(d.items()):
            if v is np:
                saved[k] = v
                d[k] = _np
            elif v is math:
                saved[k] = v
                d[k] = _math
            elif v is np.linalg:
                saved[k] = v
                d[k] = _np.linalg
            elif getattr(v, "__module__", None) == "math" and k in dir(
                    math) and getattr(math, k) is v:
                saved[k] = v
                d[k] = getattr(_math, k)
            elif v is np.random:
                saved[k] = v
                d[k] = _np.random
            elif not k.startswith("__") and _np_member(k, v):
                saved[k] = v
                d[k] = getattr(_np, v.__name__)
        added = []
        for k, v in npshim.BUILTINS.items():
            if k not in d:
                d[k] = v
                added.append(k)
        _state["saved"].append((m, saved, added))
    _state["on"] = True


def _np_member(k, v):
    n = getattr(v, "__name__", None)
    if not isinstance(n, str) or isinstance(v, (type, types.ModuleType)):
        return False
    try:
        return getattr(np, n, None) is v
    except Exception:
        return False


def unpatch():
    for m, saved, added in _state["saved"]:
        m.__dict__.update(saved)
        for k in added:
            m.__dict__.pop(k, None)
    _state["saved"] = []
    _state["on"] = False


class _Sparse:
    def __init__(self, t):
        self.t = t

    def type(self, dt):
        return _Sparse(self.t.to(dt))

    to = type

    def to_dense(self):
        return self.t

    def coalesce(self):
        return self

    def __matmul__(self, o):
        return self.t @ o


def _sparse(indices, values, size=None, dtype=None, **k):
    if not isinstance(indices, torch.Tensor):
        indices = torch.tensor(indices)
    if not isinstance(values, torch.Tensor):
        values = torch.tensor(values)
    if size is None:
        size = [int(i.max()) + 1 for i in indices]
    z = torch.zeros(tuple(size), dtype=dtype or values.dtype)
    z = z.index_put(tuple(indices[i] for i in range(indices.shape[0])),
                    values, accumulate=True)
    return _Sparse(z)


class Symbolic:
    """Everything in place for a symbolic run."""
    def __enter__(self):
        from symx import tensor as st, gurobi_stub
        install()
        gurobi_stub.FLOAT[0] = False
        patch()
        self.save = (torch.sparse.DoubleTensor, torch.sparse_coo_tensor,
                     torch.sparse.FloatTensor)
        torch.sparse.DoubleTensor = lambda *a: _sparse(*a)
        torch.sparse.FloatTensor = lambda *a: _sparse(*a)
        torch.sparse_coo_tensor = _sparse
        self.fn = torch.from_numpy

        def from_numpy(a):
            r = st._h_from_numpy((a, ), {})
            return self.fn(a) if r is NotImplemented else r
        torch.from_numpy = from_numpy
        self.m = st.SymMode()
        self.m.__enter__()
        return self

    def __exit__(self, *e):
        self.m.__exit__(*e)
        (torch.sparse.DoubleTensor, torch.sparse_coo_tensor,
         torch.sparse.FloatTensor) = self.save
        torch.from_numpy = self.fn
        unpatch()


class Concrete:
    def __enter__(self):
        from symx import gurobi_stub
        install()
        unpatch()
        gurobi_stub.FLOAT[0] = True
        return self

    def __exit__(self, *e):
        from symx import gurobi_stub
        gurobi_stub.FLOAT[0] = False
