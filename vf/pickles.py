"""cloudpickle of this environment cannot pickle nested functions on Python 3.12: a stand-in that can."""
import importlib
import io
import marshal
import pickle
import types


def _rebuild(code, module, name, defaults, kwdefaults, cells):
    g = vars(importlib.import_module(module))
    f = types.FunctionType(marshal.loads(code), g, name, defaults, tuple(types.CellType(c) for c in cells))
    f.__kwdefaults__ = kwdefaults
    return f


class _Pickler(pickle.Pickler):
    def reducer_override(self, obj):
        if isinstance(obj, types.FunctionType) and ("<" in obj.__qualname__):
            return _rebuild, (marshal.dumps(obj.__code__), obj.__module__, obj.__name__, obj.__defaults__, obj.__kwdefaults__, [c.cell_contents for c in obj.__closure__ or ()])
        return NotImplemented


def dumps(obj, protocol=None):
    f = io.BytesIO()
    _Pickler(f, protocol).dump(obj)
    return f.getvalue()


loads = pickle.loads


def install():
    """replace cloudpickle where the repository uses it, if it is broken here"""
    import cloudpickle

    def probe(a):
        def inner():
            return len(str(a))
        return inner

    try:
        cloudpickle.loads(cloudpickle.dumps(probe(1)))
    except Exception:
        import reagent.core.multiprocess_utils as mu

        ns = types.SimpleNamespace(dumps=dumps, loads=loads)
        mu.cloudpickle = ns
        return True
    return False
