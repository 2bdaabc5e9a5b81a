"""Deep fingerprints: of caller data (X01), of results (X03), of module state."""
import functools
import importlib
import inspect
import pkgutil
import types

import numpy as np
import pandas as pd

from mon.engine import snap_values

SIMPLE = (int, float, complex, str, bool, bytes, type(None), np.generic)


def deep(o, seen=None):
    """A hashable-by-repr structure that changes exactly when the data changes."""
    if isinstance(o, SIMPLE):
        return (type(o).__name__, repr(o))
    seen = seen if seen is not None else {}
    if id(o) in seen:
        return ('again', seen[id(o)])
    seen[id(o)] = len(seen)
    if isinstance(o, pd.Series):
        return ('series', type(o).__name__, snap_values(o), deep(o.index, {}), repr(o.name))
    if isinstance(o, pd.DataFrame):
        return ('frame', type(o).__name__, tuple(snap_values(o.iloc[:, i]) for i in range(o.shape[1])), deep(o.index, {}), deep(o.columns, {}))
    if isinstance(o, pd.Index):
        return ('index', snap_values(o), repr(list(o.names)))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('ndo', o.shape, tuple(deep(x, seen) for x in o.ravel()))
        return ('nd', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return (type(o).__name__, tuple((repr(k), deep(v, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(deep(v, seen) for v in o))
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, tuple(sorted(map(repr, o))))
    if isinstance(o, functools.partial):
        return ('partial', deep(o.func, seen), deep(o.args, seen), deep(o.keywords, seen))
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, types.ModuleType)):
        return ('code', getattr(o, '__qualname__', repr(type(o))))
    d = getattr(o, '__dict__', None)
    if d is not None and type(o).__module__.startswith(('pvlib', 'mon')):
        return ('object', type(o).__qualname__, tuple((k, deep(v, seen)) for k, v in sorted(d.items())))
    if isinstance(o, (pd.Timestamp, pd.Timedelta)) or type(o).__module__ in ('datetime', 'zoneinfo', 'pytz', 'decimal', 'pathlib'):
        return (type(o).__name__, repr(o))
    return ('opaque', type(o).__qualname__)


def modules():
    import pvlib
    out = [pvlib]
    for mi in pkgutil.walk_packages(pvlib.__path__, 'pvlib.'):
        if 'spa_c_files' in mi.name:
            continue
        try:
            out.append(importlib.import_module(mi.name))
        except ImportError:
            continue
    return out


def module_state():
    """{name: fingerprint} of every module-level datum, class attribute and default argument."""
    st = {}
    for m in modules():
        for k, v in list(vars(m).items()):
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            name = f'{m.__name__}.{k}'
            if inspect.isfunction(v):
                if v.__module__ == m.__name__:
                    st[name + '()'] = deep((v.__defaults__, v.__kwdefaults__))
            elif inspect.isclass(v):
                if v.__module__ == m.__name__:
                    for a, b in list(vars(v).items()):
                        if inspect.isfunction(b):
                            st[f'{name}.{a}()'] = deep((b.__defaults__, b.__kwdefaults__))
                        elif not a.startswith('__') and not callable(b) and not isinstance(b, (property, classmethod, staticmethod)):
                            st[f'{name}.{a}'] = deep(b)
            elif isinstance(v, (dict, list, tuple, set, np.ndarray, pd.Series, pd.DataFrame, int, float, str)):
                st[name] = deep(v)
    return st


def walk(o, f, seen=None):
    """Apply f to every ndarray / Series / DataFrame reachable in containers and pvlib objects."""
    seen = seen if seen is not None else set()
    if id(o) in seen or isinstance(o, SIMPLE):
        return
    seen.add(id(o))
    if isinstance(o, (np.ndarray, pd.Series, pd.DataFrame)):
        f(o)
    elif isinstance(o, dict):
        for v in o.values():
            walk(v, f, seen)
    elif isinstance(o, (list, tuple, set)):
        for v in o:
            walk(v, f, seen)
    elif getattr(o, '__dict__', None) is not None and type(o).__module__.startswith('pvlib') and not isinstance(o, (type, types.FunctionType, types.ModuleType)):
        walk(vars(o), f, seen)


# ------------------------------------------------------------ wrapping monitor
class Wrap:
    """Wrap every public pvlib function and the public methods of its value classes,
    calling `before(name, args, kwargs)` -> token and `after(token, name, args, kwargs, result)`."""
    SKIP_MODULES = ('pvlib.spa', 'pvlib._deprecation', 'pvlib.version')

    def __init__(self, before, after):
        self.before, self.after = before, after
        self.depth = 0
        self.undo = []

    def one(self, name, f, skip_self):
        @functools.wraps(f)
        def w(*a, **k):
            if getattr(w, '_off', False):
                return f(*a, **k)
            tok = self.before(name, a[skip_self:], k)
            r = f(*a, **k)
            self.after(tok, name, a[skip_self:], k, r)
            return r
        return w

    def install(self):
        mods = [m for m in modules() if m.__name__ not in self.SKIP_MODULES]
        wrapped = {}
        for m in mods:
            for k, v in list(vars(m).items()):
                if inspect.isfunction(v) and v.__module__.startswith('pvlib.') and not k.startswith('_') \
                        and v.__module__ not in self.SKIP_MODULES and v.__name__ == k:
                    w = wrapped.get(v)
                    if w is None:
                        w = wrapped[v] = self.one(f'{v.__module__}.{k}', v, 0)
                    setattr(m, k, w)
                    self.undo.append((m, k, v))
                elif inspect.isclass(v) and v.__module__ == m.__name__ and m.__name__ in ('pvlib.pvsystem', 'pvlib.location', 'pvlib.modelchain'):
                    for a, b in list(vars(v).items()):
                        if inspect.isfunction(b) and not a.startswith('_'):
                            # a ModelChain keeps results on itself; every other object is read only
                            skip = 1 if m.__name__ == 'pvlib.modelchain' else 0
                            setattr(v, a, self.one(f'{m.__name__}.{k}.{a}', b, skip))
                            self.undo.append((v, a, b))
        return len(wrapped)

    def remove(self):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        self.undo = []
