"""Monitor of the boundary between Python and the compiled extension.

Every routine of `_flib` is replaced by a recording stand-in that hands the real
routine exact-size copies of the arrays it was given (a view into a larger buffer
hides small overruns from the sanitizer) and copies back what was written.
"""
import sys

import numpy as np

calls = {}
signatures = set()
nbytes = 0


def inside(a):
    """False for a view that extends beyond the buffer it comes from: copying it would be the overrun."""
    root = a
    while getattr(root, 'base', None) is not None:
        root = root.base
    if not isinstance(root, np.ndarray):
        return True
    lo, hi = np.lib.array_utils.byte_bounds(a)
    rlo, rhi = np.lib.array_utils.byte_bounds(root)
    return rlo <= lo and hi <= rhi


class Routine:
    def __init__(self, func, name):
        self._func = func
        self._name = name

    def __getattr__(self, name):
        return getattr(self._func, name)

    def __call__(self, *args, **keywords):
        global nbytes
        calls[self._name] = calls.get(self._name, 0) + 1
        sig = [self._name]
        new, given = [], []
        seen = []
        for a in args:
            if not isinstance(a, np.ndarray):
                sig.append(a if isinstance(a, (int, bool, np.integer)) else type(a).__name__)
                new.append(a)
                continue
            sig.append((a.shape, a.dtype.str, a.flags.c_contiguous, a.flags.f_contiguous))
            nbytes += a.nbytes
            if not a.flags.contiguous or a.size == 0 or not inside(a):
                new.append(a)
                continue
            b = None
            for o, ocopy in seen:
                if o.ctypes.data == a.ctypes.data and o.shape == a.shape and o.strides == a.strides \
                        and o.dtype == a.dtype:
                    b = ocopy
            if b is None:
                if any(np.may_share_memory(o, a) for o, _ in seen):
                    new.append(a)
                    continue
                b = np.array(a.view(np.ndarray), order='F' if a.flags.f_contiguous else 'C', copy=True)
                seen.append((a, b))
                given.append((a, b, b.tobytes('A')))
            new.append(b)
        signatures.add(repr(sig))
        try:
            return self._func(*new, **keywords)
        finally:
            for a, b, before in given:
                if b.tobytes('A') != before:
                    a.view(np.ndarray)[...] = b


class Module:
    def __init__(self, mod, name):
        self.__dict__['_mod'] = mod
        self.__dict__['_prefix'] = name
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        cache = self.__dict__['_cache']
        if name in cache:
            return cache[name]
        v = getattr(self.__dict__['_mod'], name)
        full = f'{self.__dict__["_prefix"]}.{name}'.lstrip('.')
        kind = type(v).__name__
        if kind == 'fortran' and not callable_routine(v):
            v = Module(v, full)
        elif kind == 'fortran' or callable(v) and not isinstance(v, type):
            v = Routine(v, full)
        cache[name] = v
        return v

    def __dir__(self):
        return dir(self.__dict__['_mod'])


def callable_routine(v):
    # a Fortran module object carries its routines as attributes
    return not any(type(_).__name__ == 'fortran' for _ in vars(v).values()) if hasattr(v, '__dict__') else True


def install():
    import pysimulators._flib as flib

    top = Module(flib, '')
    subs = {}
    for name in dir(flib):
        v = getattr(flib, name)
        if type(v).__name__ == 'fortran':
            subs[id(v)] = getattr(top, name)
    for mname, m in list(sys.modules.items()):
        if not mname.startswith('pysimulators') or m is None or mname == 'pysimulators._flib':
            continue
        for k, v in list(vars(m).items()):
            if v is flib:
                setattr(m, k, top)
            elif type(v).__name__ == 'fortran' and id(v) in subs:
                setattr(m, k, subs[id(v)])
