"""Owning numpy's randomness.

A ``Tape`` is a real numpy BitGenerator (PCG64) whose C callback table is
replaced, so that every draw the library makes - ``rng.uniform``,
``np.random.permutation``, ``rng.integers`` ... - is answered from a script we
enumerate.  Script entries are fractions in [0,1) (scaled to the width of the
draw) or ints (returned raw to integer draws).  When the script is used up a
fair seeded PRNG continues, so that rejection loops terminate.

``default_rng(None)`` is routed to a provider while one is installed, so the
"fresh entropy" path is controlled too.
"""
import ctypes
import random as _pyrandom
import numpy as np

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _BG(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("u64", _U64), ("u32", _U32),
                ("dbl", _DBL), ("raw", _U64)]


_ptr = ctypes.pythonapi.PyCapsule_GetPointer
_ptr.restype = ctypes.c_void_p
_ptr.argtypes = [ctypes.py_object, ctypes.c_char_p]

_keep = []      # callback tables must outlive the bit generators


class Tape:
    def __init__(self, script=(), seed=0, alphabet=None):
        self.script = list(script)
        self.alphabet = alphabet            # continuation draws from it when given
        self.pos = 0
        self.extra = 0                      # draws beyond the script
        self.log = []
        self._r = _pyrandom.Random(seed)
        self.bg = np.random.PCG64(0)
        s = _BG.from_address(_ptr(self.bg.capsule, b"BitGenerator"))
        cb = (_U64(self._u64), _U32(self._u32), _DBL(self._dbl), _U64(self._u64))
        s.u64, s.u32, s.dbl, s.raw = cb
        _keep.append((self.bg, cb))
        if len(_keep) > 4000:
            del _keep[:2000]

    def _next(self):
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            return v
        self.extra += 1
        if self.alphabet is not None:
            return self._r.choice(self.alphabet)
        return self._r.random()

    def _u64(self, _):
        v = self._next()
        return v if isinstance(v, int) else int(v * 2.0 ** 64) & (2 ** 64 - 1)

    def _u32(self, _):
        v = self._next()
        return v if isinstance(v, int) else int(v * 2.0 ** 32) & (2 ** 32 - 1)

    def _dbl(self, _):
        v = self._next()
        return (v % 2 ** 53) * 2.0 ** -53 if isinstance(v, int) else float(v)

    def generator(self):
        return np.random.Generator(self.bg)


_real_default_rng = np.random.default_rng
_provider = [None]


def default_rng(seed=None):
    if seed is None and _provider[0] is not None:
        return _provider[0]()
    return _real_default_rng(seed)


default_rng.__doc__ = _real_default_rng.__doc__


def install():
    np.random.default_rng = default_rng


class fresh:
    """with fresh(fn): default_rng(None) -> fn()"""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        self.old = _provider[0]
        _provider[0] = self.fn

    def __exit__(self, *a):
        _provider[0] = self.old


class legacy:
    """with legacy(script) as tape: numpy's global generator answers from tape"""

    def __init__(self, script=(), seed=0):
        self.tape = Tape(script, seed)

    def __enter__(self):
        self.old = np.random.get_bit_generator()
        np.random.set_bit_generator(self.tape.bg)
        return self.tape

    def __exit__(self, *a):
        np.random.set_bit_generator(self.old)


class seeded_legacy:
    """with seeded_legacy(k): plain seeded global generator, restored after"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.old = np.random.get_bit_generator()
        np.random.set_bit_generator(np.random.MT19937(self.seed))

    def __exit__(self, *a):
        np.random.set_bit_generator(self.old)
