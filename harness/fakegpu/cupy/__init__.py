"""A stand-in for cupy: arrays of their own type in ordinary memory, so that the paths that move data between
a device and the host run without a GPU.  Only what specula's data objects need."""
import types
import numpy as np

__version__ = 'stand-in'


class ndarray(np.ndarray):
    def get(self, out=None):
        if out is None:
            return np.array(self).view(np.ndarray).copy()
        out[...] = np.asarray(self).view(np.ndarray)
        return out

    def set(self, arr):
        if type(arr) is not np.ndarray:
            raise TypeError('only host arrays can be set')
        self[...] = arr

    def __array_function__(self, func, types_, args, kwargs):
        return super().__array_function__(func, types_, args, kwargs)


def _dev(x):
    if type(x) is np.ndarray:
        return x.view(ndarray)
    if isinstance(x, tuple):
        return tuple(_dev(y) for y in x)
    return x


def array(x, *a, **k):
    return np.array(x, *a, **k).view(ndarray)


def asarray(x, *a, **k):
    if isinstance(x, ndarray) and not a and not k:
        return x
    return np.array(x, *a, **k).view(ndarray)


class _Device:
    def __init__(self, i=0):
        self.id = i

    def use(self):
        pass


cuda = types.SimpleNamespace(Device=_Device)


class _Pool:
    def used_bytes(self):
        return 0


def get_default_memory_pool():
    return _Pool()


class _RandomState(np.random.RandomState):
    pass


random = types.SimpleNamespace(RandomState=_RandomState, default_rng=np.random.default_rng)


def fuse(kernel_name=None):
    return lambda f: f


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    v = getattr(np, name)
    if callable(v) and not isinstance(v, type):
        return lambda *a, **k: _dev(v(*a, **k))
    return v
