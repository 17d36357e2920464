import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.data_objects.slopes import Slopes
from specula.data_objects.pixels import Pixels
from specula.data_objects.intensity import Intensity
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer


def make(kind, n):
    if kind == 'value':
        return BaseValue(value=np.zeros(n))
    if kind == 'matrix':
        return BaseValue(value=np.zeros((n, 2)))
    if kind == 'scalar':
        return BaseValue(value=0.0)
    if kind == 'slopes':
        return Slopes(n)
    if kind == 'slopesi':
        return Slopes(n, interleave=True)
    if kind == 'pixels':
        return Pixels(n, n + 1)
    if kind == 'pixels8':
        return Pixels(n, n, bits=8, signed=1)
    if kind == 'intensity':
        return Intensity(n, n)
    if kind == 'ef':
        return ElectricField(n, n, 0.5, S0=2.0)
    if kind == 'layer':
        return Layer(n, n + 2, 0.25, height=100.0, shiftXYinPixel=(1.5, -2.0), rotInDeg=30.0, magnification=1.5)
    raise ValueError(kind)


def content(uid, k, shape, lo=0):
    """Exactly representable contents of step k (k = -1: before the first step)."""
    n = int(np.prod(shape)) if shape else 1
    a = np.array([(k + 2) * 32 + (uid * 37 + k * 11 + i * 7) % 31 for i in range(n)], dtype=float)
    return a.reshape(shape) if shape else float(a[0])


class TypedSrc(BaseProcessingObj):
    """Publishes a data object of the given kind in the steps of its firing schedule."""

    def __init__(self, uid: int, kind: str, size: int = 4, fire: list = None, inplace: bool = True, late: bool = False,
                 fin: bool = False):
        super().__init__()
        self.uid = uid
        self.kind = kind
        self.fire = fire
        self.inplace = inplace
        self.late = late
        self.fin = fin
        self.step = -1
        self.out = make(kind, size)
        self.outputs['o0'] = self.out

    def check_ready(self, t):
        self.step += 1
        return super().check_ready(t)

    def put(self, k):
        v = self.out.get_value()
        new = content(self.uid, k, np.shape(v))
        if self.kind == 'scalar':
            self.out.value = new
        elif not self.inplace and self.kind in ('value', 'matrix'):
            self.out.value = new
        else:
            v[...] = new

    def run(self):
        k = self.step
        if self.fire is None or (k < len(self.fire) and self.fire[k]):
            self.put(k)
            self.out.generation_time = self.current_time

    def trigger_code(self):
        if not self.late:
            self.run()

    def post_trigger(self):
        super().post_trigger()
        if self.late:
            self.run()

    def finalize(self):
        super().finalize()
        if self.fin:
            self.put(900)
            self.out.generation_time = self.current_time
