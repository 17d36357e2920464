import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.base_data_obj import BaseDataObj
from specula.connections import InputValue, InputList
from probes import rec

# publishing styles: where and how the output value is written
STYLES = 5


class FlowProbe(BaseProcessingObj):
    """Object with programmable inputs, outputs and firing schedule that records everything it sees."""

    def __init__(self, uid: int, ins: list = None, n_out: int = 1, fire: list = None, style: int = 0,
                 scalar: bool = False, empty: bool = False, lists: int = 0, boom: str = '', size: int = 0,
                 anytype: bool = False):
        super().__init__()
        self.uid = uid
        self.fire = fire
        self.style = style
        self.scalar = scalar
        self.size = size
        self.boom = boom
        self.step = -1
        self.ins = ins or []
        for name, kind, opt in self.ins:
            cls = InputValue if kind == 'v' else InputList
            self.inputs[name] = cls(type=BaseDataObj if anytype else BaseValue, optional=bool(opt))
        self.n_out = n_out
        for k in range(n_out):
            if empty:
                v = BaseValue()
            elif scalar:
                v = BaseValue(value=float(-uid))
            else:
                v = BaseValue(value=self.content(-1, k))
            self.outputs[f'o{k}'] = v
        if lists:
            self.outputs['lst'] = [BaseValue(value=np.array([-uid, 100 + k], dtype=float)) for k in range(lists)]

    def content(self, k, j):
        if self.size:       # small integers, different from step to step
            return np.array([(k + 2) * 64 + (self.uid * 37 + k * 11 + i * 7 + j) % 31 for i in range(self.size)],
                            dtype=float)
        return np.array([self.uid * 1000 + k, j] if k >= 0 else [-self.uid, j], dtype=float)

    def all_outs(self):
        r = [self.outputs[f'o{k}'] for k in range(self.n_out)]
        return r + list(self.outputs.get('lst', []))

    def reads(self):
        out = []
        for name, kind, opt in self.ins:
            x = self.local_inputs.get(name)
            items = x if isinstance(x, list) else ([] if x is None else [x])
            out.append([rec.stamp(i) for i in items])
        return out

    def write(self):
        k = self.step
        if self.fire is not None and k < len(self.fire):
            on = self.fire[k]
        else:
            on = [1] * len(self.all_outs())
        for j, o in enumerate(self.all_outs()):
            if not on[j % len(on)]:
                continue
            new = self.content(k, j)
            if self.scalar:
                o.value = float(self.uid * 1000 + k)
            elif self.style in (1, 2) and o.value is not None:
                o.value[:] = new
            elif self.style == 3:
                o.set_value(new)
            else:
                o.value = new
            o.generation_time = self.current_time

    def _boom(self, where):
        if self.boom == where or self.boom == f'{where}@{self.step}':
            rec.ev('boom', self.uid)
            raise RuntimeError(f'boom {where}')

    def setup(self):
        super().setup()
        rec.ev('setup', self.uid, reads=self.reads(), outs=[rec.stamp(o) for o in self.all_outs()])
        self._boom('setup')

    def check_ready(self, t):
        self.step += 1
        rec.ev('check', self.uid, t=int(t))
        self._boom('check')
        before = [rec.stamp(o) for o in self.all_outs()]
        r = super().check_ready(t)
        rec.ev('checked', self.uid, t=int(t), ready=bool(r), reads=self.reads() if self.ins else [],
               ct=int(self.current_time), outs=before)
        return r

    def prepare_trigger(self, t):
        super().prepare_trigger(t)
        rec.ev('prepare', self.uid, t=int(t), reads=self.reads())

    def trigger(self):
        rec.ev('trigger', self.uid, t=int(self.current_time), ts=float(self.current_time_seconds))
        self._boom('trigger')
        super().trigger()

    def trigger_code(self):
        rec.ev('read', self.uid, t=int(self.current_time), reads=self.reads())
        if self.style in (0, 1, 3):
            self.write()

    def post_trigger(self):
        super().post_trigger()
        self._boom('post')
        if self.style in (2, 4):
            self.write()
        rec.ev('post', self.uid, t=int(self.current_time),
               outs=[rec.stamp(o) for o in self.all_outs()], reads=self.reads())

    def finalize(self):
        super().finalize()
        rec.ev('finalize', self.uid)
        self._boom('finalize')
