import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_data_obj import BaseDataObj
from specula.connections import InputValue
from probes import rec


def rows(item):
    """[tokens of the rows, generation time] of a batched output."""
    v = item.value
    g = int(item.generation_time)
    if v is None:
        return dict(v=[], t=g)
    a = np.asarray(v).astype(np.float64)
    if a.ndim == 0:
        return dict(v=[0], t=g)
    return dict(v=[rec.token_key((r.shape, r.tobytes())) for r in a], t=g)


class BatchWatch(BaseProcessingObj):
    """Logs the rows of its inputs in every step."""
    def __init__(self, n: int = 1):
        super().__init__()
        self.n = n
        for k in range(n):
            self.inputs[f'i{k}'] = InputValue(type=BaseDataObj)

    def check_ready(self, t):
        r = super().check_ready(t)
        rec.ev('watch', 0, t=int(t), out=[rows(self.local_inputs[f'i{k}']) for k in range(self.n)])
        return r
