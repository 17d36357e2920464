import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_data_obj import BaseDataObj
from specula.connections import InputValue
from probes import rec
from probes.typed_src import TypedSrc, make, content


def val(x):
    """Contents as an exactly comparable key."""
    v = x.get_value()
    if v is None:
        return None
    a = np.asarray(v).astype(np.float64)
    return (a.shape, a.tobytes())


class ValReader(BaseProcessingObj):
    """Logs contents and exact times of its inputs in every step."""
    def __init__(self, n: int = 1):
        super().__init__()
        self.n = n
        for k in range(n):
            self.inputs[f'i{k}'] = InputValue(type=BaseDataObj)

    def look(self, t):
        rec.ev('look', 0, t=int(t), vals=[[rec.token_key(val(self.local_inputs[f'i{k}'])),
                                           int(self.local_inputs[f'i{k}'].generation_time)] for k in range(self.n)])

    def check_ready(self, t):
        r = super().check_ready(t)
        self.look(t)
        return r
