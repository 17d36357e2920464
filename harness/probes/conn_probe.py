import numpy as np
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.base_data_obj import BaseDataObj
from specula.data_objects.slopes import Slopes
from specula.data_objects.pixels import Pixels
from specula.data_objects.intensity import Intensity
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.connections import InputValue, InputList
from probes import rec
from probes.typed_src import make
TYPES = dict(BaseValue=BaseValue, Slopes=Slopes, Pixels=Pixels, Intensity=Intensity, ElectricField=ElectricField,
             Layer=Layer, BaseDataObj=BaseDataObj)
MAKE = dict(BaseValue='value', Slopes='slopes', Pixels='pixels', Intensity='intensity', ElectricField='ef', Layer='layer')


class ConnProbe(BaseProcessingObj):
    """Object with typed inputs and outputs (single or list valued)."""

    def __init__(self, ins: list = None, outs: list = None):
        super().__init__()
        for name, single, opt, typ in ins or []:
            self.inputs[name] = (InputValue if single else InputList)(type=TYPES[typ], optional=bool(opt))
        self.at_setup = None
        for name, typ, count in outs or []:
            self.outputs[name] = make(MAKE[typ], 2) if count == 0 else [make(MAKE[typ], 2) for _ in range(count)]

    def setup(self):
        super().setup()
        self.at_setup = dict(self.local_inputs)

    def check_ready(self, t):
        rec.ev('stepped', 0)
        return super().check_ready(t)

    def trigger_code(self):
        for o in self.outputs.values():
            for x in o if isinstance(o, list) else [o]:
                x.generation_time = self.current_time
