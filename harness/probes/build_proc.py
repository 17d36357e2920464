import typing
from specula.base_processing_obj import BaseProcessingObj
from specula.data_objects.recmat import Recmat
from probes import rec
_DEF = object()
BUILT = []          # (uid, object, class name, arguments)


class BuildProc(BaseProcessingObj):
    """Processing object that records its constructor arguments."""
    def __init__(self, uid: int, a=_DEF, b=_DEF, layer_list=_DEF, obj_dict=_DEF, mate=_DEF, raw_data=_DEF,
                 arr=_DEF, recmat: Recmat = _DEF, mat_list: typing.List[Recmat] = _DEF,
                 mat_dict: typing.Dict[str, Recmat] = _DEF):
        super().__init__()
        self.uid = uid
        BUILT.append((uid, self, 'BuildProc', dict(a=a, b=b, layer_list=layer_list, obj_dict=obj_dict, mate=mate,
                                                   raw_data=raw_data, arr=arr, recmat=recmat, mat_list=mat_list, mat_dict=mat_dict)))

    def check_ready(self, t):
        rec.ev('stepped', self.uid)
        return super().check_ready(t)
