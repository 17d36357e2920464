from specula.base_data_obj import BaseDataObj
from probes.build_proc import BUILT, _DEF


class BuildData(BaseDataObj):
    """Data object that records its constructor arguments."""
    def __init__(self, uid: int, a=_DEF, mate=_DEF, friend_list=_DEF, target_device_idx=None, precision=None):
        super().__init__(target_device_idx=target_device_idx, precision=precision)
        self.uid = uid
        BUILT.append((uid, self, 'BuildData', dict(a=a, mate=mate, friend_list=friend_list)))
