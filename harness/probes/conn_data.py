import numpy as np
from specula.base_value import BaseValue


class ConnData(BaseValue):
    """A configured data object."""
    def __init__(self, x: int = 0, target_device_idx=None, precision=None):
        super().__init__(value=np.array([float(x)]), target_device_idx=target_device_idx, precision=precision)
