class PerformanceWarning(RuntimeWarning):
    pass
