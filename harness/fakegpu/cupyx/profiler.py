class time_range:
    def __init__(self, *a, **k):
        pass

    def __call__(self, f):
        return f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
