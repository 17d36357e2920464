from probes.build_proc import BuildProc, BUILT, _DEF


class BuildSub(BuildProc):
    """Accepts fewer parameters than its base class."""
    def __init__(self, uid: int, a=_DEF, other=_DEF):
        super().__init__(uid)
        BUILT.pop()
        BUILT.append((uid, self, 'BuildSub', dict(a=a, other=other)))
