"""Recorder shared by the probe objects of one run."""
LOG = []
TOK = {}


def reset():
    LOG.clear()
    TOK.clear()


def ev(kind, uid, **kw):
    LOG.append(dict(k=kind, o=uid, **kw))


def token(value):
    """Small integer standing for the exact contents of a value (equal contents <=> equal tokens)."""
    import numpy as np
    if value is None:
        key = None
    elif isinstance(value, (list, tuple)):
        key = tuple(token(v) for v in value)
    else:
        a = np.asarray(value)
        key = (a.shape, a.tobytes(), str(a.dtype))
    if key not in TOK:
        TOK[key] = len(TOK) + 1
    return TOK[key]


def stamp(item):
    """[token of the contents, generation time in microseconds] of a data object."""
    from specula.base_value import BaseValue
    if isinstance(item, BaseValue):
        tok = token(item.get_value())
    else:
        import numpy as np
        tok = token([v for k, v in sorted(vars(item).items())
                     if isinstance(v, (np.ndarray, float, int)) and k not in ('generation_time',)])
    g = item.generation_time
    return [tok, int(g) // 1000 if g >= 0 else -1]


def token_key(key):
    if key not in TOK:
        TOK[key] = len(TOK) + 1
    return TOK[key]
