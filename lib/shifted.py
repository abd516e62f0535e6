"""Hand-written Python descriptors whose counters are shifted (prophy.array(..., bound=..., shift=...)), which no schema text can say."""
import re
import types
from . import gen, illegal, schema as S


def schema(rng):
    """(definitions, code) of a random schema with arrays counted from a shift."""
    while True:
        defs = gen.random_schema(rng, rng.randint(1, 4), gen.Opts(share_sizer=rng.random() < 0.3)).defs
        if any(f.shape in ('dynamic', 'ext') for s in defs if isinstance(s, S.Struct) for f in s.fields):
            break
    out = []
    for d in defs:
        code = illegal.py_def(d)
        if isinstance(d, S.Struct):
            k = rng.choice((1, 1, 2, 3, 5, 7))
            for f in d.fields:
                f.shift = k if f.shape in ('dynamic', 'ext') else 0
            code = re.sub(r"(bound='\w+')(?!, size|\w)", r"\1, shift=%d" % k, code)
        out.append(code)
    return defs, '\n'.join(out)


def classes(prophy, code):
    env = {'prophy': prophy, '__name__': 'shifted'}
    exec(code, env)
    return types.SimpleNamespace(shifted=True, **env)
