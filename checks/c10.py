"""C10: any history of public API operations on a Python message agrees with a plain reference model."""
import os
from lib import pyrt, schema as S, shifted, workload
from lib.history import History
from lib.report import Check, Result, derive, digest


def worker(task, seed, workdir, nhist, nops):
    res = Result()
    prophy, _ = pyrt.setup()
    for n, sch in enumerate(workload.schemas(task, seed)):
        d = os.path.join(workdir, '%s_%s_%d' % (task[0], '_'.join(map(str, task[1:])), n))
        text = S.render(sch)
        try:
            mod = pyrt.compile_python(text, d)
        except Exception as e:
            res.inconclusive.append('schema not usable: %s' % e)
            continue
        for t in workload.targets(sch, task):
            for h in range(nhist):
                if res.notes.get('violation:hang') or len(res.violations) > 20:
                    return res
                history(res, prophy, mod, t, derive(seed, 'c10', task, n, t.name, h), nops)
    return res


def shifts(idx, seed, n, nhist, nops):
    """Descriptors written by hand whose counters are shifted."""
    res = Result()
    prophy, _ = pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c10s', idx, k)
        defs, code = shifted.schema(rng)
        mod = shifted.classes(prophy, code)
        for t in defs:
            for h in range(nhist if isinstance(t, S.Struct) else 0):
                if res.notes.get('violation:hang') or len(res.violations) > 20:
                    return res
                history(res, prophy, mod, t, derive(seed, 'c10s', idx, k, t.name, h), nops)
                res.note('shifted')
    return res


def history(res, prophy, mod, t, rng, nops):
    text = S.minimal_text(t)
    H = History(prophy, mod, t, rng, res)

    def bad(found):
        res.violation(found[0], '%s (type %s; last operations: %s)' % (found[1], t.name, H.log[-4:]), schema=text, history=H.log)
    res.observe(digest(text, rng.getrandbits(64)))
    for i in range(nops):
        node, e = H.step()
        e = e or H.compare(H.root)
        if e is None and i % 5 == 4:
            e = H.encodes()
        if e is not None:
            return bad(e)
        res.note('operations')
    e = H.encodes()
    if e is not None:
        return bad(e)
    res.sample({'schema': text, 'operations': H.log[:12]})


def main(tier=None):
    c = Check('C10', 'case = (schema type, random history of public operations with valid, out-of-range and wrongly typed arguments); '
              'state compared with a reference model after every operation, encodability every fifth and at the end', tier=tier,
              assumptions=['non-iterable arguments of extend/slice assignment, foreign objects in a composite extend, non-integer indices '
                           'and unknown attribute names may raise TypeError or AttributeError (pinned by the existing tests)'])
    if c.quick:
        tasks = [('pairs', i, 24, 80) for i in range(8)] + [('tuples', i, 100, 3, 50) for i in range(8)] + \
                [('random', i, 5, 25) for i in range(16)]
        nh, no = 4, 30
    else:
        tasks = [('pairs', i, 24, 80) for i in range(24)] + [('tuples', i, 400, 3, 50) for i in range(16)] + \
                [('random', i, 20, 25) for i in range(32)]
        nh, no = 3, 45
    c.run(worker, [(t, c.seed, c.work, nh, no) for t in tasks], mem=4 << 30)
    c.run(shifts, [(i, c.seed, c.scale(12, 60), nh, no) for i in range(8)], mem=4 << 30)
    c.require('shifted', 200)
    for name, k in (('operations', 10000), ('accepted', 5000), ('rejected', 1000), ('misused', 50), ('encoded', 1000), ('sizer_refusals', 5),
                    ('sizer_limit_reached', 5),
                    ('held_detached', 100), ('held_attached', 100), ('decoded_into', 300), ('sorted', 100)):
        if not c.violations:
            c.require(name, k)
    return c.finish(1000)
