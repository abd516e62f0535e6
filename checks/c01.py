"""C01: Python encode == reference encoding of docs/encoding.rst, both byte orders."""
import os
from lib import gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

MODES = ('fresh', 'min', 'max', 'random', 'random')


def worker(task, seed, workdir, modes):
    res = Result()
    prophy, _ = pyrt.setup()
    for n, sch in enumerate(workload.schemas(task, seed)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            mod = pyrt.compile_python(text, d)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except Exception as e:
            res.violation('import', 'generated module does not import: %s: %s' % (type(e).__name__, e), schema=text)
            continue
        rng = derive(seed, 'c01v', task, n)
        for t in workload.targets(sch, task):
            cls = getattr(mod, t.name)
            for mode in modes:
                v = oracle.default(t) if mode == 'fresh' else gen.ValueGen(rng, mode).value(t)
                one(res, prophy, sch, t, cls, v, mode)
    return res


def one(res, prophy, sch, t, cls, v, mode):
    want = {o: oracle.encode(t, v, o) for o in '<>'}
    res.observe(digest(S.minimal_text(t), want['<']), trivial=len(want['<']) == 0)
    try:
        with cpu_limit(60):
            m = cls()
            if mode != 'fresh':
                pyrt.assign(m, t, v)
            got = {o: m.encode(o) for o in '<>'}
            again = m.encode('<')
    except Hang:
        res.violation('hang', 'encode of %s did not finish within 60 s of CPU' % t.name,
                      schema=S.minimal_text(t), value=v)
        return
    except Exception as e:
        res.violation('raise', 'encoding a valid %s raised %s: %s' % (t.name, type(e).__name__, e),
                      schema=S.minimal_text(t), value=v)
        return
    for o in '<>':
        if got[o] != want[o]:
            res.violation('bytes', '%s encode(%r) gave %s, documented encoding is %s (schema: %s; value: %r)' % (
                t.name, o, got[o].hex(), want[o].hex(), S.minimal_text(t), v), schema=S.minimal_text(t), value=v,
                order=o, got=got[o], want=want[o])
            return
    if again != got['<']:
        res.violation('unstable', '%s encode twice differs' % t.name, schema=S.minimal_text(t), value=v)
    res.note('compared')
    res.sample({'schema': S.minimal_text(t), 'value': repr(v), 'little': got['<'].hex()})


def big(seed, workdir):
    """Element counts around the widths of counters and beyond."""
    from checks import c02
    res = Result()
    prophy, _ = pyrt.setup()
    ts = c02.big_types()
    mod = pyrt.compile_python(S.render(ts), os.path.join(workdir, 'big'))
    for t in ts[1:]:
        for n in c02.big_lengths(t.name):
            v = c02.big_value(t, n)
            for o in '<>':
                try:
                    m = getattr(mod, t.name)()
                    pyrt.assign(m, t, v)
                    got = m.encode(o)
                except Exception as e:
                    res.violation('raise', 'encoding %s with %d elements raised %s: %s' % (t.name, n, type(e).__name__, e),
                                  schema=S.minimal_text(t))
                    continue
                if got != oracle.encode(t, v, o):
                    res.violation('bytes', '%s with %d elements: encode(%r) is not the documented encoding' % (t.name, n, o),
                                  schema=S.minimal_text(t))
                res.observe(digest('big', t.name, n, o))
                res.note('big')
    return res


def main(tier=None):
    c = Check('C01', 'case = (schema type, value): all ordered pairs of ~100 field shapes, block-rule sandwiches, random '
              'triples/quadruples and random nested schemas; values min/max/random; non-trivial = non-empty encoding; '
              'distinct by type text + bytes', tier=tier,
              assumptions=['generated names avoid language keywords', 'r32 values are representable in 32 bits'])
    modes = MODES if c.quick else MODES + ('random',) * 3
    tasks = [(t, c.seed, c.work, modes) for t in workload.python_tasks(c.quick)]
    c.run(worker, tasks)
    c.run(big, [(c.seed, c.work)])
    c.require('big', 20)
    c.require('compared', 1000)
    return c.finish(1000)
