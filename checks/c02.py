"""C02: Python decode inverts encode and consumes exactly the message."""
import os
from lib import gen, oracle, pyrt, schema as S, shifted, workload
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

MODES = ('min', 'max', 'random', 'random')


def worker(task, seed, workdir, modes):
    res = Result()
    prophy, _ = pyrt.setup()
    for n, sch in enumerate(workload.schemas(task, seed)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            mod = pyrt.compile_python(text, d)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except Exception as e:
            res.violation('import', 'generated module does not import: %s: %s' % (type(e).__name__, e), schema=text)
            continue
        rng = derive(seed, 'c02v', task, n)
        for t in workload.targets(sch, task):
            cls = getattr(mod, t.name)
            for mode in modes:
                v = gen.ValueGen(rng, mode).value(t)
                v = gen.align_greedy(rng, t, v)
                if v is None:
                    res.note('greedy_unaligned_skipped')
                    continue
                one(res, prophy, t, cls, v)
    return res


def one(res, prophy, t, cls, v, show=repr):
    text = S.minimal_text(t)
    res.observe(digest(text, repr(v)), trivial=False)

    def bad(key, what):
        res.violation(key, '%s (schema: %s; value: %s)' % (what[:3000], text, show(v)), schema=text, value=show(v))
    for o in '<>':
        try:
            with cpu_limit(60):
                m = cls()
                pyrt.assign(m, t, v)
                data = m.encode(o)
                x = cls()
                consumed = x.decode(data, o)
                back = pyrt.read(x, t)
                again = x.encode(o)
                # decoding over an already used message gives the same value
                reused = m.decode(data, o)
                back2 = pyrt.read(m, t)
        except Hang:
            return bad('hang', '%s round trip did not finish within 60 s of CPU' % t.name)
        except Exception as e:
            return bad('raise', '%s round trip (%s) raised %s: %s' % (t.name, o, type(e).__name__, e))
        if consumed != len(data):
            return bad('consumed', '%s decode(%s) of %d bytes %s reported %r consumed' % (
                t.name, o, len(data), data.hex(), consumed))
        if not pyrt.same(back, v):
            return bad('value', '%s decode(%s) of %s gave %r' % (t.name, o, data.hex(), back))
        if again != data:
            return bad('reencode', '%s re-encode(%s) gave %s instead of %s' % (t.name, o, again.hex(), data.hex()))
        if reused != len(data) or not pyrt.same(back2, v):
            return bad('reuse', '%s decode(%s) into a used message gave %r' % (t.name, o, back2))
        res.note('roundtrips')
    res.sample({'schema': text, 'value': show(v)})


def shifts(idx, seed, n):
    """Descriptors written by hand whose counters are shifted."""
    res = Result()
    prophy, _ = pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c02s', idx, k)
        defs, code = shifted.schema(rng)
        mod = shifted.classes(prophy, code)
        for t in defs:
            if isinstance(t, S.Struct):
                for mode in MODES:
                    v = gen.align_greedy(rng, t, gen.ValueGen(rng, mode, long=0).value(t))
                    if v is not None:
                        one(res, prophy, t, getattr(mod, t.name), v, lambda v: '%r, descriptors: %s' % (v, code))
                        res.note('shifted')
    return res


def big_types():
    inner = S.Struct('BI', [S.Field('x', 'u8')])
    return [inner, S.Struct('BA', [S.Field('a', 'u8', 'dynamic'), S.Field('z', 'u16')]), S.Struct('BB', [S.Field('a', 'bytes', 'dynamic')]),
            S.Struct('BC', [S.Field('n', 'u16'), S.Field('a', 'u16', 'ext', sizer='n'), S.Field('z', 'u8')]),
            S.Struct('BD', [S.Field('n', 'i64'), S.Field('a', inner, 'ext', sizer='n')]),
            S.Struct('BE', [S.Field('a', 'u8', 'limited', 65536)]), S.Struct('BF', [S.Field('a', 'u32', 'greedy')]),
            S.Struct('BG', [S.Field('n', 'u8'), S.Field('a', 'u64', 'ext', sizer='n')]), S.Struct('BH', [S.Field('a', 'u16', 'fixed', 66000)]),
            S.Struct('BJ', [S.Field('a', 'bytes', 'greedy')])]


def big_lengths(name):
    return {'BC': (32767, 32768, 65535), 'BG': (127, 128, 255), 'BF': (65536, 70000), 'BH': (66000,), 'BJ': (65536, 80000)}.get(
        name, (255, 256, 65535, 65536))


def big_value(t, n):
    v = {f.name: 7 for f in t.value_fields}
    f = t.field('a')
    v['a'] = (b'ab' * n)[:n] if f.type == 'bytes' else [{'x': i & 255} for i in range(n)] if not isinstance(f.type, str) else [
        (i * 77) & 255 for i in range(n)]
    return v


def big(seed, workdir):
    """Element counts around the widths of counters and up to the decoder's guard."""
    res = Result()
    prophy, _ = pyrt.setup()
    ts = big_types()
    mod = pyrt.compile_python(S.render(ts), os.path.join(workdir, 'big'))
    for t in ts[1:]:
        for n in big_lengths(t.name):
            one(res, prophy, t, getattr(mod, t.name), big_value(t, n), lambda v: '%d elements' % n)
            res.note('big')
    # one element beyond the guard
    t, n = ts[1], 65537
    probe = Result()
    one(probe, prophy, t, mod.BA, big_value(t, n), lambda v: '%d elements' % n)
    if any(v['key'] == 'raise' and 'over 65536' in v['what'] for v in probe.violations):
        res.violation('array-guard', probe.violations[0]['what'][:600], schema=S.minimal_text(t))
    else:
        res.violations += probe.violations
    return res


def main(tier=None):
    c = Check('C02', 'case = (schema type, value with aligned greedy tail), as in C01; both byte orders; distinct by type '
              'text + value', tier=tier,
              assumptions=['generated names avoid language keywords', 'r32 values are representable in 32 bits',
                           'counted arrays of more than 65536 elements are a known finding (decoder guard)'])
    modes = MODES if c.quick else MODES + ('random',) * 3
    tasks = [(t, c.seed, c.work, modes) for t in workload.python_tasks(c.quick)]
    c.run(worker, tasks)
    c.run(big, [(c.seed, c.work)])
    c.run(shifts, [(i, c.seed, c.scale(25, 200)) for i in range(8)])
    c.require('roundtrips', 1000)
    c.require('shifted', 500)
    c.require('big', 20)
    return c.finish(1000)
