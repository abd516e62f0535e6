"""C06: Python decode of arbitrary bytes returns or raises ProphyError, in proportion to the input, to a fixpoint."""
import os
import tracemalloc
from lib import corrupt, gen, oracle, pyrt, schema as S, shifted, workload
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

CPU = 30            # seconds of CPU for one input of at most some KB: thousands of times the usual cost
MEM_BASE, MEM_PER_BYTE = 1 << 20, 4096


def one(res, prophy, t, cls, order, data, how, used, measure, tag=None):

    def bad(key, what):
        s = S.minimal_text(t)
        res.violation(key, '%s(%s) of %s input %s: %s (schema: %s)' % (t.name, order, how, data.hex()[:400], what, s),
                      schema=s, data=data.hex(), order=order)
    outcome = None
    try:
        with cpu_limit(CPU):
            x = cls()
            if measure:
                tracemalloc.start()
            try:
                x.decode(data, order)
                outcome = 'accepted'
            except prophy.ProphyError:
                outcome = 'rejected'
            finally:
                if measure:
                    peak = tracemalloc.get_traced_memory()[1]
                    tracemalloc.stop()
            if used is not None:
                try:
                    used.decode(data, order)
                except prophy.ProphyError:
                    pass
                else:
                    fixpoint(bad, t, cls, used, order, 'into a used message: ')
    except Hang:
        return bad('hang', 'decode did not finish within %d s of CPU' % CPU)
    except MemoryError:
        return bad('memory', 'decode ran out of memory')
    except Exception as e:
        return bad('raise:' + type(e).__name__, 'raised %s: %s' % (type(e).__name__, e))
    res.note(outcome)
    if measure:
        lay = oracle.layout(t)
        limit = MEM_BASE + MEM_PER_BYTE * (len(data) + (lay.size or 0))
        res.note('measured')
        if peak > limit:
            return bad('memory', 'decode of %d bytes allocated %d bytes' % (len(data), peak))
    if outcome == 'accepted':
        if how != 'valid':
            res.note('accepted_damaged')
        try:
            with cpu_limit(CPU):
                enc = fixpoint(bad, t, cls, x, order, '')
                if enc and len(enc) > len(data):
                    res.note('shorter')
                    invented(bad, t, x, order, data)
        except Hang:
            return bad('hang', 'encode / decode of the accepted message did not finish within %d s of CPU' % CPU)
    res.observe(digest(tag, t.name, order, data), trivial=not data)


def fixpoint(bad, t, cls, x, order, where):
    try:
        v = pyrt.read(x, t)
        enc = x.encode(order)
        y = cls()
        y.decode(enc, order)
        back = pyrt.read(y, t)
        again = y.encode(order)
    except Hang:
        raise
    except Exception as e:
        return bad('fixpoint:' + type(e).__name__, '%saccepted, then raised %s: %s' % (where, type(e).__name__, e))
    if not pyrt.same(v, back):
        return bad('fixpoint:value', '%saccepted as %r, its encoding %s decodes to %r' % (where, v, enc.hex(), back))
    if again != enc:
        return bad('fixpoint:bytes', '%saccepted, encodes to %s, then to %s' % (where, enc.hex(), again.hex()))
    return enc


def invented(bad, t, x, order, data):
    """An accepted input may lack padding (or space of an unset optional) at its end, never contents of the message."""
    e = oracle.emit(t, pyrt.read(x, t), order)
    end = max([o + n for o, n in [s[:2] for s in e.scalars] + e.raw] + [e.slack])
    if end > len(data):
        bad('invented', 'accepted as %r, which needs %d bytes (contents up to %d), only %d were given' % (
            pyrt.read(x, t), len(e.buf), end, len(data)))


def worker(task, seed, workdir, nvalues, per_value, every):
    res = Result()
    prophy, _ = pyrt.setup()
    k = 0
    for n, sch in enumerate(workload.schemas(task, seed)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            mod = pyrt.compile_python(text, d)
        except Exception as e:
            res.inconclusive.append('valid schema not compiled: %s' % e)
            continue
        rng = derive(seed, 'c06v', task, n)
        for t in workload.targets(sch, task):
            cls = getattr(mod, t.name)
            used = cls()
            for order, data, how in corrupt.inputs(rng, t, nvalues, per_value):
                k += 1
                one(res, prophy, t, cls, order, data, how, used if k % 3 == 0 else None,
                    k % every == 0 or (how.startswith('counter') and k % 4 == 0), (task, n))
                if k % 5000 == 1:
                    res.sample({'schema': S.minimal_text(t), 'order': order, 'data': data.hex()[:200], 'how': how})
    return res


def shifts(idx, seed, n):
    """Descriptors written by hand whose counters are shifted."""
    res = Result()
    prophy, _ = pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c06s', idx, k)
        defs, code = shifted.schema(rng)
        mod = shifted.classes(prophy, code)
        for t in defs:
            if not isinstance(t, S.Struct):
                continue
            cls, m = getattr(mod, t.name), getattr(mod, t.name)()
            order = rng.choice('<>')
            pyrt.assign(m, t, gen.ValueGen(rng, long=0).value(t))
            data = m.encode(order)
            inputs = [(data, 'valid'), (data[:rng.randint(0, len(data))], 'prefix'), (b'', 'empty'), (data + b'\0', 'extended')]
            for i in range(min(len(data), 60)):
                x = bytearray(data)
                x[i if len(data) <= 60 else rng.randrange(len(data))] = rng.choice((0, 1, 2, 3, 4, 7, 8, 127, 128, 255, rng.randrange(256)))
                inputs.append((bytes(x), 'byte'))
            for x, how in inputs:
                one(res, prophy, t, cls, order, x, how + ' (descriptors: %s)' % code, None, False, (idx, k))
                res.note('shifted')
    return res


def probe(c):
    """Counts beyond the documented guard, with and without the elements they announce."""
    prophy, _ = pyrt.setup()
    fs = [S.Struct('PA', [S.Field('a', 'u8', 'dynamic')]), S.Struct('PB', [S.Field('a', 'bytes', 'dynamic')]),
          S.Struct('PC', [S.Field('x', 'u8')])]
    fs.append(S.Struct('PD', [S.Field('n', 'u64'), S.Field('a', fs[2], 'ext', sizer='n')]))
    mod = pyrt.compile_python(S.render(fs), c.dir('probe'))
    for t in fs[:2] + fs[3:]:
        size = 8 if t.name == 'PD' else 4
        for count in (65537, 70000, 1 << 31, (1 << 32) - 1) + (((1 << 63) - 1, (1 << 64) - 1) if size == 8 else ()):
            for have in (0, 3, min(count, 80000)):
                for order in '<>':
                    data = count.to_bytes(size, 'little' if order == '<' else 'big') + b'\1' * have
                    data += b'\0' * (-len(data) % size)
                    res = Result()
                    one(res, prophy, t, getattr(mod, t.name), order, data, 'huge counter', None, True)
                    for v in res.violations:
                        c.violation(v['key'], v['what'][:600], **v['replay'])
                    if res.notes.get('accepted'):
                        c.violation('unbounded', '%s: %d elements accepted, element counts are not bounded' % (t.name, count))
                    c.notes['probe_counts'] = c.notes.get('probe_counts', 0) + 1


def main(tier=None):
    c = Check('C06', 'case = (type, byte order, byte string): prefixes, damaged counters / flags / discriminators / enums / '
              'padding, extensions, bit flips, deletions, random bytes; distinct by type + order + bytes', tier=tier,
              assumptions=['prompt = within %d s of CPU per input' % CPU,
                           'proportionate = %d + %d bytes per byte of input and of fixed type size (tracemalloc)' % (
                               MEM_BASE, MEM_PER_BYTE)])
    q = c.quick
    n = 16
    tasks = [('pairs', i, n, 100) for i in range(n)] + [('sandwich', i, 8, 100) for i in range(8)]
    tasks += [('tuples', i, 60 if q else 800, k, 60) for k in (3, 4) for i in range(k * 8, k * 8 + 8)]
    tasks += [('random', i, 2 if q else 24, 25) for i in range(2 * n)]
    tasks += [('remote', i, 2 if q else 24, 16) for i in range(8)]
    nv, pv = c.scale((2, 12), (4, 24))
    c.run(worker, [(t, c.seed, c.work, nv, pv, c.scale(40, 25)) for t in tasks], timeout=850)
    c.run(shifts, [(i, c.seed, c.scale(20, 200)) for i in range(8)])
    probe(c)
    c.require('shifted', 2000)
    c.require('accepted', 5000)
    c.require('accepted_damaged', 2000)
    c.require('rejected', 5000)
    c.require('measured', 1000)
    return c.finish(10000)
