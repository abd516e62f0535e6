"""C19: byte order changes only the bytes inside scalars; padding is zero in both orders."""
import os
import sys
from lib import cpprt, gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

HOST = 'l' if sys.byteorder == 'little' else 'b'


def compare(res, who, t, v, little, big):
    """Metamorphic law between two encodings of one message; returns True if it could be applied in full."""
    text = S.minimal_text(t)

    def bad(key, msg):
        res.violation(key + ':' + who, '%s: %s; little %s big %s (schema: %s; value: %r)' % (
            who, msg, little.hex(), big.hex(), text, v), schema=text, value=v, little=little, big=big)
        return False
    res.observe(digest(who, text, little), trivial=not little)
    if len(little) != len(big):
        return bad('length', 'encodings differ in length')
    e = oracle.emit(t, v, '<')
    if len(e.buf) != len(little):
        res.note('unmapped')       # not the documented layout: C01/C03
        return False
    for off, size, what in e.scalars:
        if little[off:off + size] != big[off:off + size][::-1]:
            return bad('scalar', 'scalar %s at %d..%d is not mirrored' % (what or 'value', off, off + size))
    for off, size in e.raw:
        if little[off:off + size] != big[off:off + size]:
            return bad('raw', 'bytes at %d differ' % off)
    for off, size in e.pads:
        if any(little[off:off + size]) or any(big[off:off + size]):
            return bad('padding', 'padding at %d..%d is not zero' % (off, off + size))
    res.note('mirrored_' + who)
    res.note('scalars_' + who, len(e.scalars))
    res.note('pads_' + who, len(e.pads))
    res.sample({'who': who, 'schema': text, 'little': little.hex(), 'big': big.hex()})
    return True


def py_worker(task, seed, workdir, modes):
    res = Result()
    pyrt.setup()
    for n, sch in enumerate(workload.schemas(task, seed)):
        d = os.path.join(workdir, 'py_%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            mod = pyrt.compile_python(text, d)
        except Exception as e:
            res.inconclusive.append('valid schema not usable: %s: %s' % (type(e).__name__, e))
            continue
        rng = derive(seed, 'c19v', task, n)
        for t in workload.targets(sch, task):
            for mode in modes:
                v = gen.ValueGen(rng, mode).value(t)
                try:
                    with cpu_limit(60):
                        m = getattr(mod, t.name)()
                        pyrt.assign(m, t, v)
                        outs = {}
                        for o in '<>':
                            try:
                                outs[o] = m.encode(o)
                            except Exception as e:
                                outs[o] = e
                        le, be = outs['<'], outs['>']
                        if isinstance(le, Exception) and isinstance(be, Exception):
                            raise le
                        if isinstance(le, Exception) or isinstance(be, Exception):
                            res.violation('one-order', '%s encodes in one byte order only: %r / %r (schema: %s; value: %r)' % (
                                t.name, le, be, S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
                            continue
                except (Hang, Exception) as e:
                    res.note('not_encodable')
                    res.inconclusive.append('%s not encodable: %s: %s' % (t.name, type(e).__name__, e))
                    continue
                compare(res, 'python', t, v, le, be)
    return res


def cpp_worker(task, seed, workdir, pch, modes):
    res = Result()
    pyrt.setup()
    for n, (sch, types) in enumerate(workload.cpp_batches(task, seed)):
        d = os.path.join(workdir, 'cpp_%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            exe = cpprt.build_full(text, types, d, extra=pch, with_mutate=False)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            cpprt.unusable(res, e, text)
            continue
        rng = derive(seed, 'c19c', task, n)
        reqs, meta = [], []
        for i, t in enumerate(types):
            for mode in modes:
                v = gen.align_greedy(rng, t, gen.ValueGen(rng, mode).value(t))
                if v is None:
                    continue
                o = rng.choice('<>')
                data = oracle.encode(t, v, o)
                # padding damaged on purpose: encoders must still emit zeros
                e = oracle.emit(t, v, o)
                if rng.random() < 0.5 and not e.tail_padded and oracle.layout(t).kind != S.UNLIMITED:
                    b = bytearray(data)
                    for off, size in e.pads:
                        b[off:off + size] = b'\xa5' * size
                    data = bytes(b)
                    res.note('dirty_padding')
                reqs.append((i, 'R', 'l' if o == '<' else 'b', data))
                meta.append((t, v))
        out, crashes = cpprt.run_driver(exe, reqs, d)
        for c in crashes:
            if c.case is None or c.kind == 'exit:timeout':
                res.inconclusive.append('driver failed: %s %s' % (c.kind, c.detail[-300:]))
                continue
            t, v = meta[c.case]
            res.violation('crash:' + c.kind, 'encoding %s in both orders: %s (schema: %s; value: %r)' % (
                t.name, c.kind, S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
        for (t, v), r in zip(meta, out):
            if r is None or r.get('ok') != '1':
                res.note('not_decodable')
                continue
            h = {k: b'' if r[k] == '-' else bytes.fromhex(r[k]) for k in 'lbnd'}
            compare(res, 'cpp', t, v, h['l'], h['b'])
            if h['n'] != h[HOST] or h['d'] != h[HOST]:
                res.violation('native', 'native encoding of %s is not the host order: %s vs %s (schema: %s; value: %r)' % (
                    t.name, h['n'].hex(), h[HOST].hex(), S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
            else:
                res.note('native')
    return res


def main(tier=None):
    c = Check('C19', 'case = (codec, type, value) encoded in both orders and compared through the map of scalars and '
              'padding; distinct by codec + type text + bytes', tier=tier,
              assumptions=['g++ x86-64', 'scalar/padding map from the reference layout'])
    pch = cpprt.build_pch(c.work, cpprt.flags())
    modes = ('max', 'random', 'random') if c.quick else ('min', 'max') + ('random',) * 5
    tasks = [(cpp_task, (t, c.seed, c.work, pch, modes * 2)) for t in workload.cpp_tasks(c.quick, 0.6)]
    tasks += [(py_task, (t, c.seed, c.work, modes)) for t in workload.python_tasks(c.quick)]
    c.run(dispatch, tasks, timeout=800, mem=None)
    c.require('mirrored_python', 1000)
    c.require('mirrored_cpp', 300)
    c.require('native', 300)
    c.require('dirty_padding', 20)
    return c.finish(1000)


def dispatch(fn, args):
    return fn(*args)


def cpp_task(*a):
    return cpp_worker(*a)


def py_task(*a):
    return py_worker(*a)
