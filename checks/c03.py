"""C03: generated C++ full codec reads and writes the canonical bytes."""
import os
import sys
from lib import cpprt, gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, derive, digest

MODES = ('min', 'max', 'random', 'random', 'random', 'random')
HOST = '<' if sys.byteorder == 'little' else '>'


def worker(task, seed, workdir, pch, modes, nfill):
    res = Result()
    pyrt.setup()
    for n, (sch, types) in enumerate(workload.cpp_batches(task, seed)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            exe = cpprt.build_full(text, types, d, extra=pch, with_mutate=nfill > 0)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            cpprt.unusable(res, e, text)
            continue
        mod = pyrt.compile_python(text, os.path.join(d, 'py'))
        if task[0] == 'remote':
            res.note('remote_sizers', sum(f.shape == 'limited' and bool(f.sizer) for s in sch.structs for f in s.fields))
        rng = derive(seed, 'c03v', task, n)
        reqs, meta = [], []
        for i, t in enumerate(types):
            seen = set()
            if oracle.layout(t).kind != S.UNLIMITED and not zero_enums(t):
                reqs.append((i, 'M', 'n', b''))
                meta.append((t, None, mod, 'initial', 'no'))
            if oracle.layout(t).kind != S.UNLIMITED:
                for _ in range(nfill):
                    reqs.append((i, 'M', 'n', bytes([rng.randrange(256), rng.randrange(256)])))
                    meta.append((t, None, mod, 'filled', 'no'))
            for mode in modes:
                v = gen.align_greedy(rng, t, gen.ValueGen(rng, mode).value(t))
                if v is None:
                    res.note('greedy_unaligned_skipped')
                    continue
                enc = {o: oracle.encode(t, v, o) for o in '<>'}
                if enc['<'] in seen:
                    continue
                seen.add(enc['<'])
                py = {}
                m = getattr(mod, t.name)()
                try:
                    pyrt.assign(m, t, v)
                    py = {o: m.encode(o) for o in '<>'}
                except Exception as e:
                    res.violation('python', 'Python codec cannot write %s: %s: %s' % (t.name, type(e).__name__, e),
                                  schema=S.minimal_text(t), value=v)
                inputs = [('l', enc['<'], 'canonical'), ('b', enc['>'], 'canonical'), ('n', enc[HOST], 'canonical')]
                for o, c in (('<', 'l'), ('>', 'b')):
                    if o in py and py[o] != enc[o]:
                        inputs.append((c, py[o], 'Python-written'))
                for c, data, what in inputs:
                    reqs.append((i, 'R', c, data))
                    meta.append((t, v, enc, c, what))
                reqs.append((i, 'V', 'n', enc[HOST]))
                meta.append((t, v, enc, 'd', 'canonical'))
        out, crashes = cpprt.run_driver(exe, reqs, d)
        judge(res, reqs, meta, out, crashes)
    return res


def judge(res, reqs, meta, out, crashes):
    for c in crashes:
        if c.case is None or c.kind == 'exit:timeout':
            res.inconclusive.append('driver failed: %s %s' % (c.kind, c.detail[-300:]))
            continue
        t, v, enc, o, what = meta[c.case]
        res.violation('crash:' + c.kind, 'C++ codec of %s on %s bytes (%s): %s (schema: %s; value: %r)\n%s' % (
            t.name, what, o, c.kind, S.minimal_text(t), v, c.detail[:400]), schema=S.minimal_text(t), value=v, order=o,
            input=reqs[c.case][3])
    for req, (t, v, enc, o, what), r in zip(reqs, meta, out):
        if r is None:
            continue
        text = S.minimal_text(t)
        if o in ('initial', 'filled'):
            written(res, t, enc, r, o)
            continue
        res.observe(digest(text, req[3], o), trivial=not req[3])
        res.note('order_' + o)

        def bad(key, msg):
            res.violation(key, '%s (schema: %s; value: %r)' % (msg, text, v), schema=text, value=v, order=o, input=req[3])
        if r.get('ok') != '1':
            bad('rejected', 'C++ decode (%s) of %s refused %s bytes %s' % (o, t.name, what, req[3].hex()))
            continue
        if o == 'd':
            if unhex(r['x']) != enc[HOST] or unhex(r['y']) != enc[HOST]:
                bad('bytes', 'default-order decode+encode of %s gave %s / %s instead of %s' % (
                    t.name, r['x'], r['y'], enc[HOST].hex()))
            continue
        for k, order in (('l', '<'), ('b', '>'), ('n', HOST), ('d', HOST)):
            if unhex(r[k]) != enc[order]:
                bad('bytes', '%s decoded (%s) from %s, encode %s gave %s instead of %s' % (
                    t.name, o, req[3].hex(), k, r[k], enc[order].hex()))
                break
        else:
            res.note('agreed')
            res.sample({'schema': text, 'value': repr(v)})


def zero_enums(t):
    """Fixed arrays of enums start as zeros in C++, which need not be an enumerator: no value of the message."""
    return any(f.shape == 'fixed' and isinstance(S.resolve(f.type), S.Enum) and 0 not in S.resolve(f.type).by_value
               for d in S.closure(t) if isinstance(d, S.Struct) for f in d.fields)


def written(res, t, mod, r, what):
    """What C++ writes for an object nobody filled, or filled in memory, is read by Python too."""
    text = S.minimal_text(t)
    for k, order in (('l', '<'), ('b', '>')):
        data = unhex(r[k])
        m = getattr(mod, t.name)()
        try:
            if m.decode(data, order) != len(data) or m.encode(order) != data:
                raise ValueError('re-encoded as %s' % m.encode(order).hex())
            res.note(what + '_read')
        except Exception as e:
            res.violation(what, 'Python cannot read %s %s written by C++ (%s): %s: %s: %s (schema: %s)' % (
                what, t.name, k, data.hex(), type(e).__name__, e, text), schema=text, order=order, input=data)


def unhex(s):
    return b'' if s == '-' else bytes.fromhex(s)


def main(tier=None):
    c = Check('C03', 'case = (type, value, byte order) decoded and re-encoded by the compiled C++ full codec; distinct by '
              'type text + bytes + order', tier=tier,
              assumptions=['g++ x86-64', 'generated names avoid language keywords', 'one array per sizer'])
    modes = MODES if c.quick else MODES * 3
    pch = cpprt.build_pch(c.work, cpprt.flags())
    c.run(worker, [(t, c.seed, c.work, pch, modes, 0 if c.quick and t[0] != 'hot' else 12) for t in workload.cpp_tasks(c.quick)], timeout=800, mem=None)
    c.require('agreed', 500)
    c.require('remote_sizers', 8)
    c.require('initial_read', 500)
    c.require('filled_read', 500)
    return c.finish(500)
