"""C09: raw C++ swap turns a foreign-endian message into a native one in place."""
import os
from lib import cpprt, gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, derive, digest

NATIVE, FOREIGN = '<', '>'


def expectation(t, v):
    """(foreign bytes, expected bytes after swap, expected returned offset)"""
    f = oracle.emit(t, v, FOREIGN)
    n = oracle.emit(t, v, NATIVE)
    fb, nb = bytes(f.buf), bytes(n.buf)
    if oracle.layout(t).kind == S.UNLIMITED:
        pos = f.tops[-1][1]
        return fb, nb[:pos] + fb[pos:], pos
    return fb, nb, len(nb)


def classify_bad(want, got, r, pos, clean):
    if not clean:
        return 'outside', 'bytes outside the message were modified'
    if got != want:
        i = next(k for k in range(len(want)) if want[k] != got[k])
        return 'bytes', 'byte %d of %d is %02x instead of %02x' % (i, len(want), got[i], want[i])
    if r != pos:
        return 'returned', 'returned offset %d instead of %d (message of %d bytes)' % (r, pos, len(want))
    return None


def judge(res, types, exe, cases, d):
    info = [(types[ti], v) + expectation(types[ti], v) for ti, v in cases]
    reqs = [(ti, 'SG'[i % 2], 'x', info[i][2]) for i, (ti, v) in enumerate(cases)]
    responses, crashes = cpprt.run_driver(exe, reqs, d)
    for c in crashes:
        if c.case is None or c.kind == 'exit:timeout':
            res.inconclusive.append('driver failed: %s %s' % (c.kind, c.detail[-300:]))
            continue
        t, v, fb = info[c.case][:3]
        res.violation('crash:' + c.kind, 'swap of %s: %s (message %s, schema: %s)\n%s' % (
            t.name, c.kind, fb.hex(), S.minimal_text(t), c.detail[:500]), schema=S.minimal_text(t), data=fb.hex())
    for i, (t, v, fb, nb, pos) in enumerate(info):
        kv = responses[i]
        if kv is None:
            continue
        text = S.minimal_text(t)
        got = b'' if kv['d'] == '-' else bytes.fromhex(kv['d'])
        bad = classify_bad(nb, got, int(kv['r']), pos, kv['g'] == '1')
        res.observe(digest(text, fb), trivial=fb == nb)
        res.note({S.FIXED: 'fixed', S.DYNAMIC: 'dynamic', S.UNLIMITED: 'unlimited'}[oracle.layout(t).kind])
        if isinstance(t, S.Struct) and len(cpprt.raw_parts(t)) > 1:
            res.note('multi_part')
        if bad:
            res.violation(bad[0], 'swap of %s: %s (message %s, schema: %s)' % (t.name, bad[1], fb.hex(), text),
                          schema=text, data=fb.hex())
        elif i % 97 == 0:
            res.sample({'schema': text, 'in': fb.hex()[:120], 'out': got.hex()[:120], 'returned': int(kv['r'])})


def worker(task, seed, workdir, pch, nval):
    res = Result()
    pyrt.setup()
    for n, (sch, types) in enumerate(workload.cpp_batches(task, seed, share_sizer=True)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            exe = cpprt.build_swap(text, types, d, extra=pch)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            cpprt.unusable(res, e, text)
            continue
        if task[0] == 'remote':
            res.note('remote_sizers', sum(f.shape == 'limited' and bool(f.sizer) for s in sch.structs for f in s.fields))
        rng = derive(seed, 'c09v', task, n)
        cases = []
        for ti, t in enumerate(types):
            for mode in ('min', 'max') + ('random',) * nval:
                v = gen.ValueGen(rng, mode).value(t)
                if oracle.emit(t, v).realigned:
                    res.note('skipped_part_align')     # known finding, see probe()
                else:
                    cases.append((ti, v))
        judge(res, types, exe, cases, d)
        os.unlink(exe)
    return res


def probe(c, pch):
    """Parts followed by less aligned parts: the generated text is pinned by tests."""
    u8, u16, dyn = 'u8', 'u16', 'dynamic'
    t = S.Struct('PartAlign', [S.Field('n', u8), S.Field('b', u16, dyn), S.Field('c', u16, dyn), S.Field('a', u16, 'ext', sizer='n')])
    d = c.dir('probe')
    try:
        exe = cpprt.build_swap(S.minimal_text(t), [t], d, extra=pch)
    except (pyrt.CompileFailed, cpprt.CompileError) as e:
        return c.inconclusive('probe does not build: %s' % e)
    ok, known = Result(), Result()
    judge(ok, [t], exe, [(0, {'n': 1, 'b': [1, 2], 'c': [3, 4], 'a': [5]})], d)
    judge(known, [t], exe, [(0, {'n': 1, 'b': [1, 2], 'c': [3], 'a': [0x1234]})], d)
    c.notes['probe_part_align'] = 1
    for v in ok.violations:
        c.violation('part-aligned', v['what'], **v['replay'])
    for v in known.violations:
        c.violation('part-align', v['what'], **v['replay'])


def main(tier=None):
    c = Check('C09', 'case = one foreign-endian message of one type swapped in place; distinct by type text + message bytes',
              tier=tier, assumptions=['host is little endian, so foreign = big endian', 'message buffer aligned to 16',
                                      'messages are produced by the reference encoder'])
    pch = cpprt.build_pch(c.work, cpprt.flags())
    nval = 14 if c.quick else 40
    tasks = workload.cpp_tasks(c.quick, c.scale(3, 1.5))
    c.run(worker, [(t, c.seed, c.work, pch, nval) for t in tasks], timeout=800, mem=None)
    probe(c, pch)
    c.require('dynamic', 500)
    c.require('remote_sizers', 8)
    c.require('multi_part', 200)
    c.require('unlimited', 100)
    c.require('fixed', 300)
    return c.finish(2000)
