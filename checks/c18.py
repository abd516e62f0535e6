"""C18: str() in Python and print() in C++ give the same, order-insensitive text."""
import os
from lib import cpprt, gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, derive, digest

MODES = ('min', 'max') + ('random',) * 6


def single_quoted(v):
    if isinstance(v, bytes):
        return b"'" not in v or b'"' in v
    if isinstance(v, dict):
        return all(single_quoted(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(single_quoted(x) for x in v)
    return True


def worker(task, seed, workdir, pch, modes):
    res = Result()
    pyrt.setup()
    for n, (sch, types) in enumerate(workload.cpp_batches(task, seed, floats=False)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            exe = cpprt.build_full(text, types, d, extra=pch, with_mutate=False)
            mod = pyrt.compile_python(text, os.path.join(d, 'py'))
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            cpprt.unusable(res, e, text)
            continue
        rng = derive(seed, 'c18v', task, n)
        values = []
        for i, t in enumerate(types):
            for mode in modes:
                v = gen.align_greedy(rng, t, gen.ValueGen(rng, mode, text_bytes=True).value(t))
                if v is None or not single_quoted(v):
                    res.note('skipped')
                    continue
                values.append((i, v))
        compare(res, types, exe, mod, values, d)
    return res


def compare(res, types, exe, mod, values, d):
    reqs, meta = [], []
    for i, v in values:
        t = types[i]
        want = oracle.render_text(t, v)
        res.observe(digest(S.minimal_text(t), want), trivial=not want)
        m = getattr(mod, t.name)()
        try:
            pyrt.assign(m, t, v)
            got = str(m)
            again = str(m)
        except Exception as e:
            res.violation('raise', 'str() of %s raised %s: %s (schema: %s; value: %r)' % (
                t.name, type(e).__name__, e, S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
            continue
        if got != want or again != got:
            res.violation('python', 'str() of %s gave %r, specified %r (schema: %s; value: %r)' % (
                t.name, got, want, S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
        else:
            res.note('python_agreed')
        reqs.append((i, 'P', 'l', oracle.encode(t, v, '<')))
        meta.append((t, v, want, got))
    out, crashes = cpprt.run_driver(exe, reqs, d)
    for c in crashes:
        if c.case is None or c.kind == 'exit:timeout':
            res.inconclusive.append('driver failed: %s %s' % (c.kind, c.detail[-300:]))
            continue
        t, v = meta[c.case][:2]
        res.violation('crash:' + c.kind, 'print() of %s: %s (schema: %s; value: %r)' % (
            t.name, c.kind, S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
    for (t, v, want, got), r in zip(meta, out):
        if r is None:
            continue
        if r.get('ok') != '1':
            res.note('not_decodable')
            continue
        text_ = b'' if r['t'] == '-' else bytes.fromhex(r['t'])
        text_ = text_.decode('latin-1')
        if text_ != got or text_ != want or r['same'] != '1':
            res.violation('cpp', 'print() of %s gave %r, str() gives %r, specified %r (schema: %s; value: %r)' % (
                t.name, text_, got, want, S.minimal_text(t), v), schema=S.minimal_text(t), value=v)
        else:
            res.note('agreed')
            res.sample({'schema': S.minimal_text(t), 'text': want})


def everything():
    """Every byte, the ends of every integer type, every enumerator of a longer enum, deep nesting."""
    e = S.Enum('PE', [('PE_%d' % i, v) for i, v in enumerate((0, 1, 2, 9, 10, 99, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff))])
    b = S.Struct('PB', [S.Field('a', 'bytes', 'fixed', 2), S.Field('b', 'bytes', 'limited', 3), S.Field('c', 'bytes', 'dynamic'),
                        S.Field('d', 'bytes', 'greedy')])
    n = S.Struct('PN', [S.Field('f_' + t, t) for t in S.INTS] + [S.Field('e', e)])
    u = S.Union('PU', [S.Arm('a%d' % i, t, i) for i, t in enumerate(S.INTS)] + [S.Arm('e', e, 99)])
    defs, values = [e, b, n, u], []
    for x in range(256):
        for y in (x, 0x61, 0x30, 0x20):
            v = {'a': bytes((x, y)), 'b': bytes((y, x)), 'c': bytes((x,)), 'd': bytes((y, x, y, y, x, x, y))}
            if single_quoted(v):
                values.append((0, v))
    ends = {}
    for t in S.INTS:
        lo, hi = S.int_range(t)
        ends[t] = sorted({x for k in range(65) for x in (2 ** k - 1, 2 ** k, -2 ** k, -2 ** k - 1, 10 ** (k % 20), -10 ** (k % 20)) if lo <= x <= hi})
        if hi < 256:
            ends[t] = list(range(lo, hi + 1))
    names = [v for _, v in e.members]
    for k in range(max(map(len, ends.values()))):
        values.append((1, dict({'f_' + t: ends[t][k % len(ends[t])] for t in S.INTS}, e=names[k % len(names)])))
    for i, t in enumerate(S.INTS):
        values += [(2, ('a%d' % i, x)) for x in ends[t]]
    values += [(2, ('e', x)) for x in names]
    types, inner, v = [b, n, u], u, ('e', 9)
    for k in range(14):
        inner = S.Struct('PD%d' % k, [S.Field('x', inner), S.Field('y', inner, 'dynamic')] if k % 3 else [S.Field('z', inner, 'optional' if k < 1 else 'plain')])
        v = {'x': v, 'y': [v] if k < 9 else []} if k % 3 else {'z': v}
        defs.append(inner)
        types.append(inner)
        values.append((len(types) - 1, v))
    return defs, types, values


def exhaust(workdir, pch):
    res = Result()
    pyrt.setup()
    defs, types, values = everything()
    d = os.path.join(workdir, 'everything')
    text = S.render(defs)
    try:
        exe = cpprt.build_full(text, types, d, extra=pch, with_mutate=False)
        mod = pyrt.compile_python(text, os.path.join(d, 'py'))
    except pyrt.CompileFailed as e:
        res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
        return res
    except cpprt.CompileError as e:
        cpprt.unusable(res, e, text)
        return res
    compare(res, types, exe, mod, values, d)
    res.notes['everything'] = res.notes.get('agreed', 0)
    return res


def main(tier=None):
    c = Check('C18', 'case = (type, value without floats, bytes whose repr is single-quoted) rendered by Python, compiled '
              'C++ and a reference renderer; distinct by type text + rendering', tier=tier,
              assumptions=['g++ x86-64, C locale', 'enumerator values distinct within an enum'])
    pch = cpprt.build_pch(c.work, cpprt.flags())
    modes = MODES if c.quick else MODES + ('random',) * 20
    c.run(worker, [(t, c.seed, c.work, pch, modes) for t in workload.cpp_tasks(c.quick, 0.75 if c.quick else 0.6)],
          timeout=800, mem=None)
    c.run(exhaust, [(c.work, pch)], timeout=800, mem=None)
    c.require('agreed', 500)
    c.require('everything', 1000)
    return c.finish(500)
