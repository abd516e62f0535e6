"""C04: sizes, alignments and stiffness computed by prophyc, published in C++ and derived by the Python runtime."""
import os
import subprocess
from lib import cpprt, gen, isar, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, derive, digest

KINDS = {S.FIXED: 'fixed', S.DYNAMIC: 'dynamic', S.UNLIMITED: 'unlimited'}


def run_prophyc(args):
    import prophyc
    import contextlib
    import io
    with contextlib.redirect_stderr(io.StringIO()):
        return prophyc.main(args)


def flat(node_dict, stem):
    return {n.name: n for n in node_dict[stem]}


def judge_model(res, t, node, front, bad):
    lay = oracle.layout(t)
    if node is None:
        return bad('model', 'no model node')
    if isinstance(t, S.Typedef):
        if node.kind != lay.kind:
            return bad('kind', 'typedef classified as %s, is %s' % (KINDS.get(node.kind), KINDS[lay.kind]))
        return
    if node.kind != lay.kind:
        return bad('kind', 'classified as %s, is %s' % (KINDS.get(node.kind), KINDS[lay.kind]))
    if node.alignment != lay.align:
        return bad('alignment', 'alignment %s, is %s' % (node.alignment, lay.align))
    if lay.kind == S.FIXED and node.byte_size != lay.size:
        return bad('size', 'size %s, is %s' % (node.byte_size, lay.size))
    res.note('model_' + KINDS[lay.kind])
    res.note('model_' + front)


def judge_padding(res, t, node, rng, bad):
    """Padding the model emits after each member leads from its end to the start of the next one."""
    if not isinstance(t, S.Struct) or len(node.members) != len(oracle.layout(t).members):
        return
    for mode in ('min', 'random', 'random'):
        e = oracle.emit(t, gen.ValueGen(rng, mode).value(t))
        starts = [x[1] for x in e.tops[1:]] + [len(e.buf)]
        for m, (name, start, end), nxt in zip(node.members, e.tops, starts):
            p = getattr(m, 'padding', None)
            if p is None:
                continue
            at = oracle.up(end, -p) if p < 0 else end + p
            if at != nxt:
                return bad('padding', 'padding %d after member %s leads from %d to %d instead of %d' % (p, name, end, at, nxt))
            res.note('paddings')


def judge_python(res, t, cls, rng, nval, bad):
    lay = oracle.layout(t)
    if getattr(cls, '_ALIGNMENT', lay.align) != lay.align:
        return bad('py-alignment', 'Python derives alignment %s, is %s' % (cls._ALIGNMENT, lay.align))
    if bool(getattr(cls, '_DYNAMIC', lay.kind != S.FIXED)) != (lay.kind != S.FIXED):
        return bad('py-kind', 'Python derives _DYNAMIC %s for a %s type' % (cls._DYNAMIC, KINDS[lay.kind]))
    if bool(getattr(cls, '_UNLIMITED', lay.kind == S.UNLIMITED)) != (lay.kind == S.UNLIMITED):
        return bad('py-kind', 'Python derives _UNLIMITED %s for a %s type' % (cls._UNLIMITED, KINDS[lay.kind]))
    if lay.kind == S.FIXED:
        if getattr(cls, '_SIZE', lay.size) != lay.size:
            return bad('py-size', 'Python derives size %s, is %s' % (cls._SIZE, lay.size))
        for k in range(nval):
            x = cls()
            v = None
            if k:
                v = gen.ValueGen(rng, 'max' if k == 1 else 'random').value(t)
                pyrt.assign(x, t, v)
            n = len(x.encode('<>'[k % 2]))
            if n != lay.size:
                return bad('py-length', 'Python encoding of fixed type takes %d bytes, size is %d (value %r)' % (n, lay.size, v))
            res.note('py_lengths')


def judge_cpp(res, t, row, bad):
    lay = oracle.layout(t)
    full, raw = row
    want = lay.size if lay.kind == S.FIXED else -1
    if full != want:
        return bad('cpp-size', 'C++ encoded_byte_size is %d, expected %d' % (full, want))
    if lay.kind == S.FIXED and raw is not None and raw != lay.size:
        return bad('raw-size', 'sizeof raw struct is %d, wire size is %d' % (raw, lay.size))
    res.note('cpp_sizes')


def cpp_table(types, d, stem, pch, raw):
    """{name: (encoded_byte_size, sizeof raw)} evaluated by the compiler."""
    src = '#include "pv_std.hpp"\n#include "%s.ppf.hpp"\n' % stem
    if raw:
        src += '#include "%s.pp.hpp"\n' % stem
    src += 'int main() {\n' + ''.join(
        'printf("%s %%d %%d\\n", int(prophy::generated::%s::encoded_byte_size), %s);\n' % (
            t.name, t.name, 'int(sizeof(::%s))' % t.name if raw else '-1') for t in types) + 'return 0; }\n'
    path = pyrt.write(os.path.join(d, 'sizes.cpp'), src)
    exe = os.path.join(d, 'sizes')
    cpprt.compile_cpp(path, exe, ['-std=c++11', '-O0', '-g0'], pch)
    p = subprocess.run([exe], capture_output=True, text=True, timeout=300, check=True)
    out = {}
    for line in p.stdout.split('\n'):
        if line:
            n, a, b = line.split()
            out[n] = (int(a), int(b) if raw else None)
    return out


def worker(task, seed, workdir, pch, nval):
    res = Result()
    pyrt.setup()
    front, cpp, sub = task
    for n, sch in enumerate(workload.schemas(sub, seed, share_sizer=not cpp)):
        types = workload.targets(sch, sub)
        typedefs = [d for d in sch.defs if isinstance(d, S.Typedef)]
        if sub[0] != 'random':
            sch = workload.prune(sch, types)
            typedefs = []
        rng = derive(seed, 'c04', task, n)
        d = os.path.join(workdir, '%s_%d_%s_%d' % (front, cpp, '_'.join(map(str, sub)), n))
        os.makedirs(d, exist_ok=True)
        args = ['--python_out', d]
        if cpp:
            args += ['--cpp_full_out', d, '--cpp_out', d]
        if front == 'prophy':
            path = pyrt.write(os.path.join(d, 'm.prophy'), S.render(sch))
        else:
            defs = list(sch.defs)
            rng.shuffle(defs)
            xml, patch = isar.render(defs, rng)
            path = pyrt.write(os.path.join(d, 'm.xml'), xml)
            args += ['--isar', '-p', pyrt.write(os.path.join(d, 'm.patch'), patch)]
        try:
            nodes = flat(run_prophyc(args + [path]), 'm')
            mod = pyrt.import_generated(d, 'm')[0]
        except Exception as e:
            res.inconclusive.append('valid schema not compiled (%s): %s: %s' % (front, type(e).__name__, e))
            continue
        table = {}
        if cpp:
            try:
                table = cpp_table(types, d, 'm', pch, True)
            except cpprt.CompileError as e:
                res.inconclusive.append('generated C++ does not compile: %s' % str(e)[:800])
        for t in types + typedefs:
            text = S.minimal_text(t)
            failed = []

            def bad(key, msg):
                failed.append(key)
                res.violation(key, '%s (%s): %s (schema: %s)' % (t.name, front, msg, text), schema=text)
            res.observe(digest(front, cpp, text))
            judge_model(res, t, nodes.get(t.name), front, bad)
            if isinstance(t, S.Typedef):
                continue
            if not failed:
                judge_padding(res, t, nodes[t.name], rng, bad)
            if not failed:
                judge_python(res, t, getattr(mod, t.name), rng, nval, bad)
            if t.name in table and not failed:
                judge_cpp(res, t, table[t.name], bad)
            lay = oracle.layout(t)
            if not failed and n % 5 == 0:
                res.sample({'schema': text, 'front': front, 'size': lay.size, 'align': lay.align, 'kind': KINDS[lay.kind],
                            'c++': table.get(t.name)})
    return res


def main(tier=None):
    c = Check('C04', 'case = one type of an accepted schema (prophy or isar front-end), its size / alignment / stiffness in '
              'the model, the Python class and the compiled C++ headers; distinct by front-end + type text', tier=tier,
              assumptions=['g++ x86-64', 'model read from the result of prophyc.main'])
    pch = cpprt.build_pch(c.work, ['-std=c++11', '-O0', '-g0'])
    q = c.quick
    tasks = [('prophy', False, ('pairs', i, 16, 1000)) for i in range(16)]
    tasks += [('prophy', False, ('sandwich', i, 4, 1000)) for i in range(4)]
    tasks += [('isar', False, ('pairs', i, 16, 1000)) for i in range(16)]
    tasks += [('isar', False, ('random', i, 4 if q else 30, 25)) for i in range(16)]
    tasks += [('prophy', False, ('tuples', i, 300 if q else 3000, k, 300)) for k in (3, 4, 5) for i in range(4)]
    tasks += [('prophy', True, ('tuples', 10 + i, 120 if q else 1000, 4, 120)) for i in range(8)]
    tasks += [('prophy', True, ('pairs', i, 64, 1000)) for i in range(0, 64, 6 if q else 1)]
    tasks += [('isar', True, ('random', 50 + i, 1 if q else 10, 30)) for i in range(8)]
    tasks += [('prophy', True, ('random', 70 + i, 2 if q else 15, 30)) for i in range(16)]
    c.run(worker, [(t, c.seed, c.work, pch, 4) for t in tasks], timeout=800, mem=None)
    c.require('model_fixed', 1000)
    c.require('model_dynamic', 1000)
    c.require('model_unlimited', 200)
    c.require('model_isar', 500)
    c.require('py_lengths', 1000)
    c.require('cpp_sizes', 500)
    c.require('paddings', 1000)
    return c.finish(1000)
