"""C08: raw C++ struct layout coincides with the wire layout."""
import os
from lib import cpprt, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, digest


def klass(t):
    t = S.resolve(t)
    if isinstance(t, str):
        return 'u' if t == 'bytes' else {'r': 'f', 'u': 'u', 'i': 'i'}[t[0]]
    return 'e' if isinstance(t, S.Enum) else 'c'


def expected(t):
    """{('M', scope, member): (offset, elem size, count, class)}, sizeof or None."""
    lay = oracle.layout(t)
    out = {}
    if isinstance(t, S.Union):
        out[('M', t.name, 'discriminator')] = (0, 4, 1, 'e')
        for a in t.arms:
            el = oracle.layout(a.type)
            out[('M', t.name, a.name)] = (lay.align, el.size, 1, klass(a.type))
        return out, lay.size
    for i, g in enumerate(cpprt.raw_parts(t)):
        scope = t.name if i == 0 else '%s::part%d' % (t.name, i + 1)
        for m in g:
            f = m.field
            el = oracle.layout(m.type)
            size = el.size        # None for dynamic types: sizeof is not claimed
            if m.role == 'optional':
                out[('M', scope, 'has_' + m.name)] = (m.offset, 4, 1, 'u')
                out[('M', scope, m.name)] = (m.offset + m.align, size, 1, klass(m.type))
            elif m.role == 'array':
                # extent of arrays of varying length is a matter of style
                out[('M', scope, m.name)] = (m.offset, size, f.size if f.shape in ('fixed', 'limited') else None, klass(m.type))
            else:
                out[('M', scope, m.name)] = (m.offset, size, 1, klass(m.type))
    return out, lay.size


def judge(res, t, tab):
    text = S.minimal_text(t)
    want, size = expected(t)

    def bad(key, msg):
        res.violation(key, '%s (schema: %s)' % (msg, text), schema=text)
    z = tab[('Z', t.name)]
    res.observe(digest('Z', text))
    if size is not None:
        if int(z[2]) != size:
            return bad('sizeof', 'sizeof(%s) is %s, wire size is %d' % (t.name, z[2], size))
        res.note('sizeof')
    if isinstance(t, S.Union):
        for a in t.arms:
            v = tab[('V', t.name, 'discriminator_' + a.name)]
            if int(v[3]) != a.disc:
                return bad('disc', 'discriminator_%s is %s' % (a.name, v[3]))
    for k, (off, el, count, cl) in want.items():
        r = tab[k]
        res.observe(digest(text, k))
        if int(r[3]) != off:
            return bad('offset', '%s.%s lies at %s, wire offset is %d' % (k[1], k[2], r[3], off))
        if el is not None and int(r[5]) != el:
            return bad('width', '%s.%s has width %s instead of %d' % (k[1], k[2], r[5], el))
        if el is not None and count is not None and int(r[4]) != el * count:
            return bad('extent', '%s.%s has size %s instead of %d' % (k[1], k[2], r[4], el * count))
        if cl in 'uif' and r[6] != cl and not (k[2] == 'discriminator') or cl in 'ec' and r[6] != cl:
            return bad('class', '%s.%s is of class %s instead of %s' % (k[1], k[2], r[6], cl))
        res.note('members')
        if 'part' in k[1].split('::')[-1]:
            res.note('part_members')
    res.sample({'schema': text, 'table': {'.'.join(k[1:]): v[0] for k, v in want.items()}, 'sizeof': size})


def worker(task, seed, workdir, pch):
    res = Result()
    pyrt.setup()
    gen_ = workload.schemas(task, seed) if task[0] != 'hot' else [b[0] for b in workload.cpp_batches(task, seed)]
    for n, sch in enumerate(gen_):
        types = sch.composites
        if task[0] in ('pairs', 'sandwich', 'tuples'):
            types = [s for s in sch.structs if s.name.startswith('Z')]
            sch = workload.prune(sch, types)
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            tab = cpprt.build_raw_table(text, types, d, extra=pch)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            blame(res, types, d, pch, str(e))
            continue
        for t in types:
            judge(res, t, tab)
    return res


def blame(res, types, d, pch, err):
    """The table program did not compile: find a type to blame."""
    for i, t in enumerate(types[-12:]):
        try:
            tab = cpprt.build_raw_table(S.minimal_text(t), [t], os.path.join(d, 'b%d' % i), extra=pch)
            judge(res, t, tab)
        except cpprt.CompileError as e:
            res.violation('compile', 'raw header of %s does not expose the wire members: %s (schema: %s)' % (
                t.name, str(e)[:600], S.minimal_text(t)), schema=S.minimal_text(t))
            return
        except pyrt.CompileFailed:
            pass
    res.violation('compile', 'raw header does not expose the wire members: %s' % err[:800], schema=S.render(types))


def main(tier=None):
    c = Check('C08', 'case = one member of one struct / part / union of a generated raw header, its offset, width and extent '
              'as evaluated by g++; distinct by type text + member', tier=tier,
              assumptions=['g++ x86-64 ABI', 'part and member naming (partN, has_x, num_of_x, discriminator) as generated'])
    pch = cpprt.build_pch(c.work, ['-std=c++11', '-O0', '-g0', '-Wno-invalid-offsetof'])
    if c.quick:
        tasks = [('hot', i) for i in range(3)] + [('pairs', i, 48, 1000) for i in range(48)]
        tasks += [('sandwich', i, 8, 1000) for i in range(8)]
        tasks += [('tuples', i, 200, 4, 200) for i in range(8)] + [('random', i, 2, 40) for i in range(16)]
    else:
        tasks = [('hot', i) for i in range(3)] + [('pairs', i, 48, 1000) for i in range(48)]
        tasks += [('sandwich', i, 8, 1000) for i in range(8)]
        tasks += [('tuples', i, 1000, 4, 200) for i in range(32)] + [('tuples', 100 + i, 600, 6, 200) for i in range(16)]
        tasks += [('random', i, 12, 40) for i in range(48)]
    tasks += [('remote', i, c.scale(1, 8), 30) for i in range(8)]
    c.run(worker, [(t, c.seed, c.work, pch) for t in tasks], timeout=800, mem=None)
    c.require('members', 2000)
    c.require('part_members', 200)
    c.require('sizeof', 200)
    return c.finish(2000)
