"""C14: constant expressions denote one integer, the same in every back-end."""
import os
import subprocess
from lib import cpprt, exprs, isar, pyrt, schema as S
from lib.report import Check, Result, derive, digest

LO, HI = -(1 << 63), (1 << 64) - 1

EDGES32 = (0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)
EDGES = EDGES32 + (-1, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, HI, LO, LO + 1)


class Defs(object):
    """One file's worth of definitions: (kind, ...) rows with the expected integers."""

    def __init__(self, rng, tag, n, names=(), is_isar=False):
        e = exprs.Exprs(rng, ('dec', 'hex') if is_isar else ('dec', 'hex', 'oct'), is_isar)
        e.names = list(names)
        self.defs, self.rows, self.own, self.ops = [], [], [], e.ops

        def name(kind):
            return '%s%s%d' % (kind, tag, len(self.rows))

        def declare(n_, v):
            e.names.append((n_, v))
            self.own.append((n_, v))
        for _ in range(n):
            x = rng.random()
            if x < 0.6:
                text, v = e.expr(LO, HI) if rng.random() < 0.9 else e.exact(rng.choice(EDGES))
                nm = name('K')
                self.defs.append(S.Const(nm, v, text))
                self.rows.append(('const', nm, v, text))
                declare(nm, v)
            elif x < 0.75:
                nm, members, texts = name('E'), [], {}
                pending = []
                for k in range(rng.randint(1, 4)):
                    text, v = e.expr(-5 if is_isar else 0, (1 << 32) - 1) if rng.random() < 0.8 else e.exact(rng.choice(EDGES32))
                    v &= 0xffffffff
                    if v in [m[1] for m in members]:
                        continue
                    m = '%s_%d' % (nm, k)
                    members.append((m, v))
                    texts[m] = text
                    if is_isar:
                        pending.append((m, v))
                    else:
                        declare(m, v)       # the next enumerator may use it
                for m, v in pending:
                    declare(m, v)
                self.defs.append(S.Enum(nm, members, texts))
                self.rows.append(('enum', nm, members, texts))
            elif x < 0.9:
                nm, fields = name('T'), []
                for k in range(rng.randint(1, 3)):
                    text, v = e.expr(1, 3000, rng.randint(0, 2), functions=False)
                    if is_isar and rng.random() < 0.2:
                        (t1, v1), (t2, v2) = [e.expr(1, 40, rng.randint(0, 2), functions=False) for _ in range(2)]
                        fields.append(S.Field('f%d' % k, 'u16', 'fixed', v1 * v2, size_text='(%s) * (%s)' % (t1, t2)))
                        fields[-1].size_parts = (t1, t2)
                        e.ops.add('two_dimensions')
                        continue
                    fields.append(S.Field('f%d' % k, rng.choice(('u8', 'u16', 'u64')), rng.choice(('fixed', 'limited')), v, size_text=text))
                self.defs.append(S.Struct(nm, fields))
                self.rows.append(('struct', nm, fields))
            else:
                nm, arms, seen = name('U'), [], set()
                for k in range(rng.randint(1, 4)):
                    text, v = e.expr(0, (1 << 32) - 1, functions=False) if rng.random() < 0.8 else e.exact(rng.choice(EDGES32))
                    if v not in seen:
                        seen.add(v)
                        arms.append(S.Arm('a%d' % k, 'u16', v, text))
                self.defs.append(S.Union(nm, arms))
                self.rows.append(('union', nm, arms))


def describe(row):
    if row[0] == 'const':
        return 'const %s = %s' % (row[1], row[3])
    if row[0] == 'enum':
        return 'enum %s { %s }' % (row[1], ', '.join('%s = %s' % (n, row[3][n]) for n, _ in row[2]))
    if row[0] == 'struct':
        return 'struct %s { %s }' % (row[1], ' '.join(map(S.render_field, row[2])))
    return 'union %s { %s }' % (row[1], ' '.join('%s: u16 %s;' % (a.disc_text, a.name) for a in row[2]))


def expectation(row, composite):
    """{label: integer} every back-end has to show for the row."""
    if row[0] == 'const':
        return {row[1]: row[2]}
    if row[0] == 'enum':
        return dict(row[2])
    if row[0] == 'struct':
        from lib import oracle
        out = {row[1] + '.size': oracle.layout(composite).size}
        for f in row[2]:
            out['%s.%s' % (row[1], f.name)] = f.size
        return out
    return {'%s.%s' % (row[1], a.name): a.disc for a in row[2]}


def observe_python(mod, row, composite):
    out = {}
    if row[0] == 'const':
        v = getattr(mod, row[1])
        if type(v) is not int:
            raise TypeError('%s is %r' % (row[1], v))
        out[row[1]] = v
    elif row[0] == 'enum':
        for n, v in row[2]:
            out[n] = getattr(mod, n)
            if int(getattr(mod, row[1])._check(n)) != out[n]:
                raise ValueError('enumerator %s is %r in its enum, %r in the module' % (n, getattr(mod, row[1])._check(n), out[n]))
    elif row[0] == 'struct':
        m = getattr(mod, row[1])()
        out[row[1] + '.size'] = len(m.encode('<'))
        for f in row[2]:
            a = getattr(m, f.name)
            if f.shape == 'fixed':
                n = len(a)
            else:
                a[:] = [1] * f.size
                n = len(a)
                try:
                    a.append(1)
                    n = len(a)
                except Exception:
                    pass
                del a[:]
            out['%s.%s' % (row[1], f.name)] = n
    else:
        m = getattr(mod, row[1])()
        for a in row[2]:
            m.discriminator = a.name
            b = m.encode('<')
            out['%s.%s' % (row[1], a.name)] = int.from_bytes(b[:4], 'little')
    return out


FULL_HEAD = '''#include "%s.ppf.cpp"
#include <cstdio>
#include <string>
using namespace prophy::generated;
static void P(const char* n, long long v) { printf("%%s %%lld\\n", n, v); }
static void P(const char* n, unsigned long long v) { printf("%%s %%llu\\n", n, v); }
static void P(const char* n, long v) { P(n, (long long)v); }
static void P(const char* n, unsigned long v) { P(n, (unsigned long long)v); }
static void P(const char* n, int v) { P(n, (long long)v); }
static void P(const char* n, unsigned v) { P(n, (unsigned long long)v); }
static unsigned U32(const std::vector<uint8_t>& b, size_t i) { return b[i] | b[i + 1] << 8 | b[i + 2] << 16 | unsigned(b[i + 3]) << 24; }
int main() {
'''
RAW_HEAD = FULL_HEAD.replace('.ppf.cpp', '.pp.cpp').replace('using namespace prophy::generated;', '').replace(
    'static unsigned U32(const std::vector<uint8_t>& b, size_t i) { return b[i] | b[i + 1] << 8 | b[i + 2] << 16 | unsigned(b[i + 3]) << 24; }', '')


def full_source(stem, rows, composites):
    from lib import oracle
    out = [FULL_HEAD % stem]
    for row in rows:
        if row[0] == 'const':
            out.append('P("%s", +%s);' % (row[1], row[1]))
        elif row[0] == 'enum':
            out += ['P("%s", unsigned(%s));' % (n, n) for n, _ in row[2]]
        elif row[0] == 'struct':
            t = composites[row[1]]
            out.append('{ %s x; P("%s.size", x.encode<prophy::little>().size());' % (row[1], row[1]))
            out.append('if (size_t(%s::encoded_byte_size) != x.get_byte_size()) P("%s.size", 0);' % (row[1], row[1]))
            for f in row[2]:
                lab = '%s.%s' % (row[1], f.name)
                if f.shape == 'fixed':
                    out.append('P("%s", x.%s.size());' % (lab, f.name))
                else:
                    off = [m.offset for m in oracle.layout(t).members if m.role == 'counter' and m.field is f][0]
                    out.append('x.%s.resize(5000); P("%s", U32(x.encode<prophy::little>(), %d)); x.%s.clear();' % (f.name, lab, off, f.name))
            out.append('}')
        else:
            for a in row[2]:
                out.append('{ %s x; x.discriminator = %s::discriminator_%s; P("%s.%s", U32(x.encode<prophy::little>(), 0)); }' % (
                    row[1], row[1], a.name, row[1], a.name))
    return '\n'.join(out) + '\nreturn 0; }\n'


def raw_source(stem, rows):
    out = [RAW_HEAD % stem]
    for row in rows:
        if row[0] == 'const':
            out.append('P("%s", +%s);' % (row[1], row[1]))
        elif row[0] == 'enum':
            out += ['P("%s", unsigned(%s));' % (n, n) for n, _ in row[2]]
        elif row[0] == 'struct':
            out.append('{ %s x; (void)x; P("%s.size", sizeof(x));' % (row[1], row[1]))
            for f in row[2]:
                out.append('P("%s.%s", sizeof(x.%s) / sizeof(x.%s[0]));' % (row[1], f.name, f.name, f.name))
            out.append('}')
        else:
            out += ['P("%s.%s", unsigned(%s::discriminator_%s));' % (row[1], a.name, row[1], a.name) for a in row[2]]
    return '\n'.join(out) + '\nreturn 0; }\n'


def run_cpp(src, path):
    pyrt.write(path, src)
    exe = path[:-4]
    cpprt.compile_cpp(path, exe, ['-std=c++11', '-O0', '-g0', '-w'])
    p = subprocess.run([exe], capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise cpprt.CompileError('program failed: %s' % p.returncode)
    out = {}
    for line in p.stdout.split('\n'):
        if line:
            k, v = line.split(' ')
            out[k] = int(v)
    return out


def model_view(nodes, rows):
    """What the compiler itself computed, where it publishes it on its nodes."""
    out = {}
    by = {getattr(n, 'name', None): n for n in nodes}
    for row in rows:
        if row[0] == 'struct' and row[1] in by:
            n = by[row[1]]
            out[row[1] + '.size'] = n.byte_size
            for m in n.members:
                if m.numeric_size is not None:
                    out['%s.%s' % (row[1], m.name)] = m.numeric_size
    return out


def worker(kind, idx, seed, workdir, n, with_cpp):
    res = Result()
    _, prophyc = pyrt.setup()
    rng = derive(seed, 'c14', kind, idx)
    is_isar = kind == 'isar'
    d = os.path.join(workdir, '%s_%d' % (kind, idx))
    split = rng.random() < 0.6
    files = []
    first = Defs(rng, 'a', n // 2 if split else n, is_isar=is_isar)
    files.append(('fa', first, ()))
    if split:
        files.append(('fb', Defs(rng, 'b', n - n // 2, first.own, is_isar), ('fa',)))
    ext = '.xml' if is_isar else '.prophy'
    texts, paths = {}, []
    for stem, ds, inc in files:
        if is_isar:
            xml, _ = isar.render(ds.defs, rng, patch=False, includes=[i + ext for i in inc])
            texts[stem] = xml
        else:
            texts[stem] = ''.join('#include "%s%s"\n' % (i, ext) for i in inc) + S.render(S.Schema(ds.defs))
        paths.append(pyrt.write(os.path.join(d, stem + ext), texts[stem]))
    args = (['--isar'] if is_isar else []) + ['--python_out', d] + (['--cpp_out', d, '--cpp_full_out', d] if with_cpp else [])
    try:
        e, err, nodes = pyrt.prophyc_nodes(args + paths)
    except SystemExit:
        raise
    if e is not None:
        res.violation('rejected', '%s expressions refused: %s: %s' % (kind, type(e).__name__, str(e)[:600]), files=texts)
        return res
    views = []
    try:
        mods = pyrt.import_generated(d, *[f[0] for f in files])
    except Exception as ex:
        res.violation('import', 'generated module does not import: %s: %s' % (type(ex).__name__, ex), files=texts)
        return res
    for (stem, ds, _), mod in zip(files, mods):
        composites = {x.name: x for x in ds.defs}
        want = {}
        for row in ds.rows:
            want[row[1]] = expectation(row, composites.get(row[1]))
        got = {'python': {}, 'model': model_view(nodes.get(stem, []), ds.rows)}
        for row in ds.rows:
            try:
                got['python'].update(observe_python(mod, row, composites.get(row[1])))
            except Exception as ex:
                res.violation('python', '%s: %s: %s (%s)' % (describe(row), type(ex).__name__, ex, kind), files=texts)
                return res
        if with_cpp:
            for back, src in (('cpp_full', full_source(stem, ds.rows, composites)), ('cpp_raw', raw_source(stem, ds.rows))):
                try:
                    got[back] = run_cpp(src, os.path.join(d, '%s_%s.cpp' % (stem, back)))
                except cpprt.CompileError as ex:
                    res.violation('compile', 'generated %s sources do not compile: %s' % (back, str(ex)[:700]), files=texts)
                    return res
        for row in ds.rows:
            res.observe(digest(describe(row), kind), trivial=False)
            res.note(row[0])
            if split and stem == 'fb':
                res.note('in_including_file')
            for label, v in want[row[1]].items():
                for back, g in sorted(got.items()):
                    if back == 'model' and label not in g:
                        continue
                    res.note('compared_' + back)
                    if g.get(label) != v:
                        res.violation(back, '%s (%s syntax): %s is %r in %s, the expression denotes %d' % (
                            describe(row)[:700], kind, label, g.get(label), back, v), files=texts)
        for o in ds.ops:
            res.note('op:' + o)
        res.sample({'kind': kind, 'definitions': [describe(r)[:200] for r in ds.rows[:3]]})
    return res


def evaluators(seed, idx, n):
    """The model-time evaluator read directly on expressions both evaluators can read."""
    res = Result()
    pyrt.setup()
    from prophyc import calc
    rng = derive(seed, 'c14calc', idx)
    for _ in range(n):
        e = exprs.Exprs(rng, ('dec', 'hex'))
        e.names = [('A', rng.randint(0, 100)), ('B_1', rng.randint(-50, 1 << 20)), ('c', 3)]
        text, v = e.expr(-(1 << 69), 1 << 69)
        env = dict(e.names)
        try:
            got = calc.eval(text, env)
        except Exception as ex:
            got = '%s: %s' % (type(ex).__name__, ex)
        res.observe(digest(text, v))
        res.note('model_evaluator')
        if got != v or isinstance(got, float):
            res.violation('evaluator', 'model-time value of %r with %r is %r, denotes %d' % (text, env, got, v), text=text)
    return res


def main(tier=None):
    c = Check('C14', 'case = one definition whose expressions are random trees over literals (decimal, octal, hexadecimal), '
              'operators and earlier names, also across an include; distinct by text and front-end', tier=tier,
              assumptions=['values of constants fit 64 bits', 'no octal literals in isar', 'operands of / are non-negative'])
    tasks = [(k, i, c.seed, c.work, 70, True) for k in ('prophy', 'isar') for i in range(c.scale(12, 60))]
    tasks += [(k, 1000 + i, c.seed, c.work, 900, False) for k in ('prophy', 'isar') for i in range(c.scale(4, 16))]
    c.run(worker, tasks, mem=None)
    c.run(evaluators, [(c.seed, i, c.scale(3000, 12000)) for i in range(8)])
    for k, n in (('compared_python', 1000), ('compared_cpp_full', 500), ('compared_cpp_raw', 500), ('model_evaluator', 1000),
                 ('in_including_file', 100)):
        c.require(k, n)
    return c.finish(1000)
