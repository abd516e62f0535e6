"""C16: multi-file schemas with includes equal their single-file concatenation."""
import os
import re
import shutil
import subprocess
import sys
from lib import cpprt, gen, isar, oracle, project, pyrt, schema as S
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

HOST = '<' if sys.byteorder == 'little' else '>'
LOCATED = re.compile(r'([^\n:]+)\.prophy:\d+:\d+: error: \S')


class Tree(object):
    """A schema split into files that lie in some directories and find each other."""

    def __init__(self, rng, kind, nstructs):
        self.rng, self.kind = rng, kind
        self.ext = '.xml' if kind == 'isar' else '.prophy'
        r = rng
        self.schema = gen.random_schema(r, nstructs, gen.Opts(share_sizer=False, dup_enum_values=kind == 'prophy' and r.random() < 0.2))
        constant_texts(self.schema, r, kind)
        self.files = project.split(self.schema.defs, r, r.randint(2, 6), r.choice(('needed', 'more', 'scatter', 'scatter')))
        dirs = r.choice((('',), ('', 'sub'), ('a', 'b'), ('src', 'lib', 'lib/deep'), ('', 'x', 'x/y', 'z')))
        for f in self.files:
            f.dir = r.choice(dirs)
        self.idirs = [d for d in dirs if r.random() < 0.6]
        r.shuffle(self.idirs)
        self.texts, self.rules, self.spelled = {}, [], []
        for f in self.files:
            inc = [self.spell(f, g) for g in f.includes]
            if inc and r.random() < 0.2 and kind == 'prophy':
                inc.append(r.choice(inc))         # the same file twice
            if kind == 'isar':
                defs = list(f.defs)
                r.shuffle(defs)
                text, patch = isar.render(defs, r, includes=inc)
                self.rules.append(patch)
            else:
                text = ''.join('#include "%s"\n' % i for i in inc) + S.render(f.defs)
            self.texts[os.path.join(f.dir, f.stem + self.ext)] = text

    def spell(self, f, g):
        """One of the ways file f may name file g."""
        name = os.path.join(g.dir, g.stem + self.ext)
        ways = [os.path.relpath(name, f.dir or '.')]
        for i in self.idirs:
            ways.append(os.path.relpath(name, i or '.'))
        w = self.rng.choice(ways)
        self.spelled.append((f, w))
        if self.rng.random() < 0.15:
            w = './' + w
        return w

    def decoys(self, cwd):
        """Other files of included names where the search comes later or never: next to a file the including one must not
        be mistaken for, in the working directory."""
        found = {}
        for f, way in self.spelled:
            order = [f.dir] + self.idirs
            hit = [i for i, x in enumerate(order) if os.path.normpath(os.path.join(x, way)) in self.names()]
            late = [os.path.normpath(os.path.join(x, way)) for x in order[hit[0] + 1:] + [cwd]]
            found.update((x, None) for x in late if not x.startswith('..'))
        taken = self.names()
        for f, way in self.spelled:       # nothing may come before the file that is meant
            for x in [f.dir] + self.idirs:
                n = os.path.normpath(os.path.join(x, way))
                if n in taken:
                    break
                found.pop(n, None)
        return [x for x in found if x not in taken]

    def names(self):
        return set(os.path.normpath(os.path.join(f.dir, f.stem + self.ext)) for f in self.files)

    def write_decoys(self, root, cwd):
        cwd = os.path.relpath(cwd, root)
        for x in self.decoys(cwd):
            if self.rng.random() < 0.7:
                pyrt.write(os.path.join(root, x), 'not a schema')

    def write(self, root):
        for n, t in self.texts.items():
            pyrt.write(os.path.join(root, n), t)
        for i in self.idirs:
            os.makedirs(os.path.join(root, i), exist_ok=True)
        if any(self.rules):
            pyrt.write(os.path.join(root, 'all.patch'), ''.join(self.rules))

    def args(self, root, cwd, out, outs, files):
        r = self.rng
        absolute = r.random() < 0.4

        def p(x):
            x = os.path.join(root, x) if x else root
            return x if absolute else os.path.relpath(x, cwd)
        a = ['--isar'] if self.kind == 'isar' else []
        for i in self.idirs:
            a += ['-I', p(i) + r.choice(('', '', '/'))]
        if any(self.rules):
            a += ['--patch', p('all.patch')]
        for o in outs:
            a += [o, out]
        return a + [p(os.path.join(f.dir, f.stem + self.ext)) for f in files]


def constant_texts(sch, rng, kind):
    """Let later definitions lean on earlier constants and enumerators."""
    values = []
    for d in sch.defs:
        if isinstance(d, S.Const):
            if values and rng.random() < 0.5:
                n, v = rng.choice(values)
                if v <= d.value:
                    d.text = '%s + %d' % (n, d.value - v)
            values.append((d.name, d.value))
        elif isinstance(d, S.Enum):
            for n, v in d.members:
                small = [x for x in values if 0 <= x[1] <= v]
                if small and rng.random() < 0.3 and (kind == 'prophy' or not any(m == x[0] for x in small for m, _ in d.members)):
                    x = rng.choice(small)
                    d.texts[n] = '%s + %d' % (x[0], v - x[1])
                if kind == 'prophy':
                    values.append((n, v))
            if kind != 'prophy':
                values += d.members
        elif isinstance(d, S.Struct):
            for f in d.fields:
                if f.size is not None and rng.random() < 0.5:
                    small = [x for x in values if 0 < x[1] <= f.size]
                    if small:
                        x = rng.choice(small)
                        f.size_text = x[0] if x[1] == f.size else '%s + %d' % (x[0], f.size - x[1])
        elif isinstance(d, S.Union):
            for a in d.arms:
                small = [x for x in values if 0 <= x[1] <= a.disc]
                if small and rng.random() < 0.4:
                    x = rng.choice(small)
                    a.disc_text = '%s + %d' % (x[0], a.disc - x[1])


def run_main(args, cwd):
    old = os.getcwd()
    os.chdir(cwd)
    try:
        with cpu_limit(120):
            return pyrt.prophyc_nodes(args)
    except Hang:
        return Hang(), '', {}
    finally:
        os.chdir(old)


def compile_tree(res, t, d, outs, base):
    """Compile the files in one of the possible ways; returns (output directory, nodes) or None."""
    r = t.rng
    root = os.path.join(d, 'root')
    out = os.path.join(d, 'out')
    os.makedirs(out, exist_ok=True)
    t.write(root)
    cwds = [root, d, '/'] + [os.path.join(root, i) for i in t.idirs]
    cwd = r.choice(cwds)
    if r.random() < 0.4:
        t.write_decoys(root, cwd)
        res.note('decoys')
    files = list(t.files)
    r.shuffle(files)
    if r.random() < 0.5:
        runs = [files]
    elif r.random() < 0.5:
        runs = [[f] for f in files]
    else:
        k = r.randint(1, len(files))
        runs = [x for x in (files[:k], files[k:]) if x]
    nodes = {}
    for fs in runs:
        args = t.args(root, cwd, out, outs, fs)
        OPENED.clear()
        e, err, n = run_main(args, cwd)
        res.note('compilations')
        if isinstance(e, Hang):
            res.violation('hang', 'prophyc does not finish: %s' % args, files=t.texts)
            return None
        if e is not None:
            res.violation('rejected', '%s files of a valid schema are answered by %s: %s (cwd %s, prophyc %s)' % (
                t.kind, type(e).__name__, e, cwd, args), files=t.texts)
            return None
        if 'warning' in err:
            res.violation('warning', '%s files of a valid schema are answered by %s (cwd %s, prophyc %s)' % (t.kind, err[:300], cwd, args), files=t.texts)
        if sorted(n) != sorted(f.stem for f in fs):
            res.violation('outputs', 'inputs %s give outputs for %s' % ([f.stem for f in fs], sorted(n)), files=t.texts)
        processed_once(res, base, t.texts)
        nodes.update(n)
    return out, nodes


def by_python(idx, kind, seed, workdir, n):
    res = Result()
    pyrt.setup()
    watch_opens()
    base = once(os.path.join(workdir, 'lone_%s%d' % (kind, idx)), kind)
    for k in range(n):
        rng = derive(seed, 'c16', kind, idx, k)
        t = Tree(rng, kind, rng.randint(2, 14))
        d = os.path.join(workdir, '%s_%d_%d' % (kind, idx, k))
        res.observe(digest(*t.texts.values()))
        res.note('trees_' + kind)
        res.sample({'kind': kind, 'files': {f: x[:200] for f, x in t.texts.items()}}, 1)
        got = compile_tree(res, t, d, ['--python_out'], base)
        if got is None:
            if res.notes.get('violation:hang'):
                return res
            continue
        out, nodes = got
        pkg = pyrt.fresh_package(out)
        stems = [f.stem for f in t.files]
        rng.shuffle(stems)
        try:
            import importlib
            mods = {s: importlib.import_module(pkg + '.' + s) for s in stems}
        except Exception as e:
            res.violation('import', '%s files: generated modules do not import: %s: %s' % (kind, type(e).__name__, e), files=t.texts)
            continue
        for f in t.files:
            check_module(res, t, f, mods[f.stem], nodes.get(f.stem, []))
        single(res, t, d, mods)
        shutil.rmtree(d, ignore_errors=True)
    return res


def check_module(res, t, f, mod, nodes):
    own = [n.name for n in nodes if type(n).__name__ != 'Include']
    if sorted(own) != sorted(x.name for x in f.defs):
        res.violation('definitions', '%s defines %s instead of %s' % (f.stem, own, [x.name for x in f.defs]), files=t.texts)
        return
    index = {n.name: n for n in nodes}
    for x in f.defs:
        if not hasattr(mod, x.name):
            res.violation('missing', 'module %s has no %s' % (f.stem, x.name), files=t.texts)
            continue
        res.note('definitions')
        if isinstance(x, S.Const):
            if getattr(mod, x.name) != x.value:
                res.violation('constant', '%s.%s is %r, not %d' % (f.stem, x.name, getattr(mod, x.name), x.value), files=t.texts)
        elif isinstance(x, S.Enum):
            for n, v in x.members:
                if getattr(mod, n) != v:
                    res.violation('constant', '%s.%s is %r, not %d' % (f.stem, n, getattr(mod, n), v), files=t.texts)
        elif isinstance(x, (S.Struct, S.Union)):
            lay = oracle.layout(x)
            node = index[x.name]
            if (node.alignment, node.kind) != (lay.align, lay.kind) or lay.kind == S.FIXED and node.byte_size != lay.size:
                res.violation('layout', '%s.%s has size/alignment/kind %r, not %r' % (
                    f.stem, x.name, (node.byte_size, node.alignment, node.kind), (lay.size, lay.align, lay.kind)), files=t.texts)
            for mode in ('min', 'max', 'random'):
                v = gen.ValueGen(t.rng, mode).value(x)
                m = getattr(mod, x.name)()
                try:
                    pyrt.assign(m, x, v)
                    enc = {o: m.encode(o) for o in '<>'}
                except Exception as e:
                    res.violation('encode', '%s.%s cannot be encoded: %s: %s' % (f.stem, x.name, type(e).__name__, e), files=t.texts)
                    break
                if any(enc[o] != oracle.encode(x, v, o) for o in '<>'):
                    res.violation('encoding', '%s.%s is encoded as %s, not %s' % (
                        f.stem, x.name, enc['<'].hex(), oracle.encode(x, v, '<').hex()), files=t.texts)
                    break
                res.note('encodings')
    # names of included files are at hand in the including module
    for g in f.includes:
        for x in g.defs:
            if not hasattr(mod, x.name):
                res.violation('not-imported', 'module %s includes %s but has no %s' % (f.stem, g.stem, x.name), files=t.texts)
                return


def single(res, t, d, mods):
    """The same definitions in one file."""
    sd = os.path.join(d, 'single')
    if t.kind == 'isar':
        text, patch = isar.render(t.schema.defs, t.rng)
        mode = ['--isar']
        if patch:
            mode += ['--patch', pyrt.write(os.path.join(sd, 'one.patch'), patch)]
        ext = '.xml'
    else:
        text, mode, ext = S.render(t.schema), [], '.prophy'
    try:
        one = pyrt.compile_python(text, sd, 'one', mode, ext)
    except pyrt.CompileFailed as e:
        res.violation('single', 'the concatenation is rejected: %s' % e, files=dict(t.texts, one=text))
        return
    for f in t.files:
        for x in f.defs:
            if isinstance(x, (S.Struct, S.Union)):
                v = gen.align_greedy(t.rng, x, gen.ValueGen(t.rng).value(x))
                if v is None:
                    continue
                a, b = getattr(one, x.name)(), getattr(mods[f.stem], x.name)()
                pyrt.assign(a, x, v)
                data = a.encode('>')
                try:
                    pyrt.assign(b, x, v)
                    other = b.encode('>')
                    same = other == data and str(a) == str(b)
                    back = getattr(mods[f.stem], x.name)()
                    back.decode(data, '>')
                except Exception as e:
                    res.violation('single', '%s of the split schema fails where the single file works: %s: %s' % (
                        x.name, type(e).__name__, e), files=t.texts)
                    return
                if not same:
                    res.violation('single', '%s is encoded as %s by the split schema, as %s by the single file' % (
                        x.name, other.hex(), data.hex()), files=t.texts)
                    return
                res.note('single')


def by_cpp(idx, kind, seed, workdir, pch, n):
    res = Result()
    pyrt.setup()
    watch_opens()
    base = once(os.path.join(workdir, 'lonec_%s%d' % (kind, idx)), kind)
    for k in range(n):
        rng = derive(seed, 'c16c', kind, idx, k)
        t = Tree(rng, kind, rng.randint(2, 7))
        d = os.path.join(workdir, 'cpp_%s_%d_%d' % (kind, idx, k))
        res.observe(digest('cpp', *t.texts.values()))
        got = compile_tree(res, t, d, ['--cpp_out', '--cpp_full_out'], base)
        if got is None:
            continue
        out, _ = got
        types = t.schema.composites
        stems = [f.stem for f in t.files]
        rng.shuffle(stems)
        try:
            full(res, t, out, stems, types, pch)
            raw(res, t, d, out, stems, types)
        except cpprt.CompileError as e:
            res.violation('compile', 'sources generated from %s files do not compile: %s' % (kind, str(e)[:900]), files=t.texts)
        res.note('cpp_trees')
        shutil.rmtree(d, ignore_errors=True)
    return res


def full(res, t, out, stems, types, pch):
    src = ''.join('#include "%s.ppf.cpp"\n' % s for s in stems) + '#include "pv_full.hpp"\n' + '\n'.join(
        'template <> void pv_mutate<%s>::run(%s&, pv_rng&) {}' % (x.name, x.name) for x in types)
    src += '\nstatic const pv_entry table[] = {\n%s\n};\nint main(int argc, char** argv) { return pv_main(table, argc, argv); }\n' % (
        ',\n'.join('  {"%s", &pv_make<%s>}' % (x.name, x.name) for x in types))
    path = pyrt.write(os.path.join(out, 'drv.cpp'), src)
    exe = os.path.join(out, 'drv')
    cpprt.compile_cpp(path, exe, cpprt.flags(), pch)
    reqs, meta = [], []
    for i, x in enumerate(types):
        for mode in ('min', 'max', 'random', 'random'):
            v = gen.align_greedy(t.rng, x, gen.ValueGen(t.rng, mode).value(x))
            if v is not None:
                reqs.append((i, 'R', 'l', oracle.encode(x, v, '<')))
                meta.append((x, v))
    answers, crashes = cpprt.run_driver(exe, reqs, out)
    for c in crashes:
        res.violation('cpp-crash', 'C++ full codec from several files: %s %s' % (c.kind, c.detail[:500]), files=t.texts)
    for q, (x, v), a in zip(reqs, meta, answers):
        if a is None:
            continue
        want = oracle.encode(x, v, '>')
        if a.get('ok') != '1' or (b'' if a['b'] == '-' else bytes.fromhex(a['b'])) != want:
            res.violation('cpp-bytes', 'C++ full codec of %s from several files: %r on %s' % (x.name, a, q[3].hex()), files=t.texts)
        else:
            res.note('cpp_encodings')


def raw(res, t, d, out, stems, types):
    for s in stems:
        # each source stands on its own
        p = subprocess.run([cpprt.cxx(), '-std=c++11', '-fsyntax-only', '-I', cpprt.INC, '-I', out, os.path.join(out, s + '.pp.cpp')],
                           capture_output=True, text=True, timeout=600)
        if p.returncode:
            raise cpprt.CompileError(p.stderr[:3000])
    if t.kind == 'isar':
        return                # counters are named otherwise than in the single prophy file
    pyrt.write(os.path.join(out, 'all.pp.hpp'), ''.join('#include "%s.pp.hpp"\n' % s for s in stems))
    one = os.path.join(d, 'one')
    tables = []
    cpprt.generate(S.render(t.schema), one, 'all', ['--cpp_out'])
    for where in (out, one):
        path = pyrt.write(os.path.join(where, 'tab.cpp'), cpprt.raw_table_source(types, 'all'))
        exe = os.path.join(where, 'tab')
        cpprt.compile_cpp(path, exe, ['-std=c++11', '-O0', '-g0', '-Wno-invalid-offsetof'])
        tables.append(subprocess.run([exe], capture_output=True, text=True, timeout=300).stdout)
    if not tables[1]:
        raise cpprt.CompileError('empty table')
    if tables[0] != tables[1]:
        res.violation('raw-layout', 'raw layouts from several files differ from the single file', files=t.texts)
    else:
        res.note('raw_tables')


def errors(idx, seed, workdir, n):
    """Missing and cyclic includes are errors with a location."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c16e', idx)
    for k in range(n):
        kind = rng.choice(('prophy', 'prophy', 'isar'))
        ext = '.xml' if kind == 'isar' else '.prophy'
        what = rng.choice(('missing', 'cycle'))
        d = os.path.join(workdir, 'e%d_%d' % (idx, k))
        length = rng.randint(1, 4)
        dirs = rng.choice((('',), ('', 's'), ('p', 'q/r')))
        place = [os.path.join(rng.choice(dirs), 'f%d' % i) for i in range(length)]
        texts = {}
        for i in range(length):
            if i + 1 < length:
                nxt = place[i + 1] + ext
            elif what == 'missing':
                nxt = rng.choice(('nowhere' + ext, 'f0' + ext + 'x', 'sub/nowhere' + ext))
            else:
                nxt = place[rng.randint(0, length - 1)] + ext
            name = nxt if what == 'missing' and i + 1 == length else os.path.relpath(nxt, os.path.dirname(place[i]) or '.')
            if rng.random() < 0.2 and not (what == 'missing' and i + 1 == length):
                name = os.path.join('.', name)
            if kind == 'isar':
                texts[place[i] + ext] = '<x xmlns:xi="i">\n<xi:include href="%s"/>\n<struct name="S%d"><member name="a" type="u8"/></struct></x>\n' % (name, i)
            else:
                head = rng.choice(('', '\n', '// x\n', 'const K%d = 1;\n' % i))
                texts[place[i] + ext] = head + '#include "%s"\nstruct S%d { u8 a; };\n' % (name, i)
        for f, t in texts.items():
            pyrt.write(os.path.join(d, f), t)
        out = os.path.join(d, 'out')
        os.makedirs(out)
        args = ['--isar'] if kind == 'isar' else []
        for x in dirs:
            if rng.random() < 0.3:
                args += ['-I', os.path.join(d, x)]
                os.makedirs(os.path.join(d, x), exist_ok=True)
        e, err, _ = run_main(args + ['--python_out', out, os.path.join(d, place[0] + ext)], d)
        res.observe(digest(*texts.values()))
        res.note('%s_%s' % (what, kind))
        if isinstance(e, Hang):
            res.violation('hang', '%s include: prophyc does not finish' % what, files=texts)
            return res
        if e is None:
            known = kind == 'isar'
            res.violation('isar-include' if known else 'dropped', '%s include in %s input is dropped: %s' % (what, kind, err), files=texts)
            if known and 'warning' not in err:
                res.violation('silent', '%s include in isar input is dropped silently' % what, files=texts)
        elif type(e).__name__ != 'ProphycError':
            res.violation('exception', '%s include is answered by %s: %s' % (what, type(e).__name__, e), files=texts)
        elif kind == 'prophy':
            m = LOCATED.search(str(e))
            bad = os.path.basename(place[-1])
            if not m or os.path.basename(m.group(1)) != bad:
                res.violation('location', '%s include in %s is reported as %s' % (what, bad, e), files=texts)
    return res


OPENED = {}


def watch_opens():
    """Count openings of schema files in this process."""
    if watch_opens.__dict__.get('on'):
        return

    def hook(event, args):
        if event == 'open' and isinstance(args[0], str) and args[0].endswith(('.prophy', '.xml')):
            p = os.path.realpath(args[0])
            OPENED[p] = OPENED.get(p, 0) + 1
    sys.addaudithook(hook)
    watch_opens.on = True


def once(d, kind):
    """How often a file that includes nothing is opened when compiled alone."""
    text = '<x><struct name="A"><member name="a" type="u8"/></struct></x>' if kind == 'isar' else 'struct A { u8 a; };'
    path = pyrt.write(os.path.join(d, 'lone' + ('.xml' if kind == 'isar' else '.prophy')), text)
    OPENED.clear()
    run_main((['--isar'] if kind == 'isar' else []) + ['--python_out', d, path], d)
    return OPENED.get(os.path.realpath(path), 0)


def processed_once(res, base, files):
    """Every file was read as often as one that nobody includes."""
    if not base:
        res.inconclusive.append('opening of files was not observed')
        return
    for p, k in OPENED.items():
        if k > base:
            res.violation('processed-again', '%s is read %d times in one run' % (os.path.basename(p), k), files=files)
            return
    res.note('opens', sum(OPENED.values()))


class Namesakes(object):
    """Directories whose files have the same names: everyone includes the ones of their own directory."""

    def __init__(self, rng):
        r = self.rng = rng
        self.kind = r.choice(('prophy', 'prophy', 'isar'))
        self.ext = '.xml' if self.kind == 'isar' else '.prophy'
        self.top = r.random() < 0.5
        self.dirs = r.sample(('a', 'b', 'b/a', 'c', 'a/common', ''), r.randint(2, 4))
        self.texts, self.whole, self.mains = {}, {}, []
        leaf = r.choice(('common', 'types', 'same/leaf'))
        for i, d in enumerate(self.dirs):
            tag = '_%d' % i if self.top or r.random() < 0.3 else ''
            k, n = r.randint(1, 9), r.randint(1, 5)
            t = r.choice(('u8', 'u16', 'u32', 'u64'))
            defs = [[('const', 'K' + tag, str(k)), ('typedef', 'T' + tag, t)],
                    [('const', 'L' + tag, 'K%s + %d' % (tag, n)), ('struct', 'C' + tag, [('a', 'T' + tag, 'K' + tag), ('b', 'u8', None)])],
                    [('struct', 'M' + tag, [('a', 'C' + tag, None), ('b', 'T' + tag, 'L' + tag), ('c', 'u8', 'K' + tag)])]]
            main = 'main%d' % i
            deep = r.random() < 0.5
            if not deep:
                defs = [defs[0] + defs[1], defs[2]]
            names = [leaf, 'middle', main] if deep else [leaf, main]
            for j, (name, ds) in enumerate(zip(names, defs)):
                inc = [os.path.relpath(x + self.ext, os.path.dirname(name) or '.') for x in names[:j]]
                self.texts[os.path.normpath(os.path.join(d, name + self.ext))] = self.render(inc, ds)
            self.whole[main] = (self.render([], sum(defs, [])), ['C' + tag, 'M' + tag], 'M' + tag)
            self.mains.append(os.path.normpath(os.path.join(d, main + self.ext)))
        self.inputs = list(self.mains)
        r.shuffle(self.inputs)
        if self.top:
            ms = [('m%d' % i, self.whole['main%d' % i][2], None) for i in range(len(self.mains))]
            self.texts['top' + self.ext] = self.render(self.mains, [('struct', 'Top', ms)])
            self.inputs = r.choice((['top' + self.ext], ['top' + self.ext] + self.inputs, self.inputs + ['top' + self.ext]))
        self.idirs = [x for x in self.dirs if r.random() < 0.4]

    def render(self, inc, defs):
        out = []
        if self.kind == 'isar':
            out += ['<xi:include href="%s"/>' % x for x in inc]
            for d in defs:
                if d[0] == 'const':
                    out.append('<constant name="%s" value="%s"/>' % d[1:])
                elif d[0] == 'typedef':
                    out.append('<typedef name="%s" type="%s"/>' % d[1:])
                else:
                    out.append('<struct name="%s">%s</struct>' % (d[1], ''.join(
                        '<member name="%s" type="%s">%s</member>' % (n, t, '<dimension size="%s"/>' % s if s else '') for n, t, s in d[2])))
            return '<x xmlns:xi="i">\n%s\n</x>\n' % '\n'.join(out)
        out += ['#include "%s"' % x for x in inc]
        for d in defs:
            if d[0] == 'const':
                out.append('const %s = %s;' % d[1:])
            elif d[0] == 'typedef':
                out.append('typedef %s %s;' % (d[2], d[1]))
            else:
                out.append('struct %s { %s };' % (d[1], ' '.join('%s %s%s;' % (t, n, '[%s]' % s if s else '') for n, t, s in d[2])))
        return '\n'.join(out) + '\n'


def all_nodes(nodes, out=None):
    out = {} if out is None else out
    for n in nodes:
        if type(n).__name__ == 'Include':
            all_nodes(n.members, out)
        else:
            out[n.name] = n
    return out


def shape(n):
    return [n.byte_size, n.alignment, n.kind] + [(m.name, m.byte_size, m.alignment, m.numeric_size, m.padding) for m in n.members]


def namesakes(idx, seed, workdir, n):
    """Files of one name in several directories are not mistaken for each other."""
    res = Result()
    pyrt.setup()
    watch_opens()
    base = {k: once(os.path.join(workdir, 'lone_n%d' % idx), k) for k in ('prophy', 'isar')}
    for k in range(n):
        rng = derive(seed, 'c16n', idx, k)
        t = Namesakes(rng)
        d = os.path.join(workdir, 'n%d_%d' % (idx, k))
        for f, x in t.texts.items():
            pyrt.write(os.path.join(d, f), x)
        out = os.path.join(d, 'out')
        os.makedirs(out)
        mode = ['--isar'] if t.kind == 'isar' else []
        args = list(mode)
        for i in t.idirs:
            args += ['-I', os.path.join(d, i)]
        args += [rng.choice(('--python_out', '--cpp_full_out', '--cpp_out')), out]
        cwd = rng.choice([d, '/'] + [os.path.join(d, x) for x in t.dirs])
        files = dict(t.texts)
        OPENED.clear()
        e, err, nodes = run_main(args + [os.path.join(d, x) for x in t.inputs], cwd)
        res.observe(digest(*t.texts.values()))
        if e is not None or 'warning' in err:
            res.violation('namesakes', 'files of one name in several directories, inputs %s, -I %s, are answered by %s: %s %s' % (
                t.inputs, t.idirs, type(e).__name__, e, err[:200]), files=files)
            continue
        processed_once(res, base[t.kind], files)
        for main, (text, names, _) in t.whole.items():
            if main not in nodes:
                if 'top' not in nodes:
                    res.violation('outputs', 'no output for %s' % main, files=files)
                    continue
                got = all_nodes(nodes['top'])
            else:
                got = all_nodes(nodes[main])
            one = pyrt.write(os.path.join(d, 'one', main + t.ext), text)
            _, _, alone = run_main(mode + ['--python_out', out, one], d)
            want = all_nodes(alone.get(main, []))
            for x in names:
                if x not in got or x not in want or shape(got[x]) != shape(want[x]):
                    res.violation('namesakes', '%s of %s is laid out %s, not %s as in the single file' % (
                        x, main, shape(got[x]) if x in got else None, shape(want[x]) if x in want else None), files=files)
                    break
            else:
                res.note('namesakes')
        shutil.rmtree(d, ignore_errors=True)
    return res


def ladder(idx, seed, workdir, depth):
    """Two files per layer, each including both of the layer below: every file is processed once."""
    res = Result()
    pyrt.setup()
    watch_opens()
    for kind in ('prophy', 'isar'):
        d = os.path.join(workdir, 'ladder%d_%s' % (idx, kind))
        ext = '.xml' if kind == 'isar' else '.prophy'
        texts = {}
        for i in range(depth):
            for side in 'lr':
                inc = ['%s%d' % (s, i - 1) for s in 'lr'] if i else []
                if kind == 'isar':
                    body = ''.join('<xi:include href="%s.xml"/>\n' % x for x in inc)
                    body += '<struct name="S%s%d"><member name="a" type="%s"/></struct>' % (side, i, 'Sl%d' % (i - 1) if i else 'u8')
                    texts[side + str(i) + ext] = '<x xmlns:xi="i">\n%s\n</x>\n' % body
                else:
                    texts[side + str(i) + ext] = ''.join('#include "%s.prophy"\n' % x for x in inc) + 'struct S%s%d { %s a; };\n' % (
                        side, i, 'Sl%d' % (i - 1) if i else 'u8')
        for f, t in texts.items():
            pyrt.write(os.path.join(d, f), t)
        base = once(os.path.join(workdir, 'lone_l%d' % idx), kind)
        OPENED.clear()
        e, err, nodes = run_main((['--isar'] if kind == 'isar' else []) + ['--python_out', d] + [
            os.path.join(d, f) for f in sorted(texts)], d)
        res.observe(digest(*texts.values()))
        res.note('ladder')
        if e is not None:
            res.violation('ladder', 'ladder of %d layers of includes is answered by %s: %s' % (depth, type(e).__name__, e), files=texts)
            continue
        processed_once(res, base, texts)
        mod = pyrt.import_generated(d, 'l%d' % (depth - 1))[0]
        if getattr(mod, 'Sl%d' % (depth - 1))().encode('<') != b'\0':
            res.violation('ladder', 'ladder of includes encodes wrongly', files=texts)
    return res


def main(tier=None):
    c = Check('C16', 'case = one schema split over files in directories, compiled in one way (input order, working directory, -I), its '
              'modules imported and driven, its C++ compiled and driven; distinct by texts', tier=tier,
              assumptions=['file stems are identifiers and distinct: outputs are named after them'])
    pch = cpprt.build_pch(c.work, cpprt.flags())
    c.run(by_python, [(i, 'prophy', c.seed, c.work, c.scale(30, 250)) for i in range(16)])
    c.run(by_python, [(i, 'isar', c.seed, c.work, c.scale(30, 250)) for i in range(8)])
    c.run(by_cpp, [(i, 'prophy' if i % 3 else 'isar', c.seed, c.work, pch, c.scale(2, 14)) for i in range(c.scale(12, 16))], mem=None)
    c.run(errors, [(i, c.seed, c.work, c.scale(40, 200)) for i in range(4)])
    c.run(namesakes, [(i, c.seed, c.work, c.scale(60, 400)) for i in range(4)])
    c.run(ladder, [(0, c.seed, c.work, 9), (1, c.seed, c.work, 20)])
    for k, n in (('trees_prophy', 200), ('trees_isar', 100), ('encodings', 5000), ('single', 1000), ('cpp_encodings', 200),
                 ('raw_tables', 5), ('missing_prophy', 20), ('cycle_prophy', 20), ('cycle_isar', 10), ('missing_isar', 10), ('ladder', 2), ('namesakes', 300), ('opens', 1000)):
        c.require(k, n)
    return c.finish(300)
