"""C20: prophyc output is a deterministic function of its inputs."""
import json
import os
import shutil
import subprocess
import sys
from lib import gen, isar, project, pyrt, schema as S
from lib.report import Check, Result, REPO, ROOT, derive, digest

OUTS = (('--python_out', 'py'), ('--cpp_out', 'pp'), ('--cpp_full_out', 'ppf'), ('--prophy_out', 'schema'))

DRIVER = r'''
import io, json, os, sys, contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import prophyc
for job in json.load(open(sys.argv[2])):
    os.chdir(job['cwd'])
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            prophyc.main(job['args'])
        out = ['ok', '']
    except Exception as e:
        out = [type(e).__name__, str(e)]
    sys.stdout.write(json.dumps(out) + '\n')
'''


def run_jobs(jobs, hashseed, d, tag):
    """All the jobs in one process of their own."""
    path = pyrt.write(os.path.join(d, tag + '.json'), json.dumps(jobs))
    drv = pyrt.write(os.path.join(d, 'driver.py'), DRIVER)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    p = subprocess.run([sys.executable, drv, REPO, path], capture_output=True, text=True, env=env, timeout=900)
    lines = p.stdout.splitlines()
    if p.returncode or len(lines) != len(jobs):
        raise RuntimeError('driver failed: %s' % p.stderr[-1500:])
    return [json.loads(x) for x in lines]


def run_cli(job, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO)
    p = subprocess.run([sys.executable, '-m', 'prophyc'] + job['args'], capture_output=True, text=True, env=env, cwd=job['cwd'], timeout=600)
    return ['ok', ''] if p.returncode == 0 else ['exit %d' % p.returncode, p.stderr]


def snapshot(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


BROKEN = (
    ('b1.prophy', 'struct X { u8 a<2> \n /* '), ('b2.prophy', 'const A = 1 + ; struct Y { Z a; };'), ('b3.prophy', 'enum E { A = 1, A = 1 };'),
    ('b4.xml', '<x><constant name="A" value="1 + (2"/><struct name="S"><member name="a" type="u8"><dimension size="A * ("/></member></struct></x>'),
    ('b5.xml', '<x><struct name="S"><member name="a" type="S"/></struct></x>'), ('b6.prophy', '#include "b6.prophy"\n'),
)


class Project(object):
    """Files on disk under root; inputs relative to it."""

    def __init__(self, kind, rng):
        self.kind, self.rng = kind, rng
        self.mode, self.incdirs, self.files, self.inputs, self.patch, self.supp = [], [], {}, [], None, []
        getattr(self, kind)()

    def place(self, files, ext, write):
        """Spread over up to three directories; includes found through -I."""
        r = self.rng
        dirs = r.choice((('',), ('', 'lib'), ('src', 'lib', 'lib/deep')))
        if dirs != ('',):
            self.incdirs = [d or '.' for d in dirs]
        for f in files:
            f.dir = r.choice(dirs)
            self.files[os.path.join(f.dir, f.stem + ext)] = write(f, [g.stem + ext for g in f.includes])
            self.inputs.append(os.path.join(f.dir, f.stem + ext))

    def prophy(self):
        r = self.rng
        sch = gen.random_schema(r, r.randint(3, 14), gen.Opts(share_sizer=False, dup_enum_values=r.random() < 0.3))
        files = project.split(sch.defs, r, r.randint(1, 5), r.choice(('needed', 'more', 'scatter')))
        self.place(files, '.prophy', lambda f, inc: ''.join('#include "%s"\n' % i for i in inc) + S.render(f.defs))

    def isar(self):
        r = self.rng
        sch = gen.random_schema(r, r.randint(3, 14), gen.Opts(share_sizer=False))
        files = project.split(sch.defs, r, r.randint(1, 4), r.choice(('needed', 'more', 'scatter')))
        rules = []

        def write(f, inc):
            defs = list(f.defs)
            r.shuffle(defs)
            xml, patch = isar.render(defs, r, includes=inc)
            rules.append(patch)
            return xml
        self.mode = ['--isar']
        self.place(files, '.xml', write)
        if any(rules):
            self.patch = 'all.patch'
            self.files['all.patch'] = ''.join(rules)

    def sack(self):
        r = self.rng
        sch = gen.random_schema(r, r.randint(2, 6), gen.Opts(greedy=False, bytes=False, ext=False))
        self.files['supp.xml'], _ = isar.render(sch.defs, r, patch=False)
        self.mode, self.supp = ['--sack'], ['supp.xml']
        types = [d.name for d in sch.defs if isinstance(d, (S.Struct, S.Enum))]
        for stem in r.sample(('mix', 'other', 'third'), r.randint(1, 3)):
            body = ''
            for i in range(r.randint(1, 4)):
                fs = ''.join('    %s m%d;\n' % (r.choice(('int', 'unsigned char', 'double', r.choice(types))), j) for j in range(r.randint(1, 4)))
                body += 'struct %s_%d\n{\n%s};\n' % (stem, i, fs)
            self.files[stem + '.hpp'] = body
            self.inputs.append(stem + '.hpp')

    def write(self, root):
        for i in self.incdirs:
            os.makedirs(os.path.join(root, i), exist_ok=True)
        for f, t in self.files.items():
            pyrt.write(os.path.join(root, f), t)

    def job(self, root, out, cwd, inputs=None, outs=OUTS, absolute=False):
        def p(x):
            x = os.path.join(root, x)
            return x if absolute else os.path.relpath(x, cwd)
        args = list(self.mode)
        for i in self.incdirs:
            args += ['-I', p(i)]
        for s in self.supp:
            args += ['-S', p(s)]
        if self.patch:
            args += ['--patch', p(self.patch)]
        for o, sub in outs:
            os.makedirs(os.path.join(out, sub), exist_ok=True)
            args += [o, os.path.join(out, sub) if absolute else os.path.relpath(os.path.join(out, sub), cwd)]
        return {'cwd': cwd, 'args': args + [p(i) for i in (inputs or self.inputs)]}


def projects(idx, seed, workdir, n, hashseeds):
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c20', idx)
    d = os.path.join(workdir, 'p%d' % idx)
    plist = []
    sack_ok = idx == 0 and _sack()
    for k in range(n):
        kind = rng.choice(('prophy', 'prophy', 'isar')) if not (sack_ok and k % 4 == 0) else 'sack'
        p = Project(kind, derive(seed, 'c20p', idx, k))
        roots = [os.path.join(d, 'a%d' % k), os.path.join(d, 'elsewhere', 'much', 'deeper', 'b%d' % k)]
        for root in roots:
            p.write(root)
        plist.append((k, p, roots))
    base = {}
    for h, hs in enumerate(hashseeds):
        jobs, marks = [], []
        order = list(plist)
        if h:
            rng.shuffle(order)
        for k, p, roots in order:
            out = os.path.join(d, 'out%d_%d' % (h, k))
            root = roots[0] if h == 0 else rng.choice(roots)
            cwds = [root, d, ROOT] + [os.path.join(root, i) for i in p.incdirs]
            cwd = root if h == 0 else rng.choice(cwds)
            inputs = list(p.inputs)
            if h:
                rng.shuffle(inputs)
            absolute = bool(h) and rng.random() < 0.4
            if h and rng.random() < 0.3:
                # a compilation that fails leaves nothing behind
                name, text = rng.choice(BROKEN)
                src = pyrt.write(os.path.join(d, 'broken', name), text)
                os.makedirs(os.path.join(d, 'broken', 'out'), exist_ok=True)
                jobs.append({'cwd': d, 'args': ['--quiet', '--python_out', os.path.join(d, 'broken', 'out'), src] + (
                    ['--isar'] if name.endswith('.xml') else [])})
                marks.append(None)
            jobs.append(p.job(root, out, cwd, inputs, absolute=absolute))
            marks.append((k, p, out, 'hash seed %s, working directory %s, inputs %s' % (hs, cwd, inputs), None))
            if h == 1 or h and rng.random() < 0.3:
                # every input on its own: nothing else changes what it generates
                for i in p.inputs:
                    o1 = os.path.join(d, 'one%d_%d_%s' % (h, k, os.path.basename(i)))
                    jobs.append(p.job(root, o1, cwd, [i], absolute=absolute))
                    marks.append((k, p, o1, 'input %s alone, hash seed %s' % (i, hs), i))
            if h == 2:
                # again over what is already there
                jobs.append(p.job(root, out, cwd, inputs, absolute=absolute))
                marks.append((k, p, out, 'second run, hash seed %s' % hs, None))
            if h == 3:
                # one back-end at a time
                o1 = os.path.join(d, 'sep%d_%d' % (h, k))
                for o in rng.sample(OUTS, len(OUTS)):
                    jobs.append(p.job(root, o1, cwd, inputs, outs=(o,), absolute=absolute))
                    marks.append((k, p, None, 'only ' + o[0], None))
                marks[-1] = (k, p, o1, 'one back-end at a time', None)
        for mark, st in zip(marks, run_jobs(jobs, hs, d, 'jobs%d' % h)):
            if mark is None:
                res.note('broken_between')
                continue
            k, p, out, how, single = mark
            res.observe(digest(k, how, *p.files.values()))
            if st[0] != 'ok':
                res.violation('rejected', '%s: %s project is answered by %s: %s' % (how, p.kind, st[0], st[1][:500]), files=p.files)
                continue
            if out is None:
                continue
            snap = snapshot(out)
            res.note('runs')
            if k not in base:
                base[k] = snap
                res.note('files', len(snap))
                res.sample({'kind': p.kind, 'outputs': sorted(snap)[:12]})
                continue
            want = base[k]
            if single is not None:
                stem = os.path.splitext(os.path.basename(single))[0]
                mine = {f for f in want if os.path.basename(f).split('.')[0] == stem}
                extra = {os.path.splitext(s)[0] for s in p.supp}
                want = {f: want[f] for f in want if f in mine or os.path.basename(f).split('.')[0] in extra}
                res.note('alone')
            if sorted(snap) != sorted(want):
                res.violation('files', '%s: outputs %s instead of %s' % (how, sorted(snap), sorted(want)), files=p.files)
                continue
            for f in want:
                if snap[f] != want[f]:
                    res.violation('differs', '%s: %s differs from what the first run generated\n%s' % (how, f, diff(want[f], snap[f])), files=p.files)
                    break
            res.note('same' if len(want) else 'empty')
    # the command line itself
    for k, p, roots in plist[:2]:
        out = os.path.join(d, 'cli_%d' % k)
        st = run_cli(p.job(roots[1], out, d, absolute=rng.random() < 0.5), rng.randint(0, 4000000000))
        res.note('cli')
        if st[0] != 'ok':
            res.violation('rejected', 'python -m prophyc: %s: %s' % tuple(st), files=p.files)
        elif snapshot(out) != base.get(k):
            res.violation('differs', 'python -m prophyc generates something else than prophyc.main', files=p.files)
    shutil.rmtree(d, ignore_errors=True)
    return res


def _sack():
    from prophyc.parsers.sack import SackParser
    return bool(SackParser.check())


def diff(a, b):
    a, b = a.decode('utf-8', 'replace').splitlines(), b.decode('utf-8', 'replace').splitlines()
    for x, y in zip(a, b):
        if x != y:
            return '- %s\n+ %s' % (x, y)
    return '%d lines, %d lines' % (len(a), len(b))


def same_stem(idx, seed, workdir, n):
    """Independent inputs whose outputs have the same names: refused, or not depending on their order."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c20s', idx)
    for k in range(n):
        d = os.path.join(workdir, 's%d_%d' % (idx, k))
        files = {}
        for sub in ('one', 'two'):
            sch = gen.random_schema(rng, rng.randint(1, 3), gen.Opts(share_sizer=False))
            files[sub] = pyrt.write(os.path.join(d, sub, 'same.prophy'), S.render(sch))
        snaps, sts = [], []
        for o, order in enumerate((('one', 'two'), ('two', 'one'))):
            out = os.path.join(d, 'out%d' % o)
            os.makedirs(out)
            e, err = pyrt.prophyc_main(['--python_out', out] + [files[x] for x in order])
            sts.append(None if e is None else type(e).__name__)
            snaps.append(snapshot(out))
        res.observe(digest(*[open(f).read() for f in files.values()]))
        res.note('same_stem')
        if snaps[0] != snaps[1]:
            res.violation('same-stem', 'inputs one/same.prophy and two/same.prophy overwrite the outputs of each other: the order decides '
                          'what same.py holds', files={x: open(f).read() for x, f in files.items()})
        elif sts[0] not in (None, 'ProphycError'):
            res.violation('exception', 'inputs of the same name are answered by %s' % sts[0])
    return res


NAMES = ('K0', 'K1', 'K2', 'K3', 'K4')


class Islands(object):
    """Files that do not include each other and use the same names for different things."""

    def __init__(self, rng):
        r = self.rng = rng
        self.kind = r.choice(('prophy', 'prophy-twins', 'prophy-dirs', 'isar', 'isar', 'isar-twins', 'isar-dirs'))
        self.ext = '.prophy' if self.kind.startswith('prophy') else '.xml'
        self.files, self.included, self.patch, self.outs = {}, {}, None, OUTS
        stems = [x for x in r.sample(project.STEMS, r.randint(3, 5)) if x != 'common'][:4]
        getattr(self, self.kind.replace('-', '_'))(stems)

    def prophy(self, stems):
        for stem in stems:
            sch = gen.random_schema(self.rng, self.rng.randint(1, 5), gen.Opts(share_sizer=False))
            self.files[stem] = S.render(sch)

    def prophy_twins(self, stems):
        """The same names and members; other values and other types behind them."""
        r = self.rng
        for stem in stems:
            t = ''.join('const %s = %d;\n' % (k, r.randint(1, 9)) if not i or r.random() < 0.5 else
                        'const %s = %s %s %d;\n' % (k, NAMES[r.randrange(i)], r.choice('+*'), r.randint(1, 4)) for i, k in enumerate(NAMES))
            t += 'enum E { E_A = %s, E_B = %d };\n' % (r.choice(NAMES), r.randint(10000, 20000))
            t += r.choice(('typedef %s T;\n' % r.choice(('u8', 'u16', 'u64', 'E')), 'struct T { %s x; };\n' % r.choice(('u8', 'u16', 'u64', 'E'))))
            t += 'struct X { T a; %s b[%s]; T c<%s>; %s d<>; };\n' % (
                r.choice(('u8', 'u16', 'T', 'E')), r.choice(NAMES), r.choice(NAMES), r.choice(('u8', 'u64', 'T')))
            t += r.choice(('struct Y { X a; u32 b; };\n', 'struct Y { T a<...>; };\n', 'union Y { %s: u8 a; E_B: T b; };\n' % r.choice(NAMES)))
            self.files[stem] = t + 'struct Z { Y a; };\n'

    def constants(self, missing):
        """Constants of an isar file; some expressions name ones that only another file may define."""
        r = self.rng
        mine = [k for k in NAMES if r.random() < 0.6] if missing else list(NAMES)
        out = []
        for k in mine:
            text = str(r.randint(1, 9))
            if r.random() < 0.5:
                o = r.choice(NAMES if missing else mine[:mine.index(k)] or ['3'])
                if o != k and not (o in mine and mine.index(o) > mine.index(k)):
                    text = '%s %s %d' % (o, r.choice('+*'), r.randint(1, 4))
            out.append('<constant name="%s" value="%s"/>' % (k, text))
        r.shuffle(out)
        return ''.join(out)

    def isar(self, stems):
        r = self.rng
        missing = r.random() < 0.5
        if missing:
            self.outs = (('--python_out', 'py'), ('--prophy_out', 'schema'))
        for stem in stems:
            t = self.constants(missing)
            t += '<enum name="E"><enum-member name="E_A" value="%s"/><enum-member name="E_B" value="%s + 1"/></enum>' % (
                r.randint(20000, 30000), r.choice(NAMES) if missing else r.randint(1, 9))
            t += '<typedef name="T" %s/>' % r.choice(('primitiveType="8 bit integer unsigned"', 'type="E"', 'primitiveType="32 bit integer signed"'))
            ms = ['<member name="a" type="%s"/>' % r.choice(('u8', 'T')),
                  '<member name="b" type="%s"><dimension size="%s"/></member>' % (r.choice(('u8', 'u16', 'T', 'E')), r.choice(NAMES)),
                  '<member name="c" type="u8"><dimension size="%s * 2" isVariableSize="true"/></member>' % r.choice(NAMES),
                  '<member name="d" type="%s"/>' % r.choice(('u64', 'T'))]
            r.shuffle(ms)
            t += '<struct name="X">%s</struct>' % ''.join(ms)
            t += '<message name="Y"><member name="a" type="X"/><member name="b" type="u16"/></message>'
            t += '<struct name="Z"><member name="a" type="u32"/><member name="b" type="u8"/></struct>'
            self.files[stem] = '<x>%s</x>' % t
        if r.random() < 0.7:
            rules = ['X type a u16\n', 'X insert 1 z u8\n', 'X remove d\n', 'Z type b u64\n', 'Z dynamic b a\n', 'Z rename ZZ\n', 'Y insert 99 last u8\n', 'Nowhere remove x\n']
            self.patch = ''.join(r.sample(rules, r.randint(1, 4)))
            if 'dynamic' in self.patch and 'Z type' in self.patch:
                self.patch = self.patch.replace('Z type b u64\n', '')

    def isar_twins(self, stems):
        """One schema and its patch under several names."""
        r = self.rng
        sch = gen.random_schema(r, r.randint(2, 6), gen.Opts(share_sizer=False))
        xml, self.patch = isar.render(sch.defs, r)
        for i, stem in enumerate(stems):
            k = xml.rindex('</')
            self.files[stem] = xml[:k] + '<constant name="ONLY_%d" value="%d"/>' % (i, i) + xml[k:]

    def prophy_dirs(self, stems):
        """Everyone includes a file of the same name that lies next to them."""
        r = self.rng
        self.prophy_twins(stems)
        for stem, text in list(self.files.items()):
            lines = text.splitlines(True)
            k = r.randint(1, next(i for i, x in enumerate(lines) if x.startswith('struct X')) + 1)
            self.move(stem, ''.join(lines[:k]), '#include "common.prophy"\n' + ''.join(lines[k:]))

    def isar_dirs(self, stems):
        r = self.rng
        self.isar(stems)
        for stem, text in list(self.files.items()):
            k = text.index(r.choice(('<enum', '<typedef', '<struct name="Z"')))
            self.move(stem, text[:k] + '</x>', '<x xmlns:xi="i"><xi:include href="common.xml"/>' + text[k:])

    def move(self, stem, common, text):
        del self.files[stem]
        d = 'dir_%d/' % len(self.included)
        self.included[d + 'common'] = common
        self.files[d + stem] = text

    def job(self, root, out, stems):
        args = ['--isar'] if self.ext == '.xml' else []
        if self.patch:
            args += ['--patch', os.path.join(root, 'rules')]
        for o, sub in self.outs:
            os.makedirs(os.path.join(out, sub), exist_ok=True)
            args += [o, os.path.join(out, sub)]
        return {'cwd': root, 'args': args + [os.path.join(root, s + self.ext) for s in stems]}


def islands(idx, seed, workdir, n):
    """Each input generates the same alone as among others that have nothing to do with it."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c20i', idx)
    d = os.path.join(workdir, 'i%d' % idx)
    alone, together, cases = [], [], []
    for k in range(n):
        p = Islands(derive(seed, 'c20ip', idx, k))
        root = os.path.join(d, 'r%d' % k)
        for stem, t in list(p.files.items()) + list(p.included.items()):
            pyrt.write(os.path.join(root, stem + p.ext), t)
        if p.patch:
            pyrt.write(os.path.join(root, 'rules'), p.patch)
        cases.append((k, p))
        for stem in p.files:
            alone.append((k, stem, p.job(root, os.path.join(d, 'alone', str(k), stem), [stem])))
        for o in range(3):
            order = list(p.files)
            rng.shuffle(order)
            together.append((k, o, order, p.job(root, os.path.join(d, 'together', str(k), str(o)), order)))
    rng.shuffle(alone)
    rng.shuffle(together)
    single = {}
    for (k, stem, _), st in zip(alone, run_jobs([j for _, _, j in alone], 0, d, 'alone')):
        single.setdefault(k, {})[stem] = (st, snapshot(os.path.join(d, 'alone', str(k), stem)))
    ps = dict(cases)
    for (k, o, order, _), st in zip(together, run_jobs([j for _, _, _, j in together], rng.randint(1, 4294967295), d, 'together')):
        p = ps[k]
        files = {s + p.ext: t for s, t in list(p.files.items()) + list(p.included.items())}
        files['rules'] = p.patch or ''
        res.observe(digest(k, o, order, *p.files.values()))
        refused = [s for s in order if single[k][s][0][0] != 'ok']
        if refused:
            res.note('island_refused')
            if st[0] == 'ok':
                res.violation('accepted', '%s refused alone (%s) is accepted among %s' % (refused[0], single[k][refused[0]][0], order), files=files)
            continue
        res.note('island_' + p.kind)
        if st[0] != 'ok':
            res.violation('rejected', 'inputs accepted one by one are answered together, in the order %s, by %s' % (order, st), files=files)
            continue
        want = {}
        for s in order:
            want.update(single[k][s][1])
        snap = snapshot(os.path.join(d, 'together', str(k), str(o)))
        if sorted(snap) != sorted(want):
            res.violation('files', 'inputs %s together generate %s instead of %s' % (order, sorted(snap), sorted(want)), files=files)
            continue
        for f in want:
            if snap[f] != want[f]:
                res.violation('differs', 'inputs in the order %s: %s differs from what its input generates alone\n%s' % (order, f, diff(want[f], snap[f])), files=files)
                break
        res.note('islands')
    shutil.rmtree(d, ignore_errors=True)
    return res


def main(tier=None):
    c = Check('C20', 'case = one run of prophyc on one project under one hash seed, working directory, location, input order or selection, '
              'its outputs compared byte by byte with the first run; distinct by project and run', tier=tier)
    seeds = [0, 1] + [derive(c.seed, 'hash', i).randint(2, 4294967295) for i in range(c.scale(3, 10))]
    c.run(projects, [(i, c.seed, c.work, c.scale(24, 60), seeds) for i in range(c.scale(8, 24))], mem=None)
    c.run(same_stem, [(i, c.seed, c.work, c.scale(4, 10)) for i in range(2)])
    c.run(islands, [(i, c.seed, c.work, c.scale(24, 120)) for i in range(8)], mem=None)
    for k, n in (('islands', 300), ('island_isar', 50), ('island_prophy-twins', 30), ('island_prophy-dirs', 30), ('island_isar-dirs', 20), ('runs', 300), ('same', 200), ('alone', 50), ('cli', 8), ('files', 300), ('same_stem', 4), ('broken_between', 20)):
        c.require(k, n)
    return c.finish(300)
