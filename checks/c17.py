"""C17: the isar front-end completed by patches and the prophy front-end agree on wire layouts."""
import os
import shutil
from lib import cpprt, gen, isar, oracle, pyrt, schema as S
from lib.isar import attrs, tname
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

PRIMS = ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'r32', 'r64', 'byte')


class M(object):
    """A struct member as models know it; counters are members of their own."""

    def __init__(self, name, type_, optional=False, size=None, bound=None, greedy=False):
        self.name, self.type, self.optional, self.size, self.bound, self.greedy = name, type_, optional, size, bound, greedy

    @property
    def plain(self):
        return not (self.optional or self.size or self.bound or self.greedy)


def lower(d, rng):
    """Members of a struct."""
    out = []
    for f in d.fields:
        t = tname(f.type)
        if f.shape in ('dynamic', 'limited'):
            n = rng.choice(('num_of_' + f.name, f.name + '_len', 'numOf' + f.name[0].upper() + f.name[1:]))
            out.append(M(n, 'u32'))
            out.append(M(f.name, t, size=f.size_text, bound=n))
        else:
            out.append(M(f.name, t, f.shape == 'optional', f.size_text if f.shape == 'fixed' else None,
                         f.sizer if f.shape == 'ext' else None, f.shape == 'greedy'))
    return out


class Disguise(object):
    """Writes structs in isar as something else and the patch rules that lead back."""

    def __init__(self, rng, schema, patching=True):
        self.rng, self.patching = rng, patching
        self.texts, self.rules, self.n = [], [], 0
        self.used = {}
        taken = set(x.name for x in schema.defs)
        for x in schema.defs:
            if isinstance(x, S.Enum):
                taken.update(n for n, _ in x.members)
        self.taken = taken
        self.constants = [x for x in schema.defs if isinstance(x, S.Const) and 0 < x.value < 100]
        self.isar = isar.Isar(rng, patch=False)
        for x in schema.defs:
            if isinstance(x, S.Struct):
                self.texts.append(self.struct(x))
            else:
                self.texts.append(self.other(x))

    def count(self, what):
        self.used[what] = self.used.get(what, 0) + 1

    def fresh(self, prefix):
        self.n += 1
        name = '%s%d_q' % (prefix, self.n)
        return name if name not in self.taken else self.fresh(prefix)

    def comment(self):
        return {'comment': self.rng.choice(('words', 'u8 x; and so on', '1 + 2'))} if self.rng.random() < 0.1 else {}

    def other(self, d):
        name, rules, r = d.name, [], self.rng
        shown = d
        if self.patching and r.random() < 0.2:
            shown = type(d).__new__(type(d))
            shown.__dict__.update(d.__dict__)
            shown.name = self.fresh('Old')
            rules.append('rename %s' % name)
            self.count('rename-node')
        if isinstance(d, S.Union):
            arms = []
            for a in d.arms:
                n = a.name
                if self.patching and r.random() < 0.2:
                    n = self.fresh('arm')
                    rules.insert(r.randint(0, len(rules)), 'rename %s %s' % (n, a.name))
                    self.count('rename-arm')
                arms.append('  <member%s/>\n' % attrs(type=tname(a.type), name=n, discriminatorValue=a.disc_text, **self.comment()))
            text = '<union%s>\n%s</union>' % (attrs(name=shown.name), ''.join(arms))
        elif isinstance(d, S.Const) and r.random() < 0.3:
            text = '<constant%s/>' % attrs(name=shown.name, value=self.number(d.value))
        elif isinstance(d, S.Enum) and r.random() < 0.3:
            text = '<enum%s>\n%s</enum>' % (attrs(name=shown.name), ''.join(
                '  <enum-member%s/>\n' % attrs(name=n, value=self.number(v), **self.comment()) for n, v in d.members))
        else:
            text = self.isar.definition(shown)
        self.rules.append([shown.name + ' ' + x for x in rules])
        return text

    def number(self, v):
        """A number by operators isar has."""
        r = self.rng
        if v > 0 and v % 2 == 0 and r.random() < 0.6:
            k = r.choice([k for k in range(1, 64) if v % (1 << k) == 0])
            self.count('isar-operator')
            return 'shiftLeft(%s, %d)' % (self.number(v >> k), k)
        if v > 2 and r.random() < 0.5:
            a = v & r.getrandbits(64)
            self.count('isar-operator')
            return 'bitMaskOr(%s, %s)' % (self.number(a) if a != v else str(a), str(v & ~a | v & r.getrandbits(64)))
        if v > 3 and r.random() < 0.2:
            return '%d + %d' % (v // 2, v - v // 2)
        return r.choice((str(v), hex(v))) if v >= 0 else str(v)

    def struct(self, d):
        r = self.rng
        members = lower(d, r)
        rules = []          # last first
        if self.patching:
            for _ in range(r.choice((0, 0, 1, 1, 2, 3, 6))):
                rules += self.back(members) or []
        for i in range(len(members)):
            # what isar cannot express has to be patched
            m = members[i]
            if m.greedy:
                m.greedy = False
                self.disturb(m)
                rules.append('greedy ' + m.name)
                self.count('greedy')
            if m.size and m.bound and not (i and members[i - 1].name == m.bound and members[i - 1].plain):
                rules.append('limited %s %s' % (m.name, m.bound))
                m.bound = None
                self.count('limited')
        name, union = d.name, False
        if self.patching and members and all(m.plain for m in members) and r.random() < 0.3:
            rules.append('struct')
            self.count('struct')
            union = True
        if self.patching and r.random() < 0.2:
            name = self.fresh('Old')
            rules.insert(r.randint(0, len(rules)), 'rename ' + d.name)
            self.count('rename-node')
        if union and r.random() < 0.4:
            m = r.choice(members)
            new = self.fresh('f')
            rules.append('rename %s %s' % (new, m.name))
            self.count('rename-field')
            m.name = new
        self.rules.append([name + ' ' + x for x in reversed(rules)])
        if union:
            return '<union%s>\n%s</union>' % (attrs(name=name), ''.join('  <member%s/>\n' % attrs(
                type=m.type, name=m.name, discriminatorValue=i * 3 + 1) for i, m in enumerate(members)))
        return self.xml(name, members)

    def back(self, members):
        """Undo one rule on members (in place), return it, last rule first."""
        r = self.rng
        first = []

        def free(m):
            # the rule about a limited array needs its counter
            for x in members:
                if x.size and x.bound == m.name:
                    first.append('limited %s %s' % (x.name, x.bound))
                    x.bound = None
                    self.count('limited')
        what = r.choice(('type', 'insert', 'insert', 'remove', 'rename', 'dynamic', 'limited', 'static', 'greedy'))
        m = r.choice(members) if members else None
        if what == 'remove':
            junk = M(self.fresh('junk'), r.choice(PRIMS))
            if r.random() < 0.3:
                junk.size = '3'
            elif r.random() < 0.2:
                junk.optional = True
            members.insert(r.randint(0, len(members)), junk)
            rule = 'remove ' + junk.name
        elif m is None:
            return None
        elif what == 'type':
            rule = 'type %s %s' % (m.name, m.type)
            m.type = r.choice(PRIMS)
        elif what == 'insert':
            ok = [x for x in members if x.plain]
            if not ok or len(members) < 2:
                return None
            m = r.choice(ok)
            free(m)
            i = members.index(m)
            rule = 'insert %s %s %s' % (r.choice((i, 999)) if i == len(members) - 1 else i, m.name, m.type)
            members.remove(m)
        elif what == 'rename':
            free(m)
            new = self.fresh('f')
            rule = 'rename %s %s' % (new, m.name)
            m.name = new
        elif what == 'dynamic':
            ok = [x for x in members if x.bound and not x.size]
            if not ok:
                return None
            m = r.choice(ok)
            rule = 'dynamic %s %s' % (m.name, m.bound)
            m.bound = None
            self.disturb(m)
        elif what == 'limited':
            ok = [x for x in members if x.bound and x.size and x.bound in [y.name for y in members[:members.index(x)]]]
            if not ok:
                return None
            m = r.choice(ok)
            rule = 'limited %s %s' % (m.name, m.bound)
            m.bound = None
        elif what == 'static':
            ok = [x for x in members if x.size and not x.bound]
            if not ok:
                return None
            m = r.choice(ok)
            rule = 'static %s %s' % (m.name, m.size.replace(' ', ''))
            m.size = None
            self.disturb(m)
        elif what == 'greedy':
            ok = [x for x in members if x.greedy]
            if not ok:
                return None
            m = ok[0]
            rule = 'greedy ' + m.name
            m.greedy = False
            self.disturb(m)
        self.count(what if what != 'rename' else 'rename-field')
        if what in ('dynamic', 'static', 'greedy') and r.random() < 0.3:
            # an array rule replaces what an earlier one said
            over = r.choice(('greedy %s', 'static %s 7', 'dynamic %s whatever')) % m.name
            self.count('overridden')
            return first + [rule, over]
        return first + [rule]

    def disturb(self, m):
        """Make a plain member something else that an array rule replaces."""
        x = self.rng.random()
        if x < 0.3:
            m.size = str(self.rng.randint(1, 9))
        elif x < 0.45:
            m.optional = True
        elif x < 0.55:
            m.bound = self.fresh('gone')
        elif x < 0.65 and self.patching:
            m.greedy = False

    def xml(self, name, members):
        r = self.rng
        tag = 'message' if r.random() < 0.4 and not any(m.size and m.bound for m in members) else 'struct'
        out, i = [], 0
        while i < len(members):
            m, nxt = members[i], members[i + 1] if i + 1 < len(members) else None
            merge = nxt is not None and m.plain and nxt.bound == m.name
            if merge and (nxt.size or r.random() < 0.6):
                kw = dict(isVariableSize='true')
                if m.name != nxt.name + '_len' or r.random() < 0.2:
                    kw['variableSizeFieldName'] = m.name
                if m.type != 'u32' or r.random() < 0.2:
                    kw['variableSizeFieldType'] = m.type
                if nxt.size:
                    kw['size'] = nxt.size
                elif tag == 'message' and r.random() < 0.4:
                    kw['size'] = r.randint(1, 20)
                if nxt.size and r.random() < 0.3 and nxt.size.isdigit() and int(nxt.size) % 2 == 0:
                    kw['size'], kw['size2'] = int(nxt.size) // 2, 2
                self.count('isar-variable')
                out.append(self.member(nxt, **kw))
                i += 2
                continue
            if nxt is not None and m.plain and m.type == 'u32' and m.name == 'has_' + nxt.name and nxt.size and not nxt.bound:
                self.count('isar-optional-array')
                out.append(self.member(nxt, True, **self.fixed(nxt)))
                i += 2
                continue
            if m.bound:
                if m.bound == 'numOf' + m.name[0].upper() + m.name[1:] and r.random() < 0.6:
                    self.count('isar-numOf')
                    out.append(self.member(m, size='THIS_IS_VARIABLE_SIZE_ARRAY'))
                else:
                    self.count('isar-@')
                    kw = {'isVariableSize': 'true'} if r.random() < 0.5 else {}
                    if r.random() < 0.3:
                        kw['size'] = r.randint(1, 20)
                    out.append(self.member(m, variableSizeFieldName='@' + m.bound, **kw))
            elif m.size:
                out.append(self.member(m, **self.fixed(m)))
            else:
                out.append('  <member%s/>' % attrs(name=m.name, type=m.type, optional=r.choice(
                    ('true', 'True')) if m.optional else r.choice((None, None, None, 'false')), **self.comment()))
            i += 1
        return '<%s%s>\n%s\n</%s>' % (tag, attrs(name=name, **self.comment()), '\n'.join(out), tag)

    def fixed(self, m):
        r = self.rng
        if m.size.isdigit() and r.random() < 0.4:
            n = int(m.size)
            if n % 2 == 0 and r.random() < 0.5:
                self.count('isar-size2')
                return dict(size=n // 2, size2=2)
            for c in self.constants:
                for k in (3, 2, 1):
                    if n % k == 0 and c.value < n // k:
                        # an expression as one of two dimensions
                        self.count('isar-size2')
                        e = '%s + %d' % (c.name, n // k - c.value)
                        return dict(size=e, size2=k) if r.random() < 0.5 else dict(size=k, size2=e)
        return dict(size=m.size)

    def member(self, m, optional=None, **kw):
        a = dict(name=m.name, type=m.type, **self.comment())
        if optional:
            a['optional'] = 'true'
        return '  <member%s><dimension%s/></member>' % (attrs(**a), attrs(**kw))

    def document(self):
        r = self.rng
        texts = list(self.texts)
        r.shuffle(texts)
        if r.random() < 0.3:
            k = r.randint(0, len(texts))
            texts[k:] = ['<section>\n%s\n</section>' % '\n'.join(texts[k:])]
        return '<?xml version="1.0" encoding="UTF-8"?>\n<dom>\n%s\n</dom>\n' % '\n'.join(texts)

    def script(self, more=()):
        """Rules of a definition keep their order; those of different ones mix."""
        r = self.rng
        queues = [list(q) for q in self.rules if q] + [list(q) for q in more]
        out = []
        while queues:
            q = r.choice(queues)
            out.append(q.pop(0))
            if not q:
                queues.remove(q)
        text = ''
        for x in out:
            words = x.split()
            text += r.choice(('', '', '', '\n', '  \n')) + r.choice(('', '', ' ')) + r.choice((' ', ' ', '\t', '  ')).join(words)
            text += r.choice(('\n', '\n', ' \n', '\r\n'))
        return text


def noise(rng, names):
    """Rules for messages that are not there."""
    out = []
    for _ in range(rng.randint(1, 3)):
        name = rng.choice(('Absent_q', 'Nothing9_q', names[0] + 'x_q', names[-1].lower() + '_q'))
        out.append([name + ' ' + rng.choice(('type a u8', 'insert 0 a u8', 'remove a', 'dynamic a b', 'greedy a', 'static a 3',
                                             'limited a b', 'struct', 'rename X_q', 'rename a b', 'insert x a u8', 'remove'))])
    return out


def schema_for(rng, n):
    sch = gen.random_schema(rng, n, gen.Opts(dup_enum_values=False))
    for d in sch.structs:
        for a, b in zip(d.fields, d.fields[1:]):
            if a.shape == 'plain' and b.shape == 'fixed' and a.name not in d.sizers and rng.random() < 0.3:
                a.name, a.type = 'has_' + b.name, 'u32'
    oracle._cache.clear()
    return sch


def compile_(d, stem, args, ext, text, outs=('--python_out',)):
    path = pyrt.write(os.path.join(d, stem + ext), text)
    o = []
    for x in outs:
        o += [x, d]
    try:
        with cpu_limit(120):
            return pyrt.prophyc_nodes(args + o + [path])
    except Hang:
        return Hang(), '', {}


def shape(node):
    """What a model node says about its layout, names aside."""
    members = [(m.byte_size, m.alignment, getattr(m, 'padding', None), getattr(m, 'kind', None)) for m in node.members]
    return node.byte_size, node.alignment, node.kind, members


def agree(idx, seed, workdir, n):
    res = Result()
    pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c17', idx, k)
        sch = schema_for(rng, rng.randint(1, 10))
        dis = Disguise(rng, sch, rng.random() < 0.85)
        d = os.path.join(workdir, 'a%d_%d' % (idx, k))
        xml = dis.document()
        script = dis.script(noise(rng, [x.name for x in sch.defs]) if rng.random() < 0.3 else ())
        text = S.render(sch)
        files = {'m.prophy': text, 'x.xml': xml, 'patch': script}
        res.observe(digest(xml, script))
        res.sample({'isar': xml[:600], 'patch': script[:300]}, 1)
        for a, b in dis.used.items():
            res.note(a, b)
        args = ['--isar']
        if script:
            args += ['--patch', pyrt.write(os.path.join(d, 'patch'), script)]
        e, err, inodes = compile_(d, 'x', args, '.xml', xml)
        if isinstance(e, Hang):
            res.violation('hang', 'prophyc does not finish', files=files)
            return res
        if e is not None or 'warning' in err:
            res.violation('rejected', 'isar with patch is answered by %s: %s%s' % (type(e).__name__, e, err), files=files)
            continue
        e, err, pnodes = compile_(d, 'm', [], '.prophy', text)
        if e is not None:
            res.violation('rejected', 'prophy text is answered by %s: %s%s' % (type(e).__name__, e, err), files=files)
            continue
        compare_models(res, sch, inodes['x'], pnodes['m'], files)
        try:
            xm, pm = pyrt.import_generated(d, 'x', 'm')
        except Exception as e:
            res.violation('import', 'generated modules do not import: %s: %s' % (type(e).__name__, e), files=files)
            continue
        compare_codecs(res, rng, sch, xm, pm, files)
        shutil.rmtree(d, ignore_errors=True)
    return res


def compare_models(res, sch, inodes, pnodes, files):
    a, b = {x.name: x for x in inodes}, {x.name: x for x in pnodes}
    if set(a) != set(x.name for x in sch.defs) or set(a) != set(b):
        res.violation('definitions', 'isar defines %s, prophy defines %s' % (sorted(a), sorted(b)), files=files)
        return
    for x in sch.composites:
        res.note('models')
        if shape(a[x.name]) != shape(b[x.name]):
            res.violation('layout', '%s: isar gives %s, prophy gives %s' % (x.name, shape(a[x.name]), shape(b[x.name])), files=files)


def compare_codecs(res, rng, sch, xm, pm, files):
    for x in sch.defs:
        if isinstance(x, S.Const) and not getattr(xm, x.name) == getattr(pm, x.name) == x.value:
            res.violation('constant', '%s is %r and %r, not %d' % (x.name, getattr(xm, x.name), getattr(pm, x.name), x.value), files=files)
        if isinstance(x, S.Enum):
            for n, v in x.members:
                if not getattr(xm, n) == getattr(pm, n) == v:
                    res.violation('constant', '%s is %r and %r, not %d' % (n, getattr(xm, n), getattr(pm, n), v), files=files)
    for x in sch.composites:
        for mode in ('min', 'max', 'random', 'random'):
            v = gen.ValueGen(rng, mode).value(x)
            a, b = getattr(xm, x.name)(), getattr(pm, x.name)()
            try:
                pyrt.assign(a, x, v)
                pyrt.assign(b, x, v)
                pairs = [(a.encode(o), b.encode(o), oracle.encode(x, v, o)) for o in '<>']
            except Exception as e:
                res.violation('encode', '%s cannot be set and encoded: %s: %s' % (x.name, type(e).__name__, e), files=files)
                break
            bad = [p for p in pairs if not p[0] == p[1] == p[2]]
            if bad:
                res.violation('bytes', '%s: isar gives %s, prophy gives %s instead of %s' % (
                    x.name, bad[0][0].hex(), bad[0][1].hex(), bad[0][2].hex()), files=files)
                break
            res.note('encodings')
            if oracle.layout(x).kind == S.UNLIMITED and not oracle.greedy_aligned(x, v):
                continue
            c, e_ = getattr(xm, x.name)(), getattr(pm, x.name)()
            try:
                same = c.decode(pairs[1][1], '>') == e_.decode(pairs[1][0], '>') and str(c) == str(e_) == str(a)
                same = same and c.encode('<') == pairs[0][1]
            except Exception as e:
                res.violation('decode', '%s cannot decode bytes of the other front-end: %s: %s' % (x.name, type(e).__name__, e), files=files)
                break
            if not same:
                res.violation('decode', '%s decodes bytes of the other front-end otherwise' % x.name, files=files)
                break


def by_cpp(idx, seed, workdir, pch, n):
    res = Result()
    pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c17c', idx, k)
        sch = gen.random_schema(rng, rng.randint(2, 8), gen.Opts(dup_enum_values=False, share_sizer=False))
        dis = Disguise(rng, sch)
        d = os.path.join(workdir, 'c%d_%d' % (idx, k))
        xml, script = dis.document(), dis.script()
        files = {'x.xml': xml, 'patch': script}
        res.observe(digest('cpp', xml, script))
        args = ['--isar']
        if script:
            args += ['--patch', pyrt.write(os.path.join(d, 'patch'), script)]
        e, err, _ = compile_(d, 'x', args, '.xml', xml, ('--cpp_full_out', '--cpp_out'))
        if e is not None:
            res.violation('rejected', 'isar with patch is answered by %s: %s%s' % (type(e).__name__, e, err), files=files)
            continue
        types = sch.composites
        src = '#include "x.ppf.cpp"\n#include "pv_full.hpp"\n' + '\n'.join(
            'template <> void pv_mutate<%s>::run(%s&, pv_rng&) {}' % (x.name, x.name) for x in types)
        src += '\nstatic const pv_entry table[] = {\n%s\n};\nint main(int argc, char** argv) { return pv_main(table, argc, argv); }\n' % (
            ',\n'.join('  {"%s", &pv_make<%s>}' % (x.name, x.name) for x in types))
        exe = os.path.join(d, 'drv')
        try:
            cpprt.compile_cpp(pyrt.write(os.path.join(d, 'drv.cpp'), src), exe, cpprt.flags(), pch)
        except cpprt.CompileError as e:
            res.violation('compile', 'C++ from isar does not compile: %s' % str(e)[:900], files=files)
            continue
        reqs, meta = [], []
        for i, x in enumerate(types):
            for mode in ('min', 'max', 'random', 'random'):
                v = gen.align_greedy(rng, x, gen.ValueGen(rng, mode).value(x))
                if v is not None:
                    reqs.append((i, 'R', 'l', oracle.encode(x, v, '<')))
                    meta.append((x, v))
        answers, crashes = cpprt.run_driver(exe, reqs, d)
        for c in crashes:
            res.violation('cpp-crash', 'C++ full codec from isar: %s %s' % (c.kind, c.detail[:500]), files=files)
        for q, (x, v), a in zip(reqs, meta, answers):
            if a is None:
                continue
            if a.get('ok') != '1' or (b'' if a['b'] == '-' else bytes.fromhex(a['b'])) != oracle.encode(x, v, '>'):
                res.violation('cpp-bytes', 'C++ full codec of %s from isar: %r on %s' % (x.name, a, q[3].hex()), files=files)
            else:
                res.note('cpp_encodings')
        shutil.rmtree(d, ignore_errors=True)
    return res


def broken_rules(rng, sch):
    """(kind, rule) for rules that cannot be applied."""
    r = rng
    st = [x for x in sch.structs if x.fields]
    un = sch.unions
    other = [x for x in sch.defs if not isinstance(x, (S.Struct, S.Union))]
    out = []

    def add(kind, *words):
        out.append((kind, ' '.join(str(w) for w in words)))
    if st:
        d = r.choice(st)
        f = r.choice(d.fields).name
        add('unknown action', d.name, r.choice(('frobnicate', 'types', 'Type', 'delete')), f)
        add('no such field', d.name, 'type', 'nosuch_q', 'u8')
        add('no such field', d.name, 'remove', 'nosuch_q')
        add('no such field', d.name, 'dynamic', 'nosuch_q', f)
        add('no such field', d.name, 'greedy', 'nosuch_q')
        add('no such field', d.name, 'static', 'nosuch_q', 4)
        add('no such field', d.name, 'limited', 'nosuch_q', f)
        add('no such field', d.name, 'rename', 'nosuch_q', 'x_q')
        add('parameters', d.name, 'type', f)
        add('parameters', d.name, 'type', f, 'u8', 'u8')
        add('parameters', d.name, 'insert', 0, 'x_q')
        add('parameters', d.name, 'insert', 0, 'x_q', 'u8', 'u8')
        add('parameters', d.name, 'remove')
        add('parameters', d.name, 'remove', f, f)
        add('parameters', d.name, 'dynamic', f)
        add('parameters', d.name, 'dynamic', f, 'x', 'y')
        add('parameters', d.name, 'greedy')
        add('parameters', d.name, 'greedy', f, f)
        add('parameters', d.name, 'static', f)
        add('parameters', d.name, 'static', f, 3, 4)
        add('parameters', d.name, 'limited', f)
        add('parameters', d.name, 'limited', f, f, f)
        add('parameters', d.name, 'rename')
        add('parameters', d.name, 'rename', 'a', 'b', 'c')
        add('index', d.name, 'insert', r.choice(('x', '1.5', f)), 'x_q', 'u8')
        add('struct of struct', d.name, 'struct')
        add('no such sizer', d.name, 'limited', f, 'nosuch_q')
        add('no such sizer', d.name, 'dynamic', f, 'nosuch_q')
        if len(d.fields) > 1:
            i = r.randint(0, len(d.fields) - 2)
            j = r.randint(i + 1, len(d.fields) - 1)
            if d.fields[i].shape == 'fixed':
                add('sizer after array', d.name, 'limited', d.fields[i].name, d.fields[j].name)
            add('sizer after array', d.name, 'dynamic', d.fields[i].name, d.fields[j].name)
            add('greedy not last', d.name, 'greedy', d.fields[i].name)
            add('duplicate', d.name, 'rename', d.fields[i].name, d.fields[j].name)
            if d.fields[i].shape == 'plain' and d.fields[j].shape in ('plain', 'optional'):
                add('limited of no array', d.name, 'limited', d.fields[j].name, d.fields[i].name)
        add('duplicate', d.name, 'insert', r.choice((0, 999)), f, 'u8')
    if un:
        d = r.choice(un)
        a = r.choice(d.arms).name
        add('not a struct', d.name, 'type', a, 'u8')
        add('not a struct', d.name, 'insert', 0, 'x_q', 'u8')
        add('not a struct', d.name, 'remove', a)
        add('not a struct', d.name, 'dynamic', a, a)
        add('not a struct', d.name, 'greedy', a)
        add('not a struct', d.name, 'static', a, 2)
        add('not a struct', d.name, 'limited', a, a)
        add('no such field', d.name, 'rename', 'nosuch_q', 'x_q')
        add('parameters', d.name, 'struct', 'now')
        if len(d.arms) > 1:
            add('duplicate', d.name, 'rename', d.arms[0].name, d.arms[1].name)
    if other:
        d = r.choice(other)
        for words in (('type', 'a', 'u8'), ('insert', 0, 'x_q', 'u8'), ('remove', 'a'), ('dynamic', 'a', 'b'), ('greedy', 'a'),
                      ('static', 'a', 2), ('limited', 'a', 'b')):
            add('not a struct', d.name, *words)
        add('not a composite', d.name, 'rename', 'a', 'b')
        add('struct of no union', d.name, 'struct')
    return out


def refuse(idx, seed, workdir, n):
    """One rule that cannot be applied fails the compilation."""
    res = Result()
    pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c17r', idx, k)
        sch = schema_for(rng, rng.randint(1, 4))
        dis = Disguise(rng, sch, None)
        d = os.path.join(workdir, 'r%d_%d' % (idx, k))
        xml = dis.document()
        rules = ''.join(x + '\n' for q in dis.rules for x in q)
        base = rules + ''.join(x[0] + '\n' for x in noise(rng, [x.name for x in sch.defs]))
        for kind, rule in [('none', '')] + broken_rules(rng, sch):
            # what is said for its own message comes after the completing rules
            text = base + rule + '\n'
            res.observe(digest(xml, text))
            e, err, _ = compile_(d, 'x', ['--isar', '--patch', pyrt.write(os.path.join(d, 'patch'), text)], '.xml', xml)
            files = {'x.xml': xml, 'patch': text}
            if isinstance(e, Hang):
                res.violation('hang', 'prophyc does not finish', files=files)
                return res
            if kind == 'none':
                if e is not None:
                    res.violation('rejected', 'rules for absent messages are answered by %s: %s' % (type(e).__name__, e), files=files)
                continue
            res.note('refused:' + kind)
            if e is None:
                res.violation('accepted:' + kind, 'a rule that cannot be applied is accepted (%s): %s' % (kind, rule), files=files)
        shutil.rmtree(d, ignore_errors=True)
    return res


def main(tier=None):
    c = Check('C17', 'case = one schema as prophy text and as isar XML with a patch script leading to it, or one patch rule that cannot '
              'be applied; distinct by XML and script', tier=tier)
    pch = cpprt.build_pch(c.work, cpprt.flags())
    c.run(agree, [(i, c.seed, c.work, c.scale(60, 700)) for i in range(16)])
    c.run(refuse, [(i, c.seed, c.work, c.scale(6, 40)) for i in range(8)])
    c.run(by_cpp, [(i, c.seed, c.work, pch, c.scale(2, 14)) for i in range(c.scale(8, 16))], mem=None)
    for k in ('type', 'insert', 'remove', 'rename-field', 'rename-node', 'rename-arm', 'dynamic', 'limited', 'static', 'greedy', 'struct',
              'isar-variable', 'isar-@', 'isar-numOf', 'isar-size2', 'isar-optional-array', 'isar-operator',
              'overridden'):
        c.require(k, 20)
    for k, n in (('models', 1000), ('encodings', 4000), ('cpp_encodings', 150), ('refused:no such field', 50), ('refused:parameters', 50),
                 ('refused:not a struct', 50), ('refused:duplicate', 10), ('refused:no such sizer', 20), ('refused:greedy not last', 5)):
        c.require(k, n)
    return c.finish(300)
