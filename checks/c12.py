"""C12: whatever prophyc accepts every back-end can realise; rule breakers are rejected."""
import os
import re
import subprocess
from xml.sax.saxutils import quoteattr
from lib import cpprt, gen, illegal, isar, pyrt, schema as S, workload
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

OUTS = ('--python_out', '--cpp_out', '--cpp_full_out', '--prophy_out')
LOCATED = re.compile(r'[^\n:]+\.prophy:\d+:\d+: error: \S')


def syntax(path):
    """Compile a generated source as it is: no precompiled header, nothing but the shipped headers."""
    p = subprocess.run([cpprt.cxx(), '-std=c++11', '-fsyntax-only', '-I', cpprt.INC, '-I', os.path.dirname(path), path],
                       capture_output=True, text=True, timeout=600, errors='replace')
    return None if p.returncode == 0 else p.stderr[:1500]


def usable(res, d, stems, outs, what, files):
    """Every requested artifact of an accepted input works."""
    ok = True
    for o in outs:
        for stem in stems:
            if o == '--python_out':
                try:
                    pyrt.import_generated(d, stem)
                    res.note('imported')
                except Exception as e:
                    ok = False
                    res.violation('import', '%s is accepted but its Python module does not import: %s: %s' % (
                        what, type(e).__name__, e), files=files)
            elif o in ('--cpp_out', '--cpp_full_out'):
                ext = '.pp' if o == '--cpp_out' else '.ppf'
                err = syntax(os.path.join(d, stem + ext + '.cpp'))
                res.note('compiled' + ext)
                if err:
                    ok = False
                    res.violation('compile' + ext, '%s is accepted but its C++ source %s%s.cpp does not compile: %s' % (
                        what, stem, ext, err), files=files)
    return ok


WORDS = ('class', 'def', 'import', 'None', 'lambda', 'int', 'delete', 'operator', 'template', 'while', 'return', 'switch', 'and',
         'namespace', 'virtual', 'this', 'nullptr', 'from', 'with', 'yield')
# names the generated code or the runtimes use themselves: see known finding 'identifier'
TAKEN = (('struct', 'E'), ('const', 'prophy'), ('enumerator', 'std'), ('field', 'encode'), ('const', 'EOF'))


def name_probe(position, w):
    x = {p: p + '_x' for p in ('const', 'enumerator', 'enum', 'typedef', 'struct', 'union', 'field', 'arm')}
    x[position] = w
    return ('const %(const)s = 2;\nenum %(enum)s { %(enumerator)s = 1, other_x = 2 };\ntypedef u16 %(typedef)s;\n'
            'struct %(struct)s { u8 %(field)s; %(enum)s e; %(typedef)s t[%(const)s]; };\n'
            'union %(union)s { 1: %(struct)s %(arm)s; 2: %(enum)s f; };\n'
            'struct Last { %(struct)s s<>; %(union)s u; };\n') % x


def words(idx, seed, workdir, n):
    """Reserved words as names: a diagnostic, or outputs that work."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c12w', idx)
    probes = [(rng.choice(('const', 'enumerator', 'enum', 'typedef', 'struct', 'union', 'field', 'arm')), rng.choice(WORDS), '')
              for _ in range(n)]
    if idx == 0:
        probes += [(p, w, 'identifier') for p, w in TAKEN]
    for k, (position, w, known) in enumerate(probes):
        text = name_probe(position, w)
        o = rng.choice(('--python_out', '--cpp_out', '--cpp_full_out')) if not known else '--cpp_full_out'
        if w == 'prophy' or w == 'encode':
            o = '--python_out'
        d = os.path.join(workdir, 'w%d_%d' % (idx, k))
        pyrt.write(os.path.join(d, 'm.prophy'), text)
        exc, err = compile_files(d, None, ['m'], [o])
        res.observe(digest(text, o))
        res.note('word')
        if exc is not None:
            res.note('word_rejected')
            if type(exc).__name__ != 'ProphycError':
                res.violation('exception:word', 'name %s is answered by %s: %s' % (w, type(exc).__name__, exc), schema=text)
            continue
        res.note('word_accepted')
        r = Result()
        if not usable(r, d, ['m'], [o], '%s named %s' % (position, w), {'m.prophy': text}) or (
                w == 'encode' and calls(d) is not None):
            v = r.violations[0]['what'] if r.violations else 'message with a field named encode cannot be encoded'
            res.violation(known or 'word', v, schema=text)
    return res


def calls(d):
    m = pyrt.import_generated(d, 'm')[0]
    try:
        return None if m.struct_x().encode('<') else 'nothing'
    except TypeError as e:
        return e


def compile_files(d, files, main_stem, outs, mode=()):
    ext = '.xml' if '--isar' in mode else '.prophy'
    args = list(mode)
    for o in outs:
        args += [o, d]
    return pyrt.prophyc_main(args + [os.path.join(d, s + ext) for s in main_stem])


def valid(kind, idx, seed, workdir):
    """Valid schemas: accepted, and usable everywhere."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c12', kind, idx)
    d = os.path.join(workdir, '%s_%d' % (kind, idx))
    outs = ('--python_out', '--cpp_out', '--cpp_full_out')
    if kind == 'hot':
        schemas = [s for s, _ in workload.cpp_batches(('hot', idx), seed)]
    else:
        shared = rng.random() < 0.2
        o = gen.Opts(share_sizer=shared, dup_enum_values=kind == 'prophy' and rng.random() < 0.5)
        schemas = [gen.random_schema(rng, rng.randint(3, 22), o)]
    for n, sch in enumerate(schemas):
        dn = '%s_%d' % (d, n)
        if any(workload.has_multi_sizer(s) for s in sch.structs):
            outs = ('--python_out', '--cpp_out')     # the full codec refuses these by a message of its own
            res.note('shared_sizer')
        mode = ()
        if kind == 'isar':
            mode = ('--isar',)
            xml, patch = isar.render(sch.defs, rng)
            files = {'m.xml': xml}
            if patch:
                files['m.patch'] = patch
                mode += ('--patch', os.path.join(dn, 'm.patch'))
        else:
            files = {'m.prophy': noisy(S.render(sch), rng)}
            if rng.random() < 0.4:
                files = split(sch, rng)
        for f, t in files.items():
            pyrt.write(os.path.join(dn, f), t)
        stems = [os.path.splitext(f)[0] for f in files if not f.endswith('.patch')]
        e, err = compile_files(dn, files, stems, outs, mode)
        res.observe(digest(*files.values()))
        res.note('valid_' + kind)
        if e is not None:
            res.violation('valid-rejected', 'valid %s schema is rejected: %s: %s' % (kind, type(e).__name__, str(e)[:500]), files=files)
            continue
        usable(res, dn, stems, outs, 'valid %s schema' % kind, files)
        if '--cpp_full_out' not in outs:
            e, err = compile_files(dn, files, stems, ['--cpp_full_out'], mode)
            res.note('full_shared')
            if e is None:
                usable(res, dn, stems, ['--cpp_full_out'], 'schema of a shared sizer', files)
            elif type(e).__name__ != 'ProphycError':
                res.violation('exception:shared', 'full C++ of a shared sizer is answered by %s: %s' % (type(e).__name__, e), files=files)
        res.sample({'kind': kind, 'text': list(files.values())[0][:300]})
    return res


def noisy(text, rng):
    """Comments and layout do not matter."""
    if rng.random() < 0.5:
        return text
    out = []
    for line in text.split('\n'):
        x = rng.random()
        if x < 0.05:
            out.append('// %s' % rng.choice(('note', 'struct X {', '"quoted"', "it's")))
        elif x < 0.1:
            out.append('/* %s */' % rng.choice(('note', 'a\n b', '** x', '// y')))
        out.append(line + rng.choice(('', '', ' ', '\t')))
    return '\n'.join(out)


def split(sch, rng):
    """The schema over two or three files, each including all earlier ones."""
    k = rng.randint(2, 3)
    cuts = sorted(rng.randint(0, len(sch.defs)) for _ in range(k - 1))
    cuts = [0] + cuts + [len(sch.defs)]
    files = {}
    for i in range(k):
        inc = ''.join('#include "%s"\n' % f for f in files)
        name = 'm%d.prophy' % i
        files[name] = inc + S.render(sch.defs[cuts[i]:cuts[i + 1]])
    return files


def broken(idx, seed, workdir, n):
    """One rule-breaking edit: prophyc rejects with a located message, the Python runtime refuses the descriptor."""
    res = Result()
    prophy, prophyc = pyrt.setup()
    rng = derive(seed, 'c12b', idx)
    for k in range(n):
        sch = gen.random_schema(rng, rng.randint(2, 5), gen.Opts(share_sizer=False))
        e = illegal.Edit(sch, rng)
        rule = illegal.RULES[(idx * n + k) % len(illegal.RULES)]
        getattr(e, rule)()
        text = S.render(e.schema)
        res.observe(digest(rule, text))
        d = os.path.join(workdir, 'b%d_%d' % (idx, k))
        src = pyrt.write(os.path.join(d, 'm.prophy'), text)
        outs = [rng.choice(OUTS)] if rng.random() < 0.7 else list(OUTS[:3])
        args = []
        for o in outs:
            args += [o, d]
        try:
            with cpu_limit(60):
                exc, err = pyrt.prophyc_main(args + [src])
        except Hang:
            res.violation('hang', 'rule %s: prophyc does not finish' % rule, schema=text)
            return res
        res.note('rule:' + rule)
        if exc is None:
            res.violation('accepted:' + rule, 'prophyc accepts a schema breaking rule %s (%s): %s' % (
                rule, ' '.join(outs), excerpt(e)), schema=text)
        elif type(exc).__name__ != 'ProphycError':
            res.violation('exception:' + rule, 'rule %s is answered by %s: %s' % (rule, type(exc).__name__, exc), schema=text)
        elif not LOCATED.search(str(exc)):
            res.violation('message:' + rule, 'rule %s is answered without a location: %s' % (rule, exc), schema=text)
        else:
            res.sample({'rule': rule, 'message': str(exc)[-200:]})
        if e.runtime:
            descriptor(res, prophy, e, rule, text)
    return res


ISAR_RULES = [r for r in illegal.RULES if r not in ('undeclared_type', 'undeclared_name', 'counter_twice')]
# in isar a counter is named otherwise than in the prophy language; undeclared names: known finding 'isar-undeclared'


def broken_isar(idx, seed, workdir, n):
    """The same edits in isar, or reached by a patch: refused."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c12bi', idx)
    for k in range(n):
        sch = gen.random_schema(rng, rng.randint(2, 5), gen.Opts(share_sizer=False))
        e = illegal.Edit(sch, rng)
        rule = ISAR_RULES[(idx * n + k) % len(ISAR_RULES)]
        getattr(e, rule)()
        defs = list(e.defs)
        if rng.random() < 0.5:
            rng.shuffle(defs)
        if rule == 'enumerator_range' and any(t in ('-1', '-2147483648', '1 - 2') for d in defs if isinstance(d, S.Enum) for t in d.texts.values()):
            continue        # isar enumerators are signed as well
        xml, patch = isar.render(defs, rng)
        if rng.random() < 0.4 and isinstance(e.target, S.Struct):
            # the offending type comes by a rule
            for f in e.target.fields:
                head = isar.attrs(name=f.name, type=isar.tname(f.type))
                if f.name.startswith('nw') and not isinstance(f.type, str) and xml.count('<member%s' % head) == 1:
                    xml = xml.replace('<member%s' % head, '<member%s' % isar.attrs(name=f.name, type='u16'))
                    patch = '%s type %s %s\n' % (e.target.name, f.name, f.type.name) + patch
                    res.note('isar_by_patch')
                    break
        d = os.path.join(workdir, 'bi%d_%d' % (idx, k))
        files = {'m.xml': xml, 'm.patch': patch}
        res.observe(digest(rule, xml, patch))
        src = pyrt.write(os.path.join(d, 'm.xml'), xml)
        args = ['--isar']
        if patch:
            args += ['--patch', pyrt.write(os.path.join(d, 'm.patch'), patch)]
        outs = [rng.choice(OUTS)] if rng.random() < 0.7 else list(OUTS[:3])
        for o in outs:
            args += [o, d]
        exc, err = pyrt.prophyc_main(args + [src])
        res.note('isar:' + rule)
        if exc is None:
            res.violation('isar-accepted:' + rule, 'prophyc accepts isar breaking rule %s (%s): %s' % (rule, ' '.join(outs), excerpt(e)), files=files)
        elif type(exc).__name__ != 'ProphycError':
            res.violation('exception:' + rule, 'isar breaking rule %s is answered by %s: %s' % (rule, type(exc).__name__, exc), files=files)
        else:
            res.sample({'isar rule': rule, 'message': str(exc)[-200:]})
    return res


BAD_NAMES = ('a-b', 'a b', '1a', 'a.b', 'a;b', 'a::b', 'a/b', '-', '9', 'a+1', "a'b", 'a"b', 'a\\', '*a', '(a)', 'a,b', 'a[1]', '#a', '@a',
             ' a', 'a ', 'a\nb')
COMMENTS = ("it's", "the 'best'", "''", "\\'", 'path\\', "ends in '''", "'''", "a ''' b", '"""', "x\\'", 'a\nb', '*/ x', '// y \\', '%s %d {0} {x}',
            u'żółw', '#if 1', "\\'''", '\\N{x}', '\\x', '\\u12')


def isar_probe(rng, position, name, comment):
    x = {p: p + '_x' for p in ('const', 'enumerator', 'enum', 'typedef', 'struct', 'union', 'field', 'arm', 'sizer')}
    if position:
        x[position] = name

    def a(**kw):
        if comment and rng.random() < 0.6:
            kw['comment'] = comment
        return ''.join(' %s=%s' % (k, quoteattr(v, {'\n': '&#10;'})) for k, v in kw.items())
    return ('<?xml version="1.0" encoding="utf-8"?>\n'
            '<x><constant%s/><enum%s><enum-member%s/><enum-member%s/></enum><typedef%s/><struct%s><member%s/><member%s/>'
            '<member%s><dimension%s/></member><member%s><dimension%s/></member></struct>'
            '<union%s><member%s/><member%s/></union></x>') % (
        a(name=x['const'], value='2'), a(name=x['enum']), a(name=x['enumerator'], value='1'), a(name='other_x', value='2'),
        a(name=x['typedef'], primitiveType='16 bit integer unsigned'), a(name=x['struct']), a(name=x['field'], type='u8'),
        a(name='e', type=x['enum']), a(name='t', type=x['typedef']), isar.attrs(size=x['const'] if position != 'const' else '3'),
        a(name='v', type='u32'), ' isVariableSize="true" size="4"' + a(variableSizeFieldName=x['sizer']),
        a(name=x['union']), a(name=x['arm'], type='u8', discriminatorValue='1'), a(name='other', type=x['enum'], discriminatorValue='2'))


# names defined nowhere: only warnings, see known finding 'isar-undeclared'
UNDECLARED = '<x><constant name="A" value="NOWHERE + 1"/><typedef name="T" type="Nowhere"/></x>'


def isar_texts(idx, seed, workdir, n):
    """Names that are no identifiers and any comments: a diagnostic, or outputs that work."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c12t', idx)
    for k in range(n):
        position = rng.choice(('const', 'enumerator', 'enum', 'typedef', 'struct', 'union', 'field', 'arm', 'sizer')) if rng.random() < 0.6 else None
        known = ''
        xml = isar_probe(rng, position, rng.choice(BAD_NAMES), rng.choice(COMMENTS) if position is None or rng.random() < 0.1 else None)
        if idx == 0 and k == 0:
            known, position, xml = 'isar-undeclared', 'nowhere', UNDECLARED
        d = os.path.join(workdir, 't%d_%d' % (idx, k))
        pyrt.write(os.path.join(d, 'm.xml'), xml)
        outs = [rng.choice(OUTS[:3])] if not known else ['--python_out']
        exc, err = compile_files(d, None, ['m'], outs, ['--isar'])
        res.observe(digest(xml, *outs))
        if exc is not None:
            res.note('text_rejected')
            if type(exc).__name__ != 'ProphycError':
                res.violation('exception:text', 'isar text is answered by %s: %s' % (type(exc).__name__, exc), files={'m.xml': xml})
            elif position is None:
                res.violation('valid-rejected', 'isar with comments is rejected: %s' % exc, files={'m.xml': xml})
            continue
        res.note('text_accepted')
        r = Result()
        if not usable(r, d, ['m'], outs, 'isar text', {'m.xml': xml}):
            res.violation(known or 'isar-text', r.violations[0]['what'], files={'m.xml': xml})
    return res


ELEMENTS = ('u8', 'u16', 'u32', 'u64', 'i8', 'r32', 'byte', 'T_enum', 'T_fixed', 'T_dyn', 'T_union', 'T_alias', 'T_dyn_alias')
PATCH_BASE = ('<x><enum name="T_enum"><enum-member name="T_one" value="1"/></enum><typedef name="T_alias" type="u16"/>'
              '<struct name="T_fixed"><member name="a" type="u64"/><member name="b" type="u8"/></struct>'
              '<struct name="T_dyn"><member name="a" type="u16"><dimension isVariableSize="true"/></member></struct>'
              '<typedef name="T_dyn_alias" type="T_dyn"/>'
              '<union name="T_union"><member name="x" type="u8" discriminatorValue="1"/><member name="y" type="T_fixed" discriminatorValue="2"/></union>'
              '<struct name="X">%s</struct><struct name="Y"><member name="x" type="X"/></struct></x>')


def patched_text(rng):
    """A struct of counters and members, of which a patch makes arrays bound to any of the counters."""
    members, rules, arrays = [], [], []
    for i in range(rng.randint(2, 8)):
        if i == 0 or rng.random() < 0.2:
            members.append(('n%d' % i, rng.choice(('u32', 'u32', 'u8', 'u16', 'u64', 'i32')), ''))
            continue
        name, x = 'm%d' % i, rng.random()
        dim = ''
        if x < 0.35:
            dim = '<dimension size="%d"/>' % rng.randint(1, 5)
        elif x < 0.45:
            dim = '<dimension isVariableSize="true"%s/>' % rng.choice(('', ' size="3"', ' variableSizeFieldName="@n0"'))
        members.append((name, rng.choice(ELEMENTS[:9] if rng.random() < 0.7 else ELEMENTS), dim))
        counters = [m[0] for m in members if m[0][0] == 'n']
        if x < 0.3:
            arrays.append('X limited %s %s' % (name, rng.choice(counters)))
        elif 0.45 <= x < 0.75:
            arrays.append('X dynamic %s %s' % (name, rng.choice(counters)))
    for _ in range(rng.randint(0, 2)):
        m = rng.choice(members)[0]
        rules.append(rng.choice(('X greedy %s' % m, 'X static %s 2' % m, 'X type %s %s' % (m, rng.choice(ELEMENTS)), 'X remove %s' % m,
                                 'X insert %d extra%d %s' % (rng.randint(0, len(members)), len(rules), rng.choice(ELEMENTS)),
                                 'X rename %s %s' % (m, 'other%d' % len(rules)), 'X rename Z%d' % len(rules), 'T_union struct',
                                 'X greedy %s' % members[-1][0])))
    if rng.random() < 0.5:
        rules = []
    rules = arrays + rules
    if rng.random() < 0.2:
        rng.shuffle(rules)
    return PATCH_BASE % ''.join('<member name="%s" type="%s">%s</member>' % m for m in members), ''.join(r + '\n' for r in rules)


def patched(idx, seed, workdir, n):
    """Any patch: a diagnostic, or outputs that work."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c12p', idx)
    accepted = 0
    while accepted < n:
        xml, patch = patched_text(rng)
        files = {'m.xml': xml, 'm.patch': patch}
        d = os.path.join(workdir, 'p%d' % idx)
        for f, t in files.items():
            pyrt.write(os.path.join(d, f), t)
        outs = list(OUTS[:3]) if rng.random() < 0.4 else ['--python_out', '--cpp_out']     # full C++ refuses more
        exc, err = compile_files(d, None, ['m'], outs, ['--isar', '--patch', os.path.join(d, 'm.patch')])
        res.observe(digest(xml, patch, *outs))
        if exc is not None:
            res.note('patch_rejected')
            accepted += 0.1
            if type(exc).__name__ != 'ProphycError':
                res.violation('exception:patch', 'patched isar is answered by %s: %s\n%s' % (type(exc).__name__, exc, patch), files=files)
            continue
        accepted += 1
        res.note('patch_accepted')
        if usable(res, d, ['m'], outs, 'patched isar', files):
            res.sample({'xml': xml[-300:], 'patch': patch})
    return res


def excerpt(e):
    return ' '.join(S.render_def(d) for d in e.defs[max(0, e.at - 3):e.at + 1]).replace('\n', ' ')[-700:]


def descriptor(res, prophy, e, rule, text):
    env = {'prophy': prophy}
    for d in e.defs:
        code = illegal.py_def(d)
        try:
            exec(code, env)
        except prophy.ProphyError:
            res.note('runtime_refused')
            return
        except Exception as x:
            res.violation('runtime-exception:' + rule, 'descriptor breaking rule %s is answered by %s: %s\n%s' % (
                rule, type(x).__name__, x, code), schema=text)
            return
    res.violation('runtime-accepted:' + rule, 'the Python runtime accepts descriptors breaking rule %s: %s' % (
        rule, ' '.join(illegal.py_def(d) for d in e.defs[max(0, e.at - 2):e.at + 1])[-700:]), schema=text)


def includes(idx, seed, workdir, n):
    """Names that clash through includes."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c12i', idx)
    for k in range(n):
        kinds = ['const %s = 1;\n', 'enum %s { E_%s = 3 };\n', 'enum E_%s { %s = 3 };\n', 'typedef u8 %s;\n', 'struct %s { u8 a; };\n',
                 'union %s { 1: u8 a; };\n']

        def define(tag):
            x = rng.choice(kinds)
            return x.replace('E_%s', tag) % 'Xname'
        shape = rng.choice(('own', 'two', 'nested', 'nested_two'))
        if shape == 'own':
            files = {'a': define('Ea'), 'm': '#include "a.prophy"\n' + define('Em')}
        elif shape == 'two':
            files = {'a': define('Ea'), 'b': define('Eb'), 'm': '#include "a.prophy"\n#include "b.prophy"\nstruct M { u8 x; };\n'}
        elif shape == 'nested':
            files = {'a': define('Ea'), 'b': '#include "a.prophy"\nstruct B { u8 x; };\n', 'm': '#include "b.prophy"\n' + define('Em')}
        else:
            files = {'a': define('Ea'), 'b': '#include "a.prophy"\nstruct B { u8 x; };\n', 'c': define('Ec'),
                     'm': '#include "b.prophy"\n#include "c.prophy"\nstruct M { u8 x; };\n'}
        d = os.path.join(workdir, 'i%d_%d' % (idx, k))
        for s, t in files.items():
            pyrt.write(os.path.join(d, s + '.prophy'), t)
        exc, err = pyrt.prophyc_main(['--python_out', d, os.path.join(d, 'm.prophy')])
        res.observe(digest(*files.values()))
        res.note('include_clash')
        if exc is None:
            res.violation('accepted:include-clash', 'prophyc accepts one name defined in two included files (%s): %r' % (shape, files), files=files)
        elif type(exc).__name__ != 'ProphycError' or not LOCATED.search(str(exc)):
            res.violation('message:include-clash', '%s: %s' % (type(exc).__name__, exc), files=files)
    return res


def main(tier=None):
    c = Check('C12', 'case = one schema: valid ones (generated into Python, raw and full C++; module imported, sources compiled on '
              'their own) and ones derived by one rule-breaking edit; distinct by text', tier=tier,
              assumptions=['identifiers are reserved neither for the generated code nor for the runtimes (known finding identifier)'])
    tasks = [('hot', i, c.seed, c.work) for i in range(gen.HOT)]
    tasks += [('prophy', i, c.seed, c.work) for i in range(c.scale(120, 800))]
    tasks += [('isar', i, c.seed, c.work) for i in range(c.scale(48, 300))]
    c.run(valid, tasks, mem=None)
    c.run(broken, [(i, c.seed, c.work, c.scale(240, 1200)) for i in range(8)])
    c.run(words, [(i, c.seed, c.work, c.scale(12, 120)) for i in range(8)], mem=None)
    c.run(broken_isar, [(i, c.seed, c.work, c.scale(100, 600)) for i in range(8)])
    c.run(isar_texts, [(i, c.seed, c.work, c.scale(24, 160)) for i in range(8)], mem=None)
    c.run(patched, [(i, c.seed, c.work, c.scale(12, 120)) for i in range(8)], mem=None)
    c.run(includes, [(i, c.seed, c.work, c.scale(40, 150)) for i in range(4)])
    for k, n in (('imported', 30), ('compiled.pp', 30), ('compiled.ppf', 25), ('runtime_refused', 50), ('include_clash', 30), ('word_rejected', 30), ('word_accepted', 8)):
        c.require(k, n)
    for k, n in (('isar_by_patch', 20), ('patch_rejected', 40), ('full_shared', 5), ('patch_accepted', 40), ('text_rejected', 30), ('text_accepted', 30)):
        c.require(k, n)
    for r in illegal.RULES:
        c.require('rule:' + r, 5)
    for r in ISAR_RULES:
        c.require('isar:' + r, 5)
    return c.finish(200)
