"""C13: prophyc always terminates with outputs or a designed diagnostic."""
import os
import re
import shutil
import subprocess
import sys
import traceback
from xml.etree import ElementTree
from lib import exprs, gen, illegal, isar, project, pyrt, schema as S
from lib.report import REPO, Check, Result, Hang, cpu_limit, derive, digest

LOCATED = re.compile(r'[^\n]+:\d+:\d+: error: \S')
SUFFIXES = {'--python_out': ('.py',), '--cpp_out': ('.pp.hpp', '.pp.cpp'), '--cpp_full_out': ('.ppf.hpp', '.ppf.cpp'),
            '--prophy_out': ('.prophy',)}
TOKEN = re.compile(r'[A-Za-z_]\w*|0x[0-9a-fA-F]+|\d+|<\.\.\.>|<<|>>|//[^\n]*|/\*.*?\*/|"[^"\n]*"|\s+|.', re.S)
WORDS = ['const', 'enum', 'typedef', 'struct', 'union', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'float', 'double', 'bytes',
         'byte', 'r32', 'include', 'X', 'a', '_', 'num_of_a', '{', '}', '[', ']', '<', '>', '<...>', '@', '*', ';', ':', ',', '=', '(',
         ')', '+', '-', '/', '<<', '>>', '|', '#', '"', '"x.prophy"', '""', '".', '//', '/*', '*/', '...', '.', '\\', '$', '0', '1', '-1',
         '4294967295', '4294967296', '18446744073709551616', '0x', '0xFFFFFFFF', '09', '1.5', '1e3', '\n', '\r\n', '\t', '\x00',
         '\x0c', '﻿', 'é', '世', '\'']
NASTY = ['1 << -1', '1 >> -1', '1 << 999999999999', '1 << 100000', '1 >> 999999999999', '1 / 0', '0 / 0', '1 / (2 - 2)', '7 / 2', '-7 / 2',
         '-1', '0', '--1', '- -1', '+1', '()', '(', ')', '1 +', '* 1', '1 2', '0x', '0xg', '08', '1.5', "'a'", '9' * 5000,
         '0x' + 'f' * 4000, '(' * 60 + '1' + ')' * 60, '(' * 3000 + '1' + ')' * 3000, '-' * 3000 + '1', '1' + ' + 1' * 3000, '1 | 2', '1 % 2',
         '1 ^ 2', '~1', '!1', 'nosuch', 'u8', 'struct', '1,2', '', ' ', '\n', 'é', '2147483648', '4294967295', '4294967296',
         '18446744073709551616', '1 << 62 << 62 << 62', '(1 << 40) * (1 << 40)', '1 << (1 << 40)']


def mutate_text(rng, text, names):
    toks = TOKEN.findall(text)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 8))):
        if not toks:
            toks = [rng.choice(WORDS)]
        i = rng.randrange(len(toks))
        op = rng.random()
        if op < 0.2:
            del toks[i]
        elif op < 0.35:
            toks.insert(i, rng.choice(WORDS))
        elif op < 0.5:
            toks[i] = rng.choice(WORDS)
        elif op < 0.6:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif op < 0.68:
            toks.insert(i, toks[i])
        elif op < 0.78 and names:
            ids = [k for k, t in enumerate(toks) if re.match(r'[A-Za-z_]', t)]
            if ids:
                toks[rng.choice(ids)] = rng.choice(names)
        elif op < 0.88:
            nums = [k for k, t in enumerate(toks) if t[:1].isdigit()]
            if nums:
                toks[rng.choice(nums)] = rng.choice(NASTY)
        elif op < 0.93:
            j = rng.randrange(len(toks))
            a, b = min(i, j), max(i, j)
            del toks[a:min(b, a + 40)]
        elif op < 0.97:
            t = toks[i]
            if t:
                k = rng.randrange(len(t))
                toks[i] = t[:k] + rng.choice(('', rng.choice('\x00\x7f!~^%&`aZ09_"\'<>'))) + t[k + 1:]
        else:
            toks = toks[:i]
    return ''.join(toks)


def valid_text(rng):
    sch = gen.random_schema(rng, rng.randint(1, 6), gen.Opts())
    names = [d.name for d in sch.defs]
    for d in sch.defs:
        if isinstance(d, S.Enum):
            names += [n for n, _ in d.members]
        if isinstance(d, S.Struct):
            names += [f.name for f in d.fields]
    return sch, S.render(sch), names


def recursive(rng, kind):
    """Definitions that lead back to themselves."""
    n = rng.randint(1, 4)
    out = []
    for i in range(n):
        nxt = 'T%d' % ((i + 1) % n)
        what = rng.choice(('struct', 'union', 'typedef', 'typedef', 'optional', 'array', 'enum', 'const', 'dynamic', 'size'))
        if rng.random() < 0.05:
            nxt = rng.choice(('u8', 'T%d_X' % i, 'E', 'byte', 'r32'))
        if kind == 'isar':
            out.append({
                'struct': '<struct name="T%d"><member name="a" type="%s"/></struct>',
                'union': '<union name="T%d"><member name="a" type="%s" discriminatorValue="1"/></union>',
                'typedef': '<typedef name="T%d" type="%s"/>',
                'optional': '<struct name="T%d"><member name="a" type="%s" optional="true"/></struct>',
                'array': '<struct name="T%d"><member name="a" type="%s"><dimension size="2"/></member></struct>',
                'dynamic': '<struct name="T%d"><member name="a" type="%s"><dimension isVariableSize="true"/></member></struct>',
                'enum': '<enum name="T%d"><enum-member name="E" value="%s"/></enum>',
                'const': '<constant name="T%d" value="%s"/>',
                'size': '<struct name="T%d"><member name="a" type="u8"><dimension size="%s"/></member></struct>'}[what] % (i, nxt))
        else:
            out.append({
                'struct': 'struct T%d { %s a; };', 'union': 'union T%d { 1: %s a; };', 'typedef': 'typedef %s T%d;',
                'optional': 'struct T%d { %s* a; };', 'array': 'struct T%d { %s a[2]; };', 'dynamic': 'struct T%d { %s a<>; };',
                'enum': 'enum T%d { E = %s };', 'const': 'const T%d = %s;', 'size': 'struct T%d { u8 a[%s]; };'}[what] % (
                    (i, nxt) if what != 'typedef' else (nxt, i)))
    rng.shuffle(out)
    text = builtin(rng, '\n'.join(out))
    if kind == 'isar':
        return '<x>\n%s\n</x>\n' % text
    return text + '\n'


def builtin(rng, text):
    """Definitions may use names of built-in types."""
    if rng.random() < 0.2:
        for i in range(4):
            text = re.sub(r'\bT%d\b' % i, rng.choice(('u8', 'u16', 'i32', 'byte', 'r64', 'T%d' % i)), text)
    return text


def deep(rng, kind):
    """Long chains."""
    n = rng.choice((50, 400, 1500))
    what = rng.choice(('struct', 'typedef', 'const', 'array', 'union'))
    order = list(range(n))
    if kind == 'isar' and rng.random() < 0.5:
        order.reverse()
    out = []
    for i in order:
        p = 'T%d' % (i - 1)
        if kind == 'isar':
            out.append({
                'struct': '<struct name="T%d"><member name="a" type="%s"/></struct>' % (i, p if i else 'u8'),
                'array': '<struct name="T%d"><member name="a" type="%s"><dimension size="1"/></member></struct>' % (i, p if i else 'u8'),
                'typedef': '<typedef name="T%d" type="%s"/>' % (i, p if i else 'u8'),
                'union': '<union name="T%d"><member name="a" type="%s" discriminatorValue="1"/></union>' % (i, p if i else 'u8'),
                'const': '<constant name="T%d" value="%s"/>' % (i, p if i else '1')}[what])
        else:
            out.append({
                'struct': 'struct T%d { %s a; };' % (i, p if i else 'u8'), 'array': 'struct T%d { %s a[1]; };' % (i, p if i else 'u8'),
                'typedef': 'typedef %s T%d;' % (p if i else 'u8', i), 'union': 'union T%d { 1: %s a; };' % (i, p if i else 'u8'),
                'const': 'const T%d = %s;' % (i, p if i else '1')}[what])
    if what != 'const':
        # an optional of the last one, and one of many ways down
        out.append('<struct name="Z"><member name="a" type="T%d" optional="true"/></struct>' % (n - 1) if kind == 'isar' else
                   'struct Z { T%d* a; };' % (n - 1))
    if rng.random() < 0.5:
        for i in range(40):
            t = 'W%d' % (i - 1) if i else 'u8'
            out.append('<struct name="W%d"><member name="a" type="%s"/><member name="b" type="%s"/></struct>' % (i, t, t) if kind == 'isar' else
                       'struct W%d { %s a; %s b; };' % (i, t, t))
        out.append('<struct name="Y"><member name="a" type="W9" optional="true"/></struct>' if kind == 'isar' else 'struct Y { W9* a; };')
        out.append('<struct name="V"><member name="a" type="W39" optional="true"/></struct>' if kind == 'isar' else 'struct V { W39* a; };')
    if kind == 'isar':
        return '<x>\n%s\n</x>\n' % '\n'.join(out)
    return '\n'.join(out) + '\n'


def prophy_case(rng):
    """(label, {file: text}, main file)"""
    x = rng.random()
    if x < 0.62:
        sch, text, names = valid_text(rng)
        return 'mutated', {'m.prophy': mutate_text(rng, text, names)}, 'm.prophy'
    if x < 0.70:
        return 'soup', {'m.prophy': ''.join(rng.choice(WORDS) + rng.choice(('', ' ', '\n')) for _ in range(rng.randint(0, 60)))}, 'm.prophy'
    if x < 0.74:
        raw = bytes(rng.randrange(256) for _ in range(rng.randint(0, 200)))
        return 'bytes', {'m.prophy': raw}, 'm.prophy'
    if x < 0.82:
        return 'recursive', {'m.prophy': recursive(rng, 'prophy')}, 'm.prophy'
    if x < 0.83:
        return 'deep', {'m.prophy': deep(rng, 'prophy')}, 'm.prophy'
    if x < 0.90:
        e = rng.choice(NASTY)
        t = rng.choice(('const X = %s;\n', 'enum X { X_A = %s };\n', 'struct X { u8 a[%s]; };\n', 'struct X { u8 a<%s>; };\n',
                        'union X { %s: u8 a; };\n', 'const X = (%s);\nconst Y = X + X;\n', 'const X = %s;\nstruct Y { u8 a[X]; };\n'))
        return 'expression', {'m.prophy': t % e}, 'm.prophy'
    # includes
    files = project.split(gen.random_schema(rng, rng.randint(2, 6), gen.Opts()).defs, rng, rng.randint(2, 4), 'scatter')
    texts = {}
    for f in files:
        inc = [g.stem + '.prophy' for g in f.includes]
        texts[f.stem + '.prophy'] = ''.join('#include "%s"\n' % i for i in inc) + S.render(f.defs)
    broken = rng.choice(list(texts))
    y = rng.random()
    if y < 0.3:
        name = rng.choice(('', '.', '..', '/', 'nowhere', 'x/y', '\x00', 'a' * 5000, broken, './' + broken, ' ' + broken, 'dir', 'é'))
        texts[broken] = '#include "%s"\n' % name + texts[broken]
    elif y < 0.5:
        other = rng.choice(list(texts))
        texts[broken] = '#include "%s"\n' % other + texts[broken]
    elif y < 0.6:
        texts[broken] = bytes(rng.randrange(256) for _ in range(30))
    elif y < 0.63:
        n = rng.choice((30, 150, 400))
        texts = {'c%d.prophy' % i: '#include "c%d.prophy"\nstruct C%d { u8 a; };\n' % (i + 1, i) for i in range(n)}
        texts['c%d.prophy' % n] = 'struct C%d { u8 a; };\n' % n
        return 'includes', texts, 'c0.prophy'
    else:
        texts[broken] = mutate_text(rng, texts[broken], [d.name for f in files for d in f.defs])
    return 'includes', texts, files[-1].stem + '.prophy'


ATTR = ['', ' ', '0', '-1', '1', 'x', 'u8', 'u32', 'true', '@', '@x', '@nosuch', 'THIS_IS_VARIABLE_SIZE_ARRAY', 'shiftLeft(1, 2)',
        'shiftLeft(', 'shiftLeft', 'shiftLeft(1)', 'shiftLeft(1, 2', 'shiftLeft(1, -1)', 'bitMaskOr(1, 2)', 'bitMaskOr()', 'bitMaskOr(1, 2, 3)',
        '8 bit integer unsigned', '7 bit integer unsigned', '4294967296', 'é', 'a b', 'T', '"', '\n', 'x.xml', '..', '/']
ATTRS = ['name', 'type', 'value', 'href', 'size', 'size2', 'isVariableSize', 'variableSizeFieldName', 'variableSizeFieldType', 'optional',
         'discriminatorValue', 'primitiveType', 'comment', 'other']
TAGS = ['constant', 'typedef', 'enum', 'enum-member', 'struct', 'union', 'message', 'member', 'dimension', 'include', 'xi', 'x']


def mutate_xml(rng, text, names):
    if rng.random() < 0.15:
        return mutate_text(rng, text, names)
    root = ElementTree.fromstring(text.encode())
    for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
        parents = {c: p for p in root.iter() for c in p}
        els = list(root.iter())
        e = rng.choice(els)
        op = rng.random()
        if op < 0.2 and e.attrib:
            del e.attrib[rng.choice(sorted(e.attrib))]
        elif op < 0.5 and e.attrib:
            e.attrib[rng.choice(sorted(e.attrib))] = rng.choice(ATTR + NASTY[:25] + names * 2)
        elif op < 0.6:
            e.attrib[rng.choice(ATTRS)] = rng.choice(ATTR + names)
        elif op < 0.7 and e in parents:
            parents[e].remove(e)
        elif op < 0.78 and e in parents:
            parents[e].append(e)
        elif op < 0.86:
            p = rng.choice(els)
            if e in parents and p is not e and e not in list(p.iter()) and p not in list(e.iter()):
                parents[e].remove(e)
                p.append(e)
        elif op < 0.93:
            e.tag = rng.choice(TAGS)
        else:
            n = ElementTree.SubElement(e, rng.choice(TAGS))
            for _ in range(rng.randint(0, 3)):
                n.attrib[rng.choice(ATTRS)] = rng.choice(ATTR + names)
    return ElementTree.tostring(root, encoding='unicode').replace('\x00', '')


def isar_case(rng):
    x = rng.random()
    if x < 0.08:
        return 'recursive', {'m.xml': recursive(rng, 'isar')}, 'm.xml', ''
    if x < 0.09:
        return 'deep', {'m.xml': deep(rng, 'isar')}, 'm.xml', ''
    if x < 0.13:
        raw = rng.choice(('', '<', '<x', '<x/>', '<x></y>', 'text', '<?xml version="1.0" encoding="ascii"?><x>é</x>',
                          '<!DOCTYPE x [<!ENTITY a "b">]><x>&a;</x>', '<x>&nosuch;</x>', '﻿<x/>', '<x>' * 2000 + '</x>' * 2000,
                          '<?xml version="1.0" encoding="nosuch"?><x/>', '<?xml version="1.0" encoding="utf-16"?><x/>',
                          '<?xml version="1.0" encoding="utf-7"?><x/>', '<?xml version="2.0"?><x/>', '<x:y/>', '<x a="1" a="2"/>'))
        return 'soup', {'m.xml': raw}, 'm.xml', ''
    if x < 0.16:
        return 'bytes', {'m.xml': b'<x>' + bytes(rng.randrange(256) for _ in range(rng.randint(0, 50))) + b'</x>'}, 'm.xml', ''
    sch, _, names = valid_text(rng)
    if x < 0.3:
        e = rng.choice(NASTY).replace('\x00', '')
        t = rng.choice(('<x><constant name="X" value=%s/></x>', '<x><enum name="X"><enum-member name="A" value=%s/></enum></x>',
                        '<x><struct name="X"><member name="a" type="u8"><dimension size=%s/></member></struct></x>',
                        '<x><struct name="X"><member name="a" type="u8"><dimension size="2" size2=%s/></member></struct></x>',
                        '<x><union name="X"><member name="a" type="u8" discriminatorValue=%s/></union></x>',
                        '<x><constant name="Y" value=%s/><struct name="X"><member name="a" type="u8"><dimension size="Y"/></member></struct></x>'))
        from xml.sax.saxutils import quoteattr
        return 'expression', {'m.xml': t % quoteattr(e)}, 'm.xml', ''
    for d in sch.defs:
        if isinstance(d, S.Enum):
            seen = set()
            d.members = [m for m in d.members if not (m[1] in seen or seen.add(m[1]))]
    files = project.split(sch.defs, rng, rng.randint(1, 3), 'scatter')
    texts, patch = {}, ''
    for f in files:
        t, p = isar.render(f.defs, rng, includes=[g.stem + '.xml' for g in f.includes])
        texts[f.stem + '.xml'] = t
        patch += p
    broken = rng.choice(list(texts))
    if x < 0.75:
        texts[broken] = mutate_xml(rng, texts[broken], names)
        return 'mutated', texts, files[-1].stem + '.xml', patch
    # patches
    words = names + ['type', 'insert', 'remove', 'dynamic', 'greedy', 'static', 'limited', 'struct', 'rename', '0', '1', '999', '-1', 'x',
                     'u8', 'u32', 'nosuch', 'é']
    lines = patch.split('\n')
    heads = [d.name for f in files for d in f.defs]
    for _ in range(rng.randint(1, 4)):
        line = [rng.choice(heads)] if rng.random() < 0.8 else []
        if rng.random() < 0.8:
            line.append(rng.choice(('type', 'insert', 'remove', 'dynamic', 'greedy', 'static', 'limited', 'struct', 'rename')))
            d = [x for f in files for x in f.defs if line[0] == x.name]
            own = [y.name for y in getattr(d[0], 'fields', None) or getattr(d[0], 'arms', None) or ()] if d else []
            if own and rng.random() < 0.7:
                line.append(rng.choice(own))
                if rng.random() < 0.7:
                    line.append(rng.choice(own + words))
        line += [rng.choice(words) for _ in range(rng.choice((0, 0, 0, 1, 2, 3)))]
        lines.insert(rng.randint(0, len(lines)), rng.choice((' ', ' ', '\t')).join(line))
    text = '\n'.join(lines)
    if rng.random() < 0.03:
        text = bytes(rng.randrange(256) for _ in range(30))
    return 'patch', texts, files[-1].stem + '.xml', text


def options(rng, d, mode, main_file, patch):
    args = list(mode)
    outs = []
    for o in SUFFIXES:
        if rng.random() < 0.5:
            outs.append(o)
    if not outs:
        outs = [rng.choice(list(SUFFIXES))]
    args += [x for o in outs for x in (o, os.path.join(d, 'out'))]
    if patch:
        args += ['--patch', os.path.join(d, 'patch')]
    if rng.random() < 0.1:
        args.append('--quiet')
    if rng.random() < 0.1:
        args += ['-I', os.path.join(d, 'dir')]
    return args + [os.path.join(d, main_file)], outs


def frames(e):
    names = [f.name for f in traceback.extract_tb(e.__traceback__) if os.sep + 'prophyc' + os.sep in f.filename]
    return names[-1] if names else '?'


def judge(res, label, e, err, args, outs, d, main_file, files, located):
    stem = os.path.splitext(os.path.basename(main_file))[0]
    if isinstance(e, Hang):
        res.violation('hang', '%s: prophyc does not finish in 60 s of CPU time' % label, args=args, files=files)
        return False
    if e is None:
        res.note('accepted')
        for o in outs:
            for s in SUFFIXES[o]:
                if not os.path.exists(os.path.join(d, 'out', stem + s)):
                    res.violation('output', '%s: prophyc succeeds without writing %s' % (label, stem + s), args=args, files=files)
        return True
    if type(e).__name__ != 'ProphycError':
        res.violation('%s@%s' % (type(e).__name__, frames(e)), '%s: %s escapes from %s: %s' % (
            label, type(e).__name__, frames(e), str(e)[:300]), args=args, files=files)
        return True
    res.note('diagnosed')
    text = str(e)
    if not re.match(r'prophyc: error: .*\S', text, re.S):
        res.violation('message', '%s: diagnostic without reason: %r' % (label, text[:300]), args=args, files=files)
    if located and not LOCATED.search(text):
        # messages of back-ends name no place in the text; front-end ones do
        e2, err2 = run(['--void_out'] + [a for a in args[-1:]])
        if 'utf-8' in text and any(t.startswith("b'") or t.startswith('b"') for t in files.values()):
            res.note('not text')
        elif 'too deeply' in text and len(files) > 5:
            res.note('too deep')
        elif e2 is not None and not LOCATED.search(str(e2)):
            res.violation('location', '%s: diagnostic without location: %r' % (label, text[:300]), args=args, files=files)
        else:
            res.note('back-end')
    elif located:
        res.note('located')
    return True


def run(args):
    try:
        with cpu_limit(60):
            return pyrt.prophyc_main(args)
    except Hang:
        return Hang(), ''
    except SystemExit as e:
        return e, ''


def fuzz(idx, kind, seed, workdir, n):
    res = Result()
    pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c13', kind, idx, k)
        if kind == 'prophy':
            label, files, main_file = prophy_case(rng)
            mode, patch = [], ''
        else:
            label, files, main_file, patch = isar_case(rng)
            mode = ['--isar']
        d = os.path.join(workdir, '%s%d_%d' % (kind, idx, k))
        os.makedirs(os.path.join(d, 'out'))
        os.makedirs(os.path.join(d, 'dir'))
        for f, t in files.items():
            pyrt.write(os.path.join(d, f), t if isinstance(t, bytes) else t.encode('utf-8', 'surrogatepass'))
        shown = {f: t if isinstance(t, str) else repr(t) for f, t in list(files.items())[:6]}
        if patch:
            pyrt.write(os.path.join(d, 'patch'), patch if isinstance(patch, bytes) else patch.encode())
            shown['patch'] = patch if isinstance(patch, str) else repr(patch)
        args, outs = options(rng, d, mode, main_file, patch)
        res.observe(digest(*[t if isinstance(t, bytes) else t.encode() for t in files.values()] + [repr(patch)]))
        res.sample({'kind': kind, 'files': {f: repr(t)[:300] for f, t in files.items()}, 'patch': repr(patch)[:100]}, 1)
        e, err = run(args)
        res.note('%s_%s' % (kind, label))
        if not judge(res, label, e, err, args, outs, d, main_file, shown, kind == 'prophy'):
            return res
        shutil.rmtree(d, ignore_errors=True)
    return res


WORD = re.compile(r'/\*.*?\*/|//[^\n]*|"[^"\n]*"|0x[0-9a-fA-F]+|\w+|<<|>>|\.\.\.|[^\s\w]', re.S)


def words(text):
    return [m for m in WORD.finditer(text) if not m.group().startswith(('//', '/*', '"'))]


def strew(rng, text):
    """Comments, blank lines and indentation at ends of lines."""
    out = []
    for line in text.split('\n'):
        if line.startswith('#'):
            out.append(line)
            continue
        out.append(' ' * rng.choice((0, 0, 0, 1, 7)) + line + rng.choice(('', '', '', '', '  ', ' // x', ' /* y */', ' /* a\n b\n\n*/', '\n\n', '\t')))
    return '\n'.join(out)


def fault(rng, text):
    """(text with one fault, offset of the fault, what its diagnostic has to name)"""
    toks = words(text)
    starts = [m.start() for m in re.finditer(r'^ *(?:struct|union|enum|typedef|const) ', text, re.M)]
    kind = rng.choice(('illegal', 'illegal', 'stray', 'type', 'type', 'size', 'size', 'name', 'field', 'arm'))
    if kind == 'illegal':
        at = rng.choice(toks).start()
        c = rng.choice('$`~^&%|?!')
        return kind, text[:at] + c + ' ' + text[at:], at, c
    if kind == 'stray':
        at = rng.choice(starts)
        c = rng.choice(('}', ';', ')', '7', '0x1F', '<', 'nosuch'))
        return kind, text[:at] + c + '\n' + text[at:], at, c
    if kind == 'type':
        found = [m for m in re.finditer(r'^ +(\w+)\*? \w+(?: ?[;<\[])', text, re.M) if m.group(1) not in ('struct', 'const', 'enum', 'union', 'typedef')]
        if found:
            m = rng.choice(found)
            if m.group(1) != 'bytes':
                return kind, text[:m.start(1)] + 'Nosuch' + text[m.end(1):], m.start(1), 'Nosuch'
    if kind == 'size':
        found = list(re.finditer(r'[\[<](\w+)[\]>];', text))
        if found:
            m = rng.choice(found)
            return kind, text[:m.start(1)] + 'NOSUCH' + text[m.end(1):], m.start(1), 'NOSUCH'
    if kind == 'name':
        name = rng.choice(re.findall(r'^ *(?:struct|union|enum|const) (\w+)', text, re.M))
        at = len(text) + 7
        return kind, text + '\nconst ' + name + ' = 1;\n', at, name
    if kind == 'field':
        name = 'q%d' % rng.randrange(9)
        bad = '\nstruct Nosuch_s\n{\n u8 %s;\n\n  u8 ' % name
        return kind, text + bad + name + ';\n};\n', len(text) + len(bad), name
    if kind == 'arm':
        bad = '\nunion Nosuch_u\n{\n 1: u8 a;\n  77: u8 b;\n\n'
        return kind, text + bad + '  77: u8 c;\n};\n', len(text) + len(bad), '77'
    at = rng.choice(toks).start()
    return 'illegal', text[:at] + '$ ' + text[at:], at, '$'


def positions(idx, seed, workdir, n):
    """One fault at a known place: one of the diagnostics gives the place."""
    res = Result()
    pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c13p', idx, k)
        text = strew(rng, valid_text(rng)[1])
        kind, text, at, name = fault(rng, text)
        d = os.path.join(workdir, 'p%d_%d' % (idx, k))
        os.makedirs(os.path.join(d, 'out'))
        os.makedirs(os.path.join(d, 'dir'))
        files = {'m.prophy': text}
        faulty = main_file = 'm.prophy'
        if rng.random() < 0.4:
            faulty = rng.choice(('inc.prophy', 'dir/inc.prophy'))
            files = {faulty: text, 'm.prophy': strew(rng, 'struct Before { u8 a; };\n#include "%s"\nstruct After { u8 a; };\n' % faulty)}
            res.note('position_included')
        if rng.random() < 0.5:
            # a sound file parsed before the faulty one
            files['ok.prophy'] = '\n' * rng.randint(0, 5) + 'struct Sound {\n    u8 a;\n};\n'
            if rng.random() < 0.5:
                files['m.prophy'] = '#include "ok.prophy"\n' + files['m.prophy']
                if faulty == 'm.prophy':
                    text, at = files['m.prophy'], at + 21
        for f, t in files.items():
            pyrt.write(os.path.join(d, f), t)
        args, outs = options(rng, d, [], main_file, None)
        if 'ok.prophy' in files:
            args.insert(len(args) - 1, os.path.join(d, 'ok.prophy'))
        e, err = run(args)
        res.observe(digest('pos', text, faulty))
        line = text.count('\n', 0, at) + 1
        col = at - (text.rfind('\n', 0, at) + 1) + 1
        if kind != 'illegal' and isinstance(e, type(None)):
            res.violation('accepted', 'a text with a fault (%s) is accepted' % kind, args=args, files=files, line=line, column=col)
        elif e is None:
            res.note('position_ignored')
        elif judge(res, 'position', e, err, args, outs, d, main_file, files, True) and type(e).__name__ == 'ProphycError':
            res.note('position_' + kind)
            # fields and arms may be pointed at by any of their tokens
            exact = r'%d:%s' % (line, r'\d+' if kind in ('name', 'field', 'arm') else col)
            if not re.search(r"(^|[ /])%s:%s: error: .*%s" % (re.escape(os.path.basename(faulty)), exact, re.escape(name)), str(e), re.M):
                res.violation('position', '%s at %s:%d:%d diagnosed as %r' % (kind, faulty, line, col, str(e)[:400]), args=args, files=files)
        shutil.rmtree(d, ignore_errors=True)
    return res


def argv(idx, seed, workdir, n):
    """Combinations of options, good and bad."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c13o', idx)
    d = os.path.join(workdir, 'o%d' % idx)
    out = os.path.join(d, 'out')
    os.makedirs(out)
    p = pyrt.write(os.path.join(d, 'm.prophy'), 'struct X { u8 a; };\n')
    q = pyrt.write(os.path.join(d, 'n.prophy'), '#include "m.prophy"\nstruct Y { X a; };\n')
    x = pyrt.write(os.path.join(d, 'i.xml'), '<x><struct name="X"><member name="a" type="u8"/></struct></x>\n')
    h = pyrt.write(os.path.join(d, 's.hpp'), '#include <stdint.h>\nstruct S { uint8_t a; };\n')
    patch = pyrt.write(os.path.join(d, 'patch'), 'X type a u16\n')
    bad = os.path.join(d, 'nowhere')
    pool = [['--isar'], ['--sack'], ['--python_out', out], ['--cpp_out', out], ['--cpp_full_out', out], ['--prophy_out', out],
            ['--python_out', bad], ['--cpp_out', p], ['--python_out'], ['--void_out'], ['--quiet'], ['-I', d], ['-I', bad], ['-I'], ['-I', p],
            ['-S', x], ['-S', bad], ['-S', p], ['-S'], ['--patch', patch], ['--patch', bad], ['-p', d], ['--patch'], [p], [q], [x], [h], [bad], [d],
            [p, p], [''], ['--nosuch'], ['-x'], ['--'], ['--pyth', out], ['--python_out=' + out], ['--python_out='], ['@x'], ['-'],
            ['--isar=1'], ['--prophy_out', d]]
    for k in range(n):
        args = []
        for _ in range(rng.choice((0, 1, 2, 3, 3, 4, 5))):
            args += rng.choice(pool)
        if rng.random() < 0.5:
            args += rng.choice((['--python_out', out, p], ['--isar', '--cpp_out', out, x], ['--cpp_full_out', out, q]))
        e, err = run(args)
        res.observe(digest(*args))
        res.sample({'options': [str(a)[-60:] for a in args]}, 1)
        res.note('argv')
        files = {}
        if isinstance(e, Hang):
            res.violation('hang', 'prophyc does not finish', args=args)
            return res
        if isinstance(e, SystemExit):
            res.violation('exit', 'prophyc.main exits: %r' % e.code, args=args)
        elif e is None:
            res.note('accepted')
        elif type(e).__name__ != 'ProphycError':
            res.violation('%s@%s' % (type(e).__name__, frames(e)), 'options: %s escapes from %s: %s' % (
                type(e).__name__, frames(e), str(e)[:300]), args=args, files=files)
        elif not re.match(r'prophyc: error: .*\S', str(e), re.S):
            res.violation('message', 'options: diagnostic without reason: %r' % str(e)[:300], args=args)
        else:
            res.note('diagnosed')
        pyrt.write(p, 'struct X { u8 a; };\n')
        pyrt.write(q, '#include "m.prophy"\nstruct Y { X a; };\n')
    return res


def command(idx, seed, workdir, n):
    """The command line: status, streams, outputs."""
    res = Result()
    root = REPO
    for k in range(n):
        rng = derive(seed, 'c13cmd', idx, k)
        kind = rng.choice(('prophy', 'isar'))
        if kind == 'prophy':
            label, files, main_file = prophy_case(rng) if rng.random() < 0.7 else ('valid', {'m.prophy': valid_text(rng)[1]}, 'm.prophy')
            patch = ''
        else:
            label, files, main_file, patch = isar_case(rng)
        d = os.path.join(workdir, 'cmd%d_%d' % (idx, k))
        os.makedirs(os.path.join(d, 'out'))
        os.makedirs(os.path.join(d, 'dir'))
        for f, t in files.items():
            pyrt.write(os.path.join(d, f), t if isinstance(t, bytes) else t.encode('utf-8', 'surrogatepass'))
        if patch:
            pyrt.write(os.path.join(d, 'patch'), patch if isinstance(patch, bytes) else patch.encode())
        args, outs = options(rng, d, ['--isar'] if kind == 'isar' else [], main_file, patch)
        env = dict(os.environ, PYTHONPATH=root, PYTHONHASHSEED='0')
        shown = {f: t if isinstance(t, str) else repr(t) for f, t in list(files.items())[:6]}
        try:
            p = subprocess.run([sys.executable, '-m', 'prophyc'] + args, cwd=d, env=env, capture_output=True, timeout=600)
        except subprocess.TimeoutExpired:
            res.violation('hang', 'python -m prophyc does not finish', args=args, files=shown)
            return res
        res.observe(digest('cmd', repr(files)))
        res.note('command')
        err = p.stderr.decode('utf-8', 'replace')
        if p.returncode not in (0, 1) or 'Traceback' in err:
            res.violation('command', 'python -m prophyc ends with status %d: %s' % (p.returncode, err[-600:]), args=args, files=shown)
        elif p.returncode == 1 and not re.search(r'^prophyc: error: .*\S', err, re.M | re.S):
            res.violation('command', 'python -m prophyc fails with %r' % err[-600:], args=args, files=shown)
        elif p.returncode == 0:
            res.note('command_ok')
            stem = os.path.splitext(main_file)[0]
            for o in outs:
                for s in SUFFIXES[o]:
                    if not os.path.exists(os.path.join(d, 'out', stem + s)):
                        res.violation('output', 'python -m prophyc succeeds without writing %s' % (stem + s), args=args, files=shown)
        shutil.rmtree(d, ignore_errors=True)
    return res


def main(tier=None):
    c = Check('C13', 'case = one set of input files and options given to prophyc; distinct by contents', tier=tier)
    c.run(fuzz, [(i, 'prophy', c.seed, c.work, c.scale(250, 3000)) for i in range(16)])
    c.run(fuzz, [(i, 'isar', c.seed, c.work, c.scale(250, 3000)) for i in range(16)])
    c.run(positions, [(i, c.seed, c.work, c.scale(60, 600)) for i in range(8)])
    c.run(argv, [(i, c.seed, c.work, c.scale(100, 500)) for i in range(4)])
    c.run(command, [(i, c.seed, c.work, c.scale(8, 40)) for i in range(8)])
    for k, n in (('prophy_mutated', 1500), ('prophy_soup', 100), ('prophy_bytes', 50), ('prophy_recursive', 100), ('prophy_deep', 10),
                 ('prophy_expression', 100), ('prophy_includes', 100), ('isar_mutated', 800), ('isar_patch', 500), ('isar_recursive', 100),
                 ('isar_soup', 50), ('isar_expression', 200), ('accepted', 500), ('diagnosed', 1000), ('argv', 300), ('command', 50),
                 ('command_ok', 5), ('position_illegal', 50), ('position_stray', 20), ('position_type', 30), ('position_size', 10),
                 ('position_name', 20), ('position_field', 20), ('position_arm', 20), ('position_included', 80)):
        c.require(k, n)
    return c.finish(1000)
