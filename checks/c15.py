"""C15: definition order does not matter; output is dependency-ordered and complete."""
import itertools
import os
import re
from lib import gen, isar, oracle, pyrt, schema as S
from lib.report import Check, Result, Hang, cpu_limit, derive, digest

KINDS = ('const', 'enum', 'typedef', 'struct', 'union')
# names that contain each other, look like numbered or built-in types
STEMS = ('A', 'A1', 'A10', 'A1_len', 'AA', 'a', 'B', 'Ba', 'b2', 'TFoo', 'TFoo2', 'Foo', 'u8x', 'i32_t', 'r320', 'x_u8', 'num', 'num_of_a',
         'Z', 'ZZ', 'S', 'Ss', 'u', 'r8', 'r16', 'U8', 'M_', 'M_1', 'shiftLeftX', 'e1', 'x0', 'x0F')


def symbols(text):
    return set(re.findall(r'\b[A-Za-z_]\w*', text or ''))


def needs(d, owner):
    """Names of definitions d depends on, as the harness knows it."""
    out = set()
    if isinstance(d, S.Const):
        out |= symbols(isar.plain(d))
    elif isinstance(d, S.Enum):
        for t in d.texts.values():
            out |= symbols(t)
    elif isinstance(d, S.Typedef):
        out.add(S.type_name(d.target))
    elif isinstance(d, S.Struct):
        for f in d.fields:
            out.add(S.type_name(f.type))
            out |= symbols(f.size_text)
    else:
        for a in d.arms:
            out.add(S.type_name(a.type))
            out |= symbols(a.disc_text)
    return {owner[n] for n in out if n in owner} - {d.name}


def owners(defs):
    out = {}
    for d in defs:
        out[d.name] = d.name
        if isinstance(d, S.Enum):
            for n, _ in d.members:
                out[n] = d.name
    return out


def make(kind, name, deps, rng):
    """A definition of the kind using all the deps, or None if it cannot."""
    values = []      # (text, value) of constants
    types = []
    for d in deps:
        if isinstance(d, S.Const):
            values.append((d.name, d.value))
        elif isinstance(d, S.Enum):
            x = rng.choice(d.members)
            if kind in ('typedef', 'struct', 'union') and rng.random() < 0.5:
                types.append(d)
            else:
                values.append(x)
        else:
            types.append(d)
    total = sum(v for _, v in values)
    text = rng.choice((' + ', '+')).join(t for t, _ in values)
    if kind == 'const':
        if types:
            return None
        k = rng.randint(0, 3)
        return S.Const(name, total + k, '%s + %d' % (text, k) if values else str(k)) if k or not values else S.Const(name, total, text)
    if kind == 'enum':
        if types:
            return None
        ms, texts, k = [], {}, 0
        for t, v in values:
            k += 1
            n = '%s_%d' % (name, k)
            ms.append((n, v + 10 * k))
            texts[n] = '%s + %d' % (t, 10 * k)
        if not ms or rng.random() < 0.3:
            n = name + '_z'
            ms.append((n, 1))
        if len({v for _, v in ms}) != len(ms):
            return None
        return S.Enum(name, ms, texts)
    if kind == 'typedef':
        if values or len(types) > 1:
            return None
        return S.Typedef(name, types[0] if types else rng.choice(S.INTS))
    if kind == 'struct':
        fields = []
        for i, (t, v) in enumerate(values):
            if not 0 < v < 60:
                return None
            fields.append(S.Field('v%d' % i, rng.choice(('u8', 'u32')), rng.choice(('fixed', 'limited')), v, size_text=t))
        for i, t in enumerate(types):
            k = oracle.layout(t).kind
            shape = rng.choice(('plain', 'optional', 'fixed', 'dynamic') if k == S.FIXED else ('plain', 'dynamic'))
            fields.append(S.Field('t%d' % i, t, shape, 2 if shape == 'fixed' else None))
            if rng.random() < 0.2:
                fields.append(S.Field('w%d' % i, t))
        rng.shuffle(fields)
        if not fields or rng.random() < 0.3:
            fields.insert(0, S.Field('q', rng.choice(('u8', 'u64'))))
        return S.Struct(name, fields)
    arms = []
    if any(oracle.layout(t).kind != S.FIXED for t in types):
        return None
    n = max(len(types), len(values), 1)
    for i in range(n):
        t = types[i] if i < len(types) else rng.choice(('u8', 'u64'))
        if i < len(values):
            txt, v = values[i]
            arms.append(S.Arm('t%d' % i, t, v + 100 * i, '%s + %d' % (txt, 100 * i) if i else txt))
        else:
            arms.append(S.Arm('t%d' % i, t, 5000 + i))
    if len({a.disc for a in arms}) != len(arms):
        return None
    return S.Union(name, arms)


def dag(n, edges, rng):
    """Random definitions realising the dependency graph: node i depends on j < i where edges has (j, i)."""
    for _ in range(200):
        names = rng.sample(STEMS, n)
        defs = []
        for i in range(n):
            deps = [defs[j] for j in range(i) if (j, i) in edges]
            for kind in rng.sample(KINDS + ('struct',), 6):
                d = make(kind, names[i], deps, rng)
                if d is not None:
                    break
            if d is None:
                break
            defs.append(d)
        else:
            if max([oracle.layout(d).size or 0 for d in defs if not isinstance(d, S.Const)] + [0]) < 4000:
                return defs
    return None


def observe(res, text, patch, defs, d):
    """One ordering through prophyc: order, completeness, import, layouts, values."""
    src = pyrt.write(os.path.join(d, 'm.xml'), text)
    args = ['--isar', '--quiet', '--python_out', d]
    if patch:
        args += ['--patch', pyrt.write(os.path.join(d, 'm.patch'), patch)]
    try:
        with cpu_limit(60):
            e, err, nodes = pyrt.prophyc_nodes(args + [src])
    except Hang:
        res.violation('hang', 'prophyc does not finish on acyclic definitions: %s' % text, schema=text)
        return False
    if e is not None:
        res.violation('rejected', 'acyclic definitions are answered by %s: %s\n%s' % (type(e).__name__, e, text), schema=text)
        return True
    names = [n.name for n in nodes['m'] if type(n).__name__ != 'Include']
    want = sorted(x.name for x in defs)
    if sorted(names) != want:
        res.violation('incomplete', 'definitions %s give nodes %s: %s' % (want, names, text), schema=text)
        return True
    owner = owners(defs)
    place = {n: i for i, n in enumerate(names)}
    for x in defs:
        for y in needs(x, owner):
            if place[y] > place[x.name]:
                res.violation('order', '%s comes before %s it depends on: %s from %s' % (x.name, y, names, text), schema=text)
                return True
    out = open(os.path.join(d, 'm.py')).read()
    spots = {}
    for x in defs:
        pat = r'^class %s\(' if not isinstance(x, (S.Const, S.Typedef)) else r'^%s = '
        found = [m.start() for m in re.finditer(pat % re.escape(x.name), out, re.M)]
        if len(found) != 1:
            res.violation('output-count', 'module defines %s %d times: %s' % (x.name, len(found), text), schema=text)
            return True
        spots[x.name] = found[0]
    env = {'__name__': 'permuted'}
    try:
        exec(compile(out, os.path.join(d, 'm.py'), 'exec'), env)
    except Exception as x:
        res.violation('import', 'module from permuted definitions does not import: %s: %s\n%s\n%s' % (type(x).__name__, x, text, out), schema=text)
        return True
    res.note('ordered')
    for x in defs:
        if isinstance(x, S.Const):
            got = env[x.name]
            if got != x.value:
                res.violation('value', 'constant %s is %r, not %d: %s' % (x.name, got, x.value, text), schema=text)
        elif isinstance(x, S.Enum):
            for n, v in x.members:
                if env[n] != v:
                    res.violation('value', 'enumerator %s is %r, not %d: %s' % (n, env[n], v, text), schema=text)
        elif isinstance(x, (S.Struct, S.Union)):
            lay = oracle.layout(x)
            cls = env[x.name]
            node = [n for n in nodes['m'] if n.name == x.name][0]
            got = (node.byte_size, node.alignment, node.kind)
            if (node.alignment, node.kind) != (lay.align, lay.kind) or (lay.kind == S.FIXED and node.byte_size != lay.size):
                res.violation('layout', '%s has size/alignment/kind %r, not %r: %s' % (x.name, got, (lay.size, lay.align, lay.kind), text), schema=text)
            v = gen.ValueGen(derive('v', x.name)).value(x)
            m = cls()
            pyrt.assign(m, x, v)
            if m.encode('<') != oracle.encode(x, v, '<'):
                res.violation('encoding', '%s is encoded as %s, not %s: %s' % (
                    x.name, m.encode('<').hex(), oracle.encode(x, v, '<').hex(), text), schema=text)
            res.note('layouts')
    return True


def graphs(idx, nproc, n, variants, perms, seed, workdir):
    """Every dependency graph over n definitions, every (or many) orders of them in the input."""
    res = Result()
    pyrt.setup()
    pairs = list(itertools.combinations(range(n), 2))
    d = os.path.join(workdir, 'g%d_%d' % (n, idx))
    for mask in range(idx, 1 << len(pairs), nproc):
        edges = {p for i, p in enumerate(pairs) if mask >> i & 1}
        for k in range(variants):
            rng = derive(seed, 'c15', n, mask, k)
            defs = dag(n, edges, rng)
            if defs is None:
                res.note('not_realised')
                continue
            orders = list(itertools.permutations(range(n)))
            if perms and len(orders) > perms:
                orders = rng.sample(orders, perms)
            for o in orders:
                text, patch = isar.render([defs[i] for i in o], derive(seed, mask, k), patch=False)
                res.observe(digest(text))
                if not observe(res, text, patch, defs, d):
                    return res
            res.note('graphs')
            res.sample({'edges': sorted(edges), 'xml': text[-400:]})
    return res


def randoms(idx, seed, workdir, n, orders):
    """Larger random schemas in random orders, with constants and enumerators used everywhere."""
    res = Result()
    pyrt.setup()
    for k in range(n):
        rng = derive(seed, 'c15r', idx, k)
        if rng.random() < 0.5:
            m = rng.randint(6, 30)
            p = rng.choice((0.08, 0.15, 0.3))
            defs = dag_large(m, p, rng)
        else:
            defs = gen.random_schema(rng, rng.randint(4, 16), gen.Opts()).defs
        d = os.path.join(workdir, 'r%d_%d' % (idx, k))
        for o in range(orders):
            order = list(defs)
            if o == 0:
                order.reverse()
            elif o > 1:
                rng.shuffle(order)
            text, patch = isar.render(order, derive(seed, idx, k, o))
            res.observe(digest(text))
            if not observe(res, text, patch, defs, d):
                return res
        res.note('random')
    return res


def chains(idx, seed, workdir, depth):
    """Long chains of definitions, last first and in random orders; a struct that uses all of them."""
    res = Result()
    pyrt.setup()
    rng = derive(seed, 'c15chain', idx)
    c, t = S.Struct('C0', [S.Field('a', 'u8')]), S.Typedef('T0', 'u16')
    defs = [S.Const('K0', 1, '1'), c, t]
    for i in range(1, depth):
        t = S.Typedef('T%d' % i, t if idx % 2 else c)
        c = S.Struct('C%d' % i, [S.Field('a', c), S.Field('b', t)] if idx % 2 else [S.Field('a', t)])
        defs += [S.Const('K%d' % i, 1 + i, 'K%d + 1' % (i - 1)), t, c]
    structs = [x for x in defs if isinstance(x, S.Struct)]
    defs.append(S.Struct('All', [S.Field('m%d' % i, x) for i, x in enumerate(structs[:40])] + [S.Field('s', 'u8', 'fixed', 1 + 1, size_text='K1')]))
    for o in range(4):
        order = list(reversed(defs))
        if o:
            rng.shuffle(order)
        text, patch = isar.render(order, derive(seed, 'chain', idx, o), patch=False)
        res.observe(digest(text))
        if not observe(res, text, patch, defs, os.path.join(workdir, 'chain%d' % idx)):
            return res
        res.note('chains')
    return res


def dag_large(n, p, rng):
    """Definitions with random dependencies on earlier ones."""
    defs = []
    i = 0
    while len(defs) < n:
        i += 1
        name = '%s%d' % (rng.choice(STEMS), i) if rng.random() < 0.7 else 'N%d' % i
        if name in owners(defs) or re.match('[uir](8|16|32|64)$', name) and name not in ('r8', 'r16'):
            continue
        deps = [x for x in defs if rng.random() < p][:5]
        for kind in rng.sample(KINDS + ('struct', 'const'), 7):
            d = make(kind, name, deps, rng)
            if d is not None and (isinstance(d, S.Const) or (oracle.layout(d).size or 0) < 3000):
                defs.append(d)
                break
    return defs


CPP = {'u8': 'unsigned char', 'u16': 'unsigned short', 'u32': 'unsigned int', 'u64': 'unsigned long long', 'i8': 'signed char',
       'i16': 'short', 'i32': 'int', 'i64': 'long long', 'r32': 'float', 'r64': 'double'}


def sack_text(defs, rng):
    out = []
    for x in defs:
        if isinstance(x, S.Enum):
            out.append('enum %s { %s };' % (x.name, ', '.join('%s = %d' % m for m in x.members)))
        elif isinstance(x, S.Typedef):
            out.append('typedef %s %s;' % (CPP.get(x.target, S.type_name(x.target)), x.name))
        elif isinstance(x, S.Struct):
            fs = ''.join('    %s %s%s;\n' % (CPP.get(f.type, S.type_name(f.type)), f.name, '[%d]' % f.size if f.shape == 'fixed' else '')
                         for f in x.fields)
            out.append('struct %s\n{\n%s};' % (x.name, fs))
        elif isinstance(x, S.Union):
            out.append('union %s { %s };' % (x.name, ' '.join('%s %s;' % (CPP.get(a.type, S.type_name(a.type)), a.name) for a in x.arms)))
    return '\n'.join(out) + '\n'


def sack(idx, seed, workdir, n):
    """C++ input: any order the language allows (a topological one) gives every definition once, dependencies first."""
    res = Result()
    prophy, prophyc = pyrt.setup()
    from prophyc.parsers.sack import SackParser
    if not SackParser.check():
        res.note('sack_unavailable')
        return res
    for k in range(n):
        rng = derive(seed, 'c15s', idx, k)
        defs, types = [], []
        for i in range(rng.randint(2, 9)):
            name = 'N%d_%s' % (i, rng.choice(('a', 'B')))
            pick = lambda: rng.choice(types) if types and rng.random() < 0.6 else rng.choice(S.INTS + ('r32', 'r64'))
            x = rng.random()
            if x < 0.2:
                defs.append(S.Enum(name, [('%s_%d' % (name, j), rng.choice((0, 1, 7, 70000)) + j) for j in range(rng.randint(1, 3))]))
            elif x < 0.35 and types:
                defs.append(S.Union(name, [S.Arm('m%d' % j, pick(), j) for j in range(rng.randint(1, 3))]))
            elif x < 0.5:
                defs.append(S.Typedef(name, pick()))
            else:
                fs = []
                for j in range(rng.randint(1, 4)):
                    fixed = rng.random() < 0.3
                    fs.append(S.Field('m%d' % j, pick(), 'fixed' if fixed else 'plain', rng.randint(1, 3) if fixed else None))
                defs.append(S.Struct(name, fs))
            types.append(defs[-1])
        # everything is used by a struct, so that everything is part of the model
        defs.append(S.Struct('Last', [S.Field('m%d' % j, t) for j, t in enumerate(types)]))
        if oracle.layout(defs[-1]).size > 20000:
            continue
        owner = owners(defs)
        for o in range(3):
            left, order = list(defs), []
            while left:
                ready = [x for x in left if not any(y in needs(x, owner) for y in (z.name for z in left))]
                order.append(rng.choice(ready))
                left.remove(order[-1])
            text = sack_text(order, rng)
            d = os.path.join(workdir, 's%d_%d_%d' % (idx, k, o))
            src = pyrt.write(os.path.join(d, 'm.hpp'), text)
            e, err, nodes = pyrt.prophyc_nodes(['--sack', '--python_out', d, src])
            res.observe(digest('sack', text))
            if e is not None:
                res.violation('sack-rejected', 'C++ definitions are answered by %s: %s\n%s' % (type(e).__name__, e, text), schema=text)
                continue
            names = [x.name for x in nodes['m']]
            model = [x for x in defs if not isinstance(x, S.Typedef)]
            if sorted(names) != sorted(x.name for x in model):
                res.violation('sack-incomplete', 'C++ definitions %s give nodes %s: %s' % ([x.name for x in model], names, text), schema=text)
                continue
            place = {x: i for i, x in enumerate(names)}
            for x in model:
                todo, seen = list(needs(x, owner)), set()
                while todo:
                    y = todo.pop()
                    if y in place:
                        if place[y] > place[x.name]:
                            res.violation('sack-order', '%s comes before %s: %s' % (x.name, y, text), schema=text)
                    elif y not in seen:
                        seen.add(y)
                        todo += list(needs([z for z in defs if z.name == y][0], owner))
            try:
                mod = pyrt.import_generated(d, 'm')[0]
            except Exception as x:
                res.violation('sack-import', 'module from C++ definitions does not import: %s: %s\n%s' % (type(x).__name__, x, text), schema=text)
                continue
            for x in model:
                if isinstance(x, S.Struct):
                    got = len(getattr(mod, x.name)().encode('<'))
                    if got != oracle.layout(x).size:
                        res.violation('sack-layout', '%s takes %d bytes, not %d: %s' % (x.name, got, oracle.layout(x).size, text), schema=text)
            res.note('sack')
    return res


def main(tier=None):
    c = Check('C15', 'case = one ordering of one acyclic set of definitions as isar (or C++) input, compiled, ordered, imported and '
              'driven; distinct by text', tier=tier)
    for n, variants, perms in ((2, 30, 0), (3, 12, 0), (4, c.scale(8, 30), 0), (5, 1, c.scale(8, 60))):
        c.run(graphs, [(i, 8, n, variants, perms, c.seed, c.work) for i in range(8)])
    c.run(randoms, [(i, c.seed, c.work, c.scale(16, 100), c.scale(8, 16)) for i in range(16)])
    c.run(chains, [(i, c.seed, c.work, c.scale(80, 120) - 10 * i) for i in range(4)])
    c.run(sack, [(i, c.seed, c.work, c.scale(16, 100)) for i in range(8)])
    for k, n in (('graphs', 500), ('ordered', 5000), ('layouts', 5000), ('random', 50)):
        c.require(k, n)
    if not c.notes.get('sack_unavailable'):
        c.require('sack', 50)
    c.require('chains', 16)
    return c.finish(1000)
