"""Schema workloads shared by the checks. A task is a small tuple; schemas are regenerated in the worker."""
from . import gen, isar, oracle
from .report import derive
from .schema import Schema, Struct, Union, render
from .gen import Opts

_pairs = None


def pairs():
    global _pairs
    if _pairs is None:
        _pairs = gen.all_pairs()
    return _pairs


def schemas(task, seed, **opts):
    """Yield the Schemas of a task."""
    kind = task[0]
    if kind == 'pairs':            # ('pairs', chunk, nchunks, per_schema)
        ps = pairs()
        ps = [p for i, p in enumerate(ps) if i % task[2] == task[1]]
        for s in gen.tuple_schemas(ps, task[3]):
            yield s
    elif kind == 'sandwich':       # ('sandwich', chunk, nchunks, per_schema)
        ps = gen.sandwich_tuples()
        ps = [p for i, p in enumerate(ps) if i % task[2] == task[1]]
        for s in gen.tuple_schemas(ps, task[3]):
            yield s
    elif kind == 'tuples':         # ('tuples', idx, count, k, per_schema)
        rng = derive(seed, 'tuples', task[1], task[3])
        for s in gen.tuple_schemas(gen.random_tuples(rng, task[2], task[3]), task[4]):
            yield s
    elif kind == 'random':         # ('random', idx, nschemas, nstructs)
        for j in range(task[2]):
            rng = derive(seed, 'random', task[1], j)
            yield gen.random_schema(rng, task[3], Opts(**opts))
    elif kind == 'remote':         # ('remote', idx, nschemas, nstructs): limited arrays away from their sizers
        for j in range(task[2]):
            rng = derive(seed, 'remote', task[1], j)
            s = gen.random_schema(rng, task[3], Opts(**opts))
            gen.take_sizers_away(rng, s)
            yield s
    else:
        raise ValueError(task)


def python_tasks(quick):
    """Broad workload for checks that need only Python."""
    n = 8
    out = [('pairs', i, 2 * n, 80) for i in range(2 * n)]
    out += [('sandwich', i, n, 80) for i in range(n)]
    out += [('tuples', i, 400 if quick else 2000, 3, 80) for i in range(n)]
    out += [('tuples', n + i, 150 if quick else 1000, 4, 50) for i in range(n)]
    out += [('random', i, 6 if quick else 60, 25) for i in range(2 * n)]
    out += [('remote', i, 4 if quick else 40, 25) for i in range(n)]
    return out


def targets(schema, task):
    """Composites of the schema worth driving: in enumerated schemas the helpers only once per task kind."""
    if task[0] in ('pairs', 'sandwich', 'tuples'):
        out = [s for s in schema.structs if s.name.startswith('Z')]
        if task[1] == 0:
            out = schema.composites
        return out
    return schema.composites


def text(task, seed, schema):
    """What prophyc is given: prophy text, or isar and a patch."""
    if task[0] == 'remote':
        return isar.render(schema.defs, derive(seed, 'isar', task), named=True)
    return render(schema)


def has_multi_sizer(s):
    names = [f.sizer for f in s.fields if f.shape == 'ext']
    return len(names) != len(set(names))


def prune(schema, targets):
    """Schema reduced to the targets and what they need."""
    from .schema import closure, Const
    keep = set()
    for t in targets:
        keep |= {id(x) for x in closure(t)}
    return Schema([d for d in schema.defs if isinstance(d, Const) or id(d) in keep])


def cpp_batches(task, seed, **opts):
    """Yield (schema, driven composites) small enough to compile in one translation unit."""
    kind = task[0]
    if kind == 'mix':              # ('mix', idx, ntypes): sampled pairs, sandwiches, triples, quadruples
        rng = derive(seed, 'mix', task[1])
        n = task[2]
        sand = gen.sandwich_tuples()
        tuples = [rng.choice(pairs()) for _ in range(n // 4)] + [rng.choice(sand) for _ in range(n // 4)]
        tuples += gen.random_tuples(rng, n // 4, 3) + gen.random_tuples(rng, n - 3 * (n // 4), 4)
        if not opts.get('floats', True):
            tuples = [tuple({'r32': 'u32', 'r64': 'i64'}.get(x, x) for x in tup) for tup in tuples]
        for s in gen.tuple_schemas(tuples, len(tuples)):
            ts = [x for x in s.structs if x.name.startswith('Z')]
            p = prune(s, ts)
            yield p, p.composites
    elif kind == 'hot':            # ('hot', idx): helper types and fixed delicate shapes
        for s in gen.tuple_schemas(gen.hot_tuples(task[1]), 1000):
            ts = [x for x in s.structs if x.name.startswith('Z')]
            p = s if task[1] == 0 else prune(s, ts)
            yield p, p.composites
    elif kind == 'pairs':
        ps = [p for i, p in enumerate(pairs()) if i % task[2] == task[1]]
        for s in gen.tuple_schemas(ps, task[3]):
            ts = [x for x in s.structs if x.name.startswith('Z')]
            yield prune(s, ts), ts
    else:
        opts.setdefault('share_sizer', False)
        for s in schemas(task, seed, **opts):
            yield s, s.composites


def cpp_tasks(quick, scale=1.0):
    if quick:
        out = [('hot', i) for i in range(gen.HOT)]
        out += [('mix', i, 28) for i in range(int(16 * scale))]
        out += [('random', i, 1, 26) for i in range(int(16 * scale))]
        out += [('remote', i, 1, 16) for i in range(4)]
    else:
        out = [('hot', i) for i in range(gen.HOT)]
        out += [('mix', i, 60) for i in range(int(96 * scale))]
        out += [('random', i, 2, 40) for i in range(int(96 * scale))]
        out += [('remote', i, 2, 40) for i in range(24)]
    return out
