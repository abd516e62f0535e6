"""Random and enumerated schemas, random values."""
import random
import struct as _struct
from .schema import (PRIMS, INTS, Const, Enum, Typedef, Field, Struct, Arm, Union, Schema, resolve, int_range,
                     FIXED, DYNAMIC, UNLIMITED)
from . import oracle

LETTERS = 'abcdefghjklmnoqstvwxyz'


class Names(object):
    def __init__(self, rng, prefix=''):
        self.rng, self.used, self.prefix = rng, set(), prefix

    def _word(self):
        r = self.rng
        return ''.join(r.choice(LETTERS) for _ in range(r.randint(2, 4))) + str(r.randint(0, 99))

    def type(self):
        while True:
            n = self.prefix + self.rng.choice('ABCDFGHKLMNQTVWXYZ') + self._word()
            if not self.prefix and self.used and self.rng.random() < 0.1:
                n = similar(self.rng, self.used)
            if n not in self.used:
                self.used.add(n)
                return n

    def const(self):
        while True:
            n = self.type().upper() + '_C'
            if n not in self.used:
                self.used.add(n)
                return n

    @staticmethod
    def local(rng, taken):
        while True:
            n = rng.choice('abcdefghjklmnoqstvwxyz') + ''.join(
                rng.choice(LETTERS) for _ in range(rng.randint(1, 4))) + rng.choice(['_a', '_b', '9', '7', '_x1', '5'])
            if taken and rng.random() < 0.15:
                n = similar(rng, taken)
            if n not in taken and 'num_of_' + n not in taken:
                taken.add(n)
                return n


def similar(rng, taken):
    """Name that differs from a taken one by case only, or begins with it."""
    n = rng.choice(sorted(taken))
    n = n[7:] if n.startswith('num_of_') else n
    return rng.choice([n.upper(), n + 's', n + '_' + n, n + 'Of' * rng.randint(1, 30)])[:90]


class Opts(object):
    floats = True
    share_sizer = True       # several arrays may share one sizer
    greedy = True
    bytes = True
    unions = True
    typedefs = True
    consts = True
    signed_sizer = True
    max_fields = 6
    ext = True
    dup_enum_values = False

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)


class SchemaGen(object):
    def __init__(self, rng, opts=None, prefix=''):
        self.rng, self.o = rng, opts or Opts()
        self.names = Names(rng, prefix)
        self.defs = []
        self.pool = []     # types usable as field types

    # -- leaf definitions
    def const(self):
        r = self.rng
        v = r.choice([1, 2, 3, 4, 5, 7])
        texts = [str(v), '0x%x' % v, '%d + %d' % (v - 1, 1), '(%d)' % v, '0%o' % v]
        c = Const(self.names.const(), v, r.choice(texts))
        self.defs.append(c)
        return c

    def enum(self):
        r = self.rng
        name = self.names.type()
        n = r.randint(1, 5) if r.random() > 0.06 else 11
        vals = []
        cand = [0, 1, 2, 3, 5, 7, 42, 255, 256, 65535, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
        if r.random() < 0.4:
            cand = cand[2:]
        while len(vals) < n:
            v = r.choice(cand)
            if v not in vals or (self.o.dup_enum_values and r.random() < 0.5):
                vals.append(v)
        letters = r.choice(['abcdefghijk', 'abcdefghijk', 'aAbBdDeEfFg'])
        members = [('%s_%s' % (name, letters[i]), v) for i, v in enumerate(vals)]
        if name.upper() not in self.names.used and r.random() < 0.1:
            self.names.used.add(name.upper())
            members[-1] = (name.upper(), vals[-1])
        e = Enum(name, members)
        self.defs.append(e)
        self.pool.append(e)
        return e

    def typedef(self, target=None):
        r = self.rng
        chained = [x for x in self.pool if isinstance(x, Typedef)]
        if target is None and chained and r.random() < 0.25:
            target = r.choice(chained)
        elif target is None:
            target = self.scalar() if r.random() < 0.5 or not self.pool else r.choice(self.pool)
        t = Typedef(self.names.type(), target)
        self.defs.append(t)
        self.pool.append(t)
        return t

    def scalar(self):
        r = self.rng
        if self.o.floats and r.random() < 0.12:
            return r.choice(['r32', 'r64'])
        return r.choice(INTS)

    def any_type(self, kinds):
        r = self.rng
        if r.random() < 0.45 or not self.pool:
            return self.scalar()
        for _ in range(20):
            t = r.choice(self.pool[-14:] if r.random() < 0.7 else self.pool)
            if oracle.layout(t).kind in kinds:
                return t
        return self.scalar()

    def size(self):
        r = self.rng
        consts = [c for c in self.defs if isinstance(c, Const) and c.value <= 8]
        if consts and r.random() < 0.3:
            c = r.choice(consts)
            return c.value, c.name
        v = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
        if r.random() < 0.04:
            v = r.choice([6, 8, 9, 16, 17, 32, 33, 100, 256, 260])
        return v, str(v)

    def sizer_type(self):
        r = self.rng
        cands = list(INTS) if self.o.signed_sizer else ['u8', 'u16', 'u32', 'u64']
        t = r.choice(cands)
        if self.o.typedefs and r.random() < 0.2:
            tds = [d for d in self.defs if isinstance(d, Typedef) and resolve(d) in cands]
            if tds:
                t = r.choice(tds)
        return t

    def struct(self, allow_dynamic=True, allow_unlimited=None, nfields=None):
        r, o = self.rng, self.o
        if allow_unlimited is None:
            allow_unlimited = allow_dynamic and o.greedy and r.random() < 0.15
        n = nfields or r.choice([1, 1, 2, 2, 3, 3, 4, 4, 5, o.max_fields])
        if n == o.max_fields > 5 and r.random() < 0.3:
            n = r.randint(9, 18)
        taken, fields, sizers = set(), [], []

        def nm():
            return Names.local(r, taken)

        def add_ext():
            el = 'bytes' if o.bytes and r.random() < 0.15 else self.any_type((FIXED, DYNAMIC))
            free = [s for s in sizers if not s[1] or o.share_sizer]
            if free and r.random() < 0.6:
                s = r.choice(free)
            else:
                s = [nm(), False]
                fields.append(Field(s[0], self.sizer_type()))
                sizers.append(s)
                if r.random() < 0.3:
                    fields.append(Field(nm(), self.any_type((FIXED,))))
            s[1] = True
            fields.append(Field(nm(), el, 'ext', sizer=s[0]))

        def add_crossing():
            """Arrays far behind their sizers, other dynamic fields in between."""
            narrow = r.choice((None, None, 'u8', 'u16', 'u32'))
            for _ in range(r.randint(3, 8)):
                x = r.random()
                el = narrow or ('bytes' if o.bytes and r.random() < 0.15 else self.any_type((FIXED, DYNAMIC)))
                free = [s for s in sizers if not s[1] or o.share_sizer]
                if x < 0.3:
                    s = [nm(), False]
                    fields.append(Field(s[0], narrow or self.sizer_type()))
                    sizers.append(s)
                elif x < 0.65 and free:
                    s = r.choice(free)
                    s[1] = True
                    fields.append(Field(nm(), el, 'ext', sizer=s[0]))
                elif o.share_sizer and x < 0.8:
                    # x<> whose counter may serve other arrays too
                    a = nm()
                    taken.add('num_of_' + a)
                    sizers.append(['num_of_' + a, True])
                    fields.append(Field('num_of_' + a, 'u32'))
                    fields.append(Field(a, el, 'ext', sizer='num_of_' + a))
                    fields[-1].implicit = True
                elif x < 0.9:
                    fields.append(Field(nm(), el, 'dynamic'))
                else:
                    fields.append(Field(nm(), narrow or self.any_type((FIXED,))))

        i = 0
        if allow_dynamic and o.ext and r.random() < 0.12:
            add_crossing()
            i = max(0, n - 1) if fields else 0
        while i < n:
            i += 1
            last = i == n
            x = r.random()
            if last and allow_unlimited:
                un = [t for t in self.pool if oracle.layout(t).kind == UNLIMITED]
                if un and r.random() < 0.3:
                    fields.append(Field(nm(), r.choice(un)))
                elif o.bytes and r.random() < 0.25:
                    fields.append(Field(nm(), 'bytes', 'greedy'))
                else:
                    fields.append(Field(nm(), self.any_type((FIXED, DYNAMIC)), 'greedy'))
            elif x < 0.34:
                fields.append(Field(nm(), self.any_type((FIXED, DYNAMIC) if allow_dynamic else (FIXED,))))
            elif x < 0.5:
                fields.append(Field(nm(), self.any_type((FIXED,)), 'optional'))
            elif x < 0.62:
                sz, st = self.size()
                el = 'bytes' if o.bytes and r.random() < 0.25 else self.any_type((FIXED,))
                fields.append(Field(nm(), el, 'fixed', sz, size_text=st))
            elif x < 0.75:
                sz, st = self.size()
                el = 'bytes' if o.bytes and r.random() < 0.25 else self.any_type((FIXED,))
                fields.append(Field(nm(), el, 'limited', sz, size_text=st))
            elif not allow_dynamic:
                fields.append(Field(nm(), self.any_type((FIXED,))))
            elif x < 0.9 or not o.ext:
                el = 'bytes' if o.bytes and r.random() < 0.2 else self.any_type((FIXED, DYNAMIC))
                fields.append(Field(nm(), el, 'dynamic'))
            else:
                add_ext()
        s = Struct(self.names.type(), fields)
        # bound the static size so that nested reuse does not explode
        lay = oracle.layout(s)
        if (lay.size or 0) > 600 or self._weight(s) > 40:
            return self.struct(allow_dynamic, allow_unlimited, 1)
        self.defs.append(s)
        self.pool.append(s)
        return s

    _w = None

    def _weight(self, t):
        t = resolve(t)
        if isinstance(t, (str, Enum)):
            return 1
        if isinstance(t, Union):
            return max(self._weight(a.type) for a in t.arms)
        w = 0
        for f in t.fields:
            k = self._weight(f.type)
            if f.shape in ('fixed', 'limited'):
                w += k * min(f.size, 3)
            elif f.shape in ('plain', 'optional'):
                w += k
            else:
                w += 2 * k
        return w

    def union(self):
        r = self.rng
        n = r.choice([1, 2, 2, 3, 4]) if r.random() > 0.06 else 10
        taken, arms, discs = set(), [], set()
        pool = [0, 1, 2, 3, 4, 9, 255, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff]
        if r.random() < 0.3:
            pool = pool[1:]
        for _ in range(n):
            d = r.choice([x for x in pool if x not in discs])
            discs.add(d)
            arms.append(Arm(Names.local(r, taken), self.any_type((FIXED,)), d))
        u = Union(self.names.type(), arms)
        if oracle.layout(u).size > 600:
            return self.enum()
        self.defs.append(u)
        self.pool.append(u)
        return u

    def generate(self, nstructs):
        r, o = self.rng, self.o
        if o.consts:
            self.const()
        made = 0
        while made < nstructs:
            x = r.random()
            if x < 0.1:
                self.enum()
            elif x < 0.16 and o.consts:
                self.const()
            elif x < 0.26 and o.typedefs:
                self.typedef()
            elif x < 0.4 and o.unions:
                self.union()
            else:
                self.struct(allow_dynamic=r.random() < 0.65)
                made += 1
        return Schema(self.defs)


def random_schema(rng, nstructs=20, opts=None, prefix=''):
    return SchemaGen(rng, opts, prefix).generate(nstructs)


def take_sizers_away(rng, schema):
    """Give limited arrays sizers that lie anywhere before them."""
    for s in schema.structs:
        for f in [f for f in s.fields if f.shape == 'limited']:
            if rng.random() < 0.8:
                f.sizer = 'len_' + f.name
                t = rng.choice(INTS if f.size < 100 else ('u16', 'i32', 'u64'))
                s.fields.insert(rng.randint(0, s.fields.index(f)), Field(f.sizer, t))
    oracle._cache.clear()


# ---------------------------------------------------------------- enumerated corpus

def base_defs():
    """Helper types of every alignment and stiffness."""
    d = {}

    def put(x):
        d[x.name] = x
        return x
    put(Const('KTHREE', 3, '1 + 2'))
    put(Enum('EA', [('EA_a', 0), ('EA_b', 1), ('EA_c', 0x01020304)]))
    put(Enum('EB', [('EB_a', 7), ('EB_b', 0xffffffff)]))
    put(Typedef('TU8', 'u8'))
    put(Typedef('TTU8', d['TU8']))
    put(Typedef('TU64', 'u64'))
    put(Typedef('TEB', d['EB']))
    put(Struct('F1', [Field('a', 'u8')]))
    put(Struct('F13', [Field('a', 'u8', 'fixed', 3, size_text='KTHREE')]))
    put(Struct('F2', [Field('a', 'u16'), Field('b', 'i8')]))
    put(Struct('F4', [Field('a', 'i8'), Field('b', 'u32')]))
    put(Struct('F48', [Field('a', 'u32'), Field('b', 'u8')]))
    put(Struct('F8', [Field('a', 'u64'), Field('b', 'u8')]))
    put(Struct('FM', [Field('a', 'u8'), Field('b', 'u16'), Field('c', 'u8'), Field('e', 'u64'), Field('g', 'u32')]))
    put(Struct('L4', [Field('a', 'u8', 'limited', 3)]))
    put(Struct('L8', [Field('a', 'u64', 'limited', 2), Field('b', 'u8')]))
    put(Struct('LB', [Field('a', 'bytes', 'limited', 5)]))
    put(Struct('O1', [Field('a', 'u8', 'optional')]))
    put(Struct('O12', [Field('a', 'u8'), Field('b', 'u16', 'optional'), Field('c', 'u8')]))
    put(Struct('O8', [Field('a', 'u64', 'optional'), Field('b', 'u8', 'optional')]))
    put(Union('U4', [Arm('a', 'u8', 1), Arm('b', 'u16', 2)]))
    put(Union('U8', [Arm('a', 'u64', 0), Arm('b', 'i8', 0xffffffff), Arm('c', d['F2'], 3)]))
    put(Union('UO', [Arm('a', d['O12'], 5), Arm('b', d['L4'], 4), Arm('c', d['EB'], 6)]))
    put(Typedef('TF8', d['F8']))
    put(Struct('D1', [Field('n', 'u8'), Field('a', 'u8', 'ext', sizer='n')]))
    put(Struct('D2', [Field('n', 'u8'), Field('a', 'u16', 'ext', sizer='n')]))
    put(Struct('D4', [Field('a', 'u8', 'dynamic')]))
    put(Struct('D4T', [Field('a', 'u8', 'dynamic'), Field('b', 'u8')]))
    put(Struct('D8', [Field('a', 'u64', 'dynamic')]))
    put(Struct('D8T', [Field('a', 'u8', 'dynamic'), Field('b', 'u8'), Field('c', 'u64')]))
    put(Struct('DO', [Field('a', 'u8', 'dynamic'), Field('b', 'u8', 'optional')]))
    put(Struct('DB', [Field('a', 'bytes', 'dynamic'), Field('b', 'u16')]))
    put(Struct('DD', [Field('a', d['D4'], 'dynamic'), Field('b', 'u16')]))
    put(Struct('DN', [Field('a', d['D1']), Field('b', 'u8')]))
    put(Struct('DN8', [Field('a', d['D1']), Field('b', 'u8'), Field('c', 'u64', 'optional')]))
    put(Typedef('TD4', d['D4']))
    for n in ('TEB', 'TF8', 'TD4'):
        put(Typedef('T' + n, d[n]))
    put(Typedef('TUO', d['UO']))
    put(Typedef('TTUO', d['TUO']))
    put(Union('UT', [Arm('a', d['TTEB'], 2), Arm('b', d['TTF8'], 1), Arm('c', d['TTU8'], 0)]))
    put(Struct('FT', [Field('a', d['TTEB']), Field('b', d['TTUO']), Field('c', d['TTU8']), Field('e', d['TTF8'], 'optional')]))
    put(Struct('DT', [Field('a', d['TTU8']), Field('b', d['TTD4']), Field('c', d['TTF8'], 'dynamic'), Field('e', d['TTEB'], 'limited', 2)]))
    put(Struct('G1', [Field('a', 'u8', 'greedy')]))
    put(Struct('G8', [Field('b', 'u8'), Field('a', 'u64', 'greedy')]))
    put(Struct('GD', [Field('a', d['D4'], 'greedy')]))
    put(Struct('GDG', [Field('a', 'u16', 'dynamic'), Field('b', 'u32', 'greedy')]))
    return d


def alphabet(d):
    """Field makers: list of (tag, maker(prefix)->[Field], kind 'n'ormal | 'l'ast only)."""
    out = []

    def p(tag, t):
        out.append((tag, lambda x: [Field(x, t)], 'n'))

    def sh(tag, t, shape, size=None):
        out.append((tag, lambda x: [Field(x, t, shape, size)], 'l' if shape == 'greedy' else 'n'))

    def ext(tag, t, sizer):
        out.append((tag, lambda x: [Field(x + 'n', sizer), Field(x, t, 'ext', sizer=x + 'n')], 'n'))
    for t in ('u8', 'i16', 'u32', 'i64', 'r32', 'r64'):
        p(t, t)
    for n in ('EB', 'TTU8', 'F1', 'F13', 'F2', 'F4', 'F8', 'L4', 'O1', 'O12', 'O8', 'U4', 'U8', 'UO', 'D1', 'D2', 'D4', 'D4T',
              'D8', 'D8T', 'DO', 'DB', 'DD', 'DN', 'DN8', 'TD4', 'TTEB', 'UT', 'FT', 'DT'):
        p(n, d[n])
    for t in ('u8', 'u16', 'i32', 'u64'):
        sh('opt_' + t, t, 'optional')
    for n in ('EB', 'TU8', 'F1', 'F2', 'F4', 'F8', 'L4', 'LB', 'L8', 'O1', 'U4', 'U8', 'UO', 'TF8'):
        sh('opt_' + n, d[n], 'optional')
    for t in ('u8', 'u16', 'u64', 'bytes'):
        sh('fix_' + t, t, 'fixed', 3)
    for n in ('EA', 'F13', 'F2', 'F8', 'L4', 'O12', 'U8'):
        sh('fix_' + n, d[n], 'fixed', 2)
    for t in ('u8', 'u16', 'u32', 'u64', 'bytes'):
        sh('dyn_' + t, t, 'dynamic')
    for n in ('EB', 'F1', 'F2', 'F8', 'L4', 'O1', 'U8', 'D1', 'D4', 'D8', 'DO', 'DN8', 'TD4'):
        sh('dyn_' + n, d[n], 'dynamic')
    for t in ('u8', 'i16', 'u64', 'bytes'):
        sh('lim_' + t, t, 'limited', 3)
    for n in ('EB', 'F1', 'F2', 'F8', 'L8', 'O12', 'UO'):
        sh('lim_' + n, d[n], 'limited', 2)
    ext('ext_u8_u8', 'u8', 'u8')
    ext('ext_u16_i8', 'u16', 'i8')
    ext('ext_u64_u16', 'u64', 'u16')
    ext('ext_bytes_u8', 'bytes', 'u8')
    ext('ext_F2_u64', d['F2'], 'u64')
    ext('ext_D1_i32', d['D1'], 'i32')
    ext('ext_D8T_TU8', d['D8T'], d['TU8'])
    for t in ('u8', 'u32', 'u64', 'bytes'):
        sh('gre_' + t, t, 'greedy')
    for n in ('F2', 'F8', 'L4', 'O1', 'U8', 'D1', 'D4', 'D8T', 'DO'):
        sh('gre_' + n, d[n], 'greedy')
    for n in ('G1', 'G8', 'GD', 'GDG'):
        out.append((n, (lambda t: lambda x: [Field(x, t)])(d[n]), 'l'))
    return out


def make_tuple_struct(name, makers):
    fs = []
    for i, m in enumerate(makers):
        fs += m[1]('abcdefgh'[i])
    return Struct(name, fs)


def tuple_schemas(tuples, per_schema, name='Z'):
    """Yield Schemas, each with the helper types and per_schema structs built from the tuples of makers
    (given as tuples of alphabet tags)."""
    for i in range(0, len(tuples), per_schema):
        d = base_defs()
        al = {a[0]: a for a in alphabet(d)}
        ss = [make_tuple_struct('%s%d' % (name, i + j), [al[tag] for tag in tup])
              for j, tup in enumerate(tuples[i:i + per_schema])]
        yield Schema(list(d.values()) + ss)


def all_pairs():
    al = alphabet(base_defs())
    return [(a[0], b[0]) for a in al for b in al if a[2] == 'n']


def random_tuples(rng, n, k):
    al = alphabet(base_defs())
    norm = [a[0] for a in al if a[2] == 'n']
    last = [a[0] for a in al]
    return [tuple(rng.choice(norm) for _ in range(k - 1)) + (rng.choice(last if rng.random() < .3 else norm),)
            for _ in range(n)]


def sandwich_tuples(rng=None):
    """dynamic field between alignments: x, dyn, y, z - shapes where the block rule bites."""
    al = [a[0] for a in alphabet(base_defs()) if a[2] == 'n']
    dyn = ['dyn_u8', 'dyn_u16', 'dyn_bytes', 'ext_u8_u8', 'ext_bytes_u8', 'D1', 'D2', 'D4', 'D4T', 'DO', 'DN', 'dyn_D1',
           'ext_D1_i32', 'TD4']
    out = []
    for a in dyn:
        for b in ('u8', 'i16', 'opt_u8', 'fix_u8', 'lim_u8', 'dyn_u8', 'D1', 'ext_u8_u8'):
            for c in ('i16', 'u32', 'i64', 'opt_u8', 'opt_u64', 'lim_u64', 'dyn_u64', 'U8', 'D8T', 'D2'):
                out.append((a, b, c))
    return out


# ---------------------------------------------------------------- values

LONG = (8, 9, 11, 16, 17, 33, 64, 100, 127, 128, 200, 255, 256, 257, 300)


class ValueGen(object):
    def __init__(self, rng, mode='random', lens=(0, 0, 1, 1, 2, 3, 4, 5, 7), text_bytes=False, long=0.04):
        self.rng, self.mode, self.lens, self.text_bytes, self.long = rng, mode, lens, text_bytes, long
        self.depth = 0

    def length(self, limit=None, types=()):
        r = self.rng
        if self.mode == 'min':
            return 0
        if self.mode == 'max':
            return limit if limit is not None else r.choice([1, 2, 3])
        if limit is not None:
            return r.choice([0, limit, r.randint(0, limit)])
        if types and self.depth == 1 and self.mode == 'random' and r.random() < self.long:
            if all(isinstance(resolve(t), (str, Enum)) for t in types):
                return r.choice(LONG)
            return r.choice(LONG[:6])
        n = r.choice(self.lens)
        if self.depth > 2:
            n = min(n, 2)
        return n

    def scalar(self, t):
        r = self.rng
        if t == 'r32':
            x = r.choice([0.0, 1.0, -1.5, 3.25, 2.0 ** 100, -2.0 ** -100, 1234567.0, float('inf'), -0.0, 1e-45, -3.4028234663852886e38, 1.1754943508222875e-38, r.uniform(-1e6, 1e6)])
            return _struct.unpack('<f', _struct.pack('<f', x))[0]
        if t == 'r64':
            return r.choice([0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, float('-inf'), -0.0, 5e-324, -1.7976931348623157e308, 2.2250738585072014e-308, r.uniform(-1e6, 1e6)])
        lo, hi = int_range(t)
        x = r.random()
        if x < 0.2:
            return r.choice([lo, hi, 0, 1])
        if x < 0.6:
            v = 0x0102030405060708 & hi
            return v ^ r.randint(0, min(hi, 255))
        return r.randint(lo, hi)

    def bytes(self, n):
        r = self.rng
        if self.text_bytes and r.random() < 0.3:
            return bytes(r.choice(b'"\'"\'a\\\xfe') for _ in range(n))
        if r.random() < 0.5:
            return bytes(r.randint(0, 255) for _ in range(n))
        return bytes(r.choice(b'abcXYZ 09\\\t\n\r\x00\x7f\xff"`{}') for _ in range(n))

    def value(self, t):
        t = resolve(t)
        if isinstance(t, str):
            return self.scalar(t)
        if isinstance(t, Enum):
            return self.rng.choice(t.members)[1]
        if isinstance(t, Union):
            a = self.rng.choice(t.arms)
            return (a.name, self.value(a.type))
        return self.struct(t)

    def field(self, f, n=None):
        r = self.rng
        if f.shape == 'plain':
            return self.value(f.type)
        if f.shape == 'optional':
            if self.mode == 'min' or (self.mode != 'max' and r.random() < 0.4):
                return None
            return self.value(f.type)
        if n is None:
            if f.shape == 'fixed':
                n = f.size
            elif f.shape == 'limited':
                n = self.length(f.size)
            else:
                n = self.length(types=(f.type,))
        if f.type == 'bytes':
            return self.bytes(n)
        return [self.value(f.type) for _ in range(n)]

    def struct(self, s):
        self.depth += 1
        lens = {}
        out = {}
        for f in s.value_fields:
            n = None
            if f.shape == 'ext':
                if f.sizer not in lens:
                    lens[f.sizer] = self.length(types=[x.type for x in s.fields if x.sizer == f.sizer])
                    sizer = next((x.type for x in s.fields if x.name == f.sizer), 'u32')
                    lens[f.sizer] = min(lens[f.sizer], int_range(resolve(sizer))[1] - getattr(f, 'shift', 0))
                n = lens[f.sizer]
            out[f.name] = self.field(f, n)
        self.depth -= 1
        return out


def align_greedy(rng, t, v, tries=12):
    """Adjust the greedy tail of v (in place) until it ends aligned; None if not achieved."""
    if oracle.layout(t).kind != UNLIMITED:
        return v
    for k in range(tries):
        if oracle.greedy_aligned(t, v):
            return v
        # find the tail
        s, x = resolve(t), v
        while s.fields[-1].shape != 'greedy':
            x = x[s.fields[-1].name]
            s = resolve(s.fields[-1].type)
        f = s.fields[-1]
        if f.type == 'bytes':
            x[f.name] = x[f.name] + bytes([rng.randint(0, 255)])
        else:
            x[f.name].append(ValueGen(rng).value(f.type))
    return v if oracle.greedy_aligned(t, v) else None


# fixed shapes that have been delicate for one of the code generators
HOT_LISTS = [
    [('dyn_u8', 'opt_u8'), ('dyn_u8', 'opt_u64'), ('dyn_u8', 'O1'), ('dyn_u8', 'u8', 'opt_u16'), ('dyn_u8', 'lim_u64', 'opt_u8'),
     ('D1', 'u8', 'i64'), ('D1', 'opt_u8', 'u8'), ('D1', 'D1', 'D2'), ('dyn_D1', 'u8', 'u32'), ('DN8', 'u8'), ('D8T', 'D1')],
    [('u8', 'opt_u8'), ('u8', 'opt_u64', 'u8'), ('opt_u16', 'u8', 'opt_EB'), ('u8', 'opt_LB'), ('opt_L8', 'u8'), ('u8', 'U8', 'u8'),
     ('opt_UO', 'i16'), ('fix_O12', 'u8'), ('lim_UO', 'u8'), ('ext_u8_u8', 'ext_u64_u16', 'u8'), ('ext_D8T_TU8', 'opt_u8'),
     ('dyn_u8', 'ext_u8_u8', 'G8')],
    [('dyn_u8', 'i16', 'GDG'), ('ext_bytes_u8', 'gre_D1'), ('lim_bytes', 'gre_u64'), ('D4T', 'gre_bytes'), ('u8', 'gre_D8T'),
     ('dyn_D8', 'u8', 'i64'), ('dyn_DO', 'DO'), ('dyn_DN8', 'opt_F8'), ('ext_F2_u64', 'lim_L8', 'u8'), ('DB', 'fix_bytes', 'DB'),
     ('TD4', 'dyn_TD4', 'u8'), ('lim_O12', 'dyn_O1', 'U4')],
]
HOT = len(HOT_LISTS)


def hot_tuples(i):
    return HOT_LISTS[i]
