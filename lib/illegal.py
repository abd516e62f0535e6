"""Rule-breaking edits of valid schemas, and a renderer of Python descriptors that goes around prophyc."""
import copy
from .schema import Const, Enum, Typedef, Field, Struct, Arm, Union, Schema, resolve, PRIMS, render
from . import oracle
from .schema import FIXED, DYNAMIC, UNLIMITED


def helpers():
    d4 = Struct('HD4', [Field('a', 'u8', 'dynamic')])
    dn = Struct('HDN', [Field('q', 'u16'), Field('a', d4), Field('b', 'u8')])
    dx = Struct('HDX', [Field('n', 'i8'), Field('a', 'u64', 'ext', sizer='n')])
    db = Struct('HDB', [Field('a', 'bytes', 'dynamic')])
    dd = Struct('HDD', [Field('a', dn, 'dynamic'), Field('z', 'u64', 'optional')])
    g1 = Struct('HG1', [Field('a', 'u8', 'greedy')])
    gb = Struct('HGB', [Field('z', 'u32'), Field('a', 'bytes', 'greedy')])
    gn = Struct('HGN', [Field('z', 'u32'), Field('a', g1)])
    gd = Struct('HGD', [Field('z', 'u16', 'dynamic'), Field('a', 'u32', 'greedy')])
    gm = Struct('HGM', [Field('z', d4), Field('a', gn)])
    return [d4, dn, dx, db, dd, g1, gb, gn, gd, gm]


class Edit(object):
    """One rule-breaking edit. After apply: self.schema, self.rule, self.runtime (can the Python runtime see it?)."""

    def __init__(self, sch, rng):
        self.rng = rng
        self.hs = helpers()
        self.defs = self.hs + [self._copy(d) for d in sch.defs]
        structs = [i for i, d in enumerate(self.defs) if i >= len(self.hs) and isinstance(d, Struct)]
        self.at = rng.choice(structs)
        self.target = self.defs[self.at]
        self.n = 0
        self.runtime = False

    @staticmethod
    def _copy(d):
        d = copy.copy(d)
        if isinstance(d, Struct):
            d.fields = [copy.copy(f) for f in d.fields]
        elif isinstance(d, Union):
            d.arms = [copy.copy(a) for a in d.arms]
        elif isinstance(d, Enum):
            d.members = list(d.members)
        return d

    @property
    def schema(self):
        return Schema(self.defs)

    def before(self):
        return self.defs[:self.at]

    def insert(self, d):
        self.defs.insert(self.at, d)
        self.at += 1
        return d

    def fresh(self, stem='nw'):
        self.n += 1
        return '%s%d' % (stem, self.n)

    def wrap(self, t):
        while self.rng.random() < 0.4:
            t = self.insert(Typedef(self.fresh('TnW'), t))
        return t

    def of_kind(self, *kinds):
        ts = [d for d in self.before() if isinstance(d, (Struct, Typedef)) and oracle.layout(d).kind in kinds]
        return self.wrap(self.rng.choice(ts))

    def any_fixed(self):
        ts = [d for d in self.before() if isinstance(d, (Struct, Union, Enum, Typedef)) and oracle.layout(d).kind == FIXED]
        return self.rng.choice(ts + ['u8', 'u32', 'i64'])

    def put(self, f, lo=0, hi=None):
        fs = self.target.fields
        hi = len(fs) if hi is None else hi
        # keep an unlimited tail last unless that is the rule to break
        if fs and hi == len(fs) and (fs[-1].shape == 'greedy' or (fs[-1].shape == 'plain' and oracle.layout(fs[-1].type).kind == UNLIMITED)):
            hi -= 1
        fs.insert(self.rng.randint(lo, max(lo, hi)), f)

    def add_array(self, t, shape):
        name = self.fresh()
        if shape == 'ext':
            s = self.fresh()
            self.target.fields.insert(0, Field(s, self.rng.choice(('u8', 'u16', 'u32', 'i32'))))
            self.put(Field(name, t, 'ext', sizer=s), lo=1)
        elif shape == 'greedy':
            fs = self.target.fields
            if fs and (fs[-1].shape == 'greedy' or oracle.layout(fs[-1].type).kind == UNLIMITED):
                fs.pop()
            fs.append(Field(name, t, 'greedy'))
        else:
            self.put(Field(name, t, shape, self.rng.randint(1, 4) if shape in ('fixed', 'limited') else None))

    # ---- the rules
    def unlimited_not_last(self):
        r = self.rng
        if r.random() < 0.5:
            f = Field(self.fresh(), r.choice(['u8', 'u64', 'bytes', self.of_kind(FIXED, DYNAMIC)]), 'greedy')
        else:
            f = Field(self.fresh(), self.of_kind(UNLIMITED))
        self.target.fields.insert(r.randint(0, len(self.target.fields) - 1), f)
        self.runtime = True

    def unlimited_in_array(self):
        self.add_array(self.of_kind(UNLIMITED), self.rng.choice(('fixed', 'limited', 'dynamic', 'ext', 'greedy')))
        self.runtime = True

    def dynamic_in_sized_array(self):
        self.add_array(self.of_kind(DYNAMIC), self.rng.choice(('fixed', 'limited')))
        self.runtime = True

    def optional_dynamic(self):
        self.put(Field(self.fresh(), self.of_kind(DYNAMIC, UNLIMITED), 'optional'))
        self.runtime = True

    def union_arm_dynamic(self):
        t = self.of_kind(DYNAMIC, UNLIMITED)
        arms = [Arm('x%d' % i, self.any_fixed(), i) for i in range(self.rng.randint(0, 3))]
        arms.insert(self.rng.randint(0, len(arms)), Arm('bad', t, 77))
        self.target = self.insert(Union(self.fresh('UnW'), arms))
        self.runtime = True

    def sizer_missing(self):
        self.put(Field(self.fresh(), self.any_fixed(), 'ext', sizer='nobody'))
        self.runtime = True

    def sizer_after(self):
        s = self.fresh('szr')
        self.put(Field(self.fresh(), self.any_fixed(), 'ext', sizer=s))
        i = max(i for i, f in enumerate(self.target.fields) if f.shape == 'ext' and f.sizer == s)
        self.put(Field(s, 'u32'), lo=i + 1)
        self.runtime = True

    def sizer_self(self):
        n = self.fresh()
        self.put(Field(n, 'u8', 'ext', sizer=n))
        self.runtime = True

    def _bad_sizer(self, f):
        self.target.fields.insert(0, f)
        self.put(Field(self.fresh(), self.any_fixed(), 'ext', sizer=f.name), lo=1)

    def sizer_optional(self):
        self._bad_sizer(Field(self.fresh('szr'), self.wrap(self.rng.choice(('u8', 'u16', 'u32', 'i64'))), 'optional'))
        self.runtime = True

    def sizer_not_integer(self):
        ts = [d for d in self.before() if isinstance(resolve(d), (Struct, Union)) and oracle.layout(d).kind != UNLIMITED] if self.rng.random() < 0.5 else []
        t = self.wrap(self.rng.choice(ts or ['r32', 'r64']))
        self._bad_sizer(Field(self.fresh('szr'), t))
        self.runtime = True

    def sizer_enum(self):
        es = [d for d in self.before() if isinstance(resolve(d), Enum)]
        e = self.rng.choice(es) if es else self.insert(Enum('EnW0', [('EnW0_a', 0)]))
        self._bad_sizer(Field(self.fresh('szr'), self.wrap(e)))

    def sizer_array(self):
        shape = self.rng.choice(('fixed', 'limited', 'dynamic'))
        t = self.rng.choice(('u8', 'u32', 'bytes'))
        self._bad_sizer(Field(self.fresh('szr'), t, shape, self.rng.randint(1, 3) if shape != 'dynamic' else None))

    def field_twice(self):
        f = self.rng.choice(self.target.fields)
        self.put(Field(f.name, self.rng.choice(('u8', 'u16', self.any_fixed()))))

    def counter_twice(self):
        n = self.fresh()
        fs = [Field('num_of_' + n, 'u32'), Field(n, self.rng.choice(('u8', 'bytes')), self.rng.choice(('dynamic', 'limited')), 3)]
        if self.rng.random() < 0.5:
            fs.reverse()
        for f in fs:
            self.put(f, lo=0, hi=0)

    def arm_twice(self):
        self.insert(Union(self.fresh('UnW'), [Arm('x', 'u8', 1), Arm('y', 'u16', 2), Arm('x', 'u32', 3)]))

    def discriminator_twice(self):
        d = self.rng.choice((0, 1, 8, 255, (1 << 32) - 1))
        arms = [Arm('x', self.any_fixed(), d), Arm('y', 'u16', 2), Arm('z', self.any_fixed(), d, self.rng.choice(
            (str(d), hex(d), '%d + 1 - 1' % d, '(%d)' % d)))]
        self.rng.shuffle(arms)
        self.insert(Union(self.fresh('UnW'), arms))

    def enumerator_twice(self):
        self.insert(Enum('EnWt', [('EnWt_a', 1), ('EnWt_b', 2), ('EnWt_a', self.rng.choice((1, 3)))]))
        self.runtime = True

    def enumerator_taken(self):
        names = [n for d in self.before() if isinstance(d, Enum) for n, _ in d.members] + [d.name for d in self.before()]
        self.insert(Enum('EnWk', [('EnWk_a', 1), (self.rng.choice(names), 2)]))

    def enumerator_is_enum(self):
        self.insert(Enum('EnWs', [('EnWs_a', 1), ('EnWs', 2)]))

    def name_taken(self):
        names = [n for d in self.before() if isinstance(d, Enum) for n, _ in d.members] + [d.name for d in self.before()]
        n = self.rng.choice(names)
        self.insert(self.rng.choice((Const(n, 5), Enum(n, [('EnWq_a', 1)]), Typedef(n, 'u8'), Struct(n, [Field('a', 'u8')]),
                                     Union(n, [Arm('a', 'u8', 1)]))))

    def size_not_positive(self):
        shape = self.rng.choice(('fixed', 'limited'))
        text = self.rng.choice(('0', '-1', '0x0', '1 - 1', '3 - 4', '-(2)', '1 / 2', '4 >> 3', '0 * 9', '-0x10', '-4294967295', '00'))
        self.put(Field(self.fresh(), self.rng.choice(('u8', 'bytes', self.any_fixed())), shape, 1, size_text=text))

    def enumerator_range(self):
        text = self.rng.choice(('4294967296', '-1', '0x100000000', '1 << 32', '0xffffffff + 1', '-2147483648', '1 << 40', '1 - 2',
                                '-(1 << 33)'))
        members = [('EnWr_a', 1, '1'), ('EnWr_b', 0, text)]
        self.rng.shuffle(members)
        self.insert(Enum('EnWr', [(n, v) for n, v, _ in members], {n: t for n, _, t in members}))

    def discriminator_range(self):
        text = self.rng.choice(('4294967296', '-1', '0x100000000', '1 << 32', '0xffffffff + 1', '-2147483648', '1 << 40', '1 - 2'))
        arms = [Arm('x', 'u8', 1), Arm('y', self.any_fixed(), 0, text)]
        self.rng.shuffle(arms)
        self.insert(Union(self.fresh('UnW'), arms))

    def undeclared_type(self):
        later = [d.name for d in self.defs[self.at:] if not isinstance(d, Const)]       # the definition itself and later ones
        t = Typedef(self.rng.choice(later + ['Nowhere']), 'u8')
        if self.rng.random() < 0.3:
            self.insert(Typedef(self.fresh('TnW'), t))
        else:
            self.add_array(t, self.rng.choice(('fixed', 'limited', 'dynamic', 'ext'))) if self.rng.random() < 0.5 else self.put(
                Field(self.fresh(), t, self.rng.choice(('plain', 'optional'))))

    def undeclared_name(self):
        text = self.rng.choice(('NOWHERE', '1 + NOWHERE', '-NOWHERE', self.target.name, self.target.name + ' * 2'))
        x = self.rng.random()
        if x < 0.3:
            self.insert(Const('KnW', 1, text))
        elif x < 0.5:
            self.insert(Enum('EnWu', [('EnWu_a', 1)], {'EnWu_a': text}))
        elif x < 0.7:
            self.insert(Union('UnWu', [Arm('a', 'u8', 1, text)]))
        else:
            self.put(Field(self.fresh(), 'u8', self.rng.choice(('fixed', 'limited')), 1, size_text=text))

    def constant_range(self):
        self.insert(Const('KnW', 1, self.rng.choice(('1 << 64', '-(1 << 63) - 1', '0x10000000000000000', '18446744073709551616',
                                                     '-9223372036854775809', '1 << 100'))))

    def size_range(self):
        self.put(Field(self.fresh(), self.rng.choice(('u8', 'bytes', 'u64')), self.rng.choice(('fixed', 'limited')), 1,
                       size_text=self.rng.choice(('1 << 64', '0x10000000000000000', '1 << 70', '18446744073709551616'))))


RULES = [n for n in vars(Edit) if not n.startswith('_') and n not in (
    'schema', 'before', 'insert', 'fresh', 'wrap', 'of_kind', 'any_fixed', 'put', 'add_array')]


# ---------------------------------------------------------------- descriptors written by hand

def py_type(t):
    if isinstance(t, str):
        return 'prophy.u8' if t == 'byte' else 'prophy.' + t
    return t.name


def py_field(f):
    t = py_type(f.type) if f.type != 'bytes' else None
    kw = {'fixed': ['size=%s' % f.size], 'dynamic': ["bound='num_of_%s'" % f.name],
          'limited': ["bound='num_of_%s'" % f.name, 'size=%s' % f.size], 'greedy': [], 'ext': ["bound='%s'" % f.sizer]}
    if f.shape == 'plain':
        return ["('%s', %s)" % (f.name, t)]
    if f.shape == 'optional':
        return ["('%s', prophy.optional(%s))" % (f.name, t)]
    out = ["('num_of_%s', prophy.u32)" % f.name] if f.shape in ('dynamic', 'limited') else []
    if t is None:
        return out + ["('%s', prophy.bytes(%s))" % (f.name, ', '.join(kw[f.shape]))]
    return out + ["('%s', prophy.array(%s))" % (f.name, ', '.join([t] + kw[f.shape]))]


def py_def(d):
    if isinstance(d, Const):
        return '%s = %d' % (d.name, d.value)
    if isinstance(d, Typedef):
        return '%s = %s' % (d.name, py_type(d.target))
    if isinstance(d, Enum):
        return 'class %s(prophy.with_metaclass(prophy.enum_generator, prophy.enum)):\n    _enumerators = [%s]' % (
            d.name, ', '.join("('%s', %d)" % m for m in d.members))
    kind = 'struct' if isinstance(d, Struct) else 'union'
    rows = sum((py_field(f) for f in d.fields), []) if kind == 'struct' else [
        "('%s', %s, %d)" % (a.name, py_type(a.type), a.disc) for a in d.arms]
    return 'class %s(prophy.with_metaclass(prophy.%s_generator, prophy.%s)):\n    _descriptor = [%s]' % (
        d.name, kind, kind, ', '.join(rows))
