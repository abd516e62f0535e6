"""Schema model of the verification machinery, independent of prophyc.

A Schema is an ordered list of definitions. Field shapes:
  plain      T x;
  optional   T* x;
  fixed      T x[n];
  dynamic    T x<>;        (implicit u32 counter num_of_x)
  limited    T x<n>;       (implicit u32 counter num_of_x; with a sizer, which only a patch can give, that one instead)
  greedy     T x<...>;
  ext        T x<@sizer>;
The element type 'bytes' stands for a byte string (only fixed/dynamic/limited/greedy/ext).
"""

PRIMS = {
    'u8': (1, 'B'), 'u16': (2, 'H'), 'u32': (4, 'I'), 'u64': (8, 'Q'),
    'i8': (1, 'b'), 'i16': (2, 'h'), 'i32': (4, 'i'), 'i64': (8, 'q'),
    'r32': (4, 'f'), 'r64': (8, 'd'),
}
INTS = ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64')
PROPHY_NAMES = {'r32': 'float', 'r64': 'double'}
FIXED, DYNAMIC, UNLIMITED = 0, 1, 2


def int_range(prim):
    bits = PRIMS[prim][0] * 8
    if prim[0] == 'u':
        return 0, (1 << bits) - 1
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


class Const(object):
    def __init__(self, name, value, text=None):
        self.name, self.value, self.text = name, value, text if text is not None else str(value)


class Enum(object):
    def __init__(self, name, members, texts=None):
        self.name, self.members = name, list(members)
        self.texts = texts or {}

    @property
    def by_value(self):
        return {v: n for n, v in self.members}


class Typedef(object):
    def __init__(self, name, target):
        self.name, self.target = name, target


class Field(object):
    def __init__(self, name, type_, shape='plain', size=None, sizer=None, size_text=None):
        self.name, self.type, self.shape, self.size, self.sizer = name, type_, shape, size, sizer
        self.size_text = size_text if size_text is not None else (str(size) if size is not None else None)

    def __repr__(self):
        return render_field(self)


class Struct(object):
    def __init__(self, name, fields):
        self.name, self.fields = name, list(fields)

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        raise KeyError(name)

    @property
    def sizers(self):
        return {f.sizer for f in self.fields if f.sizer}

    @property
    def value_fields(self):
        s = self.sizers
        return [f for f in self.fields if f.name not in s]


class Arm(object):
    def __init__(self, name, type_, disc, disc_text=None):
        self.name, self.type, self.disc = name, type_, disc
        self.disc_text = disc_text if disc_text is not None else str(disc)


class Union(object):
    def __init__(self, name, arms):
        self.name, self.arms = name, list(arms)

    def arm(self, name):
        for a in self.arms:
            if a.name == name:
                return a
        raise KeyError(name)


class Schema(object):
    def __init__(self, defs):
        self.defs = list(defs)

    def get(self, name):
        for d in self.defs:
            if d.name == name:
                return d
        raise KeyError(name)

    @property
    def composites(self):
        return [d for d in self.defs if isinstance(d, (Struct, Union))]

    @property
    def structs(self):
        return [d for d in self.defs if isinstance(d, Struct)]

    @property
    def unions(self):
        return [d for d in self.defs if isinstance(d, Union)]


def resolve(t):
    while isinstance(t, Typedef):
        t = t.target
    return t


def type_name(t):
    if isinstance(t, str):
        return PROPHY_NAMES.get(t, t)
    return t.name


def render_field(f):
    t = type_name(f.type)
    if f.shape == 'plain':
        return '%s %s;' % (t, f.name)
    if f.shape == 'optional':
        return '%s* %s;' % (t, f.name)
    if f.shape == 'fixed':
        return '%s %s[%s];' % (t, f.name, f.size_text)
    if f.shape == 'dynamic':
        return '%s %s<>;' % (t, f.name)
    if f.shape == 'limited':
        return '%s %s<%s>;' % (t, f.name, f.size_text)
    if f.shape == 'greedy':
        return '%s %s<...>;' % (t, f.name)
    if f.shape == 'ext':
        return '%s %s<@%s>;' % (t, f.name, f.sizer)
    raise ValueError(f.shape)


def is_implicit(fields, i):
    """Counter and array written as one field: num_of_x of u32 right before x."""
    f, g = fields[i:i + 2] if i + 1 < len(fields) else (None, None)
    return (f is not None and g.shape == 'ext' and getattr(g, 'implicit', False) and g.sizer == f.name == 'num_of_' + g.name and
            f.shape == 'plain' and f.type == 'u32')


def render_fields(fields):
    out, i = [], 0
    while i < len(fields):
        if is_implicit(fields, i):
            i += 1
            out.append('%s %s<>;' % (type_name(fields[i].type), fields[i].name))
        else:
            out.append(render_field(fields[i]))
        i += 1
    return out


def render_def(d):
    if isinstance(d, Const):
        return 'const %s = %s;' % (d.name, d.text)
    if isinstance(d, Enum):
        return 'enum %s { %s };' % (d.name, ', '.join(
            '%s = %s' % (n, d.texts.get(n, str(v))) for n, v in d.members))
    if isinstance(d, Typedef):
        return 'typedef %s %s;' % (type_name(d.target), d.name)
    if isinstance(d, Struct):
        return 'struct %s {\n%s\n};' % (d.name, '\n'.join('    ' + f for f in render_fields(d.fields)))
    if isinstance(d, Union):
        return 'union %s {\n%s\n};' % (d.name, '\n'.join(
            '    %s: %s %s;' % (a.disc_text, type_name(a.type), a.name) for a in d.arms))
    raise ValueError(d)


def render(defs):
    if isinstance(defs, Schema):
        defs = defs.defs
    return '\n'.join(render_def(d) for d in defs) + '\n'


def direct_deps(d):
    """Definitions referred to by type."""
    if isinstance(d, Typedef):
        ts = [d.target]
    elif isinstance(d, Struct):
        ts = [f.type for f in d.fields]
    elif isinstance(d, Union):
        ts = [a.type for a in d.arms]
    else:
        ts = []
    return [t for t in ts if not isinstance(t, str)]


def closure(d):
    """d and all it depends on by type, dependencies first."""
    out = []

    def visit(x):
        if any(x is y for y in out):
            return
        for y in direct_deps(x):
            visit(y)
        out.append(x)
    visit(d)
    return out


def minimal_text(d, extra=()):
    """Stand-alone schema text for one definition (sizes/values as plain integers)."""
    import copy
    out = []
    for x in list(extra) + closure(d):
        x = copy.copy(x)
        if isinstance(x, Struct):
            fs = []
            for f in x.fields:
                f = copy.copy(f)
                if f.size is not None:
                    f.size_text = str(f.size)
                fs.append(f)
            x.fields = fs
        elif isinstance(x, Union):
            arms = []
            for a in x.arms:
                a = copy.copy(a)
                a.disc_text = str(a.disc)
                arms.append(a)
            x.arms = arms
        elif isinstance(x, Enum):
            x.texts = {}
        elif isinstance(x, Const):
            x.text = str(x.value)
        out.append(x)
    return render(out)
