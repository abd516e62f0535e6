"""Render schema definitions as isar XML, completed by a patch file where isar cannot express something."""
from xml.sax.saxutils import quoteattr
from .schema import Const, Enum, Typedef, Struct, Union, resolve, PRIMS

PRIMITIVE = {
    'u8': '8 bit integer unsigned', 'u16': '16 bit integer unsigned', 'u32': '32 bit integer unsigned',
    'u64': '64 bit integer unsigned', 'i8': '8 bit integer signed', 'i16': '16 bit integer signed',
    'i32': '32 bit integer signed', 'i64': '64 bit integer signed', 'r32': '32 bit float', 'r64': '64 bit float',
}


def tname(t):
    if isinstance(t, str):
        return 'byte' if t == 'bytes' else t
    return t.name


def attrs(**kw):
    return ''.join(' %s=%s' % (k, quoteattr(str(v))) for k, v in kw.items() if v is not None)


def plain(d):
    """Octal literals are a matter of the prophy language."""
    return str(d.value) if d.text[:1] == '0' and d.text[1:2].isdigit() else d.text


class Isar(object):
    """rng decides between equivalent ways of writing; with patch=False nothing may need a patch."""

    def __init__(self, rng, patch=True):
        self.rng, self.patch, self.named = rng, patch, False
        self.rules = []

    def definition(self, d):
        if isinstance(d, Const):
            return '<constant%s/>' % attrs(name=d.name, value=plain(d))
        if isinstance(d, Typedef):
            if isinstance(d.target, str) and d.target in PRIMITIVE and self.rng.random() < 0.6:
                return '<typedef%s/>' % attrs(name=d.name, primitiveType=PRIMITIVE[d.target])
            return '<typedef%s/>' % attrs(name=d.name, type=tname(d.target))
        if isinstance(d, Enum):
            return '<enum%s>\n%s</enum>' % (attrs(name=d.name), ''.join(
                '  <enum-member%s/>\n' % attrs(name=n, value=d.texts.get(n, self.enum_value(v))) for n, v in d.members))
        if isinstance(d, Union):
            return '<union%s>\n%s</union>' % (attrs(name=d.name), ''.join(
                '  <member%s/>\n' % attrs(type=tname(a.type), name=a.name, discriminatorValue=a.disc_text) for a in d.arms))
        return self.struct(d)

    def enum_value(self, v):
        x = self.rng.random()
        if v >= 1 << 31 and x < 0.5:
            return str(v - (1 << 32))
        return '0x%X' % v if x > 0.8 else str(v)

    def struct(self, d):
        r = self.rng
        out = []
        tag = 'struct'
        if r.random() < 0.3 and not any(f.shape == 'limited' for f in d.fields):
            tag = 'message'      # in messages a size given to a variable array is dropped
        for f in d.fields:
            out.append('  ' + self.member(d, f, tag))
        return '<%s%s>\n%s\n</%s>' % (tag, attrs(name=d.name), '\n'.join(out), tag)

    def member(self, d, f, tag):
        r = self.rng
        head = dict(name=f.name, type=tname(f.type))

        def dim(**kw):
            return '<member%s><dimension%s/></member>' % (attrs(**head), attrs(**kw))

        if f.shape == 'plain':
            return '<member%s/>' % attrs(**head)
        if f.shape == 'optional':
            return '<member%s/>' % attrs(optional='true', **head)
        if f.shape == 'fixed':
            if getattr(f, 'size_parts', None):
                return dim(size=f.size_parts[0], size2=f.size_parts[1])
            if self.patch and r.random() < 0.2 and f.size_text.isdigit():
                self.rules.append('%s static %s %s' % (d.name, f.name, f.size_text))
                return '<member%s/>' % attrs(**head)
            if f.size_text.isdigit() and f.size % 2 == 0 and r.random() < 0.3:
                return dim(size=2, size2=f.size // 2)
            return dim(size=f.size_text)
        if f.shape == 'limited' and f.sizer:
            self.rules.append('%s limited %s %s' % (d.name, f.name, f.sizer))
            return dim(size=f.size_text)
        if f.shape in ('dynamic', 'limited'):
            kw = dict(isVariableSize='true')
            if f.shape == 'limited':
                if self.patch and r.random() < 0.2 and f.size_text.isdigit():
                    self.rules.append('%s limited %s num_of_%s' % (d.name, f.name, f.name))
                    return '<member%s/>\n  %s' % (attrs(name='num_of_' + f.name, type='u32'), dim(size=f.size_text))
                kw['size'] = f.size_text
            elif tag == 'message' and r.random() < 0.3:
                kw['size'] = r.randint(1, 9)
            elif self.patch and r.random() < 0.2:
                self.rules.append('%s dynamic %s num_of_%s' % (d.name, f.name, f.name))
                return '<member%s/>\n  <member%s/>' % (attrs(name='num_of_' + f.name, type='u32'), attrs(**head))
            if self.named or r.random() < 0.5:
                kw['variableSizeFieldName'] = 'num_of_' + f.name
            if r.random() < 0.3:
                kw['variableSizeFieldType'] = 'u32'
            return dim(**kw)
        if f.shape == 'ext':
            if self.patch and r.random() < 0.4:
                self.rules.append('%s dynamic %s %s' % (d.name, f.name, f.sizer))
                return '<member%s/>' % attrs(**head)
            return dim(isVariableSize='true', variableSizeFieldName='@' + f.sizer)
        if f.shape == 'greedy':
            self.rules.append('%s greedy %s' % (d.name, f.name))
            if r.random() < 0.5:
                return '<member%s/>' % attrs(**head)
            return dim(size=r.randint(1, 3))
        raise ValueError(f.shape)


def render(defs, rng, patch=True, includes=(), named=False):
    """Returns (xml text, patch text) with the definitions in the given order."""
    i = Isar(rng, patch)
    i.named = named
    body = [i.definition(d) for d in defs]
    inc = ''.join('<xi:include%s/>\n' % attrs(href=x) for x in includes)
    xml = '<?xml version="1.0" encoding="UTF-8"?>\n<dom xmlns:xi="http://www.w3.org/2001/XInclude">\n%s%s\n</dom>\n' % (
        inc, '\n'.join(body))
    return xml, ''.join(x + '\n' for x in i.rules)
