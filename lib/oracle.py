"""Reference implementation of docs/encoding.rst: layout, encoder, text rendering.

Values: struct -> dict name->value (externally sized arrays' sizers left out), union ->
(arm name, value), optional -> None or value, arrays -> list, bytes -> bytes, enum -> int.
"""
import struct as _struct
from .schema import (PRIMS, Enum, Struct, Union, Typedef, resolve, FIXED, DYNAMIC, UNLIMITED)


def up(n, a):
    return (n + a - 1) // a * a


class Layout(object):
    __slots__ = ('size', 'align', 'kind', 'members')

    def __init__(self, size, align, kind, members=None):
        self.size, self.align, self.kind, self.members = size, align, kind, members


class WireMember(object):
    """One member as it appears on the wire. role: value|counter|flagged(optional)|array"""
    __slots__ = ('name', 'role', 'field', 'type', 'align', 'size', 'dynamic', 'counted', 'block', 'offset')

    def __init__(self, name, role, field, type_, align, size, dynamic):
        self.name, self.role, self.field, self.type = name, role, field, type_
        self.align, self.size, self.dynamic = align, size, dynamic
        self.counted = None
        self.block = None      # alignment of the block this member opens (not for the first block)
        self.offset = None     # offset from the start of the struct / of its part


_cache = {}


def layout(t):
    t = resolve(t)
    if isinstance(t, str):
        if t == 'bytes':
            return Layout(1, 1, FIXED)
        n = PRIMS[t][0]
        return Layout(n, n, FIXED)
    if isinstance(t, Enum):
        return Layout(4, 4, FIXED)
    key = id(t)
    hit = _cache.get(key)
    if hit is not None and hit[0] is t:
        return hit[1]
    lay = _struct_layout(t) if isinstance(t, Struct) else _union_layout(t)
    _cache[key] = (t, lay)
    return lay


def _union_layout(u):
    ls = [layout(a.type) for a in u.arms]
    align = max([4] + [l.align for l in ls])
    size = up(align + max(l.size for l in ls), align)
    return Layout(size, align, FIXED)


def wire_members(s):
    out = []
    for f in s.fields:
        el = layout(f.type)
        if f.shape == 'plain':
            role = 'sizer' if f.name in s.sizers else 'value'
            out.append(WireMember(f.name, role, f, f.type, el.align, el.size or 0, el.kind != FIXED))
        elif f.shape == 'optional':
            align = max(4, el.align)
            out.append(WireMember(f.name, 'optional', f, f.type, align, align + el.size, False))
        else:
            if f.shape in ('dynamic', 'limited') and not f.sizer:
                m = WireMember('num_of_' + f.name, 'counter', f, 'u32', 4, 4, False)
                out.append(m)
            dyn = f.shape in ('dynamic', 'ext', 'greedy')
            size = 0 if dyn else el.size * f.size
            out.append(WireMember(f.name, 'array', f, f.type, el.align, size, dyn))
    # block rule
    for i in range(1, len(out)):
        if out[i - 1].dynamic:
            a = 1
            for m in out[i:]:
                a = max(a, m.align)
                if m.dynamic:
                    break
            out[i].block = a
    return out


def _struct_layout(s):
    ms = wire_members(s)
    align = max(m.align for m in ms)
    kind = FIXED
    for m in ms:
        f = m.field
        k = layout(f.type).kind
        if f.shape == 'greedy' and m.role == 'array':
            k = UNLIMITED
        elif m.dynamic:
            k = max(k, DYNAMIC)
        kind = max(kind, k)
    off = 0
    for m in ms:
        if m.block:
            off = 0
        off = up(off, m.align)
        m.offset = off
        off += m.size
    size = up(off, align) if kind == FIXED else None
    return Layout(size, align, kind, ms)


class Emitter(object):
    def __init__(self, order):
        self.order = order
        self.buf = bytearray()
        self.scalars = []   # (offset, size, what)
        self.pads = []      # (offset, size)
        self.raw = []       # bytes payloads (offset, size)
        self.slack = 0      # end of the last union or limited array, unused space included
        self.tail_padded = False
        self.realigned = False   # a later part (3rd or on) starts less aligned than the end of the part before
        self.tops = None    # offsets of the outermost struct's members

    def pad_to(self, align):
        n = -len(self.buf) % align
        if n:
            self.pads.append((len(self.buf), n))
            self.buf += b'\0' * n

    def zeros(self, n):
        if n:
            self.pads.append((len(self.buf), n))
            self.buf += b'\0' * n

    def scalar(self, prim, value, what=''):
        n, code = PRIMS[prim]
        self.scalars.append((len(self.buf), n, what))
        self.buf += _struct.pack(self.order + code, value)

    def bytes(self, data):
        if data:
            self.raw.append((len(self.buf), len(data)))
            self.buf += data


def encode(t, value, order='<'):
    return bytes(emit(t, value, order).buf)


def emit(t, value, order='<'):
    e = Emitter(order)
    _emit(e, t, value)
    return e


def _emit(e, t, v):
    t = resolve(t)
    if isinstance(t, str):
        e.scalar(t, v)
    elif isinstance(t, Enum):
        e.scalar('u32', v, 'enum')
    elif isinstance(t, Union):
        _emit_union(e, t, v)
    else:
        _emit_struct(e, t, v)


def _emit_union(e, u, v):
    lay = layout(u)
    start = len(e.buf)
    arm = u.arm(v[0])
    e.scalar('u32', arm.disc, 'disc')
    e.pad_to(lay.align)
    _emit(e, arm.type, v[1])
    e.zeros(start + lay.size - len(e.buf))
    e.slack = len(e.buf)


def _emit_struct(e, s, v):
    lay = layout(s)
    mine = []
    part, parts = 1, 0
    ext_len = {}
    for f in s.fields:
        if f.sizer:
            ext_len[f.sizer] = len(v[f.name])
    for m in lay.members:
        f = m.field
        if m.block:
            if parts and part > m.block and len(e.buf) % part:
                e.realigned = True
            part, parts = m.block, parts + 1
            e.pad_to(m.block)
        e.pad_to(m.align)
        mine.append((m.name, len(e.buf)))
        if m.role == 'counter':
            e.scalar('u32', len(v[f.name]), 'counter')
        elif m.role == 'sizer':
            e.scalar(resolve(f.type), ext_len[f.name], 'counter')
        elif m.role == 'value':
            _emit(e, f.type, v[f.name])
        elif m.role == 'optional':
            el = layout(f.type)
            if v[f.name] is None:
                # the flag is a scalar also when unset
                e.scalar('u32', 0, 'flag')
                e.zeros(m.size - 4)
            else:
                e.scalar('u32', 1, 'flag')
                e.zeros(m.align - 4)
                _emit(e, f.type, v[f.name])
        else:
            start = len(e.buf)
            if f.type == 'bytes':
                e.bytes(v[f.name])
            else:
                for x in v[f.name]:
                    _emit(e, f.type, x)
            if f.shape in ('fixed', 'limited'):
                e.zeros(start + m.size - len(e.buf))
                if f.shape == 'limited':
                    e.slack = len(e.buf)
        mine[-1] += (len(e.buf),)
    if lay.kind == UNLIMITED and len(e.buf) % lay.align:
        e.tail_padded = True
    e.pad_to(lay.align)
    e.tops = mine       # (member, start, end)


# ---------------------------------------------------------------- values

def greedy_aligned(t, v):
    """True unless v has a greedy tail that ends off the alignment of an enclosing message."""
    if layout(t).kind != UNLIMITED:
        return True
    return not emit(t, v).tail_padded


def default(t):
    t = resolve(t)
    if isinstance(t, str):
        return 0.0 if t[0] == 'r' else 0
    if isinstance(t, Enum):
        return t.members[0][1]
    if isinstance(t, Union):
        return (t.arms[0].name, default(t.arms[0].type))
    return {f.name: field_default(f) for f in t.value_fields}


def field_default(f):
    if f.shape == 'optional':
        return None
    if f.shape == 'plain':
        return default(f.type)
    if f.type == 'bytes':
        return b'\0' * f.size if f.shape == 'fixed' else b''
    if f.shape == 'fixed':
        return [default(f.type) for _ in range(f.size)]
    return []


# ---------------------------------------------------------------- text

def render_text(t, v):
    t = resolve(t)
    out = []
    if isinstance(t, Union):
        arm = t.arm(v[0])
        _text_field(out, arm.name, arm.type, v[1])
    else:
        for f in t.value_fields:
            x = v[f.name]
            if f.shape == 'optional':
                if x is not None:
                    _text_field(out, f.name, f.type, x)
            elif f.shape == 'plain':
                _text_field(out, f.name, f.type, x)
            elif f.type == 'bytes':
                out.append('%s: %s' % (f.name, _quote(x)))
            else:
                for y in x:
                    _text_field(out, f.name, f.type, y)
    return ''.join(l + '\n' for l in out)


def _quote(data):
    out = []
    for c in data:
        if c == 0x27:
            out.append("\\'")
        elif c == 0x5c:
            out.append('\\\\')
        elif c == 9:
            out.append('\\t')
        elif c == 10:
            out.append('\\n')
        elif c == 13:
            out.append('\\r')
        elif 32 <= c < 127:
            out.append(chr(c))
        else:
            out.append('\\x%02x' % c)
    return "'" + ''.join(out) + "'"


def _text_field(out, name, t, x):
    t = resolve(t)
    if isinstance(t, str):
        out.append('%s: %s' % (name, x))
    elif isinstance(t, Enum):
        out.append('%s: %s' % (name, t.by_value[x]))
    else:
        out.append('%s {' % name)
        out.extend('  ' + l for l in render_text(t, x).splitlines())
        out.append('}')
