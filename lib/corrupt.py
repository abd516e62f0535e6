"""Byte strings for decoders: valid encodings and every kind of damage to them."""
import struct as _struct
from . import gen, oracle

COUNTERS = [0, 1, 2, 3, 4, 5, 7, 8, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x10000000,
            0x20000000, 0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaab, 0xfffffffe, 0xffffffff, 0x1000000000000000,
            0x2000000000000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff]


def put(data, off, size, value, order):
    b = (value & ((1 << 8 * size) - 1)).to_bytes(size, 'little' if order == '<' else 'big')
    return data[:off] + b + data[off + size:]


def inputs(rng, t, nvalues, per_value):
    """Yield (order, bytes, how)."""
    for k in range(nvalues):
        mode = ('max', 'random', 'random')[k % 3]
        v = gen.ValueGen(rng, mode, lens=(0, 1, 1, 2, 2, 3), long=0).value(t)
        order = rng.choice('<>')
        e = oracle.emit(t, v, order)
        data = bytes(e.buf)
        n = len(data)
        out = []
        cuts = list(range(n))
        if len(cuts) > per_value:
            edges = sorted({x for off, sz, _ in e.scalars for x in (off, off + sz - 1, off + sz)} & set(cuts))
            rng.shuffle(edges)
            cuts = edges[:per_value // 2] + rng.sample(cuts, per_value - per_value // 2)
        out += [(order, data[:c], 'prefix') for c in cuts]
        ctl = [s for s in e.scalars if s[2] in ('counter', 'flag', 'disc', 'enum')]
        for off, sz, what in (ctl if len(ctl) <= 12 else rng.sample(ctl, 12)):
            cur = int.from_bytes(data[off:off + sz], 'little' if order == '<' else 'big')
            vals = [cur + 1, cur - 1, cur + 2, cur * 2]
            if what == 'counter':
                vals += rng.sample(COUNTERS, 6) + [rng.choice([0xffffffff, 0x80000000, 0x7fffffff, 65537, 65536])]
            else:
                vals += [0, 1, 2] + rng.sample(COUNTERS, 2)
            for x in vals:
                bad = put(data, off, sz, x, order)
                out.append((order, bad, what))
                if rng.random() < 0.25 and n:
                    out.append((order, bad[:rng.randrange(n)], what + '_cut'))
                if rng.random() < 0.15:
                    out.append((order, bad + bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 8, 16]))), what + '_ext'))
        for x in (1, 2, 3, 4, 7, 8, 16):
            out.append((order, data + b'\0' * x, 'extended'))
        out.append((order, data + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20))), 'extended'))
        for off, sz in rng.sample(e.pads, min(2, len(e.pads))):
            out.append((order, data[:off] + b'\xff' * sz + data[off + sz:], 'padding'))
        if n:
            for _ in range(4):
                i = rng.randrange(n)
                out.append((order, data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:], 'bitflip'))
                j = rng.randrange(n)
                out.append((order, data[:j] + data[j + rng.randrange(1, 5):], 'deleted'))
        out.append(('<' if order == '>' else '>', data, 'wrong_order'))
        for _ in range(2):
            out.append((order, bytes(rng.choice([0, 0, 0, 1, 1, 2, 255, rng.randrange(256)])
                                     for _ in range(rng.randrange(0, max(8, n) + 8))), 'random'))
        if len(out) > 3 * per_value:
            out = rng.sample(out, 3 * per_value)
        out.append((order, data, 'valid'))
        for x in out:
            yield x
    yield '<', b'', 'empty'
