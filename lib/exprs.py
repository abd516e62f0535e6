"""Random constant expressions with their value under the language's precedence (+ - below * / below << >> below unary -)."""

PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '<<': 3, '>>': 3, 'neg': 4}
APPLY = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a // b,
    '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b, '|': lambda a, b: a | b,
}
LIMIT = 1 << 70


class Exprs(object):
    """rng decides everything; names: list of (name, value); bases: which literal notations may appear."""

    def __init__(self, rng, bases=('dec', 'hex', 'oct'), isar=False):
        self.rng, self.bases, self.isar = rng, bases, isar
        self.names = []
        self.ops = set()
        self.functions = True

    # a tree is ('lit', value, text) | ('name', value, text) | ('neg', value, sub) | (op, value, left, right)
    def literal(self, v=None):
        r = self.rng
        if v is None:
            v = r.choice((0, 1, 2, 3, 7, 8, 9, 10, 16, 63, 64, 255, 256, 1000, 65535, 65536, r.randrange(1 << r.randint(1, 33))))
        base = r.choice(self.bases)
        self.ops.add(base)
        if base == 'hex':
            text = '0x' + (r.choice(('%x', '%X', '%08x')) % v)
        elif base == 'oct' and v:
            text = '0%o' % v
        else:
            text = str(v)
        return ('lit', v, text)

    def tree(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.12:
            if self.names and r.random() < 0.45:
                n, v = r.choice(self.names)
                self.ops.add('name')
                return ('name', v, n)
            return self.literal()
        for _ in range(8):
            op = r.choice(('+', '-', '*', '/', '<<', '>>', '+', '-', '*', 'neg') + (('|',) if self.isar and self.functions else ()))
            a = self.tree(depth - 1)
            if op == 'neg':
                return ('neg', -a[1], a)
            if op in ('<<', '>>'):
                b = self.literal(r.randint(0, 12)) if r.random() < 0.7 else self.tree(depth - 2)
                if not 0 <= b[1] <= 64:
                    continue
            else:
                b = self.tree(depth - 1)
            if op == '/' and (a[1] < 0 or b[1] <= 0):
                continue
            v = APPLY[op](a[1], b[1])
            if abs(v) < LIMIT:
                self.ops.add(op)
                return (op, v, a, b)
        return self.literal()

    def text(self, t):
        r = self.rng
        if t[0] in ('lit', 'name'):
            return t[2] if r.random() < 0.9 else '(%s)' % t[2]
        if t[0] == 'neg':
            s = self.text(t[2])
            if t[2][0] not in ('lit', 'name', 'neg') or (t[2][0] == 'neg' and r.random() < 0.5):
                s = '(%s)' % s
            return '-' + (' ' if s[:1] == '-' or r.random() < 0.2 else '') + s
        a, b = self.text(t[2]), self.text(t[3])
        if t[0] == '|':
            return 'bitMaskOr(%s, %s)' % (a, b)
        if t[0] == '<<' and self.isar and self.functions and r.random() < 0.5:
            return 'shiftLeft(%s,%s%s)' % (a, ' ' * r.randint(0, 2), b)
        p = PREC[t[0]]
        if PREC.get(t[2][0], 9) < p:
            a = '(%s)' % a
        if PREC.get(t[3][0], 9) <= p:
            b = '(%s)' % b
        s = r.choice(('', ' ', ' '))
        out = a + s + t[0] + s + b
        return '(%s)' % out if r.random() < 0.15 else out

    def expr(self, lo, hi, depth=None, functions=True):
        """(text, value) with lo <= value <= hi."""
        r = self.rng
        self.functions = functions
        for _ in range(30):
            t = self.tree(r.randint(0, 4) if depth is None else depth)
            if lo <= t[1] <= hi:
                return self.text(t), t[1]
        # bring any tree into range
        for _ in range(30):
            t = self.tree(2)
            want = r.randint(lo, min(hi, lo + 2000))
            d = want - t[1]
            l = self.literal(abs(d))
            t = ('+' if d >= 0 else '-', want, t, l)
            return self.text(t), want

    def exact(self, v):
        """(text, value) of an expression for one value: a literal, or a sum of two."""
        t = self.literal(abs(v))
        if v < 0:
            t = ('neg', v, t)
        if self.rng.random() < 0.4:
            d = self.rng.randint(1, 1 << 16)
            t = ('-', v, self.literal(v + d), self.literal(d)) if v >= 0 else ('-', v, ('neg', v + d, self.literal(-v - d)), self.literal(d)) if v + d < 0 else t
        return self.text(t), v
