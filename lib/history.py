"""Random histories of public operations on Python messages, mirrored on a plain reference model."""
from . import gen, oracle, pyrt
from .report import Hang, cpu_limit
from .schema import Enum, Struct, Union, resolve, int_range

SIZER_LIMIT = {'u8': 255, 'i8': 127, 'i16': 32767, 'u16': 65535}


# ---------------------------------------------------------------- reference model

class RS(object):
    """Struct state: field -> scalar | bytes | None | RS | RU | list."""

    def __init__(self, t):
        self.t = t
        self.v = {f.name: fresh_field(f) for f in t.value_fields}

    def plain(self):
        return {k: plain(x) for k, x in self.v.items()}


class RU(object):
    def __init__(self, t):
        self.t = t
        self.arm = t.arms[0]
        self.v = fresh(self.arm.type)

    def plain(self):
        return (self.arm.name, plain(self.v))


def plain(x):
    if isinstance(x, (RS, RU)):
        return x.plain()
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def fresh(t):
    t = resolve(t)
    if isinstance(t, Struct):
        return RS(t)
    if isinstance(t, Union):
        return RU(t)
    return oracle.default(t)


def fresh_field(f):
    if f.shape == 'optional':
        return None
    if f.shape == 'plain':
        return fresh(f.type)
    if f.type == 'bytes':
        return b'\0' * f.size if f.shape == 'fixed' else b''
    if f.shape == 'fixed':
        return [fresh(f.type) for _ in range(f.size)]
    return []


def build(t, v):
    """Reference object holding plain value v."""
    t = resolve(t)
    if isinstance(t, Struct):
        r = RS(t)
        for f in t.value_fields:
            x = v[f.name]
            if f.shape in ('plain', 'optional'):
                r.v[f.name] = None if x is None else build(f.type, x)
            elif f.type == 'bytes':
                r.v[f.name] = x
            else:
                r.v[f.name] = [build(f.type, y) for y in x]
        return r
    if isinstance(t, Union):
        r = RU(t)
        r.arm = t.arm(v[0])
        r.v = build(r.arm.type, v[1])
        return r
    return v


def composite(t):
    return isinstance(resolve(t), (Struct, Union))


def array_limit(s, f):
    """Most elements the array may hold, None if unbounded."""
    if f.shape in ('limited', 'fixed'):
        return f.size
    if f.shape == 'ext':
        n = SIZER_LIMIT.get(resolve(s.field(f.sizer).type))
        return n and n - getattr(f, 'shift', 0)
    return None


# ---------------------------------------------------------------- arguments

class Odd(object):
    def __repr__(self):
        return '<object>'


class Args(object):
    def __init__(self, rng):
        self.r = rng
        self.g = gen.ValueGen(rng)

    def scalar(self, t, bad=None):
        """(argument, accepted?, stored value)"""
        r, t = self.r, resolve(t)
        if bad is None:
            bad = r.random() < 0.25
        if isinstance(t, Enum):
            if bad:
                vals = set(t.by_value)
                unk = [x for x in (0, 1, 2, 4, 6, 77, 0xfffffff0, -1, 1 << 32, 1 << 40) if x not in vals]
                names = {n for n, _ in t.members}
                return r.choice(unk + ['nope', '', t.members[0][0] + 'x', None, 1.5, b'x', [], Odd()]), False, None
            n, v = r.choice(t.members)
            return r.choice([n, v]), True, v
        if t in ('r32', 'r64'):
            if bad:
                c = ['1.0', b'1', None, [], (1.0,), Odd(), 10 ** 400, -10 ** 400]
                if t == 'r32':
                    c += [1e39, -1e39, 3.5e38, 10 ** 39, -10 ** 39, 1.7e308]
                return r.choice(c), False, None
            v = r.choice([self.g.scalar(t), r.randint(-1000, 1000), float('nan'), float('inf'), 3.4028234663852886e38, 2 ** 100])
            return v, True, float(v)
        lo, hi = int_range(t)
        if bad:
            return r.choice([lo - 1, hi + 1, 1 << 70, -(1 << 70), hi + (1 << 31), '1', b'1', 1.0, None, [], (1,), Odd()]), False, None
        v = self.g.scalar(t)
        return v, True, v

    def bytes(self, s, f, bad=None):
        r = self.r
        lim = array_limit(s, f)
        if bad is None:
            bad = r.random() < 0.3
        if bad:
            c = ['text', None, 5, [1], bytearray(b'ab'), Odd()]
            if lim is not None and lim < 40000:
                c += [b'z' * (lim + 1), b'z' * (lim + 1), b'z' * (lim + 2)]
            return r.choice(c), False, None
        n = r.choice([0, 1, 2, 3, 7, lim if lim is not None and lim < 40000 else 9])
        if lim is not None:
            n = min(n, lim)
        v = self.g.bytes(n)
        return v, True, (v.ljust(f.size, b'\0') if f.shape == 'fixed' else v)

    def items(self, t, n, bad=None):
        """n scalar arguments; (list, all accepted?, stored list)"""
        r = self.r
        if bad is None:
            bad = r.random() < 0.25
        xs = [self.scalar(t, False) for _ in range(n)]
        if bad and n:
            xs[r.choice([n - 1, r.randrange(n)])] = self.scalar(t, True)
        return [x[0] for x in xs], all(x[1] for x in xs), [x[2] for x in xs]

    def wrap(self, xs):
        """The same items as another kind of iterable."""
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return tuple(xs), 'tuple'
        if k == 1:
            return (x for x in xs), 'generator'
        if k == 2:
            return iter(xs), 'iterator'
        return list(xs), 'list'

    def index(self, n):
        r = self.r
        return r.choice([0, -1, n - 1, n, -n, -n - 1, r.randint(-n - 2, n + 2), r.randint(-n - 2, n + 2), 100, -100])

    def slice(self, n):
        r = self.r

        def b():
            return r.choice([None, None, 0, 1, -1, n, r.randint(-n - 2, n + 2), r.randint(-n - 2, n + 2)])
        step = r.choice([None, None, None, None, 1, 2, -1, -2, 3])
        return slice(b(), b(), step)


OK, REJECT, MISUSE = 'accepted', 'rejected', 'misused'


class Node(object):
    """A message object, its reference twin, and where it sits."""

    def __init__(self, m, r, t, path):
        self.m, self.r, self.t, self.path = m, r, t, path


class History(object):
    def __init__(self, prophy, mod, t, rng, res):
        self.prophy, self.mod, self.t, self.rng, self.res = prophy, mod, t, rng, res
        self.args = Args(rng)
        self.log = []
        self.root = Node(getattr(mod, t.name)(), fresh(t), t, '')
        self.stale = []
        self.loose = False      # acting on a held object that is no longer part of the message

    # -- choosing where to act
    def pick(self):
        self.loose = False
        if self.stale and self.rng.random() < 0.12:
            n = self.rng.choice(self.stale)
            self.loose = not attached(n.r, self.root.r)
            self.res.note('held_detached' if self.loose else 'held_attached')
            return n
        n = self.root
        while True:
            kids = self.children(n)
            if not kids or self.rng.random() < 0.4:
                break
            n = self.rng.choice(kids)()
        if self.rng.random() < 0.05:
            self.stale = self.stale[-5:] + [Node(n.m, n.r, n.t, '(held)' + n.path)]
        return n

    def children(self, n):
        out = []
        if isinstance(n.t, Union):
            a = n.r.arm
            if composite(a.type):
                out.append(lambda: Node(getattr(n.m, a.name), n.r.v, resolve(a.type), n.path + '.' + a.name))
            return out
        for f in n.t.value_fields:
            if f.type == 'bytes' or not composite(f.type):
                continue
            x = n.r.v[f.name]

            def go(f=f, x=x):
                y = getattr(n.m, f.name)
                if isinstance(x, list):
                    i = self.rng.randrange(-len(x), len(x))
                    return Node(y[i], x[i], resolve(f.type), '%s.%s[%d]' % (n.path, f.name, i))
                return Node(y, x, resolve(f.type), n.path + '.' + f.name)
            if x is not None and x != []:
                out.append(go)
        return out

    # -- performing one operation
    def do(self, text, call, expect, kind='value'):
        """Run call; expect is OK, REJECT or MISUSE. Returns None or (key, description)."""
        self.log.append(text if len(text) < 300 else text[:300] + '...')
        self.res.note(expect)
        try:
            with cpu_limit(5):
                call()
            err = None
        except Hang:
            return 'hang', '%s did not finish in 5 s of CPU' % text
        except Exception as e:
            err = e
        if self.loose:
            return None
        if expect == OK:
            if err is not None:
                return 'refused', '%s raised %s: %s' % (text, type(err).__name__, str(err)[:200])
            return None
        if err is None:
            return 'accepted', '%s was accepted' % text
        if expect == MISUSE:
            allowed = (self.prophy.ProphyError, TypeError, AttributeError, ValueError, IndexError)
        else:
            allowed = {'value': (self.prophy.ProphyError,), 'index': (IndexError, self.prophy.ProphyError),
                       'element': (ValueError, self.prophy.ProphyError),
                       'any': (IndexError, ValueError, self.prophy.ProphyError)}[kind]
        if not isinstance(err, allowed):
            return 'error-type', '%s raised %s: %s' % (text, type(err).__name__, str(err)[:200])
        return None

    def step(self):
        n = self.pick()
        if self.loose:
            try:
                self.act(n)
            except Exception:
                pass
            return n, None
        return n, self.act(n)

    def act(self, n):
        if n is self.root and self.rng.random() < 0.06:
            return self.decode(n)
        if isinstance(n.t, Union):
            return self.union_op(n)
        f = self.rng.choice(n.t.value_fields)
        if self.rng.random() < 0.03 and n.t.sizers:
            s = self.rng.choice(sorted(n.t.sizers))
            return self.do('%s.%s = 3' % (n.path, s), lambda: setattr(n.m, s, 3), MISUSE)
        return self.field_op(n, f)

    def decode(self, n):
        """Whatever the message held, it now holds what the bytes say."""
        v = gen.align_greedy(self.rng, n.t, self.args.g.value(n.t))
        if v is None:
            return None
        o = self.rng.choice('<>')
        data = oracle.encode(n.t, v, o)
        if getattr(self.mod, 'shifted', False):
            m = getattr(self.mod, n.t.name)()
            pyrt.assign(m, n.t, v)
            data = m.encode(o)
        e = self.do('%s.decode(%s, %r)' % (n.path, data.hex(), o), lambda: n.m.decode(data, o), OK)
        new = build(n.t, v)
        if isinstance(n.t, Union):
            n.r.arm = new.arm
        n.r.v = new.v
        self.stale = []
        self.res.note('decoded_into')
        return e

    def union_op(self, n):
        r, u, rng = n.r, n.t, self.rng
        x = rng.random()
        if x < 0.5:
            if rng.random() < 0.25:
                names = [a.name for a in u.arms] + [a.disc for a in u.arms]
                arg = rng.choice([y for y in ('nope', 8, 77, -1, 1 << 33, None, [], 0.5, b'a', 'discriminator') if y not in names])
                return self.do('%s.discriminator = %r' % (n.path, arg), lambda: setattr(n.m, 'discriminator', arg), REJECT)
            a = rng.choice(u.arms)
            arg = rng.choice([a.name, a.disc])
            e = self.do('%s.discriminator = %r' % (n.path, arg), lambda: setattr(n.m, 'discriminator', arg), OK)
            if a is not r.arm:
                r.arm = a
                r.v = fresh(a.type)
            return e
        a = rng.choice(u.arms)
        if a is not r.arm:
            if rng.random() < 0.5:
                return self.do('read %s.%s' % (n.path, a.name), lambda: getattr(n.m, a.name), REJECT)
            arg = 1 if composite(a.type) else self.args.scalar(a.type, False)[0]
            return self.do('%s.%s = %r' % (n.path, a.name, arg), lambda: setattr(n.m, a.name, arg), REJECT)
        return self.set_plain(n, a.name, a.type, 'arm')

    def set_plain(self, n, name, t, where):
        r = n.r
        if composite(t):
            arg = self.rng.choice([None, True, 1, getattr(n.m, name), getattr(self.mod, resolve(t).name)()])
            return self.do('%s.%s = %r' % (n.path, name, type(arg)), lambda: setattr(n.m, name, arg), REJECT)
        arg, ok, v = self.args.scalar(t)
        e = self.do('%s.%s = %s' % (n.path, name, short(arg)), lambda: setattr(n.m, name, arg), OK if ok else REJECT)
        if ok:
            if where == 'arm':
                r.v = v
            else:
                r.v[name] = v
        return e

    def field_op(self, n, f):
        r, rng, name = n.r, self.rng, f.name
        if f.shape == 'plain':
            return self.set_plain(n, name, f.type, 'field')
        if f.shape == 'optional':
            if rng.random() < 0.25:
                e = self.do('%s.%s = None' % (n.path, name), lambda: setattr(n.m, name, None), OK)
                r.v[name] = None
                return e
            if composite(f.type):
                if rng.random() < 0.25:
                    arg = rng.choice([False, 0, 1, 'True', getattr(self.mod, resolve(f.type).name)(), [], Odd()])
                    return self.do('%s.%s = %r' % (n.path, name, arg if not hasattr(arg, 'encode') else type(arg)),
                                   lambda: setattr(n.m, name, arg), REJECT)
                e = self.do('%s.%s = True' % (n.path, name), lambda: setattr(n.m, name, True), OK)
                r.v[name] = fresh(f.type)
                return e
            arg, ok, v = self.args.scalar(f.type)
            while arg is None:
                arg, ok, v = self.args.scalar(f.type)
            e = self.do('%s.%s = %s' % (n.path, name, short(arg)), lambda: setattr(n.m, name, arg), OK if ok else REJECT)
            if ok:
                r.v[name] = v
            return e
        if f.type == 'bytes':
            arg, ok, v = self.args.bytes(n.t, f)
            e = self.do('%s.%s = %s' % (n.path, name, short(arg)), lambda: setattr(n.m, name, arg), OK if ok else REJECT)
            if ok:
                r.v[name] = v
            return e
        if rng.random() < 0.04:
            arg = rng.choice([[], [1], None, 5])
            return self.do('%s.%s = %r' % (n.path, name, arg), lambda: setattr(n.m, name, arg), REJECT)
        if composite(f.type):
            return self.composite_array_op(n, f)
        return self.scalar_array_op(n, f)

    def scalar_array_op(self, n, f):
        rng, A = self.rng, self.args
        arr, ref = getattr(n.m, f.name), n.r.v[f.name]
        here = '%s.%s' % (n.path, f.name)
        lim = array_limit(n.t, f)
        fixed = f.shape == 'fixed'
        size = len(ref)
        ops = ['item', 'item', 'slice', 'slice', 'readslice', 'badindex', 'sort', 'equal']
        if not fixed:
            ops += ['append', 'append', 'insert', 'insert', 'extend', 'extend', 'del', 'delslice', 'remove', 'self', 'bulk']
        op = rng.choice(ops)
        if op == 'item':
            i = A.index(size)
            arg, ok, v = A.scalar(f.type)
            inr = -size <= i < size
            e = self.do('%s[%d] = %s' % (here, i, short(arg)), lambda: arr.__setitem__(i, arg), OK if ok and inr else REJECT,
                        'value' if inr else 'index')
            if ok and inr:
                ref[i] = v
            return e
        if op == 'badindex':
            i = rng.choice(['a', 1.5, None, (1,)])
            arg = A.scalar(f.type, False)[0]
            k = rng.choice(['set', 'get', 'insert'])
            if k == 'insert' and not fixed:
                return self.do('%s.insert(%r, %s)' % (here, i, short(arg)), lambda: arr.insert(i, arg), MISUSE)
            if k == 'get':
                return self.do('%s[%r]' % (here, i), lambda: arr[i], MISUSE)
            return self.do('%s[%r] = %s' % (here, i, short(arg)), lambda: arr.__setitem__(i, arg), MISUSE)
        if op in ('sort', 'equal') and any(x != x for x in ref):
            return None
        if op == 'sort':
            key = rng.choice([None, lambda x: -x, lambda x: x % 3])
            e = self.do('%s.sort(%s)' % (here, key and 'key'), lambda: arr.sort(key) if key else arr.sort(), OK)
            ref.sort(key=key)
            self.res.note('sorted')
            return e
        if op == 'equal':
            other = list(ref) + rng.choice([[], [], [1]])
            if other and rng.random() < 0.4:
                other[rng.randrange(len(other))] += 1
            same, got = other == ref, []
            e = self.do('%s == %s' % (here, short(other)), lambda: got.extend([arr == other, not arr != other, list(arr) == other,
                                                                              len(arr) == len(ref)]), OK)
            if e is None and got != [same, same, same, True]:
                return 'state', '%s compared with %s, ==, not !=, items, length: %s; holds %s' % (here, short(other), got, short(ref))
            return e
        if op == 'readslice':
            s = A.slice(size)
            got = []
            e = self.do('%s[%s]' % (here, sl(s)), lambda: got.append(arr[s]), OK)
            if e is None and not pyrt.same([pyrt._read_plain(x, f.type) for x in got[0]], [norm(x, f.type) for x in ref[s]]):
                return 'state', '%s[%s] read %r, expected %r' % (here, sl(s), got[0], ref[s])
            return e
        if op == 'slice':
            s = A.slice(size)
            if rng.random() < 0.06:
                arg = rng.choice([5, None, Odd()])
                return self.do('%s[%s] = %r' % (here, sl(s), arg), lambda: arr.__setitem__(s, arg), MISUSE)
            want = len(ref[s])
            xs, ok, vs = A.items(f.type, rng.choice([want, want, want, rng.randint(0, 5), want + 1]))
            new = list(ref)
            kind = 'value'
            try:
                new[s] = vs
            except ValueError:
                ok, kind = False, 'element'
            if fixed and len(new) != size:
                ok, kind = False, 'any'
            if lim is not None and len(new) > lim:
                ok = False
            arg, how = A.wrap(xs)
            e = self.do('%s[%s] = %s of %s' % (here, sl(s), how, short(xs)), lambda: arr.__setitem__(s, arg), OK if ok else REJECT, kind)
            if ok:
                ref[:] = new
            return e
        if op in ('append', 'insert'):
            arg, ok, v = A.scalar(f.type)
            if lim is not None and size >= lim:
                ok = False
            if op == 'append':
                e = self.do('%s.append(%s)' % (here, short(arg)), lambda: arr.append(arg), OK if ok else REJECT)
                if ok:
                    ref.append(v)
            else:
                i = A.index(size)
                e = self.do('%s.insert(%d, %s)' % (here, i, short(arg)), lambda: arr.insert(i, arg), OK if ok else REJECT)
                if ok:
                    ref.insert(i, v)
            return e
        if op == 'extend':
            if rng.random() < 0.06:
                arg = rng.choice([5, Odd(), 1.5])
                return self.do('%s.extend(%r)' % (here, arg), lambda: arr.extend(arg), MISUSE)
            xs, ok, vs = A.items(f.type, rng.choice([0, 1, 2, 3, 4]))
            if lim is not None and size + len(xs) > lim:
                ok = False
            arg, how = A.wrap(xs)
            e = self.do('%s.extend(%s of %s)' % (here, how, short(xs)), lambda: arr.extend(arg), OK if ok else REJECT)
            if ok:
                ref.extend(vs)
            return e
        if op == 'bulk':
            # walk up to (or across) the limit a narrow sizer type imposes
            if f.shape != 'ext' or lim is None or lim > 300 or rng.random() < 0.5:
                return None
            count = lim - size + rng.choice([0, 0, 1])
            one = A.scalar(f.type, False)
            ok = size + count <= lim
            arg = [one[0]] * count
            how = rng.choice(['extend', 'slice'])
            call = (lambda: arr.extend(arg)) if how == 'extend' else (lambda: arr.__setitem__(slice(size, size), arg))
            e = self.do('%s.%s with %d x %s' % (here, how, count, short(one[0])), call, OK if ok else REJECT)
            if ok:
                ref.extend([one[2]] * count)
                self.res.note('sizer_limit_reached')
            return e
        if op == 'self':
            ok = lim is None or 2 * size <= lim
            if size > 300:
                return None
            how = rng.choice(['extend', 'assign', 'extend'])
            if how == 'assign':
                return self.do('%s[:] = itself' % here, lambda: arr.__setitem__(slice(None, None), arr), OK)
            e = self.do('%s.extend(itself)' % here, lambda: arr.extend(arr), OK if ok else REJECT)
            if ok:
                ref.extend(list(ref))
            return e
        if op == 'remove':
            if ref and rng.random() < 0.6:
                v = rng.choice(ref)
                if v == v:
                    e = self.do('%s.remove(%r)' % (here, v), lambda: arr.remove(v), OK)
                    ref.remove(v)
                    return e
            v = rng.choice([-5000, 1 << 80, 'x', None])
            return self.do('%s.remove(%r)' % (here, v), lambda: arr.remove(v), REJECT, 'element')
        return self.delete(op, here, arr, ref)

    def delete(self, op, here, arr, ref):
        size = len(ref)
        if op == 'del':
            i = self.args.index(size)
            inr = -size <= i < size
            e = self.do('del %s[%d]' % (here, i), lambda: arr.__delitem__(i), OK if inr else REJECT, 'index')
            if inr:
                del ref[i]
            return e
        s = self.args.slice(size)
        e = self.do('del %s[%s]' % (here, sl(s)), lambda: arr.__delitem__(s), OK)
        del ref[s]
        return e

    def composite_array_op(self, n, f):
        rng, A = self.rng, self.args
        arr, ref = getattr(n.m, f.name), n.r.v[f.name]
        here = '%s.%s' % (n.path, f.name)
        t = resolve(f.type)
        cls = getattr(self.mod, t.name)
        size = len(ref)
        if f.shape == 'fixed':
            i = A.index(size)
            if -size <= i < size:
                return None
            return self.do('%s[%d]' % (here, i), lambda: arr[i], REJECT, 'index')
        lim = array_limit(n.t, f)
        full = lim is not None and size >= lim
        op = rng.choice(['add', 'add', 'addkw', 'addkw', 'extend', 'extend', 'self', 'del', 'delslice', 'wrong', 'over'])
        if op == 'add':
            e = self.do('%s.add()' % here, lambda: arr.add(), REJECT if full else OK)
            if not full:
                ref.append(fresh(t))
            return e
        if op == 'addkw':
            return self.add_kw(n, f, arr, ref, here, t, full)
        if op == 'self':
            if size > 8:
                return None
            ok = lim is None or 2 * size <= lim
            src = rng.choice([arr, arr[:]])
            e = self.do('%s.extend(itself)' % here, lambda: arr.extend(src), OK if ok else REJECT)
            if ok:
                ref.extend([build(t, plain(x)) for x in ref])
            return e
        if op == 'wrong':
            k = rng.randint(0, 2)
            if rng.random() < 0.3:
                arg = rng.choice([5, None, Odd()])
            else:
                arg = [cls() for _ in range(k)] + [rng.choice([1, 'x', None, Odd()])]
            return self.do('%s.extend(%d messages and a foreign object)' % (here, k), lambda: arr.extend(arg), MISUSE)
        if op in ('extend', 'over'):
            k = rng.choice([0, 1, 2, 3])
            if op == 'over':
                if lim is None or lim > 300:
                    return None
                k = lim - size + rng.choice([0, 1])
                if k > 40 and rng.random() < 0.8:
                    return None
            vals = [A.g.value(t) for _ in range(min(k, 4))]
            vals = (vals * (k // max(1, len(vals)) + 1))[:k] if vals else []
            msgs = []
            for v in vals:
                m = cls()
                pyrt.assign(m, t, v)
                msgs.append(m)
            ok = lim is None or size + k <= lim
            arg, how = A.wrap(msgs)
            e = self.do('%s.extend(%s of %d messages %s)' % (here, how, k, short(vals)), lambda: arr.extend(arg), OK if ok else REJECT)
            if ok:
                ref.extend([build(t, v) for v in vals])
            return e
        return self.delete(op, here, arr, ref)

    def add_kw(self, n, f, arr, ref, here, t, full):
        rng, A = self.rng, self.args
        new = fresh(t)
        kw, ok, misuse = {}, not full, False
        if isinstance(t, Union):
            a = rng.choice(t.arms)
            kw['discriminator'] = rng.choice([a.name, a.disc])
            if rng.random() < 0.2:
                kw['discriminator'], ok = 'nope', False
            elif a is not new.arm:
                new.arm, new.v = a, fresh(a.type)
            if not composite(a.type):
                arg, good, v = A.scalar(a.type)
                kw[a.name] = arg
                new.v = v
                ok = ok and good
        else:
            fs = [g for g in t.value_fields if g.type == 'bytes' or not composite(g.type)]
            for g in rng.sample(fs, rng.randint(0, min(3, len(fs)))):
                if g.shape == 'plain':
                    arg, good, v = A.scalar(g.type)
                elif g.shape == 'optional':
                    arg, good, v = A.scalar(g.type)
                    if arg is None:
                        good, v = True, None
                elif g.type == 'bytes':
                    arg, good, v = A.bytes(t, g)
                else:
                    k = g.size if g.shape == 'fixed' else rng.randint(0, g.size) if g.shape == 'limited' else rng.randint(0, 3)
                    arg, good, v = A.items(g.type, k)
                    if rng.random() < 0.2 and g.shape in ('fixed', 'limited'):
                        arg, _, v = A.items(g.type, g.size + 1, False)
                        good = False
                kw[g.name] = arg
                new.v[g.name] = v
                ok = ok and good
            cs = [g for g in t.value_fields if g.type != 'bytes' and composite(g.type) and g.shape == 'plain']
            if cs and rng.random() < 0.15:
                kw[cs[0].name], ok = 5, False
            if rng.random() < 0.05:
                kw['no_such_member'], misuse = 1, True
        e = self.do('%s.add(%s)' % (here, short(kw)), lambda: arr.add(**kw), MISUSE if misuse else OK if ok else REJECT)
        if ok and not misuse:
            ref.append(new)
        return e

    # -- judging the state
    def compare(self, n):
        try:
            got = pyrt.read(n.m, n.t)
        except Exception as e:
            return 'unreadable', 'reading %s raised %s: %s' % (n.path or 'the message', type(e).__name__, e)
        want = plain(n.r)
        if not pyrt.same(got, want):
            return 'state', 'state %s, expected %s' % (short(got, 900), short(want, 900))
        return None

    def encodes(self):
        v = plain(self.root.r)
        equal = sizers_agree(self.t, v)
        for o in '<>':
            try:
                with cpu_limit(30):
                    data = self.root.m.encode(o)
                err = None
            except Hang:
                return 'hang', 'encode did not finish in 30 s of CPU'
            except Exception as e:
                err = e
            if equal:
                if err is not None:
                    return 'encode', 'encode(%r) raised %s: %s; state %s' % (o, type(err).__name__, err, short(v, 900))
                self.res.note('encoded')
                m = getattr(self.mod, self.t.name)()
                pyrt.assign(m, self.t, v)
                texts = str(self.root.m), str(m)
                if texts[0] != texts[1] and not holds_float(v):
                    return 'history', 'message prints as %s, a fresh one of equal state as %s' % texts
                if m.encode(o) != data:
                    return 'history', 'encode(%r) gives %s, a fresh message of equal state gives %s; state %s' % (
                        o, data.hex(), m.encode(o).hex(), short(v, 900))
            elif err is None:
                return 'sizer', 'encode(%r) accepted arrays of unequal length sharing a sizer; state %s' % (o, short(v, 900))
            elif not isinstance(err, self.prophy.ProphyError):
                return 'encode', 'encode(%r) raised %s: %s; state %s' % (o, type(err).__name__, err, short(v, 900))
            else:
                self.res.note('sizer_refusals')
        return None


def attached(r, root):
    """r is part of the reference state below root."""
    if r is root:
        return True
    kids = [root.v] if isinstance(root, RU) else list(root.v.values()) if isinstance(root, RS) else root
    return any(attached(r, k) for k in kids if isinstance(k, (RS, RU, list)))


def holds_float(v):
    """Floats print as they were assigned."""
    if isinstance(v, dict):
        return any(holds_float(x) for x in v.values())
    return isinstance(v, float) or isinstance(v, (list, tuple)) and any(holds_float(x) for x in v)


def norm(x, t):
    return float(x) if resolve(t) in ('r32', 'r64') else x


def short(x, n=160):
    try:
        s = repr(x)
    except Exception:
        s = object.__repr__(x)
    return s if len(s) <= n else s[:n] + '...'


def sl(s):
    return ':'.join('' if x is None else str(x) for x in (s.start, s.stop, s.step))


def sizers_agree(t, v):
    t = resolve(t)
    if isinstance(t, Union):
        a = t.arm(v[0])
        return not composite(a.type) or sizers_agree(a.type, v[1])
    lens = {}
    for f in t.value_fields:
        x = v[f.name]
        if f.shape == 'ext' and lens.setdefault(f.sizer, len(x)) != len(x):
            return False
        if f.type == 'bytes' or x is None or not composite(f.type):
            continue
        for y in x if isinstance(x, list) else [x]:
            if not sizers_agree(f.type, y):
                return False
    return True
