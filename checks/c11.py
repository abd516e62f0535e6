"""C11: copy_from gives an equal and independent message, wherever in a message it is applied."""
import os
from lib import gen, pyrt, schema as S, workload
from lib.history import History, Node, RU, build, plain, sizers_agree, short, OK, MISUSE
from lib.report import Check, Result, derive, digest
from lib.schema import resolve


class Pair(object):
    """Two messages of one type, operated on and copied into each other."""

    def __init__(self, prophy, mod, t, rng, res):
        self.prophy, self.mod, self.t, self.rng, self.res = prophy, mod, t, rng, res
        self.log = []
        self.h = []
        for name in 'ab':
            h = History(prophy, mod, t, rng, res)
            h.log = self.log
            h.root.path = name
            h.hold = False
            self.h.append(h)
        self.cls = getattr(mod, t.name)

    def fill(self, h):
        """Give a message a random state: untouched, assigned, or decoded."""
        how = self.rng.choice(['untouched', 'assigned', 'assigned', 'assigned', 'decoded'])
        if how == 'untouched':
            return
        g = gen.ValueGen(self.rng, self.rng.choice(['random', 'random', 'max', 'min']))
        v = g.value(self.t)
        m = self.cls()
        pyrt.assign(m, self.t, v)
        if how == 'decoded':
            o = self.rng.choice('<>')
            x = self.cls()
            try:
                x.decode(m.encode(o), o)
                if pyrt.same(pyrt.read(x, self.t), v):
                    m = x
            except self.prophy.ProphyError:
                pass
        h.root.m, h.root.r = m, build(self.t, v)
        self.log.append('%s: %s %s' % (h.root.path, how, short(v, 600)))

    def nodes(self, h):
        """Every composite reachable in the message, without touching absent ones."""
        out, todo = [], [h.root]
        while todo and len(out) < 60:
            n = todo.pop(0)
            out.append(n)
            if isinstance(n.r, RU):
                a = n.r.arm
                if hasattr(n.r.v, 'plain'):
                    todo.append(Node(getattr(n.m, a.name), n.r.v, resolve(a.type), n.path + '.' + a.name))
                continue
            for f in n.t.value_fields:
                x = n.r.v[f.name]
                if isinstance(x, list) and x and hasattr(x[0], 'plain'):
                    arr = getattr(n.m, f.name)
                    for i in range(min(3, len(x))):
                        todo.append(Node(arr[i], x[i], resolve(f.type), '%s.%s[%d]' % (n.path, f.name, i)))
                elif hasattr(x, 'plain'):
                    todo.append(Node(getattr(n.m, f.name), x, resolve(f.type), n.path + '.' + f.name))
        return out

    def both(self):
        for h in self.h:
            e = h.compare(h.root)
            if e:
                return e[0], 'message %s: %s' % (h.root.path, e[1])
        return None

    def copy(self):
        rng = self.rng
        x = rng.random()
        if x < 0.5:
            src, dst = rng.sample([self.h[0].root, self.h[1].root], 2)
        else:
            ns = self.nodes(self.h[0]) + self.nodes(self.h[1])
            dst = rng.choice(ns)
            cands = [n for n in ns if n.t is dst.t and not inside(n, dst) and not inside(dst, n)]
            if rng.random() < 0.25 or not cands:
                v = gen.ValueGen(rng).value(dst.t)
                m = getattr(self.mod, dst.t.name)()
                pyrt.assign(m, dst.t, v)
                src = Node(m, build(dst.t, v), dst.t, 'new ' + dst.t.name)
                self.res.note('copied_from_plain_message')
            else:
                src = rng.choice(cands)
            if rng.random() < 0.05:
                src = dst
        v = plain(src.r)
        e = self.h[0].do('%s.copy_from(%s)' % (dst.path, src.path), lambda: dst.m.copy_from(src.m), OK)
        if e:
            return e
        if src is not dst:
            new = build(dst.t, v)
            if isinstance(new, RU):
                dst.r.arm = new.arm
            dst.r.v = new.v
        self.res.note('copies')
        if '.' in dst.path:
            self.res.note('nested_copies')
        if src.path.startswith('new'):
            e = self.h[0].compare(src)
            if e:
                return 'source', 'source changed by copy_from: %s' % e[1]
        try:
            got = pyrt.read(dst.m, dst.t)
        except Exception as ex:
            return 'unreadable', 'reading %s after the copy raised %s: %s' % (dst.path, type(ex).__name__, ex)
        if not pyrt.same(got, v):
            return 'unequal', '%s.copy_from(%s) gave %s instead of %s' % (dst.path, src.path, short(got, 700), short(v, 700))
        if sizers_agree(dst.t, v):
            for o in '<>':
                try:
                    x, y = dst.m.encode(o), src.m.encode(o)
                except Exception as ex:
                    return 'encode', 'encode(%s) after the copy raised %s: %s' % (o, type(ex).__name__, ex)
                if x != y:
                    return 'encoding', '%s.copy_from(%s): encodings differ: %s and %s' % (dst.path, src.path, x.hex(), y.hex())
                self.res.note('encodings_compared')
        return None

    def mutate(self, h):
        """Change one message by any operation; what the operation itself does is C10's business, so the changed
        message's reference is taken from what it now reads."""
        try:
            _, e = h.step()
        except Exception:
            e = None
        if e and e[0] == 'hang':
            return e
        self.res.note('mutations')
        try:
            h.root.r = build(self.t, pyrt.read(h.root.m, self.t))
        except Exception as ex:
            return 'unreadable', 'message %s cannot be read: %s: %s' % (h.root.path, type(ex).__name__, ex)
        return None

    def foreign(self):
        n = self.rng.choice(self.nodes(self.rng.choice(self.h)))
        others = [c for c in self.foreign_classes if c is not getattr(self.mod, n.t.name)]
        arg = self.rng.choice(others)() if others and self.rng.random() < 0.7 else self.rng.choice([None, 5, {}, 'x'])
        return self.h[0].do('%s.copy_from(%s)' % (n.path, type(arg).__name__), lambda: n.m.copy_from(arg), MISUSE)


def inside(a, b):
    """a lies at or below b in the same message."""
    return a.path == b.path or a.path.startswith(b.path + '.') or a.path.startswith(b.path + '[')


def session(res, prophy, mod, sch, t, rng, nops):
    p = Pair(prophy, mod, t, rng, res)
    p.foreign_classes = [getattr(mod, s.name) for s in sch.composites[:6]]
    text = S.minimal_text(t)

    def bad(e):
        res.violation(e[0], '%s (type %s; history: %s)' % (e[1], t.name, p.log[-5:]), schema=text, history=p.log)
    for h in p.h:
        p.fill(h)
    res.observe(digest(text, repr(p.log), rng.getrandbits(64)))
    for i in range(nops):
        x = rng.random()
        if i == 0 or x < 0.3:
            e = p.copy()
        elif x < 0.34:
            e = p.foreign()
        elif x < 0.4:
            h = rng.choice(p.h)
            h.root.m, h.root.r = p.cls(), build(t, plain(History(prophy, mod, t, rng, res).root.r))
            p.fill(h)
            e = None
        else:
            h = rng.choice(p.h)
            h.stale = []
            e = p.mutate(h)
        e = e or p.both()
        if e:
            return bad(e)
    res.sample({'schema': text, 'operations': p.log[:10]})


def worker(task, seed, workdir, nhist, nops):
    res = Result()
    prophy, _ = pyrt.setup()
    for n, sch in enumerate(workload.schemas(task, seed)):
        d = os.path.join(workdir, '%s_%s_%d' % (task[0], '_'.join(map(str, task[1:])), n))
        try:
            mod = pyrt.compile_python(S.render(sch), d)
        except Exception as e:
            res.inconclusive.append('schema not usable: %s' % e)
            continue
        for t in workload.targets(sch, task):
            for h in range(nhist):
                if res.notes.get('violation:hang') or len(res.violations) > 20:
                    return res
                session(res, prophy, mod, sch, t, derive(seed, 'c11', task, n, t.name, h), nops)
    return res


def main(tier=None):
    c = Check('C11', 'case = (schema type, session over two messages mixing copies at any depth, mutations and fresh fills); both messages '
              'are compared with independent reference states after every step', tier=tier,
              assumptions=['objects obtained from a message before it was the target of copy_from are not used afterwards'])
    if c.quick:
        tasks = [('pairs', i, 24, 80) for i in range(12)] + [('tuples', i, 100, 3, 50) for i in range(8)] + \
                [('random', i, 5, 25) for i in range(16)]
        nh, no = 3, 16
    else:
        tasks = [('pairs', i, 24, 80) for i in range(24)] + [('tuples', i, 400, 3, 50) for i in range(16)] + \
                [('random', i, 20, 25) for i in range(32)]
        nh, no = 3, 30
    c.run(worker, [(t, c.seed, c.work, nh, no) for t in tasks], mem=4 << 30)
    if not c.violations:
        for name, k in (('copies', 5000), ('nested_copies', 500), ('copied_from_plain_message', 100), ('mutations', 5000),
                        ('encodings_compared', 5000)):
            c.require(name, k)
    return c.finish(1000)
