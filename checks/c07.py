"""C07: C++ full decode is memory safe and exact on arbitrary bytes."""
import os
from lib import corrupt, cpprt, gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, derive, digest


def worker(task, seed, workdir, pch, nval, per):
    res = Result()
    pyrt.setup()
    for n, (sch, types) in enumerate(workload.cpp_batches(task, seed)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            exe = cpprt.build_full(text, types, d, extra=pch)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            cpprt.unusable(res, e, text)
            continue
        rng = derive(seed, 'c07v', task, n)
        reqs, meta = [], []
        for i, t in enumerate(types):
            for o, data, how in corrupt.inputs(rng, t, nval, per):
                op = 'D' if rng.random() < 0.1 else 'F'
                reqs.append((i, op, 'l' if o == '<' else 'b', data))
                meta.append((t, how))
        out, crashes = cpprt.run_driver(exe, reqs, d)
        obj = max([int(r['obj']) for r in out if r] or [1])
        for c in crashes:
            if c.case is None or c.kind == 'exit:timeout':
                res.inconclusive.append('driver failed: %s %s' % (c.kind, c.detail[-300:]))
                continue
            t, how = meta[c.case]
            res.violation('crash:' + c.kind, 'decode of %s bytes %s (%s) into %s: %s (schema: %s)\n%s' % (
                how, reqs[c.case][3].hex(), reqs[c.case][2], t.name, c.kind, S.minimal_text(t), c.detail[:600]),
                schema=S.minimal_text(t), input=reqs[c.case][3], order=reqs[c.case][2])
        for req, (t, how), r in zip(reqs, meta, out):
            if r is not None:
                judge(res, req, t, how, r, obj)
    return res


def judge(res, req, t, how, r, obj):
    text = S.minimal_text(t)
    data = req[3]
    res.observe(digest(text, data, req[2]), trivial=not data)
    res.note('input_' + how)
    res.note('accepted' if r['ok'] == '1' else 'refused')

    def bad(key, msg):
        res.violation(key, '%s; %s input %s (%s) into %s (schema: %s)' % (msg, how, data.hex(), req[2], t.name, text),
                      schema=text, input=data, order=req[2])
    bound = 65536 + 8 * obj * (len(data) + 8)
    if r['ex'] == 'alloc' or int(r['alloc']) > bound:
        return bad('memory', 'decode of %d bytes requested %s bytes of memory (%s)' % (len(data), r['alloc'], r['ex']))
    if r['ex'] != '-':
        return bad('exception', 'decode threw')
    if r['ok'] == '1':
        if int(r['sz']) != len(data) or int(r['vn']) != len(data):
            return bad('length', 'accepted %d bytes but re-encodes to %s (get_byte_size %s)' % (len(data), r['vn'], r['sz']))
        if r['again'] != '1':
            return bad('again', 'accepted, but its own encoding is refused')
    elif how == 'valid':
        res.note('valid_refused')       # C03's business
    res.note('judged')
    res.sample({'schema': text, 'input': data.hex(), 'how': how, 'ok': r['ok']})


ENUM_PROBE = '''enum ProbeE { ProbeE_a = 1 };
struct ProbeS { ProbeE e; };
union ProbeU { 1: u32 a; };
'''
ENUM_FLAGS = [f for f in cpprt.flags() if f != '-fno-sanitize=enum']


def enum_probe(c):
    """Enumerators and discriminators outside the value range of the generated C++ enum."""
    d = c.dir('enum_probe')
    S_, U = S.Struct('ProbeS', []), S.Union('ProbeU', [])
    try:
        exe = cpprt.build_full(ENUM_PROBE, [S_, U], d, flags_=ENUM_FLAGS, with_mutate=False)
    except (pyrt.CompileFailed, cpprt.CompileError) as e:
        return c.inconclusive('enum probe does not build: %s' % e)
    reqs = [(0, 'F', 'l', b'\1\0\0\0'), (0, 'F', 'l', b'\x09\0\0\0'), (1, 'F', 'l', b'\x09\0\0\0\0\0\0\0')]
    out, crashes = cpprt.run_driver(exe, reqs, d)
    c.notes['probe_enum'] = 1
    if out[0] is None:
        c.inconclusive('enum probe did not run')
    for x in crashes:
        if x.case and x.kind.startswith('ubsan:load of value'):
            c.violation('enum-range', '%s when %s is decoded' % (x.kind, reqs[x.case][3].hex()), schema=ENUM_PROBE)
        else:
            c.violation('enum-probe:' + x.kind, x.detail[:400], schema=ENUM_PROBE)


def main(tier=None):
    c = Check('C07', 'case = (type, byte string, order): every prefix of valid encodings, corrupted counters / flags / '
              'discriminators / enums / padding, extensions, bit flips, random bytes, in an exact-size heap block under '
              'ASan+UBSan with a counting allocator; distinct by type text + bytes + order', tier=tier,
              assumptions=['g++ x86-64, 16-byte aligned input buffers', 'enum value ranges are instrumented only in a probe (known finding enum-range)',
                           'memory bound: 64 KiB + 8 x largest object x (input size + 8)'])
    pch = cpprt.build_pch(c.work, cpprt.flags())
    nv, per = c.scale((3, 40), (8, 150))
    c.run(worker, [(t, c.seed, c.work, pch, nv, per) for t in workload.cpp_tasks(c.quick, 0.75 if c.quick else 1)],
          timeout=800, mem=None)
    enum_probe(c)
    c.require('judged', 2000)
    c.require('accepted', 100)
    c.require('refused', 500)
    return c.finish(2000)
