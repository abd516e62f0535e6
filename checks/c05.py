"""C05: C++ full get_byte_size == bytes written == vector length; encode stays in its buffer."""
import os
import sys
from lib import cpprt, gen, oracle, pyrt, schema as S, workload
from lib.report import Check, Result, derive, digest

HOST = '<' if sys.byteorder == 'little' else '>'


def worker(task, seed, workdir, pch, nmut, nval):
    res = Result()
    pyrt.setup()
    for n, (sch, types) in enumerate(workload.cpp_batches(task, seed)):
        d = os.path.join(workdir, '%s_%d_%d' % (task[0], task[1], n))
        text = workload.text(task, seed, sch)
        try:
            exe = cpprt.build_full(text, types, d, extra=pch)
        except pyrt.CompileFailed as e:
            res.inconclusive.append('valid schema rejected by prophyc: %s' % e)
            continue
        except cpprt.CompileError as e:
            cpprt.unusable(res, e, text)
            continue
        rng = derive(seed, 'c05v', task, n)
        reqs, meta = [], []
        for i, t in enumerate(types):
            reqs.append((i, 'M', 'n', b''))
            meta.append((t, 'default value'))
            for k in range(nmut):
                s = bytes([rng.randrange(256), rng.randrange(256)])
                reqs.append((i, 'M', 'n', s))
                meta.append((t, 'random in-memory value %s' % s.hex()))
            for mode in ('min', 'max') + ('random',) * nval:
                v = gen.ValueGen(rng, mode).value(t)
                v = gen.align_greedy(rng, t, v)
                if v is None:
                    continue
                reqs.append((i, 'R', 'l', oracle.encode(t, v, '<')))
                meta.append((t, 'value %r' % (v,)))
        out, crashes = cpprt.run_driver(exe, reqs, d)
        for c in crashes:
            if c.case is None or c.kind == 'exit:timeout':
                res.inconclusive.append('driver failed: %s %s' % (c.kind, c.detail[-300:]))
                continue
            t, what = meta[c.case]
            res.violation('crash:' + c.kind, 'encoding %s of %s: %s (schema: %s)\n%s' % (
                what, t.name, c.kind, S.minimal_text(t), c.detail[:400]), schema=S.minimal_text(t), value=what)
        for req, (t, what), r in zip(reqs, meta, out):
            if r is not None:
                judge(res, req, t, what, r)
    return res


def judge(res, req, t, what, r):
    if r.get('ok') == '0':
        res.note('not_decodable')        # C03's business
        return
    text = S.minimal_text(t)
    res.observe(digest(text, r['l']), trivial=r['sz'] == '0')
    res.note('op_' + req[1])

    def bad(key, msg):
        res.violation(key, '%s, %s of %s (schema: %s)' % (msg, what, t.name, text), schema=text, value=what, bytes=r['l'])
    for o in 'lbnd':
        if r[o + 'w'] != r['sz'] or r[o + 'n'] != r['sz']:
            return bad('size', 'get_byte_size()=%s, encode(ptr) wrote %s, vector of %s bytes (%s)' % (
                r['sz'], r[o + 'w'], r[o + 'n'], o))
        if r[o + 's'] != '1':
            return bad('content', 'pointer and vector encodings differ (%s)' % o)
    lay = oracle.layout(t)
    if lay.kind == S.FIXED:
        res.note('fixed')
        if r['sz'] != r['ebs']:
            return bad('fixed', 'get_byte_size()=%s but encoded_byte_size=%s' % (r['sz'], r['ebs']))
    res.note('agreed')
    res.sample({'schema': text, 'what': what, 'size': r['sz']})


PROBE = '''struct NarrowU8 { u8 n; u16 a<@n>; };
struct NarrowI8 { i8 n; u16 a<@n>; };
'''
PROBE_SRC = '''
#include "probe.ppf.cpp"
using namespace prophy::generated;
template <class T> static int probe(size_t n)
{
    T x; x.a.resize(n);
    std::vector<uint8_t> buf(4 * n + 64);
    size_t w = x.template encode<prophy::little>(static_cast<void*>(buf.data()));
    printf("%zu %zu %zu\\n", n, x.get_byte_size(), w);
    fflush(stdout);
    return w == x.get_byte_size();
}
int main() { int ok = probe<NarrowU8>(255) & probe<NarrowI8>(127); if (!ok) return 3; return probe<NarrowU8>(300) ? 0 : 9; }
'''


def probe(c, pch):
    """Arrays longer than their sizer can count, and the longest ones it can."""
    import subprocess
    d = c.dir('probe')
    try:
        cpprt.generate(PROBE, d, 'probe', ['--cpp_full_out'])
        src = pyrt.write(os.path.join(d, 'p.cpp'), PROBE_SRC)
        exe = os.path.join(d, 'p')
        cpprt.compile_cpp(src, exe, cpprt.flags(), pch)
    except (pyrt.CompileFailed, cpprt.CompileError) as e:
        return c.inconclusive('probe does not build: %s' % e)
    p = subprocess.run([exe], capture_output=True, text=True, timeout=300, env=cpprt.ENV)
    c.notes['probe_narrow_sizer'] = 1
    if p.returncode == 3 or p.returncode not in (0, 9):
        c.violation('narrow-sizer-in-range', 'array as long as its narrow sizer can count: elements/get_byte_size/written: %s %s'
                    % (p.stdout.split('\n'), p.stderr[:300]), schema=PROBE)
    elif p.returncode == 9:
        c.violation('narrow-sizer', '300 elements counted by a u8 sizer: elements/get_byte_size/written: %s'
                    % p.stdout.strip().split('\n')[-1], schema=PROBE)


def main(tier=None):
    c = Check('C05', 'case = (type, in-memory value): decoded canonical values and randomly filled objects whose limited '
              'vectors also exceed their limits; distinct by type text + bytes', tier=tier,
              assumptions=['g++ x86-64', 'one array per sizer', 'externally sized arrays within the range of their sizer '
                           '(beyond it: known finding narrow-sizer)'])
    pch = cpprt.build_pch(c.work, cpprt.flags())
    nm, nv = c.scale((12, 3), (60, 12))
    c.run(worker, [(t, c.seed, c.work, pch, nm, nv) for t in workload.cpp_tasks(c.quick)], timeout=800, mem=None)
    probe(c, pch)
    c.require('op_M', 500)
    c.require('fixed', 100)
    c.require('agreed', 500)
    return c.finish(500)
