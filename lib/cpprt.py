"""Observe the C++ side: compile generated sources with sanitizers and drive them."""
import os
import re
import resource
import shutil
import signal
import subprocess

from .report import REPO, ROOT
from .schema import Enum, Struct, Union, Typedef, resolve, PRIMS
from . import oracle, pyrt

INC = os.path.join(REPO, 'prophy_cpp', 'include')
LIB = os.path.join(ROOT, 'lib', 'cpp')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=enum', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
CPPPRIM = {'u8': 'uint8_t', 'u16': 'uint16_t', 'u32': 'uint32_t', 'u64': 'uint64_t', 'i8': 'int8_t', 'i16': 'int16_t',
           'i32': 'int32_t', 'i64': 'int64_t', 'r32': 'float', 'r64': 'double'}
ENV = dict(os.environ, ASAN_OPTIONS='halt_on_error=1:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:exitcode=77',
           UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:exitcode=78', LC_ALL='C', LANG='C')


class ToolMissing(Exception):
    pass


class CompileError(Exception):
    pass


class Uncompilable(CompileError):
    """The generated source itself does not compile, whatever the driver."""


def unusable(res, e, text):
    """Verdict on a failed build: what prophyc generated is at fault, or only the driver of the check."""
    what = 'generated C++ sources do not compile: %s' % str(e)[:800]
    if isinstance(e, Uncompilable):
        res.violation('compile', what, schema=text)
    else:
        res.inconclusive.append('driver of %s' % what)


def cxx():
    for c in ('g++', 'c++'):
        p = shutil.which(c, path='/usr/local/bin:/usr/bin:/bin')
        if p:
            return p
    raise ToolMissing('no C++ compiler')


def build_pch(workdir, flags):
    """Precompile the standard headers the driver needs; returns extra flags."""
    d = os.path.join(workdir, 'pch')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(LIB, 'pv_std.hpp'), d)
    h = os.path.join(d, 'pv_std.hpp')
    p = subprocess.run([cxx()] + flags + ['-x', 'c++-header', h, '-o', h + '.gch'], capture_output=True, text=True,
                       timeout=600)
    if p.returncode:
        raise CompileError(p.stderr)
    return ['-include', h]


def flags(std='c++11', opt='-O0', san=True):
    return ['-std=' + std, opt, '-g0'] + (SAN if san else [])


def compile_cpp(src, out, flags_, extra=(), timeout=900):
    p = subprocess.run([cxx()] + flags_ + list(extra) + ['-I', INC, '-I', LIB, '-I', os.path.dirname(src), src, '-o', out],
                       capture_output=True, text=True, timeout=timeout, errors='replace')
    if p.returncode:
        raise CompileError(p.stderr[:6000])


def compile_driver(src, out, flags_, extra, generated):
    try:
        compile_cpp(src, out, flags_, extra)
    except CompileError as e:
        p = subprocess.run([cxx(), '-std=c++11', '-w', '-fsyntax-only', '-I', INC, '-I', os.path.dirname(src), generated],
                           capture_output=True, text=True, timeout=900, errors='replace')
        raise Uncompilable(p.stderr[:6000]) if p.returncode else e


def generate(text, workdir, stem, outs, mode=(), ext='.prophy'):
    args = list(mode) + pyrt.sources(text, workdir, stem, ext)
    for o in outs:
        args = [o, workdir] + args
    e, err = pyrt.prophyc_main(args)
    if e is not None:
        raise pyrt.CompileFailed('%s: %s\n%s' % (type(e).__name__, e, err))


class Crash(object):
    def __init__(self, case, kind, detail):
        self.case, self.kind, self.detail = case, kind, detail


CPU_S = 60     # a batch needs about a second; more is taken for an endless loop


def _limit_cpu():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))


def run_driver(exe, requests, workdir, timeout=600, max_crashes=4):
    """requests: list of (type index, op, order, bytes). Returns (responses, crashes): responses[i] is a dict or
    None; crashes lists sanitizer aborts / signals, attributed to the request that was running."""
    responses = [None] * len(requests)
    crashes = []
    start = 0
    while start < len(requests):
        path = os.path.join(workdir, 'req_%d.txt' % start)
        with open(path, 'w') as f:
            for i in range(start, len(requests)):
                t, op, order, data = requests[i]
                f.write('%d %d %s %s %s\n' % (i, t, op, order, data.hex() or '-'))
        try:
            p = subprocess.run([exe, path], capture_output=True, timeout=timeout, env=ENV, errors='replace', text=True,
                               preexec_fn=_limit_cpu)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc = 'timeout'
            out = (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
            err = ''
        os.unlink(path)
        running = None
        for line in out.split('\n'):
            if line.startswith('@'):
                running = int(line[1:])
            elif line.startswith('=') and line.endswith(' end'):
                parts = line.split(' ')
                i = int(parts[0][1:])
                responses[i] = dict(x.split('=', 1) for x in parts[1:-1])
                running = None
        if rc == 0 and out.endswith('done\n'):
            break
        kind = classify(rc, err)
        if running is None:
            crashes.append(Crash(None, kind, err[-3000:]))
            break
        crashes.append(Crash(running, kind, err[:3000]))
        start = running + 1
        if len(crashes) >= max_crashes or rc in ('timeout', -signal.SIGXCPU, -signal.SIGKILL):
            break
    return responses, crashes


def classify(rc, err):
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        return 'hang'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        return 'asan:' + m.group(1)
    m = re.search(r'runtime error: ([^\n]{0,80})', err)
    if m:
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:60]
    return 'exit:%s' % rc


# ---------------------------------------------------------------- full codec driver

def full_mutators(types):
    """C++ code that fills objects with random in-memory values, vectors also beyond their limits."""
    out = []

    def scalar(lhs, t):
        t = resolve(t)
        if isinstance(t, Enum):
            return '{ static const uint32_t pv_v[] = {%s}; %s = %s(pv_v[r.below(%d)]); }' % (
                ', '.join('%du' % v for _, v in t.members), lhs, t.name, len(t.members))
        if isinstance(t, (Struct, Union)):
            return 'pv_mutate<%s>::run(%s, r);' % (t.name, lhs)
        if t == 'r32':
            return '%s = float(int(r.below(100000)));' % lhs
        if t == 'r64':
            return '%s = double(int(r.below(100000)));' % lhs
        return '%s = %s(r.next());' % (lhs, CPPPRIM[t])
    for t in types:
        body = []
        if isinstance(t, Union):
            body.append('switch (r.below(%d)) {' % len(t.arms))
            for i, a in enumerate(t.arms):
                body.append('case %d: x.discriminator = %s::discriminator_%s; %s break;' % (i, t.name, a.name, scalar('x.' + a.name, a.type)))
            body.append('}')
        else:
            for f in t.value_fields:
                lhs = 'x.' + f.name
                el = 'u8' if f.type == 'bytes' else f.type
                if f.shape == 'plain':
                    body.append(scalar(lhs, el))
                elif f.shape == 'optional':
                    ty = resolve(el)
                    cpp = CPPPRIM[ty] if isinstance(ty, str) else ty.name
                    body.append('if (r.below(2)) { %s v = %s(); %s %s = v; }' % (cpp, cpp, scalar('v', el), lhs))
                elif f.shape == 'fixed':
                    body.append('for (size_t i = 0; i < %d; ++i) { %s }' % (f.size, scalar(lhs + '[i]', el)))
                else:
                    n = 'r.length()'
                    if f.shape == 'limited':
                        n = 'r.below(%d)' % (f.size + 4)
                    body.append('%s.resize(%s); for (size_t i = 0; i < %s.size(); ++i) { %s }' % (lhs, n, lhs, scalar(lhs + '[i]', el)))
        out.append('template <> void pv_mutate<%s>::run(%s& x, pv_rng& r) {\n  (void)x; (void)r;\n  %s\n}' % (t.name, t.name, '\n  '.join(body)))
    return '\n'.join(out)


def build_full(text, types, workdir, stem='m', flags_=None, extra=(), with_mutate=True):
    """prophyc --cpp_full_out + driver; returns path of the executable. types: composites in dependency order."""
    generate(text, workdir, stem, ['--cpp_full_out'])
    with_mut = full_mutators(types) if with_mutate else '\n'.join(
        'template <> void pv_mutate<%s>::run(%s&, pv_rng&) {}' % (t.name, t.name) for t in types)
    src = '#include "%s.ppf.cpp"\n#include "pv_full.hpp"\n%s\nstatic const pv_entry table[] = {\n%s\n};\n' % (
        stem, with_mut, ',\n'.join('  {"%s", &pv_make<%s>}' % (t.name, t.name) for t in types))
    src += 'int main(int argc, char** argv) { return pv_main(table, argc, argv); }\n'
    path = pyrt.write(os.path.join(workdir, stem + '_drv.cpp'), src)
    exe = os.path.join(workdir, stem + '_drv')
    compile_driver(path, exe, flags_ or flags(), extra, os.path.join(workdir, stem + '.ppf.cpp'))
    return exe


# ---------------------------------------------------------------- raw codec

def raw_parts(t):
    """Wire members of a struct grouped as the raw header groups them: [main, part2, part3, ...]."""
    groups = [[]]
    ms = oracle.layout(t).members
    for i, m in enumerate(ms):
        if m.block:
            groups.append([])
        groups[-1].append(m)
    return groups


def raw_table_source(types, stem='m'):
    """C++ program printing offset / size / element size / type class of every raw member."""
    rows = []
    for t in types:
        rows.append('Z(%s)' % t.name)
        if isinstance(t, Union):
            rows.append('M(%s, %s, discriminator)' % (t.name, t.name))
            for a in t.arms:
                rows.append('M(%s, %s, %s)' % (t.name, t.name, a.name))
                rows.append('V(%s, discriminator_%s)' % (t.name, a.name))
            continue
        for i, g in enumerate(raw_parts(t)):
            scope = t.name if i == 0 else '%s::part%d' % (t.name, i + 1)
            for m in g:
                if m.role == 'optional':
                    rows.append('M(%s, %s, has_%s)' % (t.name, scope, m.name))
                rows.append('M(%s, %s, %s)' % (t.name, scope, m.name))
    src = '#include "%s.pp.hpp"\n#include "pv_std.hpp"\n#include "pv_raw.hpp"\n' % stem
    fns, cur, n = [], [], 0
    for i in range(0, len(rows), 200):
        fns.append('static void f%d() {\n%s\n}\n' % (i, '\n'.join(rows[i:i + 200])))
    src += ''.join(fns) + 'int main() {\n%s\nreturn 0; }\n' % '\n'.join('f%d();' % i for i in range(0, len(rows), 200))
    return src


def build_raw_table(text, types, workdir, stem='m', extra=()):
    generate(text, workdir, stem, ['--cpp_out'])
    path = pyrt.write(os.path.join(workdir, stem + '_tab.cpp'), raw_table_source(types, stem))
    exe = os.path.join(workdir, stem + '_tab')
    compile_cpp(path, exe, ['-std=c++11', '-O0', '-g0', '-Wno-invalid-offsetof'], extra)
    p = subprocess.run([exe], capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise CompileError('table program failed: %s' % p.returncode)
    out = {}
    for line in p.stdout.split('\n'):
        if line:
            w = line.split(' ')
            out[tuple(w[:-1][:3]) if w[0] == 'M' else tuple(w[:2]) if w[0] == 'Z' else tuple(w[:3])] = w
    return out


def build_swap(text, types, workdir, stem='m', flags_=None, extra=()):
    generate(text, workdir, stem, ['--cpp_out'])
    src = '#include "%s.pp.cpp"\n#include "pv_swap.hpp"\nstatic const pv_entry table[] = {\n%s\n};\n' % (
        stem, ',\n'.join('  {"%s", &pv_swap<%s>}' % (t.name, t.name) for t in types))
    src += 'int main(int argc, char** argv) { return pv_main(table, argc, argv); }\n'
    path = pyrt.write(os.path.join(workdir, stem + '_swp.cpp'), src)
    exe = os.path.join(workdir, stem + '_swp')
    compile_driver(path, exe, flags_ or flags(), extra, os.path.join(workdir, stem + '.pp.cpp'))
    return exe
