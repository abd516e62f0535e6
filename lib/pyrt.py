"""Observe the Python side: run prophyc from the repo, import generated modules, drive messages."""
import importlib
import io
import os
import sys
import contextlib
import math

from .report import REPO
from .schema import Enum, Struct, Union, Typedef, resolve, PRIMS
from . import oracle


def setup():
    """Make prophy/prophyc of the repo's working tree importable, ignoring any stale byte code."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import prophy
    import prophyc
    for m in (prophy, prophyc):
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError('%s imported from %s' % (m.__name__, m.__file__))
    return prophy, prophyc


class CompileFailed(Exception):
    pass


def prophyc_main(args):
    """Run prophyc.main in this process. Returns (exception or None, stderr text)."""
    _, prophyc = setup()
    err = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
        try:
            prophyc.main(list(args))
            return None, err.getvalue()
        except Exception as e:
            return e, err.getvalue()


def prophyc_nodes(args):
    """As prophyc_main, with the compiled model: (exception or None, stderr text, {stem: nodes})."""
    _, prophyc = setup()
    err = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
        try:
            nodes = prophyc.main(list(args)) or {}
            return None, err.getvalue(), nodes
        except Exception as e:
            return e, err.getvalue(), {}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    mode = 'wb' if isinstance(text, bytes) else 'w'
    with open(path, mode) as f:
        f.write(text)
    return path


_pkg = [0]


def fresh_package(dirpath):
    """Turn dirpath into an importable package with a unique name; return the name."""
    _pkg[0] += 1
    name = 'pvgen_%d_%d' % (os.getpid(), _pkg[0])
    import types
    pkg = types.ModuleType(name)
    pkg.__path__ = [dirpath]
    sys.modules[name] = pkg
    importlib.invalidate_caches()
    return name


def import_generated(dirpath, *stems):
    name = fresh_package(dirpath)
    return [importlib.import_module(name + '.' + s) for s in stems]


def sources(text, workdir, stem, ext):
    """Write schema text, or a pair of isar and patch texts; returns arguments of prophyc."""
    if isinstance(text, tuple):
        return ['--isar', '--patch', write(os.path.join(workdir, stem + '.patch'), text[1]),
                write(os.path.join(workdir, stem + '.xml'), text[0])]
    return [write(os.path.join(workdir, stem + ext), text)]


def compile_python(text, workdir, stem='m', mode=(), ext='.prophy'):
    """Compile schema text to Python and import it. Raises CompileFailed."""
    args = list(mode) + sources(text, workdir, stem, ext)
    e, err = prophyc_main(['--python_out', workdir] + args)
    if e is not None:
        raise CompileFailed('%s: %s\n%s' % (type(e).__name__, e, err))
    return import_generated(workdir, stem)[0]


# ---------------------------------------------------------------- driving messages

def assign(msg, t, v):
    """Set a fresh message to value v through the public API."""
    t = resolve(t)
    if isinstance(t, Union):
        arm = t.arm(v[0])
        msg.discriminator = arm.name
        _assign_plain(msg, arm.name, arm.type, v[1])
        return
    for f in t.value_fields:
        x = v[f.name]
        if f.shape == 'plain':
            _assign_plain(msg, f.name, f.type, x)
        elif f.shape == 'optional':
            if x is None:
                setattr(msg, f.name, None)
            elif _composite(f.type):
                setattr(msg, f.name, True)
                assign(getattr(msg, f.name), f.type, x)
            else:
                setattr(msg, f.name, x)
        elif f.type == 'bytes':
            setattr(msg, f.name, x)
        else:
            arr = getattr(msg, f.name)
            if not _composite(f.type):
                arr[:] = x
            elif f.shape == 'fixed':
                for i, y in enumerate(x):
                    assign(arr[i], f.type, y)
            else:
                for y in x:
                    assign(arr.add(), f.type, y)


def _composite(t):
    return isinstance(resolve(t), (Struct, Union))


def _assign_plain(msg, name, t, x):
    if _composite(t):
        assign(getattr(msg, name), t, x)
    else:
        setattr(msg, name, x)


class ReadError(Exception):
    pass


def read(msg, t):
    """Value of a message as seen through the public API."""
    t = resolve(t)
    if isinstance(t, Union):
        d = msg.discriminator
        arms = [a for a in t.arms if a.disc == int(d)]
        if len(arms) != 1:
            raise ReadError('discriminator %r matches no arm of %s' % (d, t.name))
        a = arms[0]
        return (a.name, _read_plain(getattr(msg, a.name), a.type))
    out = {}
    for f in t.value_fields:
        x = getattr(msg, f.name)
        if f.shape == 'plain':
            out[f.name] = _read_plain(x, f.type)
        elif f.shape == 'optional':
            out[f.name] = None if x is None else _read_plain(x, f.type)
        elif f.type == 'bytes':
            if isinstance(x, str) and not x:
                x = b''      # a bytes field never set reads as the empty native string (pinned by the tests)
            if not isinstance(x, bytes):
                raise ReadError('%s.%s holds %r, not bytes' % (t.name, f.name, x))
            out[f.name] = x
        else:
            n = len(x)
            items = [x[i] for i in range(n)]
            if len(list(x)) != n:
                raise ReadError('iteration and len disagree on %s.%s' % (t.name, f.name))
            out[f.name] = [_read_plain(y, f.type) for y in items]
    return out


def _read_plain(x, t):
    t = resolve(t)
    if isinstance(t, (Struct, Union)):
        return read(x, t)
    if isinstance(t, Enum):
        v = int(x)
        if v not in t.by_value:
            raise ReadError('enum %s holds %r' % (t.name, x))
        return v
    if t in ('r32', 'r64'):
        return float(x)
    if not isinstance(x, int):
        raise ReadError('%r in a field of type %s' % (x, t))
    return int(x)


def same(a, b):
    """Value equality with nan == nan."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if type(a) is not type(b):
        return a == b if isinstance(a, (int, float)) and isinstance(b, (int, float)) else False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
