"""Schemas spread over files: partitions that respect dependencies, include graphs, directory layouts."""
import os
from . import isar, schema as S
from .schema import Schema, Struct, Union, Typedef, Enum, Const
import re


def names_of(d):
    out = [d.name]
    if isinstance(d, Enum):
        out += [n for n, _ in d.members]
    return out


def symbols(text):
    return set(re.findall(r'\b[A-Za-z_]\w*', text or ''))


def uses(d, xml=False):
    """Names a definition refers to."""
    out = set()
    if isinstance(d, Const):
        out |= symbols(isar.plain(d) if xml else d.text)
    elif isinstance(d, Enum):
        for t in d.texts.values():
            out |= symbols(t)
    elif isinstance(d, Typedef):
        out.add(S.type_name(d.target))
    elif isinstance(d, Struct):
        for f in d.fields:
            out.add(S.type_name(f.type))
            out |= symbols(f.size_text)
    else:
        for a in d.arms:
            out.add(S.type_name(a.type))
            out |= symbols(a.disc_text)
    return out


class File(object):
    def __init__(self, stem, defs):
        self.stem, self.defs = stem, list(defs)
        self.includes = []       # Files, in the order of directives
        self.dir = ''

    @property
    def names(self):
        return {n for d in self.defs for n in names_of(d)}

    def all_includes(self):
        out = []
        for f in self.includes:
            for g in f.all_includes() + [f]:
                if g not in out:
                    out.append(g)
        return out


STEMS = ('alpha', 'beta', 'common', 'Delta', 'e1', 'file_6', 'g', 'h_h', 'types', 'z9')


def split(defs, rng, k, style='needed', stems=STEMS):
    """Partition definitions (in dependency order) into k files. Every file includes what it uses:
    needed: exactly the files whose names it uses; more: some others of the earlier ones too; chain: through the previous one."""
    names = rng.sample(stems, k)
    files = [File(n, []) for n in names]
    owner = {}
    place = {}
    level = 0
    if style == 'scatter':
        # any assignment that never refers to a later file
        for d in defs:
            lo = max([place[n] for n in uses(d) if n in place] + [0])
            i = rng.randint(lo, k - 1)
            files[i].defs.append(d)
            for n in names_of(d):
                place[n] = i
                owner[n] = files[i]
    else:
        cuts = sorted(rng.randint(0, len(defs)) for _ in range(k - 1))
        for i, (a, b) in enumerate(zip([0] + cuts, cuts + [len(defs)])):
            files[i].defs = list(defs[a:b])
            for d in files[i].defs:
                for n in names_of(d):
                    owner[n] = files[i]
    for i, f in enumerate(files):
        need = []
        for d in f.defs:
            for n in sorted(uses(d)):
                o = owner.get(n)
                if o is not None and o is not f and o not in need:
                    need.append(o)
        if style in ('more', 'scatter'):
            need += [g for g in files[:i] if g not in need and rng.random() < 0.4]
        rng.shuffle(need)
        f.includes = need
    return files
