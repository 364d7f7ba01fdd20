"""Loads the MIR facts written by the driver."""
import json
import os
import re
import subprocess
import tempfile
from . import terms as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Facts:
    def __init__(self, d):
        self.d = d
        self.insts = d['instances']
        self.types = d['types']
        self.fns = d['fns']
        self.impls = d['impls']
        self.traits = d['traits']
        self.adts = {a['path']: a for a in d['adts']}
        self.consts = {c['path']: c['value'] for c in d['consts']}
        T.VARIANTS.clear()
        for a in d['adts']:
            T.VARIANTS[a['path']] = [(v['name'], int(v['discr']) - (256 if a['path'] == 'core::cmp::Ordering' and v['discr'] in (255, '255') else 0)) for v in a['variants']]
        T.VARIANTS.setdefault('()', [('()', 0)])
        self.fn_by_inst = {f['inst']: f for f in self.fns if f.get('inst') is not None}
        self.fn_by_path = {}
        for f in self.fns:
            self.fn_by_path.setdefault(f['path'], f)
        self.derived_paths = {f['path'] for f in self.fns if f['derived']}

    # -- types
    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']

    def adt_path(self, i):
        t = self.types[i]
        return t['path'] if t['k'] == 'adt' else '()' if t['k'] == 'tuple' else None

    def peel(self, i):
        while self.types[i]['k'] in ('ref', 'ptr'):
            i = self.types[i]['t']
        return i

    # -- lookup
    def find_fns(self, name=None, path=None, owner_trait=None, self_ty=None, pred=None):
        out = []
        for f in self.fns:
            if name is not None and f['name'] != name:
                continue
            if path is not None and not re.search(path, f['path']):
                continue
            o = f.get('owner')
            if owner_trait is not None:
                if not o or o.get('trait') != owner_trait:
                    continue
            if self_ty is not None:
                if not o or 'self' not in o or self.tys(o['self']) != self_ty:
                    continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def field_index(self, adt, field, variant=0):
        a = self.adts[adt]
        return a['variants'][variant]['fields'].index(field)

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['name'] == name:
                return i
        raise KeyError((adt, name))


def extract(out=None):
    """run the driver over the current tree and load the facts"""
    tmp = None
    if out is None:
        fd, out = tempfile.mkstemp(suffix='.json', prefix='tsa-facts-')
        os.close(fd)
        tmp = out
    try:
        r = subprocess.run([os.path.join(HERE, 'facts.sh'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError('fact extraction failed:\n' + r.stdout[-4000:])
        with open(out) as f:
            return Facts(json.load(f))
    finally:
        if tmp:
            try:
                os.unlink(tmp)
            except OSError:
                pass
