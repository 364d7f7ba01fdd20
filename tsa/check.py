"""Common machinery of the property rules: function lookup, cached analyses, verdicts."""
import re
import time
import traceback
from . import interp as I
from . import mem as M
from . import terms as T
from .terms import Term, show, num, raw

OKV = ('v', 0, 0)
ERRV = ('v', 1, 0)


def last(p):
    return p.split('::')[-1]


def strip_generics(s):
    out, d = [], 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


def tyname(s):
    """last path segment of a type string without generics: `a::B<C>` -> B"""
    s = s.strip()
    while s.startswith('&'):
        s = re.sub(r"^&('\w+ )?(mut )?", '', s).strip()
    if s.startswith('['):
        return s
    return strip_generics(s).rstrip(':').split('::')[-1]


class Stop(Exception):
    """a rule cannot continue; the reason has been recorded"""


class Run:
    def __init__(self, ip, fn, exits, args):
        self.ip, self.fn, self.exits, self.args = ip, fn, exits, args

    def deref(self, i):
        return T.raw('*', self.args[i])

    def ok(self):
        """exits that can return Ok (for Result functions): [(state, payload)]"""
        out = []
        for st, v in self.exits:
            c = T.isvar(v, 0)
            d = st.decide(c)
            if d is False:
                continue
            if d is None:
                for b in (True,):
                    s2 = st.copy()
                    if s2.assume(c, True):
                        out.append((s2, s2.simp(M.project(v, OKV))))
            else:
                out.append((st, st.simp(M.project(v, OKV))))
        return out

    def err(self):
        out = []
        for st, v in self.exits:
            c = T.isvar(v, 0)
            d = st.decide(c)
            if d is True:
                continue
            s2 = st
            if d is None:
                s2 = st.copy()
                if not s2.assume(c, False):
                    continue
            out.append((s2, s2.simp(M.project(v, ERRV))))
        return out


class Ctx:
    def __init__(self, F, prop=None, tier='quick', seed=1):
        self.F, self.prop, self.tier, self.seed = F, prop, tier, seed
        self.viol = []       # (key, message, where)
        self.undec = []
        self.n = {}
        self.rows = []
        self._runs = {}

    # ---- verdicts
    def fail(self, key, msg, where=''):
        key = re.sub(r'\s+', ' ', key)
        if I.Interp.unknown:
            self.unsure('%s (not reported: %s has no model)' % (msg[:160], ', '.join(sorted(I.Interp.unknown))[:120]))
            return
        if all(k != key for k, _, _ in self.viol):
            self.viol.append((key, msg, where))

    def unsure(self, what):
        if what not in self.undec:
            self.undec.append(what)

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def row(self, text):
        self.rows.append(text)

    def good(self, kind, text=None):
        self.count(kind)
        if text:
            self.row('%s: %s' % (kind, text))

    def floor(self, name, k, exact=False):
        """an analysis that found almost nothing to look at is no evidence; how many paths it takes depends on how the
        code is written, so only counts given by the format itself are exact"""
        k = k if exact else max(1, k // 4)
        if self.n.get(name, 0) < k and not self.undec:
            self.fail('floor:%s' % name, 'only %d %s analysed, expected at least %d' % (self.n.get(name, 0), name, k))

    # ---- lookup
    def where(self, fn):
        return '%s (%s)' % (fn['path'], fn.get('span') or '')

    def method(self, trait, ty, name):
        """method of an impl of the crate trait `trait` for the type called `ty`"""
        for f in self.F.fns:
            o = f.get('owner') or {}
            if f['name'] == name and o.get('kind') == 'traitimpl' and last(strip_generics(o['trait'])) == trait and tyname(self.F.tys(o['self'])) == ty:
                return f
        raise self.missing('%s::%s for %s' % (trait, name, ty))

    def methods(self, trait, name):
        out = []
        for f in self.F.fns:
            o = f.get('owner') or {}
            if f['name'] == name and o.get('kind') == 'traitimpl' and last(strip_generics(o['trait'])) == trait:
                out.append(f)
        return out

    def inherent(self, ty, name):
        for f in self.F.fns:
            o = f.get('owner') or {}
            if f['name'] == name and o.get('kind') == 'impl' and tyname(self.F.tys(o['self'])) == ty:
                return f
        raise self.missing('%s::%s' % (ty, name))

    def provided(self, trait, name):
        for f in self.F.fns:
            o = f.get('owner') or {}
            if f['name'] == name and o.get('kind') == 'trait' and last(o['trait']) == trait:
                return f
        raise self.missing('trait method %s::%s' % (trait, name))

    def tyn(self, t):
        return tyname(self.F.tys(t))

    def free(self, name):
        for f in self.F.fns:
            if f['name'] == name and not f.get('owner'):
                return f
        raise self.missing('fn %s' % name)

    def missing(self, what):
        self.fail('anchor:%s' % what, 'anchor not found: %s' % what)
        return Stop()

    def impls(self, trait):
        return [i for i in self.F.impls if i.get('trait') and last(strip_generics(i['trait'])) == trait]

    # ---- analysis
    def run(self, fn, args=None, opaque=None, hooks=None, ok=True, tag=None, st=None, setup=None, budget=400000, unroll=0, partial=False):
        """analyse fn; returns a Run, or None after recording that the engine gave up"""
        key = None
        if tag is not None or (args is None and opaque is None and hooks is None and st is None and setup is None):
            key = (fn['path'], tag, ok)
            if key in self._runs:
                return self._runs[key]
        ip = I.Interp(self.F, opaque=opaque, budget=budget)
        ip.assume_ok = ok
        ip.unroll = unroll
        ip.partial = partial
        if hooks:
            ip.hooks.update(hooks)
        if setup:
            setup(ip)
        r = None
        try:
            if args is None:
                args = ip.sym_args(fn['inst'])
            ex = ip.run_fn(fn['inst'], args=args, st=st)
            r = Run(ip, fn, ex, args)
            self.count('functions analysed')
            self.count('exit paths', len(ex))
        except (I.Unsupported, I.Budget, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, AssertionError) as e:
            self.unsure('%s: analysis gave up: %s: %s' % (fn['path'], type(e).__name__, str(e)[:200]))
            import os
            if os.environ.get('TSA_DEBUG'):
                traceback.print_exc()
        if key is not None:
            self._runs[key] = r
        return r

    def args(self, fn, *names):
        """symbolic arguments, named positionally so that renaming a parameter changes nothing"""
        inst = self.F.insts[fn['inst']]
        ip = I.Interp(self.F)
        n = inst['body']['argc']
        names = list(names) + ['arg%d' % i for i in range(len(names), n)]
        return ip.sym_args(fn['inst'], names)

    def variants(self, adt):
        for p, a in self.F.adts.items():
            if last(p) == adt and a.get('local'):
                return p, a['variants']
        raise self.missing('type %s' % adt)

    def field(self, adt, name, variant=0):
        p, vs = self.variants(adt)
        try:
            return vs[variant]['fields'].index(name)
        except ValueError:
            raise self.missing('field %s.%s' % (adt, name))


def cell(v):
    """a shared reference to the constant value v"""
    return M.mk_ref((('C', v), ()))


# ------------------------------------------------------------------ traces
def event_type(e):
    """last generic argument of the event's callee: the T of write_value::<T>"""
    s = e.a[0]
    if '<' not in s:
        return None
    inner = s[s.index('<') + 1:-1]
    d, cur, parts = 0, '', []
    for c in inner:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += c
    parts.append(cur.strip())
    return parts[-1]


def ev_def(e):
    return e.a[0].split('<')[0].rstrip(':')


def ev_name(e):
    return last(strip_generics(e.a[0]).rstrip(':'))


def expand(trace, st=None, limit=64):
    """unroll loop records whose trip count is a constant; decide path conditions that become constant"""
    out = []
    for e in trace:
        if e.op == 'LP':
            key, n, bv, paths = e.a
            if T.is_int(n) and 0 <= n.a[0] <= limit:
                done = True
                sub = []
                for k in range(n.a[0]):
                    chosen = None
                    for p in paths:
                        verdict = True
                        for c, val in p.a[0]:
                            c2 = T.subst(c, {bv: num(k)})
                            if st is not None:
                                d = st.decide(c2)
                                c2 = T.boolean(d) if d is not None else c2
                            if c2.op == 'bool':
                                if c2.a[0] != val.a[0]:
                                    verdict = False
                            elif len(paths) > 1:
                                verdict = None if verdict else verdict
                        if verdict:
                            chosen = p
                            break
                        if verdict is None:
                            chosen = 0
                            break
                    if chosen == 0 or chosen is None:
                        done = False
                        break
                    sub.extend(expand(T.subst(chosen.a[1], {bv: num(k)}), st, limit))
                if done:
                    out.extend(sub)
                    continue
            out.append(T.raw('LP', key, n, bv, tuple(T.raw('P', p.a[0], tuple(expand(p.a[1], st, limit))) for p in paths)))
        else:
            out.append(e)
    return out


def map_ev(t, f):
    """replace every event result / read-bytes atom x for which f(x) is not None"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) if isinstance(y, (Term, tuple)) else y for y in x)
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(go(y) if isinstance(y, (Term, tuple)) else y for y in x.a)
        y = x if na == x.a else T.rebuild(x.op, na, x)
        if y.op in ('ev', 'rdbytes', 'v', 'E'):
            z = f(y)
            if z is not None:
                y = z
        memo[x] = y
        return y
    return go(t)


UNKNOWN_OPS = ('hv', 'undef', 'phi', 'bot', 'mu')


def modelled(t, extra=()):
    """no part of the term is an unmodelled value"""
    return not T.contains(t, lambda x: x.op in UNKNOWN_OPS or x.op in extra)


def norm_bytes(t):
    """drop empty pieces of a concatenation"""
    if t.op == 'cat':
        parts = [norm_bytes(x) for x in t.a]
        parts = [x for x in parts if not T.is_int(M.length(x), 0)]
        return M.cat(*parts) if parts else M.seq()
    return t
