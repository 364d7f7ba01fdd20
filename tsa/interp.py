"""Abstract interpreter over MIR: memory-aware value numbering with trace partitioning.

No part of the program is executed and no solver is involved: every function is translated block by
block into normal forms (terms.py / mem.py); joins become gated values, loops become induction closed
forms, comprehensions or opaque recurrences.
"""
import re
from .terms import *
from .mem import *
from . import terms as T
from . import mem as M

FALSE = None
TRUE = None


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'lin', 'trace', 'dec')

    def __init__(self):
        self.dec = {}
        self.mem = {}
        self.facts = {}
        self.lin = []
        self.trace = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.lin = list(self.lin)
        s.dec = dict(self.dec)
        s.trace = self.trace
        return s

    # ---- memory
    def root(self, r):
        v = self.mem.get(r)
        if v is not None:
            return v
        if r[0] == 'O':
            p = r[1]
            if p.op == 'ref':
                return self.read(p.a[0])
            if p.op == 'ite':
                return ite(p.a[0], self.root(('O', p.a[1])), self.root(('O', p.a[2])))
            return raw('*', p)
        if r[0] == 'C':
            return r[1]
        return raw('undef', r)

    def read(self, place):
        root, projs = place
        if root[0] == 'O':
            p = root[1]
            if p.op == 'ref':
                r2, p2 = p.a[0]
                return self.read((r2, join(p2, projs)))
            if p.op == 'ite' and root not in self.mem:
                return ite(p.a[0], self.read((('O', p.a[1]), projs)), self.read((('O', p.a[2]), projs)))
        v = self.root(root)
        for p in projs:
            v = project(v, p)
        return v

    def write(self, place, val):
        root, projs = place
        if root[0] == 'O':
            p = root[1]
            if p.op == 'ref':
                r2, p2 = p.a[0]
                return self.write((r2, join(p2, projs)), val)
            if p.op == 'ite':
                for c, q in ((True, p.a[1]), (False, p.a[2])):
                    pl = (('O', q), projs) if q.op != 'ref' else (q.a[0][0], join(q.a[0][1], projs))
                    old = self.read(pl)
                    self.write(pl, ite(p.a[0], val, old) if c else ite(p.a[0], old, val))
                return
        if not projs:
            self.mem[root] = val
            return
        self.mem[root] = upd_val(self.root(root), projs, val)

    # ---- facts
    def decide(self, c):
        op = c.op
        if op == 'bool':
            return c.a[0]
        r = self.facts.get(c)
        if r is not None:
            return r
        if op == 'not':
            r = self.decide(c.a[0])
            return None if r is None else not r
        k = self.dec.get(c)
        if k is not None:
            if k is True or k is False:
                return k
            if k == len(self.facts) + 2:
                return None
        r = self._decide(c, op)
        self.dec[c] = len(self.facts) + 2 if r is None else r
        return r

    def _decide(self, c, op):
        if op == 'ite':
            d = self.decide(c.a[0])
            if d is not None:
                return self.decide(c.a[1] if d else c.a[2])
            x, y = self.decide(c.a[1]), self.decide(c.a[2])
            return x if x is not None and x == y else None
        if op == 'le0':
            n = self.facts.get(mk_not(c))
            if n is not None:
                return not n
            p = c.a[0]
            if self.implied(p):
                return True
            if self.implied(sub(num(1), p)):
                return False
            return None
        if op == 'eq0':
            p = c.a[0]
            a = self.implied(add(p, num(1)))       # p <= -1
            if a:
                return False
            b = self.implied(sub(num(1), p))       # p >= 1
            if b:
                return False
            if self.implied(p) and self.implied(neg(p)):
                return True
            return None
        if op == 'isvar':
            v = c.a[0]
            p = adt_of(v)
            vs = VARIANTS.get(p) if p else None
            others = 0
            for i in range(len(vs) if vs else 0):
                if i == c.a[1]:
                    continue
                o = raw('isvar', v, i)
                f = self.facts.get(o)
                if f is True:
                    return False
                if f is False:
                    others += 1
            if vs and others == len(vs) - 1:
                return True
            return None
        if op == 'all':
            if self.implied(c.a[0]):
                return True
            return None
        return None

    def implied(self, p):
        """p <= 0 under the collected linear facts"""
        c, d = to_poly(p)
        if not d:
            return c <= 0
        u = upper(p)
        if u is not None and u <= 0:
            return True
        # strip a common non-negative factor
        q = strip_factor(p)
        if q is not None and q is not p and self.implied(q):
            return True
        lin = self.lin + axioms(p, self)
        return lin_implied(p, lin)

    def assume(self, c, val):
        """add c == val; returns False when contradictory"""
        if not val:
            return self.assume(mk_not(c), True)
        d = self.decide(c)
        if d is not None:
            return d
        while c.op == 'not':
            c = c.a[0]
            val = not val
        if c.op == 'ite':
            # conjunction / disjunction shapes
            x, a, b = c.a
            if val and b.op == 'bool' and not b.a[0]:
                return self.assume(x, True) and self.assume(a, True)
            if val and a.op == 'bool' and not a.a[0]:
                return self.assume(x, False) and self.assume(b, True)
            if not val and b.op == 'bool' and b.a[0]:
                return self.assume(x, True) and self.assume(a, False)
            if not val and a.op == 'bool' and a.a[0]:
                return self.assume(x, False) and self.assume(b, False)
        self.facts[c] = val
        if c.op == 'le0' and val:
            self.lin.append(c.a[0])
            if self.facts.get(T.eq0(c.a[0])) is False:
                self.lin.append(add(c.a[0], num(1)))
        elif c.op == 'eq0' and val:
            self.lin.append(c.a[0])
            self.lin.append(neg(c.a[0]))
        elif c.op == 'eq0' and not val:
            p = c.a[0]
            l, u = lower(p), upper(p)
            if l == 0:
                self.lin.append(sub(num(1), p))
            elif u == 0:
                self.lin.append(add(p, num(1)))
            elif self.implied(p):
                self.lin.append(add(p, num(1)))
            elif self.implied(neg(p)):
                self.lin.append(sub(num(1), p))
        return True

    def branch(self, c):
        """-> [(state, bool)] for both feasible outcomes"""
        d = self.decide(c)
        if d is not None:
            return [(self, d)]
        if c.op == 'ite':
            x, a, b = c.a
            out = []
            for s, v in self.branch(x):
                out.extend(s.branch(a if v else b))
            return out
        if c.op == 'not':
            return [(s, not v) for s, v in self.branch(c.a[0])]
        out = []
        s1 = self.copy()
        if s1.assume(c, True):
            out.append((s1, True))
        s2 = self.copy()
        if s2.assume(c, False):
            out.append((s2, False))
        return out

    def simp(self, t, memo=None):
        """rewrite gated values whose condition is decided"""
        if not isinstance(t, Term):
            return t
        memo = {} if memo is None else memo

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == 'ite':
                d = self.decide(x.a[0])
                if d is not None:
                    r = go(x.a[1] if d else x.a[2])
                    memo[x] = r
                    return r
            if x.op in ('int', 'str', 'sym', 'fn', 'bv') or not contains_ite(x):
                r = x
            elif x.op in ('isvar', 'le0', 'eq0', 'veq', 'has', 'all'):
                d = self.decide(x)
                if d is not None:
                    r = boolean(d)
                else:
                    na = tmap(go, x.a)
                    r = x if na == x.a else rebuild(x.op, na, x)
            else:
                na = tmap(go, x.a)
                r = x if na == x.a else rebuild(x.op, na, x)
            memo[x] = r
            return r
        if not contains_ite(t):
            return t
        return go(t)

    def delta_facts(self, base):
        return [(c, v) for c, v in self.facts.items() if c not in base.facts]


_ci = {}


def contains_ite(t):
    r = _ci.get(t)
    if r is None:
        r = t.op == 'ite' or any(contains_ite(x) for x in _terms_in(t.a))
        _ci[t] = r
    return r


def _terms_in(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _terms_in(x)


def strip_factor(p):
    c, d = to_poly(p)
    if c or not d:
        return None
    ms = list(d)
    common = None
    for m in ms:
        if len(m) < 2 and len(ms) > 1:
            return None
        common = set(m) if common is None else common & set(m)
    for x in sorted(common or (), key=lambda t: t.id):
        if nonneg(x) or (lower(x) or -1) >= 0:
            nd = {}
            for m, k in d.items():
                l = list(m)
                l.remove(x)
                nd[tuple(l)] = nd.get(tuple(l), 0) + k
            c2 = nd.pop((), 0)
            return from_poly(c2, nd)
    return None


def axioms(p, st, depth=0):
    """facts that hold for the atoms of p by definition"""
    out = []
    seen = set()
    work = set()
    for q in [p] + st.lin[-12:]:
        _, d = to_poly(q)
        for m in d:
            for x in m:
                work.add(x)
    for _ in range(2):
        new = set()
        for x in work:
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'min':
                for y in x.a:
                    out.append(sub(x, y))
                    new.update(atoms_of(y))
            elif x.op == 'max':
                for y in x.a:
                    out.append(sub(y, x))
                    new.update(atoms_of(y))
            elif x.op == 'satsub':
                a, b = x.a
                out.append(sub(sub(a, b), x))
                if st.facts.get(le(b, a)) or (x not in seen and False):
                    out.append(sub(x, sub(a, b)))
                if (lower(a) or -1) >= 0:
                    out.append(sub(x, a))
                new.update(atoms_of(a))
            elif x.op == 'div':
                a, b = x.a
                lb = lower(b)
                if lb is None or lb < 1:
                    if st.facts.get(eq0(b)) is False:
                        lb = 1
                if lb is not None and lb >= 1 and (lower(a) or 0) >= 0:
                    out.append(sub(mul(b, x), a))
                    out.append(sub(x, a))
                    new.update(atoms_of(a))
            elif x.op == 'rem':
                a, b = x.a
                lb = lower(b)
                if lb is None or lb < 1:
                    if st.facts.get(eq0(b)) is False:
                        lb = 1
                if lb is not None and lb >= 1 and (lower(a) or 0) >= 0:
                    out.append(sub(add(x, num(1)), b))
                    out.append(sub(x, a))
            elif x.op == 'ite':
                lo = None
                a, b = x.a[1], x.a[2]
                if (upper(sub(a, b)) or 1) <= 0:
                    out.append(sub(x, b))
                    out.append(sub(a, x))
                elif (upper(sub(b, a)) or 1) <= 0:
                    out.append(sub(x, a))
                    out.append(sub(b, x))
        work = new
    return out


def atoms_of(p):
    _, d = to_poly(p)
    r = set()
    for m in d:
        r.update(m)
    return r


def lin_implied(p, lin):
    """p <= 0 from at most three of the facts f <= 0 (non-negative integer combinations)"""
    pa = atoms_of(p)
    if not pa:
        return False
    _, pd = to_poly(p)
    # candidate facts cancel a monomial of p
    def cands(q):
        _, qd = to_poly(q)
        for f in lin:
            _, fd = to_poly(f)
            for m, k in qd.items():
                fk = fd.get(m)
                if fk is None:
                    continue
                if fk * k > 0 and k % fk == 0:
                    yield f, k // fk
    seen = {p}
    frontier = [p]
    for _ in range(3):
        nxt = []
        for q in frontier:
            n = 0
            for f, k in cands(q):
                r = sub(q, mul(num(k), f))
                if r in seen:
                    continue
                seen.add(r)
                u = upper(r)
                if u is not None and u <= 0:
                    return True
                nxt.append(r)
                n += 1
                if n > 24:
                    break
        frontier = nxt[:60]
    return False


# ---------------------------------------------------------------- merging
def build_tree(states, base_facts=None):
    if len(states) == 1:
        return states[0]
    cand = []
    for s in states:
        for c in s.facts:
            if base_facts is None or c not in base_facts:
                if c not in cand:
                    cand.append(c)
        if len(cand) > 60:
            break
    best = None
    for c in cand:
        tr, fa, bad = [], [], False
        for s in states:
            d = s.decide(c)
            if d is None:
                bad = True
                break
            (tr if d else fa).append(s)
        if bad or not tr or not fa:
            continue
        score = abs(len(tr) - len(fa))
        best = (c, tr, fa)
        break
    if best is None:
        return None
    c, tr, fa = best
    a = build_tree(tr, base_facts)
    b = build_tree(fa, base_facts)
    if a is None or b is None:
        return None
    return (c, a, b)


def tree_value(tree, f):
    if isinstance(tree, tuple):
        return ite_t(tree[0], tree_value(tree[1], f), tree_value(tree[2], f))
    return f(tree)


def ite_t(c, a, b):
    if a is b:
        return a
    r = ite(c, a, b)
    if r.op == 'ite':
        ty = ty_of(a) or ty_of(b)
        if ty and (ty_of(a) in (None, ty)) and ty_of(b) in (None, ty):
            set_ty(r, ty)
        p = adt_of(a) or adt_of(b) or (a.a[0] if a.op == 'adt' else None) or (b.a[0] if b.op == 'adt' else None)
        if p:
            set_adt(r, p)
    return r


def merge_states(states, vals=None, site=None):
    """join states having the same trace; vals: parallel list of a value to merge (or None)"""
    if len(states) == 1:
        return states[0], (vals[0] if vals else None)
    common = {}
    s0 = states[0]
    for c, v in s0.facts.items():
        if all(s.facts.get(c) == v for s in states[1:]):
            common[c] = v
    tree = build_tree(states, common)
    out = State()
    out.trace = s0.trace
    out.facts = common
    rest = [set(x.lin) for x in states[1:]]
    out.lin = [p for p in s0.lin if all(p in x for x in rest)]
    have = set(out.lin)

    def lin(p):
        if p not in have:
            have.add(p)
            out.lin.append(p)
    for c, v in common.items():
        if c.op == 'le0' and v:
            lin(c.a[0])
        elif c.op == 'eq0' and v:
            lin(c.a[0])
            lin(neg(c.a[0]))
    for c, v in common.items():
        if c.op == 'eq0' and not v:
            p = c.a[0]
            l, u = lower(p), upper(p)
            if l == 0 or l is None and out.implied(neg(p)):
                lin(sub(num(1), p))
            elif u == 0 or u is None and out.implied(p):
                lin(add(p, num(1)))
    if tree is not None:
        pc = path_cond(tree, set(common))
        if pc is not None and pc.op != 'bool':
            out.facts[pc] = True
    idx = {id(s): i for i, s in enumerate(states)}

    def mv(vs, what):
        if all(v is vs[0] for v in vs):
            return vs[0]
        if tree is not None:
            return tree_value(tree, lambda s: vs[idx[id(s)]])
        return phi(site, what, vs)
    roots = set()
    for s in states:
        roots.update(s.mem)
    for r in sorted(roots, key=repr_root):
        vs = [s.mem.get(r) for s in states]
        if all(v is None for v in vs):
            continue
        if any(v is None for v in vs):
            if r[0] in ('L', 'T'):
                vs = [raw('undef', r) if v is None else v for v in vs]
                nn = [v for v in vs if v.op != 'undef']
                if all(v is nn[0] for v in nn):
                    out.mem[r] = nn[0]
                    continue
            else:
                vs = [s.root(r) for s in states]
        out.mem[r] = mv(vs, r)
    val = mv(vals, 'ret') if vals else None
    # disjunctive facts: keep what the tree knows about linear facts is lost (sound)
    return out, val


def kinds_apart(states):
    """groups of states to merge: states that no condition tells apart stay apart when a local holds another variant in each"""
    s0 = states[0]
    common = {c: v for c, v in s0.facts.items() if all(s.facts.get(c) == v for s in states[1:])}
    if build_tree(states, common) is not None:
        return [states]
    groups = {}
    for s in states:
        sig = []
        for r, v in s.mem.items():
            if r[0] in ('L', 'T') and v.op == 'adt' and len(VARIANTS.get(v.a[0]) or ()) > 1:
                if any(t.mem.get(r) is None or t.mem[r].op != 'adt' or t.mem[r].a[1] != v.a[1] for t in states):
                    sig.append((repr_root(r), v.a[1]))
        groups.setdefault(tuple(sorted(sig)), []).append(s)
    return list(groups.values()) if len(groups) <= 4 else [states]


def path_cond(tree, known):
    """the condition under which one of the merged states was reached"""
    if isinstance(tree, tuple):
        c, a, b = tree
        k2 = known | {c}
        x, y = path_cond(a, k2), path_cond(b, k2)
        if x is None or y is None:
            return None
        return ite(c, x, y)
    r = boolean(True)
    n = 0
    for c, v in reversed(list(tree.facts.items())):
        if c in known:
            continue
        n += 1
        if n > 12:
            return None
        r = and_(c if v else mk_not2(c), r)
    return r


def phi(site, what, vs):
    r = raw('phi', site if site is not None else 0, tuple(sorted(set(vs), key=lambda t: t.id)))
    tys = {ty_of(v) for v in vs}
    if len(tys) == 1:
        t = tys.pop()
        if t:
            set_ty(r, t)
    for v in vs:
        p = adt_of(v) or (v.a[0] if v.op == 'adt' else None)
        if p:
            set_adt(r, p)
            break
    return r


def repr_root(r):
    return tuple(x.id if isinstance(x, (Term, CP)) else str(x) for x in r).__repr__()


def tag_of(v, st):
    """a coarse tag used to keep outcomes apart: the variant of an enum value"""
    if v is None:
        return None
    if v.op == 'adt':
        vs = VARIANTS.get(v.a[0])
        if vs and len(vs) > 1:
            t = v.a[1]
            return (v.a[0], t)
        return v.a[0]
    if v.op == 'bool':
        return v.a[0]
    return None


# ---------------------------------------------------------------- CFG
class Cfg:
    def __init__(self, body):
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = [self._succ(b['t']) if not b.get('cleanup') else [] for b in self.blocks]
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.preds[s].append(b)
        self._dom()
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in self.dom[b]:
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(self.preds[x])

    def _dom(self):
        allb = set(self.order)
        self.dom = {b: set(allb) for b in self.order}
        self.dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b == 0:
                    continue
                ps = [self.dom[p] for p in self.preds[b]]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b}
                if nd != self.dom[b]:
                    self.dom[b] = nd
                    ch = True

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [b for _, b in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return list(dict.fromkeys(r))
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [] if t[4] is None else [t[4]]
        if k == 'assert':
            return [t[4]]
        return []


class Frame:
    __slots__ = ('inst', 'iid', 'body', 'cp', 'cfg', 'argc', 'fname')

    def __init__(self, inst, iid, cp, cfg):
        self.inst = inst
        self.iid = iid
        self.body = inst['body']
        self.cp = cp
        self.cfg = cfg
        self.fname = inst['path']


class Obl:
    __slots__ = ('kind', 'desc', 'fn', 'span', 'ok', 'st', 'cond', 'cp', 'chain')

    def __repr__(self):
        return '%s %s %s @%s %s' % ('OK ' if self.ok else 'BAD', self.kind, self.desc, self.fn, self.span)


class Interp:
    MAXST = 24
    made = None          # a list that collects every interpreter (for rules over the obligations of other analyses)

    def __init__(self, facts, opaque=None, max_depth=40, budget=400000):
        self.F = facts
        if Interp.made is not None:
            Interp.made.append(self)
        self.cfgs = {}
        self.opaque = opaque or (lambda call: False)
        self.loopK = []
        self.unk = set()
        self.quiet = 0
        self.obls = []
        self.loops = {}
        self.stack = []
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.calls_seen = set()      # (inst path)
        self.inlined = set()
        self.notes = []
        self.promcache = {}
        self.consts = {}     # (name, arguments) of an associated constant -> value
        self.hooks = {}
        self.assume_ok = False
        self.unroll = 0
        self.partial = False      # keep the paths that leave a loop within the unrolling bound, drop the others
        self.uctx = ()
        self.span = None
        from . import models
        self.models = models.MODELS
        self.model_pat = models.PATTERNS
        self._models = models

    # ------------------------------------------------------------ entry
    def run_fn(self, iid, args=None, st=None, cp=None):
        """interpret instance iid on symbolic arguments -> list of (state, value)"""
        inst = self.F.insts[iid]
        st = st or State()
        body = inst['body']
        if args is None:
            args = self.sym_args(iid)
        cp = cp or CP.get(None, ('root', inst['path']))
        return self.run_body(iid, args, st, cp, merge=False)

    def sym_args(self, iid, names=None):
        body = self.F.insts[iid]['body']
        out = []
        for i in range(1, body['argc'] + 1):
            tyid, nm = body['locals'][i]
            out.append(self.typed(raw('sym', names[i - 1] if names else (nm or 'arg%d' % i), iid), tyid))
        return out

    def sym_of(self, name, tyid):
        v = raw('sym', name)
        return self.typed(v, tyid)

    def typed(self, v, tyid):
        """attach type knowledge to an opaque term"""
        t = self.F.types[tyid]
        k = t['k']
        if k == 'int':
            set_ty(v, t['n'])
        elif k == 'adt':
            if v.op not in ('adt',):
                set_adt(v, t['path'])
        elif k == 'tuple':
            if v.op != 'adt':
                if not t['ts']:
                    return unit()
                set_adt(v, '()')
        elif k == 'array':
            if isinstance(t.get('len'), int) and v.op not in M.SEQ and v not in LEN:
                LEN[v] = t['len']
        return v

    def cfg(self, iid):
        c = self.cfgs.get(iid)
        if c is None:
            c = Cfg(self.F.insts[iid]['body'])
            self.cfgs[iid] = c
        return c

    # ------------------------------------------------------------ bodies
    def run_body(self, iid, args, st, cp, merge=True, keep=False):
        inst = self.F.insts[iid]
        if len(self.stack) > self.max_depth or self.stack.count(iid) >= 2:
            raise Unsupported('recursion/depth at %s' % inst['path'])
        self.inlined.add(inst['path'])
        fr = Frame(inst, iid, cp, self.cfg(iid))
        body = fr.body
        st = st.copy()
        spread = body.get('spread')
        if spread is not None and spread and len(args) == 2 and body['argc'] != 2:
            pass
        if len(args) != body['argc']:
            # closure-style call: untuple the last argument
            last = args[-1]
            n = body['argc'] - (len(args) - 1)
            args = list(args[:-1]) + [project(last, ('f', i)) for i in range(n)]
        for i, a in enumerate(args):
            st.mem[('L', cp, i + 1)] = self.typed(a, body['locals'][i + 1][0])
        self.stack.append(iid)
        try:
            outs = self.run_region(fr, 0, [st], None)
        finally:
            self.stack.pop()
        res = []
        for kind, tgt, s in outs:
            if kind != 'ret':
                continue
            rv = s.read((('L', cp, 0), ()))
            if rv.op == 'undef':
                rv = unit()
            rv = self.typed(rv, body['locals'][0][0])
            if not keep:
                for r in [r for r in s.mem if r[0] in ('L', 'T') and r[1] is cp]:
                    del s.mem[r]
            res.append((s, rv))
        if merge:
            res = self.merge_results(res, cp)
        return res

    def merge_results(self, res, site):
        if len(res) <= 1:
            return res
        groups = {}
        for s, v in res:
            groups.setdefault((s.trace, tag_of(v, s)), []).append((s, v))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
            else:
                s, v = merge_states([x[0] for x in g], [x[1] for x in g], site)
                out.append((s, v))
        return out

    def limit(self, states, site):
        """merge states at a join when there are too many"""
        if len(states) <= 4:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.trace, []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1 or len(states) <= self.MAXST and len(g) <= 4:
                out.extend(g)
            else:
                for h in kinds_apart(g):
                    out.append(h[0] if len(h) == 1 else merge_states(h, None, site)[0])
        return out

    def run_region(self, fr, start, states, region):
        """propagate states from block start; region = set of loop blocks or None.
        -> list of (kind, target, state) with kind in ret / cont / exit"""
        cfg = fr.cfg
        pend = {start: list(states)}
        outs = []
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            sts = pend.pop(b)
            sts = self.limit(sts, CP.get(fr.cp, ('join', fr.iid, b)))
            if b in cfg.loops and not (region is not None and b == start):
                lb = cfg.loops[b]
                for n, s in enumerate(sts):
                    key = CP.get(fr.cp, ('loop', fr.iid, b, n))
                    for kind, tgt, s2 in self.mir_loop(fr, b, lb, s, key):
                        if kind == 'ret':
                            outs.append((kind, tgt, s2))
                        elif region is not None and tgt not in region:
                            outs.append(('exit', tgt, s2))
                        elif region is not None and tgt == start:
                            outs.append(('cont', tgt, s2))
                        else:
                            pend.setdefault(tgt, []).append(s2)
                continue
            for s in sts:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('step budget exceeded in %s' % fr.fname)
                for kind, tgt, s2 in self.run_block(fr, b, s):
                    if kind == 'ret':
                        outs.append((kind, tgt, s2))
                    elif region is not None and tgt == start:
                        outs.append(('cont', tgt, s2))
                    elif region is not None and tgt not in region:
                        outs.append(('exit', tgt, s2))
                    else:
                        pend.setdefault(tgt, []).append(s2)
            first = False
        return outs

    def run_block(self, fr, b, st):
        """-> list of (kind, target, state)"""
        blk = fr.body['blocks'][b]
        st = st.copy()
        for s in blk['s']:
            self.stmt(fr, st, s)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [('go', t[1], st)]
        if k == 'return':
            return [('ret', None, st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'drop':
            return [('go', t[2], st)]
        if k == 'switch':
            return self.do_switch(fr, st, t)
        if k == 'assert':
            return self.do_assert(fr, st, t)
        if k == 'call':
            return self.call_term(fr, b, st, t)
        raise Unsupported('terminator ' + str(t)[:80])

    # ------------------------------------------------------------ places / operands
    def place(self, fr, st, pl):
        """-> (place, type id)"""
        lo = pl[0]
        ty = fr.body['locals'][lo][0]
        cur = (('L', fr.cp, lo), ())
        var = None
        for p in pl[1:]:
            k = p[0]
            if k == '*':
                v = self.typed(st.read(cur), ty)
                t = self.F.types[ty]
                if t['k'] in ('ref', 'ptr'):
                    ty = t['t']
                elif t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box':
                    ty = t['args'][0] if t['args'] else ty
                v = st.simp(v)
                cur = place_of(v)
            elif k == '.':
                if var is not None:
                    a = self.F.types[ty]
                    n = len(VARIANTS.get(a.get('path'), ())) if a['k'] == 'adt' else 1
                    pr = ('v', var, p[1]) if n > 1 else ('f', p[1])
                    var = None
                else:
                    pr = ('f', p[1])
                base = st.read(cur)
                self.typed(base, ty)
                cur = (cur[0], add_proj(cur[1], pr))
                ty = p[2]
            elif k == 'as':
                var = p[1]
            elif k == '[]':
                idx = st.read((('L', fr.cp, p[1]), ()))
                set_ty(idx, 'usize')
                cur = (cur[0], add_proj(cur[1], ('i', st.simp(idx))))
                ty = self.elem_ty(ty)
            elif k == '[c]':
                off, fe = p[1], p[2]
                if fe:
                    base = st.read(cur)
                    self.typed(base, ty)
                    idx = sub(length(base), num(off))
                else:
                    idx = num(off)
                cur = (cur[0], add_proj(cur[1], ('i', idx)))
                ty = self.elem_ty(ty)
            elif k == '[s]':
                fro, to, fe = p[1], p[2], p[3]
                hi = num(to)
                if fe:
                    base = st.read(cur)
                    hi = sub(length(base), num(to))
                cur = (cur[0], add_proj(cur[1], ('s', num(fro), hi)))
            else:
                raise Unsupported('projection %r' % (p,))
        return cur, ty

    def elem_ty(self, ty):
        t = self.F.types[ty]
        if t['k'] in ('slice', 'array'):
            return t['t']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        return ty

    def rd(self, fr, st, pl):
        p, ty = self.place(fr, st, pl)
        v = st.read(p)
        return self.typed(v, ty)

    def operand(self, fr, st, op):
        if op[0] in ('cp', 'mv'):
            return self.rd(fr, st, op[1])
        if op[0] == 'c':
            return self.const(op[1], fr)
        if op[0] == 'rt':
            return boolean(False)
        raise Unsupported('operand %r' % (op,))

    def const(self, c, fr=None):
        k = c['c']
        if k == 'int':
            return num(int(c['v']))
        if k == 'bool':
            return boolean(c['v'])
        if k == 'char':
            v = c['v']
            return raw("char", chr(int(v)))
        if k == 'str':
            return mk_ref((('C', raw('str', c['v'])), ()))
        if k == 'zst':
            t = self.F.types[c['ty']]
            if t['k'] == 'fndef':
                return self.fnval(t['f'])
            if t['k'] == 'closure':
                return raw('clo', t['inst'] if t['inst'] is not None else -1, ())
            if t['k'] == 'tuple':
                return unit()
            if t['k'] == 'adt':
                return adt(t['path'], 0, ())
            return unit()
        if k == 'fn':
            return self.fnval(c['v'] if isinstance(c.get('v'), dict) else c.get('f') or self.F.types[c['ty']].get('f', c))
        if k == 'adt':
            t = self.F.types[c['ty']]
            return adt(t['path'] if t['k'] == 'adt' else '()', c['variant'], tuple(self.const(x) for x in c['fields']))
        if k == 'tuple':
            xs = c.get('elems') or c.get('fields') or []
            return tup(*[self.const(x) for x in xs])
        if k == 'array':
            return seq(*[self.const(x) for x in c['elems']])
        if k == 'ref':
            inner = self.const(c['v'])
            if inner.op == 'ref' and self.F.types[c['ty']]['k'] == 'ref' and self.F.types[self.F.types[c['ty']]['t']]['k'] == 'str':
                return inner
            return mk_ref((('C', inner), ()))
        if k == 'uneval':
            if c.get('promoted') is not None or (c.get('inst') is not None and self.F.insts[c['inst']].get('body')):
                i = c.get('inst')
                if i is not None and self.F.insts[i].get('body'):
                    v = self.promoted(i)
                    if v is not None:
                        return v
            nm = raw('cst', c.get('trait') or '', c.get('name') or c.get('def'), tuple(self.F.tys(a) if isinstance(a, int) else str(a) for a in c.get('args', ())))
            o = self.consts.get((nm.a[1], nm.a[2])) or self.consts.get((nm.a[1], None))
            return o if o is not None else self.typed(nm, c['ty'])
        if k == 'bits':
            return raw('bits', str(c.get('v')), self.F.tys(c['ty']))
        if k == 'generic':
            return self.typed(raw('cst', '', c.get('v') or c.get('name') or 'generic', ()), c['ty'])
        return self.typed(raw('cst', '', 'opaque:' + str(c.get('v') or c.get('s')), (self.F.tys(c['ty']),)), c['ty'])

    def fnval(self, f):
        v = raw('fn', f.get('def', '?'), f.get('inst', -1) if f.get('inst') is not None else -1,
                (f.get('adt'), f.get('variant')) if f.get('ctor') else None, tuple(a for a in f.get('args') or [] if isinstance(a, int)))
        Interp.fncallee[v] = f
        return v

    fncallee = {}

    def promoted(self, i):
        if i in self.promcache:
            return self.promcache[i]
        v = None
        try:
            cp = CP.get(None, ('promoted', i))
            r = self.run_body(i, [], State(), cp, True, True)
            if len(r) == 1:
                s, v = r[0]
                v = self.freeze(s, v)
        except Unsupported:
            v = None
        self.promcache[i] = v
        return v

    def freeze(self, st, v):
        """turn references to frame locals of a finished constant body into constant roots"""
        if v.op == 'ref':
            root, projs = v.a[0]
            if root[0] in ('L', 'T'):
                return mk_ref((('C', self.freeze(st, st.read((root, projs)))), ()))
            return v
        if v.op == 'adt':
            return adt(v.a[0], v.a[1], tuple(self.freeze(st, x) for x in v.a[2]))
        if v.op == 'seq':
            return seq(*[self.freeze(st, x) for x in v.a[0]])
        return v

    # ------------------------------------------------------------ statements
    def stmt(self, fr, st, s):
        k = s[0]
        if k == '=':
            self.span = s[3] if len(s) > 3 else self.span
            v = self.rvalue(fr, st, s[2])
            p, ty = self.place(fr, st, s[1])
            v = self.typed(v, ty)
            st.write(p, v)
        elif k == 'setdiscr':
            p, ty = self.place(fr, st, s[1])
            t = self.F.types[ty]
            st.write(p, adt(t['path'], s[2], ()))
        elif k == 'assume':
            pass

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref' or k == 'addr':
            pl = r[2] if k == 'ref' else r[1]
            if not isinstance(pl, list):
                pl = r[-1]
            p, ty = self.place(fr, st, pl)
            return mk_ref(p)
        if k == 'bin':
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(st, r[1], a, b, r[4] if len(r) > 4 else None)
        if k == 'un':
            a = self.operand(fr, st, r[2])
            return self.unop(st, r[1], a, r[3] if len(r) > 3 else None)
        if k == 'cast':
            a = self.operand(fr, st, r[2])
            return self.cast(st, r[1], a, r[3], r[4])
        if k == 'discr':
            p, ty = self.place(fr, st, r[1])
            v = self.typed(st.read(p), ty)
            v = st.simp(v)
            return discr(v)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[2]]
            kind = r[1][0]
            t = self.F.types[r[3]]
            if kind == 'array':
                return seq(*ops)
            if kind == 'tuple':
                return tup(*ops)
            if kind == 'adt':
                return adt(t['path'], r[1][1], tuple(ops))
            if kind == 'closure':
                return raw('clo', t['inst'] if t['inst'] is not None else -1, tuple(ops))
            if kind == 'rawptr':
                return ops[0]
            raise Unsupported('aggregate %r' % (r[1],))
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            n = r[2]
            if isinstance(n, dict):
                n = self.const(n)
            elif isinstance(n, list):
                n = self.operand(fr, st, n)
            elif not isinstance(n, Term):
                n = num(int(n))
            return raw('rep', v, n)
        if k == 'len':
            p, ty = self.place(fr, st, r[1])
            return length(self.typed(st.read(p), ty))
        raise Unsupported('rvalue %s' % str(r)[:100])

    def ity(self, tyid):
        t = self.F.types[tyid]
        if t['k'] == 'int':
            return t['n']
        return None

    def binop(self, st, op, a, b, tyid):
        ty = self.ity(tyid) if tyid is not None else None
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if ty:
            set_ty(a, ty)
            if base not in ('Shl', 'Shr'):
                set_ty(b, ty)
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            k = self.F.types[tyid]['k'] if tyid is not None else None
            if k in ('float',) :
                c = raw('fcmp', base, a, b)
                return c
            if k == 'bool' or a.op in ('bool',) and b.op in ('bool',):
                c = veq(a, b) if (a.op == 'bool' or b.op == 'bool') else raw('veq', *sorted((a, b), key=lambda t: t.id))
                return c if base == 'Eq' else mk_not2(c) if base == 'Ne' else raw('bcmp', base, a, b)
            if k == 'char':
                c = veq(a, b) if base in ('Eq', 'Ne') else raw('ccmp', base, a, b)
                return mk_not2(c) if base == 'Ne' else c
            if k in ('ref', 'ptr', 'fnptr'):
                return raw('ptreq', a, b)
            a2, b2 = self.int_of(a), self.int_of(b)
            if base == 'Eq':
                return self.cmp_eq(st, a2, b2)
            if base == 'Ne':
                return mk_not2(self.cmp_eq(st, a2, b2))
            if base == 'Lt':
                return lt(a2, b2)
            if base == 'Le':
                return le(a2, b2)
            if base == 'Gt':
                return lt(b2, a2)
            return le(b2, a2)
        if tyid is not None and self.F.types[tyid]['k'] == 'float':
            return raw('fop', base, a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor') and (tyid is not None and self.F.types[tyid]['k'] == 'bool'):
            if base == 'BitAnd':
                return and_(a, b)
            if base == 'BitOr':
                return or_(a, b)
            return mk_not2(veq(a, b)) if (a.op == 'bool' or b.op == 'bool') else raw('bxor', a, b)
        if base == 'Offset':
            return raw('ptroff', a, b)
        a, b = self.int_of(a), self.int_of(b)
        if base == 'Add':
            v = add(a, b)
        elif base == 'Sub':
            v = sub(a, b)
        elif base == 'Mul':
            v = mul(a, b)
        elif base == 'Div':
            v = div(a, b)
        elif base == 'Rem':
            v = rem(a, b)
        elif base == 'BitAnd':
            v = band(a, b)
        elif base == 'BitOr':
            v = bor(a, b)
        elif base == 'BitXor':
            v = num(a.a[0] ^ b.a[0]) if is_int(a) and is_int(b) else raw('bxor', a, b)
        elif base == 'Shl':
            v = shl(a, b)
        elif base == 'Shr':
            v = shr(a, b)
        elif base == 'Cmp':
            return raw('cmp', a, b)
        else:
            raise Unsupported('binop ' + op)
        if v.op not in ('int', 'poly') and ty:
            set_ty(v, ty)
        if op.endswith('WithOverflow'):
            return tup(v, self.ovf(st, v, ty))
        if op in ('Add', 'Sub', 'Mul') and ty:
            # wrapping arithmetic (release semantics / unchecked ops in core)
            return v if self.fits(st, v, ty) else trunc(ty, v)
        return v

    def cmp_eq(self, st, a, b):
        return eq(a, b)

    def int_of(self, v):
        if v.op == 'bool':
            return num(1 if v.a[0] else 0)
        return v

    def fits(self, st, v, ty):
        lo, hi = INT[ty]
        return st.implied(sub(v, num(hi))) and st.implied(sub(num(lo), v))

    def ovf(self, st, v, ty):
        lo, hi = INT[ty]
        u, l = upper(v), lower(v)
        if u is not None and l is not None and lo <= l and u <= hi:
            return boolean(False)
        if is_int(v):
            return boolean(not (lo <= v.a[0] <= hi))
        return raw('ovf', v, ty)

    def unop(self, st, op, a, tyid):
        if op == 'Not':
            if tyid is not None and self.F.types[tyid]['k'] == 'int':
                ty = self.ity(tyid)
                if ty[0] == 'u':
                    return sub(num(INT[ty][1]), a)
                return sub(num(-1), a)
            return mk_not2(a)
        if op == 'Neg':
            if tyid is not None and self.F.types[tyid]['k'] == 'float':
                return raw('fneg', a)
            return neg(a)
        if op == 'PtrMetadata':
            # length of the slice a designates
            pl = place_of(a)
            return length(st.read(pl))
        raise Unsupported('unop ' + op)

    def cast(self, st, kind, a, to, frm):
        tt, ft = self.F.types[to], self.F.types[frm]
        if kind in ('IntToInt',):
            n = tt['n'] if tt['k'] == 'int' else None
            if ft['k'] == 'bool':
                return b2i(a)
            if ft['k'] == 'char':
                return raw('ord', a) if a.op != 'char' else num(ord(a.a[0]))
            if n is None:
                return raw('tochar', a)
            if ft['k'] == 'int':
                set_ty(a, ft['n'])
            lo, hi = INT[n]
            v = a
            l, u = lower(v), upper(v)
            if l is not None and u is not None and lo <= l and u <= hi:
                return v
            if self.fits(st, v, n):
                return v
            if ft['k'] == 'int':
                fl, fh = INT[ft['n']]
                width = lambda x: INT[x][1] - INT[x][0]
                if width(n) >= width(ft['n']):
                    # same width sign change: exact as long as the value stays in range
                    if not self.quiet:
                        self.oblige('cast', 'value %s as %s stays in range' % (show(v), n), st, None)
                    return v
            r = trunc(n, v)
            if r.op == 'trunc' and not self.quiet:
                self.oblige('narrow', 'value %s as %s' % (show(v), n), st, None)
            return r
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'Subtype', 'FnPtrToPtr'):
            if tt['k'] == 'int' and ft['k'] == 'array':
                return raw('transmute', a, tt['n'])
            return a
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            return self.typed(raw('fcast', kind, a, tt['s']), to)
        if kind == 'PointerExposeProvenance' or kind == 'PointerWithExposedProvenance':
            return raw('ptrcast', a)
        if kind == 'BoxDerefTransmute' and a.op == 'f' and a.a[0].op == 'ref':
            return a.a[0]
        return self.typed(raw('castx', kind, a, tt['s']), to)

    # ------------------------------------------------------------ terminators
    def do_switch(self, fr, st, t):
        v = st.simp(self.operand(fr, st, t[1]))
        self.span = t[5] if len(t) > 5 else self.span
        tt = self.F.types[t[4]]
        outs = []
        if tt['k'] == 'bool':
            tgt = {}
            for val, b in t[2]:
                tgt[int(val) != 0] = b
            for s, d in st.branch(v):
                outs.append(('go', tgt.get(d, t[3]), s))
            return outs
        cur = [st]
        if tt['k'] == 'int':
            set_ty(v, tt['n'])
        for val, b in t[2]:
            nxt = []
            if tt['k'] == 'char':
                c = veq(v, raw('char', chr(int(val))))
            else:
                iv = int(val)
                if tt['k'] == 'int' and tt['n'][0] == 'i' and iv > INT[tt['n']][1]:
                    iv -= (INT[tt['n']][1] - INT[tt['n']][0] + 1)
                c = eq(v, num(iv))
            for s in cur:
                for s2, d in s.branch(c):
                    if d:
                        outs.append(('go', b, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        if t[3] is not None:
            for s in cur:
                outs.append(('go', t[3], s))
        return outs

    def do_assert(self, fr, st, t):
        c = self.operand(fr, st, t[1])
        want = t[2]
        self.span = t[5] if len(t) > 5 else self.span
        cond = c if want else mk_not2(c)
        msg = t[3][0] if isinstance(t[3], list) else str(t[3])
        if msg == 'other' and 'PointerDereference' in t[3][1]:
            return [('go', t[4], st)]      # inserted by the compiler for raw pointers; the pointer comes from a Box
        ok_ = self.prove(st, cond)
        if not self.quiet:
            self.oblige(msg, show(cond), st, ok_, cond, fr)
        if ok_ is False:
            return []
        if cond.op != 'bool':
            a = cond.a[0] if cond.op == 'not' else cond
            if a.op == 'ovf':
                lo, hi = INT[a.a[1]]
                st.assume(le(a.a[0], num(hi)), True)
                st.assume(le(num(lo), a.a[0]), True)
            elif not st.assume(cond, True):
                return []
        return [('go', t[4], st)]

    def prove(self, st, cond):
        d = st.decide(cond)
        if d is not None:
            return d
        a = cond.a[0] if cond.op == 'not' else None
        if a is not None and a.op == 'ovf':
            if self.fits(st, a.a[0], a.a[1]):
                return True
        return None

    def oblige(self, kind, desc, st, ok_, cond=None, fr=None):
        if self.quiet:
            return
        o = Obl()
        o.kind, o.desc, o.ok, o.st, o.cond = kind, desc, ok_, st if ok_ is True else st.copy(), cond
        o.fn = self.F.insts[self.stack[-1]]['path'] if self.stack else '?'
        o.chain = [self.F.insts[i]['path'] for i in self.stack]
        o.span = self.span
        self.obls.append(o)

    # ------------------------------------------------------------ calls
    def call_term(self, fr, b, st, t):
        callee, ops, dest, target, span, argtys, destty = t[1:8]
        self.span = span
        args = [self.typed(self.operand(fr, st, o), ty) for o, ty in zip(ops, argtys)]
        site = CP.get(fr.cp, ('call', fr.iid, b))
        self.at_header = b in fr.cfg.loops
        res = self.do_call(st, callee, args, argtys, destty, site)
        if target is None:
            return []
        outs = []
        for s, v in res:
            if v.op == 'RETRY':
                outs.append(('go', b, s))
                continue
            p, ty = self.place(fr, s, dest)
            v = self.typed(v, ty)
            s.write(p, v)
            outs.append(('go', target, s))
        return outs

    def do_call(self, st, callee, args, argtys, destty, site):
        call = Call(self, callee, args, argtys, destty, site)
        if 'ptr' in callee:
            # call through a function pointer / closure value
            return self.opaque_call(st, call)
        if callee.get('ctor'):
            return [(st, adt(callee['adt'], callee.get('variant') or 0, tuple(args)))]
        if not self.quiet:
            self.calls_seen.add(callee['def'])
        h = self.hooks.get(callee['def']) or self.hooks.get(callee.get('name'))
        if h is not None:
            r = h(self, st, call)
            if r is not None:
                return r
        if self.opaque(call):
            return self.opaque_call(st, call)
        m = self.models.get(callee['def'])
        if m is None:
            ip = call.ipath
            m = self.models.get(ip)
        if m is None:
            for pat, f in self.model_pat:
                if pat.search(callee['def']) or (call.ipath and pat.search(call.ipath)):
                    m = f
                    break
        if m is not None:
            r = m(self, st, call)
            if r is not None:
                return r
        i = callee.get('inst')
        if i is not None:
            inst = self.F.insts[i]
            if inst.get('body'):
                return self.run_body(i, args, st, site)
            if inst['kind'] in ('closureonce',) and args and args[0].op in ('clo', 'fn', 'ref'):
                return self.call_value(st, args[0], self.untuple(args[1]), site, destty)
        self.unknown_call(call)
        return self.opaque_call(st, call)

    unknown = set()      # library calls met for which there is no model (a mismatch downstream of one proves nothing)
    EFFECTS = re.compile(r'^std::fs::|Buf(Writer|Reader)::<.*>::(get_mut|get_ref|buffer|capacity)$|Cursor::<.*>::(get_mut|get_ref|position)$|BufReader::<.*>::seek_relative$|(^|::)io::(\w+::)*(Write|Seek|Read)::(flush|write_all|write|seek|read_exact|read|read_to_end|take|rewind|stream_position)$')

    def unknown_call(self, call):
        d = call.df
        if call.callee.get('local') or self.EFFECTS.search(d):
            return
        self.note_unknown(d, call)

    carriers = set()     # those of them that could carry a failure along (a Result or a callable goes in)

    def note_unknown(self, what, call=None):
        if not self.quiet:
            Interp.unknown.add(what)
            self.unk.add(what)
            if call is None or any(re.search(r'Result|closure|Error|\bfn\b|FnMut|FnOnce', self.F.tys(t)) for t in call.argtys):
                Interp.carriers.add(what)

    def untuple(self, v):
        if v.op == 'adt':
            return list(v.a[2])
        return [v]

    def call_value(self, st, f, args, site, destty=None, keep_env=False):
        """call a closure / fn item value with a list of arguments -> [(st, val)]"""
        env = f
        if f.op == 'ref' or f.op not in ('clo', 'fn'):
            if f.op == 'ref':
                inner = st.read(f.a[0])
                if inner.op == 'fn':
                    f = inner
                elif inner.op == 'clo':
                    f = inner
                elif inner.op == 'ref':
                    return self.call_value(st, inner, args, site, destty)
        if f.op == 'fn':
            if f.a[2] is not None and f.a[2][0]:
                return [(st, adt(f.a[2][0], f.a[2][1] or 0, tuple(args)))]
            callee = dict(Interp.fncallee.get(f) or {'def': f.a[0], 'name': f.a[0].split('::')[-1], 'local': False, 'args': []})
            callee['inst'] = f.a[1] if f.a[1] >= 0 else None
            i = callee['inst']
            argtys = []
            if i is not None and self.F.insts[i].get('body'):
                bd = self.F.insts[i]['body']
                argtys = [l[0] for l in bd['locals'][1:1 + bd['argc']]]
                if destty is None:
                    destty = bd['locals'][0][0]
            return self.do_call(st, callee, args, argtys, destty, site)
        if f.op == 'clo' and f.a[0] >= 0 and self.F.insts[f.a[0]].get('body'):
            iid = f.a[0]
            body = self.F.insts[iid]['body']
            t1 = self.F.types[body['locals'][1][0]]
            if t1['k'] == 'ref':
                if env.op == 'ref':
                    e = env
                else:
                    r = ('T', CP.get(site, ('env',)), 'env')
                    st = st.copy()
                    st.mem[r] = f
                    e = mk_ref((r, ()))
            else:
                e = f
            out = self.run_body(iid, [e] + list(args), st, site)
            if e.op == 'ref' and e is not env and not keep_env:
                for s, _ in out:
                    s.mem.pop(r, None)
            return out
        # unknown callable
        return [(st, self.kapp('apply', site, (f,) + tuple(args)))]

    def kidx(self):
        return tuple(self.loopK)

    def kapp(self, name, site, args):
        return raw('call', name, site, tuple(args) + self.kidx())

    def deep(self, st, v, tyid=None, depth=0):
        """value with shared references replaced by the values they designate"""
        if depth > 4:
            return v
        if v.op == 'ref':
            return self.deep(st, st.simp(st.read(v.a[0])), None, depth + 1)
        if v.op == 'adt' and any(x.op in ('ref', 'adt') for x in v.a[2]):
            return adt(v.a[0], v.a[1], tuple(self.deep(st, x, None, depth + 1) for x in v.a[2]))
        if tyid is not None and self.F.types[tyid]['k'] == 'ref' and not self.F.types[tyid]['mut'] and v.op != 'ref':
            return self.deep(st, st.read((('O', v), ())), self.F.types[tyid]['t'], depth + 1)
        return v

    def is_mut_ref(self, tyid):
        t = self.F.types[tyid]
        return t['k'] in ('ref',) and t['mut']

    def opaque_call(self, st, call, pure=None):
        name = call.name_key()
        st = st.copy()
        muts = [i for i, ty in enumerate(call.argtys) if self.is_mut_ref(ty)]
        dargs = []
        for i, a in enumerate(call.args):
            if i in muts:
                dargs.append(a)
            else:
                dargs.append(self.deep(st, a, call.argtys[i] if i < len(call.argtys) else None))
        if pure is None:
            pure = not muts and not self._models.is_effect(call)
        if pure:
            if call.destty is not None and self.F.types[call.destty]['k'] == 'never':
                return []
            res = self.typed_tree(raw('call', name, None, tuple(dargs)), call.destty)
            return [(st, res)]
        return self.event(st, call, name, dargs, muts)

    def event(self, st, call, name, dargs, muts=()):
        st = st.copy()
        k = self.kidx()
        if call.destty is not None and self.F.types[call.destty]['k'] == 'tuple' and not self.F.types[call.destty]['ts']:
            res = unit()
        else:
            res = raw('ev', name, call.site, k, None)
            if call.destty is not None:
                res = self.typed_tree(res, call.destty)
        st.trace = st.trace + (raw('E', name, call.site, k, tuple(dargs), res),)
        self.evinfo[(name, call.site)] = (self.span, self.F.insts[self.stack[-1]]['path'] if self.stack else '?', call)
        for i in muts:
            a = call.args[i]
            pl = place_of(a)
            old = st.read(pl)
            hv = raw('hv', name, call.site, k, i)
            self.typed(hv, self.F.types[call.argtys[i]]['t'])
            st.write(pl, hv)
        if self.assume_ok and call.destty is not None and self.F.adt_path(call.destty) == 'core::result::Result':
            pay = project(res, ('v', 0, 0))
            res = ok(self.typed_tree(pay, self.F.types[call.destty]['args'][0]))
        return [(st, res)]

    evinfo = {}

    def typed_tree(self, v, tyid):
        return self.typed(v, tyid) if tyid is not None else v

    # ------------------------------------------------------------ loops
    def mir_loop(self, fr, head, blocks, st, key):
        def body(s):
            return self.run_region(fr, head, [s], blocks)
        return self.loop(st, body, key)

    def loop(self, st0, body, key):
        """generic loop: body(state) -> [(kind, target, state)], kind cont/exit/ret"""
        if self.unroll:
            r = self.try_unroll(st0, body, key)
            if r is not None:
                return r
        if self.uctx:
            key = CP.get(key, ('u', self.uctx))
        K = set_ty(raw('K', key), 'usize')
        self.loopK.append(K)
        try:
            return self._loop(st0, body, key, K)
        finally:
            self.loopK.pop()

    def try_unroll(self, st0, body, key):
        """run a loop that ends within self.unroll iterations iteration by iteration; None if it may run longer"""
        nobl, uc = len(self.obls), self.uctx
        front, res, stuck = [st0.copy()], [], []
        try:
            for i in range(self.unroll + 1):
                nxt = []
                self.uctx = uc + ((key.id, i),)
                self.loopK.append(num(i))
                try:
                    for s in front:
                        outs = body(s)
                        for k, t, s2 in outs:
                            if k == 'cont':
                                if i and not self.quiet and s2.trace == s.trace and all(s2.mem.get(r) is v for r, v in s.mem.items()):
                                    stuck.append(s2)
                                nxt.append(s2)
                            else:
                                res.append((k, t, s2))
                finally:
                    self.loopK.pop()
                if not nxt:
                    return res
                front = nxt
        finally:
            self.uctx = uc
        if self.partial:
            return res
        del self.obls[nobl:]
        for s in stuck[:4]:
            self.oblige('stuck', 'a round of the loop leaves everything as it was, so that it goes on for ever', s, None, boolean(False))
        return None

    def _loop(self, st0, body, key, K):
        places = {}
        cur = st0.copy()
        self.quiet += 1
        try:
            for rnd in range(10):
                outs = body(cur.copy())
                conts = [s for k, t, s in outs if k == 'cont']
                changed = {}
                for s in conts:
                    for r, v in s.mem.items():
                        if r[0] in ('L', 'T') and r not in cur.mem:
                            continue
                        old = cur.mem.get(r)
                        if old is None:
                            old = cur.root(r)
                        if old is v:
                            continue
                        if old.op == 'undef':
                            continue
                        self.diff(old, v, (r, ()), changed)
                new = {}
                for p in changed:
                    if p in places:
                        continue
                    new[p] = 1
                # drop places nested within others
                allp = set(places) | set(new)
                allp = {p for p in allp if not any(q != p and q[0] == p[0] and p[1][:len(q[1])] == q[1] for q in allp)}
                if allp == set(places):
                    break
                places = {p: None for p in sorted(allp, key=lambda p: (repr_root(p[0]), str(p[1])))}
                cur = st0.copy()
                for p in places:
                    init = st0.read(p)
                    mu = self.mk_mu(key, p, K, init)
                    cur.write(p, mu)
            else:
                raise Unsupported('loop does not stabilise')
            inits = {p: st0.read(p) for p in places}
            mus = {p: self.mk_mu(key, p, K, inits[p]) for p in places}
            closed = {}
            if places and conts:
                closed = self.close_forms(places, inits, mus, conts, K, cur)
        finally:
            self.quiet -= 1
        # final pass on the closed forms
        hs = st0.copy()
        for p in places:
            if p in closed:
                hs.write(p, closed[p])
            else:
                hs.write(p, mus[p])
        nobl = len(self.obls)
        outs = body(hs.copy())
        conts = [s for k, t, s in outs if k == 'cont']
        exits = [(k, t, s) for k, t, s in outs if k != 'cont']
        ntr = len(st0.trace)
        if not self.quiet:
            for s in conts:
                # nothing that decides the path of this round changes from round to round
                if not any(T.contains(c, lambda x: x is K or x.op == 'mu' and x.a[0] is key) for c, v in s.delta_facts(hs)):
                    self.oblige('stuck', 'nothing that a round changes decides whether the loop goes on', s, None, boolean(False))
        # trip count
        nat, other, bounds = [], [], []
        for k, t, s in exits:
            b = self.natural(s, hs, K, ntr, places) if k == 'exit' else None
            if b is not None:
                nat.append((k, t, s))
                bounds.append(b)
            else:
                other.append((k, t, s))
        Tn = None
        if bounds:
            Tn = bounds[0]
            for b in bounds[1:]:
                Tn = mk_min(Tn, b)
        paths = []
        for s in conts:
            df = tuple((c, v) for c, v in s.delta_facts(hs))
            paths.append(raw('P', tuple((c, boolean(v)) for c, v in df), s.trace[ntr:]))
        has_ev = any(len(s.trace) > ntr for s in conts)
        pure_search = not has_ev and all(p in closed for p in places)
        cond = None
        if conts:
            conds = []
            for s in conts:
                c = boolean(True)
                for f, v in s.delta_facts(hs):
                    if self.is_bound_fact(f, v, K):
                        continue
                    c = and_(c, f if v else mk_not2(f))
                conds.append(c)
            cond = conds[0]
            for c in conds[1:]:
                cond = or_(cond, c)
        if not self.quiet:
            self.loops[key] = dict(K=K, T=Tn, places=places, inits=inits, mus=mus, closed=closed, header=hs,
                                   conts=conts, exits=exits, fn=self.F.insts[self.stack[-1]]['path'] if self.stack else '?', span=self.span,
                                   nat=len(nat), cond=cond)
        res = []
        okcond = cond is not None and not any(t.op in ('mu',) and t.a[0] is key for t in T.leaves(cond)) and cond.op != 'bool'

        def close(s, at, tr_extra, drop):
            ns = State()
            mp = {K: at}
            memo = {}
            for r, v in s.mem.items():
                ns.mem[self.sub_root(r, mp, memo)] = subst(v, mp, memo)
            for c, v in s.facts.items():
                if drop and c not in hs.facts:
                    continue
                ns.assume(subst(c, mp, memo), v)
            tr = st0.trace
            if has_ev and not (is_int(at, 0)):
                bvp = bind(tuple(paths), K)
                tr = tr + (raw('LP', key, at, bvp[0], tuple(bvp[1])),)
            tr = tr + tuple(subst(e, mp, memo) for e in tr_extra)
            ns.trace = tr
            return ns
        for k, t, s in nat:
            if not s.assume(le(num(0), K), True):
                continue
            ns = close(s, Tn, (), True)
            if okcond and self.cond_closed(cond, K):
                bv, cb = bind(cond, K)
                ns.assume(all_(Tn, bv, cb), True)
            res.append((k, t, ns))
        # several natural exits to the same target agree after substitution
        merged = {}
        for k, t, ns in res:
            merged.setdefault((k, t, ns.trace), []).append(ns)
        res = []
        for (k, t, _), g in merged.items():
            res.append((k, t, g[0] if len(g) == 1 else merge_states(g, None, key)[0]))
        for n, (k, t, s) in enumerate(other):
            if pure_search and okcond and len(other) == 1 and Tn is not None and self.cond_closed(cond, K):
                bv, cb = bind(cond, K)
                B = raw('first', Tn, bv, mk_not2(cb))
            else:
                B = raw('brk', key, n, self.kidx()[:-1])
            set_ty(B, 'usize')
            ns = close(s, B, s.trace[ntr:], False)
            if Tn is not None:
                ns.assume(lt(B, Tn), True)
            res.append((k, t, ns))
        return res

    def cond_closed(self, cond, K):
        return True

    def sub_root(self, r, mp, memo):
        if r[0] in ('O', 'C'):
            p = subst(r[1], mp, memo)
            return (r[0], p)
        return r

    def is_bound_fact(self, f, v, K):
        """facts of the form K < A with A independent of K"""
        c = f if v else mk_not(f)
        if c.op == 'le0':
            cc, d = to_poly(c.a[0])
            k = d.get((K,))
            rest = {m: x for m, x in d.items() if m != (K,)}
            if k is not None and not any(mentions_mono(m, K) for m in rest):
                return k > 0
        if c.op == 'not' and c.a[0].op == 'eq0':
            cc, d = to_poly(c.a[0].a[0])
            return (K,) in d and len([m for m in d if mentions_mono(m, K)]) == 1
        return False

    def natural(self, s, hs, K, ntr, places):
        """exit taken exactly when the induction index reaches a bound -> the bound"""
        if len(s.trace) > ntr:
            return None
        df = s.delta_facts(hs)
        bound = None
        for f, v in df:
            if self.is_bound_fact(f, v, K):
                continue
            c = f if v else mk_not(f)
            b = None
            if c.op == 'le0':
                # A - K <= 0
                cc, d = to_poly(c.a[0])
                k = d.get((K,))
                rest = {m: x for m, x in d.items() if m != (K,)}
                if k is not None and k == -1 and not any(mentions_mono(m, K) for m in rest) and not has_mu(from_poly(cc, rest), K):
                    b = from_poly(cc, rest)
            elif c.op == 'eq0':
                cc, d = to_poly(c.a[0])
                k = d.get((K,))
                rest = {m: x for m, x in d.items() if m != (K,)}
                if k in (1, -1) and not any(mentions_mono(m, K) for m in rest) and not has_mu(from_poly(cc, rest), K):
                    b = from_poly(cc, rest)
                    if k == 1:
                        b = neg(b)
                    # only sound when the bound is reached from below
                    if (lower(b) or 0) < 0:
                        b = None
            if b is None:
                return None
            if bound is not None:
                return None
            bound = b
        if bound is None:
            return None
        lo = lower(bound)
        if lo is None or lo < 0:
            if hs.implied(neg(bound)):
                return bound
            c, d = to_poly(bound)
            pos = from_poly(max(c, 0), {m: k for m, k in d.items() if k > 0})
            ng = from_poly(max(-c, 0), {m: -k for m, k in d.items() if k < 0})
            bound = satsub(pos, ng)
            set_ty(bound, 'usize')
        return bound

    def mk_mu(self, key, p, K, init):
        mu = raw('mu', key, p, K)
        ty = ty_of(init)
        if ty:
            set_ty(mu, ty)
        elif init.op in ('int', 'poly'):
            pass
        a = adt_of(init) or (init.a[0] if init.op == 'adt' else None)
        if a:
            set_adt(mu, a)
        return mu

    def diff(self, old, new, place, out):
        if old is new:
            return
        if old.op == 'adt' and new.op == 'adt' and old.a[0] == new.a[0] and old.a[1] == new.a[1] and len(old.a[2]) == len(new.a[2]):
            vs = VARIANTS.get(old.a[0])
            multi = vs and len(vs) > 1
            for i, (x, y) in enumerate(zip(old.a[2], new.a[2])):
                self.diff(x, y, (place[0], place[1] + ((('v', old.a[1], i) if multi else ('f', i)),)), out)
            return
        if old.op == 'clo' and new.op == 'clo' and old.a[0] == new.a[0]:
            for i, (x, y) in enumerate(zip(old.a[1], new.a[1])):
                self.diff(x, y, (place[0], place[1] + (('f', i),)), out)
            return
        if old.op == 'seq' and new.op == 'seq' and len(old.a[0]) == len(new.a[0]) <= 16:
            for i, (x, y) in enumerate(zip(old.a[0], new.a[0])):
                self.diff(x, y, (place[0], place[1] + (('i', num(i)),)), out)
            return
        if new.op == 'upd':
            # chase nested single-field updates
            base, p, val = new.a
            if p[0] == 'f':
                self.diff(project(old, p), val, (place[0], place[1] + (p,)), out)
                if base is not old:
                    self.diff(old, base, place, out)
                return
        out[place] = 1

    def close_forms(self, places, inits, mus, conts, K, hs):
        """closed forms of the recurrences as functions of the iteration index K"""
        trans = {}
        if len(conts) == 1:
            for p in places:
                trans[p] = conts[0].read(p)
        else:
            common = {c: v for c, v in conts[0].facts.items() if all(s.facts.get(c) == v for s in conts)}
            tree = build_tree(conts, common)
            for p in places:
                vs = [s.read(p) for s in conts]
                if all(v is vs[0] for v in vs):
                    trans[p] = vs[0]
                elif tree is not None:
                    trans[p] = tree_value(tree, lambda s: s.read(p))
                else:
                    trans[p] = None
        closed = {}
        allmu = {mus[p]: p for p in places}
        for rnd in range(len(places) + 1):
            progress = False
            for p in places:
                if p in closed or trans[p] is None:
                    continue
                mu = mus[p]
                t = subst(trans[p], {mus[q]: closed[q] for q in closed})
                f = self.close_one(t, mu, inits[p], K, allmu, closed)
                if f is not None:
                    closed[p] = f
                    progress = True
            if not progress:
                break
        return closed

    def close_one(self, t, mu, init, K, allmu, closed):
        others = {m for m in allmu if m is not mu}

        def free(x):
            """independent of every unresolved recurrence (and of mu)"""
            return not mentions(x, others | {mu})
        if t is mu:
            return init
        # integer induction
        if t.op in ('int', 'poly') or ty_of(t) or ty_of(mu) or mu.op == 'mu' and init.op in ('int', 'poly'):
            step = sub(t, mu)
            if free(step):
                if not mentions(step, {K}):
                    return add(init, mul(K, step))
                b, sb = bind(step, K)
                return add(init, mk_sum(K, sb, b))
            if t.op == 'ite':
                # gated step
                s = gated_sub(t, mu)
                if s is not None and free(s):
                    b, sb = bind(s, K)
                    return add(init, mk_sum(K, sb, b))
            if t.op == 'satsub' and t.a[0] is mu and free(t.a[1]):
                step = t.a[1]
                if not mentions(step, {K}):
                    return satsub(init, mul(K, step))
                b, sb = bind(step, K)
                return satsub(init, mk_sum(K, sb, b))
            if t.op in ('min', 'max') and mu in t.a:
                rest = [x for x in t.a if x is not mu]
                if all(free(x) for x in rest) and len(rest) == 1:
                    b, sb = bind(rest[0], K)
                    r = raw('fold' + t.op, K, b, sb, init)
                    if ty_of(mu) or ty_of(rest[0]):
                        set_ty(r, ty_of(mu) or ty_of(rest[0]))
                    return r
            return None
        # sequence building
        e = appended(t, mu)
        if e is not None and free(e):
            r = self.close_append(e, init, K)
            if r is not None:
                return r
        # element-wise update
        g = filled(t, mu, K)
        if g is not None:
            g2 = subst(g, {index(mu, K): index(init, K)})
            if free(g2):
                b, gb = bind(g2, K)
                return raw('fill', init, K, b, gb)
        if t.op == 'upd' and t.a[0] is mu and t.a[1][0] == 'i':
            off = sub(t.a[1][1], K)
            if free(off) and not mentions(off, {K}) and free(t.a[2]):
                b, gb = bind(t.a[2], K)
                return raw('fillat', init, off, K, b, gb)
        # set-once flags
        if t.op == 'bool' or (t.op == 'ite' and set(x.op for x in t.a[1:]) <= {'bool'}):
            pass
        if t.op == 'ite' and mu in (t.a[1], t.a[2]):
            pass
        # boolean conjunction / disjunction over iterations
        c = conj_with(t, mu)
        if c is not None and free(c):
            b, cb = bind(c, K)
            return and_(init, all_(K, b, cb))
        c = conj_with(mk_not2(t), mk_not2(mu)) if is_boolish(t) else None
        if c is not None and free(c):
            b, cb = bind(c, K)
            return or_(init, mk_not2(all_(K, b, cb)))
        return None

    def close_append(self, e, init, K):
        b, eb = bind(e, K)
        if eb.op == 'seq' and len(eb.a[0]) == 1:
            return cat(init, raw_comp(K, b, eb.a[0][0]))
        if eb.op == 'ite':
            c, x, y = eb.a
            if x.op == 'seq' and len(x.a[0]) == 1 and y.op == 'seq' and not y.a[0]:
                return cat(init, fcomp(K, b, x.a[0][0], c))
            if y.op == 'seq' and len(y.a[0]) == 1 and x.op == 'seq' and not x.a[0]:
                return cat(init, fcomp(K, b, y.a[0][0], mk_not2(c)))
        if eb.op == 'rep' and is_int(eb.a[1], 0) or eb.op == 'seq' and not eb.a[0]:
            return init
        return cat(init, raw('flat', K, b, eb))


def raw_comp(K, b, body):
    if not mentions(body, {b}):
        return raw('rep', body, K)
    return mk_comp(K, b, body)


def is_boolish(t):
    return t.op in ('bool', 'not', 'le0', 'eq0', 'isvar', 'veq', 'has', 'all') or t.op == 'ite' and (is_boolish(t.a[1]) or is_boolish(t.a[2])) or t.op == 'mu'


def conj_with(t, mu):
    """t == mu && c  ->  c"""
    if t is mu:
        return boolean(True)
    if t.op == 'bool' and not t.a[0]:
        return None
    if t.op == 'ite':
        c, a, b = t.a
        if c is mu and b.op == 'bool' and not b.a[0]:
            return a
        if b.op == 'bool' and not b.a[0]:
            r = conj_with(a, mu)
            if r is not None:
                return and_(c, r)
        if a.op == 'bool' and not a.a[0]:
            r = conj_with(b, mu)
            if r is not None:
                return and_(mk_not2(c), r)
    return None


def gated_sub(t, mu):
    if t.op == 'ite':
        a, b = gated_sub(t.a[1], mu), gated_sub(t.a[2], mu)
        if a is None or b is None:
            return None
        r = ite(t.a[0], a, b)
        if r.op == 'ite':
            set_ty(r, 'usize')
        return r
    d = sub(t, mu)
    return None if mentions(d, {mu}) else d


def appended(t, mu):
    """t == mu ++ e  ->  e"""
    if t is mu:
        return seq()
    if t.op == 'cat' and t.a[0] is mu:
        return cat(*t.a[1:])
    if t.op == 'ite':
        a, b = appended(t.a[1], mu), appended(t.a[2], mu)
        if a is None or b is None:
            return None
        return ite(t.a[0], a, b)
    return None


def filled(t, mu, K):
    """t == mu with only element K replaced -> the new element"""
    if t is mu:
        return index(mu, K)
    if t.op == 'upd' and t.a[0] is mu and t.a[1][0] == 'i' and t.a[1][1] is K:
        return t.a[2]
    if t.op == 'ite':
        a, b = filled(t.a[1], mu, K), filled(t.a[2], mu, K)
        if a is None or b is None:
            return None
        return ite_t(t.a[0], a, b)
    return None


def mentions_mono(m, K):
    return any(x is K or mentions(x, {K}) for x in m)


def has_mu(t, K):
    return any(x.op == 'mu' and x.a[2] is K for x in T.leaves(t))


shl, shr = T.shl, T.shr


class Call:
    __slots__ = ('ip', 'callee', 'args', 'argtys', 'destty', 'site')

    def __init__(self, ip, callee, args, argtys, destty, site):
        self.ip, self.callee, self.args, self.argtys, self.destty, self.site = ip, callee, args, argtys, destty, site

    @property
    def name(self):
        return self.callee.get('name') or ''

    @property
    def df(self):
        return self.callee.get('def') or '<ptr>'

    @property
    def ipath(self):
        i = self.callee.get('inst')
        return self.ip.F.insts[i]['path'] if i is not None else None

    def targ(self, n):
        """type string of generic argument n"""
        a = self.callee.get('args') or []
        return self.ip.F.tys(a[n]) if n < len(a) and isinstance(a[n], int) else None

    def name_key(self):
        """stable key: trait method + self type args that matter"""
        d = self.df
        tys = []
        for a in self.callee.get('args') or []:
            if isinstance(a, int):
                tys.append(self.ip.F.tys(a))
        return d + ('<' + ', '.join(tys) + '>' if tys else '')
