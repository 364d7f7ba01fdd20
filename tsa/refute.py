"""Is a failing condition certainly reachable?  Polyhedral emptiness (Fourier-Motzkin) over the linear part of a path condition.

The answer is True only when every quantity involved is free (an input, a value read from the stream, a length of an input) and
every condition that mentions one of them is linear, so that the polyhedron is exact; otherwise None (not decided)."""
from . import terms as T
from .terms import num, sub, add, neg, to_poly, INT
from .check import ev_name
from .rules.reading import plain, innermost

READS = ('read_value', 'read_le', 'read_be')
FREE = ('sym', 'unbytes', 'rdbytes', 'len', 'K', 'cnt')
INNER = FREE + ('*', 'f', 'v', 'i', 'int', 'str', 's', 'poly', 'ev', 'raw', 'brk', 'slice')
LIMIT = 3000


class Unknown(Exception):
    pass


def free_atom(x):
    """the atom can take every value of its range, independently of everything that does not mention its leaves"""
    if x.op in ('div', 'rem', 'shr', 'band') and len(x.a) == 2 and x.a[1].op == 'int':
        return all(free_atom(m) for m in atoms(x.a[0]))
    if x.op == 'v' and x.a[0].op == 'ev' and ev_name(x.a[0]) in READS:
        return True          # what a stream holds
    if x.op == 'v' or x.op == 'f' or x.op == 'i' or x.op == '*':
        return not T.contains(x, lambda y: y.op in ('hv', 'phi', 'mu', 'undef', 'bot', 'bv', 'call', 'cst', 'ev', 'seq', 'adt'))
    if x.op not in FREE:
        return False
    return not T.contains(x, lambda y: y.op in ('hv', 'phi', 'mu', 'undef', 'bot', 'bv', 'call', 'cst', 'ite', 'fcomp', 'comp', 'sum', 'loop', 'upd', 'seq', 'adt'))


def atoms(t):
    out = set()
    for m in to_poly(t)[1]:
        out.update(m)
    return out


def leaves(x):
    """what an atom depends on"""
    if x.op in ('div', 'rem', 'shr', 'band'):
        s = {x}
        for y in atoms(x.a[0]):
            s |= leaves(y)
        return s
    return {x}


def failures(cond):
    """alternatives, each a list of terms p with p <= 0, that make the condition false"""
    if cond is None:
        return [[]]
    if cond.op == 'bool':
        return [] if cond.a[0] else [[]]
    neg_ = False
    while cond.op == 'not':
        cond, neg_ = cond.a[0], not neg_
    # now: the failure is  cond == neg_
    if cond.op == 'bool':
        return [[]] if bool(cond.a[0]) == neg_ else []
    if cond.op == 'ovf':
        lo, hi = INT[cond.a[1]]
        v = cond.a[0]
        if neg_:
            return [[sub(num(hi + 1), v)], [sub(v, num(lo - 1))]]
        return [[sub(v, num(hi)), sub(num(lo), v)]]
    if cond.op == 'le0':
        p = cond.a[0]
        return [[p]] if neg_ else [[sub(num(1), p)]]
    if cond.op == 'eq0':
        p = cond.a[0]
        return [[p, neg(p)]] if neg_ else [[sub(num(1), p)], [add(p, num(1))]]
    raise Unknown(cond.op)


def eliminate(cons, xs):
    """cons: [(const, {var: coef})] meaning const + sum <= 0 -> feasible over the rationals?"""
    cons = [c for c in cons]
    xs = set(xs)
    while True:
        for k, d in cons:
            if not d and k > 0:
                return False
        cons = [(k, d) for k, d in cons if d]
        if not cons:
            return True
        cnt = {}
        for k, d in cons:
            for v, c in d.items():
                a = cnt.setdefault(v, [0, 0])
                a[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1], str(y)))
        up = [(k, d) for k, d in cons if d.get(v, 0) > 0]
        dn = [(k, d) for k, d in cons if d.get(v, 0) < 0]
        rest = [(k, d) for k, d in cons if v not in d]
        for k1, d1 in up:
            for k2, d2 in dn:
                a, b = d1[v], -d2[v]
                d = {}
                for y, c in d1.items():
                    if y != v:
                        d[y] = d.get(y, 0) + c * b
                for y, c in d2.items():
                    if y != v:
                        d[y] = d.get(y, 0) + c * a
                rest.append((k1 * b + k2 * a, {y: c for y, c in d.items() if c}))
        seen, cons = set(), []
        for k, d in rest:
            key = (k, tuple(sorted(((id(y), c) for y, c in d.items()))))
            if key not in seen:
                seen.add(key)
                cons.append((k, d))
        if len(cons) > LIMIT:
            raise Unknown('too many constraints')


def linear(t):
    c, d = to_poly(t)
    out = {}
    for m, k in dict(d).items():
        rest = tuple(x for x in m if not (x.op == 'cst' and x.a[1] == 'SIZE_BYTES'))
        k *= 8 ** (len(m) - len(rest))        # one of the types: 8 bytes
        if rest:
            out[rest] = out.get(rest, 0) + k
        else:
            c += k
    return c, {m: k for m, k in out.items() if k}


def reachable(st, cond, cap=None):
    """True: some input certainly reaches the failure; False: none does; None: not decided"""
    try:
        alts = failures(cond)
    except Unknown:
        return None
    verdict = False
    for alt in alts:
        try:
            r = alternative(st, alt, cap=cap)
        except Unknown:
            r = None
        if r is None:
            r = witness(st, alt, cap)
        if r is True:
            return True
        if r is None:
            verdict = None
    return verdict


def alternative(st, alt, depth=4, cap=None):
    for i, p in enumerate(alt):
        if innermost(p) is not None:
            if not depth:
                raise Unknown('gates')
            res = False
            for s, q in plain(st, p, 3):
                if innermost(q) is not None:
                    res = None
                    continue
                r = alternative(s, alt[:i] + [q] + alt[i + 1:], depth - 1, cap)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
    facts = []
    for c, v in st.facts.items():
        if c.op in ('le0', 'eq0'):
            t = st_free(st, c.a[0])
            facts.append((c if t is c.a[0] else T.le0(t) if c.op == 'le0' else T.eq0(t), v))
        else:
            if T.contains(c, lambda y: y.op == 'ite'):
                s2 = st.copy()
                del s2.facts[c]
                s2.dec = {}
                d = s2.decide(s2.simp(c))
                if d is not None and bool(d) == bool(v):
                    continue         # implied by the others
            facts.append((c, v))
    return system(facts, alt, cap)


def witness(st, alt, cap):
    """the same for a part of the inputs: one data type for every type left open, small numbers for counts that are multiplied"""
    facts = list(st.facts.items())
    gates, types = {}, {}
    for c in [c for c, v in facts] + list(alt):
        for x in T.subterms(c):
            if x.op == 'isvar' and x.a[0].op == 'sym' and T.contains(c, lambda y: y.op in ('ite', 'min', 'max', 'satsub')):
                types.setdefault(x.a[0], set()).add(x)
                gates[x] = x
    for x, cs in types.items():
        k = None
        for c, v in facts:
            if c.op == 'isvar' and c.a[0] is x and v:
                k = c.a[1]
        if k is None:
            no = {c.a[1] for c, v in facts if c.op == 'isvar' and c.a[0] is x and not v}
            free = [j for j in sorted({c.a[1] for c in cs} - no, reverse=True)]
            if not free:
                return None
            # the narrowest choice is a plain number type: the one tested last before the chain ends is as good as any
            k = next((j for j in free if j in PLAIN), free[0])
        if any(T.mentions(c, {x}) and c.op != 'isvar' and not T.contains(c, lambda y: y.op == 'ite') for c, v in facts):
            return None
        for c in cs:
            gates[c] = T.boolean(c.a[1] == k)
    facts = [(T.subst(c, gates), v) for c, v in facts]
    alt = [T.subst(p, gates) for p in alt]
    counts = set()
    for c in [c for c, v in facts] + list(alt):
        for y in T.subterms(c):
            if y.op == 'poly':
                for m in to_poly(y)[1]:
                    if len(m) > 1:
                        counts.update(x for x in m if x.op == 'sym')
    for n in (1, 2):
        mp = {x: num(n) for x in counts}
        fs = [(T.subst(c, mp), v) for c, v in facts]
        al = [T.subst(p, mp) for p in alt]
        if any(innermost(c) is not None for c, v in fs) or any(innermost(p) is not None for p in al):
            return None
        try:
            if system(fs, al, cap) is True:
                return True
        except Unknown:
            pass
        if not counts:
            break
    return None


PLAIN = (3, 10)         # I32, DoubleFloat in the order of the format's types


def system(facts, alt, cap):
    cons, dis, other = [linear(p) for p in alt], [], []
    facts = list(facts)
    for c, v in facts:
        neg_ = False
        while c.op == 'not':
            c, neg_ = c.a[0], not neg_
        v = bool(v) != neg_
        if c.op == 'bool':
            if bool(c.a[0]) != v:
                return False
        elif c.op == 'le0':
            p = c.a[0] if v else sub(num(1), c.a[0])
            hi = T.upper(p)
            if hi is None or hi > 0:
                cons.append(linear(p))
        elif c.op == 'eq0':
            if v:
                cons += [linear(c.a[0]), linear(neg(c.a[0]))]
            else:
                dis.append(linear(c.a[0]))
        elif not (cap is not None and v and c.op == 'call' and c.a[0] == 'alloc_ok'):     # memory for quantities of ordinary size can be had
            other.append(c)
    # the constraints that can matter
    if alt:
        rel = set()
        for k, d in cons[:len(alt)]:
            for m in d:
                for x in m:
                    rel |= leaves(x)
        while True:
            n = len(rel)
            for k, d in cons + dis:
                ls = set().union(*[leaves(x) for m in d for x in m]) if d else set()
                if ls & rel:
                    rel |= ls
            if len(rel) == n:
                break
        keep = lambda kd: not kd[1] or any(leaves(x) & rel for m in kd[1] for x in m)
        cons = [c for c in cons if keep(c)]
        dis = [c for c in dis if keep(c)]
    else:
        rel = set().union(*[leaves(x) for k, d in cons + dis for m in d for x in m]) if cons or dis else set()
    for c in other:
        if rel and T.contains(c, lambda y: y in rel) and c.op not in ('isvar',):
            raise Unknown('condition %s' % c.op)
        if T.contains(c, lambda y: y.op in ('phi', 'undef', 'bot', 'mu')):
            raise Unknown('condition over an unmodelled value')
    exact = True
    ms = {m for k, d in cons + dis for m in d}
    use = {}
    for m in ms:
        for x in m:
            if not free_atom(x):
                exact = False
            for y in leaves(x):
                use.setdefault(y, set()).add(m)
    for m in ms:
        if len(m) > 1 or m[0].op in ('div', 'rem', 'shr', 'band'):
            if any(len(use[y]) > 1 for x in m for y in leaves(x)) or len(set(m)) != len(m):
                exact = False
    for m in ms:
        lo, hi = T.mono_range(m)
        if cap is not None:
            lo = -cap if lo is None else max(lo, -cap)
            hi = cap if hi is None else min(hi, cap)
        if lo is not None:
            cons.append((lo, {m: -1}))
        if hi is not None:
            cons.append((-hi, {m: 1}))
    if not eliminate(cons, ms):
        return False
    for k, d in dis:
        a = cons + [(1 - k, {m: -c for m, c in d.items()})]
        b = cons + [(k + 1, d)]
        if eliminate(a, ms):
            cons = a
        elif eliminate(b, ms):
            cons = b
        else:
            return False if len(dis) == 1 else None
    return True if exact else None


def st_free(st, t):
    if innermost(t) is not None:
        t2 = st.simp(t)
        if innermost(t2) is not None:
            raise Unknown('gates')
        return t2
    return t
