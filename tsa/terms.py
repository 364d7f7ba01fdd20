"""Hash-consed symbolic terms and their normal forms (a value-numbering domain).

Integers are kept as polynomials over atoms with rational-free integer coefficients; booleans as
atoms with a canonical polarity; aggregates structurally.  Nothing here executes the program: the
terms name *values at program points* as functions of the function's inputs.
"""

INT = {}
for _b in (8, 16, 32, 64, 128):
    INT['u%d' % _b] = (0, 2 ** _b - 1)
    INT['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT['n61'] = (0, 2 ** 61)
INT['usize'] = INT['u64']
INT['isize'] = INT['i64']


class Term:
    __slots__ = ('op', 'a', 'id', 'flags')

    def __repr__(self):
        return show(self)


_tab = {}
_ids = [0]
_ty = {}          # atom -> integer type name
_adt = {}         # term -> ADT path (for discriminants)


def reset():
    _tab.clear()
    _ty.clear()
    _adt.clear()
    _memo_free.clear()
    _rng.clear()
    _itec.clear()
    _res.clear()
    _eqc.clear()
    BOUND.clear()


def raw(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        _ids[0] += 1
        t.id = _ids[0]
        t.flags = None
        _tab[k] = t
    return t


def set_ty(t, name):
    if name in INT and t.op not in ('int', 'poly'):
        if t not in _ty:
            _ty[t] = name
    return t


def ty_of(t):
    return _ty.get(t)


def set_adt(t, path):
    if path is not None and t not in _adt:
        _adt[t] = path
    return t


def adt_of(t):
    return _adt.get(t)


# ---------------------------------------------------------------- integers
def num(v):
    return raw('int', v)


ZERO = None
TRUE = None


def to_poly(t):
    """-> (const, {mono(tuple of atoms): coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'poly':
        return t.a[0], dict(t.a[1])
    if t.op == 'char':
        return ord(t.a[0]), {}
    return 0, {(t,): 1}


def from_poly(c, d):
    d = {m: k for m, k in d.items() if k != 0}
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mk: tuple(x.id for x in mk[0])))
    return raw('poly', c, items)


def add(a, b):
    ca, da = to_poly(a)
    cb, db = to_poly(b)
    for m, k in db.items():
        da[m] = da.get(m, 0) + k
    return from_poly(ca + cb, da)


def neg(a):
    c, d = to_poly(a)
    return from_poly(-c, {m: -k for m, k in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ca, da = to_poly(a)
    cb, db = to_poly(b)
    da = dict(da)
    db = dict(db)
    if ca:
        da[()] = ca
    if cb:
        db[()] = cb
    out = {}
    for m1, k1 in da.items():
        for m2, k2 in db.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            out[m] = out.get(m, 0) + k1 * k2
    c = out.pop((), 0)
    return from_poly(c, out)


def is_int(t, v=None):
    return t.op == 'int' and (v is None or t.a[0] == v)


# ---------------------------------------------------------------- booleans
def boolean(b):
    return raw('bool', bool(b))


def mk_not(a):
    if a.op == 'bool':
        return boolean(not a.a[0])
    if a.op == 'not':
        return a.a[0]
    if a.op == 'le0':
        # !(p <= 0)  ==  1 - p <= 0
        return le0(sub(num(1), a.a[0]))
    if a.op == 'ite':
        return ite(a.a[0], mk_not(a.a[1]), mk_not(a.a[2]))
    return raw('not', a)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def le0(p):
    c, d = to_poly(p)
    if not d:
        return boolean(c <= 0)
    g = 0
    for k in d.values():
        g = _gcd(g, k)
    if g > 1:
        # sum k x + c <= 0  <=>  sum (k/g) x + ceil(c/g) <= 0
        c = -((-c) // g)
        d = {m: k // g for m, k in d.items()}
        p = from_poly(c, d)
    # single non-negative atom: -x + 1 <= 0 keeps; x <= 0 -> x == 0
    if len(d) == 1:
        (m, k), = d.items()
        if c == 0 and k == 1 and all(nonneg(x) for x in m):
            return eq0(p)
        if c == 1 and k == -1 and all(nonneg(x) for x in m):
            return mk_not(eq0(from_poly(0, {m: 1})))
    return raw('le0', p)


def eq0(p):
    c, d = to_poly(p)
    if not d:
        return boolean(c == 0)
    g = 0
    for k in d.values():
        g = _gcd(g, k)
    if g > 1:
        if c % g:
            return boolean(False)
        c //= g
        d = {m: k // g for m, k in d.items()}
    items = sorted(d.items(), key=lambda mk: tuple(x.id for x in mk[0]))
    if items[0][1] < 0:
        c = -c
        d = {m: -k for m, k in d.items()}
    if len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            x = m[0]
            v = -c
            if x.op == 'discr':
                return isdiscr(x, v)
            if x.op == 'b2i':
                return x.a[0] if v == 1 else mk_not(x.a[0]) if v == 0 else boolean(False)
            if x.op == 'i' and x.a[0].op == 'nm' and v in (34, 39, 47):
                return boolean(False)       # names contain no quotes and separators (text.py)
            if x.op == 'satsub' and v == 0:
                return le(x.a[0], x.a[1])
            if x.op == 'ite':
                # push through for small constants
                r = _eqite(x, v)
                if r is not None:
                    return r
            t = _ty.get(x)
            if t and not (INT[t][0] <= v <= INT[t][1]):
                return boolean(False)
    return raw('eq0', from_poly(c, d))


_eqc = {}


def _eqite(x, v):
    """(nested ite of constants) == v, as a condition; None when some leaf is not decided"""
    k = (x, v)
    if k in _eqc:
        return _eqc[k]
    out = []
    for y in x.a[1:]:
        if y.op == 'int':
            e = boolean(y.a[0] == v)
        elif y.op == 'ite':
            e = _eqite(y, v)
        else:
            e = eq0(sub(y, num(v)))
            if e.op not in ('bool', 'isvar', 'not') or e.op == 'not' and e.a[0].op not in ('isvar',):
                e = None
        if e is None:
            _eqc[k] = None
            return None
        out.append(e)
    r = ite(x.a[0], out[0], out[1])
    _eqc[k] = r
    return r


def lt(a, b):
    return le0(add(sub(a, b), num(1)))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    return eq0(sub(a, b))


VARIANTS = {}   # adt path -> [(name, discr)]


def isvar(v, idx):
    """value v is variant index idx"""
    if v.op == 'adt':
        return boolean(v.a[1] == idx)
    if v.op == 'ite':
        a, b = isvar(v.a[1], idx), isvar(v.a[2], idx)
        return ite(v.a[0], a, b)
    if v.op == 'upd':
        return isvar(v.a[0], idx)
    p = adt_of(v)
    vs = VARIANTS.get(p) if p else None
    if vs and len(vs) == 1:
        return boolean(True)
    if vs and len(vs) == 2 and idx == 1:
        # canonical polarity for two-variant enums: variant 0
        return mk_not(raw('isvar', v, 0))
    return raw('isvar', v, idx)


def isdiscr(d, val):
    v = d.a[0]
    p = adt_of(v)
    vs = VARIANTS.get(p) if p else None
    if vs:
        for i, (_, dv) in enumerate(vs):
            if dv == val:
                return isvar(v, i)
        return boolean(False)
    return raw('eq0', sub(d, num(val)))


def discr(v):
    if v.op == 'adt':
        vs = VARIANTS.get(v.a[0])
        if vs:
            return num(vs[v.a[1]][1])
        return num(v.a[1])
    if v.op == 'ite':
        return ite(v.a[0], discr(v.a[1]), discr(v.a[2]))
    if v.op == 'upd':
        return discr(v.a[0])
    return raw('discr', v)


def ite(c, a, b):
    if c.op == 'bool':
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'bool' and b.op == 'bool':
        return c if a.a[0] else mk_not(c)
    if c.op == 'ite':
        k = (c, a, b)
        r = _itec.get(k)
        if r is None:
            p, x, y = c.a
            r = ite(p, ite(x, restrict(a, p, True), restrict(b, p, True)),
                    ite(y, restrict(a, p, False), restrict(b, p, False)))
            _itec[k] = r
        if r.op == 'ite':
            ty = _ty.get(a) or _ty.get(b)
            if ty and _ty.get(a, ty) == ty and _ty.get(b, ty) == ty:
                set_ty(r, ty)
        return r
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if a.op == 'bool' and b.op == 'bool':
        return c if a.a[0] else mk_not(c)
    return raw('ite', c, a, b)


_itec = {}
_res = {}


def restrict(t, c, v):
    """t under the assumption that condition c has value v (follows the decision chain only)"""
    if t is c:
        return boolean(v)
    if t.op != 'ite':
        if t.op == 'not' and t.a[0] is c:
            return boolean(not v)
        return t
    k = (t, c, v)
    r = _res.get(k)
    if r is None:
        if t.a[0] is c:
            r = restrict(t.a[1] if v else t.a[2], c, v)
        else:
            x, y = restrict(t.a[1], c, v), restrict(t.a[2], c, v)
            r = t if x is t.a[1] and y is t.a[2] else ite(t.a[0], x, y)
            if r is not t and r.op == 'ite':
                if t in _ty:
                    set_ty(r, _ty[t])
                if t in _adt:
                    set_adt(r, _adt[t])
        _res[k] = r
    return r


# ---------------------------------------------------------------- ranges
def nonneg(x):
    if x.op in ('len', 'N', 'count', 'min', 'size_of', 'satsub', 'b2i', 'SIZE'):
        if x.op == 'min':
            return all(lower(y) is not None and lower(y) >= 0 for y in x.a)
        return True
    t = _ty.get(x)
    if t:
        return t[0] == 'u'
    if x.op in ('div', 'rem', 'band', 'shr', 'bor', 'sum', 'max'):
        return all((lower(y) or -1) >= 0 or is_int(y) and y.a[0] >= 0 for y in x.a if isinstance(y, Term))
    return False


def lower(t):
    """a constant lower bound or None"""
    if t.op == 'int':
        return t.a[0]
    if t.op != 'poly':
        return atom_range(t)[0]
    s = t.a[0]
    for m, k in t.a[1]:
        lo, hi = mono_range(m)
        x = lo if k > 0 else hi
        if x is None:
            return None
        s += k * x
    return s


def upper(t):
    """a constant upper bound or None"""
    if t.op == 'int':
        return t.a[0]
    if t.op != 'poly':
        return atom_range(t)[1]
    s = t.a[0]
    for m, k in t.a[1]:
        lo, hi = mono_range(m)
        x = hi if k > 0 else lo
        if x is None:
            return None
        s += k * x
    return s


_rng = {}


BOUND = {}


def atom_range(x):
    if x in BOUND:
        return BOUND[x]
    if x.op == 'ite':
        r = _rng.get(x)
        if r is None:
            r = _atom_range(x)
            t = _ty.get(x)
            if t:
                lo, hi = INT[t]
                r = (lo if r[0] is None else max(lo, r[0]), hi if r[1] is None else min(hi, r[1]))
            _rng[x] = r
        return r
    return _atom_range(x)


def _atom_range(x):
    if x.op == 'int':
        return x.a[0], x.a[0]
    if x.op == 'b2i':
        return 0, 1
    if x.op == 'ite':
        a, b = (lower(x.a[1]), upper(x.a[1])), (lower(x.a[2]), upper(x.a[2]))
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return lo, hi
    if x.op == 'i' and x.a[0].op == 'seq' and x.a[0].a[0] and all(y.op in ('int', 'poly', 'b2i') for y in x.a[0].a[0]):
        los, his = [lower(y) for y in x.a[0].a[0]], [upper(y) for y in x.a[0].a[0]]
        return (None if None in los else min(los)), (None if None in his else max(his))
    t = _ty.get(x)
    if x.op == 'trunc':
        return INT[x.a[0]]
    if x.op == 'len':
        return (1, 2 ** 40) if x.a[0].op == 'nm' else (0, 2 ** 63 - 1)
    if x.op == 'N':
        return 0, None
    if x.op == 'min':
        his = [upper(y) for y in x.a]
        los = [lower(y) for y in x.a]
        his = [h for h in his if h is not None]
        lo = None if any(l is None for l in los) else min(los)
        if t:
            his.append(INT[t][1])
        return lo, (min(his) if his else None)
    if x.op == 'rem' and is_int(x.a[1]) and x.a[1].a[0] > 0:
        return 0, x.a[1].a[0] - 1
    if x.op == 'band':
        for y in x.a:
            if is_int(y) and y.a[0] >= 0:
                return 0, y.a[0]
    if t:
        return INT[t]
    if x.op in ('SIZE', 'size_of'):
        return 0, 2 ** 63 - 1
    if nonneg(x):
        return 0, None
    return None, None


def mono_range(m):
    lo, hi = 1, 1
    for x in m:
        l, h = atom_range(x)
        if l is None or l < 0:
            if len(m) == 1:
                return l, h
            return None, None
        lo = lo * l
        hi = None if h is None or hi is None else hi * h
    return lo, hi


# ---------------------------------------------------------------- generic traversal
def tmap(f, x):
    """apply f to every Term directly inside x (tuples are traversed)"""
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(tmap(f, y) for y in x)
    return x


def subterms(t, seen=None):
    """all distinct sub-terms (including t)"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.a)
    return seen


_memo_free = {}


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, s):
    """does t contain any of the terms in set s"""
    if all(x.op in LEAFOPS for x in s):
        return not leaves(t).isdisjoint(s)
    return any(x in s for x in subterms(t))


REBUILD = {}
LEAFOPS = ('K', 'bv', 'mu')
_EMPTY = frozenset()


def leaves(x):
    """the loop indices, bound variables and loop-carried atoms occurring in a term"""
    if isinstance(x, tuple):
        r = _EMPTY
        for y in x:
            if isinstance(y, (tuple, Term)):
                l = leaves(y)
                if l:
                    r = r | l if r else l
        return r
    if x.flags is not None:
        return x.flags
    r = _EMPTY
    for y in x.a:
        if isinstance(y, (tuple, Term)):
            l = leaves(y)
            if l:
                r = l if not r or r <= l else r | l
    if x.op in LEAFOPS:
        r = r | {x}
    x.flags = r
    return r


def rebuild(op, args, orig=None):
    f = REBUILD.get(op)
    if f is not None:
        r = f(*args)
    else:
        r = raw(op, *args)
    if orig is not None and r is not orig:
        ty = _ty.get(orig)
        if ty and r.op not in ('int', 'poly') and r not in _ty:
            _ty[r] = ty
        ad = _adt.get(orig)
        if ad and r not in _adt:
            _adt[r] = ad
    return r


def subst(t, mp, memo=None):
    """simultaneous substitution, rebuilding through the smart constructors"""
    if not mp:
        return t
    memo = {} if memo is None else memo
    quick = None
    if all(k.op in LEAFOPS for k in mp):
        quick = frozenset(mp)

    def go(x):
        if x in mp:
            return mp[x]
        if quick is not None and quick.isdisjoint(leaves(x)):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('int', 'bool', 'str', 'sym', 'fn'):
            r = x
        else:
            na = tmap(go, x.a)
            r = x if na == x.a else rebuild(x.op, na, x)
        memo[x] = r
        return r
    return tmap(go, t)


def _rb_poly(c, items):
    acc = num(c)
    for m, k in items:
        t = num(k)
        for x in m:
            t = mul(t, x)
        acc = add(acc, t)
    return acc


REBUILD['poly'] = _rb_poly
REBUILD['le0'] = le0
REBUILD['eq0'] = eq0
REBUILD['not'] = mk_not
REBUILD['isvar'] = isvar
REBUILD['discr'] = discr
REBUILD['ite'] = ite


# ---------------------------------------------------------------- bit/arith helpers
def band(a, b):
    if is_int(a) and is_int(b):
        return num(a.a[0] & b.a[0])
    if is_int(a, 0) or is_int(b, 0):
        return num(0)
    parts = []
    for x in (a, b):
        parts.extend(x.a if x.op == 'band' else (x,))
    const = None
    rest = set()
    for x in parts:
        if is_int(x):
            const = x.a[0] if const is None else const & x.a[0]
        else:
            rest.add(x)
    out = sorted(rest, key=lambda t: t.id)
    if const is not None:
        out.append(num(const))
    if len(out) == 1:
        return out[0]
    return raw('band', *out)


def bor(a, b):
    if is_int(a) and is_int(b):
        return num(a.a[0] | b.a[0])
    if is_int(a, 0):
        return b
    if is_int(b, 0):
        return a
    parts = []
    for x in (a, b):
        parts.extend(x.a if x.op == 'bor' else (x,))
    const = 0
    rest = set()
    for x in parts:
        if is_int(x):
            const |= x.a[0]
        else:
            rest.add(x)
    out = sorted(rest, key=lambda t: t.id)
    if const:
        out.append(num(const))
    if len(out) == 1:
        return out[0]
    return raw('bor', *out)


def div(a, b):
    if is_int(a) and is_int(b) and b.a[0] != 0 and a.a[0] >= 0 and b.a[0] > 0:
        return num(a.a[0] // b.a[0])
    if is_int(b, 1):
        return a
    if is_int(a, 0):
        return a        # the division does not return otherwise
    q = quotient(a, b)
    if q is not None:
        return num(q)
    x = exact(a, b)
    if x is not None:
        return x[0]
    return raw('div', a, b)


def exact(a, b):
    """a = b*p + r with an integer b and 0 <= r < b -> (p, r)"""
    if b.op != 'int' or b.a[0] <= 1 or a.op != 'poly':
        return None
    c, d = to_poly(a)
    if any(k % b.a[0] for k in d.values()):
        return None
    l = lower(a)
    if l is None or l < 0:
        return None
    return from_poly(c // b.a[0], {m: k // b.a[0] for m, k in d.items()}), num(c % b.a[0])


def quotient(a, b):
    """the integer q with q*b <= a < (q+1)*b, when the ranges of the terms show it"""
    if b.op not in ('poly', 'sym', 'int', 'max', 'min', 'cst', 'cnt', 'len'):
        return None
    (ca, da), (cb, db) = to_poly(a), to_poly(b)
    if not da and not db:
        return None
    qs = {0}
    for m, k in db.items():
        if k:
            q = da.get(m, 0) // k
            qs.update((q - 1, q))
    for q in sorted(qs):
        if q < 0 or q > 64:
            continue
        d = sub(a, mul(num(q), b))
        l, u = lower(d), upper(sub(d, b))
        if l is not None and l >= 0 and u is not None and u < 0:
            return q
    return None


def rem(a, b):
    if is_int(a) and is_int(b) and b.a[0] > 0 and a.a[0] >= 0:
        return num(a.a[0] % b.a[0])
    if is_int(b, 1) or is_int(a, 0):
        return num(0)
    q = quotient(a, b)
    if q is not None:
        return sub(a, mul(num(q), b))
    x = exact(a, b)
    if x is not None:
        return x[1]
    return raw('rem', a, b)


def mk_min(a, b):
    if a is b:
        return a
    l = lower(sub(a, b))
    if l is not None and l >= 0:
        return b
    l = lower(sub(b, a))
    if l is not None and l >= 0:
        return a
    parts = set()
    for x in (a, b):
        parts |= set(x.a) if x.op == 'min' else {x}
    r = raw('min', *sorted(parts, key=lambda t: t.id))
    for x in (a, b):
        if ty_of(x):
            set_ty(r, ty_of(x))
    return r


def mk_max(a, b):
    if a is b:
        return a
    l = lower(sub(a, b))
    if l is not None and l >= 0:
        return a
    l = lower(sub(b, a))
    if l is not None and l >= 0:
        return b
    parts = set()
    for x in (a, b):
        parts |= set(x.a) if x.op == 'max' else {x}
    r = raw('max', *sorted(parts, key=lambda t: t.id))
    for x in (a, b):
        if ty_of(x):
            set_ty(r, ty_of(x))
    return r


def satsub(a, b):
    """saturating subtraction of unsigned values"""
    d = sub(a, b)
    l = lower(d)
    if l is not None and l >= 0:
        return d
    u = upper(d)
    if u is not None and u <= 0:
        return num(0)
    # b = min(.., a, ..) <= a
    if b.op == 'min' and a in b.a:
        return d
    return raw('satsub', a, b)


def trunc(ty, x):
    lo, hi = INT[ty]
    if is_int(x):
        v = x.a[0]
        w = hi - lo + 1
        v = (v - lo) % w + lo
        return num(v)
    l, u = lower(x), upper(x)
    if l is not None and u is not None and lo <= l and u <= hi:
        return x
    r = raw('trunc', ty, x)
    set_ty(r, ty)
    return r


def shl(a, b):
    if is_int(a) and is_int(b):
        return num(a.a[0] << b.a[0])
    if is_int(b):
        return mul(a, num(1 << b.a[0]))
    return raw('shl', a, b)


def shr(a, b):
    if is_int(a) and is_int(b):
        return num(a.a[0] >> b.a[0])
    if is_int(b, 0):
        return a
    return raw('shr', a, b)


REBUILD['shl'] = shl
REBUILD['shr'] = shr


def b2i(b):
    if b.op == 'bool':
        return num(1 if b.a[0] else 0)
    if b.op == 'not':
        return sub(num(1), b2i(b.a[0]))
    return raw('b2i', b)


def mk_sum(n, body, bv):
    """sum_{0<=bv<n} body  (bv is the bound-variable term occurring in body)"""
    if not mentions(body, {bv}):
        return mul(n, body)
    c, d = to_poly(body)
    acc = mul(n, num(c))
    for m, k in d.items():
        dep = [x for x in m if mentions(x, {bv})]
        ind = [x for x in m if not mentions(x, {bv})]
        if not dep:
            t = n
        else:
            inner = from_poly(0, {tuple(dep): 1})
            if inner is bv:
                t = raw('tri', n)      # 0+1+..+(n-1)
            else:
                t = raw('sum', n, inner, bv)
        for x in ind:
            t = mul(t, x)
        acc = add(acc, mul(num(k), t))
    return acc


REBUILD['band'] = lambda *a: _fold(band, a)
REBUILD['bor'] = lambda *a: _fold(bor, a)
REBUILD['min'] = lambda *a: _fold(mk_min, a)
REBUILD['max'] = lambda *a: _fold(mk_max, a)
REBUILD['div'] = div
REBUILD['rem'] = rem
REBUILD['satsub'] = satsub
REBUILD['trunc'] = trunc
REBUILD['b2i'] = b2i
REBUILD['sum'] = lambda n, body, bv: mk_sum(n, body, bv)


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth > 14:
        return '…'
    op, a = t.op, t.a
    s = lambda x: show(x, depth + 1)
    if op == 'int':
        return str(a[0]) if abs(a[0]) < 2 ** 33 else hex(a[0])
    if op == 'bool':
        return 'true' if a[0] else 'false'
    if op == 'str':
        return repr(a[0])
    if op == 'sym':
        return str(a[0])
    if op == 'poly':
        out = []
        for m, k in a[1]:
            mm = '*'.join(s(x) for x in m)
            out.append(('%s' % mm) if k == 1 else ('-%s' % mm) if k == -1 else '%d*%s' % (k, mm))
        if a[0]:
            out.append(str(a[0]))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if op == 'le0':
        return '%s<=0' % s(a[0])
    if op == 'eq0':
        return '%s==0' % s(a[0])
    if op == 'not':
        return '!' + s(a[0])
    if op == 'isvar':
        p = adt_of(a[0])
        vs = VARIANTS.get(p)
        return '%s is %s' % (s(a[0]), vs[a[1]][0] if vs else a[1])
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(s(x) for x in a)
    if op == 'adt':
        vs = VARIANTS.get(a[0])
        nm = a[0].split('::')[-1]
        if vs and len(vs) > 1:
            nm = vs[a[1]][0]
        return nm + ('{' + ', '.join(s(x) for x in a[2]) + '}' if a[2] else '')
    if op == '*':
        return '*' + s(a[0])
    if op == 'f':
        return '%s.%d' % (s(a[0]), a[1])
    if op == 'v':
        p = adt_of(a[0])
        vs = VARIANTS.get(p)
        return '%s@%s.%d' % (s(a[0]), vs[a[1]][0] if vs else a[1], a[2])
    if op == 'i':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'k':
        return '%s{%s}' % (s(a[0]), s(a[1]))
    if op == 's':
        return '%s[%s..%s]' % (s(a[0]), s(a[1]), s(a[2]) if a[2] is not None else '')
    if op == 'ref':
        return '&' + show_place(a[0], depth + 1)
    if op == 'N':
        return 'N#%s' % short_loop(a[0])
    if op == 'mu':
        return 'mu#%s' % short_loop(a[0])
    if op == 'ev':
        return 'ev<%s@%s>' % (a[0].split('::')[-1], short_cp(a[1])) + (('(' + ','.join(s(x) for x in a[2]) + ')') if a[2] else '') + ('' if a[3] is None else '.%s' % (a[3],))
    if op == 'call':
        return '%s(%s)' % (a[0].split('::')[-1] if '<' not in a[0] else a[0][-40:], ', '.join(s(x) for x in a[2]))
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, (Term, tuple)) else str(x) for x in a))


def show_place(pl, depth=0):
    root, projs = pl
    if root[0] == 'O':
        b = '(*%s)' % show(root[1], depth)
    else:
        b = '%s%s' % (root[0], ':'.join(short_cp(x) if isinstance(x, CP) else str(x) for x in root[1:]))
    for p in projs:
        if p[0] == 'f':
            b += '.%d' % p[1]
        elif p[0] == 'v':
            b += '@%d.%d' % (p[1], p[2])
        elif p[0] == 'i':
            b += '[%s]' % show(p[1], depth)
        elif p[0] == 'k':
            b += '{%s}' % show(p[1], depth)
        elif p[0] == 's':
            b += '[%s..%s]' % (show(p[1], depth), show(p[2], depth) if p[2] is not None else '')
    return b


class CP:
    """interned call path: a chain of call sites"""
    __slots__ = ('parent', 'site', 'id', 'depth')
    tab = {}

    @staticmethod
    def get(parent, site):
        k = (parent, site)
        c = CP.tab.get(k)
        if c is None:
            c = CP()
            c.parent, c.site = parent, site
            c.depth = 0 if parent is None else parent.depth + 1
            c.id = len(CP.tab)
            CP.tab[k] = c
        return c

    def __repr__(self):
        return short_cp(self)

    def chain(self):
        out = []
        c = self
        while c is not None:
            out.append(c.site)
            c = c.parent
        return out[::-1]


def short_cp(c):
    if isinstance(c, CP):
        return str(c.id)
    return str(c)


def short_loop(x):
    if isinstance(x, CP):
        return str(x.id)
    return str(x)
