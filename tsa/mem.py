"""Memory: places, projection and update on structural value terms."""
from .terms import *
from . import terms as T

SEQ = ('seq', 'cat', 'comp', 'rep', 'fill', 's', 'str', 'le_bytes', 'be_bytes')
LEN = {}          # opaque term -> constant length (array types)


def reset_mem():
    LEN.clear()


def adt(path, v, fields):
    return raw('adt', path, v, tuple(fields))


UNIT = None


def unit():
    return adt('()', 0, ())


def tup(*xs):
    return adt('()', 0, xs)


def seq(*xs):
    if len(xs) > 1 and xs[0].op == 'i' and xs[0].a[1].op == 'int':
        b, k0 = xs[0].a[0], xs[0].a[1].a[0]
        if all(x.op == 'i' and x.a[0] is b and x.a[1].op == 'int' and x.a[1].a[0] == k0 + j for j, x in enumerate(xs)):
            n = length(b)
            if n.op == 'int' and k0 + len(xs) <= n.a[0]:
                return b if k0 == 0 and n.a[0] == len(xs) else slice_(b, num(k0), num(k0 + len(xs)))
    return raw('seq', tuple(xs))


def none():
    return adt('core::option::Option', 0, ())


def some(x):
    return adt('core::option::Option', 1, (x,))


def ok(x):
    return adt('core::result::Result', 0, (x,))


def err(x):
    return adt('core::result::Result', 1, (x,))


def ref(place):
    return mk_ref(place)


def mk_ref(place):
    root, projs = place
    if root[0] == 'O':
        p = root[1]
        if p.op == 'ref':
            r2, pr2 = p.a[0]
            return mk_ref((r2, join(pr2, projs)))
        if p.op == 'ite' and False:
            return ite(p.a[0], mk_ref((('O', p.a[1]), projs)), mk_ref((('O', p.a[2]), projs)))
        if not projs:
            return p
    return raw('ref', (root, norm_projs(projs)))


def place_of(v):
    """the place a pointer value designates"""
    if v.op == 'ref':
        return v.a[0]
    return (('O', v), ())


def add_proj(projs, p):
    """append one projection, folding slice-of-slice and index-of-slice"""
    if projs and projs[-1][0] == 's' and p[0] in ('i', 's'):
        _, lo, hi = projs[-1]
        if p[0] == 'i':
            return projs[:-1] + (('i', add(lo, p[1])),)
        lo2, hi2 = p[1], p[2]
        nh = hi if hi2 is None else add(lo, hi2)
        return add_proj(projs[:-1], ('s', add(lo, lo2), nh))
    if p[0] == 's' and is_int(p[1], 0) and p[2] is None:
        return projs
    return projs + (p,)


def join(a, b):
    for p in b:
        a = add_proj(a, p)
    return a


def norm_projs(ps):
    return join((), ps)


def length(v):
    op, a = v.op, v.a
    if op == 'seq':
        return num(len(a[0]))
    if op == 'rep':
        return a[1]
    if op == 'comp':
        return a[0]
    if op == 'fill':
        return length(a[0])
    if op == 'fcomp':
        n, bv, body, cond = a
        return mk_sum(n, b2i(cond), bv)
    if op == 'cat':
        r = num(0)
        for x in a:
            r = add(r, length(x))
        return r
    if op == 'str':
        return num(len(a[0].encode('utf-8')))
    if op in ('le_bytes', 'be_bytes', 'rdbytes', 'uninit'):
        return a[1]
    if op == 'sorted':
        return length(a[1])
    if op == 'upd':
        return length(a[0])
    if op == 's':
        base, lo, hi = a
        return sub(hi if hi is not None else length(base), lo)
    if op == 'ite':
        return ite_int(a[0], length(a[1]), length(a[2]))
    if v in LEN:
        return num(LEN[v])
    r = raw('len', v)
    return set_ty(r, 'usize')


def ite_int(c, a, b):
    if a is b:
        return a
    r = ite(c, a, b)
    if r.op == 'ite':
        set_ty(r, 'usize')
    return r


def cat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat':
            out.extend(x.a)
        else:
            out.append(x)
    out2 = []
    for x in out:
        if x.op == 'seq' and not x.a[0]:
            continue
        if x.op == 'str' and not x.a[0]:
            continue
        if x.op == 'rep' and T.is_int(x.a[1], 0):
            continue
        if out2 and x.op == 'seq' and out2[-1].op == 'seq':
            out2[-1] = seq(*(out2[-1].a[0] + x.a[0]))
        elif out2 and x.op == 'str' and out2[-1].op == 'str':
            out2[-1] = raw('str', out2[-1].a[0] + x.a[0])
        else:
            out2.append(x)
    if not out2:
        return seq()
    if len(out2) == 1:
        return out2[0]
    return raw('cat', *out2)


_bvd = {}


def bv_depth(x):
    """max bound-variable index used in x"""
    best = 0
    for t in leaves(x):
        if t.op == 'bv' and t.a[0] > best:
            best = t.a[0]
    return best


def bind(body, K):
    """close body over K -> (bv, body')"""
    b = raw('bv', bv_depth(body) + 1)
    ty = ty_of(K)
    if ty:
        set_ty(b, ty)
    if body is K:
        return b, b
    return b, subst(body, {K: b}) if not isinstance(body, tuple) else tuple(subst(x, {K: b}) for x in body)


def comp(n, body, K):
    if is_int(n) and n.a[0] <= 0:
        return seq()
    if is_int(n) and n.a[0] <= 8:
        return seq(*[subst(body, {K: num(j)}) for j in range(n.a[0])])
    b, bd = bind(body, K)
    return mk_comp(n, b, bd)


def mk_comp(n, bv, body):
    if is_int(n) and n.a[0] <= 8:
        return seq(*[subst(body, {bv: num(j)}) for j in range(max(0, n.a[0]))])
    if bv not in leaves(body):
        return raw('rep', body, n)
    # identity copy  [x[0..n]] of a sequence with n == len(x)
    if body.op == 'i' and body.a[1] is bv and bv not in leaves(body.a[0]) and length(body.a[0]) is n:
        return body.a[0]
    return raw('comp', n, bv, body)


def fcomp(n, bv, body, cond):
    if cond.op == 'bool':
        return mk_comp(n, bv, body) if cond.a[0] else seq()
    return raw('fcomp', n, bv, body, cond)


def const_cmp(a, b):
    """a <= b for terms if decidable from ranges"""
    d = sub(a, b)
    u = upper(d)
    if u is not None and u <= 0:
        return True
    l = lower(d)
    if l is not None and l > 0:
        return False
    return None


def index(v, k):
    op, a = v.op, v.a
    if op == 'seq':
        if is_int(k) and 0 <= k.a[0] < len(a[0]):
            return a[0][k.a[0]]
        if a[0] and all(x is a[0][0] for x in a[0]):
            return a[0][0]
    elif op == 'rep':
        return a[0]
    elif op == 'bytes' and is_int(a[2]) and is_int(k) and a[1][1:].isdigit():
        w = int(a[1][1:]) // 8
        if 0 <= k.a[0] < w:
            return num(a[2].a[0] >> 8 * (k.a[0] if a[0] == 'le' else w - 1 - k.a[0]) & 255)
    elif op == 'comp':
        return subst(a[2], {a[1]: k})
    elif op == 'fill':
        init, n, bv, body = a
        r = const_cmp(add(k, num(1)), n)
        if r is True:
            return subst(body, {bv: k})
        if r is False:
            return index(init, k)
        return ite(lt(k, n), subst(body, {bv: k}), index(init, k))
    elif op == 'cat':
        off = num(0)
        for x in a:
            n = length(x)
            end = add(off, n)
            r = const_cmp(add(k, num(1)), end)
            if r is True:
                return index(x, sub(k, off))
            if r is None:
                # undecided between x and the rest
                rest = cat(*a[list(a).index(x) + 1:]) if list(a).index(x) + 1 < len(a) else None
                if rest is None:
                    return index(x, sub(k, off))
                break
            off = end
    elif op == 's':
        return index(a[0], add(a[1], k))
    elif op == 'ite':
        return ite(a[0], index(a[1], k), index(a[2], k))
    elif op == 'upd':
        base, p, new = a
        if p[0] == 'i':
            if p[1] is k:
                return new
            d = sub(p[1], k)
            c = eq0(d)
            if c.op == 'bool':
                return index(base, k)
            lo, up = lower(d), upper(d)
            if (lo is not None and lo > 0) or (up is not None and up < 0):
                return index(base, k)
            return ite(c, new, index(base, k))
        if p[0] == 's':
            lo, hi = p[1], p[2]
            inlo = const_cmp(lo, k)
            inhi = True if hi is None else const_cmp(add(k, num(1)), hi)
            if inlo is False or inhi is False:
                return index(base, k)
            if inlo and inhi:
                return index(new, sub(k, lo))
            c = le(lo, k)
            if hi is not None:
                c = ite(c, lt(k, hi), boolean(False))
            return ite(c, index(new, sub(k, lo)), index(base, k))
    elif op == 'str':
        b = a[0].encode()
        if is_int(k) and 0 <= k.a[0] < len(b):
            return num(b[k.a[0]])
    return raw('i', v, k)


def slice_(v, lo, hi):
    n = length(v)
    if is_int(lo, 0) and (hi is None or hi is n):
        return v
    if hi is None:
        hi_t = n
    else:
        hi_t = hi
    if v.op == 'seq' and is_int(lo) and is_int(hi_t):
        return seq(*v.a[0][lo.a[0]:hi_t.a[0]])
    if v.op == 'str' and is_int(lo) and is_int(hi_t):
        try:
            return raw('str', v.a[0].encode()[lo.a[0]:hi_t.a[0]].decode())
        except UnicodeDecodeError:
            pass
    if v.op == 'rep':
        return raw('rep', v.a[0], sub(hi_t, lo))
    if v.op == 'cat':
        # drop whole leading/trailing pieces when decidable
        parts = list(v.a)
        off = num(0)
        out = []
        okk = True
        for x in parts:
            n1 = length(x)
            end = add(off, n1)
            if const_cmp(end, lo) is True or const_cmp(hi_t, off) is True:
                off = end
                continue
            a = const_cmp(lo, off)
            b = const_cmp(end, hi_t)
            if a is None or b is None:
                okk = False
                break
            l2 = num(0) if a else sub(lo, off)
            h2 = None if b else sub(hi_t, off)
            out.append(slice_(x, l2, h2))
            off = end
        if okk:
            return cat(*out)
    if v.op == 's':
        base, l0, h0 = v.a
        return slice_(base, add(l0, lo), h0 if hi is None else add(l0, hi))
    if v.op == 'ite':
        return ite(v.a[0], slice_(v.a[1], lo, hi), slice_(v.a[2], lo, hi))
    if hi is n:
        hi = None
    return raw('s', v, lo, hi)


def project(v, p):
    k = p[0]
    op = v.op
    if k == 'i':
        return index(v, p[1])
    if k == 's':
        return slice_(v, p[1], p[2])
    if k == 'k':
        return map_get(v, p[1])
    if op == 'adt':
        if k == 'f':
            if p[1] < len(v.a[2]):
                return v.a[2][p[1]]
        elif k == 'v':
            if v.a[1] == p[1] and p[2] < len(v.a[2]):
                return v.a[2][p[2]]
            return raw('bot')
    elif op == 'clo' and k == 'f':
        return v.a[1][p[1]]
    elif op == 'ite':
        if k == 'v':
            a, b = isvar(v.a[1], p[1]), isvar(v.a[2], p[1])
            if a.op == 'bool' and not a.a[0]:
                return project(v.a[2], p)
            if b.op == 'bool' and not b.a[0]:
                return project(v.a[1], p)
        return ite(v.a[0], project(v.a[1], p), project(v.a[2], p))
    elif op == 'upd':
        base, q, new = v.a
        if q == p:
            return new
        if q[0] == k and q[0] in ('f', 'v'):
            return project(base, p)
    if k == 'f':
        if op == 'i' and v.a[0].op == 'seq' and 0 < len(v.a[0].a[0]) <= 64 and all(x.op == 'adt' and p[1] < len(x.a[2]) for x in v.a[0].a[0]):
            return index(raw('seq', tuple(x.a[2][p[1]] for x in v.a[0].a[0]), *v.a[0].a[1:]), v.a[1])
        return raw('f', v, p[1])
    if k == 'v':
        return raw('v', v, p[1], p[2])
    raise ValueError(p)


def map_get(m, key):
    if m.op == 'omap':
        r = raw('k', raw('mempty'), key)
        for k, x in reversed(m.a[0]):
            r = ite(veq(k, key), x, r)
        return r
    if m.op == 'minsert':
        base, k2, val = m.a
        if k2 is key:
            return val
        c = veq(k2, key)
        return ite(c, val, map_get(base, key))
    if m.op == 'ite':
        return ite(m.a[0], map_get(m.a[1], key), map_get(m.a[2], key))
    if m.op == 'upd':
        base, q, new = m.a
        if q[0] == 'k':
            if q[1] is key:
                return new
            return ite(veq(q[1], key), new, map_get(base, key))
    return raw('k', m, key)


def map_has(m, key):
    if m.op == 'omap':
        r = boolean(False)
        for k, x in m.a[0]:
            r = ite(veq(k, key), boolean(True), r)
        return r
    if m.op == 'mempty':
        return boolean(False)
    if m.op == 'minsert':
        base, k2, _ = m.a
        if k2 is key:
            return boolean(True)
        return ite(veq(k2, key), boolean(True), map_has(base, key))
    if m.op == 'upd' and m.a[1][0] == 'k':
        return map_has(m.a[0], key)
    if m.op == 'ite':
        return ite(m.a[0], map_has(m.a[1], key), map_has(m.a[2], key))
    return raw('has', m, key)


def adt_leaf(t):
    while t.op == 'ite':
        if t.a[1].op == 'adt' or t.a[1].op == 'ite' and adt_leaf(t.a[1]):
            return True
        t = t.a[2]
    return t.op == 'adt'


TEXT_EQ = []


def veq(a, b):
    """structural equality of two values"""
    if a is b:
        return boolean(True)
    if a.op in ('str', 'cat', 'nm', 'fmttext') or b.op in ('str', 'cat', 'nm', 'fmttext'):
        for f in TEXT_EQ:
            r = f(a, b)
            if r is not None:
                return r
    if a.op == b.op and a.op in ('str', 'char'):
        return boolean(a.a[0] == b.a[0])
    if a.op in ('int', 'poly', 'char') or b.op in ('int', 'poly', 'char') or ty_of(a) or ty_of(b):
        return eq(a, b)
    if a.op == 'adt' and b.op == 'adt':
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return boolean(False)
            r = boolean(True)
            for x, y in zip(a.a[2], b.a[2]):
                r = and_(r, veq(x, y))
            return r
    if b.op == 'adt' and a.op != 'adt':
        a, b = b, a
    if a.op == 'adt' and b.op == 'ite' and a.a[2] and adt_leaf(b):
        return ite(b.a[0], veq(a, b.a[1]), veq(a, b.a[2]))
    if a.op == 'adt' and a.a[0] != '()':
        vs = T.VARIANTS.get(a.a[0])
        if vs and len(vs) > 1 and not a.a[2]:
            set_adt(b, a.a[0])
            return isvar(b, a.a[1])
        if not a.a[0].startswith('#'):
            r = isvar(b, a.a[1]) if vs and len(vs) > 1 else boolean(True)
            for j, x in enumerate(a.a[2]):
                pj = ('v', a.a[1], j) if vs and len(vs) > 1 else ('f', j)
                r = and_(r, veq(x, project(b, pj)))
            return r
    if a.op == 'ite':
        return ite(a.a[0], veq(a.a[1], b), veq(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], veq(a, b.a[1]), veq(a, b.a[2]))
    if a.op == 'bool' or b.op == 'bool':
        if a.op == 'bool':
            a, b = b, a
        return a if b.a[0] else mk_not(a)
    if a.op == 'seq' and b.op == 'seq' and len(a.a[0]) == len(b.a[0]):
        r = boolean(True)
        for x, y in zip(a.a[0], b.a[0]):
            r = and_(r, veq(x, y))
        return r
    la, lb = (length(a) if a.op in SEQ else None), (length(b) if b.op in SEQ else None)
    if la is not None and lb is not None and is_int(la) and is_int(lb) and la is not lb:
        return boolean(False)
    if a.id > b.id:
        a, b = b, a
    return raw('veq', a, b)


def and_(a, b):
    if a.op == 'bool':
        return b if a.a[0] else a
    if b.op == 'bool':
        return a if b.a[0] else b
    if a is b:
        return a
    return ite(a, b, boolean(False))


def or_(a, b):
    return mk_not2(and_(mk_not2(a), mk_not2(b)))


def mk_not2(c):
    if c.op == 'ite':
        return ite(c.a[0], mk_not2(c.a[1]), mk_not2(c.a[2]))
    return mk_not(c)


def set_proj(v, p, new):
    if v.op == 'adt' and p[0] == 'f' and p[1] < len(v.a[2]):
        fs = list(v.a[2])
        fs[p[1]] = new
        return raw('adt', v.a[0], v.a[1], tuple(fs))
    if v.op == 'adt' and p[0] == 'v' and v.a[1] == p[1] and p[2] < len(v.a[2]):
        fs = list(v.a[2])
        fs[p[2]] = new
        return raw('adt', v.a[0], v.a[1], tuple(fs))
    if v.op == 'clo' and p[0] == 'f':
        fs = list(v.a[1])
        fs[p[1]] = new
        return raw('clo', v.a[0], tuple(fs))
    if v.op == 'seq' and p[0] == 'i' and is_int(p[1]) and 0 <= p[1].a[0] < len(v.a[0]):
        fs = list(v.a[0])
        fs[p[1].a[0]] = new
        return seq(*fs)
    if p[0] == 's':
        n = length(v)
        lo, hi = p[1], (n if p[2] is None else p[2])
        if is_int(n) and is_int(lo) and is_int(hi):
            return cat(slice_(v, num(0), lo), new, slice_(v, hi, None))
    if v.op == 'upd' and v.a[1] == p:
        v = v.a[0]
    if project(v, p) is new:
        return v
    r = raw('upd', v, p, new)
    a = adt_of(v)
    if a:
        set_adt(r, a)
    return r


def upd_val(v, projs, val):
    if not projs:
        return val
    p = projs[0]
    if v.op == 'ite' and p[0] in ('f', 'v'):
        pass
    subv = project(v, p)
    return set_proj(v, p, upd_val(subv, projs[1:], val))


def all_(n, bv, cond):
    if cond.op == 'bool':
        if cond.a[0]:
            return boolean(True)
        return eq0(n)
    if is_int(n, 0):
        return boolean(True)
    if cond.op == 'ite' and cond.a[2].op == 'bool' and not cond.a[2].a[0]:
        return and_(all_(n, bv, cond.a[0]), all_(n, bv, cond.a[1]))
    if not mentions(cond, {bv}):
        return or_(cond, eq0(n))
    if is_int(n) and n.a[0] <= 8:
        r = boolean(True)
        for j in range(n.a[0]):
            r = and_(r, subst(cond, {bv: num(j)}))
        return r
    return raw('all', n, bv, cond)


REBUILD['cat'] = cat
REBUILD['comp'] = mk_comp
REBUILD['fcomp'] = fcomp
REBUILD['ref'] = mk_ref
REBUILD['f'] = lambda v, i: project(v, ('f', i))
REBUILD['v'] = lambda v, i, j: project(v, ('v', i, j))
REBUILD['i'] = index
REBUILD['s'] = slice_
REBUILD['k'] = map_get
REBUILD['has'] = map_has
REBUILD['veq'] = veq
REBUILD['len'] = length
REBUILD['upd'] = lambda v, p, n: set_proj(v, p, n)
REBUILD['all'] = all_
