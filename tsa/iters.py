"""Iterator adaptors as structural values, stepped symbolically; consumers run through the loop engine."""
from .terms import *
from .mem import *
from . import mem as M
from .models import MODELS, PATTERNS, model, pattern, val, opt, derefs, pcall
from . import models as MD

RANGE = 'core::ops::range::Range'
ONE2ONE = ('#slice', '#own', '#map', '#enum', '#cloned', '#take', '#zip', '#mapit', '#rev', RANGE)


def is_it(v):
    return v.op == 'adt' and (v.a[0].startswith('#') or v.a[0] == RANGE)


def one2one(v):
    if not is_it(v):
        return False
    k = v.a[0]
    if k not in ONE2ONE:
        return False
    if k in ('#map', '#enum', '#cloned', '#take', '#rev'):
        return one2one(v.a[2][0])
    if k == '#zip':
        return one2one(v.a[2][0]) and one2one(v.a[2][1])
    return True


def callf(ip, st, f, args, site):
    """call closure value f; returns (st, value, f') with f' carrying mutated captures"""
    out = []
    r = ('T', CP.get(site, ('env',)), 'env')
    for s, v in ip.call_value(st, f, args, site, keep_env=True):
        f2 = s.mem.pop(r, f) if f.op == 'clo' else f
        out.append((s, v, f2))
    return out


def S(site, k):
    return CP.get(site, ('it', k))


STEPS = {}


def it_step(ip, st, it, site, back=False):
    """-> [(st, 'yield'|'done'|'skip', it', elem)]"""
    k = it.a[0]
    a = it.a[2]

    def mk(*xs):
        return adt(k, 0, xs)
    if k in ('#slice', '#own', RANGE):
        base, lo, hi = (None, a[0], a[1]) if k == RANGE else a
        set_ty(lo, 'usize') if k != RANGE and lo.op not in ('int', 'poly') else None
        out = []
        for s, d in st.branch(le(hi, lo)):
            if d:
                out.append((s, 'done', it, None))
                continue
            i = sub(hi, num(1)) if back else lo
            nlo, nhi = (lo, sub(hi, num(1))) if back else (add(lo, num(1)), hi)
            if k == RANGE:
                out.append((s, 'yield', mk(nlo, nhi), i))
            elif k == '#own':
                out.append((s, 'yield', mk(base, nlo, nhi), s.simp(index(base, i))))
            else:
                p = place_of(base)
                out.append((s, 'yield', mk(base, nlo, nhi), mk_ref((p[0], add_proj(p[1], ('i', i))))))
        return out
    if k == '#mapit':
        base, src, pos, kind = a
        n = length(src)
        out = []
        for s, d in st.branch(le(n, pos)):
            if d:
                out.append((s, 'done', it, None))
                continue
            key = raw('mkey', src, pos)
            kr = mk_ref((('C', key), ()))
            kd = kind.a[0]
            if kd == 'kown':
                e = key
            else:
                p = place_of(base)
                vr = mk_ref((p[0], add_proj(p[1], ('k', key))))
                e = kr if kd == 'k' else vr if kd == 'v' else tup(kr, vr)
            out.append((s, 'yield', mk(base, src, add(pos, num(1)), kind), e))
        return out
    if k == '#op':
        src, pos = a
        cnt = set_ty(raw('cnt', src), 'usize')
        out = []
        for s, d in st.branch(le(cnt, pos)):
            if d:
                out.append((s, 'done', it, None))
            else:
                out.append((s, 'yield', mk(src, add(pos, num(1))), mk_ref((('C', raw('nth', src, pos)), ()))))
        return out
    if k == '#ref':
        p = place_of(a[0])
        out = []
        for s, tag, i2, e in it_step(ip, st, st.read(p), site, back):
            s = s.copy()
            s.write(p, i2)
            out.append((s, tag, it, e))
        return out
    if k == '#rev':
        return [(s, tag, mk(i2), e) for s, tag, i2, e in it_step(ip, st, a[0], site, not back)]
    if k == '#map':
        out = []
        for s, tag, i2, e in it_step(ip, st, a[0], S(site, 0), back):
            if tag != 'yield':
                out.append((s, tag, mk(i2, a[1]), e))
                continue
            for s2, v, f2 in callf(ip, s, a[1], [e], S(site, 'f')):
                out.append((s2, 'yield', mk(i2, f2), v))
        return out
    if k in ('#filter', '#filter_map', '#take_while', '#map_while'):
        out = []
        for s, tag, i2, e in it_step(ip, st, a[0], S(site, 0), back):
            if tag != 'yield':
                out.append((s, tag, mk(i2, *a[1:]), e))
                continue
            arg = e
            if k in ('#filter', '#take_while'):
                s = s.copy()
                r = ('T', S(site, 'e'), 'elem')
                s.mem[r] = e
                arg = mk_ref((r, ()))
            for s2, v, f2 in callf(ip, s, a[1], [arg], S(site, 'f')):
                v = s2.simp(v)
                if k in ('#filter', '#take_while'):
                    for s3, d in s2.branch(v):
                        if d:
                            out.append((s3, 'yield', mk(i2, f2), e))
                        else:
                            out.append((s3, 'skip' if k == '#filter' else 'done', mk(i2, f2), e))
                else:
                    for s3, d in s2.branch(isvar(v, 1)):
                        if d:
                            out.append((s3, 'yield', mk(i2, f2), s3.simp(project(v, ('v', 1, 0)))))
                        else:
                            out.append((s3, 'skip' if k == '#filter_map' else 'done', mk(i2, f2), None))
        return out
    if k == '#zip':
        out = []
        for s, tag, i2, e in it_step(ip, st, a[0], S(site, 0), back):
            if tag != 'yield':
                out.append((s, tag, mk(i2, a[1]), None))
                continue
            for s2, t2, j2, e2 in it_step(ip, s, a[1], S(site, 1), back):
                if t2 == 'yield':
                    out.append((s2, 'yield', mk(i2, j2), tup(e, e2)))
                else:
                    out.append((s2, t2, mk(i2, j2), None))
        return out
    if k == '#enum':
        return [(s, tag, mk(i2, add(a[1], num(1)) if tag == 'yield' else a[1]), tup(a[1], e) if tag == 'yield' else None)
                for s, tag, i2, e in it_step(ip, st, a[0], S(site, 0), back)]
    if k == '#cloned':
        return [(s, tag, mk(i2), s.simp(s.read(place_of(e))) if tag == 'yield' else None)
                for s, tag, i2, e in it_step(ip, st, a[0], S(site, 0), back)]
    if k == '#take':
        out = []
        for s, d in st.branch(raw('le0', a[1]) if a[1].op == 'poly' else le0(a[1])):
            if d:
                out.append((s, 'done', it, None))
                continue
            for s2, tag, i2, e in it_step(ip, s, a[0], S(site, 0), back):
                out.append((s2, tag, mk(i2, sub(a[1], num(1)) if tag == 'yield' else a[1]), e))
        return out
    if k == '#chain':
        out = []
        for s, tag, i2, e in it_step(ip, st, a[0], S(site, 0), back):
            if tag != 'done':
                out.append((s, tag, mk(i2, a[1]), e))
                continue
            for s2, t2, j2, e2 in it_step(ip, s, a[1], S(site, 1), back):
                out.append((s2, t2, mk(i2, j2), e2))
        return out
    if k in STEPS:
        return STEPS[k](ip, st, it, site, back)
    raise MD.NoModel(k)


class NoModel(Exception):
    pass


MD.NoModel = NoModel


# ------------------------------------------------------------------ conversion to iterators
def to_iter(ip, st, v, tyid):
    """IntoIterator for a value of the given type -> iterator value or None"""
    if is_it(v):
        return v
    t = ip.F.types[tyid]
    if t['k'] == 'ref':
        inner = ip.F.types[t['t']]
        p = place_of(v)
        if inner['k'] in ('slice', 'array') or inner.get('path') == 'alloc::vec::Vec':
            cur = ip.typed(st.simp(st.read(p)), t['t'])
            return adt('#slice', 0, (v, num(0), length(cur)))
        if 'BTreeMap' in inner.get('path', '') or 'HashMap' in inner.get('path', ''):
            m = val(st, v)
            if m.op == 'omap':
                return MD.ENTRIES[0](v, m, 'kv')
            return adt('#mapit', 0, (v, m, num(0), raw('kind', 'kv')))
        if 'BTreeSet' in inner.get('path', '') or 'HashSet' in inner.get('path', ''):
            m = val(st, v)
            if m.op == 'omap':
                return MD.ENTRIES[0](v, m, 'k')
            return adt('#mapit', 0, (v, m, num(0), raw('kind', 'k')))
        cur = st.read(p)
        if is_it(cur):
            return adt('#ref', 0, (v,))
        if inner.get('path') == 'core::option::Option':
            o = val(st, v)
            n = b2i(isvar(o, 1))
            return adt('#own', 0, (raw('rep', mk_ref((p[0], p[1] + (('v', 1, 0),))), num(1)), num(0), n))
        return None
    if t['k'] == 'array' or t.get('path') == 'alloc::vec::Vec':
        v = ip.typed(v, tyid)
        return adt('#own', 0, (v, num(0), length(v)))
    if t.get('path') == 'core::option::Option':
        n = b2i(isvar(v, 1))
        return adt('#own', 0, (raw('rep', project(v, ('v', 1, 0)), num(1)), num(0), n))
    if 'BTreeSet' in t.get('path', '') or 'HashSet' in t.get('path', ''):
        return adt('#mapit', 0, (mk_ref((('C', v), ())), v, num(0), raw('kind', 'kown')))
    if 'BTreeMap' in t.get('path', '') or 'HashMap' in t.get('path', ''):
        return adt('#mapit', 0, (mk_ref((('C', v), ())), v, num(0), raw('kind', 'kv')))
    if t.get('path', '').endswith('::RangeInclusive'):
        return adt(RANGE, 0, (project(v, ('f', 0)), add(project(v, ('f', 1)), num(1))))
    if t.get('path', '') == RANGE:
        return adt(RANGE, 0, (project(v, ('f', 0)), project(v, ('f', 1))))
    if t['k'] == 'adt' and v.op not in ('adt',):
        # an iterator held in an opaque value: an anonymous sequence of elements
        p = t.get('path', '')
        if p.startswith('core::slice::iter::Iter'):
            # a slice iterator received as data: elements of the slice it still has to yield
            return adt('#slice', 0, (mk_ref((('O', raw('itptr', v)), ())), num(0), set_ty(raw('itlen', v), 'usize')))
        return adt('#op', 0, (v, num(0)))
    return None


@model('core::ops::range::RangeInclusive::<Idx>::new')
def m_rangeincl(ip, st, call):
    return [(st, adt('core::ops::range::RangeInclusive', 0, (call.args[0], call.args[1], boolean(False))))]


@model('core::iter::traits::collect::IntoIterator::into_iter')
def m_into_iter(ip, st, call):
    i = call.callee.get('inst')
    if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
        return None
    r = to_iter(ip, st, call.args[0], call.argtys[0])
    if r is None:
        return None
    return [(st, r)]


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def m_iter(ip, st, call):
    v = call.args[0]
    t = ip.F.types[call.argtys[0]]
    cur = ip.typed(st.simp(st.read(place_of(v))), t['t'])
    return [(st, adt('#slice', 0, (v, num(0), length(cur))))]


@model('core::option::Option::<T>::iter', 'core::option::Option::<T>::into_iter')
def m_optiter(ip, st, call):
    r = to_iter(ip, st, call.args[0], call.argtys[0])
    return None if r is None else [(st, r)]


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows',
       'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact_mut')
def m_chunks(ip, st, call):
    return [(st, adt('#op', 0, (raw('strit', call.name, val(st, call.args[0]), (call.args[1],)), num(0))))]


# ------------------------------------------------------------------ adaptors
ADAPT = {}


def adaptor(*names):
    def d(f):
        for n in names:
            ADAPT[n] = f
            MODELS['core::iter::traits::iterator::Iterator::' + n] = wrap(f)
        return f
    return d


def wrap(f):
    def g(ip, st, call):
        i = call.callee.get('inst')
        if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
            return None
        it = call.args[0]
        if not is_it(it):
            it = to_iter(ip, st, it, call.argtys[0])
            if it is None:
                return None
        try:
            return f(ip, st, call, it)
        except NoModel:
            return None
    return g


def simple(name, kind):
    @adaptor(name)
    def f(ip, st, call, it):
        return [(st, adt(kind, 0, (it,) + tuple(call.args[1:])))]


simple('map', '#map')
simple('filter', '#filter')
simple('filter_map', '#filter_map')
simple('take_while', '#take_while')
simple('map_while', '#map_while')
simple('take', '#take')
simple('rev', '#rev')
simple('cloned', '#cloned')
simple('copied', '#cloned')


@adaptor('enumerate')
def a_enum(ip, st, call, it):
    return [(st, adt('#enum', 0, (it, num(0))))]


@adaptor('by_ref')
def a_byref(ip, st, call, it):
    return [(st, call.args[0])]


@adaptor('fuse', 'peekable_')
def a_fuse(ip, st, call, it):
    return [(st, it)]


@adaptor('chain')
def a_chain(ip, st, call, it):
    o = call.args[1]
    if not is_it(o):
        o = to_iter(ip, st, o, call.argtys[1])
        if o is None:
            return None
    return [(st, adt('#chain', 0, (it, o)))]


@adaptor('zip')
def a_zip(ip, st, call, it):
    o = call.args[1]
    if not is_it(o):
        o = to_iter(ip, st, o, call.argtys[1])
        if o is None:
            return None
    out = [(st, it, o)]
    for idx in (0, 1):
        nxt = []
        for s, x, y in out:
            cur = (x, y)[idx]
            if one2one(cur) or cur.a[0] in ('#op', '#ref'):
                nxt.append((s, x, y))
                continue
            for s2, e in materialise(ip, s, cur, S(call.site, 'z%d' % idx)):
                own = adt('#own', 0, (e, num(0), length(e)))
                nxt.append((s2, own, y) if idx == 0 else (s2, x, own))
        out = nxt
    return [(s, adt('#zip', 0, (x, y))) for s, x, y in out]


@adaptor('skip')
def a_skip(ip, st, call, it):
    n = call.args[1]
    r = skip_it(it, n)
    if r is not None:
        return [(st, r)]
    out = []
    for s, e in materialise(ip, st, it, S(call.site, 'sk')):
        m = mk_min(n, length(e))
        out.append((s, adt('#own', 0, (e, m, length(e)))))
    return out


def skip_it(it, n):
    k, a = it.a[0], it.a[2]
    if k in ('#slice', '#own'):
        return adt(k, 0, (a[0], mk_min(add(a[1], n), a[2]), a[2]))
    if k == RANGE:
        return adt(k, 0, (mk_min(add(a[0], n), mk_max(a[0], a[1])), a[1]))
    if k == '#op':
        return adt(k, 0, (a[0], add(a[1], n)))
    if k == '#mapit':
        return adt(k, 0, (a[0], a[1], add(a[2], n), a[3]))
    if k in ('#map', '#cloned'):
        i = skip_it(a[0], n)
        return None if i is None else adt(k, 0, (i,) + a[1:])
    if k == '#enum':
        i = skip_it(a[0], n)
        return None if i is None else adt(k, 0, (i, add(a[1], n)))
    if k == '#zip':
        i, j = skip_it(a[0], n), skip_it(a[1], n)
        return None if i is None or j is None else adt(k, 0, (i, j))
    return None


# ------------------------------------------------------------------ next
def m_next(back):
    def f(ip, st, call):
        i = call.callee.get('inst')
        if i is not None and ip.F.insts[i]['local'] and ip.F.insts[i].get('body'):
            return None
        p = place_of(call.args[0])
        it = st.simp(st.read(p))
        if not is_it(it):
            if it.op == 'ite' and all(is_it(x) for x in it.a[1:]):
                pass
            t = ip.F.types[call.argtys[0]]
            v = to_iter(ip, st, it, t['t'])
            if v is None:
                return None
            it = v
        header = getattr(ip, 'at_header', False)
        out = []
        try:
            steps = it_step(ip, st, it, S(call.site, 'n'), back)
        except NoModel:
            return None
        if any(tag == 'skip' for _, tag, _, _ in steps) and not header:
            return next_search(ip, st, p, it, call, back)
        for s, tag, i2, e in steps:
            s = s.copy()
            s.write(p, i2)
            if tag == 'yield':
                out.append((s, some(e)))
            elif tag == 'done':
                out.append((s, none()))
            else:
                out.append((s, raw('RETRY')))
        return out
    return f


MODELS['core::iter::traits::iterator::Iterator::next'] = m_next(False)
MODELS['core::iter::traits::double_ended::DoubleEndedIterator::next_back'] = m_next(True)


def next_search(ip, st, p, it, call, back):
    site = S(call.site, 'search')
    r, re_ = ('T', site, 'it'), ('T', site, 'e')
    st = st.copy()
    st.mem[r] = it
    st.mem[re_] = raw('undef', re_)

    def body(s):
        res = []
        for s2, tag, i2, e in it_step(ip, s, s.mem[r], S(site, 'n'), back):
            s2 = s2.copy()
            s2.mem[r] = i2
            if tag == 'yield':
                s2.mem[re_] = e
                res.append(('exit', 'found', s2))
            elif tag == 'done':
                res.append(('exit', 'done', s2))
            else:
                res.append(('cont', None, s2))
        return res
    out = []
    for k, t, s in ip.loop(st, body, site):
        s = s.copy()
        s.write(p, s.mem[r])
        e = s.mem[re_]
        s.mem.pop(r), s.mem.pop(re_)
        out.append((s, some(e) if t == 'found' else none()))
    return out


# ------------------------------------------------------------------ consumers
def consume(ip, st, it, site, step, init):
    """run step(state, elem) -> [(tag, state)] over the iterator; tag 'cont' or an exit name.
    -> [(exit tag ('done' at the end), state)]; init maps temp names to values"""
    st = st.copy()
    r = ('T', site, 'it')
    st.mem[r] = it
    for k, v in init.items():
        st.mem[('T', site, k)] = v

    def body(s):
        res = []
        for s2, tag, i2, e in it_step(ip, s, s.mem[r], S(site, 'n')):
            s2 = s2.copy()
            s2.mem[r] = i2
            if tag == 'yield':
                for t, s3 in step(s2, e):
                    res.append(('cont', None, s3) if t == 'cont' else ('exit', t, s3))
            elif tag == 'done':
                res.append(('exit', 'done', s2))
            else:
                res.append(('cont', None, s2))
        return res
    out = []
    for k, t, s in ip.loop(st, body, site):
        out.append((t, s))
    return out


def clean(s, site, *names):
    for k in ('it',) + names:
        s.mem.pop(('T', site, k), None)
    return s


def materialise(ip, st, it, site, f=None):
    """collect all elements -> [(state, sequence)]"""
    acc = ('T', site, 'acc')
    if it.a[0] == '#own' and f is None and is_int(it.a[2][1], 0) and it.a[2][2] is length(it.a[2][0]):
        return [(st, it.a[2][0])]

    def step(s, e):
        s = s.copy()
        s.mem[acc] = cat(s.mem[acc], seq(f(s, e) if f else e))
        return [('cont', s)]
    out = []
    for t, s in consume(ip, st, it, site, step, {'acc': seq()}):
        v = s.mem[acc]
        clean(s, site, 'acc')
        out.append((s, v))
    return out


def same_mem(a, b):
    ks = {k for k in set(a.mem) | set(b.mem) if k[0] != 'T'}
    return a.trace == b.trace and all(a.mem.get(k) is b.mem.get(k) for k in ks)


def all_of(e):
    """conjunction of a sequence of booleans"""
    if e.op == 'seq':
        r = boolean(True)
        for x in e.a[0]:
            r = and_(r, x)
        return r
    if e.op == 'comp':
        return all_(e.a[0], e.a[1], e.a[2])
    if e.op == 'rep':
        return or_(e.a[0], eq0(e.a[1]))
    if e.op == 'fcomp':
        return all_(e.a[0], e.a[1], or_(mk_not2(e.a[3]), e.a[2]))
    if e.op == 'cat':
        r = boolean(True)
        for x in e.a:
            c = all_of(x)
            if c is None:
                return None
            r = and_(r, c)
        return r
    return None


@adaptor('all', 'any')
def a_all(ip, st, call, it):
    neg_ = call.name == 'any'
    f = call.args[1]
    isref = it if call.argtys and ip.F.types[call.argtys[0]]['k'] != 'ref' else it
    real = st.read(place_of(call.args[0])) if ip.F.types[call.argtys[0]]['k'] == 'ref' and it.a[0] == '#ref' else it
    m = adt('#map', 0, (real, f))
    try:
        res = materialise(ip, st, m, S(call.site, 'all'))
    except NoModel:
        return None
    if len(res) == 1 and same_mem(st, res[0][0]):
        s, e = res[0]
        if neg_:
            c = all_of(map_seq(e, mk_not2))
            c = None if c is None else mk_not2(c)
        else:
            c = all_of(e)
        if c is not None:
            return [(s, c)]
    site = S(call.site, 'alls')

    def step(s, e):
        out = []
        for s2, v, f2 in callf(ip, s, f, [e], S(site, 'f')):
            for s3, d in s2.branch(s2.simp(v)):
                out.append(('hit' if d == neg_ else 'cont', s3))
        return out
    return [(clean(s, site), boolean(neg_ if t == 'hit' else not neg_)) for t, s in consume(ip, st, real, site, step, {})]


def map_seq(e, f):
    if e.op == 'seq':
        return seq(*[f(x) for x in e.a[0]])
    if e.op == 'comp':
        return raw('comp', e.a[0], e.a[1], f(e.a[2]))
    if e.op == 'rep':
        return raw('rep', f(e.a[0]), e.a[1])
    if e.op == 'fcomp':
        return raw('fcomp', e.a[0], e.a[1], f(e.a[2]), e.a[3])
    if e.op == 'cat':
        return raw('cat', *[map_seq(x, f) for x in e.a])
    return raw('opaque', e)


def cur_it(st, call, ip, it):
    if it.a[0] == '#ref':
        return st.read(place_of(call.args[0]))
    return it


@adaptor('find', 'position', 'find_map')
def a_find(ip, st, call, it):
    f = call.args[1]
    site = S(call.site, 'find')
    real = cur_it(st, call, ip, it)
    kind = call.name

    def step(s, e):
        s = s.copy()
        arg = e
        if kind == 'find':
            r = ('T', S(site, 'e'), 'elem')
            s.mem[r] = e
            arg = mk_ref((r, ()))
        out = []
        for s2, v, f2 in callf(ip, s, f, [arg], S(site, 'f')):
            v = s2.simp(v)
            for s3, d in s2.branch(isvar(v, 1) if kind == 'find_map' else v):
                s3 = s3.copy()
                s3.mem.pop(('T', S(site, 'e'), 'elem'), None)
                if d:
                    s3.mem[('T', site, 'r')] = e if kind == 'find' else project(v, ('v', 1, 0)) if kind == 'find_map' else s3.mem[('T', site, 'n')]
                    out.append(('hit', s3))
                else:
                    s3.mem[('T', site, 'n')] = add(s3.mem[('T', site, 'n')], num(1))
                    out.append(('cont', s3))
        return out
    out = []
    for t, s in consume(ip, st, real, site, step, {'r': unit(), 'n': num(0)}):
        v = s.mem[('T', site, 'r')]
        clean(s, site, 'r', 'n')
        out.append((s, some(v) if t == 'hit' else none()))
    return out


@adaptor('count')
def a_count(ip, st, call, it):
    return [(s, length(e)) for s, e in materialise(ip, st, it, S(call.site, 'cnt'))]


@adaptor('last')
def a_last(ip, st, call, it):
    out = []
    for s, e in materialise(ip, st, it, S(call.site, 'last')):
        n = length(e)
        out.append((s, opt(mk_not2(eq0(n)), index(e, sub(n, num(1))))))
    return out


@adaptor('nth')
def a_nth(ip, st, call, it):
    real = cur_it(st, call, ip, it)
    out = []
    for s, e in materialise(ip, st, real, S(call.site, 'nth')):
        n = length(e)
        k = call.args[1]
        s = s.copy()
        if ip.F.types[call.argtys[0]]['k'] == 'ref':
            nx = skip_it(real, add(k, num(1)))
            if nx is None:
                nx = adt('#own', 0, (e, mk_min(add(k, num(1)), n), n))
            s.write(place_of(call.args[0]), nx)
        out.append((s, opt(lt(k, n), index(e, k))))
    return out


@adaptor('min', 'max')
def a_min(ip, st, call, it):
    def dv(s, e):
        return ip.deep(s, e)
    out = []
    ot = ip.F.types[call.destty]
    et = ip.F.types[ot['args'][0]]
    isref = et['k'] == 'ref'
    ity = ip.F.types[et['t']] if isref else et
    for s, e in materialise(ip, st, it, S(call.site, 'min'), dv):
        n = length(e)
        if e.op == 'seq' and e.a[0]:
            m = e.a[0][0]
            for x in e.a[0][1:]:
                m = (mk_min if call.name == 'min' else mk_max)(m, x)
        else:
            m = raw(call.name + 'seq', e)
        if ity['k'] == 'int' and m.op not in ('int', 'poly'):
            set_ty(m, ity['n'])
        out.append((s, opt(mk_not2(eq0(n)), mk_ref((('C', m), ())) if isref else m)))
    return out


@adaptor('min_by_key', 'max_by_key', 'min_by', 'max_by', 'partition', 'unzip', 'reduce', 'flat_map', 'flatten', 'scan', 'step_by', 'peekable', 'skip_while', 'cycle', 'inspect', 'is_sorted', 'product', 'lt', 'cmp')
def a_opaque(ip, st, call, it):
    out = []
    ip.note_unknown('Iterator::' + call.name, call)
    for s, e in materialise(ip, st, it, S(call.site, 'o')):
        r = ip.typed_tree(raw('itop', call.name, e, tuple(call.args[1:])), call.destty)
        if call.name in ('flat_map', 'flatten', 'scan', 'step_by', 'peekable', 'skip_while', 'cycle', 'inspect'):
            r = adt('#op', 0, (r, num(0)))
        out.append((s, r))
    return out


@adaptor('eq', 'ne')
def a_eq(ip, st, call, it):
    o = call.args[1]
    if not is_it(o):
        o = to_iter(ip, st, o, call.argtys[1])
    out = []
    for s, e in materialise(ip, st, it, S(call.site, 'e1'), lambda s, e: ip.deep(s, e)):
        for s2, e2 in materialise(ip, s, o, S(call.site, 'e2'), lambda s, e: ip.deep(s, e)):
            c = seq_eq(e, e2, call.site)
            out.append((s2, mk_not2(c) if call.name == 'ne' else c))
    return out


def seq_eq(e, e2, site):
    K = set_ty(raw('K', site), 'usize')
    n = length(e)
    b, cb = bind(veq(index(e, K), index(e2, K)), K)
    return and_(eq(n, length(e2)), all_(n, b, cb))


@adaptor('sum')
def a_sum(ip, st, call, it):
    t = ip.F.types[call.destty]
    if t['k'] != 'int':
        return a_opaque(ip, st, call, it)
    site = S(call.site, 'sum')
    acc = ('T', site, 'acc')

    def step(s, e):
        s = s.copy()
        e = ip.deep(s, e)
        if e.op not in ('int', 'poly'):
            set_ty(e, t['n'])
        v = add(s.mem[acc], e)
        c = ip.ovf(s, v, t['n'])
        okk = ip.prove(s, mk_not2(c))
        ip.oblige('Overflow(Sum)', show(v), s, okk, mk_not2(c))
        if okk is not True and c.op == 'ovf':
            lo, hi = INT[t['n']]
            s.assume(le(v, num(hi)), True)
        s.mem[acc] = v
        return [('cont', s)]
    out = []
    for tg, s in consume(ip, st, it, site, step, {'acc': num(0)}):
        v = s.mem[acc]
        clean(s, site, 'acc')
        if v.op not in ('int', 'poly'):
            set_ty(v, t['n'])
        out.append((s, v))
    return out


@adaptor('fold')
def a_fold(ip, st, call, it):
    site = S(call.site, 'fold')
    acc = ('T', site, 'acc')
    f = call.args[2]

    def step(s, e):
        out = []
        for s2, v, f2 in callf(ip, s, f, [s.mem[acc], e], S(site, 'f')):
            s2 = s2.copy()
            s2.mem[acc] = v
            out.append(('cont', s2))
        return out
    ip.typed(call.args[1], call.argtys[1])
    return [(clean(s, site), s.mem.pop(acc)) for tg, s in consume(ip, st, it, site, step, {'acc': call.args[1]})]


@adaptor('for_each')
def a_foreach(ip, st, call, it):
    site = S(call.site, 'fe')
    f = call.args[1]

    def step(s, e):
        return [('cont', s2) for s2, v, f2 in callf(ip, s, f, [e], S(site, 'f'))]
    return [(clean(s, site), unit()) for tg, s in consume(ip, st, it, site, step, {})]


@adaptor('try_for_each', 'try_fold')
def a_tryeach(ip, st, call, it):
    site = S(call.site, 'tfe')
    real = cur_it(st, call, ip, it)
    fold = call.name == 'try_fold'
    f = call.args[2 if fold else 1]
    t = ip.F.types[call.destty]
    isres = t.get('path') == 'core::result::Result'
    okv = 0 if isres else 1
    acc, rr = ('T', site, 'acc'), ('T', site, 'r')

    def step(s, e):
        out = []
        for s2, v, f2 in callf(ip, s, f, ([s.mem[acc]] if fold else []) + [e], S(site, 'f')):
            for s3, d in s2.branch(isvar(s2.simp(v), okv)):
                s3 = s3.copy()
                if d:
                    if fold:
                        s3.mem[acc] = s3.simp(project(v, ('v', okv, 0)))
                    out.append(('cont', s3))
                else:
                    s3.mem[rr] = s3.simp(v)
                    out.append(('err', s3))
        return out
    if t.get('path') not in ('core::result::Result', 'core::option::Option'):
        return None
    out = []
    for tg, s in consume(ip, st, real, site, step, {'acc': call.args[1] if fold else unit(), 'r': unit()}):
        a, r = s.mem[acc], s.mem[rr]
        clean(s, site, 'acc', 'r')
        out.append((s, r if tg == 'err' else (ok(a) if isres else some(a))))
    return out


def collect_into(ip, st, it, tyid, site, call):
    t = ip.F.types[tyid]
    p = t.get('path', '')
    if p in ('core::result::Result', 'core::option::Option'):
        inner = t['args'][0]
        okv = 0 if p.endswith('Result') else 1
        acc, rr = ('T', site, 'acc'), ('T', site, 'r')

        def step(s, e):
            out = []
            e = s.simp(e)
            set_adt(e, p) if e.op != 'adt' else None
            for s3, d in s.branch(isvar(e, okv)):
                s3 = s3.copy()
                if d:
                    s3.mem[acc] = cat(s3.mem[acc], seq(s3.simp(project(e, ('v', okv, 0)))))
                    out.append(('cont', s3))
                else:
                    s3.mem[rr] = s3.simp(project(e, ('v', 1, 0))) if okv == 0 else unit()
                    out.append(('err', s3))
            return out
        out = []
        for tg, s in consume(ip, st, it, site, step, {'acc': seq(), 'r': unit()}):
            a, r = s.mem[acc], s.mem[rr]
            clean(s, site, 'acc', 'r')
            if tg == 'err':
                out.append((s, err(r) if okv == 0 else none()))
            else:
                v = wrap_coll(ip, inner, a)
                out.append((s, ok(v) if okv == 0 else some(v)))
        return out
    return [(s, wrap_coll(ip, tyid, e)) for s, e in materialise(ip, st, it, site)]


def wrap_coll(ip, tyid, e):
    t = ip.F.types[tyid]
    p = t.get('path', '')
    if p in ('alloc::vec::Vec', 'alloc::boxed::Box'):
        return e
    if p == 'alloc::string::String':
        return raw('fromchars', e)
    if t['k'] == 'tuple' and not t['ts']:
        return unit()
    if p.endswith('BTreeMap') and e.op == 'seq' and not e.a[0]:
        return raw('mempty')
    if p.endswith(('BTreeMap', 'HashMap')) and e.op == 'seq' and all(x.op == 'adt' and x.a[2] and x.a[2][0].op != 'ref' for x in e.a[0]):
        m = raw('mempty')
        for x in e.a[0]:
            m = raw('minsert', m, x.a[2][0], x.a[2][1])
        return m
    return raw('fromiter', p, e)


@adaptor('collect')
def a_collect(ip, st, call, it):
    return collect_into(ip, st, it, call.destty, S(call.site, 'col'), call)


@model('core::iter::traits::collect::FromIterator::from_iter')
def m_fromiter(ip, st, call):
    it = to_iter(ip, st, call.args[0], call.argtys[0])
    if it is None:
        return None
    return collect_into(ip, st, it, call.destty, S(call.site, 'col'), call)


@model('core::iter::traits::collect::Extend::extend')
def m_extend(ip, st, call):
    it = to_iter(ip, st, call.args[1], call.argtys[1])
    t = ip.F.types[call.argtys[0]]
    tt = ip.F.types[t['t']]
    if it is None or tt.get('path') != 'alloc::vec::Vec':
        return None
    p = place_of(call.args[0])
    out = []
    et = tt['args'][0]

    def dv(s, e):
        # Extend<&T> copies
        if e.op == 'ref' and ip.F.types[et]['k'] != 'ref':
            return s.simp(s.read(place_of(e)))
        return e
    for s, e in materialise(ip, st, it, S(call.site, 'ext'), dv):
        s = s.copy()
        s.write(p, cat(s.read(p), e))
        out.append((s, unit()))
    return out


@adaptor('size_hint')
def a_size_hint(ip, st, call, it):
    return None


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def m_exlen(ip, st, call):
    it = val(st, call.args[0])
    if not is_it(it):
        it = to_iter(ip, st, it, ip.F.types[call.argtys[0]]['t'])
        if it is None:
            return None
    return [(st, length(e)) for s, e in materialise(ip, st, it, S(call.site, 'len'))]


@model('core::slice::iter::Iter::<T>::as_slice', 'core::slice::iter::IterMut::<T>::into_slice')
def m_as_slice(ip, st, call):
    it = call.args[0] if call.name.startswith('into') else val(st, call.args[0])
    if it.op == 'adt' and it.a[0] == '#slice':
        base, lo, hi = it.a[2]
        p = place_of(base)
        return [(st, mk_ref((p[0], add_proj(p[1], ('s', lo, hi)))))]
    return None


@model('core::iter::sources::repeat::repeat', 'core::iter::sources::repeat_n::repeat_n')
def m_repeat(ip, st, call):
    if 'repeat_n' in call.df:
        return [(st, adt('#own', 0, (raw('rep', call.args[0], call.args[1]), num(0), call.args[1])))]
    return [(st, adt('#own', 0, (raw('rep', call.args[0], num(2 ** 62)), num(0), num(2 ** 62))))]


@model('core::iter::sources::once::once')
def m_once(ip, st, call):
    return [(st, adt('#own', 0, (seq(call.args[0]), num(0), num(1))))]


@model('core::iter::sources::empty::empty')
def m_empty(ip, st, call):
    return [(st, adt('#own', 0, (seq(), num(0), num(0))))]
