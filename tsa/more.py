"""Further models of the standard library: collections and iterator adaptors that the crate does not use today."""
from .terms import *
from .mem import *
from . import mem as M
from .models import MODELS, model, pattern, val, opt, derefs, pcall, upd_place, fmt_text
from . import models as MD
from . import iters as IT
from .iters import adaptor, simple, it_step, consume, clean, materialise, callf, to_iter, is_it, S, cur_it, skip_it, wrap_coll, RANGE

OPTION = 'core::option::Option'
_first = len(MD.PATTERNS)


def is_opt(v):
    return v.op == 'adt' and v.a[0] == OPTION or adt_of(v) == OPTION


def iter_of(ip, st, v):
    """an iterator over a value whose type is not at hand"""
    if is_it(v):
        return v
    if is_opt(v):
        n = b2i(isvar(v, 1))
        return adt('#own', 0, (raw('rep', project(v, ('v', 1, 0)), num(1)), num(0), n))
    if v.op in M.SEQ:
        return adt('#own', 0, (v, num(0), length(v)))
    if v.op == 'ref':
        cur = st.simp(st.read(place_of(v)))
        if cur.op in M.SEQ:
            return adt('#slice', 0, (v, num(0), length(cur)))
        if is_opt(cur):
            p = place_of(v)
            return adt('#own', 0, (raw('rep', mk_ref((p[0], p[1] + (('v', 1, 0),))), num(1)), num(0), b2i(isvar(cur, 1))))
        if is_it(cur):
            return adt('#ref', 0, (v,))
    raise MD.NoModel('iterator of an unknown value')


def st_opt(st, v):
    """an Option, or a reference to one -> (the option, what it yields)"""
    if is_opt(v):
        return v, project(v, ('v', 1, 0))
    if v.op == 'ref':
        cur = st.simp(st.read(place_of(v)))
        if is_opt(cur):
            p = place_of(v)
            return cur, mk_ref((p[0], p[1] + (('v', 1, 0),)))
    return None


STEPS = {}


def stepper(k):
    def d(f):
        STEPS[k] = f
        return f
    return d


@stepper('#inspect')
def s_inspect(ip, st, it, site, back):
    out = []
    for s, tag, i2, e in it_step(ip, st, it.a[2][0], S(site, 0), back):
        if tag != 'yield':
            out.append((s, tag, adt('#inspect', 0, (i2, it.a[2][1])), e))
            continue
        for s2, v, f2 in callf(ip, s, it.a[2][1], [mk_ref((('C', e), ()))], S(site, 'f')):
            out.append((s2, 'yield', adt('#inspect', 0, (i2, f2)), e))
    return out


@stepper('#skip_while')
def s_skip_while(ip, st, it, site, back):
    src, f, done = it.a[2]
    out = []
    for s, tag, i2, e in it_step(ip, st, src, S(site, 0), back):
        if tag != 'yield':
            out.append((s, tag, adt('#skip_while', 0, (i2, f, done)), e))
            continue
        for s1, d in s.branch(done):
            if d:
                out.append((s1, 'yield', adt('#skip_while', 0, (i2, f, boolean(True))), e))
                continue
            for s2, v, f2 in callf(ip, s1, f, [mk_ref((('C', e), ()))], S(site, 'f')):
                for s3, d3 in s2.branch(s2.simp(v)):
                    out.append((s3, 'skip' if d3 else 'yield', adt('#skip_while', 0, (i2, f2, boolean(not d3))), e))
    return out


@stepper('#scan')
def s_scan(ip, st, it, site, back):
    src, acc, f = it.a[2]
    out = []
    r = ('T', S(site, 'sc'), 'acc')
    for s, tag, i2, e in it_step(ip, st, src, S(site, 0), back):
        if tag != 'yield':
            out.append((s, tag, adt('#scan', 0, (i2, acc, f)), e))
            continue
        s = s.copy()
        s.mem[r] = acc
        for s2, v, f2 in callf(ip, s, f, [mk_ref((r, ())), e], S(site, 'f')):
            v = s2.simp(v)
            for s3, d in s2.branch(isvar(v, 1)):
                s3 = s3.copy()
                a2 = s3.mem.pop(r)
                out.append((s3, 'yield' if d else 'done', adt('#scan', 0, (i2, a2, f2)), s3.simp(project(v, ('v', 1, 0))) if d else None))
    return out


@stepper('#flat')
def s_flat(ip, st, it, site, back):
    if back:
        raise MD.NoModel('flat back')
    src, f, inner = it.a[2]
    out = []
    if inner.op == 'ite':
        for s, d in st.branch(inner.a[0]):
            out.extend(s_flat(ip, s, adt('#flat', 0, (src, f, inner.a[1 if d else 2])), site, back))
        return out

    def put(s, i2, f2, v):
        o = st_opt(s, v)
        if o is None:
            out.append((s, 'skip', adt('#flat', 0, (i2, f2, iter_of(ip, s, v))), None))
            return
        v, pay = o
        for s2, d in s.branch(isvar(v, 1)):
            out.append((s2, 'yield' if d else 'skip', adt('#flat', 0, (i2, f2, inner)), s2.simp(pay) if d else None))

    if inner.op == 'adt' and inner.a[0] == '#none':
        for s, tag, i2, e in it_step(ip, st, src, S(site, 0)):
            if tag != 'yield':
                out.append((s, tag, adt('#flat', 0, (i2, f, inner)), e))
            elif f.op == 'adt' and f.a[0] == '#none':
                put(s, i2, f, e)
            else:
                for s2, v, f2 in callf(ip, s, f, [e], S(site, 'f')):
                    put(s2, i2, f2, s2.simp(v))
        return out
    for s, tag, i2, e in it_step(ip, st, inner, S(site, 1)):
        if tag == 'done':
            out.append((s, 'skip', adt('#flat', 0, (src, f, adt('#none', 0, ()))), None))
        else:
            out.append((s, tag, adt('#flat', 0, (src, f, i2)), e))
    return out


@stepper('#stepr')
def s_stepr(ip, st, it, site, back):
    lo, step, k, n = it.a[2]
    out = []
    for s, d in st.branch(le(n, k)):
        if d:
            out.append((s, 'done', it, None))
        elif back:
            out.append((s, 'yield', adt('#stepr', 0, (lo, step, k, sub(n, num(1)))), add(lo, mul(sub(n, num(1)), step))))
        else:
            out.append((s, 'yield', adt('#stepr', 0, (lo, step, add(k, num(1)), n)), add(lo, mul(k, step))))
    return out


@stepper('#chunks')
def s_chunks(ip, st, it, site, back):
    base, size, k, n, total, kind = it.a[2]
    out = []
    for s, d in st.branch(le(n, k)):
        if d:
            out.append((s, 'done', it, None))
            continue
        i = sub(n, num(1)) if back else k
        nx = (k, sub(n, num(1))) if back else (add(k, num(1)), n)
        p = place_of(base)
        if kind.a[0] == 'windows':
            lo, hi = i, add(i, size)
        else:
            lo = mul(i, size)
            hi = add(lo, size) if kind.a[0] == 'exact' else mk_min(add(lo, size), total)
        out.append((s, 'yield', adt('#chunks', 0, (base, size, nx[0], nx[1], total, kind)), mk_ref((p[0], add_proj(p[1], ('s', s.simp(lo), s.simp(hi)))))))
    return out


@stepper('#fromfn')
def s_fromfn(ip, st, it, site, back):
    out = []
    for s, v, f2 in callf(ip, st, it.a[2][0], [], S(site, 'f')):
        v = s.simp(v)
        for s2, d in s.branch(isvar(v, 1)):
            out.append((s2, 'yield' if d else 'done', adt('#fromfn', 0, (f2,)), s2.simp(project(v, ('v', 1, 0))) if d else None))
    return out


@stepper('#repeatwith')
def s_repeatwith(ip, st, it, site, back):
    return [(s, 'yield', adt('#repeatwith', 0, (f2,)), v) for s, v, f2 in callf(ip, st, it.a[2][0], [], S(site, 'f'))]


@stepper('#succ')
def s_succ(ip, st, it, site, back):
    cur, f = it.a[2]
    out = []
    for s, d in st.branch(isvar(cur, 1)):
        if not d:
            out.append((s, 'done', it, None))
            continue
        e = s.simp(project(cur, ('v', 1, 0)))
        for s2, v, f2 in callf(ip, s, f, [mk_ref((('C', e), ()))], S(site, 'f')):
            out.append((s2, 'yield', adt('#succ', 0, (s2.simp(v), f2)), e))
    return out


@stepper('#peek')
def s_peek(ip, st, it, site, back):
    src, pk = it.a[2]
    if pk.op == 'adt' and pk.a[0] == '#none':
        return [(s, tag, adt('#peek', 0, (i2, pk)), e) for s, tag, i2, e in it_step(ip, st, src, S(site, 0), back)]
    if back:
        raise MD.NoModel('peek back')
    out = []
    for s, d in st.branch(isvar(pk, 1)):
        out.append((s, 'yield' if d else 'done', adt('#peek', 0, (src, adt('#none', 0, ()))), s.simp(project(pk, ('v', 1, 0))) if d else None))
    return out


simple('inspect', '#inspect')
simple('scan', '#scan')


@adaptor('skip_while')
def a_skip_while(ip, st, call, it):
    return [(st, adt('#skip_while', 0, (it, call.args[1], boolean(False))))]


@adaptor('flat_map', 'flatten')
def a_flat(ip, st, call, it):
    no = adt('#none', 0, ())
    return [(st, adt('#flat', 0, (it, call.args[1] if call.name == 'flat_map' else no, no)))]


@adaptor('peekable')
def a_peekable(ip, st, call, it):
    return [(st, adt('#peek', 0, (it, adt('#none', 0, ()))))]


@adaptor('step_by')
def a_step_by(ip, st, call, it):
    n = call.args[1]
    z = mk_not2(eq0(n))
    okk = ip.prove(st, z)
    ip.oblige('panic', 'step %s non-zero' % show(n), st, okk, z)
    st = st.copy()
    if okk is False or okk is None and not st.assume(z, True):
        return []
    if it.a[0] != RANGE:
        # elements n, 2n, … of the sequence
        out = []
        for s, e in materialise(ip, st, it, S(call.site, 'stp')):
            cnt = ceil_div(length(e), n)
            K = set_ty(raw('K', call.site), 'usize')
            out.append((s, adt('#own', 0, (M.comp(cnt, index(e, mul(K, n)), K), num(0), cnt))))
        return out
    lo, hi = it.a[2]
    out = []
    for s, d in st.branch(le(hi, lo)):
        out.append((s, adt('#stepr', 0, (lo, n, num(0), num(0) if d else ceil_div(sub(hi, lo), n)))))
    return out


def ceil_div(a, n):
    if is_int(a) and is_int(n):
        return num(-(-a.a[0] // n.a[0]))
    return div(sub(add(a, n), num(1)), n)


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows',
       'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact_mut')
def m_chunks(ip, st, call):
    v = val(st, call.args[0])
    n, size = length(v), call.args[1]
    z = mk_not2(eq0(size))
    okk = ip.prove(st, z)
    ip.oblige('panic', 'chunk size %s non-zero' % show(size), st, okk, z)
    st = st.copy()
    if okk is False or okk is None and not st.assume(z, True):
        return []
    kind = 'windows' if call.name == 'windows' else 'exact' if 'exact' in call.name else 'all'
    if kind == 'windows':
        cnt = satsub(add(n, num(1)), size)
    elif kind == 'exact':
        cnt = num(n.a[0] // size.a[0]) if is_int(n) and is_int(size) else div(n, size)
    else:
        cnt = ceil_div(n, size)
    return [(st, adt('#chunks', 0, (call.args[0], size, num(0), cnt, n, raw('kind', kind))))]


@model('core::iter::sources::from_fn::from_fn')
def m_from_fn(ip, st, call):
    return [(st, adt('#fromfn', 0, (call.args[0],)))]


@model('core::iter::sources::repeat_with::repeat_with')
def m_repeat_with(ip, st, call):
    return [(st, adt('#repeatwith', 0, (call.args[0],)))]


@model('core::iter::sources::successors::successors')
def m_successors(ip, st, call):
    return [(st, adt('#succ', 0, (call.args[0], call.args[1])))]


@model('core::iter::adapters::zip::zip')
def m_zip(ip, st, call):
    a = to_iter(ip, st, call.args[0], call.argtys[0])
    return None if a is None else IT.ADAPT['zip'](ip, st, call, a)


@model('core::iter::adapters::peekable::Peekable::<I>::peek')
def m_peek(ip, st, call):
    p = place_of(call.args[0])
    it = st.simp(st.read(p))
    if not (it.op == 'adt' and it.a[0] == '#peek'):
        return None
    src, pk = it.a[2]

    def ref_opt(v):
        return opt(isvar(v, 1), mk_ref((('C', project(v, ('v', 1, 0))), ())))
    if not (pk.op == 'adt' and pk.a[0] == '#none'):
        return [(st, ref_opt(pk))]
    header = getattr(ip, 'at_header', False)
    try:
        steps = it_step(ip, st, src, S(call.site, 'n'))
    except MD.NoModel:
        return None
    if any(t == 'skip' for _, t, _, _ in steps) and not header:
        return None
    out = []
    for s, tag, i2, e in steps:
        s = s.copy()
        v = some(e) if tag == 'yield' else none()
        s.write(p, adt('#peek', 0, (i2, v if tag != 'skip' else pk)))
        out.append((s, raw('RETRY') if tag == 'skip' else ref_opt(v)))
    return out


# ------------------------------------------------------------------ consumers
@adaptor('partition')
def a_partition(ip, st, call, it):
    site = S(call.site, 'part')
    ts = ip.F.types[call.destty]['ts']
    a, b = ('T', site, 'a'), ('T', site, 'b')

    def step(s, e):
        out = []
        for s2, v, f2 in callf(ip, s, call.args[1], [mk_ref((('C', e), ()))], S(site, 'f')):
            for s3, d in s2.branch(s2.simp(v)):
                s3 = s3.copy()
                k = a if d else b
                s3.mem[k] = cat(s3.mem[k], seq(e))
                out.append(('cont', s3))
        return out
    out = []
    for tg, s in consume(ip, st, it, site, step, {'a': seq(), 'b': seq()}):
        x, y = s.mem[a], s.mem[b]
        clean(s, site, 'a', 'b')
        out.append((s, tup(wrap_coll(ip, ts[0], x), wrap_coll(ip, ts[1], y))))
    return out


@adaptor('unzip')
def a_unzip(ip, st, call, it):
    site = S(call.site, 'unz')
    ts = ip.F.types[call.destty]['ts']
    a, b = ('T', site, 'a'), ('T', site, 'b')

    def step(s, e):
        s = s.copy()
        s.mem[a] = cat(s.mem[a], seq(s.simp(project(e, ('f', 0)))))
        s.mem[b] = cat(s.mem[b], seq(s.simp(project(e, ('f', 1)))))
        return [('cont', s)]
    out = []
    for tg, s in consume(ip, st, it, site, step, {'a': seq(), 'b': seq()}):
        x, y = s.mem[a], s.mem[b]
        clean(s, site, 'a', 'b')
        out.append((s, tup(wrap_coll(ip, ts[0], x), wrap_coll(ip, ts[1], y))))
    return out


@adaptor('reduce', 'min_by_key', 'max_by_key', 'min_by', 'max_by')
def a_reduce(ip, st, call, it):
    site = S(call.site, 'red')
    f = call.args[1]
    acc = ('T', site, 'acc')
    nm = call.name
    ref = lambda v: mk_ref((('C', v), ()))

    def keep(s, x, cur):
        """(state, does x replace cur, new value of cur)"""
        if nm.endswith('_key'):
            for s2, kx, f2 in callf(ip, s, f, [ref(x)], S(site, 'f')):
                for s3, kc, f3 in callf(ip, s2, f, [ref(cur)], S(site, 'g')):
                    kx, kc = s3.simp(kx), s3.simp(kc)
                    if not (MD.int_key(kx) and MD.int_key(kc)):
                        ip.note_unknown('Iterator::' + nm)
                    yield s3, lt(kx, kc) if nm[:3] == 'min' else le(kc, kx)
        else:
            for s2, o, f2 in callf(ip, s, f, [ref(cur), ref(x)], S(site, 'f')):
                o = s2.simp(o)
                yield s2, isvar(o, 2) if nm[:3] == 'min' else mk_not2(isvar(o, 2))

    def step(s, e):
        out = []
        cur = s.mem[acc]
        for s1, d in s.branch(isvar(cur, 1)):
            s1 = s1.copy()
            if not d:
                s1.mem[acc] = some(e)
                out.append(('cont', s1))
                continue
            c = s1.simp(project(cur, ('v', 1, 0)))
            if nm == 'reduce':
                for s2, v, f2 in callf(ip, s1, f, [c, e], S(site, 'f')):
                    s2 = s2.copy()
                    s2.mem[acc] = some(v)
                    out.append(('cont', s2))
                continue
            for s2, cond in keep(s1, e, c):
                for s3, d3 in s2.branch(s2.simp(cond)):
                    s3 = s3.copy()
                    s3.mem[acc] = some(e if d3 else c)
                    out.append(('cont', s3))
        return out
    return [(clean(s, site), s.mem.pop(acc)) for tg, s in consume(ip, st, it, site, step, {'acc': none()})]


@adaptor('product')
def a_product(ip, st, call, it):
    t = ip.F.types[call.destty]
    if t['k'] != 'int':
        return None
    site = S(call.site, 'prod')
    acc = ('T', site, 'acc')

    def step(s, e):
        s = s.copy()
        e = ip.deep(s, e)
        if e.op not in ('int', 'poly'):
            set_ty(e, t['n'])
        v = mul(s.mem[acc], e)
        c = ip.ovf(s, v, t['n'])
        okk = ip.prove(s, mk_not2(c))
        ip.oblige('Overflow(Product)', show(v), s, okk, mk_not2(c))
        if okk is not True and c.op == 'ovf':
            s.assume(le(v, num(INT[t['n']][1])), True)
        s.mem[acc] = v
        return [('cont', s)]
    return [(clean(s, site), s.mem.pop(acc)) for tg, s in consume(ip, st, it, site, step, {'acc': num(1)})]


# ------------------------------------------------------------------ Vec
def bound(ip, st, c, kind='index'):
    okk = ip.prove(st, c)
    ip.oblige(kind, show(c), st, okk, c)
    st = st.copy()
    if okk is False or okk is None and not st.assume(c, True):
        return None
    return st


@model('alloc::vec::Vec::<T, A>::insert')
def m_insert(ip, st, call):
    p, v, i = place_of(call.args[0]), val(st, call.args[0]), call.args[1]
    st = bound(ip, st, le(i, length(v)))
    if st is None:
        return []
    st.write(p, cat(slice_(v, num(0), i), seq(call.args[2]), slice_(v, i, None)))
    return [(st, unit())]


@model('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def m_remove(ip, st, call):
    p, v, i = place_of(call.args[0]), val(st, call.args[0]), call.args[1]
    n = length(v)
    st = bound(ip, st, lt(i, n))
    if st is None:
        return []
    e = index(v, i)
    if call.name == 'remove':
        st.write(p, cat(slice_(v, num(0), i), slice_(v, add(i, num(1)), None)))
        return [(st, e)]
    out = []
    last = sub(n, num(1))
    for s, d in st.branch(eq(i, last)):
        s = s.copy()
        if not d:
            s.write((p[0], add_proj(p[1], ('i', i))), index(v, last))
        s.write(p, slice_(s.simp(s.read(p)), num(0), last))
        out.append((s, e))
    return out


@model('alloc::vec::Vec::<T, A>::drain')
def m_drain(ip, st, call):
    p, v = place_of(call.args[0]), val(st, call.args[0])
    n = length(v)
    b = MD.range_bounds(ip, st, call.args[1], call.argtys[1], n)
    if b is None:
        return None
    lo, hi = b
    for c in (le(lo, hi), le(hi, n)):
        st = bound(ip, st, c, 'slice')
        if st is None:
            return []
    part = slice_(v, lo, None if hi is n else hi)
    st.write(p, cat(slice_(v, num(0), lo), slice_(v, hi, None)) if hi is not n else slice_(v, num(0), lo))
    return [(st, adt('#own', 0, (part, num(0), length(part))))]


@model('alloc::vec::Vec::<T, A>::split_off')
def m_split_off(ip, st, call):
    p, v, i = place_of(call.args[0]), val(st, call.args[0]), call.args[1]
    st = bound(ip, st, le(i, length(v)))
    if st is None:
        return []
    st.write(p, slice_(v, num(0), i))
    return [(st, slice_(v, i, None))]


@model('alloc::vec::Vec::<T, A>::retain', 'alloc::vec::Vec::<T, A>::retain_mut')
def m_retain(ip, st, call):
    p, v = place_of(call.args[0]), val(st, call.args[0])
    if call.name == 'retain_mut':
        return None
    it = adt('#filter', 0, (adt('#own', 0, (v, num(0), length(v))), call.args[1]))
    try:
        res = materialise(ip, st, it, S(call.site, 'ret'))
    except MD.NoModel:
        return None
    out = []
    for s, e in res:
        s = s.copy()
        s.write(p, e)
        out.append((s, unit()))
    return out


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last', 'core::slice::<impl [T]>::split_first_mut', 'core::slice::<impl [T]>::split_last_mut')
def m_split_first(ip, st, call):
    v = val(st, call.args[0])
    n, p = length(v), place_of(call.args[0])
    if 'first' in call.name:
        e, r = ('i', num(0)), ('s', num(1), None)
    else:
        e, r = ('i', sub(n, num(1))), ('s', num(0), sub(n, num(1)))
    return [(st, opt(mk_not2(eq0(n)), tup(mk_ref((p[0], add_proj(p[1], e))), mk_ref((p[0], add_proj(p[1], r))))))]


@model('core::slice::<impl [T]>::split_at_checked', 'core::slice::<impl [T]>::split_at_mut_checked')
def m_split_at_checked(ip, st, call):
    v, k = val(st, call.args[0]), call.args[1]
    p = place_of(call.args[0])
    return [(st, opt(le(k, length(v)), tup(mk_ref((p[0], add_proj(p[1], ('s', num(0), k)))), mk_ref((p[0], add_proj(p[1], ('s', k, None)))))))]


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_slice_starts(ip, st, call):
    v, w = val(st, call.args[0]), val(st, call.args[1])
    n, k = length(v), length(w)
    lo = num(0) if call.name[0] == 's' else sub(n, k)
    out = []
    for s, d in st.branch(le(k, n)):
        out.append((s, IT.seq_eq(slice_(v, lo, add(lo, k)), w, call.site) if d else boolean(False)))
    return out


@pattern(r'^alloc::(slice::<impl \[T\]>|str::<impl \[.*\]>)::(concat|join)$')
def m_concat(ip, st, call):
    v = val(st, call.args[0])
    if v.op != 'seq':
        return None
    sep = derefs(ip, st, call.args[1], call.argtys[1])[0] if call.name == 'join' else None
    if sep is not None and sep.op not in ('str', 'seq') and ty_of(sep):
        sep = seq(sep)
    out = []
    for i, e in enumerate(v.a[0]):
        while e.op == 'ref':
            e = st.simp(st.read(place_of(e)))
        if i and sep is not None:
            out.append(sep)
        out.append(e)
    return [(st, cat(*out) if out else seq())]


@pattern(r'^core::array::<impl \[T; N\]>::map$')
def m_array_map(ip, st, call):
    v = call.args[0]
    it = adt('#map', 0, (adt('#own', 0, (v, num(0), length(v))), call.args[1]))
    return [(s, e) for s, e in materialise(ip, st, it, S(call.site, 'am'))]


@model('core::array::from_fn')
def m_array_from_fn(ip, st, call):
    t = ip.F.types[call.destty]
    if not isinstance(t.get('len'), int):
        return None
    it = adt('#map', 0, (adt(RANGE, 0, (num(0), num(t['len']))), call.args[0]))
    return [(s, e) for s, e in materialise(ip, st, it, S(call.site, 'af'))]


@model('core::array::<impl [T; N]>::each_ref')
def m_each_ref(ip, st, call):
    v = val(st, call.args[0])
    n = length(v)
    p = place_of(call.args[0])
    if not is_int(n):
        return None
    return [(st, seq(*[mk_ref((p[0], add_proj(p[1], ('i', num(i))))) for i in range(n.a[0])]))]


@pattern(r'^core::ops::range::(Range|RangeFrom|RangeTo|RangeInclusive|RangeToInclusive)::<Idx>::(contains|is_empty|start|end|into_inner)$')
def m_range(ip, st, call):
    r = val(st, call.args[0]) if ip.F.types[call.argtys[0]]['k'] == 'ref' else call.args[0]
    t = call.argtys[0]
    if ip.F.types[t]['k'] == 'ref':
        t = ip.F.types[t]['t']
    p = ip.F.types[t]['path']
    k = p.split('::')[-1]
    lo = project(r, ('f', 0)) if k in ('Range', 'RangeFrom', 'RangeInclusive') else None
    hi = project(r, ('f', 0 if k.startswith('RangeTo') else 1)) if k != 'RangeFrom' else None
    if call.name == 'is_empty':
        return [(st, mk_not2(lt(lo, hi) if k == 'Range' else le(lo, hi)))]
    if call.name in ('start', 'end'):
        q = place_of(call.args[0])
        return [(st, mk_ref((q[0], q[1] + (('f', 0 if call.name == 'start' else 1),))))]
    if call.name == 'into_inner':
        return [(st, tup(lo, hi))]
    x = derefs(ip, st, call.args[1], call.argtys[1])[0]
    c = boolean(True)
    if lo is not None:
        c = and_(c, le(lo, x))
    if hi is not None:
        c = and_(c, le(x, hi) if 'Inclusive' in k else lt(x, hi))
    return [(st, c)]


# ------------------------------------------------------------------ maps
def m_remove_key(m, key):
    """the map without key, or None when that is not decided"""
    if m.op == 'mempty':
        return m
    if m.op == 'minsert':
        base, k2, v = m.a
        if k2 is key:
            return m_remove_key(base, key)
        c = veq(k2, key)
        if c.op != 'bool':
            return None
        b = m_remove_key(base, key)
        return b if c.a[0] or b is None else raw('minsert', b, k2, v)
    if m.op == 'upd' and m.a[1][0] == 'k':
        base, q, new = m.a
        c = boolean(True) if q[1] is key else veq(q[1], key)
        if c.op != 'bool':
            return None
        b = m_remove_key(base, key)
        return b if c.a[0] or b is None else raw('upd', b, q, new)
    return None


ENTRY = {'alloc::collections::btree::map::entry::Entry': (0, 1), 'std::collections::hash::map::Entry': (1, 0)}     # vacant, occupied


@pattern(r'^(?:alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap)::<.*>::(remove|remove_entry|entry|with_capacity|retain|get_key_value|get_or_insert_with)$')
def m_map2(ip, st, call):
    op = call.name
    if op == 'with_capacity':
        return [(st, raw('mempty'))]
    p = place_of(call.args[0])
    m = val(st, call.args[0])
    if op in ('remove', 'remove_entry'):
        key = derefs(ip, st, call.args[1], call.argtys[1])[0]
        out = []
        for s, d in st.branch(map_has(m, key)):
            s = s.copy()
            if not d:
                out.append((s, none()))
                continue
            rest = m_remove_key(m, key)
            if rest is None:
                ip.note_unknown(call.df)
                rest = raw('hv', call.site, m, key)
            s.write(p, rest)
            e = map_get(m, key)
            out.append((s, some(tup(key, e) if op == 'remove_entry' else e)))
        return out
    if op == 'entry':
        path = ip.F.types[call.destty].get('path')
        if path not in ENTRY:
            return None
        key = ip.deep(st, call.args[1])
        out = []
        for s, d in st.branch(map_has(m, key)):
            out.append((s, adt(path, ENTRY[path][1 if d else 0], (adt('#entry', 0, (call.args[0], key)),))))
        return out
    if op == 'get_key_value':
        key = derefs(ip, st, call.args[1], call.argtys[1])[0]
        return [(st, opt(map_has(m, key), tup(call.args[1], mk_ref((p[0], add_proj(p[1], ('k', key)))))))]
    return None


def entry_ref(e):
    p = place_of(e.a[2][0])
    return mk_ref((p[0], add_proj(p[1], ('k', e.a[2][1]))))


def put(st, e, v):
    st = st.copy()
    p = place_of(e.a[2][0])
    st.write(p, raw('minsert', st.simp(st.read(p)), e.a[2][1], v))
    return st


@pattern(r'^(?:alloc::collections::btree::map::entry|std::collections::hash::map)::Entry::<.*>::(or_insert|or_insert_with|or_default|and_modify|or_insert_with_key|key|insert_entry)$')
def m_entry(ip, st, call):
    e = call.args[0]
    if call.name == 'key' or e.op != 'adt' or e.a[0] not in ENTRY or not e.a[2] or e.a[2][0].op != 'adt':
        return None
    occ = e.a[1] == ENTRY[e.a[0]][1]
    x = e.a[2][0]
    if call.name == 'and_modify':
        if not occ:
            return [(st, e)]
        return [(s, e) for s, v, f2 in callf(ip, st, call.args[1], [entry_ref(x)], S(call.site, 'f'))]
    if call.name == 'insert_entry':
        return None
    if occ:
        return [(st, entry_ref(x))]
    if call.name == 'or_insert':
        return [(put(st, x, call.args[1]), entry_ref(x))]
    if call.name == 'or_default':
        t = ip.F.types[ip.F.types[call.destty]['t']] if ip.F.types[call.destty]['k'] == 'ref' else None
        p = (t or {}).get('path', '')
        d = num(0) if t and t['k'] == 'int' else seq() if p.endswith('Vec') else raw('str', '') if p.endswith('::String') else raw('mempty') if 'Map' in p or 'Set' in p else None
        return None if d is None else [(put(st, x, d), entry_ref(x))]
    args = [mk_ref((('C', x.a[2][1]), ()))] if call.name.endswith('_key') else []
    return [(put(s, x, v), entry_ref(x)) for s, v, f2 in callf(ip, st, call.args[1], args, S(call.site, 'f'))]


@pattern(r'^(?:alloc::collections::btree::map::entry|std::collections::hash::map)::(Occupied|Vacant)Entry::<.*>::(get|get_mut|into_mut|insert|key|remove)$')
def m_entry2(ip, st, call):
    e = call.args[0]
    if ip.F.types[call.argtys[0]]['k'] == 'ref':
        e = val(st, e)
    if e.op != 'adt' or e.a[0] != '#entry':
        return None
    vac = 'VacantEntry' in call.df
    if call.name == 'key':
        return [(st, mk_ref((('C', e.a[2][1]), ())))]
    if call.name in ('get', 'get_mut', 'into_mut'):
        return [(st, entry_ref(e))]
    if call.name == 'insert':
        if vac:
            return [(put(st, e, call.args[1]), entry_ref(e))]
        r = place_of(entry_ref(e))
        old = st.simp(st.read(r))
        st = st.copy()
        st.write(r, call.args[1])
        return [(st, old)]
    return None


def insert_all(ip, st, p, it, site, ismap, deref):
    """insert the elements of an iterator into the collection at place p"""
    r = ('T', site, 'into')
    acc = ('T', site, 'm')

    def step(s, e):
        s = s.copy()
        m = s.mem[acc]
        e = s.simp(e)
        k, v = (s.simp(project(e, ('f', 0))), s.simp(project(e, ('f', 1)))) if ismap else (e, unit())
        if deref:
            k, v = [s.simp(s.read(place_of(x))) if x.op == 'ref' else x for x in (k, v)]
        k = ip.deep(s, k)
        if not ismap:
            m = ite(map_has(m, k), m, raw('minsert', m, k, unit()))
        else:
            m = raw('minsert', m, k, v)
        s.mem[acc] = m
        return [('cont', s)]
    out = []
    for tg, s in consume(ip, st, it, site, step, {'m': st.simp(st.read(p))}):
        v = s.mem[acc]
        clean(s, site, 'm')
        s.write(p, v)
        out.append((s, unit()))
    return out


def is_coll(path):
    return any(path.endswith('::' + x) for x in ('BTreeMap', 'HashMap', 'BTreeSet', 'HashSet'))


_extend = MODELS['core::iter::traits::collect::Extend::extend']


@model('core::iter::traits::collect::Extend::extend')
def m_extend(ip, st, call):
    t = ip.F.types[ip.F.types[call.argtys[0]]['t']] if ip.F.types[call.argtys[0]]['k'] == 'ref' else {}
    path = t.get('path', '')
    if not is_coll(path):
        return _extend(ip, st, call)
    it = to_iter(ip, st, call.args[1], call.argtys[1])
    if it is None:
        return None
    args = call.callee.get('args') or []
    et = ip.F.types[args[1]] if len(args) > 1 and isinstance(args[1], int) else {}
    deref = et.get('k') == 'tuple' and et['ts'] and ip.F.types[et['ts'][0]]['k'] == 'ref' and ip.F.types[t['args'][0]]['k'] != 'ref' \
        or et.get('k') == 'ref' and ip.F.types[t['args'][0]]['k'] != 'ref'
    try:
        return insert_all(ip, st, place_of(call.args[0]), it, S(call.site, 'ext'), 'Map' in path, bool(deref))
    except MD.NoModel:
        return None


# ------------------------------------------------------------------ smart pointers
_deref = MODELS['core::ops::deref::Deref::deref']
PLAIN = ('alloc::vec::Vec', 'alloc::string::String', 'alloc::boxed::Box')


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def m_deref(ip, st, call):
    t = ip.F.types[call.callee['args'][0]]
    if t['k'] == 'adt' and t.get('path') == 'alloc::borrow::Cow' and call.name == 'deref':
        v = val(st, call.args[0])
        p = place_of(call.args[0])
        out = []
        for s, d in st.branch(isvar(v, 0)):
            out.append((s, s.simp(project(v, ('v', 0, 0))) if d else mk_ref((p[0], p[1] + (('v', 1, 0),)))))
        return out
    if t['k'] == 'adt' and t.get('path') not in PLAIN and not t.get('path', '').startswith(('tedium::', 'crate::')):
        i = call.callee.get('inst')
        if i is not None and ip.F.insts[i].get('body'):
            return None
        ip.note_unknown('deref of ' + t.get('path', '?'))
    return _deref(ip, st, call)


@pattern(r'^alloc::borrow::Cow::<.*>::into_owned$')
def m_into_owned(ip, st, call):
    v = call.args[0]
    out = []
    for s, d in st.branch(isvar(v, 0)):
        x = s.simp(project(v, ('v', 0 if d else 1, 0)))
        out.append((s, s.simp(s.read(place_of(x))) if d else x))
    return out


@model('core::result::Result::<T, E>::iter', 'core::result::Result::<T, E>::into_iter')
def m_resiter(ip, st, call):
    r = call.args[0]
    if ip.F.types[call.argtys[0]]['k'] == 'ref':
        p = place_of(r)
        v = val(st, r)
        e = mk_ref((p[0], p[1] + (('v', 0, 0),)))
    else:
        v, e = r, project(r, ('v', 0, 0))
    return [(st, adt('#own', 0, (raw('rep', e, num(1)), num(0), b2i(isvar(v, 0)))))]


@pattern(r'^core::ops::arith::(Add::add|AddAssign::add_assign)$')
def m_stradd(ip, st, call):
    t = ip.F.types[call.argtys[0]]
    own = ip.F.types[t['t']] if t['k'] == 'ref' else t
    if own.get('path') != 'alloc::string::String':
        return MD.m_refop(ip, st, call)
    b, _ = derefs(ip, st, call.args[1], call.argtys[1])
    if t['k'] == 'ref':
        return [(upd_place(st, call.args[0], lambda v: cat(v, b)), unit())]
    return [(st, cat(call.args[0], b))]


# these come before the general patterns
MD.PATTERNS[:] = MD.PATTERNS[_first:] + MD.PATTERNS[:_first]
IT.STEPS.update(STEPS)
