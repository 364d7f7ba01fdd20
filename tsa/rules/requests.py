"""What a write request stores."""
from .. import mem as M
from .. import terms as T
from ..check import modelled, show, ev_name, cell, expand
from ..terms import num
from .index import Session, GaveUp, Stop, sym, bad, getf, le
from .files import Writes
from .reading import feasible

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def unref(st, v):
    """the text or value behind any number of references"""
    for _ in range(4):
        if v.op == 'ref':
            v = st.simp(st.read(M.place_of(v)))
        else:
            break
    return v


def written(ctx, what, w, ex):
    """the arguments (flags, meta data, data) of the segment each successful path stores"""
    for st, v, before in ex:
        if st.decide(T.isvar(v, 0)) is not True:
            continue
        wr = [e for e in st.trace if e.op == 'E' and ev_name(e) == 'write_segment']
        if len(wr) != 1 or any(e.op != 'E' for e in st.trace):
            ctx.unsure('%s: %d segments are written' % (what, len(wr)))
            continue
        a = [st.simp(x) for x in wr[0].a[3]]
        if len(a) != 4:
            ctx.unsure('%s: the segment writer takes %d arguments' % (what, len(a)))
            continue
        yield st, a[1], a[2], a[3]


def properties(ctx, base):
    """write_properties on lists of 0..n properties, with and without repeated names"""
    path = ctx.inherent('PropertyPath', 'path')
    where = ctx.where(base.pf)
    top = 6 if ctx.tier == 'thorough' else 4
    lists = [list(range(k)) for k in range(top + 1)] + [[0, 0], [0, 1, 0], [0, 1, 1], [1, 0, 0, 1]]
    for names in lists:
        what = 'write_properties(%s)' % ', '.join('p%d' % n for n in names)
        w = Writes(ctx)
        ns = [sym('name%d' % n) for n in names]
        vs = [sym('value%d' % i) for i in range(len(names))]
        arg = cell(M.seq(*[M.adt('()', 0, (cell(n), v)) for n, v in zip(ns, vs)]))
        try:
            ex = w.call(w.pf, None, arg)
            a = ctx.args(w.pf, 'self', 'a0', 'a1')
            texts = {unref(s, s.simp(v)) for s, v in w.s.call(path, [a[1]], w.s.st)}
        except GaveUp as e:
            ctx.unsure('%s: %s' % (what, e))
            continue
        want = {}
        for n, v in zip(ns, vs):
            want[n] = v
        seen = 0
        for st, toc, meta, data in written(ctx, what, w, ex):
            if not feasible(st):
                continue
            if st.decide(T.isvar(data, 0)) is not True:
                bad(ctx, 'properties:data', '%s: raw data is written too: %s' % (what, show(data)[:80]), where, data)
                continue
            if st.decide(T.isvar(meta, 1)) is not True:
                bad(ctx, 'properties:none', '%s: the segment has no meta data: %s' % (what, show(meta)[:80]), where, meta)
                continue
            objs = st.simp(getf(ctx, 'MetaData', M.project(meta, ('v', 1, 0)), 'objects'))
            if objs.op != 'seq':
                ctx.unsure('%s: the objects are %s' % (what, show(objs)[:80]))
                continue
            if len(objs.a) != 1 or not isinstance(objs.a[0], tuple) or len(objs.a[0]) != 1:
                if objs.op == 'seq':
                    bad(ctx, 'properties:objects', '%s: the segment lists %s instead of one object' % (what, show(objs)[:120]), where, objs)
                continue
            o = objs.a[0][0]
            name = unref(st, st.simp(getf(ctx, 'ObjectMetaData', o, 'path')))
            if texts != {name}:
                bad(ctx, 'properties:object', '%s: the properties go to %s instead of the given object' % (what, show(name)[:120]), where, name)
                continue
            ri = st.simp(getf(ctx, 'ObjectMetaData', o, 'raw_data_index'))
            ips = ctx.variants('RawDataIndex')
            none = next((i for i, v in enumerate(ips[1]) if v['name'] == 'None'), None)
            if none is not None and st.decide(T.isvar(ri, none)) is not True:
                bad(ctx, 'properties:index', '%s: the object gets the data description %s' % (what, show(ri)[:80]), where, ri)
                continue
            ps = st.simp(getf(ctx, 'ObjectMetaData', o, 'properties'))
            if ps.op != 'seq':
                ctx.unsure('%s: the properties are %s' % (what, show(ps)[:100]))
                continue
            got = {}
            for x in ps.a[0]:
                got[unref(st, st.simp(M.project(x, ('f', 0))))] = unref(st, st.simp(M.project(x, ('f', 1))))
            if got == want:
                seen += 1
                ctx.count('property writes')
                continue
            bad(ctx, 'properties:list:%d' % len(names), '%s: %s is stored' % (what, show(ps)[:200]), where, ps)
        if not seen and not ctx.undec and not ctx.viol:
            ctx.fail('properties:never', '%s: no successful path' % what, where)


def stored(ctx, what, w, st, data):
    """the values the data block of a request hands to the segment writer, in order, per path"""
    # the event holds the contents of references; the code reads through them
    if data.op == 'adt':
        p = data.a[0]
        ms = [m for m in ctx.methods('WriteBlock', 'write') if ctx.F.types[m['owner']['self']].get('path') == p]
        tys = next(t['vf'][data.a[1]] for t in ctx.F.types if t.get('path') == p and t.get('vf'))
        data = M.adt(p, data.a[1], tuple(cell(x) if t is not None and ctx.F.types[t]['k'] == 'ref' and x.op != 'ref' else x for x, t in zip(data.a[2], tys)))
    else:
        ms = [m for m in ctx.methods('WriteBlock', 'write') if ctx.F.types[m['owner']['self']]['k'] == 'ref']
        data = data if data.op == 'ref' else cell(data)
    if len(ms) != 1:
        ctx.unsure('%s: the data block is %s' % (what, show(data)[:80]))
        return
    a = ctx.args(ms[0], 'self', 'out')
    s = Session(ctx, 40, lambda c: c.name in ('write_value', 'write_le', 'write_be'))
    st = st.copy()
    st.trace = ()
    for s2, v in s.call(ms[0], [cell(data), a[1]], st):
        if s2.decide(T.isvar(s2.simp(v), 0)) is not True:
            continue
        yield ms[0], s2


@rule('C36')
def c36(ctx):
    """Value-flow analysis of the two write functions: the meta data and the data handed to the segment writer as terms over the
    arguments of the request; the data block is then run to the sequence of values it writes."""
    base = Writes(ctx)
    if base.value is None:
        return
    properties(ctx, base)
    where = ctx.where(base.wf)
    D = ctx.variants('DataType')
    types = [v['name'] for v in D[1]]
    top = 5 if ctx.tier == 'thorough' else 3
    lay = ctx.variants('DataLayout')
    cases = [(k, m, l) for k in range(1, top + 1) for m in range(1, top + 1) for l in range(len(lay[1]))] + [(1, None, 0), (2, None, 1)]
    for k, m, l in cases:
        what = 'write_channels(%d channels, %s values each, %s)' % (k, 'any number of' if m is None else m, lay[1][l]['name'])
        w = Writes(ctx)
        i = types.index('I32')
        w.s.ip.consts[('NATURAL_TYPE', None)] = M.adt(D[0], i, ())
        chs = cell(M.seq(*[sym('ch%d' % j) for j in range(k)]))
        if m is None:
            q = sym('q', 'usize')
            n = T.mul(q, num(k))
            whole = M.slice_(sym('values'), num(0), n)
            w.s.st.assume(T.eq(q, num(0)), False)
            w.s.st.assume(le(n, num((1 << 63) - 1)), True)
            vals = None
        else:
            vals = [sym('v%d' % j) for j in range(k * m)]
            whole = M.seq(*vals)
        try:
            ex = w.call(w.wf, chs, cell(whole), M.adt(lay[0], l, ()))
            n_ok = 0
            for st, toc, meta, data in written(ctx, what, w, ex):
                if not feasible(st):
                    continue
                if st.decide(T.isvar(data, 1)) is not True:
                    bad(ctx, 'data:none', '%s: the segment has no data: %s' % (what, show(data)[:80]), where, data)
                    continue
                inter = st.simp(getf(ctx, 'ToC', toc, 'data_is_interleaved'))
                want = lay[1][l]['name'] == 'Interleaved'
                if inter.op == 'bool' and inter.a[0] is not want or inter.op != 'bool' and st.decide(inter) is not want:
                    bad(ctx, 'data:layout', '%s: the layout flag is %s' % (what, show(inter)[:60]), where, inter)
                    continue
                for fn, s2 in stored(ctx, what, w, st, st.simp(M.project(data, ('v', 1, 0)))):
                    good = check_values(ctx, what, fn, s2, vals, whole)
                    if good:
                        n_ok += 1
                        ctx.count('data writes')
        except GaveUp as e:
            ctx.unsure('%s: %s' % (what, e))
            continue
        if not n_ok and not ctx.undec and not ctx.viol:
            ctx.fail('data:never', '%s: no successful path' % what, where)
    ctx.floor('property writes', 9)
    ctx.floor('data writes', 18)


def check_values(ctx, what, fn, st, vals, whole):
    where = ctx.where(fn)
    if vals is not None:
        out = []
        for e in expand(st.trace, st):
            if e.op != 'E' or ev_name(e) not in ('write_value', 'write_le', 'write_be'):
                ctx.unsure('%s: unexpected event %s' % (what, show(e)[:100]))
                return False
            out.append(unref(st, st.simp(e.a[3][1] if ev_name(e) == 'write_value' else e.a[3][0])))
        if out == vals:
            return True
        if feasible(st):
            bad(ctx, 'data:values', '%s: the values %s are written instead of %s' % (what, [show(x) for x in out][:12], [show(x) for x in vals][:12]), where, *out)
        return False
    if len(st.trace) == 1 and st.trace[0].op == 'LP':
        key, n, bv, paths = st.trace[0].a
        if st.simp(n) is st.simp(M.length(whole)) and all(len(p.a[1]) == 1 and p.a[1][0].op == 'E' and ev_name(p.a[1][0]) == 'write_value'
                                                          and st.simp(p.a[1][0].a[3][1]) is st.simp(M.project(whole, ('i', bv))) for p in paths):
            return True
    # no single pass over the values: compare the sequences for some numbers of values
    for k in COUNTS:
        mp = {sym('q', 'usize'): num(k)}
        if any(c.op == 'bool' and c.a[0] != v for c, v in ((T.subst(c, mp), v) for c, v in st.facts.items())):
            continue
        n = T.subst(M.length(whole), mp)
        if not T.is_int(n):
            break
        want = [T.subst(M.project(whole, ('i', num(i))), mp) for i in range(n.a[0])]
        got = []
        for e in expand(T.subst(st.trace, mp), None, 10000):
            if e.op != 'E' or ev_name(e) != 'write_value':
                got = None
                break
            got.append(T.subst(e.a[3][1], mp))
        if got is None:
            break
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x is not y), min(len(got), len(want)))
            bad(ctx, 'data:count', '%s: with %d values, %d are written, the first difference at value %d' % (what, n.a[0], len(got), i), where, *got[i:i + 1])
            return False
    ctx.unsure('%s: the values written are not followed: %s' % (what, show(st.trace[0])[:120] if st.trace else 'nothing'))
    return False


COUNTS = (1, 2, 3, 5, 16, 100, 1024, 1025, 1500)
