"""Meta data codecs, declared sizes and the segment header."""
from .. import mem as M
from .. import models
from .. import terms as T
from ..check import Stop, cell, ev_def, ev_name, event_type, expand, last, map_ev, modelled, norm_bytes, show, strip_generics, tyname
from ..terms import num, raw
from .codecs import const_int, item, m as storage_method, storage_impls

RULES = {}
OKV = ('v', 0, 0)


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def generics(s):
    """top-level generic arguments of an event name"""
    if '<' not in s:
        return []
    inner = s[s.index('<') + 1:-1]
    d, cur, parts = 0, '', []
    for c in inner:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += c
    parts.append(cur.strip())
    return parts


def is_codec(c):
    """a call to a method of the meta data or data block traits"""
    t = strip_generics(c.df)
    return c.name in ('read', 'write', 'size') and ('TdmsMetaData' in t or 'WriteBlock' in t)


class Bad(Exception):
    """(kind, message): kind 'fail' or 'unsure'"""


def grammar(ctx, fn, trace, st):
    """the sequence of wire items of a path: ('val', type, value/event) ('meta', type, value/event) ('loop', n, bv, items)"""
    out = []
    for e in expand(trace, st):
        if e.op == 'LP':
            key, n, bv, paths = e.a
            alts = []
            for p in paths:
                fs = [(c, b) for c, b in p.a[0] if not only_bound(c, n, bv)]
                alts.append((fs, grammar(ctx, fn, p.a[1], st)))
            if any(len(x) for _, x in alts):
                if len(alts) != 1 and not all(x == alts[0][1] for _, x in alts):
                    raise Bad('unsure', '%s: a loop writes or reads different items on different paths' % fn['path'])
                out.append(('loop', n, bv, alts[0][1], e))
            continue
        n = ev_name(e)
        g = generics(e.a[0])
        d = ev_def(e)
        if n == 'write_value':
            out.append(('val', event_type(e), e.a[3][1], e))
        elif n == 'read_value':
            out.append(('val', event_type(e), None, e))
        elif 'TdmsMetaData' in d and n == 'write':
            out.append(('meta', tyname(g[0]), e.a[3][0], e))
        elif 'TdmsMetaData' in d and n == 'read':
            out.append(('meta', tyname(g[0]), None, e))
        elif 'WriteBlock' in d and n == 'write':
            out.append(('block', tyname(g[0]), e.a[3][0], e))
        elif n == 'read_exact':
            out.append(('bytes', e.a[3][1], None, e))
        elif n == 'write_all':
            out.append(('bytes', None, e.a[3][1], e))
        elif n in ('read', 'read_to_end', 'write', 'read_vectored', 'write_vectored') and 'io::' in d:
            raise Bad('fail', '%s uses %s, which may transfer only part of the bytes' % (fn['path'], n))
        elif n in ('size',):
            pass
        else:
            raise Bad('unsure', '%s: unexpected effect %s' % (fn['path'], n))
    return out


def only_bound(c, n, bv):
    """the loop condition itself"""
    return not T.contains(c, lambda x: x.op in ('ev', 'rdbytes', 'call')) or T.contains(c, lambda x: x is n) or not T.contains(c, lambda x: x is bv)


def small_lengths(t):
    """lists have fewer than 2^32 entries, as the format requires"""
    mp = {}
    for x in T.subterms(t):
        if x.op == 'trunc' and x.a[0] in ('u32', 'i32') and x.a[1].op == 'len':
            mp[x] = x.a[1]
    return T.subst(t, mp) if mp else t


class Feed:
    """binds the results of a reader's events to a writer's values"""

    def __init__(self):
        self.env = {}

    def f(self, x):
        if x.op == 'ev' and x.a[1] in self.env:
            bvs, val = self.env[x.a[1]]
            return M.ok(T.subst(val, dict(zip(bvs, x.a[2]))))
        return None

    def __call__(self, t):
        return small_lengths(map_ev(t, self.f))


def unify(ctx, ws, rs, feed, bvs=()):
    """raises Bad on a mismatch"""
    for i in range(max(len(ws), len(rs))):
        if i >= len(ws):
            raise Bad('fail', 'the reader reads one more item (%s) than was written' % describe(rs[i]))
        if i >= len(rs):
            raise Bad('fail', 'the reader stops before item %d that was written (%s)' % (i + 1, describe(ws[i])))
        w, r = ws[i], rs[i]
        if w[0] != r[0]:
            raise Bad('fail', 'item %d is written as %s and read as %s' % (i + 1, describe(w), describe(r)))
        if w[0] == 'loop':
            nw, nr = small_lengths(w[1]), feed(r[1])
            if nw is not nr:
                d = T.eq(nw, nr)
                if modelled(nr) and modelled(nw) and not (d.op == 'bool' and d.a[0]):
                    raise Bad('fail', '%s entries are written but %s are read' % (show(nw), show(nr)))
                raise Bad('unsure', 'cannot compare the number of entries %s and %s' % (show(nw)[:80], show(nr)[:80]))
            body = [sub_item(x, {w[2]: r[2]}) for x in w[3]]
            unify(ctx, body, r[3], feed, bvs + (r[2],))
            continue
        if w[0] in ('val', 'meta'):
            if w[1] != r[1]:
                a, b = fixed_size(ctx, w), fixed_size(ctx, r)
                raise Bad('unsure' if a is not None and a == b else 'fail', 'item %d is written as %s and read as %s' % (i + 1, w[1], r[1]))
            feed.env[r[3].a[1]] = (r[3].a[2], w[2])
        else:
            raise Bad('unsure', 'raw bytes in a meta data codec')


def sub_item(x, mp):
    if x[0] == 'loop':
        return ('loop', T.subst(x[1], mp), x[2], [sub_item(y, mp) for y in x[3]], x[4])
    return (x[0], x[1], T.subst(x[2], mp) if x[2] is not None else None, x[3])


def describe(x):
    return 'a list' if x[0] == 'loop' else ('a value of type %s' % x[1] if x[0] == 'val' else 'an encoded %s' % x[1] if x[0] == 'meta' else 'raw bytes')


def fixed_size(ctx, x):
    if x[0] == 'val':
        for ty, imp in storage_impls(ctx):
            if ty == x[1] and tyname(ty) != 'String':
                return const_int((item(imp, 'SIZE_BYTES') or {}).get('value'))
    return None


def eta(v, path=None):
    """contract a comprehension that copies a list, field by field"""
    if v.op == 'comp':
        n, bv, body = v.a[0], v.a[1], v.a[2]
        body = eta(body)
        if body.op == 'i' and body.a[1] is bv and n is M.length(body.a[0]) and not T.contains(body.a[0], lambda x: x is bv):
            return body.a[0]
        return M.mk_comp(n, bv, body)
    if v.op in ('adt', 'tup') or v.op == 'adt':
        fs = tuple(eta(x) for x in v.a[2])
        if fs and all(x.op == 'f' and x.a[1] == i and x.a[0] is fs[0].a[0] for i, x in enumerate(fs)) and v.a[1] == 0:
            return fs[0].a[0]
        return M.adt(v.a[0], v.a[1], fs)
    return v


def sym_variant(p, vs, i):
    return M.adt(p, i, tuple(raw('sym', 'x%d_%s' % (j, vs[i]['fields'][j]), p, i) for j in range(len(vs[i]['fields']))))


def cases(ctx, ty):
    """values covering the type: [(label, term)]"""
    p, vs = ctx.variants(ty)
    if ty == 'RawDataIndex':
        dp, dvs = ctx.variants('DataType')
        mp, mvs = ctx.variants('RawDataMeta')
        fi = {n: ctx.field('RawDataMeta', n) for n in ('data_type', 'number_of_values', 'total_size_bytes')}
        out = []
        for i, v in enumerate(vs):
            if len(v['fields']) != 1:
                out.append((v['name'], M.adt(p, i, ())))
                continue
            for k, d in enumerate(dvs):
                if d['name'] == 'TdmsString':
                    continue       # string channels are never written
                f = [None] * 3
                f[fi['data_type']] = M.adt(dp, k, ())
                f[fi['number_of_values']] = raw('sym', 'number_of_values')
                f[fi['total_size_bytes']] = M.none()
                out.append(('%s of %s' % (v['name'], d['name']), M.adt(p, i, (M.adt(mp, 0, tuple(f)),))))
        return out
    return [(v['name'], sym_variant(p, vs, i)) for i, v in enumerate(vs)]


COMPOUND = ('MetaData', 'ObjectMetaData', 'RawDataIndex', 'PropertyValue')


def meta_impls(ctx):
    return [tyname(ctx.F.tys(i['self'])) for i in ctx.impls('TdmsMetaData')]


@rule('C07')
def c07(ctx):
    """Composition of the writer's and the reader's summaries, codec by codec: for every kind of value the sequence of
    items written (types, order, list lengths, nested codecs) is the sequence of items the reader takes on the path those
    items select, and the value it returns is the value written. Nested codecs are assumed by induction and each is
    itself an obligation; the byte order methods of readers and writers are paired separately."""
    for ty in meta_impls(ctx):
        if ty in ('ToC', 'DataType'):
            continue        # single words: C09, C10
        w, r = ctx.method('TdmsMetaData', ty, 'write'), ctx.method('TdmsMetaData', ty, 'read')
        rr = ctx.run(r, opaque=is_codec, tag='codec')
        if rr is None:
            continue
        for label, val in cases(ctx, ty):
            rw = ctx.run(w, args=[cell(val)] + ctx.args(w, 'self', 'writer')[1:], opaque=is_codec)
            if rw is None:
                continue
            key = 'meta:%s:%s' % (ty, label)
            if rw.err():
                ctx.fail(key + ':refused', 'writing a %s fails although every write succeeded' % label, ctx.where(w))
            for st, _ in rw.ok():
                try:
                    ws = grammar(ctx, w, st.trace, st)
                except Bad as b:
                    report(ctx, key, b, w)
                    continue
                one(ctx, key, label, val, ws, st, rr, r, w)
    pairing(ctx)
    ctx.floor('values round tripped', 40)
    ctx.floor('byte order methods', 4)


def report(ctx, key, b, fn):
    kind, msg = b.args
    if kind == 'fail':
        ctx.fail(key, msg, ctx.where(fn))
    else:
        ctx.unsure('%s: %s' % (key, msg))


def one(ctx, key, label, val, ws, wst, rr, r, w):
    hits = 0
    bad = None
    for kind, exits in (('ok', rr.ok()), ('err', rr.err())):
        for st, v in exits:
            feed = Feed()
            try:
                rs = grammar(ctx, r, st.trace, st)
            except Bad as b:
                report(ctx, key, b, r)
                return
            # bind as far as the path goes to see whether these items select it
            try:
                unify(ctx, ws, rs, feed)
                mism = None
            except Bad as b:
                mism = b
            facts = [(feed(c), b) for c, b in st.facts.items()]
            if any(c.op == 'bool' and c.a[0] != b for c, b in facts):
                continue
            if any(c.op == 'call' and c.a[0] == 'alloc_ok' and not b for c, b in facts):
                continue
            open_ = [c for c, b in facts if c.op != 'bool' and not (c.op == 'call' and c.a[0] == 'alloc_ok')]
            if kind == 'err':
                if v.op == 'ev' or T.contains(v, lambda x: x.op == 'ev'):
                    continue
                if open_:
                    ctx.unsure('%s: undecided error path %s' % (key, show(open_[0])[:80]))
                elif mism is None or mism.args[0] == 'fail':
                    ctx.fail(key + ':rejected', 'the reader rejects what the writer produced for %s: %s' % (label, show(v)[:120]), ctx.where(r))
                continue
            if mism is not None:
                if open_ and mism.args[0] == 'fail' and not feed_stuck(open_):
                    ctx.unsure('%s: undecided path %s' % (key, show(open_[0])[:80]))
                else:
                    report(ctx, key, mism, r)
                hits += 1
                continue
            if open_:
                ctx.unsure('%s: undecided path %s' % (key, show(open_[0])[:80]))
                hits += 1
                continue
            got = eta(feed(v))
            want = eta(val)
            hits += 1
            if got is want or (M.veq(got, want).op == 'bool' and M.veq(got, want).a[0]):
                ctx.good('values round tripped', key)
            elif modelled(got):
                ctx.fail(key + ':value', 'reading back %s gives %s' % (show(want)[:200], show(got)[:200]), ctx.where(r))
            else:
                ctx.unsure('%s: value read is %s' % (key, show(got)[:120]))
    if not hits:
        ctx.fail(key + ':path', 'no path of the reader accepts what the writer produced for %s' % label, ctx.where(r))


def feed_stuck(open_):
    return False


def pairing(ctx):
    """which storage method each reader and writer uses, and the flag each writer sets"""
    flags = {}
    for imp in ctx.impls('TdmsWriter'):
        ty = tyname(ctx.F.tys(imp['self']))
        flags[ty] = const_bool((item(imp, 'BIG_ENDIAN_FLAG') or {}).get('value'))
    if not flags:
        raise ctx.missing('implementations of TdmsWriter')
    for f in ctx.methods('TdmsWriter', 'write_value'):
        ty = tyname(ctx.F.tys(f['owner']['self']))
        big = flags.get(ty)
        if big is None:
            ctx.unsure('%s: flag constant unknown' % f['path'])
            continue
        r = ctx.run(f)
        if r is None:
            continue
        names = {ev_name(e) for st, _ in r.exits for e in st.trace if e.op == 'E'}
        check_pair(ctx, f, ty, big, names, 'write')
        for st, _ in r.exits:
            evs = [e for e in st.trace]
            if len(evs) != 1 or evs[0].op != 'E':
                ctx.unsure('%s: effects' % f['path'])
            elif evs[0].a[3][0] is not raw('*', r.args[1]):
                if modelled(evs[0].a[3][0]):
                    ctx.fail('order:%s:value' % ty, 'a value other than the argument is written: %s' % show(evs[0].a[3][0])[:80], ctx.where(f))
    orders = reader_orders(ctx)
    if sorted(x for x in orders.values() if x) != ['be', 'le'] and None not in orders.values():
        ctx.fail('order:readers', 'the readers decode values as %s; one of each byte order is needed' % orders, '')
    for ty, o in orders.items():
        if o:
            ctx.good('byte order methods', '%s reads %s' % (ty, o))


def reader_orders(ctx):
    """byte order each reader type decodes values in: {type name: 'le'|'be'|None}"""
    out = {}
    for f in ctx.methods('TdmsReader', 'read_value'):
        ty = tyname(ctx.F.tys(f['owner']['self']))
        r = ctx.run(f, tag='orders')
        if r is None:
            out[ty] = None
            continue
        names = {ev_name(e) for st, _ in r.exits for e in st.trace if e.op == 'E'}
        out[ty] = {('read_le',): 'le', ('read_be',): 'be'}.get(tuple(names))
        if out[ty] is None:
            ctx.unsure('%s: calls %s' % (f['path'], sorted(names)))
    return out


def check_pair(ctx, f, ty, big, names, verb):
    want = '%s_%s' % (verb, 'be' if big else 'le')
    other = '%s_%s' % (verb, 'le' if big else 'be')
    if names == {want}:
        ctx.good('byte order methods', '%s::%s_value uses %s' % (ty, verb, want))
    elif other in names:
        ctx.fail('order:%s' % ty, '%s, which marks its segments as %s endian, uses %s' % (ty, 'big' if big else 'little', other), ctx.where(f))
    else:
        ctx.unsure('%s: calls %s' % (f['path'], sorted(names)))


def const_bool(v):
    if v and v.get('c') == 'bool':
        return bool(v['v'])
    if v and v.get('c') == 'int':
        return bool(int(v['v']))
    return None


# ------------------------------------------------------------------ C08
def const_size(ctx, ty):
    """the size() of a meta data type when it is the same constant for all values"""
    f = ctx.method('TdmsMetaData', ty, 'size')
    r = ctx.run(f, opaque=is_codec, tag='size')
    if r is None:
        return None
    vals = {v for _, v in r.exits}
    if len(vals) == 1:
        v = vals.pop()
        return v if T.is_int(v) else None
    return None


def item_size(ctx, x):
    if x[0] == 'loop':
        tot = num(0)
        for y in x[3]:
            tot = T.add(tot, item_size(ctx, y))
        return T.mk_sum(x[1], tot, x[2])
    if x[0] == 'val':
        for ty, imp in storage_impls(ctx):
            if ty == x[1]:
                r = ctx.run(storage_method(ctx, ty, 'size'), args=[cell(x[2])])
                if r is None or len(r.exits) != 1:
                    raise Bad('unsure', 'size of %s' % ty)
                return r.exits[0][1]
        return raw('call', 'io::data_types::TdmsStorageType::size<%s>' % x[1], None, (x[2],))
    if x[0] == 'meta':
        c = const_size(ctx, x[1])
        if c is not None:
            return c
        return raw('call', 'meta_data::TdmsMetaData::size<%s>' % full(ctx, x[1]), None, (x[2],))
    if x[0] == 'block':
        return raw('call', 'raw_data::write::WriteBlock::size<%s>' % generics(x[3].a[0])[0], None, (x[2],))
    raise Bad('unsure', 'raw bytes')


def full(ctx, ty):
    p, _ = ctx.variants(ty)
    return p


def norm_size(ctx, t):
    """constant sizes of nested meta data filled in; trait paths shortened"""
    def f(x):
        return None
    mp = {}
    for x in T.subterms(t):
        if x.op == 'call' and strip_generics(x.a[0]).endswith('TdmsMetaData::size') and generics(x.a[0]):
            c = const_size(ctx, tyname(generics(x.a[0])[0]))
            if c is not None:
                mp[x] = c
    t = T.subst(t, mp) if mp else t
    return short_calls(forward(t))


def forward(t):
    """sums taken from the last to the first element, taken from the first"""
    for x in T.subterms(t):
        if x.op == 'sum' and len(x.a) == 3 and x.a[2].op == 'bv':
            n, body, bv = x.a
            back = T.sub(T.sub(n, num(1)), bv)
            if T.contains(body, lambda y: y is back):
                r = T.subst(body, {bv: back})
                if not T.contains(r, lambda y: y is back):
                    return forward(T.subst(t, {x: raw('sum', n, r, bv)}))
    return t


def short_calls(t):
    mp = {}
    for x in T.subterms(t):
        if x.op == 'call' and x.a[0].split('<')[0].endswith('::size') and generics(x.a[0]):
            nm = x.a[0]
            tr = nm.split('<')[0].split('::')[-2]
            mp[x] = raw('call', '%s::size<%s>' % (tr, tyname(generics(nm)[0])), None, tuple(x.a[2]))
    return T.subst(t, mp) if mp else t


def size_opaque(c):
    return is_codec(c)


@rule('C08')
def c08(ctx):
    """For every meta data codec and data block kind, the declared size is the same normal form as the sum of the sizes of the
    items its writer emits (list lengths and element sizes included); the segment writer stores exactly meta size + data size
    and meta size as the two offsets; the reader's notion of the total adds the 28 header bytes that were written."""
    for ty in meta_impls(ctx):
        w, s = ctx.method('TdmsMetaData', ty, 'write'), ctx.method('TdmsMetaData', ty, 'size')
        for label, val in (cases(ctx, ty) if ty != 'ToC' else [('flags', raw('sym', 'toc'))]):
            args = [cell(val)] + ctx.args(w, 'self', 'writer')[1:]
            rw = ctx.run(w, args=args, opaque=is_codec)
            rs = ctx.run(s, args=args[:1], opaque=is_codec)
            if rw is None or rs is None:
                continue
            compare_sizes(ctx, 'size:%s:%s' % (ty, label), w, s, rw, rs)
    for w in ctx.methods('WriteBlock', 'write'):
        ty = ctx.F.tys(w['owner']['self'])
        s = [f for f in ctx.methods('WriteBlock', 'size') if f['owner']['self'] == w['owner']['self']]
        if not s:
            raise ctx.missing('WriteBlock::size for %s' % ty)
        rw = ctx.run(w)
        rs = ctx.run(s[0], args=rw.args[:1]) if rw else None
        if rw is None or rs is None:
            continue
        compare_sizes(ctx, 'size:block:%s' % tyname(ty), w, s[0], rw, rs)
    segment_offsets(ctx)
    total_size(ctx)
    ctx.floor('declared sizes', 45)
    ctx.floor('segment offsets', 4)
    ctx.floor('total size', 1)


def compare_sizes(ctx, key, w, s, rw, rs):
    outs = {v for _, v in rs.exits}
    if len(outs) != 1:
        ctx.unsure('%s: %d results' % (key, len(outs)))
        return
    want = norm_size(ctx, outs.pop())
    for st, _ in rw.ok():
        try:
            tot = num(0)
            for x in grammar(ctx, w, st.trace, st):
                tot = T.add(tot, item_size(ctx, x))
        except Bad as b:
            report(ctx, key, b, w)
            continue
        tot = norm_size(ctx, tot)
        if tot is want:
            ctx.good('declared sizes', '%s: %s' % (key, show(want)[:160]))
        elif modelled(tot) and modelled(want) and closed_sizes(tot) and closed_sizes(want) and sample(tot, want, st) is not None:
            ctx.fail(key, 'for lists of length %d the declared size is %s but %s bytes are written' % (sample(tot, want, st), show(want)[:200], show(tot)[:200]), ctx.where(s))
        else:
            ctx.unsure('%s: cannot compare %s with %s' % (key, show(want)[:100], show(tot)[:100]))


def sample(a, b, st):
    """a length of every list, possible on this path, for which the two sizes differ; None if there is none among the samples"""
    lens = {x for x in T.subterms(raw('#', a, b, *st.facts)) if x.op == 'len' and not T.contains(x, lambda y: y.op == 'bv')}
    for k in (0, 1, 2, 3, 7, 64, 100, 1000, 1024, 1025, 1500, 4097):
        mp = {x: num(k) for x in lens}
        fs = [(T.subst(c, mp), v) for c, v in st.facts.items()]
        if any(c.op == 'bool' and c.a[0] != v for c, v in fs):
            continue
        x, y = (unfold(T.subst(t, mp)) for t in (a, b))
        if x is None or y is None:
            return None
        if x is not y:
            return k
    return None


def unfold(t):
    """sums with constant bounds written out; None if a bound is not constant"""
    while True:
        inner = [x for x in T.subterms(t) if x.op == 'sum' and not T.contains(x.a[1], lambda y: y.op == 'sum')]
        if not inner:
            return t
        mp = {}
        for x in inner:
            n, body, bv = x.a
            if not T.is_int(n):
                if T.contains(x, lambda y: y.op == 'bv' and y is not bv):
                    outer = [z for z in T.subterms(t) if z.op == 'sum' and z is not x and T.contains(z.a[1], lambda y: y is x)]
                    if outer and T.is_int(outer[0].a[0]):
                        continue
                return None
            tot = num(0)
            if n.a[0] > 10000:
                return None
            parts = [T.subst(body, {bv: num(i)}) for i in range(n.a[0])]
            mp[x] = add_all(parts)
        if not mp:
            return None
        t = T.subst(t, mp)


def add_all(xs):
    while len(xs) > 1:
        xs = [T.add(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0] if xs else num(0)


def closed_sizes(t):
    """only sizes, lengths, sums and constants: differing normal forms differ as functions"""
    return not T.contains(t, lambda x: x.op in ('call', 'ev') and not (x.op == 'call' and '::size<' in x.a[0]))


def segment_offsets(ctx):
    f = ctx.provided('TdmsWriter', 'write_segment')
    r = ctx.run(f, opaque=is_codec, tag='codec')
    if r is None:
        return
    meta, data = r.args[2], r.args[3]
    seen = set()
    for st, v in r.ok():
        key = 'offsets:%s:%s' % (presence(st, meta), presence(st, data))
        try:
            ws = grammar(ctx, f, st.trace, st)
        except Bad as b:
            report(ctx, key, b, f)
            continue
        head, body = header_items(ws)
        if head is None:
            ctx.unsure('%s: header not recognised' % key)
            continue
        msz = num(0)
        dsz = num(0)
        for x in body:
            z = norm_size(ctx, item_size(ctx, x))
            if x[0] == 'meta':
                msz = T.add(msz, z)
            else:
                dsz = T.add(dsz, z)
        nxt, rw_ = norm_size(ctx, head[3]), norm_size(ctx, head[4])
        okb = True
        for what, got, want in (('next segment offset', nxt, T.add(msz, dsz)), ('raw data offset', rw_, msz)):
            if got is not want:
                okb = False
                if modelled(got) and closed_sizes(got):
                    ctx.fail(key + ':' + what.split()[0], 'the %s is %s but the bytes that follow amount to %s' % (what, show(got)[:160], show(want)[:160]), ctx.where(f))
                else:
                    ctx.unsure('%s: %s is %s' % (key, what, show(got)[:100]))
        if okb:
            ctx.good('segment offsets', key)
    return


def presence(st, opt):
    d = st.decide(T.isvar(opt, 0))
    return 'absent' if d is True else 'present' if d is False else 'either'


def header_items(ws):
    """(tag, toc, version, next offset, raw offset), rest -- or (None, ws)"""
    tag = []
    i = 0
    while i < len(ws) and ws[i][0] == 'val' and ws[i][1] == 'u8' and len(tag) < 4:
        tag.append(ws[i][2])
        i += 1
    if len(tag) == 0 and i < len(ws) and ws[i][0] == 'val' and ws[i][1] in ('u32',):
        tag = [ws[i][2]]
        i += 1
    toc = None
    if i < len(ws) and ws[i][0] == 'meta' and ws[i][1] == 'ToC':
        toc = ws[i][2]
        i += 1
    rest = ws[i:]
    if toc is None or len(rest) < 3 or [x[:2] for x in rest[:3]] != [('val', 'u32'), ('val', 'u64'), ('val', 'u64')]:
        return None, ws
    return (tag, toc, rest[0][2], rest[1][2], rest[2][2]), rest[3:]


def total_size(ctx):
    f = ctx.inherent('Segment', 'total_size_bytes')
    p, vs = ctx.variants('Segment')
    r = ctx.run(f)
    if r is None:
        return
    nx = M.project(raw('*', r.args[0]), ('f', ctx.field('Segment', 'next_segment_offset')))
    for st, v in r.ok():
        if v is T.add(nx, num(28)):
            ctx.good('total size')
        elif modelled(v):
            ctx.fail('total-size', 'a segment is taken to occupy %s bytes, it occupies its declared length plus the 28 byte header' % show(v)[:100], ctx.where(f))
        else:
            ctx.unsure('total size is %s' % show(v)[:100])


# ------------------------------------------------------------------ C12
def toc_fields(ctx):
    p, vs = ctx.variants('ToC')
    return p, vs[0]['fields']


@rule('C12')
def c12(ctx):
    """Every path of the segment writer emits tag, flags, version, offsets, meta data and data in that order, with the flags that
    say what follows, and returns a description equal to what it wrote; composing the emitted header with every path of the
    segment reader (all combinations of byte order and presence flags) the reader consumes exactly 28 bytes, in the segment's
    byte order, returns the same flags and offsets and reads meta data exactly when the flag says so."""
    f = ctx.provided('TdmsWriter', 'write_segment')
    r = ctx.run(f, opaque=is_codec, tag='codec')
    tp, tf = toc_fields(ctx)
    sp, svs = ctx.variants('Segment')
    sf = svs[0]['fields']
    need = ['toc', 'next_segment_offset', 'raw_data_offset', 'meta_data']
    for n in need:
        ctx.field('Segment', n)
    for n in ('big_endian', 'contains_meta_data', 'contains_raw_data', 'contains_new_object_list', 'data_is_interleaved', 'contains_daqmx_raw_data'):
        ctx.field('ToC', n)
    if r is not None:
        toc0, meta, data = r.args[1], r.args[2], r.args[3]
        for st, v in r.ok():
            pm, pd = presence(st, meta), presence(st, data)
            key = 'segment:meta %s:data %s' % (pm, pd)
            try:
                ws = grammar(ctx, f, st.trace, st)
            except Bad as b:
                report(ctx, key, b, f)
                continue
            head, body = header_items(ws)
            if head is None:
                ctx.unsure('%s: header not recognised' % key)
                continue
            tag, toc, ver, nx, rw_ = head
            tagbytes = [x.a[0] if x.op == 'int' else None for x in tag]
            if tagbytes != [0x54, 0x44, 0x53, 0x6D]:
                (ctx.fail if all(x is not None for x in tagbytes) else (lambda *a: ctx.unsure(a[1])))(key + ':tag', 'the segment starts with %s instead of TDSm' % tagbytes, ctx.where(f))
            if not T.is_int(ver, 4713):
                (ctx.fail if T.is_int(ver) else (lambda *a: ctx.unsure(a[1])))(key + ':version', 'the version field is %s instead of 4713' % show(ver)[:40], ctx.where(f))
            if 'either' in (pm, pd):
                ctx.unsure('%s: presence undecided' % key)
                continue
            # flags
            okf = True
            for i, n in enumerate(tf):
                got = st.simp(M.project(toc, ('f', i)))
                if n == 'contains_meta_data':
                    want = T.boolean(pm == 'present')
                elif n == 'contains_raw_data':
                    want = T.boolean(pd == 'present')
                elif n == 'big_endian':
                    if got.op == 'cst' and 'BIG_ENDIAN' in str(got.a[1]):
                        continue
                    okf = False
                    if modelled(got):
                        ctx.fail(key + ':flag:' + n, 'the byte order flag is %s, not that of the writer' % show(got)[:60], ctx.where(f))
                    continue
                else:
                    want = M.project(toc0, ('f', i))
                if want.op == 'bool' and got.op != 'bool':
                    d = st.decide(got)
                    got = got if d is None else T.boolean(d)
                if got is not want:
                    okf = False
                    if modelled(got):
                        ctx.fail(key + ':flag:' + n, 'flag %s is written as %s instead of %s' % (n, show(got)[:60], show(want)[:60]), ctx.where(f))
                    else:
                        ctx.unsure('%s: flag %s is %s' % (key, n, show(got)[:60]))
            # what follows
            kinds = [x[0] for x in body]
            wantk = (['meta'] if pm == 'present' else []) + (['block'] if pd == 'present' else [])
            if kinds != wantk:
                ctx.fail(key + ':order', 'the header is followed by %s instead of %s' % (kinds, wantk), ctx.where(f))
                okf = False
            for x in body:
                src = M.project(meta if x[0] == 'meta' else data, ('v', 1, 0))
                if st.simp(x[2]) is not st.simp(src):
                    if modelled(x[2]):
                        ctx.fail(key + ':content', '%s is written instead of the given %s' % (show(x[2])[:80], x[0]), ctx.where(f))
                    okf = False
            # returned description
            for n, want in (('toc', toc), ('next_segment_offset', nx), ('raw_data_offset', rw_), ('meta_data', meta)):
                got = st.simp(M.project(v, ('f', sf.index(n))))
                if got is want or got is st.simp(want):
                    continue
                if all(st.simp(M.project(got, ('f', i))) is st.simp(M.project(want, ('f', i))) for i in range(len(tf))) and n == 'toc':
                    continue
                okf = False
                if modelled(got):
                    ctx.fail(key + ':returned:' + n, 'the segment returned to the index has %s = %s but %s was written' % (n, show(got)[:100], show(want)[:100]), ctx.where(f))
                else:
                    ctx.unsure('%s: returned %s is %s' % (key, n, show(got)[:80]))
            if okf:
                ctx.good('segment writer paths', key)
    read_side(ctx, tp, tf, sp, sf)
    ctx.floor('segment writer paths', 4)
    ctx.floor('headers read back', 64)


BITS = {'contains_meta_data': 1, 'contains_new_object_list': 2, 'contains_raw_data': 3, 'data_is_interleaved': 5,
        'big_endian': 6, 'contains_daqmx_raw_data': 7}


def read_side(ctx, tp, tf, sp, sf):
    rd = ctx.inherent('Segment', 'read')
    rr = ctx.run(rd, opaque=is_codec, tag='codec')
    if rr is None:
        return
    nx, rw_ = raw('sym', 'next_offset'), raw('sym', 'raw_offset')
    T.set_ty(nx, 'u64')
    T.set_ty(rw_, 'u64')
    orders = reader_orders(ctx)
    for combo in range(64):
        flags = {n: bool(combo >> i & 1) for i, n in enumerate(sorted(BITS))}
        word = sum(1 << BITS[n] for n in flags if flags[n])
        o = 'be' if flags['big_endian'] else 'le'
        stream = M.cat(M.seq(num(0x54), num(0x44), num(0x53), num(0x6D)), M.seq(*[num(b) for b in word.to_bytes(4, 'little')]),
                       models.tobytes(num(4713), o, 'u32', 4), models.tobytes(nx, o, 'u64', 8), models.tobytes(rw_, o, 'u64', 8))
        key = 'header:%s' % '+'.join(n for n in sorted(flags) if flags[n])
        hits = 0
        for kind, exits in (('ok', rr.ok()), ('err', rr.err())):
            for st, v in exits:
                res = feed_header(ctx, rd, st, stream)
                if res is None:
                    continue
                sub, pos, metas = res
                facts = [(sub(c), b) for c, b in st.facts.items()]
                if any(c.op == 'bool' and c.a[0] != b for c, b in facts):
                    continue
                if kind == 'err':
                    v2 = sub(v)
                    if T.contains(v2, lambda x: x.op == 'ev'):
                        continue
                    if any(c.op != 'bool' for c, b in facts) and sample(facts, nx, rw_, flags['contains_meta_data'], True) is None:
                        ctx.unsure('%s: undecided error path' % key)
                    else:
                        ctx.fail(key + ':rejected', 'a header written by the library is rejected: %s' % show(v2)[:80], ctx.where(rd))
                        return
                    continue
                fix = {}
                if any(c.op != 'bool' for c, b in facts):
                    fix = sample(facts, nx, rw_, flags['contains_meta_data'], False)
                    if fix is None:
                        ctx.unsure('%s: undecided path %s' % (key, [show(c)[:60] for c, b in facts if c.op != 'bool'][0]))
                        continue
                hits += 1
                v2 = T.subst(sub(v), fix)
                good = True
                if not T.is_int(pos, 28):
                    good = False
                    ctx.fail('header:length', 'the reader consumes %s bytes of header instead of 28' % show(pos)[:40], ctx.where(rd))
                toc = M.project(v2, ('f', sf.index('toc')))
                for i, n in enumerate(tf):
                    g = M.project(toc, ('f', i))
                    if g.op == 'bool' and g.a[0] != flags.get(n, g.a[0]):
                        good = False
                        ctx.fail('header:flag:%s' % n, 'flag %s is read as %s from a header with %s' % (n, show(g), key), ctx.where(rd))
                    elif g.op != 'bool':
                        good = False
                        ctx.unsure('%s: flag %s is %s' % (key, n, show(g)[:60]))
                for n, want in (('next_segment_offset', fix.get(nx, nx)), ('raw_data_offset', fix.get(rw_, rw_))):
                    g = M.project(v2, ('f', sf.index(n)))
                    if g is not want:
                        good = False
                        if modelled(g):
                            ctx.fail('header:%s:%s' % (n, o), '%s is read as %s' % (n, show(g)[:120]), ctx.where(rd))
                        else:
                            ctx.unsure('%s: %s is %s' % (key, n, show(g)[:60]))
                md = M.project(v2, ('f', sf.index('meta_data')))
                isnone = T.isvar(md, 0)
                want = 1 if flags['contains_meta_data'] else 0
                if len(metas) != want:
                    good = False
                    ctx.fail('header:meta:%s' % want, 'meta data is read %d times from a segment whose flag is %s' % (len(metas), bool(want)), ctx.where(rd))
                elif isnone.op != 'bool':
                    good = False
                    ctx.unsure('%s: meta data is %s' % (key, show(md)[:60]))
                elif isnone.a[0] == bool(want):
                    good = False
                    ctx.fail('header:meta-dropped', 'the segment read %s meta data although the flag is %s' % ('has no' if want else 'has', bool(want)), ctx.where(rd))
                elif want and M.project(md, ('v', 1, 0)) is not M.project(metas[0].a[4], OKV):
                    good = False
                    ctx.unsure('%s: meta data is %s' % (key, show(md)[:60]))
                for e in metas:
                    used = [x for t, x in orders.items() if t in e.a[0]]
                    if used and used[0] and used[0] != o:
                        good = False
                        ctx.fail('header:meta-order', 'meta data of a %s endian segment is read in the other byte order' % ('big' if flags['big_endian'] else 'little'), ctx.where(rd))
                if good:
                    ctx.good('headers read back')
        if not hits and not ctx.undec:
            ctx.fail(key + ':none', 'no path of the reader accepts a header written by the library', ctx.where(rd))


def sample(facts, nx, rw_, meta, written):
    """offsets of a header under which every fact of a path holds: a witness that the path is taken. written: only
    offsets the library itself writes"""
    raws = [28, 4, 1 << 33] if meta else [0]
    if not written:
        raws += [0, 1, 27, (1 << 64) - 1]
    for r in raws:
        for n in [r, r + 8, r + 1, r + (1 << 33)] + ([] if written else [0, 1, (1 << 64) - 1]):
            if n >= 1 << 64:
                continue
            mp = {nx: num(n), rw_: num(r)}
            got = [(T.subst(c, mp), b) for c, b in facts]
            if all(c.op == 'bool' and c.a[0] == b for c, b in got):
                return mp
    return None


def feed_header(ctx, fn, st, stream):
    pos = num(0)
    env = {}

    def f(x):
        if x.op == 'rdbytes':
            return env.get(x.a[0])
        return None

    def sub(t):
        return map_ev(t, f)
    metas = []
    for e in expand(st.trace, st):
        if e.op != 'E':
            ctx.unsure('%s: loop in the header' % fn['path'])
            return None
        n = ev_name(e)
        if n == 'read_exact':
            k = sub(e.a[3][1])
            env[e.a[1]] = norm_bytes(M.slice_(stream, pos, T.add(pos, k)))
            pos = T.add(pos, k)
        elif n == 'read' and 'TdmsMetaData' in ev_def(e):
            metas.append(e)
        elif n in ('read', 'read_to_end'):
            ctx.fail('header:partial', 'the header is read with %s, which may return part of the bytes' % n, ctx.where(fn))
            return None
        else:
            ctx.unsure('%s: unexpected effect %s' % (fn['path'], n))
            return None
    return sub, pos, metas
