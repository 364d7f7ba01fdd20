"""Sample counts: chunks per block, samples per channel and block, channel lengths."""
import itertools
from .. import mem as M
from .. import terms as T
from ..check import modelled, show
from ..terms import num, raw, add, sub, mul
from .index import Session, GaveUp, Hist, struct, sym, under, le, MAX64, getf, bad
from .reading import find, feasible, rewrite, always

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


class Counted:
    """a data block with the given channels ('f' fixed size, 'v' variable size, 'z' fixed size without values)"""

    def __init__(self, ctx, kinds):
        self.ctx, self.kinds = ctx, kinds
        s = self.s = Session(ctx, 4)
        dt = ctx.variants('DataType')[0]
        self.n, self.size, self.tot, metas, types = [], [], [], [], {}
        for i, k in enumerate(kinds):
            t = sym('type%d' % i)
            T.set_adt(t, dt)
            types[t] = i
            self.n.append(num(0) if k == 'z' else sym('n%d' % i, 'u64'))
            z = sym('size%d' % i, 'u8')
            self.size.append(z)
            self.tot.append(sym('total%d' % i, 'u64'))
            metas.append(struct(ctx, 'RawDataMeta', data_type=t, number_of_values=self.n[-1],
                                total_size_bytes=M.some(self.tot[-1]) if k == 'v' else M.none()))
        self.len = sym('length', 'u64')
        s.st.assume(T.eq(self.len, num(0)), False)
        self.block = struct(ctx, 'DataBlock', start=sym('start', 'u64'), length=self.len, channels=M.seq(*metas), layout=sym('layout'), byte_order=sym('order'))
        me = self

        def size(ip, st, call):
            a = call.args[0]
            v = st.simp(st.read(M.place_of(a))) if a not in types else a
            return [(st, me.size[types[v]])] if v in types else None
        s.ip.hooks[find(ctx, 'DataType', 'size')['path']] = size
        self.S, self.fits = num(0), []
        for i, k in enumerate(kinds):
            x = self.tot[i] if k == 'v' else mul(self.n[i], self.size[i])
            if not T.is_int(x):
                self.fits.append(le(x, num(MAX64)))
            self.S = add(self.S, x)
        self.fits.append(le(self.S, num(MAX64)))

    def call(self, fn, *more):
        a = self.ctx.args(fn, 'self', *['a%d' % i for i in range(len(more))])
        st = self.s.st.copy()
        st.write(M.place_of(a[0]), self.block)
        return self.s.split(self.s.call(fn, [a[0]] + list(more), st))

    def chunks(self, st):
        """-> (state, expected number of chunks)"""
        if 'v' in self.kinds:
            yield st, num(1)
            return
        for s, z in st.branch(T.eq(self.S, num(0))):
            yield s, num(0) if z else T.div(self.len, self.S)


def names(kinds):
    return ', '.join({'f': 'fixed size', 'v': 'variable size', 'z': 'no values'}[k] for k in kinds) or 'no channels'


@rule('C29')
def c29(ctx):
    """Value analysis of the counting functions: chunks of a block, samples of a channel in a block and the length of a channel as
    normal forms over symbolic sizes and counts; refusals only when the chunk size or the count does not fit 64 bits."""
    try:
        chunks, samples = find(ctx, 'DataBlock', 'number_of_chunks'), find(ctx, 'DataBlock', 'channel_samples')
        find(ctx, 'DataType', 'size')
    except LookupError as e:
        ctx.unsure('no function %s' % e)
        return
    top = 4 if ctx.tier == 'thorough' else 3
    for n in range(top + 1):
        for kinds in itertools.product('fvz' if n < 4 else 'fv', repeat=n):
            todo = [(chunks, None)] + [(samples, i) for i in range(n)]
            for fn, i in todo:
                b = Counted(ctx, kinds)
                what = 'block with %s: %s' % (names(kinds), 'chunks' if i is None else 'samples of channel %d' % i)
                try:
                    ok, er = b.call(fn, *([] if i is None else [num(i)]))
                except GaveUp as e:
                    ctx.unsure('%s: %s' % (what, e))
                    continue
                where = ctx.where(fn)
                for st, v in ok:
                    for s, e in b.chunks(st):
                        if i is not None:
                            e = mul(b.n[i], e)
                        v2, e = s.simp(v), s.simp(e)
                        if v2 is e or always(s, sub(v2, e)) is True:
                            ctx.count('counts')
                        elif feasible(s):
                            bad(ctx, 'count:%s' % fn['name'], '%s are %s, expected %s' % (what, show(v2)[:120], show(e)[:120]), where, v2)
                for st, e in er:
                    s2 = under(st, b.fits)
                    for s, k in b.chunks(s2) if s2 is not None and feasible(s2) else ():
                        conds = [le(mul(b.n[i], k), num(MAX64))] if i is not None else []
                        s = under(s, conds)
                        if s is not None and feasible(s):
                            bad(ctx, 'refused:%s' % fn['name'], '%s: refused with %s although the counts fit' % (what, show(e)[:80]), where, *[c for c in s.facts if s.facts[c] and c.op not in ('eq0', 'le0')][:1] or [e])
                            break
                    else:
                        ctx.count('refusals')
    lengths(ctx)
    ctx.floor('counts', 40)
    ctx.floor('channel lengths', 8)


def lengths(ctx):
    hists = [((), [(True, True, [('p', 'A', ())])]),
             ((), [(True, True, [('p', 'A', ()), ('q', 'B', ())])]),
             ((), [(True, True, [('p', 'A', ())]), (False, True, None)]),
             ((), [(True, True, [('p', 'A', ())]), (False, True, [('q', 'B', ())])]),
             ((), [(True, True, [('p', 'A', ())]), (True, True, [('q', 'B', ())]), (True, True, [('p', 'C', ())])]),
             ((), [(True, False, [('p', None, ())])])]
    for exists, hist in hists:
        h = Hist(ctx, 'pqr')
        states = [h.start(exists)]
        what = 'after %d segments' % len(hist)
        try:
            for sg in hist:
                states = [x for st in states for x, _ in h.feed([st], h.segment(*sg))[0]]
            for st in states:
                for p in 'pqr':
                    for s, pos in h.positions(st, p):
                        for s2, v in h.query(s, 'channel_length', h.paths[p]):
                            length(ctx, h, s2, p, pos, v, what)
        except GaveUp as e:
            ctx.unsure('%s: %s' % (what, e))


def length(ctx, h, st, p, pos, v, what):
    where = ctx.where(ctx.inherent('Index', 'channel_length'))
    known, x = h.option(st, v)
    if not known:
        ctx.unsure('%s: length of %s: %s' % (what, p, show(v)[:120]))
        return
    if (x is None) != (pos is None):
        ctx.fail('length:exists', '%s: the length of object %s is %s although it %s' % (what, p, 'not known' if x is None else 'reported', 'exists' if x is None else 'does not exist'), where)
        return
    if x is None:
        ctx.count('channel lengths')
        return
    n = M.length(pos)
    if not T.is_int(n):
        ctx.unsure('%s: number of locations %s' % (what, show(n)))
        return
    tot = num(0)
    for j in range(n.a[0]):
        tot = add(tot, st.simp(getf(ctx, 'DataLocation', st.simp(M.index(pos, num(j))), 'number_of_samples')))
    e = T.mk_min(tot, num(MAX64))
    x = st.simp(x)
    if x is st.simp(e) or always(st, sub(x, e), 4) is True or always(st, sub(x, tot), 4) is True:
        ctx.count('channel lengths')
    else:
        bad(ctx, 'length', '%s: the length of object %s is %s, expected %s' % (what, p, show(x)[:160], show(tot)[:160]), where, x)
