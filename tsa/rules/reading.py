"""Reading data: which bytes of a data block end up where in the caller's buffers.

The block readers are composed with a symbolic block (chunk lengths, block start, skips, buffer lengths symbolic; the number of
channels, of chunks and the chunk a skip falls into are case-split) and a reader that only records its calls. The trace of
positioning and reading calls gives every value read its file position as a normal form; the buffers' final contents give every
value the slot it was stored in. Both are compared with the layout rules of the file format.
"""
import itertools
from .. import interp as I
from .. import mem as M
from .. import terms as T
from ..check import Stop, modelled, show, strip_generics
from ..terms import num, raw, add, sub, mul
from .index import Session, GaveUp, struct, variant, sym, under, getf

RULES = {}
OKV = ('v', 0, 0)


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


PRIMS = ('read_value', 'move_position', 'to_file_position')


def sized(n, ty='n61'):
    return sym(n, ty)


class Block:
    """a symbolic data block with nch channels, chunks (or rows) many of them, read for the channels req"""

    def __init__(self, ctx, fn, layout, order, nch, req, count, chunks, skips=None, empty=(), same=False, unroll=None, lens=None, types=None):
        self.ctx, self.fn, self.req, self.nch, self.count = ctx, ctx.inherent('DataBlock', fn), req, nch, count
        self.name, self.layout = fn, layout
        ops = lambda c: c.name in PRIMS
        self.s = Session(ctx, unroll if unroll is not None else max(nch, count, 2) + 1, opaque=ops, budget=200000)
        self.sz = raw('cst', 'io::data_types::TdmsStorageType', 'SIZE_BYTES', ('D',))
        T.set_ty(self.sz, 'usize')
        T.BOUND[self.sz] = (1, 2 ** 61)
        self.n = []          # values per chunk
        self.size = []       # bytes per value
        self.skip = {}
        skips = skips or {}
        for i in range(nch):
            if i in empty:
                n = num(0)
            elif same:
                n = add(add(sized('r'), sized('m')), num(1))
            else:
                n = add(add(sized('r%d' % i), sized('m%d' % i)), num(1))
            self.n.append(n)
            self.size.append(self.sz if i in req else sized('size%d' % i))
            T.BOUND[self.size[-1]] = (1, 2 ** 61)
        for i in req:
            k = skips.get(i)
            if k is None:
                self.skip[i] = num(0)
            elif layout == 'Interleaved':
                self.skip[i] = k if isinstance(k, T.Term) else num(k)
            else:
                self.skip[i] = add(mul(num(k), self.n[i]), num(0) if i in empty else sized('r' if same else 'r%d' % i))
        self.start = sized('start')
        if layout == 'Interleaved':
            S = num(0)
            for z in self.size:
                S = add(S, z)
        else:
            S = num(0)
            for n, z in zip(self.n, self.size):
                S = add(S, mul(n, z))
        self.S = S
        if chunks is None:
            self.len = sized('len')
        else:
            # a trailing partial chunk never holds a whole sample of every channel
            self.len = add(mul(num(count), S), sub(S, num(1)) if chunks == 'rest' else num(0))
        st = self.s.st
        if T.is_int(S, 0):
            self.len = sized('len')
        else:
            st.assume(T.eq(S, num(0)), False)
        for i in range(nch):
            st.assume(T.eq(self.size[i], num(0)), False)
            st.assume(T.le(mul(self.n[i], self.size[i]), num(2 ** 62)), True)
        st.assume(T.le(add(self.start, self.len), num(2 ** 63 - 1)), True)
        dt = ctx.variants('DataType')[0]
        metas = []
        self.lens = lens or {}
        for i, n in self.lens.items():
            L = self.length(i)
            # a length of count + 1 stands for every longer buffer as well
            st.assume(T.le(num(n), L) if n > count else T.eq(L, num(n)), True)
        self.types = []
        for i in range(nch):
            t = sym('type%d' % i)
            T.set_adt(t, dt)
            if types is not None:
                t = M.adt(dt, types[i], ())
            self.types.append(t)
            metas.append(struct(ctx, 'RawDataMeta', data_type=t, number_of_values=self.n[i], total_size_bytes=M.none()))
        lp, li = variant(ctx, 'DataLayout', layout)
        ep, ei = variant(ctx, 'Endianess', order)
        self.block = struct(ctx, 'DataBlock', start=self.start, length=self.len, channels=M.seq(*metas),
                            layout=M.adt(lp, li, ()), byte_order=M.adt(ep, ei, ()))
        if types is None:
            self.hooks()

    def hooks(self):
        types = {t: i for i, t in enumerate(self.types)}
        me = self

        def size(ip, st, call):
            a = call.args[0]
            v = st.simp(st.read(M.place_of(a))) if a.op != 'sym' or a not in types else a
            if v in types:
                return [(st, me.size[types[v]])]
            return None
        self.s.ip.hooks[self.ctx.inherent('DataType', 'size')['path']] = size

    def run(self):
        """-> ([(state, value)], [(state, error)])"""
        ctx, s = self.ctx, self.s
        a = ctx.args(self.fn, 'self', 'reader', 'chans', 'start_sample')
        st = s.st.copy()
        st.write(M.place_of(a[0]), self.block)
        elems = []
        self.out = {}
        for i in self.req:
            o = sym('out%d' % i)
            self.out[i] = o
            if self.name == 'read_with_per_channel_skip':
                elems.append(struct(ctx, 'BlockReadChannelConfig', channel_index=num(i), samples_to_skip=self.skip[i], output=o))
            else:
                elems.append(M.tup(num(i), o))
        st.write(M.place_of(a[2]), M.seq(*elems))
        if self.name == 'read_from':
            st = under(st, [])
            a[3] = self.skip[self.req[0]]
        self.st = st
        return s.split(s.call(self.fn, a, st))

    # ---- what the trace did
    def buffer(self, st, i):
        return st.simp(st.read(M.place_of(self.out[i])))

    def length(self, i):
        return M.length(raw('*', sym('out%d' % i)))


class Lost(Exception):
    pass


def positions(st, trace, size):
    """-> {result of a read: file position}, reader types; positions are normal forms"""
    pos = None
    out = {}
    kinds = set()

    def walk(tr, pos, bvs=()):
        for e in tr:
            if e.op == 'E':
                name = e.a[0].split('<')[0].rstrip(':').split('::')[-1]
                kinds.add(e.a[0])
                if name == 'to_file_position':
                    pos = e.a[3][1]
                elif name == 'move_position':
                    if pos is None:
                        raise Lost('the reader moves before it is positioned')
                    pos = add(pos, e.a[3][1])
                elif name == 'read_value':
                    if pos is None:
                        raise Lost('a value is read before the reader is positioned')
                    out[e.a[4]] = (pos, bvs)
                    pos = add(pos, size)
                else:
                    raise Lost('unknown event %s' % name)
            elif e.op == 'LP':
                key, n, bv, paths = e.a
                if pos is None:
                    raise Lost('a loop runs before the reader is positioned')
                deltas = set()
                for p in paths:
                    d = delta(p.a[1])
                    deltas.add(d)
                if len(deltas) != 1:
                    raise Lost('the iterations of a loop move differently')
                d, = deltas
                if T.mentions(d, {bv}):
                    raise Lost('the iterations of a loop move differently')
                for p in paths:
                    walk(p.a[1], add(pos, mul(bv, d)), bvs + (bv,))
                pos = add(pos, mul(n, d))
            else:
                raise Lost('unknown record %s' % e.op)
        return pos

    def delta(tr):
        d = num(0)
        for e in tr:
            if e.op == 'E':
                name = e.a[0].split('<')[0].rstrip(':').split('::')[-1]
                if name == 'move_position':
                    d = add(d, e.a[3][1])
                elif name == 'read_value':
                    d = add(d, size)
                else:
                    raise Lost('%s in a loop' % name)
            else:
                ds = {delta(p.a[1]) for p in e.a[3]}
                if len(ds) != 1:
                    raise Lost('the iterations of a loop move differently')
                x, = ds
                if T.mentions(x, {e.a[2]}):
                    raise Lost('the iterations of a loop move differently')
                d = add(d, mul(e.a[1], x))
        return d
    walk(trace, None)
    return out, kinds


def layers(v, orig):
    """the stores into a buffer, oldest first: [(first slot, count, bound variable, value)]"""
    out = []
    while v is not orig:
        if v.op == 'fill':
            v0, n, b, g = v.a
            out.append((num(0), n, b, g))
        elif v.op == 'fillat':
            v0, off, n, b, g = v.a
            out.append((off, n, b, g))
        elif v.op == 'upd' and v.a[1][0] == 'i':
            v0 = v.a[0]
            out.append((v.a[1][1], num(1), None, v.a[2]))
        else:
            raise Lost('buffer contents %s' % show(v)[:120])
        v = v0
    out.reverse()
    return out


def value_pos(reads, g, b):
    """file position of the value read g, as a function of the slot variable b"""
    if g.op != 'v' or g.a[1:] != OKV[1:] and M.project(g.a[0], OKV) is not g:
        raise Lost('stored value %s' % show(g)[:100])
    ev = g.a[0]
    for r, (pos, bvs) in reads.items():
        if not bvs:
            if r is ev:
                return pos
            continue
        if b is not None and T.subst(ev, {b: bvs[-1]}) is r:
            return T.subst(pos, {bvs[-1]: b})
    raise Lost('stored value %s' % show(g)[:100])


def expect_contiguous(blk, i):
    """[(first slot, count, position of the first)] of the channel's stores, one per chunk"""
    n, L = blk.n[i], blk.length(i)
    base = blk.start
    for j in range(i):
        base = add(base, mul(blk.n[j], blk.size[j]))
    off = num(0)
    out = []
    skip = blk.skip[i]
    for c in range(blk.count):
        first = T.mk_min(T.satsub(skip, mul(num(c), n)), n)
        have = sub(n, first)
        cnt = T.mk_min(have, sub(L, off))
        out.append((off, cnt, add(add(base, mul(num(c), blk.S)), mul(first, blk.sz))))
        off = add(off, cnt)
    return out


def expect_interleaved(blk, i):
    base = blk.start
    for j in range(i):
        base = add(base, blk.size[j])
    L, skip = blk.length(i), blk.skip[i]
    out = []
    for row in range(blk.count):
        out.append((row, add(base, mul(num(row), blk.S))))
    return out


def zero(st, t):
    """True when t is 0 under the facts, False when it never is, None otherwise"""
    t = st.simp(t)
    if T.is_int(t):
        return t.a[0] == 0
    return st.decide(T.eq(t, num(0)))


EQ = {}


def equalities(st):
    """linear equations that hold in st"""
    r = EQ.get(id(st))
    if r is not None and r[0] is st and r[1] == len(st.facts):
        return r[2]
    out = []
    if len(EQ) > 200:
        EQ.clear()
    EQ[id(st)] = st, len(st.facts), out
    for c, v in st.facts.items():
        if c.op == 'eq0' and v:
            out.append(c.a[0])
        elif c.op == 'le0' and v and c.a[0].op == 'poly' and st.implied(T.neg(c.a[0])):
            out.append(c.a[0])
    return out


def rewrite(st, t):
    """replace atoms of t that an equation defines"""
    for p in equalities(st):
        c, d = T.to_poly(p)
        best = None
        for m, k in d.items():
            if len(m) == 1 and k in (1, -1) and T.mentions(t, {m[0]}):
                rank = (m[0].op not in ('min', 'max', 'satsub'), -m[0].id)
                if best is None or rank < best[0]:
                    best = rank, m[0], k
        if best is not None:
            _, x, k = best
            val = sub(x, mul(num(k), p))      # p == k*x + rest == 0, so x == x - k*p
            if not T.mentions(val, {x}):
                t = T.subst(t, {x: val})
    return t


def always(st, t, depth=6):
    """decide t == 0 with case splits over the gates and minima in t: True, or a refuting (state, term), or None"""
    d = zero(st, t)
    if d is True:
        return True
    if d is False:
        return st, t
    t = st.simp(t)
    t2 = rewrite(st, t)
    if t2 is not t:
        d = zero(st, t2)
        if d is not None:
            return True if d else (st, t2)
        t = st.simp(t2)
    if not depth or innermost(t) is None:
        return None
    res = True
    for s, p in plain(st, t, depth):
        if innermost(p) is not None:
            r = None
        else:
            p = rewrite(s, p)
            d = zero(s, p)
            r = True if d else (s, p) if d is False else None
        if r is not True:
            res = r
            if r is not None:
                return r
    return res


def coalesce(st, ls, sz):
    """drop empty stores and join adjacent ones whose source is adjacent too"""
    out = []
    for o, n, p in ls:
        if always(st, n, 2) is True:
            continue
        if out:
            o1, n1, p1 = out[-1]
            if always(st, sub(add(o1, n1), o), 2) is True and always(st, sub(add(p1, mul(n1, sz)), p), 2) is True:
                out[-1] = (o1, add(n1, n), p1)
                continue
        out.append((o, n, p))
    return out


GATES = ('min', 'max', 'satsub', 'ite')


def innermost(t):
    xs = [x for x in T.subterms(t) if x.op in GATES]
    for x in xs:
        if not any(y is not x and y.op in GATES for y in T.subterms(x)):
            return x
    return xs[0] if xs else None


def plain(st, t, depth=6):
    """-> (state, t without gates, minima and saturations)"""
    t = st.simp(t)
    x = innermost(t) if depth else None
    if x is None:
        yield st, t
        return
    if x.op == 'ite':
        c = x.a[0]
    else:
        c = T.le(x.a[0], x.a[1])
    for s, b in st.branch(c):
        if x.op == 'ite':
            y = x.a[1] if b else x.a[2]
        elif x.op == 'satsub':
            y = num(0) if b else sub(x.a[0], x.a[1])
        else:
            f = T.mk_min if x.op == 'min' else T.mk_max
            y = x.a[0] if b == (x.op == 'min') else x.a[1]
            for z in x.a[2:]:
                y = f(y, z)
        yield from plain(s, T.subst(t, {x: y}), depth - 1)


def feasible(st):
    """False when the facts contradict each other"""
    s2 = st.copy()
    for c, v in st.facts.items():
        if c.op in ('le0', 'eq0') and innermost(c.a[0]) is not None:
            t = st.simp(c.a[0])
            if t is not c.a[0] and not s2.assume(T.le0(t) if c.op == 'le0' else T.eq(t, num(0)), v):
                return False
    for c, v in st.facts.items():
        if c.op not in ('le0', 'eq0'):
            continue
        t = rewrite(st, c.a[0])
        for s, p in plain(st, t, 3):
            lo, hi = T.lower(p), T.upper(p)
            if c.op == 'le0':
                bad = (lo is not None and lo > 0) if v else (hi is not None and hi <= 0)
            else:
                bad = ((lo is not None and lo > 0) or (hi is not None and hi < 0)) if v else (lo == 0 and hi == 0)
            if not bad:
                break
        else:
            return False
    return True


def splits(st, ls, depth=5):
    """states in which it is decided which of the stores are empty"""
    for o, n, p in ls:
        if st.decide(T.eq(n, num(0))) is not None:
            continue
        if depth:
            for s, m in plain(st, n):
                m = rewrite(s, m)
                for s2, b in s.branch(T.eq(m, num(0))):
                    s2 = s2.copy()
                    if s2.assume(T.eq(n, num(0)), b):
                        yield from splits(s2, ls, depth - 1)
            return
    yield st


def same_stores(st, got, exp, sz):
    """None when both lists store the same bytes in the same slots, ('no', why) or ('unknown', why)"""
    verdict = None
    for s in splits(st, list(got) + list(exp)):
        g, e = coalesce(s, got, sz), coalesce(s, exp, sz)
        if len(g) != len(e):
            why = 'stores %s, expected %s' % (txt(s, g), txt(s, e))
            whole = all(s.decide(T.eq(n, num(0))) is False for _, n, _ in g + e)
            if not feasible(s):
                continue
            if whole and all(modelled(x) for l in g for x in l):
                return 'no', why
            verdict = 'unknown', why
            continue
        for a, b in zip(g, e):
            for what, x, y in zip(('first slot', 'number of values', 'file position'), a, b):
                r = always(s, sub(x, y))
                if r is True:
                    continue
                why = '%s %s, expected %s' % (what, show(s.simp(x)), show(s.simp(y)))
                if r is not None and not feasible(r[0]):
                    continue
                if r is not None and modelled(x):
                    return 'no', why
                verdict = 'unknown', why
    return verdict


def txt(st, ls):
    return '; '.join('%s values from %s to slot %s' % (show(st.simp(n)), show(st.simp(p)), show(st.simp(o))) for o, n, p in ls) or 'nothing'


def describe(b):
    return '%s of %s data, %d channels%s, reading %s, %d %s%s' % (
        b.name, b.layout.lower(), b.nch, '' if all(not T.is_int(n, 0) for n in b.n) else ' (some without values)', b.req, b.count,
        'rows' if b.layout == 'Interleaved' else 'chunks',
        ', skipping %s' % ', '.join(show(b.skip[i]) for i in b.req) if any(not T.is_int(b.skip[i], 0) for i in b.req) else '')


def check_block(ctx, key, b, order, expect, what):
    try:
        ok, er = b.run()
    except GaveUp as e:
        ctx.unsure('%s: %s' % (describe(b), e))
        return
    where = ctx.where(b.fn)
    if not ok:
        ctx.unsure('%s: no successful outcome found' % describe(b))
        return
    ctx.count('cases')
    for st, v in ok:
        try:
            reads, kinds = positions(st, st.trace, b.sz)
            for i in b.req:
                got = []
                for o, n, bv, g in layers(b.buffer(st, i), raw('*', b.out[i])):
                    p = value_pos(reads, g, bv)
                    if bv is not None:
                        q = T.subst(p, {bv: num(0)})
                        if always(st, sub(p, add(q, mul(bv, b.sz))), 1) is not True:
                            raise Lost('the values stored in a row are not read in a row')
                        p = q
                    got.append((o, n, p))
                exp = expect(b, i)
                r = same_stores(st, got, exp, b.sz)
                if r is None:
                    ctx.count(what)
                elif r[0] == 'no':
                    ctx.fail('%s:%s' % (key, b.name), '%s: channel %d: %s' % (describe(b), i, r[1]), where)
                else:
                    ctx.unsure('%s: channel %d: %s' % (describe(b), i, r[1]))
        except Lost as e:
            ctx.unsure('%s: %s' % (describe(b), e))


def contiguous_cases(tier):
    """(function, channels, requested, chunks, skips, empty, same length)"""
    top = 3 if tier == 'thorough' else 2
    for nch, req in ((1, [0]), (2, [0]), (2, [1]), (2, [0, 1]), (3, [1]), (3, [2, 0])):
        for c in range(0, top + 1):
            if len(req) * c > 4 and tier != 'thorough':
                continue
            yield 'read', nch, req, c, {}, (), False
    for empty, req in (((0,), [1]), ((0,), [0, 1]), ((1,), [0]), ((0, 1), [0])):
        yield 'read', 2, req, 2, {}, empty, False
    for c in range(1, top + 1):
        for q in range(0, c + 1):
            yield 'read_from', 1, [0], c, {0: q}, (), False
            yield 'read_from', 2, [1], c, {1: q}, (), False
            yield 'read_from', 2, [0, 1], c, {0: q, 1: q}, (), True
            yield 'read_with_per_channel_skip', 2, [1], c, {1: q}, (), False
            for q2 in range(0, c + 1):
                yield 'read_with_per_channel_skip', 2, [1, 0], c, {0: q, 1: q2}, (), False
    yield 'read_with_per_channel_skip', 3, [2, 0], 1, {0: 0, 2: 1}, (), False
    yield 'read_with_per_channel_skip', 3, [0, 2], 2, {0: 1, 2: 0}, (1,), False
    yield 'read_with_per_channel_skip', 2, [0, 1], 2, {0: 0, 1: 1}, (0,), False


@rule('C20')
def c20(ctx):
    """Value analysis of the block readers on contiguous data: the file position of every value read and the slot it is stored in, as
    normal forms over symbolic chunk lengths, value sizes, skips and buffer lengths, against the layout rule."""
    for k, (fn, nch, req, c, skips, empty, same) in enumerate(contiguous_cases(ctx.tier)):
        order = ('Little', 'Big')[k % 2]
        for rest in ('rest', 'exact') if ctx.tier == 'thorough' else (('rest', 'exact')[k % 3 == 0],):
            if c == 0 and rest == 'exact':
                continue
            b = Block(ctx, fn, 'Contigious', order, nch, req, c, rest, skips=skips, empty=empty, same=same)
            check_block(ctx, 'contiguous', b, order, expect_contiguous, 'channel reads')
    ctx.floor('channel reads', 60)


def expect_rows(b, i):
    """one store per row"""
    base = b.start
    for j in range(i):
        base = add(base, b.size[j])
    skip = b.skip[i].a[0]
    return [(num(row - skip), num(1), add(base, mul(num(row), b.S))) for row in range(skip, min(b.count, skip + b.lens[i]))]


def interleaved_cases(tier):
    """(function, channels, requested, rows, skips, buffer lengths)"""
    top = 4 if tier == 'thorough' else 3

    def lens(req, c):
        alls = range(0, c + 2)
        if len(req) == 1 or tier == 'thorough' or c <= 2:
            return [dict(zip(req, x)) for x in itertools.product(alls, repeat=len(req))]
        return [dict(zip(req, x)) for x in ((c + 1, c + 1), (c, 1), (1, c), (0, 2), (2, 0), (2, 3))]
    for nch, req in ((1, [0]), (2, [0]), (2, [1]), (2, [0, 1]), (3, [1]), (3, [2, 0])):
        for c in range(0, top + 1):
            for ls in lens(req, c):
                yield 'read', nch, req, c, {}, ls
    for c in range(1, top + 1):
        for q in range(0, c + 2):
            for ls in lens([1], c):
                yield 'read_from', 2, [1], c, {1: q}, ls
            for ls in lens([0, 1], c):
                if c > 1 and tier != 'thorough' and 0 in ls.values():
                    continue
                yield 'read_from', 2, [0, 1], c, {0: q, 1: q}, ls
                for q2 in range(0, c + 2):
                    yield 'read_with_per_channel_skip', 2, [1, 0], c, {0: q, 1: q2}, ls
    for ls in ({0: 4, 2: 4}, {0: 1, 2: 2}, {0: 2, 2: 1}):
        yield 'read_with_per_channel_skip', 3, [2, 0], 3, {0: 0, 2: 1}, ls
        yield 'read_with_per_channel_skip', 3, [0, 2], 3, {0: 2, 2: 1}, ls


@rule('C21')
def c21(ctx):
    """Value analysis of the block readers on interleaved data: the file position of every value read and the slot it is stored in, as
    normal forms over symbolic value sizes, row by row, against the layout rule."""
    for k, (fn, nch, req, c, skips, lens) in enumerate(interleaved_cases(ctx.tier)):
        order = ('Little', 'Big')[k % 2]
        rest = ('rest', 'exact')[k % 3 == 0 and c > 0]
        b = Block(ctx, fn, 'Interleaved', order, nch, req, c, rest, skips=skips, lens=lens)
        check_block(ctx, 'interleaved', b, order, expect_rows, 'channel reads')
    ctx.floor('channel reads', 60)


# ------------------------------------------------------------------ reading across blocks
def lists(st, v, depth=8):
    """-> (state, value) with the gates of a list decided"""
    g = None
    for x in (v.a if v.op == 'cat' else (v,)):
        if x.op == 'ite':
            g = x
            break
    if g is None or not depth:
        yield st, v
        return
    for s, b in st.branch(g.a[0]):
        pick = g.a[1] if b else g.a[2]
        v2 = M.cat(*[pick if x is g else x for x in v.a]) if v.op == 'cat' else pick
        yield from lists(s, s.simp(v2), depth - 1)


class FileRead:
    """TdmsFile read methods on a file whose index answers with the given locations:
    locs[i] = [(block, channel index, samples)] per requested channel"""

    def __init__(self, ctx, name, locs, start, missing=(), lens=None, setup=None, unroll=None):
        self.ctx, self.name, self.fn, self.locs, self.start_at = ctx, name, ctx.inherent('TdmsFile', name), locs, start
        nb = 1 + max([b for l in locs for b, _, _ in l] + [0])
        self.s = Session(ctx, unroll or max(nb, len(locs), 2) + 2, budget=300000)
        self.missing = missing
        st = self.s.st
        if setup:
            setup(st)
        ip = self.s.ip
        self.blocks = [sym('block%d' % b) for b in range(nb)]
        self.paths = [sym('path%d' % i) for i in range(len(locs))]
        self.outs = [sym('out%d' % i) for i in range(len(locs))]
        self.samples = {(b, c): n for l in locs for b, c, n in l}
        h = ip.hooks
        ix = ctx.inherent('Index', 'get_channel_data_positions')['path']
        h[ix] = self.h_positions
        h[ctx.inherent('Index', 'get_data_block')['path']] = self.h_block
        h[ctx.inherent('DataBlock', 'channel_samples')['path']] = self.h_samples
        for n in ('read', 'read_single', 'read_single_from', 'read_from', 'read_with_per_channel_skip'):
            try:
                h[find(ctx, 'DataBlock', n)['path']] = self.h_read
            except LookupError:
                pass
        h['core::convert::AsRef::as_ref'] = lambda ip, st, call: [(st, call.args[0])] if self.key_of(st, call.args[0]) is not None else None

    def h_positions(self, ip, st, call):
        p = call.args[1]
        k = self.key_of(st, p)
        if k is None:
            raise I.Unsupported('channel data positions of an unknown path')
        if k in self.missing:
            return [(st, M.none())]
        l = M.seq(*[struct(self.ctx, 'DataLocation', data_block=num(b), channel_index=num(c), number_of_samples=n) for b, c, n in self.locs[k]])
        return [(st, M.some(M.mk_ref((('C', l), ()))))]

    def key_of(self, st, p):
        seen = 0
        while seen < 4:
            for i, x in enumerate(self.paths):
                if p is x:
                    return i
            if p.op != 'ref':
                return None
            p = st.simp(st.read(p.a[0]))
            seen += 1
        return None

    def h_block(self, ip, st, call):
        k = st.simp(call.args[1])
        if not T.is_int(k):
            raise I.Unsupported('data block of an unknown number')
        if not 0 <= k.a[0] < len(self.blocks):
            return [(st, M.none())]
        return [(st, M.some(self.blocks[k.a[0]]))]

    def block_of(self, st, r):
        for b, x in enumerate(self.blocks):
            if r is x:
                return b
        raise I.Unsupported('an unknown data block')

    def h_samples(self, ip, st, call):
        b, c = self.block_of(st, call.args[0]), st.simp(call.args[1])
        if not T.is_int(c) or (b, c.a[0]) not in self.samples:
            raise I.Unsupported('samples of an unknown channel')
        return [(st, M.ok(self.samples[(b, c.a[0])]))]

    def h_read(self, ip, st, call):
        b = self.block_of(st, call.args[0])
        ent = []
        if call.name in ('read_single', 'read_single_from'):
            sk = call.args[2] if call.name.endswith('from') else num(0)
            ent.append((call.args[1], sk, call.args[-1]))
        else:
            l = st.simp(st.read(M.place_of(call.args[2])))
            alts = list(lists(st, l))
            if len(alts) > 1 or alts[0][1] is not l:
                out = []
                for s, v in alts:
                    s = s.copy()
                    s.write(M.place_of(call.args[2]), v)
                    out.extend(self.h_read(ip, s, call))
                return out
            if l.op != 'seq':
                raise I.Unsupported('a list of channels of unknown length: ' + show(l)[:300])
            for x in l.a[0]:
                x = st.simp(x)
                if call.name == 'read_with_per_channel_skip':
                    ent.append(tuple(getf(self.ctx, 'BlockReadChannelConfig', x, n) for n in ('channel_index', 'samples_to_skip', 'output')))
                else:
                    ent.append((M.project(x, ('f', 0)), call.args[3] if call.name == 'read_from' else num(0), M.project(x, ('f', 1))))
        st = st.copy()
        st.trace = st.trace + (raw('RD', b, tuple(raw('RE', *e) for e in ent)),)
        res = sym('read%d' % len(st.trace), 'u64')
        return [(st, M.ok(res))]

    def run(self):
        ctx = self.ctx
        st = self.s.st.copy()
        multi = 'channels' in self.name
        a = ctx.args(self.fn, 'self')
        file = a[0]
        if multi:
            st.write(M.place_of(a[1]), M.seq(*self.paths))
            st.write(M.place_of(a[-1]), M.seq(*self.outs))
        else:
            a[1], a[-1] = self.paths[0], self.outs[0]
        if self.name.endswith('_from'):
            a[2] = self.start_at
        return self.s.split(self.s.call(self.fn, a, st))

    def length(self, i):
        return M.length(raw('*', self.outs[i]))

    def expected(self, i):
        """[(block, channel index, skip, first slot, count)]"""
        out, off, skip = [], num(0), self.start_at if self.name.endswith('_from') else num(0)
        L = self.length(i)
        for b, c, n in self.locs[i]:
            first = T.mk_min(skip, n)
            cnt = T.mk_min(sub(n, first), sub(L, off))
            out.append((b, c, first, off, cnt))
            skip = sub(skip, first)
            off = add(off, cnt)
        return out

    def actual(self, st, i):
        out = []
        for e in st.trace:
            if e.op != 'RD':
                raise Lost('unexpected event %s' % show(e)[:80])
            b, ents = e.a
            for re in ents:
                c, skip, o = re.a
                o = st.simp(o)
                if o.op == 'sym':
                    root, lo, hi = o, num(0), None
                elif o.op == 'ref' and o.a[0][0][0] == 'O' and len(o.a[0][1]) == 1 and o.a[0][1][0][0] == 's':
                    root, (_, lo, hi) = o.a[0][0][1], o.a[0][1][0]
                elif o.op == 'ref' and o.a[0][0][0] == 'O' and not o.a[0][1]:
                    root, lo, hi = o.a[0][0][1], num(0), None
                else:
                    raise Lost('output %s' % show(o)[:100])
                if root not in self.outs:
                    raise Lost('output %s' % show(o)[:100])
                if root is not self.outs[i]:
                    continue
                c = st.simp(c)
                if not T.is_int(c):
                    raise Lost('channel index %s' % show(c))
                out.append((b, c.a[0], skip, lo, hi))
        return out


def unmerge(st, depth=8):
    """the paths a merged state stands for, as far as its facts tell"""
    for c, v in list(st.facts.items()):
        if c.op != 'ite' or not depth:
            continue
        g = c.a[0]
        if st.decide(g) is not None:
            rest = st.simp(c)
            rest = rest if rest.op != 'ite' or rest is not c else (c.a[1] if st.decide(g) else c.a[2])
            if st.decide(rest) == v:
                continue
            s = st.copy()
            if s.assume(rest, v):
                yield from unmerge(s, depth - 1)
            return
        for s, b in st.branch(g):
            s = s.copy()
            if s.assume(c.a[1] if b else c.a[2], v):
                yield from unmerge(s, depth - 1)
        return
    yield st


def check_plan(ctx, key, r, what):
    """compare the reads issued for every channel with the ones the locations call for"""
    try:
        ok, er = r.run()
    except GaveUp as e:
        ctx.unsure('%s: %s' % (what, e))
        return
    where = ctx.where(r.fn)
    ctx.count('cases')
    if not ok:
        ctx.unsure('%s: no successful outcome found' % what)
    for st, e in er:
        if modelled(e):
            ctx.fail(key + ':refused', '%s: refused with %s' % (what, show(e)[:120]), where)
        else:
            ctx.unsure('%s: unexpected error %s' % (what, show(e)[:120]))
    for st in [s for st, v in ok for s in unmerge(st)]:
        for i in range(len(r.locs)):
            try:
                act = r.actual(st, i)
            except Lost as e:
                ctx.unsure('%s: %s' % (what, e))
                continue
            res = plan_diff(r, st, i, act)
            if res is None:
                ctx.count('channel plans')
            elif res[0] == 'no':
                ctx.fail(key, '%s: channel %d: %s' % (what, i, res[1]), where)
            else:
                ctx.unsure('%s: channel %d: %s' % (what, i, res[1]))


def plan_diff(r, st, i, act):
    exp = r.expected(i)
    verdict = None
    L = r.length(i)

    def amount(a):
        b, c, skip, lo, hi = a
        n = r.samples.get((b, c))
        room = sub(L if hi is None else hi, lo)
        if n is None:
            return room
        return T.mk_min(sub(n, T.mk_min(skip, n)), room)
    probe = [(0, e[4], 0) for e in exp] + [(0, amount(a), 0) for a in act]
    for s in splits(st, probe, 6):
        e2 = [e for e in exp if always(s, e[4], 3) is not True]
        a2 = [a for a in act if always(s, amount(a), 3) is not True]
        t = lambda l: '; '.join('block %d as channel %d, skipping %s, to slot %s' % (x[0], x[1], show(s.simp(x[2])), show(s.simp(x[3]))) for x in l) or 'nothing'
        why = 'reads %s, expected %s' % (t(a2), t(e2))
        if [x[:2] for x in e2] != [x[:2] for x in a2]:
            sure = all(s.decide(T.eq(e[4], num(0))) is False for e in e2) and all(s.decide(T.eq(amount(a), num(0))) is False for a in a2)
            if not feasible(s):
                continue
            if sure and all(modelled(x) for a in a2 for x in (a[2], a[3])):
                return 'no', why
            verdict = 'unknown', why
            continue
        for e, a in zip(e2, a2):
            for x, y in ((a[2], e[2]), (a[3], e[3]), (amount(a), e[4])):
                d = always(s, sub(x, y))
                if d is True:
                    continue
                if d is not None and not feasible(d[0]):
                    continue
                if d is not None and modelled(x):
                    return 'no', why
                verdict = 'unknown', why
    return verdict


def one(n):
    return add(sized(n), num(1))


def sums(*ts):
    r = num(0)
    for t in ts:
        r = add(r, t)
    return r


def single_cases():
    """([location samples], start): the start lies in every block in turn, and behind the last one"""
    for nb in (1, 2, 3):
        for q in range(nb + 1):
            ns = [one('s%d' % j) for j in range(nb)]
            if q < nb:
                ns[q] = sums(sized('r'), sized('m'), num(1))
            yield ns, sums(*(ns[:q] + [sized('r')]))
    yield [num(0), one('a')], num(0)
    yield [one('a'), num(0), sums(sized('r'), sized('m'), num(1))], add(one('a'), sized('r'))
    yield [], sized('r')


def double_cases():
    """([samples of channel 0], [samples of channel 1], start): the start in each pair of blocks"""
    r, m, m2, d = sized('r'), sized('m'), sized('k'), sized('d')
    a, b, c = one('a'), one('b'), one('c')
    end, end2 = sums(r, m, num(1)), sums(r, m2, num(1))
    yield [end, a], [end2, b], r
    yield [sums(a, end), b], [a, end2], add(a, r)
    yield [a, sums(d, end)], [add(a, d), end2], sums(a, d, r)
    yield [a, end], [a, end2], sums(a, r)
    yield [b, sums(c, end)], [b, c], sums(b, c, r)
    yield [sums(a, b, end), c], [a, b], sums(a, b, r)
    yield [a, b], [a, b], sums(a, b, r)


@rule('C22')
def c22(ctx):
    """Value analysis of the file read methods over a symbolic index answer: the list of block reads (block, channel, skip, slice of
    the output) as normal forms, against the one the locations call for."""
    try:
        for n in ('get_channel_data_positions', 'get_data_block'):
            find(ctx, 'Index', n)
        for n in ('channel_samples', 'read', 'read_with_per_channel_skip'):
            find(ctx, 'DataBlock', n)
    except LookupError as e:
        ctx.unsure('no function %s' % e)
        return
    placing = ([0], [0, 2], [0, 2, 3])
    for ns, start in single_cases():
        bl = placing[len(ns) - 1] if ns else []
        locs = [[(b, (b + 1) % 2, n) for b, n in zip(bl, ns)]]
        txt = ', '.join(show(n) for n in ns)
        check_plan(ctx, 'plan', FileRead(ctx, 'read_channel_from', locs, start), 'one channel with %s values, from %s' % (txt, show(start)))
        check_plan(ctx, 'plan', FileRead(ctx, 'read_channels_from', locs, start), 'a list of one channel with %s values, from %s' % (txt, show(start)))
        if T.is_int(start, 0) or len(ns) == 2:
            check_plan(ctx, 'plan', FileRead(ctx, 'read_channel', locs, num(0)), 'one channel with %s values' % txt)
    for x, y, start in double_cases():
        for p, q in (((0, 1), (0, 1)), ((0, 2), (1, 2)), ((0, 2), (0, 1)), ((1, 2), (0, 3))):
            for swap in (False, True):
                l0 = [(b, 0, n) for b, n in zip(p, x)]
                l1 = [(b, 1 if b in p else 0, n) for b, n in zip(q, y)]
                locs = [l1, l0] if swap else [l0, l1]
                what = 'two channels with %s values in blocks %s and %s' % (
                    ' and '.join('/'.join(show(z[2]) for z in l) for l in locs), *['/'.join(str(z[0]) for z in l) for l in locs])
                check_plan(ctx, 'plan', FileRead(ctx, 'read_channels_from', locs, start), what + ', from ' + show(start))
                if T.is_int(start) or start.op == 'sym':
                    check_plan(ctx, 'plan', FileRead(ctx, 'read_channels', locs, num(0)), what)
    # small files with concrete numbers: uneven blocks, blocks without values
    top = 6 if ctx.tier == 'thorough' else 4
    for ns in ((1, 2), (2, 1, 1), (0, 2), (1, 0, 2)):
        for ms in ((2, 1), (1,), (1, 1, 2), ()):
            for start in range(top):
                locs = [[(b, 0, num(n)) for b, n in enumerate(ns)], [(b, 1, num(n)) for b, n in enumerate(ms)]]
                check_plan(ctx, 'plan', FileRead(ctx, 'read_channels_from', locs, num(start)),
                           'two channels with %s and %s values, from %d' % ('/'.join(map(str, ns)), '/'.join(map(str, ms)), start))
    # a channel the file does not have
    for name, n, miss in (('read_channel', 1, 0), ('read_channel_from', 1, 0), ('read_channels', 2, 0), ('read_channels', 2, 1),
                          ('read_channels_from', 2, 0), ('read_channels_from', 2, 1)):
        locs = [[(0, i, one('s%d' % i))] for i in range(n)]
        r = FileRead(ctx, name, locs, sized('r'), missing={miss})
        try:
            ok, er = r.run()
        except GaveUp as e:
            ctx.unsure('%s with a missing channel: %s' % (name, e))
            continue
        ctx.count('missing channels')
        for st, v in ok:
            ctx.fail('missing', '%s succeeds although channel %d is not in the file' % (name, miss), ctx.where(r.fn))
        for st, e in er:
            if st.trace:
                ctx.fail('missing:reads', '%s reads data although channel %d is not in the file' % (name, miss), ctx.where(r.fn))
            if not is_error(ctx, st, e, 'MissingObject'):
                ctx.fail('missing:error', '%s answers %s for a channel that is not in the file' % (name, show(e)[:80]), ctx.where(r.fn))
    ctx.floor('channel plans', 100)


def is_error(ctx, st, e, name):
    p, vs = ctx.variants('TdmsError')
    k = [i for i, v in enumerate(vs) if v['name'] == name]
    if not k:
        return True
    return st.decide(T.isvar(e, k[0])) is not False


def find(ctx, ty, name):
    for f in ctx.F.fns:
        o = f.get('owner') or {}
        if f['name'] == name and o.get('kind') == 'impl' and ctx.tyn(o['self']) == ty:
            return f
    raise LookupError('%s::%s' % (ty, name))


# ------------------------------------------------------------------ byte order
def block_functions(ctx):
    out = []
    for n in ('read', 'read_from', 'read_with_per_channel_skip'):
        try:
            find(ctx, 'DataBlock', n)
            out.append(n)
        except LookupError as e:
            ctx.unsure('no function %s' % e)
    return out


def own(t, me):
    """t is a part of, or reaches into, the receiver"""
    return T.contains(t, lambda x: x is me)


@rule('C23')
def c23(ctx):
    """Effect analysis: every positioning and reading call issued for a block of either byte order is made on the reader of that order
    (callee types after composition), and readers and writers use the codec of their order on their own stream."""
    for name in block_functions(ctx):
        for layout in ('Contigious', 'Interleaved'):
            for order in ('Big', 'Little'):
                for nch, req, rows in ((1, [0], 1), (2, [0, 1], 2), (2, [1], 2)):
                    sk = {}
                    if name != 'read':
                        sk = {i: 1 for i in req}
                    b = Block(ctx, name, layout, order, nch, req, rows, 'exact', skips=sk, same=True,
                              lens={i: rows for i in req} if layout == 'Interleaved' else None)
                    try:
                        ok, er = b.run()
                    except GaveUp as e:
                        ctx.unsure('%s: %s' % (describe(b), e))
                        continue
                    seen = 0
                    for st, v in ok:
                        try:
                            kinds = positions(st, st.trace, b.sz)[1]
                        except Lost as e:
                            ctx.unsure('%s: %s' % (describe(b), e))
                            continue
                        for k in sorted(kinds):
                            other = {'Big': 'LittleEndian', 'Little': 'BigEndian'}[order]
                            if order + 'Endian' in k and other not in k:
                                seen += 1
                                continue
                            if other in k:
                                ctx.fail('order:%s:%s:%s' % (name, layout, order), '%s in %s endian data uses %s' % (describe(b), order.lower(), k[:160]), ctx.where(b.fn))
                            else:
                                ctx.unsure('%s: call %s' % (describe(b), k[:160]))
                    ctx.count('calls on a reader', seen)
                    ctx.count('blocks')
    for trait, meth, dirs in (('TdmsReader', 'read_value', 'read_'), ('TdmsWriter', 'write_value', 'write_')):
        for o, suffix, wrong in (('Big', 'be', 'le'), ('Little', 'le', 'be')):
            ty = o + 'Endian' + trait[4:]
            f = ctx.method(trait, ty, meth)
            r = ctx.run(f)
            if r is None:
                continue
            for st, v in r.exits:
                ev = [e for e in st.trace if e.op == 'E' and last_name(e).startswith(dirs)]
                if len(ev) != 1 or len(ev) != len(st.trace):
                    ctx.unsure('%s: %d calls' % (f['path'], len(st.trace)))
                    continue
                n = last_name(ev[0])
                if n == dirs + wrong:
                    ctx.fail('codec:%s' % ty, '%s uses %s' % (ty, n), ctx.where(f))
                elif n != dirs + suffix:
                    ctx.unsure('%s uses %s' % (ty, n))
                elif not any(own(a, r.args[0]) for a in ev[0].a[3]):
                    ctx.fail('stream:%s' % ty, '%s does not use its own stream' % ty, ctx.where(f))
                elif trait == 'TdmsReader' and v is not None and not T.contains(v, lambda x: x is ev[0].a[4]):
                    ctx.fail('value:%s' % ty, '%s returns %s, not the value read' % (ty, show(v)[:80]), ctx.where(f))
                else:
                    ctx.count('codec calls')
    # positioning: absolute from the start, relative to the current position
    for meth, prim, want in (('to_file_position', 'seek', None), ('move_position', 'seek_relative', None)):
        f = ctx.provided('TdmsReader', meth)
        r = ctx.run(f)
        if r is None:
            continue
        for st, v in r.exits:
            ev = [e for e in st.trace if e.op == 'E' and last_name(e) in ('seek', 'seek_relative')]
            if len(ev) != 1:
                ctx.unsure('%s: %d positioning calls' % (f['path'], len(ev)))
                continue
            e, = ev
            arg = e.a[3][1]
            k = {'seek': None, 'seek_relative': 'Current'}[last_name(e)]
            if k is None:
                k = ('Start', 'End', 'Current')[arg.a[1]] if arg.op == 'adt' else None
                arg = M.project(arg, ('v', arg.a[1], 0)) if arg.op == 'adt' else arg
            exp = 'Start' if meth == 'to_file_position' else 'Current'
            if k is None or not modelled(arg):
                ctx.unsure('%s: %s' % (f['path'], show(e)[:120]))
            elif k != exp or T.show(st.simp(sub(arg, r.args[1]))) != '0':
                ctx.fail('position:%s' % meth, '%s moves to %s(%s)' % (meth, k, show(arg)[:80]), ctx.where(f))
            else:
                ctx.count('positioning calls')
    # the byte order of a block is the one in the segment header
    f = ctx.inherent('DataBlock', 'from_segment')
    r = ctx.run(f)
    if r is not None:
        k = ctx.variants('Endianess')[1]
        big = [i for i, x in enumerate(k) if x['name'] == 'Big'][0]
        flag = getf(ctx, 'ToC', getf(ctx, 'Segment', T.raw('*', r.args[0]), 'toc'), 'big_endian')
        for st, v in r.ok():
            got = T.isvar(st.simp(getf(ctx, 'DataBlock', v, 'byte_order')), big)
            for s, val in st.branch(flag):
                d = s.decide(s.simp(got))
                if d is None:
                    ctx.unsure('%s: byte order %s' % (f['path'], show(got)[:120]))
                elif d != val:
                    ctx.fail('block:order', 'a block of a %s endian segment is marked %s endian' % (('little', 'big')[val], ('little', 'big')[d]), ctx.where(f))
                else:
                    ctx.count('block orders')
    ctx.floor('calls on a reader', 60)
    ctx.floor('codec calls', 4)
    ctx.floor('block orders', 2)


def last_name(e):
    return strip_generics(e.a[0]).rstrip(':').split('::')[-1]


# ------------------------------------------------------------------ types
REPRESENTS = {'SingleFloat': ('SingleFloatWithUnit',), 'DoubleFloat': ('DoubleFloatWithUnit',), 'ExtendedFloat': ('ExtendedFloatWithUnit',),
              'Boolean': ('U8',)}


@rule('C18')
def c18(ctx):
    """Abstract interpretation of the block readers for every pair of stored type and requested type: refused before the first reading
    call, or accepted, as the table of representations says."""
    from .codecs import type_const, item, const_int
    dt, dvs = ctx.variants('DataType')
    names = [v['name'] for v in dvs]
    impls = ctx.impls('TdmsStorageType')
    cells = 0
    for imp in impls:
        ty = ctx.tyn(imp['self'])
        sup, nat = type_const(ctx, imp, 'SUPPORTED_TYPES'), type_const(ctx, imp, 'NATURAL_TYPE')
        fixed = const_int((item(imp, 'SIZE_BYTES') or {}).get('value'))
        if not sup or not nat or fixed is None:
            ctx.unsure('%s: type constants not known' % ty)
            continue
        nat, sup = names[nat[0]], [names[x] for x in sup]
        mk = lambda n: M.adt(dt, names.index(n), ())
        consts = {'SUPPORTED_TYPES': M.mk_ref((('C', M.seq(*[mk(x) for x in sup])), ())), 'NATURAL_TYPE': mk(nat), 'SIZE_BYTES': num(fixed)}
        for fn in block_functions(ctx):
            for k, stored in enumerate(names):
                fits = (stored == nat or stored in REPRESENTS.get(nat, ())) and stored != 'TdmsString'
                # full product on `read`; the other entry points around the boundary
                if fn != 'read' and not fits and k % 4 != len(ty) % 4 and ctx.tier != 'thorough':
                    continue
                for pos in ((0, 1) if fn == 'read' or ctx.tier == 'thorough' else (k % 2,)):
                    ts = [names.index(nat)] * 2
                    ts[pos] = names.index(stored)
                    req = [pos] if (k + pos) % 2 else [1 - pos, pos]
                    if nat == 'TdmsString':
                        req = [pos]
                    typed(ctx, fn, ty, ts, req, consts, fits, stored, ('Contigious', 'Interleaved')[k % 2])
                    cells += 1
    ctx.count('pairs of stored and requested type', cells)
    ctx.floor('pairs of stored and requested type', 300)


def typed(ctx, fn, ty, ts, req, consts, fits, stored, layout):
    b = Block(ctx, fn, layout, 'Little', 2, req, 1, 'exact', same=True, types=ts, lens={i: 1 for i in req})
    b.s.ip.consts.update({(n, ('D',)): v for n, v in consts.items()})
    what = '%s of a channel of %s as %s' % (fn, stored, ty)
    try:
        ok, er = b.run()
    except GaveUp as e:
        ctx.unsure('%s: %s' % (what, e))
        return
    where = ctx.where(b.fn)
    if fits:
        if not ok:
            bad = [e for st, e in er if not modelled(e)]
            ctx.fail('refused:%s:%s' % (ty, stored), '%s is refused' % what, where) if not bad else ctx.unsure(what)
        return
    for st, v in ok:
        ctx.fail('accepted:%s:%s' % (ty, stored), '%s is not refused' % what, where)
    for st, e in er:
        if st.trace:
            ctx.fail('late:%s:%s' % (ty, stored), '%s is refused only after data has been read' % what, where)
        elif not is_error(ctx, st, e, 'DataTypeMismatch') and not is_error(ctx, st, e, 'UnsupportedType'):
            ctx.fail('error:%s:%s' % (ty, stored), '%s is answered with %s' % (what, show(e)[:80]), where)
        for i in req:
            if b.buffer(st, i) is not raw('*', b.out[i]):
                ctx.fail('stored:%s:%s' % (ty, stored), '%s is refused but changes the buffer' % what, where)
