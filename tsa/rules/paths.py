"""Object paths: constructing, reading and parsing them, and listing the objects of a file."""
import itertools
from .. import interp as I
from .. import mem as M
from .. import terms as T
from .. import text as X
from ..check import Stop, modelled, show
from ..iters import it_step, is_it
from ..terms import num, raw
from .index import Session, GaveUp, struct, sym, bad
from .reading import find, feasible

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def shapes(n, chars, tag):
    """every string made of at most n pieces: any text without special characters, or one of the special characters"""
    out = []
    for k in range(n + 1):
        for c in itertools.product(['n'] + list(chars), repeat=k):
            if all(not (x == y == 'n') for x, y in zip(c, c[1:])):
                out.append([X.nm(raw('sym', '%s%d' % (tag, i))) if x == 'n' else x for i, x in enumerate(c)])
    return out


def escaped(ps):
    return ['"' if p == "'" else p for p in ps]


def say(ps):
    return ''.join(p if isinstance(p, str) else '<%s>' % p.a[0].a[0] for p in ps)


def as_text(st, v):
    """parts of a string value (owned, borrowed or in a path struct), None when it is something else"""
    v = st.simp(v)
    for _ in range(6):
        if v.op == 'ref':
            v = st.simp(st.read(M.place_of(v)))
        elif v.op == 'adt' and len(v.a[2]) == 1 and v.a[0].split('::')[-1] in ('PropertyPath', 'ChannelPath'):
            v = st.simp(v.a[2][0])
        else:
            break
    return X.parts(v)


class Paths:
    def __init__(self, ctx):
        self.ctx = ctx

    def session(self):
        return Session(self.ctx, 12)

    def cell(self, v):
        return M.mk_ref((('C', v), ()))

    def string(self, ps):
        return self.cell(X.text(ps))

    def path(self, name, ps):
        v = M.adt(self.ctx.variants('PropertyPath')[0], 0, (X.text(ps),))
        if name == 'ChannelPath':
            v = M.adt(self.ctx.variants('ChannelPath')[0], 0, (v,))
        return v

    def built(self):
        """the text is the only content of a path"""
        p, vs = self.ctx.variants('PropertyPath')
        c, cs = self.ctx.variants('ChannelPath')
        if len(vs) != 1 or len(vs[0]['fields']) != 1 or len(cs) != 1 or len(cs[0]['fields']) != 1:
            self.ctx.unsure('paths consist of more than their text')
            raise Stop()

    def run(self, fn, args):
        I.Interp.unknown.clear()
        try:
            return self.session().call(fn, args)
        except GaveUp as e:
            self.ctx.unsure(str(e))
            return None

    def expect(self, what, fn, st, got, want, v):
        """compare two texts"""
        ctx = self.ctx
        if got is None or X.equal(got, want) is None:
            return ctx.unsure('%s gives %s' % (what, show(v)[:160]))
        if X.equal(got, want):
            return ctx.good('texts compared')
        if feasible(st) and not I.Interp.unknown:
            ctx.fail('%s:%s' % (fn['path'], what), '%s gives %s instead of %s' % (what, say(got), say(want)), ctx.where(fn))
        else:
            ctx.unsure('%s may give %s' % (what, say(got)))

    def text_of(self, what, fn, args, want):
        ex = self.run(fn, args)
        for st, v in ex or ():
            self.expect(what, fn, st, as_text(st, v), want, v)

    def name_of(self, what, fn, args, want):
        """an optional name (or a plain one)"""
        opt = 'Option' in self.ctx.tyn(fn['output'])
        ex = self.run(fn, args)
        for st, v in ex or ():
            if not opt:
                if want is not None:
                    self.expect(what, fn, st, as_text(st, v), want, v)
                continue
            for s, some in st.branch(T.isvar(st.simp(v), 1)):
                if some != (want is not None):
                    if feasible(s) and not I.Interp.unknown and modelled(v):
                        self.ctx.fail('%s:%s' % (fn['path'], what), '%s gives %s' % (what, show(s.simp(v))[:120] if some else 'no name instead of ' + say(want)),
                                      self.ctx.where(fn))
                    else:
                        self.ctx.unsure('%s may give %s' % (what, show(v)[:120]))
                elif some:
                    self.expect(what, fn, s, as_text(s, M.project(s.simp(v), ('v', 1, 0))), want, v)
                else:
                    self.ctx.good('names compared')

    def parse(self, what, fn, arg, want):
        """want: the text of the path, or None when the text has to be refused"""
        ctx = self.ctx
        ex = self.run(fn, [arg])
        for st, v in ex or ():
            v = st.simp(v)
            for s, okay in st.branch(T.isvar(v, 0)):
                if okay and want is not None:
                    p = s.simp(M.project(v, ('v', 0, 0)))
                    self.expect(what, fn, s, as_text(s, p), want, p)
                elif okay == (want is not None):
                    ctx.good('malformed texts refused')
                elif feasible(s) and not I.Interp.unknown and modelled(v):
                    ctx.fail('%s:%s' % (fn['path'], what), '%s is %s' % (what, 'accepted' if okay else 'refused'), ctx.where(fn))
                else:
                    ctx.unsure('%s may be %s' % (what, 'accepted' if okay else 'refused'))


def tryfrom(ctx, ty, src):
    """the conversion from a text ('str') or from another path type"""
    for f in ctx.F.fns:
        o = f.get('owner') or {}
        if f['name'] == 'try_from' and o.get('kind') == 'traitimpl' and ctx.F.tys(o['self']).split('::')[-1] == ty:
            if ctx.F.tys(o['args'][1]).rstrip('>').split('::')[-1].split(' ')[-1].lstrip('&') == src:
                return f
    raise ctx.missing('TryFrom<%s> for %s' % (src, ty))


def path_text(*names):
    out = []
    for n in names:
        out += ['/', "'"] + list(n) + ["'"]
    return out or ['/']


@rule('C27')
def c27(ctx):
    P = Paths(ctx)
    P.built()
    deep = 3 if ctx.tier == 'thorough' else 2
    groups = shapes(deep + 1, '\'"/', 'g')
    few = shapes(1, '\'"/', 'c') + [x for x in shapes(2, '\'/', 'c') if len(x) == 2][:6]
    pairs = [(g, c) for g in groups for c in few[:2]] + [(g, c) for g in shapes(1, "'/", 'g') for c in shapes(deep + 1, '\'"/', 'c')]
    new, pc = ctx.inherent('ChannelPath', 'new'), ctx.inherent('PropertyPath', 'channel')
    pg, pf = ctx.inherent('PropertyPath', 'group'), ctx.inherent('PropertyPath', 'file')
    path, cpath = ctx.inherent('PropertyPath', 'path'), ctx.inherent('ChannelPath', 'path')
    gname, cname = ctx.inherent('PropertyPath', 'group_name'), ctx.inherent('PropertyPath', 'channel_name')
    cg, cc = ctx.inherent('ChannelPath', 'group_name'), ctx.inherent('ChannelPath', 'channel_name')
    pfrom, cfrom = tryfrom(ctx, 'PropertyPath', 'str'), tryfrom(ctx, 'ChannelPath', 'str')
    cprop = tryfrom(ctx, 'ChannelPath', 'PropertyPath')
    P.text_of('the path of the file', pf, [], ['/'])
    for g in groups:
        P.text_of('the path of group %s' % say(g), pg, [P.string(g)], path_text(escaped(g)))
    for g, c in pairs:
        want = path_text(escaped(g), escaped(c))
        P.text_of('the path of channel %s of group %s' % (say(c), say(g)), pc, [P.string(g), P.string(c)], want)
        P.text_of('the channel path of channel %s of group %s' % (say(c), say(g)), new, [P.string(g), P.string(c)], want)

    def names(ps, g, c):
        t = say(ps)
        P.text_of('the text of path %s' % t, path, [P.cell(P.path('PropertyPath', ps))], ps)
        P.name_of('the group name of %s' % t, gname, [P.cell(P.path('PropertyPath', ps))], g)
        P.name_of('the channel name of %s' % t, cname, [P.cell(P.path('PropertyPath', ps))], c)
        P.parse('the path text %s' % t, pfrom, P.string(ps), ps)
        P.parse('the channel text %s' % t, cfrom, P.string(ps), ps if c is not None else None)
        P.parse('the path %s as a channel' % t, cprop, P.path('PropertyPath', ps), ps if c is not None else None)
        if c is not None:
            P.text_of('the text of channel path %s' % t, cpath, [P.cell(P.path('ChannelPath', ps))], ps)
            P.name_of('the group of channel path %s' % t, cg, [P.cell(P.path('ChannelPath', ps))], g)
            P.name_of('the channel of channel path %s' % t, cc, [P.cell(P.path('ChannelPath', ps))], c)
    # names as they appear in stored paths: quotes only in pairs
    stored = [[q for p in s for q in ((p, p) if p == "'" else (p,))] for s in shapes(deep, '\'"/', 's')]
    names(['/'], None, None)
    for g in stored:
        names(path_text(g), g, None)
    other = [[X.nm(raw('sym', 'd'))], ["'", "'"], ['/'], []]
    for g in stored:
        for c in other[:1] if ctx.tier == 'quick' else other:
            names(path_text(g, c), g, c)
    for c in stored[1:]:
        g = [X.nm(raw('sym', 'd'))]
        names(path_text(g, c), g, c)
    a, b, c = (X.nm(raw('sym', x)) for x in 'abc')
    for t in ([], [a], ["'", a, "'"], ["'", a, "'", '/', "'", b, "'"], ['/', a], ['/', "'", a], ['/', a, "'"], ['/', '/'], ['/', "'", a, "'", '/'],
              ['/', "'", a, "'", '/', b], ['/', "'", a, "'", '/', "'", b], ['/', "'", a, "'", '/', b, "'"], ['/', a, '/', "'", b, "'"],
              ['/', "'", a, "'", '/', '/', "'", b, "'"], path_text([a], [b], [c]), path_text([a], [b]) + ['/'], ['/'] + path_text([a]),
              path_text([a], [b], [])):
        P.parse('the malformed text %s' % say(t), pfrom, P.string(t), None)
        P.parse('the malformed channel text %s' % say(t), cfrom, P.string(t), None)
    ctx.floor('texts compared', 300)
    ctx.floor('malformed texts refused', 30)


# ---------------------------------------------------------------- listing
def known(st, v):
    """the keys of a map or set built by insertions, None when they are not known"""
    v = st.simp(v)
    if v.op == 'mempty':
        return []
    if v.op == 'minsert':
        r = known(st, v.a[0])
        return None if r is None else once(st, r + [v.a[1]])
    if v.op == 'fromiter' and v.a[1].op == 'seq':
        return once(st, list(v.a[1].a[0])) if v.a[0].endswith(('Set', 'Map')) else list(v.a[1].a[0])
    if v.op == 'omap':
        return [k for k, _ in v.a[0]]
    return None


def once(st, keys):
    out = []
    for k in keys:
        p = as_text(st, k)
        if p is None:
            return None
        if not any(X.equal(p, as_text(st, q)) for q in out):
            out.append(k)
    return out


def settle(st, v):
    """iterators over sets with known keys become lists"""
    v = st.simp(v)
    if v.op == 'adt':
        if v.a[0] == '#mapit':
            ks = known(st, v.a[2][1])
            if ks is not None and T.is_int(v.a[2][2], 0):
                return X.own(ks)
        if v.a[0].startswith('#'):
            return M.adt(v.a[0], v.a[1], tuple(settle(st, x) for x in v.a[2]))
    return v


def drain(ip, st, v):
    """-> [(state, elements)]; raises for an iterator that cannot be followed"""
    v = settle(st, v)
    if v.op == 'seq':
        v = X.own(list(v.a[0]))
    if not is_it(v):
        raise GaveUp('the listing is %s' % show(v)[:120])
    site = I.CP.get(None, ('root', 'drain', 0))
    work, out = [(st, v, [], 0)], []
    while work:
        st, it, acc, n = work.pop()
        if n > 12:
            raise GaveUp('the listing does not end')
        for s, tag, i2, e in it_step(ip, st, it, site):
            if tag == 'done':
                out.append((s, acc))
            else:
                work.append((s, i2, acc + [e] if tag == 'yield' else acc, n + 1))
    return out


@rule('C28')
def c28(ctx):
    P = Paths(ctx)
    P.built()
    groups, chans = ctx.inherent('TdmsFile', 'list_groups'), ctx.inherent('TdmsFile', 'list_channels_in_group')
    a, b, c, d = (X.nm(raw('sym', x)) for x in 'abcd')
    G = [[a], [a, '/', b], ['/'], [a, "'", "'", b], ["'", "'"], [], ['"', a]]
    C = [[c], [c, '/', d], ["'", "'"], []] if ctx.tier == 'thorough' else [[c], [c, '/', "'", "'"]]
    stored = [()] + [(g,) for g in G] + [(g, x) for g in G for x in C]
    some = [(), ([a],), ([a], [c]), ([a], [d]), ([b], [c]), ([a, "'", "'", b], [c]), ([], [c]), (["'", "'"], [c])]
    queries = [()] + [(g,) for g in G]
    few = [(), ([a],), ([],)]
    if ctx.tier == 'thorough':
        some, few = some + [([a, '/', b],), ([a, '/', b], ["'", "'"]), ([b],), ([a, "'", "'", b],), (['/'], [c, '/'])], queries
    for x in stored:
        listed(ctx, P, groups, (x,), None)
        for q in queries:
            listed(ctx, P, chans, (x,), q)
    for x, y in itertools.permutations(some, 2):
        if possible(path_text(*x), path_text(*y)):
            for q in few:
                listed(ctx, P, chans, (x, y), q)
            listed(ctx, P, groups, (x, y), None)
    ctx.floor('listings', 200)


def possible(x, y):
    """can x come before y?"""
    return X.starts(x, y) is not True


def listed(ctx, P, fn, objs, query):
    I.Interp.unknown.clear()
    s = P.session()
    entries = [(X.text(path_text(*o)), sym('data%d' % i)) for i, o in enumerate(objs)]
    names = [f['name'] if isinstance(f, dict) else f for f in ctx.variants('Index')[1][0]['fields']]
    if 'objects' not in names:
        ctx.unsure('the index keeps its objects somewhere else')
        raise Stop()
    index = M.adt(ctx.variants('Index')[0], 0, tuple(X.omap(entries) if n == 'objects' else sym('index.' + n) for n in names))
    file = struct(ctx, 'TdmsFile', index=index, file=sym('file'))
    st = s.st.copy()
    me = ctx.args(fn, 'self', *(['group'] if query is not None else []))
    st.write(M.place_of(me[0]), file)
    args = [me[0]]
    if query is not None:
        args.append(P.cell(P.path('PropertyPath', path_text(*query))))
    have = ', '.join(say(path_text(*o)) for o in objs)
    what = 'with %s stored, the %s' % (have, 'groups' if query is None else 'channels of %s' % say(path_text(*query)))
    if query is None:
        want = []
        for o in objs:
            if o and o[0] not in want:
                want.append(o[0])
    else:
        want = [path_text(*o) for o in objs if len(o) == 2 and (not query or X.equal(o[0], query[0]))]
    ends, k = [], 0
    X.CHOICE[1] = 0
    try:
        while k == 0 or k < X.CHOICE[1]:
            X.CHOICE[0] = k
            ends += [x for st2, v in s.call(fn, args, st) for x in drain(s.ip, st2, v)]
            k += 1
    except GaveUp as e:
        return ctx.unsure('%s: %s' % (what, e))
    except (I.Unsupported, I.Budget, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, AssertionError) as e:
        return ctx.unsure('%s: %s %s' % (what, type(e).__name__, e))
    except Exception as e:
        if type(e).__name__ != 'NoModel':
            raise
        return ctx.unsure('%s: no model for %s' % (what, e))
    finally:
        X.CHOICE[0] = None
    for st2, els in ends:
        got = [as_text(st2, e) for e in els]
        if any(g is None for g in got):
            ctx.unsure('%s are %s' % (what, ', '.join(show(st2.simp(e))[:60] for e in els)))
            continue
        same = [[X.equal(g, w) for w in want] for g in got]
        if any(x is None for r in same for x in r):
            ctx.unsure('%s are %s' % (what, ', '.join(say(g) for g in got)))
            continue
        extra = [g for g, r in zip(got, same) if not any(r)]
        miss = [w for j, w in enumerate(want) if not any(r[j] for r in same)]
        twice = len(got) - len({tuple(x if isinstance(x, str) else x.id for x in g) for g in got})
        if not extra and not miss and not twice:
            ctx.good('listings')
        elif feasible(st2) and not I.Interp.unknown:
            ctx.fail('%s:%s' % (fn['path'], what), '%s are listed as %s instead of %s' % (
                what, ', '.join(say(g) or '(empty)' for g in got) or 'nothing', ', '.join(say(w) or '(empty)' for w in want) or 'nothing'), ctx.where(fn))
        else:
            ctx.unsure('%s may be %s' % (what, ', '.join(say(g) for g in got)))
