"""The in-memory index: which channels are active, where their data is, which properties objects have.

Histories are composed from the summaries of the index functions: starting from an arbitrary index, segments with symbolic
contents are added and the result is observed through the index' own query functions and compared with the rules of the
file format (class Model), as normal forms.
"""
import itertools
from .. import interp as I
from .. import mem as M
from .. import terms as T
from ..check import Stop, cell, modelled, show
from ..terms import num, raw
from .wire import sym_variant

RULES = {}
OKV = ('v', 0, 0)


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def sym(n, ty=None):
    v = raw('sym', n)
    if ty:
        T.set_ty(v, ty)
    return v


class GaveUp(Exception):
    pass


class Session:
    """one abstract state on which crate functions are composed"""

    def __init__(self, ctx, unroll=4, opaque=None, budget=2000000):
        self.ctx = ctx
        self.ip = I.Interp(ctx.F, opaque=opaque, budget=budget)
        self.ip.assume_ok = True
        self.ip.unroll = unroll
        self.n = 0
        self.st = I.State()

    def call(self, fn, args, st=None):
        """-> [(state, value)]"""
        self.n += 1
        cp = I.CP.get(None, ('root', fn['path'], self.n))
        try:
            ex = self.ip.run_fn(fn['inst'], args=args, st=(st or self.st).copy(), cp=cp)
        except (I.Unsupported, I.Budget, RecursionError, KeyError, IndexError, ValueError, TypeError, AttributeError, AssertionError) as e:
            import os
            if os.environ.get('TSA_DEBUG'):
                import traceback
                traceback.print_exc()
            raise GaveUp('%s: %s: %s' % (fn['path'], type(e).__name__, str(e)[:160]))
        self.ctx.count('functions analysed')
        self.ctx.count('exit paths', len(ex))
        return ex

    def split(self, ex):
        """Result exits -> (ok [(st, payload)], err [(st, payload)])"""
        ok, err = [], []
        for st, v in ex:
            c = T.isvar(v, 0)
            for s2, b in st.branch(c):
                (ok if b else err).append((s2, s2.simp(M.project(v, ('v', 0 if b else 1, 0)))))
        return ok, err

    def outs(self, fn, args, st):
        return [(s, s.simp(v)) for s, v in self.call(fn, args, st)]


def struct(ctx, name, variant=0, **fields):
    p, vs = ctx.variants(name)
    names = vs[variant]['fields']
    for n in fields:
        if n not in names:
            ctx.unsure('the field %s.%s is not there' % (name, n))
            raise Stop()
    if set(names) - set(fields):
        ctx.unsure('%s has more fields than %s' % (name, sorted(fields)))
        raise Stop()
    return M.adt(p, variant, tuple(fields[n] for n in names))


def variant(ctx, name, v):
    p, vs = ctx.variants(name)
    for i, x in enumerate(vs):
        if x['name'] == v:
            return p, i
    raise ctx.missing('%s::%s' % (name, v))


def getf(ctx, ty, v, name):
    return M.project(v, ('f', ctx.field(ty, name)))


NAMES = ('a', 'b', 'c')


class Hist:
    """a history of segments on an arbitrary index"""
    FLAGS = ('contains_meta_data', 'contains_raw_data', 'contains_daqmx_raw_data', 'data_is_interleaved', 'big_endian', 'contains_new_object_list')

    def __init__(self, ctx, paths, unroll=4):
        self.ctx = ctx
        self.s = Session(ctx, unroll)
        self.add = ctx.inherent('Index', 'add_segment')
        self.self = ctx.args(self.add, 'self', 'segment')[0]
        self.paths = {p: sym('path_' + p) for p in paths}
        self.k = 0
        for a, b in itertools.combinations(self.paths.values(), 2):
            self.s.st.assume(M.veq(a, b), False)
        for a, b in itertools.combinations([sym('name_' + n) for n in NAMES], 2):
            self.s.st.assume(M.veq(a, b), False)
        self.st0 = self.s.st

    def segment(self, new, raw_data, objs, little=None, inter=None):
        """objs: None or [(path, kind, [(name, value)])]; kind None, 'match' or the name of a format"""
        ctx, k = self.ctx, self.k
        self.k += 1
        fl = dict(contains_meta_data=T.boolean(objs is not None), contains_raw_data=T.boolean(raw_data), contains_daqmx_raw_data=T.boolean(False),
                  data_is_interleaved=sym('inter%d' % k), big_endian=sym('be%d' % k), contains_new_object_list=T.boolean(new))
        toc = struct(ctx, 'ToC', **fl)
        meta = M.none()
        if objs is not None:
            meta = M.some(struct(ctx, 'MetaData', objects=M.seq(*[self.obj(*o) for o in objs])))
        return struct(ctx, 'Segment', toc=toc, next_segment_offset=sym('next%d' % k, 'u64'), raw_data_offset=sym('raw%d' % k, 'u64'), meta_data=meta)

    def obj(self, path, kind, props=()):
        ctx = self.ctx
        if kind is None:
            p, i = variant(ctx, 'RawDataIndex', 'None')
            ix = M.adt(p, i, ())
        elif kind == 'match':
            p, i = variant(ctx, 'RawDataIndex', 'MatchPrevious')
            ix = M.adt(p, i, ())
        else:
            p, i = variant(ctx, 'RawDataIndex', 'RawData')
            ix = M.adt(p, i, (self.fmt(kind),))
        pr = M.seq(*[M.adt('()', 0, (sym('name_' + n), sym('val_' + v))) for n, v in props])
        return struct(ctx, 'ObjectMetaData', path=self.paths[path], properties=pr, raw_data_index=ix)

    def fmt(self, name):
        """a raw data description with symbolic type and count"""
        dt, n = sym('type_' + name), sym('count_' + name, 'u64')
        T.set_adt(dt, self.ctx.variants('DataType')[0])
        return struct(self.ctx, 'RawDataMeta', data_type=dt, number_of_values=n, total_size_bytes=M.none())

    def feed(self, sts, seg):
        """-> (ok, err) exits of add_segment from each of the states"""
        ok, err = [], []
        for st in sts:
            o, e = self.s.split(self.s.call(self.add, [self.self, seg], st))
            ok += o
            err += e
        return ok, err

    # ---- observations
    def wrap(self, ty, text):
        """text as a value of the type ty: string types as they are, references and one-field structures around them"""
        t = self.ctx.F.types[ty]
        if t['k'] == 'ref':
            return cell(self.wrap(t['t'], text))
        if t['k'] == 'adt' and t.get('vf') and len(t['vf']) == 1 and len(t['vf'][0]) == 1 and self.ctx.F.adts.get(t['path'], {}).get('local'):
            return M.adt(t['path'], 0, (self.wrap(t['vf'][0][0], text),))
        return text

    def arg(self, fn, i, text):
        return self.wrap(self.ctx.F.insts[fn['inst']]['body']['locals'][i + 1][0], text)

    def query(self, st, name, *args):
        """exits of a query function of the index; string symbols are wrapped as the parameter type asks"""
        fn = self.ctx.inherent('Index', name)
        return self.s.outs(fn, [self.self] + [self.arg(fn, i + 1, x) if x.op == 'sym' else x for i, x in enumerate(args)], st)

    def deref(self, st, r):
        return st.simp(st.read(M.place_of(r)))

    def option(self, st, v):
        """(known, payload or None)"""
        d = st.decide(T.isvar(v, 0))
        if d is None:
            return False, None
        return True, None if d else M.project(v, ('v', 1, 0))

    def positions(self, st, p):
        """[(state, None or the sequence of data locations of the object)]"""
        out = []
        for s, v in self.query(st, 'get_channel_data_positions', self.paths[p]):
            known, x = self.option(s, v)
            if not known:
                raise GaveUp('whether %s exists is not decided: %s' % (p, show(v)[:200]))
            out.append((s, None if x is None else self.deref(s, x)))
        return out

    def start(self, exists):
        """the arbitrary index, with the objects in `exists` known to be there and all others not"""
        st = self.st0
        for p in self.paths:
            c = [s for s, x in self.positions(st, p) if (x is not None) == (p in exists)]
            if len(c) != 1:
                raise GaveUp('initial state of %s' % p)
            st = c[0]
        return st


class Model:
    """what a history means in the file format"""

    def __init__(self, exists):
        self.exists = set(exists)
        self.fmt = {p: 'pre' for p in exists}    # 'pre': whatever the arbitrary index knows
        self.active = []
        self.props = {}
        self.locs = {}
        self.blocks = []          # per block: [(path, format)]
        self.error = None         # expected error of the last segment
        self.none_keeps = False

    def step(self, new, raw_data, objs):
        """returns False when the outcome is not specified"""
        self.error = None
        if new:
            self.active = []
        for p, kind, props in objs or ():
            if kind is None:
                if p in self.active and not self.none_keeps:
                    return False
            elif kind == 'match':
                if p not in self.fmt:
                    self.error = 'NoPreviousType'
                    return True
                if self.fmt[p] == 'pre':
                    return False        # the description is unknown; histories that set it first cover this
            else:
                self.fmt[p] = kind
            self.exists.add(p)
            self.props.setdefault(p, []).extend(props)
            if kind is not None and p not in self.active:
                self.active.append(p)
        if raw_data:
            if not self.active:
                self.error = 'SegmentTocDataBlockWithoutDataChannels'
                return True
            for i, p in enumerate(self.active):
                self.locs.setdefault(p, []).append((len(self.blocks), i))
            self.blocks.append([(p, self.fmt[p]) for p in self.active])
        return True


GEOMETRY = {'SegmentAddressOverflow', 'InvalidRawOffset', 'ZeroLengthDataBlock', 'ChunkSizeOverflow'}


def err_name(ctx, st, v):
    """names of the error variants a term can be"""
    p, vs = ctx.variants('TdmsError')
    v = st.simp(v)

    def go(x):
        if x.op == 'ite':
            return go(x.a[1]) | go(x.a[2])
        if x.op == 'adt' and x.a[0] == p:
            return {vs[x.a[1]]['name']}
        return {'?'}
    return go(v)


def describe(h):
    out = []
    for new, rd, objs, *how in h:
        o = 'no meta data' if objs is None else '[%s]' % ', '.join('%s %s%s' % (p, {None: 'without data', 'match': 'as before'}.get(k, 'format ' + str(k)),
                                                                          ' ' + ','.join(n for n, _ in pr) if pr else '') for p, k, pr in objs)
        if how:
            out.append('%s %s' % (how[0], o))
            continue
        out.append('%s%s%s' % ('new list ' if new else '', o, ' +data' if rd else ''))
    return ' ; '.join(out)


def run_history(ctx, key, paths, exists, hist, check, hist_class=Hist):
    """compose the history; check(h, model, st, label) looks at each final state"""
    label = '%s: known before {%s}; %s' % (key, ','.join(sorted(exists)), describe(hist))
    m = Model(exists)
    try:
        h = hist_class(ctx, paths)
        sts = [h.start(exists)]
        pre = {p: h.positions(sts[0], p)[0][1] for p in exists}
        for i, sg in enumerate(hist):
            m.none_keeps = sg[3:] == ('properties',)
            if not m.step(*sg[:3]):
                return
            if sg[3:] == ('write',):
                ok, err = h.channels(sts, [o[0] for o in sg[2]])
                err = []            # what may be refused is the subject of C26
            elif sg[3:] == ('properties',):
                ok, err = h.properties(sts, sg[2][0][0], sg[2][0][2])
            else:
                ok, err = h.feed(sts, h.segment(*sg))
            names = set()
            for st, v in err:
                names |= err_name(ctx, st, v)
            if m.error:
                if ok:
                    ctx.fail('%s:accepted' % label, 'a segment that must be refused (%s) is accepted' % m.error, ctx.where(h.add))
                elif '?' not in names and names != {m.error}:
                    ctx.fail('%s:error' % label, 'refused with %s, expected %s' % (sorted(names), m.error), ctx.where(h.add))
                else:
                    ctx.good('refused histories')
                return
            allowed = {'SegmentAddressOverflow'} | (GEOMETRY if sg[1] else set())
            if names - allowed - {'?'}:
                ctx.fail('%s:refused' % label, 'a valid segment can be refused with %s' % sorted(names - allowed), ctx.where(h.add))
                return
            if not ok:
                ctx.fail('%s:never' % label, 'a valid segment is never accepted', ctx.where(h.add))
                return
            sts = [st for st, _ in ok]
            if len(sts) > 6:
                ctx.unsure('%s: %d outcomes' % (label, len(sts)))
                return
        for st in sts:
            check(h, m, st, label, pre)
    except GaveUp as e:
        ctx.unsure('%s: %s' % (label, e))


def bad(ctx, key, msg, where, *terms):
    """a difference: definite when every term involved is modelled"""
    if all(modelled(t) for t in terms if t is not None):
        ctx.fail(key, msg, where)
    else:
        ctx.unsure('%s: %s' % (key, msg))


def same(st, a, b):
    """equal in every case of the state"""
    a, b = st.simp(a), st.simp(b)
    return a is b or st.decide(M.veq(a, b)) is True


def check_data(ctx, h, m, st, label, pre):
    """data locations and blocks of every object"""
    where = ctx.where(h.add)
    nch = ctx.inherent('DataBlock', 'number_of_chunks')
    for p in h.paths:
        for s, pos in h.positions(st, p):
            exp = m.locs.get(p, [])
            if p not in m.exists:
                if pos is not None:
                    ctx.fail(label + ':ghost', 'object %s exists although no segment mentions it' % p, where)
                continue
            if pos is None:
                ctx.fail(label + ':lost', 'object %s is not in the index' % p, where)
                continue
            base = pre.get(p) or M.seq()
            n = T.sub(M.length(pos), M.length(base))
            if not T.is_int(n, len(exp)):
                bad(ctx, label + ':count', 'object %s has %s data locations more than before, expected %d' % (p, show(n)[:100], len(exp)), where, pos)
                continue
            pref = M.slice_(pos, num(0), M.length(base))
            if pref is not base and M.length(base) is not num(0):
                bad(ctx, label + ':prefix', 'earlier data locations of %s changed: %s' % (p, show(pref)[:200]), where, pref)
            for j, (blk, ch) in enumerate(exp):
                loc = s.simp(M.index(pos, T.add(M.length(base), num(j))))
                ci = getf(ctx, 'DataLocation', loc, 'channel_index')
                if not T.is_int(ci, ch):
                    bad(ctx, label + ':channel', 'object %s has channel index %s in data block %d, expected %d' % (p, show(ci)[:80], blk, ch), where, ci)
                    continue
                q = h.query(s, 'get_data_block', s.simp(getf(ctx, 'DataLocation', loc, 'data_block')))
                for s2, b in q:
                    known, b = h.option(s2, b)
                    if not known or b is None:
                        ctx.fail(label + ':block', 'the data block of %s is not in the index' % p, where)
                        continue
                    blkv = h.deref(s2, b)
                    chs = s2.simp(getf(ctx, 'DataBlock', blkv, 'channels'))
                    want = m.blocks[blk]
                    if not T.is_int(M.length(chs), len(want)):
                        bad(ctx, label + ':channels', 'data block %d has %s channels, expected %s' % (blk, show(M.length(chs)), [x for x, _ in want]), where, chs)
                        continue
                    start = getf(ctx, 'DataBlock', blkv, 'start')
                    off = sym('raw%d' % h.rawsegs(m, blk), 'u64')
                    if not T.contains(start, lambda x: x is off):
                        bad(ctx, label + ':which', 'object %s is located in another data block than that of the segment' % p, where, start)
                        continue
                    me = s2.simp(M.index(chs, num(ch)))
                    if want[ch][1] != 'pre':
                        e = h.fmt(want[ch][1])
                        if not same(s2, me, e):
                            bad(ctx, label + ':format', 'channel %s of data block %d has the description %s, expected %s' % (p, blk, show(me)[:160], show(e)[:160]), where, me)
                            continue
                    ok, _ = h.s.split(h.s.call(nch, [b], s2))
                    ns = getf(ctx, 'DataLocation', loc, 'number_of_samples')
                    for s3, chunks in ok:
                        e = T.mul(getf(ctx, 'RawDataMeta', me, 'number_of_values'), chunks)
                        if not same(s3, ns, e):
                            bad(ctx, label + ':samples', 'object %s: %s samples recorded for data block %d, expected values per chunk * chunks' % (p, show(ns)[:160], blk), where, ns, e)
                        else:
                            ctx.good('data locations')


def rawsegs(self, m, blk):
    return [i for i, sg in enumerate(self.hist) if sg[1]][blk]


Hist.rawsegs = rawsegs


def objlists(paths, kinds, n):
    items = [(p, k, ()) for p in paths for k in kinds]
    out = []
    for i in range(n + 1):
        out += [list(x) for x in itertools.product(items, repeat=i)]
    return out


@rule('C13')
def c13(ctx):
    """Composition of the summaries of the index functions: on an arbitrary index, after every short list of channels set up by
    one or two segments, any number (1..3) of segments without meta data add one location per listed channel, in the listed
    order, in the new data block, with the formats that were in force; nothing else changes. Without listed channels they are refused."""
    first = [(True, False, [('q', 'X', ()), ('p', 'Y', ())])]
    setups = []
    for objs in objlists('pq', ('A', 'B', None), 2):
        if objs:
            setups.append([(True, True, objs)])
            if any(k for _, k, _ in objs):
                setups.append([(True, False, objs)])
    for objs in objlists('pq', ('A', 'match'), 2):
        if any(k == 'match' for _, k, _ in objs):
            setups.append(first + [(True, True, objs)])
    for a, b in itertools.product([[('p', 'A', ())], [('p', 'A', ()), ('q', 'B', ())]], [[('q', 'C', ())], [('p', 'C', ())], [('p', 'match', ())], [('r', 'C', ())], [('r', None, ())]]):
        setups.append([(True, True, a), (False, True, b)])
        setups.append([(True, True, a), (False, False, b)])
    for su in setups:
        for exists in ((), ('p', 'q')):
            for n in ((1, 2) if len(su[-1][2]) < 2 else (1,)) if ctx.tier == 'quick' else (1, 2, 3):
                run(ctx, 'C13', 'pqr' if any(p == 'r' for x in su for p, _, _ in x[2]) else 'pq', exists, su + [(False, True, None)] * n, check_data)
    for su in ([(True, False, [])], [(True, False, [('p', None, ())])]):
        run(ctx, 'C13', 'p', (), su + [(False, True, None)], check_data)
    ctx.floor('data locations', 200)
    ctx.floor('refused histories', 2)


def run(ctx, key, paths, exists, hist, check, hist_class=Hist):
    def chk(h, *a):
        h.hist = hist
        check(ctx, h, *a)
    run_history(ctx, key, paths, exists, hist, chk, hist_class)


@rule('C16')
def c16(ctx):
    """Composition of the summaries of the index functions: from every active list of one or two channels on an arbitrary index, a
    following segment with or without the new-object-list flag and up to two listed objects (new description, same as before,
    no data) gives the next data block exactly the channels the format prescribes, in that order and with those descriptions;
    each channel gets one location in it and no other object does. `Same as before` without a description is refused."""
    firsts = [[('p', 'A', ())], [('p', 'A', ()), ('q', 'B', ())], [('q', 'B', ()), ('g', None, ())]]
    seconds = []
    for objs in objlists('pqr', ('C', 'match', None), 2):
        if len(objs) == 2 and objs[0][0] == objs[1][0] and ctx.tier == 'quick':
            continue
        seconds.append(objs)
    for f in firsts:
        for se in seconds:
            for new in (False, True):
                run(ctx, 'C16', 'pqrg', ('g',) if len(f) > 1 else (), [(True, True, f), (new, True, se)], check_data)
    for mid in ([('q', 'B', ())], [('q', 'B', ()), ('p', None, ())]):
        run(ctx, 'C16', 'pq', (), [(True, True, [('p', 'A', ())]), (True, True, mid), (True, True, [('p', 'match', ())])], check_data)
        run(ctx, 'C16', 'pq', (), [(True, True, [('p', 'A', ())]), (True, True, mid), (False, True, [('p', 'match', ())])], check_data)
    for f in firsts:
        # a new object list that lists nothing, with and without a meta data part
        for none in (None, []):
            ex = ('g',) if len(f) > 1 else ()
            run(ctx, 'C16', 'pqrg', ex, [(True, True, f), (True, True, none)], check_data)
            run(ctx, 'C16', 'pqrg', ex, [(True, True, f), (True, False, none), (False, True, None)], check_data)
            run(ctx, 'C16', 'pqrg', ex, [(True, True, f), (True, False, none), (False, True, [('r', 'C', ())])], check_data)
    ctx.floor('data locations', 300)
    ctx.floor('refused histories', 20)


def check_props(ctx, h, m, st, label, pre):
    where = ctx.where(h.add)
    fn = ctx.inherent('Index', 'get_object_property')
    for p in h.paths:
        for n in NAMES:
            want = [v for k, v in m.props.get(p, ()) if k == n]
            name = sym('name_' + n)
            args = [h.self, h.arg(fn, 1, h.paths[p]), h.arg(fn, 2, name)]
            outs = []
            for s0, v in h.s.call(fn, args, st):
                if s0.decide(T.isvar(v, 0)):
                    outs += [(s1, v) for s1, _ in s0.branch(T.isvar(M.project(v, ('v', 0, 0)), 0))]
                else:
                    outs.append((s0, v))
            for s, v in outs:
                v = s.simp(v)
                d = s.decide(T.isvar(v, 0))
                key = '%s:property %s of %s' % (label, n, p)
                if d is None:
                    ctx.unsure('%s: %s' % (key, show(v)[:120]))
                    continue
                if p not in m.exists:
                    names = err_name(ctx, s, M.project(v, ('v', 1, 0))) if not d else set()
                    if d or names != {'MissingObject'}:
                        ctx.fail(key, 'an object that was never mentioned gives %s' % ('a value' if d else sorted(names)), where)
                    else:
                        ctx.good('missing objects reported')
                    continue
                if not d:
                    ctx.fail(key, 'an object that is in the file is reported as missing', where)
                    continue
                known, x = h.option(s, M.project(v, ('v', 0, 0)))
                if want:
                    e = sym('val_' + want[-1])
                    if not known:
                        ctx.unsure('%s: %s' % (key, show(v)[:120]))
                    elif x is None:
                        ctx.fail(key, 'a property that was set is absent', where)
                    elif h.deref(s, x) is not e:
                        bad(ctx, key, 'the value is %s, the last one set is %s' % (show(h.deref(s, x))[:120], show(e)), where, h.deref(s, x))
                    else:
                        ctx.good('property values')
                elif p in h.existed:
                    # whatever it was before
                    if not known:
                        ctx.unsure('%s: %s' % (key, show(v)[:120]))
                        continue
                    same = []
                    before = h.start0.copy()
                    for c, val in s.facts.items():
                        before.assume(c, val)
                    for s0, v0 in h.s.call(fn, args, before):
                        k0, x0 = h.option(s0, s0.simp(M.project(v0, ('v', 0, 0))))
                        same.append(k0 and (x is None and x0 is None) or (x is not None and x0 is not None and h.deref(s, x) is h.deref(s0, x0)))
                    if not any(same):
                        bad(ctx, key, 'a property no segment sets has changed to %s' % (show(h.deref(s, x))[:120] if x is not None else 'nothing'), where, h.deref(s, x) if x is not None else None)
                    else:
                        ctx.good('properties kept')
                else:
                    if not known or x is not None:
                        bad(ctx, key, 'a property that was never set has a value', where)
                    else:
                        ctx.good('absent properties')


def proplists():
    out = [(), (('a', '1'),), (('a', '1'), ('b', '2')), (('a', '1'), ('a', '2')), (('b', '1'),)]
    return out


@rule('C17')
def c17(ctx):
    """Composition of the summaries of the index functions: for histories of up to three segments that set properties on an arbitrary index, the
    query for every object and name gives the last value set, properties that no segment sets keep their previous value (or stay
    absent), and objects never mentioned are reported as missing. Objects with and without data are covered alike."""
    def chk(h, m, st, label, pre):
        check_props(ctx, h, m, st, label, pre)
    ren = lambda ps, i: tuple((n, v + 'xyz'[i]) for n, v in ps)
    for kinds in ((None, None), ('A', None), ('A', 'match'), (None, 'A'), ('A', 'B')):
        for p1 in proplists():
            for p2 in proplists():
                if kinds != (None, None) and ctx.tier == 'quick' and len(p1) + len(p2) > 3:
                    continue
                for exists in ((), ('p',)):
                    for new in (False, True):
                        if new and ctx.tier == 'quick' and kinds[0] is None:
                            continue
                        if not new and kinds == ('A', None):
                            continue
                        prun(ctx, 'pq', exists, [(True, False, [('p', kinds[0], ren(p1, 0))]), (new, False, [('p', kinds[1], ren(p2, 1))])])
    for two in ([('p', None, (('a', '1'),)), ('q', None, (('a', '2'),))], [('p', 'A', (('a', '1'),)), ('q', 'B', (('b', '2'),))],
                [('p', None, (('a', '1'),)), ('p', None, (('a', '2'),))]):
        prun(ctx, 'pq', (), [(True, False, two)])
        prun(ctx, 'pq', ('q',), [(True, False, two), (False, False, None)])
        prun(ctx, 'pq', (), [(True, False, two), (True, False, [])])
        prun(ctx, 'pqr', ('r',), [(True, False, two), (True, False, [('r', None, (('c', '3'),))]), (True, False, [('q', None, (('c', '4'),))])])
    ctx.floor('property values', 150)
    ctx.floor('properties kept', 50)
    ctx.floor('absent properties', 50)
    ctx.floor('missing objects reported', 50)


def prun(ctx, paths, exists, hist):
    def chk(h, *a):
        h.start0, h.existed = h.start(exists), set(exists)
        check_props(ctx, h, *a)
    run_history(ctx, 'C17', paths, exists, hist, chk)


MAX_POS = 2 ** 63 - 1
MAX64 = 2 ** 64 - 1


def le(a, b):
    """a <= b"""
    return T.le0(T.sub(a, b))


def under(st, conds):
    """the state st in which conds hold as well; None when that is contradictory"""
    s = st.copy()
    s.facts, s.lin, s.dec = {}, [], {}
    for c in conds:
        if not s.assume(c, True):
            return None
    for c, b in st.facts.items():
        if not s.assume(c, b):
            return None
    return s


@rule('C15')
def c15(ctx):
    """Value analysis of the data block construction and of the segment bookkeeping: on every accepting path the block starts at
    segment start + 28 + raw offset, is next offset - raw offset long, carries byte order and layout of the flags and the channels
    given; an accepted block ends within the signed 64 bit range; every refusal is incompatible with a valid segment. The index advances by 28 + next
    offset, says so in its result, and opening continues at exactly that position and starts at 0."""
    f = ctx.inherent('DataBlock', 'from_segment')
    a = ctx.args(f, 'segment', 'start', 'metas')
    h = Hist(ctx, 'p')
    seg = h.segment(True, True, None)
    nxt, off, start, metas = sym('next0', 'u64'), sym('raw0', 'u64'), a[1], a[2]
    T.set_ty(start, 'u64')
    where = ctx.where(f)
    for metas in (a[2], M.seq(h.fmt('A')), M.seq(h.fmt('A'), h.fmt('B')), M.seq()):
        r = ctx.run(f, args=[cell(seg), start, metas])
        if r is None:
            continue
        valid = [T.le0(T.sub(T.add(off, num(1)), nxt)), le(T.add(T.add(start, num(28)), nxt), num(MAX_POS))]
        if not T.is_int(M.length(metas)):
            valid.append(T.mk_not(T.eq0(M.length(metas))))
        for st, v in r.ok():
            if M.length(metas) is num(0):
                ctx.fail('block:no channels', 'a data block without channels is accepted', where)
                continue
            for c, what in zip(valid, ('an empty or negative data length', 'an end beyond the addressable range', 'no channels')):
                if st.decide(c) is not True:
                    s2 = st.copy()
                    if s2.assume(c, False):
                        ctx.fail('block:accepts %s' % what, 'a data block with %s is accepted' % what, where)
            want = dict(start=T.add(T.add(start, num(28)), off), length=T.sub(nxt, off), channels=metas)
            for n, e in want.items():
                x = st.simp(getf(ctx, 'DataBlock', v, n))
                if x is not st.simp(e):
                    bad(ctx, 'block:%s' % n, 'the %s of a data block is %s, expected %s' % (n, show(x)[:200], show(e)[:200]), where, x)
                else:
                    ctx.good('block fields')
            for n, flag, t, ty, tv, fv in (('layout', 'inter0', None, 'DataLayout', 'Interleaved', 'Contigious'), ('byte_order', 'be0', None, 'Endianess', 'Big', 'Little')):
                for b, name in ((True, tv), (False, fv)):
                    s2 = st.copy()
                    if not s2.assume(sym(flag), b):
                        continue
                    x = s2.simp(getf(ctx, 'DataBlock', v, n))
                    p, i = variant(ctx, ty, name)
                    if not (x.op == 'adt' and x.a[1] == i):
                        bad(ctx, 'block:%s' % n, 'with the %s flag %s a data block is %s' % (n, 'set' if b else 'clear', show(x)[:100]), where, x)
                    else:
                        ctx.good('block fields')
        for st, v in r.err():
            s2 = under(st, valid)
            if s2 is not None and M.length(metas) is not num(0):
                if any(s2.decide(c) is None and not modelled(c) for c in st.facts):
                    ctx.unsure('whether %s can be refused' % show(v)[:80])
                    continue
                s2v = err_name(ctx, s2, v)
                ctx.fail('block:refuses', 'a valid segment can be refused with %s' % sorted(s2v), where)
            else:
                ctx.good('refusals')
    # the index
    fn = ctx.inherent('Index', 'next_segment_start')
    for hist in ([(True, False, [('p', None, ())])], [(True, True, [('p', 'A', ())])], [(True, False, [('p', 'A', ())]), (False, True, None)],
                 [(True, True, [('p', 'A', ())]), (True, True, [('p', 'B', ())])], [(False, False, None)]):
        h = Hist(ctx, 'p')
        label = 'positions after %s' % describe(hist)
        try:
            sts = [h.start(())]
            p0 = h.s.outs(fn, [h.self], sts[0])
            pos = p0[0][1]
            for k, sg in enumerate(hist):
                ok, _ = h.feed(sts, h.segment(*sg))
                begin = pos
                pos = T.add(T.add(pos, sym('next%d' % k, 'u64')), num(28))
                for st, v in ok:
                    if not same(st, v, pos):
                        bad(ctx, label, 'adding a segment reports %s as the next position, expected %s' % (show(v)[:160], show(pos)[:160]), ctx.where(h.add), v)
                    for s2, x in h.s.outs(fn, [h.self], st):
                        if x is not s2.simp(pos):
                            bad(ctx, label, 'the index expects the next segment at %s, expected %s' % (show(x)[:160], show(pos)[:160]), ctx.where(h.add), x)
                        else:
                            ctx.good('index positions')
                    if sg[1]:
                        for s2, ps in h.positions(st, 'p'):
                            loc = M.index(ps, T.sub(M.length(ps), num(1)))
                            for s3, b in h.query(s2, 'get_data_block', s2.simp(getf(ctx, 'DataLocation', loc, 'data_block'))):
                                known, b = h.option(s3, b)
                                if b is None:
                                    ctx.unsure('%s: no block' % label)
                                    continue
                                x = s3.simp(getf(ctx, 'DataBlock', h.deref(s3, b), 'start'))
                                e = T.add(T.add(begin, num(28)), sym('raw%d' % k, 'u64'))
                                if x is not s3.simp(e):
                                    bad(ctx, label + ':start', 'the data block starts at %s, expected %s' % (show(x)[:160], show(e)[:160]), ctx.where(h.add), x)
                                else:
                                    ctx.good('block positions')
                sts = [st for st, _ in ok]
        except GaveUp as e:
            ctx.unsure('%s: %s' % (label, e))
    opening(ctx)
    ctx.floor('block fields', 10)
    ctx.floor('refusals', 3)
    ctx.floor('index positions', 6)
    ctx.floor('block positions', 3)
    ctx.floor('open loop', 1)


def opening(ctx):
    """typestate over the event traces of opening a file: positioned -> segment read -> added to the index -> positioned at the
    place the index returned"""
    new = ctx.inherent('TdmsFile', 'new')
    rd, add = ctx.inherent('Segment', 'read'), ctx.inherent('Index', 'add_segment')
    r = ctx.run(new, opaque=lambda c: c.df in (rd['path'], add['path']), tag='open', ok=False)
    if r is None:
        return
    where = ctx.where(new)
    for st, v in r.exits:
        try:
            end = walk(ctx, st.trace, ('unpositioned',), rd, add, where)
        except GaveUp as e:
            ctx.unsure('opening: %s' % e)
            continue
        okc = st.decide(T.isvar(v, 0))
        for s in end:
            if okc is not False and s[0] == 'read' and st.decide(T.isvar(s[1], 0)) is not False:
                ctx.fail('open:drops a segment', 'opening succeeds although a segment that was read is not in the index', where)
            elif okc is not False and s[0] == 'added' and st.decide(T.isvar(s[1], 0)) is False:
                ctx.fail('open:ignores refusal', 'opening succeeds although the index refused a segment', where)
            elif okc is not False and s[0] == 'unpositioned':
                ctx.fail('open:reads nothing', 'opening succeeds without looking for a segment', where)
            else:
                ctx.good('open paths')


def walk(ctx, trace, s, rd, add, where):
    """set of typestates after the trace"""
    cur = {s}
    for e in trace:
        nxt = set()
        if e.op == 'LP':
            # the states at the loop head: entry and the end of any iteration
            seen = set(cur)
            todo = list(cur)
            n = 0
            while todo and n < 50:
                n += 1
                x = todo.pop()
                for p in e.a[3]:
                    for y in walk(ctx, p.a[1], x, rd, add, where):
                        y = y[:1] if y[0] == 'positioned' else y
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
            if any(last_event(p, add) or last_event(p, rd) for p in e.a[3]):
                ctx.good('open loop')
            cur = seen
            continue
        df = e.a[0].split('<F')[0]
        for x in cur:
            nxt.add(step(ctx, e, df, x, rd, add, where))
        cur = nxt
    return cur


def last_event(p, fn):
    return any(e.op == 'E' and e.a[0].startswith(fn['path']) for e in p.a[1])


def step(ctx, e, df, x, rd, add, where):
    name = df.split('<')[0] if not df.startswith('<') else df
    res = e.a[4]
    if e.a[0].startswith(rd['path']):
        if x[0] != 'positioned':
            what = {'unpositioned': 'before the file is positioned at its beginning', 'read': 'although the previous one was not added to the index',
                    'added': 'without moving to where the index says it begins', 'lost': 'from a position that is not the one the index returned'}[x[0]]
            ctx.fail('open:%s' % x[0], 'opening reads a segment %s' % what, where)
        return ('read', res)
    if e.a[0].startswith(add['path']):
        arg = e.a[3][-1]
        if x[0] != 'read':
            if not modelled(arg):
                raise GaveUp('the segment added is %s' % show(arg)[:80])
            return ('added', res)
        if arg is not M.project(x[1], OKV):
            if not modelled(arg):
                raise GaveUp('the segment added is %s' % show(arg)[:80])
            ctx.fail('open:adds another segment', 'the segment added to the index is not the one that was read', where)
        return ('added', res)
    if '::seek' in e.a[0] or 'Seek::' in e.a[0]:
        arg = e.a[3][-1]
        if not modelled(arg):
            raise GaveUp('opening moves to %s' % show(arg)[:80])
        if arg.op == 'adt' and arg.a[1] == 0 and len(arg.a[2]) == 1:
            pos = arg.a[2][0]
            if x[0] == 'unpositioned' and T.is_int(pos, 0):
                return ('positioned',)
            if x[0] == 'added' and pos is M.project(x[1], OKV):
                return ('positioned', x[1])
        return ('lost',) if x[0] != 'unpositioned' else x
    return x


# ------------------------------------------------------------------ C14
class Writing(Hist):
    """histories that contain calls of the file writer"""

    def __init__(self, ctx, paths, unroll=5):
        Hist.__init__(self, ctx, paths, unroll)
        self.wf = ctx.inherent('TdmsFileWriter', 'write_channels')
        self.pf = ctx.inherent('TdmsFileWriter', 'write_properties')
        self.s.ip.hooks['as_ref'] = self.as_ref
        self.s.ip.hooks['path'] = self.path_text
        self.s.ip.hooks['write_segment'] = self.write_segment
        a = ctx.args(self.wf, 'writer', 'channels', 'values', 'layout')
        self.wself, self.values, self.layout = a[0], a[2], a[3]
        self.by_ch = {sym('ch_' + p): p for p in paths}
        self.by_path = {sym('pp_' + p): p for p in paths}
        p, vs = ctx.variants('TdmsFileWriter')
        self.st0.write(M.place_of(self.wself), M.adt(p, 0, tuple(self.self if n == 'index' else sym('writer_' + n) for n in vs[0]['fields'])))
        self.nat = None
        self.other = sym('other_type')
        T.set_adt(self.other, ctx.variants('DataType')[0])
        self.st0.assume(M.veq(self.natural(), self.other), False)
        n = self.length()
        for k in (2, 3):      # values are there, so a part of them is fewer
            self.st0.assume(T.eq(n, T.div(n, num(k))), False)

    def as_ref(self, ip, st, call):
        p = self.by_ch.get(st.simp(st.read(M.place_of(call.args[0]))))
        return None if p is None else [(st, self.wrap(call.destty, self.paths[p]))]

    def path_text(self, ip, st, call):
        p = self.by_path.get(st.simp(st.read(M.place_of(call.args[0])))) if len(call.args) == 1 and call.args[0].op == 'ref' else None
        return None if p is None else [(st, self.wrap(call.destty, self.paths[p]))]

    def write_segment(self, ip, st, call):
        """what C12 shows the segment writer to do: the stored segment is what it was given, the flags say what is present"""
        ctx = self.ctx
        if len(call.args) != 4:
            return None
        out = []
        toc, meta, data = call.args[1:]
        for s1, has_meta in [(s, not b) for s, b in st.branch(T.isvar(meta, 0))]:
            for s2, has_data in [(s, not b) for s, b in s1.branch(T.isvar(data, 0))]:
                k = self.k
                tp, tv = ctx.variants('ToC')
                fs = []
                for i, n in enumerate(tv[0]['fields']):
                    x = s2.simp(M.project(toc, ('f', i)))
                    fs.append({'big_endian': sym('be_w'), 'contains_meta_data': T.boolean(has_meta), 'contains_raw_data': T.boolean(has_data)}.get(n, x))
                seg = struct(ctx, 'Segment', toc=M.adt(tp, 0, tuple(fs)), next_segment_offset=sym('next%d' % k, 'u64'),
                             raw_data_offset=sym('raw%d' % k, 'u64'), meta_data=s2.simp(meta))
                res = M.adt(ip.F.types[call.destty]['path'], 0, (seg,))
                s2.trace = s2.trace + (raw('E', 'write_segment', call.site, (), (s2.simp(toc), s2.simp(meta), s2.simp(data)), res),)
                out.append((s2, res))
        return out

    def length(self):
        return M.length(self.st0.read(M.place_of(self.values)))

    def natural(self):
        """the data type code of the written type, as the code under analysis names it"""
        if self.nat is None:
            self.nat = getattr(self.ctx, 'natural', None)
        if self.nat is None:
            seen = len(self.s.ip.obls)
            self.s.ip.hooks['add_segment'] = lambda ip, st, call: [(st, M.ok(num(0)))]
            for st, v in self.s.call(self.wf, [self.wself, cell(M.seq(sym('ch_' + next(iter(self.paths))))), self.values, self.layout], self.st0):
                for e in st.trace:
                    if e.op == 'E' and e.a[0] == 'write_segment':
                        def look(x):
                            if x.op == 'cst' and x.a[1] == 'NATURAL_TYPE':
                                self.nat = x
                            return self.nat is not None
                        T.contains(e, look)
            del self.s.ip.hooks['add_segment']
            del self.s.ip.obls[seen:]        # only asked for a name, in a state that need not exist
            if self.nat is None:
                raise GaveUp('the type of the written values was not found')
            self.ctx.natural = self.nat
        return self.nat

    def fmt(self, name):
        """W1, W2..: what a write to one, two.. channels has to store; N1.. / T..: another length / type"""
        if name[0] not in 'WNT' or name == 'T':
            return Hist.fmt(self, name)
        n = self.length()
        k = int(name[1:])
        n = n if k == 1 else T.div(n, num(k))
        t = self.natural()
        if name[0] == 'N':
            n = T.add(n, num(1))
        if name[0] == 'T':
            t = self.other
        return struct(self.ctx, 'RawDataMeta', data_type=t, number_of_values=n, total_size_bytes=M.none())

    def channels(self, sts, ps):
        ch = cell(M.seq(*[sym('ch_' + p) for p in ps]))
        ok, err = [], []
        for st in sts:
            o, e = self.s.split(self.s.call(self.wf, [self.wself, ch, self.values, self.layout], st))
            ok += o
            err += e
        self.k += 1
        return ok, err

    def properties(self, sts, p, props):
        item = lambda n, v: M.adt('()', 0, (cell(sym('name_' + n)), sym('val_' + v)))
        ok, err = [], []
        for st in sts:
            o, e = self.s.split(self.s.call(self.pf, [self.wself, cell(sym('pp_' + p)), cell(M.seq(*[item(n, v) for n, v in props]))], st))
            ok += o
            err += e
        self.k += 1
        return ok, err


def written(*ps):
    """a write to these channels, as the segment a reader has to see"""
    return (True, True, [(p, 'W%d' % len(ps), ()) for p in ps], 'write')


def propwrite(p, *props):
    return (False, False, [(p, None, tuple(props))], 'properties')


@rule('C14')
def c14(ctx):
    """Composition of the summaries of the file writer and the index: on an arbitrary index, after every short list of channels with
    the same, a longer or a differently typed description, every write to one or two channels (twice, in another order, a
    subset, with properties written in between) leaves the channels, descriptions and locations a reader is
    owed; the segment may omit or abbreviate its meta data only where that does not change the result."""
    def check(ctx, h, m, st, label, pre):
        check_data(ctx, h, m, st, label, pre)
        check_layout(ctx, h, st, label)
        h.existed = pre
        if any(m.props.values()) and not pre:
            check_props(ctx, h, m, st, label, pre)
    W = Writing
    seg = lambda *o: (True, True, [(p, k, ()) for p, k in o])
    more = lambda *o: (False, True, [(p, k, ()) for p, k in o])
    hists = []
    empty = (True, False, [])
    one = [[seg((p, k)) for p, k in (x,)] for x in itertools.product('pq', ('W1', 'N1', 'T1', 'W2'))]
    two = [[seg((a, ka), (b, kb))] for a, b in ('pq', 'qp') for ka in ('W2', 'N2', 'W1') for kb in ('W2', 'T2', 'W1')]
    for su in one + two:
        for ps in ('p', 'pq', 'qp') if ctx.tier == 'quick' else ('p', 'q', 'pq', 'qp', 'pqr'):
            hists.append(su + [written(*ps)])
    for a, b in itertools.product(('p', 'pq', 'qp'), repeat=2):
        hists.append([empty, written(*a), written(*b)])
        hists.append([seg(('p', 'N1'), ('q', 'T1')), written(*a), written(*b)])
    hists += [[seg(('p', 'W1')), seg(('q', 'N1')), written('p')], [seg(('p', 'W1')), more(('q', 'N1')), written('p')],
              [seg(('p', 'W2')), more(('q', 'W2')), written('p', 'q')], [seg(('p', 'W2')), more(('q', 'W2')), written('q', 'p')],
              [seg(('p', 'W1')), more(('p', 'N1')), written('p')], [seg(('p', 'N1')), more(('p', 'W1')), written('p')],
              [empty, written('p'), written('q'), written('p')], [empty, written('p'), more(('q', 'N1')), written('p')],
              [empty, written('p'), (False, True, None)], [empty, written('p', 'q'), written('p'), (False, True, None)],
              [empty, written('p'), propwrite('g', ('b', 'x')), written('p')], [empty, written('p'), propwrite('p', ('b', 'x')), written('p')],
              [empty, written('p', 'q'), propwrite('q', ('b', 'x')), written('p', 'q')], [empty, propwrite('p', ('b', 'x')), written('p')],
              [empty, propwrite('p', ('b', 'x')), propwrite('p', ('b', 'y')), written('p')]]
    for h in hists:
        names = ''.join(sorted({p for x in h for p, _, _ in x[2] or ()}))
        run(ctx, 'C14', names, (), h, check, W)
    for ps in ('p', 'pq'):
        run(ctx, 'C14', 'pq', ('p', 'q'), [seg(('p', 'W1')), written(*ps)], check, W)
        run(ctx, 'C14', 'pq', ('p', 'q'), [seg(('p', 'N1'), ('q', 'W1')), written(*ps)], check, W)
    ctx.floor('data locations', 200)
    ctx.floor('written segments', 100)


def check_layout(ctx, h, st, label):
    """the block layout is the requested one and the written data are the given values"""
    where = ctx.where(h.wf)
    p, i = variant(ctx, 'DataLayout', 'Interleaved')
    want = T.isvar(h.layout, i)
    for e in st.trace:
        if e.op == 'E' and e.a[0] == 'write_segment':
            toc, meta, data = e.a[3]
            if data.op == 'adt' and data.a[1] == 0 and not data.a[2]:
                continue
            got = getf(ctx, 'ToC', toc, 'data_is_interleaved')
            if not same(st, got, want):
                bad(ctx, label + ':layout', 'the segment is marked interleaved when %s, expected when the requested layout is interleaved' % show(got)[:120], where, got)
                continue
            if not T.contains(data, lambda x: x is h.values):
                bad(ctx, label + ':values', 'the segment data are %s, not the given values' % show(data)[:120], where, data)
                continue
            ctx.good('written segments')
