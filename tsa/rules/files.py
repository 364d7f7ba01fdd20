"""The file object: opening, writing, flushing."""
from .. import mem as M
from .. import terms as T
from ..check import modelled, show, ev_name, cell
from ..terms import num, raw, add, sub, mul
from .index import Session, GaveUp, Hist, struct, sym, variant, under, le, getf, bad
from .reading import find, feasible, is_error, last_name

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def new_index(ctx, s):
    """a place that holds an arbitrary index, and a reference to it"""
    p = (('O', sym('index')), ())
    return p, M.mk_ref(p)


def writer_value(ctx, index):
    p, vs = ctx.variants('TdmsFileWriter')
    names = vs[0]['fields']
    if 'index' not in names:
        ctx.unsure('the file writer has no index')
        return None
    return M.adt(p, 0, tuple(index if n == 'index' else sym('writer_' + n) for n in names))


class Writes:
    """one call of the file writer on an arbitrary file; the segment writer and the index update are events with any outcome"""

    def __init__(self, ctx, natural=None):
        self.ctx = ctx
        names = ('write_segment', 'add_segment', 'check_write_values', 'sync')
        self.s = Session(ctx, 4, lambda c: c.name in names)
        self.s.ip.assume_ok = False
        self.pidx, ref = new_index(ctx, self.s)
        self.nat = natural
        self.wf = ctx.inherent('TdmsFileWriter', 'write_channels')
        self.pf = ctx.inherent('TdmsFileWriter', 'write_properties')
        self.value = writer_value(ctx, ref)
        self.ref = ref

    def call(self, fn, *args):
        a = self.ctx.args(fn, 'self', *['a%d' % i for i in range(len(args))])
        st = self.s.st.copy()
        st.write(M.place_of(a[0]), self.value)
        args = [x if x is not None else a[i + 1] for i, x in enumerate(args)]
        before = st.read(self.pidx)
        return [(s, s.simp(v), before) for s, v in self.s.call(fn, [a[0]] + args, st)]

    def events(self, st):
        return [e for e in st.trace]


def outcome(ctx, what, key, where, w, st, v, before):
    """one exit of a write: -> 'refused' | 'failed' | 'written' | None"""
    ev = st.trace
    if any(e.op != 'E' for e in ev):
        ctx.unsure('%s: events in a loop' % what)
        return None
    wr = [e for e in ev if ev_name(e) == 'write_segment']
    ad = [e for e in ev if ev_name(e) == 'add_segment']
    other = [e for e in ev if e not in wr and e not in ad]
    if other:
        ctx.unsure('%s: unexpected event %s' % (what, show(other[0])[:120]))
        return None
    if len(wr) > 1 or len(ad) > 1:
        ctx.fail('%s:twice' % key, '%s: a single write stores %d segments and adds %d to the index' % (what, len(wr), len(ad)), where)
        return None
    ok = st.decide(T.isvar(v, 0))
    if ok is None:
        ctx.unsure('%s: the result is %s' % (what, show(v)[:120]))
        return None
    after = st.simp(st.read(w.pidx))
    changed = after is not st.simp(before)
    if not wr:
        if ad:
            ctx.fail('%s:index' % key, '%s: the index gets a segment although none is written' % what, where)
        elif changed:
            bad(ctx, '%s:index' % key, '%s: the index changes although nothing is written' % what, where, after)
        elif ok:
            return 'skipped'
        else:
            return 'refused'
        return None
    wok = st.decide(T.isvar(wr[0].a[4], 0))
    if ad:
        seg = st.simp(M.project(wr[0].a[4], ('v', 0, 0)))
        if ev.index(ad[0]) < ev.index(wr[0]):
            ctx.fail('%s:order' % key, '%s: the index is updated before the segment is written' % what, where)
            return None
        if wok is not True:
            ctx.fail('%s:failed' % key, '%s: the index gets a segment whose writing may have failed' % what, where)
            return None
        if st.simp(ad[0].a[3][1]) is not seg:
            bad(ctx, '%s:other' % key, '%s: the index gets %s, which is not the segment that was written' % (what, show(st.simp(ad[0].a[3][1]))[:120]), where, st.simp(ad[0].a[3][1]))
            return None
        if st.simp(ad[0].a[3][0]) is not w.ref:
            bad(ctx, '%s:whose' % key, '%s: another index is updated' % what, where, ad[0].a[3][0])
            return None
        aok = st.decide(T.isvar(ad[0].a[4], 0))
        if aok is None or aok is not ok:
            ctx.fail('%s:result' % key, '%s: the result is %s although updating the index %s' % (what, 'a success' if ok else 'an error', {True: 'succeeds', False: 'fails', None: 'may fail'}[aok]), where)
            return None
        return 'written' if ok else 'failed'
    if changed:
        bad(ctx, '%s:index' % key, '%s: the index changes although writing failed' % what, where, after)
        return None
    if ok:
        ctx.fail('%s:lost' % key, '%s: success is reported although the segment %s' % (what, 'was not added to the index' if wok else 'may not have been written'), where)
        return None
    if wok is not False:
        ctx.fail('%s:dropped' % key, '%s: an error is reported after a successful write, which the index does not get' % what, where)
        return None
    e = st.simp(M.project(v, ('v', 1, 0)))
    if e is not st.simp(M.project(wr[0].a[4], ('v', 1, 0))):
        bad(ctx, '%s:error' % key, '%s: the error of the writer is reported as %s' % (what, show(e)[:120]), where, e)
        return None
    return 'failed'


@rule('C26')
def c26(ctx):
    """Effect-order analysis of the write functions: in every path at most one segment write, then at most one index update with
    exactly the written segment, the result tied to both; validity of the request decided before the first effect."""
    base = Writes(ctx)
    if base.value is None:
        return
    D = ctx.variants('DataType')
    layout = ctx.variants('DataLayout')

    def channels(k):
        return cell(M.seq(*[sym('ch%d' % i) for i in range(k)]))
    # (title, type, number of channels, number of values, valid)
    q = sym('q', 'usize')
    cases = [('any request', None, None, None, None)]
    types = [v['name'] for v in D[1]]
    pick = types if ctx.tier == 'thorough' else [t for t in types if t in ('I8', 'DoubleFloat', 'TimeStamp', 'TdmsString', 'Boolean')]
    for t in pick:
        for k in range(0, 5):
            for r in range(k) if k else (0,):
                n = add(mul(q, num(max(k, 1))), num(r)) if k else q
                cases.append(('%s, %d channels, %s values' % (t, k, show(n)), t, k, n, k > 0 and r == 0 and t != 'TdmsString'))
            if k:
                cases.append(('%s, %d channels, no values' % (t, k), t, k, num(0), False))
    seen = {}
    where = ctx.where(base.wf)
    for title, t, k, n, valid in cases:
        w = Writes(ctx)
        if t is not None:
            i = types.index(t)
            nat = M.adt(D[0], i, ())
            w.s.ip.consts[('NATURAL_TYPE', None)] = nat
        args = [None, None, None]
        if k is not None:
            args[0] = channels(k)
        try:
            if n is not None:
                args[1] = cell(M.slice_(sym('values'), num(0), n))
                if not T.is_int(n):
                    w.s.st.assume(T.eq(q, num(0)), False)
                    w.s.st.assume(le(n, num((1 << 63) - 1)), True)
            ex = w.call(w.wf, *args)
        except GaveUp as e:
            ctx.unsure('%s: %s' % (title, e))
            continue
        for st, v, before in ex:
            o = outcome(ctx, title, 'channels', where, w, st, v, before)
            if o is None:
                continue
            if o == 'skipped':
                if feasible(st):
                    bad(ctx, 'channels:skipped', '%s: success is reported although nothing is written' % title, where, *[c for c in st.facts][:3])
                continue
            seen[o] = seen.get(o, 0) + 1
            ctx.count('outcomes')
            if valid is True and o == 'refused' and feasible(st):
                bad(ctx, 'channels:valid', '%s: refused with %s although the request is valid' % (title, show(v)[:120]), where, *[c for c in st.facts if c.op not in ('eq0', 'le0')][:3])
            if valid is False and o != 'refused' and feasible(st):
                bad(ctx, 'channels:invalid', '%s: written although the request is not valid' % title, where, *[c for c in st.facts if c.op not in ('eq0', 'le0', 'isv')][:3])
    w = Writes(ctx)
    where = ctx.where(w.pf)
    try:
        for st, v, before in w.call(w.pf, None, None):
            o = outcome(ctx, 'properties', 'properties', where, w, st, v, before)
            if o in ('refused', 'skipped') and feasible(st):
                bad(ctx, 'properties:refused', 'properties are not written: %s' % show(v)[:120], where, *[c for c in st.facts if c.op not in ('eq0', 'le0')][:3])
            elif o:
                ctx.count('outcomes')
                seen[o + ' properties'] = 1
    except GaveUp as e:
        ctx.unsure('properties: %s' % e)
    for o in ('refused', 'failed', 'written', 'failed properties', 'written properties'):
        if not seen.get(o) and not ctx.undec:
            ctx.fail('missing:%s' % o, 'no path of a write is %s' % o, where)
    ctx.floor('outcomes', 100)


# ------------------------------------------------------------------ C24
READ, WRITE, CREATE, NEW, TRUNC, APPEND = 'read', 'write', 'create', 'create_new', 'truncate', 'append'
SETTERS = (READ, WRITE, CREATE, NEW, TRUNC, APPEND)
DIRECT = {'open': {READ: True}, 'create': {WRITE: True, CREATE: True, TRUNC: True}, 'create_new': {READ: True, WRITE: True, NEW: True}}
CHANGING = ('remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'hard_link', 'set_len', 'set_permissions', 'create', 'create_new',
            'create_dir', 'create_dir_all', 'truncate', 'append', 'set_modified', 'set_times')


def opening_mode(ctx, what, st):
    """the options a path opens the file with -> (options, the opening event) or None"""
    opts, opened = {}, None
    for e in st.trace:
        if e.op != 'E':
            ctx.unsure('%s: events in a loop' % what)
            return None
        d, n = e.a[0], ev_name(e)
        if not d.startswith('std::fs::'):
            continue
        if 'OpenOptions' in d and n in SETTERS:
            v = st.simp(e.a[3][1])
            if v.op != 'bool':
                ctx.unsure('%s: the option %s is %s' % (what, n, show(v)[:80]))
                return None
            opts[n] = v.a[0]
        elif n == 'open' and 'OpenOptions' in d or 'File::' in d and n in DIRECT:
            if opened is not None:
                ctx.unsure('%s: the file is opened more than once' % what)
                return None
            opened = e
            if 'OpenOptions' not in d:
                opts = dict(DIRECT[n])
        elif n in CHANGING or n == 'write':
            ctx.fail('%s:%s' % (what, n), '%s calls %s' % (what, d), '')
        elif n not in ('options', 'new'):
            ctx.unsure('%s calls %s' % (what, d))
            return None
    return opts, opened


@rule('C24')
def c24(ctx):
    """Typestate and effect analysis: the open options in force when a file is opened, no changing call reachable from the reading
    functions (call graph), the absolute position set before a writer exists, equal to what the index returned for the last segment."""
    from ..graph import Graph
    need = {'load': ({READ: True, WRITE: True}, (CREATE, NEW, TRUNC, APPEND)),
            'create': ({READ: True, WRITE: True, CREATE: True, TRUNC: True}, (NEW, APPEND))}
    for name, (yes, no) in need.items():
        fn = ctx.inherent('TdmsFile', name)
        where = ctx.where(fn)
        r = ctx.run(fn, opaque=lambda c: c.name == 'new' and 'TdmsFile' in c.df or c.name == 'build_index', ok=False)
        if r is None:
            continue
        opened = 0
        for st, v in r.exits:
            m = opening_mode(ctx, name, st)
            if m is None:
                continue
            opts, e = m
            if e is None:
                if feasible(st):
                    bad(ctx, '%s:open' % name, '%s returns without opening the file' % name, where, v)
                continue
            wrong = [o for o in yes if not opts.get(o)] + [o for o in no if opts.get(o)]
            if wrong:
                ctx.fail('%s:options' % name, '%s opens the file with %s; wrong: %s' % (name, ', '.join(o for o in opts if opts[o]), ', '.join(wrong)), where)
                continue
            okc = st.decide(T.isvar(e.a[4], 0))
            path = e.a[3][-1]
            if not T.contains(st.simp(path), lambda x: x in (r.args[0], r.deref(0))) and modelled(path):
                ctx.fail('%s:path' % name, '%s opens %s' % (name, show(path)[:80]), where)
            res = st.decide(T.isvar(v, 0))
            if okc is False and res is not False:
                ctx.fail('%s:error' % name, '%s does not report that the file could not be opened' % name, where)
            elif okc is True and res is False and feasible(st) and modelled(v):
                inner = st.simp(M.project(v, ('v', 1, 0)))
                if not T.contains(inner, lambda x: x.op in ('call', 'ev', 'app')):
                    bad(ctx, '%s:refused' % name, '%s refuses an opened file with %s' % (name, show(inner)[:80]), where, inner)
            elif okc:
                opened += 1
                f = st.simp(M.project(e.a[4], ('v', 0, 0)))
                if not T.contains(v, lambda x: x is f) and not any(T.contains(x, lambda y: y is f) for x in st.trace if x is not e):
                    bad(ctx, '%s:file' % name, '%s does not use the file it opened: %s' % (name, show(v)[:120]), where, v)
                else:
                    ctx.count('open modes')
        if not opened and not ctx.undec:
            ctx.fail('%s:never' % name, '%s never opens the file' % name, where)
    # reading changes nothing
    g = Graph(ctx.F)
    roots = []
    for f in ctx.F.fns:
        o = f.get('owner') or {}
        if o.get('kind') == 'impl' and ctx.tyn(o['self']) == 'TdmsFile' and f.get('vis', '') and f.get('inst') is not None and f['name'] not in ('writer', 'create', 'load'):
            if any(x in ctx.F.tys(o['self']) for x in ('TdmsFile<F>', 'TdmsFile<')) and f['exported']:
                roots.append(f)
    for f in roots:
        rc = g.reach([f['inst']])
        hit = set()
        for i, c, span in g.calls([f['inst']]):
            d = c['def']
            lastn = c['name']
            args = [ctx.F.types[a] for a in c.get('args', ()) if isinstance(a, int)]
            if d.startswith('std::fs::') and lastn in CHANGING + ('write',) or \
               (c.get('trait') or '').endswith('::Write') and args and (args[0]['k'] == 'param' or 'File' in args[0]['s']) and 'TdmsStorageType' not in d:
                hit.add((d, span, ' -> '.join(g.path(rc, i))))
        if hit:
            d, span, p = sorted(hit)[0]
            ctx.fail('reading:%s:%s' % (f['name'], d), '%s can call %s (%s) through %s' % (f['name'], d, span, p), ctx.where(f))
        else:
            ctx.count('reading functions without changing calls')
    positions(ctx)
    res = witnesses(ctx)
    if res is not None:
        refuted(ctx, res, 'no_writer_read_only', 'writes to a stream that can only be read')
        want, got = res.get('ok_read_only_stream', ('', None))
        if got is None:
            ctx.unsure('witness ok_read_only_stream: no answer')
        elif not got:
            ctx.good('programs accepted', 'ok_read_only_stream')
        elif 'E0277' in got and 'ok_use_after_writer' in res and not res['ok_use_after_writer'][1]:
            ctx.fail('witness:ok_read_only_stream', 'reading needs more than a readable and seekable stream', 'witness/ok_read_only_stream.rs')
        else:
            ctx.unsure('witness ok_read_only_stream: %s' % ', '.join(sorted(got)))
    ctx.floor('open modes', 2)
    ctx.floor('reading functions without changing calls', 8)
    ctx.floor('writer positions', 6)


def positions(ctx):
    """the position of the stream when a writer is handed out"""
    fn = ctx.inherent('TdmsFile', 'writer')
    where = ctx.where(fn)
    hists = [[], [(True, True, [('p', 'A', ())])], [(True, True, [('p', 'A', ())]), (False, True, None)],
             [(True, True, [('p', 'A', ())]), (True, False, [('q', None, ())])],
             [(True, False, [('p', None, ())])]]
    for hist in hists:
        what = 'writer after %d segments' % len(hist)
        try:
            h = Hist(ctx, 'pq')
            states = [(h.start(()), None)]
            if not hist:
                states = []
                for st, x in h.s.call(ctx.inherent('Index', 'new'), [], h.start(())):
                    st.write(M.place_of(h.self), x)
                    states.append((st, num(0)))
            for sg in hist:
                seg = h.segment(*sg)
                states = [(st2, nxt) for st, _ in states for st2, nxt in h.feed([st], seg)[0]]
            pf = (('O', sym('tdmsfile')), ())
            for st, nxt in states:
                st = st.copy()
                st.write(pf, struct(ctx, 'TdmsFile', index=st.read(M.place_of(h.self)), file=sym('stream')))
                h.s.ip.assume_ok = False
                before = len(st.trace)
                for s2, v in h.s.call(fn, [M.mk_ref(pf)], st):
                    v = s2.simp(v)
                    ev = [e for e in s2.trace[before:]]
                    if any(e.op != 'E' for e in ev):
                        ctx.unsure('%s: events in a loop' % what)
                        continue
                    ok = s2.decide(T.isvar(v, 0))
                    last = None
                    for e in ev:
                        if ev_name(e) in ('seek', 'rewind', 'seek_relative', 'stream_position', 'stream_len'):
                            last = e
                        else:
                            ctx.unsure('%s: unexpected event %s' % (what, show(e)[:100]))
                            break
                    else:
                        if ok is None:
                            ctx.unsure('%s: result %s' % (what, show(v)[:100]))
                        elif ok:
                            position(ctx, what, where, s2, v, ev, last, nxt, pf)
                        elif not any(s2.decide(T.isvar(e.a[4], 0)) is False for e in ev) and feasible(s2):
                            bad(ctx, 'writer:refused', '%s: no writer although the stream works: %s' % (what, show(v)[:100]), where, v)
                        else:
                            ctx.count('writer positions')
        except GaveUp as e:
            ctx.unsure('%s: %s' % (what, e))


def position(ctx, what, where, st, v, ev, last, nxt, pf):
    if last is None:
        ctx.fail('writer:position', '%s: the stream is not positioned' % what, where)
        return
    if any(st.decide(T.isvar(e.a[4], 0)) is not True for e in ev):
        ctx.fail('writer:error', '%s: a writer is handed out although positioning may have failed' % what, where)
        return
    if ev_name(last) == 'seek':
        x = st.simp(last.a[3][1])
        if x.op != 'adt':
            bad(ctx, 'writer:position', '%s: the stream is positioned by %s' % (what, show(x)[:100]), where, x)
            return
        pos = st.simp(M.project(x, ('v', 0, 0)))
        if x.a[1] != 0:
            ctx.fail('writer:relative', '%s: the stream is positioned by %s, not where the index places the next segment' % (what, show(x)[:80]), where)
            return
    elif ev_name(last) == 'rewind':
        pos = num(0)
    else:
        ctx.unsure('%s: positioned by %s' % (what, show(last)[:100]))
        return
    if pos is not st.simp(nxt):
        bad(ctx, 'writer:position', '%s: the stream is positioned at %s, the next segment belongs at %s' % (what, show(pos)[:100], show(st.simp(nxt))[:100]), where, pos)
        return
    tgt = last.a[3][0]
    if T.contains(v, lambda x: x.op == 'ref') and not T.contains(v, lambda x: x is tgt or x.op == 'ref' and M.place_of(x)[0] == pf[0]):
        bad(ctx, 'writer:stream', '%s: the writer is not given the positioned stream and its index: %s' % (what, show(v)[:120]), where, v)
        return
    ctx.count('writer positions')


# ------------------------------------------------------------------ compile witnesses
def witnesses(ctx):
    """type-check the witness programs -> {name: (expected codes, error codes)} or None"""
    if hasattr(ctx, '_wit'):
        return ctx._wit
    import json
    import os
    import re
    import subprocess
    import tempfile
    from ..facts import HERE
    ctx._wit = None
    fd, out = tempfile.mkstemp(suffix='.json', prefix='tsa-wit-')
    os.close(fd)
    try:
        r = subprocess.run([os.path.join(HERE, 'witness.sh'), out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        got, built = {}, set()
        for l in open(out):
            if not l.startswith('{'):
                continue
            d = json.loads(l)
            if d.get('reason') == 'compiler-message' and d['message']['level'] == 'error' and d['target']['kind'] == ['example']:
                got.setdefault(d['target']['name'], set()).add((d['message'].get('code') or {}).get('code') or d['message']['message'][:80])
            if d.get('reason') == 'compiler-artifact' and d['target']['kind'] == ['example']:
                built.add(d['target']['name'])
    finally:
        os.unlink(out)
    res = {}
    w = os.path.join(HERE, 'witness')
    for f in sorted(os.listdir(w)):
        n = f[:-3]
        want = re.match(r'// expect: (\S+)', open(os.path.join(w, f)).read()).group(1)
        if n in built:
            res[n] = (want, set())
        elif n in got:
            res[n] = (want, got[n])
    if not res:
        ctx.unsure('the witness programs could not be type-checked')
        return None
    ctx._wit = res
    return res


def refuted(ctx, res, name, what):
    """a program that must not compile"""
    if name not in res:
        ctx.unsure('witness %s: no answer' % name)
        return
    want, got = res[name]
    if not got:
        ctx.fail('witness:%s' % name, 'a program that %s compiles' % what, 'witness/%s.rs' % name)
    elif want in got:
        ctx.good('programs refused', '%s (%s)' % (name, want))
    else:
        ctx.unsure('witness %s: refused for another reason: %s' % (name, ', '.join(sorted(got))))


@rule('C25')
def c25(ctx):
    """Typestate by ownership: flush events on exactly the buffer values are written to, results propagated; no construct that could
    drop the buffer unflushed; compile-fail witnesses that reading, listing and a second writer need the writer to be gone."""
    n = 0
    for fn in ctx.methods('TdmsWriter', 'sync'):
        ty = ctx.tyn(fn['owner']['self'])
        where = ctx.where(fn)
        r = ctx.run(fn, ok=False)
        w = ctx.run(ctx.method('TdmsWriter', ty, 'write_value'), ok=False)
        if r is None or w is None:
            continue
        sinks = set()
        for st, v in w.exits:
            for e in st.trace:
                for a in e.a[3] if e.op == 'E' else ():
                    a = st.simp(a)
                    if a.op == 'ref' and M.place_of(a)[0] == M.place_of(w.args[0])[0]:
                        sinks.add(M.place_of(a)[1])
        if not sinks:
            ctx.unsure('%s: where values go is not known' % ty)
            continue
        for st, v in r.exits:
            fl = [e for e in st.trace if e.op == 'E' and ev_name(e) in ('flush', 'sync_all', 'sync_data')]
            rest = [e for e in st.trace if e not in fl and not (e.op == 'E' and ev_name(e) in ('get_mut', 'get_ref', 'by_ref', 'buffer', 'capacity'))]
            if rest:
                ctx.unsure('%s::sync: unexpected event %s' % (ty, show(rest[0])[:100]))
                continue
            ok = st.decide(T.isvar(v, 0))
            done = {M.place_of(st.simp(e.a[3][0]))[1] for e in fl if e.a[3] and st.simp(e.a[3][0]).op == 'ref' and st.decide(T.isvar(e.a[4], 0)) is True}
            if ok is None:
                ctx.unsure('%s::sync: result %s' % (ty, show(v)[:100]))
            elif ok and not sinks <= done:
                ctx.fail('sync:%s' % ty, '%s::sync reports success although the buffered values were not flushed%s' % (ty, ' or flushing failed' if fl else ''), where)
            elif not ok and all(st.decide(T.isvar(e.a[4], 0)) is True for e in fl):
                bad(ctx, 'sync:refused:%s' % ty, '%s::sync fails with %s although flushing works' % (ty, show(v)[:100]), where, v)
            else:
                n += 1
                ctx.count('flush paths')
    # the public entry
    fn = ctx.inherent('TdmsFileWriter', 'sync')
    where = ctx.where(fn)
    r = ctx.run(fn, ok=False)
    for st, v in r.exits if r else ():
        ev = [e for e in st.trace if e.op == 'E']
        sy = [e for e in ev if ev_name(e) == 'sync']
        if len(ev) != len(st.trace) or len(sy) != len(ev):
            ctx.unsure('TdmsFileWriter::sync: unexpected events')
            continue
        ok = st.decide(T.isvar(v, 0))
        if not sy:
            ctx.fail('sync:nothing', 'a sync that ends with %s never reaches the writer' % show(v)[:60], where)
        elif st.simp(v) is st.simp(sy[-1].a[4]) or ok is not None and ok is st.decide(T.isvar(sy[-1].a[4], 0)) and len(sy) == 1:
            ctx.count('flush paths')
        elif ok is not None or modelled(v):
            ctx.fail('sync:result', 'sync returns %s, which is not the result of the writer' % show(v)[:100], where)
        else:
            ctx.unsure('TdmsFileWriter::sync returns %s' % show(v)[:100])
    # nothing keeps a buffer from being flushed when it is dropped
    from ..graph import Graph
    from ..check import last
    g = Graph(ctx.F)
    for i, inst in enumerate(ctx.F.insts):
        if not inst.get('local') or not inst.get('body'):
            continue
        ctx.count('functions scanned')
        for j, c, span in g.edges(i):
            if c is None:
                continue
            d = c['def']
            if d in ('core::mem::forget', 'std::mem::forget') or 'ManuallyDrop' in d and c['name'] == 'new' or c['name'] in ('leak', 'into_raw', 'into_parts') and ('Box' in d or 'BufWriter' in d):
                tys = ' '.join(ctx.F.tys(a) for a in c.get('args', ()) if isinstance(a, int))
                if any(x in tys for x in ('Writer', 'Write')) or 'BufWriter' in d or tys in ('Self', 'W'):
                    ctx.fail('forget:%s' % inst['path'], '%s keeps a writer from flushing: %s' % (inst['path'], d), span)
    p, vs = ctx.variants('TdmsFileWriter')
    kinds = [p] + [q for q in ctx.F.adts if last(q) in {ctx.tyn(f['owner']['self']) for f in ctx.methods('TdmsWriter', 'sync')}]
    for q in kinds:
        for t in ctx.F.types:
            if t['k'] != 'adt' or t.get('path') != q:
                continue
            for ft in (t.get('vf') or [[]])[0]:
                s = ctx.F.tys(ft)
                if 'ManuallyDrop' in s or 'MaybeUninit' in s or s.startswith('*'):
                    ctx.fail('holds:%s' % q, '%s holds its values in %s, which does not flush them when it is dropped' % (last(q), s), q)
        ctx.count('writer types')
    res = witnesses(ctx)
    if res is not None:
        if 'ok_use_after_writer' not in res or res['ok_use_after_writer'][1]:
            ctx.unsure('the control program does not compile')
        else:
            ctx.good('programs accepted', 'ok_use_after_writer')
            refuted(ctx, res, 'no_read_while_writing', 'reads a channel while a writer still holds unwritten values')
            refuted(ctx, res, 'no_list_while_writing', 'lists groups while a writer is in use')
            refuted(ctx, res, 'no_length_while_writing', 'asks for a length while a writer is in use')
            refuted(ctx, res, 'no_second_writer', 'has two writers on one file')
            refuted(ctx, res, 'no_writer_outlives_file', 'keeps a writer after its file is gone')
            refuted(ctx, res, 'no_property_across_writer', 'keeps a property across changes of the file')
    ctx.floor('flush paths', 5)
    ctx.floor('functions scanned', 100)
    ctx.floor('programs refused', 6)
