"""Termination: bounded loops, loops that cannot get stuck, progress from segment to segment, no recursion."""
import itertools
from .. import interp as I
from .. import mem as M
from .. import refute
from .. import terms as T
from ..check import ev_name, last, modelled, show, strip_generics
from ..graph import Graph
from ..terms import num, add
from . import index, panics, paths, reading, requests
from .index import GaveUp, Hist, bad
from .reading import feasible

RULES = {}
LEAD_IN = 28
SOME = 1 << 20       # quantities of ordinary size


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def stuck(o):
    return o.kind == 'stuck'


def by_itself(ctx):
    """every function of the crate with what it calls of the crate as steps: the number of rounds of each loop in closed form"""
    F, open_ = ctx.F, {}
    for f in F.fns:
        if f.get('inst') is None or not F.insts[f['inst']].get('body'):
            continue
        me = f['inst']
        I.Interp.unknown.clear()      # an unmodelled call matters to the function it is in
        r = ctx.run(f, opaque=lambda c: bool(c.callee.get('local')) and c.callee.get('inst') != me, ok=False, budget=100000)
        if r is None:
            continue
        ctx.count('functions')
        for l in r.ip.loops.values():
            ctx.count('loops')
            if l['T'] is not None:
                ctx.good('bounded loops', '%s %s' % (l['fn'], l['span']))
            else:
                ctx.count('loops without a bound of their own')
                open_['%s %s' % (l['fn'], l['span'])] = f
        for o in r.ip.obls + dry(ctx, f, me):
            if o.kind == 'stuck' and not r.ip.unk:
                if refute.reachable(o.st, o.cond, SOME):
                    ctx.fail('stuck:%s' % o.fn, '%s: %s' % (o.fn, o.desc), '%s at %s' % (o.fn, o.span))
    return open_


def dry(ctx, f, me):
    """the obligations of the same function where the stream has come to its end: every read and write moves nothing"""
    def none(ip, st, call):
        return [(st, M.ok(num(0)))] if last(strip_generics(call.callee.get('trait') or '')) in ('Read', 'Write') and not call.callee.get('local') else None
    r = ctx.run(f, opaque=lambda c: bool(c.callee.get('local')) and c.callee.get('inst') != me, ok=False, budget=100000, hooks={'read': none, 'write': none}, tag='dry')
    return r.ip.obls if r is not None and not r.ip.unk else []


def advances(ctx):
    """whatever the segments say, the second of two segments starts after the first"""
    cases = itertools.product((False, True), (False, True), (None, [('p', 'A', ())], [('p', None, ())]), ((), ('p',)))
    for raw_data, new, objs, exists in cases:
        h = Hist(ctx, 'p')
        where = ctx.where(h.add)
        try:
            sts = [h.start(exists)]
            sts = h.feed(sts, h.segment(True, True, [('p', 'A', ())]) if raw_data else h.segment(new or objs is not None, False, None))[0]
            for st, first in sts:
                ok, err = h.feed([st], h.segment(new, raw_data, objs))
                for s, second in ok:
                    compare(ctx, where, s, first, second)
        except GaveUp as e:
            ctx.unsure('two segments: %s' % e)


def compare(ctx, where, s, first, second):
    if s.decide(T.le(add(first, num(LEAD_IN)), second)) is True:
        ctx.good('segments that start after the one before')
        return
    s2 = s.copy()
    if s2.assume(T.le(second, first), True) and modelled(first) and modelled(second) and feasible(s2):
        bad(ctx, 'progress', 'a segment does not move the start of the next one on: after %s comes %s' % (show(first)[:80], show(second)[:80]), where, first, second)
    else:
        ctx.unsure('the start of the segment after %s is %s' % (show(first)[:80], show(second)[:80]))


def rounds(ctx):
    """between two reads of a segment the stream is moved to where the index says the next one starts"""
    read, addseg = ctx.inherent('Segment', 'read')['path'], ctx.inherent('Index', 'add_segment')['path']
    for f in ctx.F.fns:
        o = f.get('owner') or {}
        if f['name'] != 'new' or o.get('kind') != 'impl' or f.get('inst') is None or ctx.tyn(o['self']) != 'TdmsFile':
            continue
        r = ctx.run(f, opaque=lambda c: c.df in (read, addseg), ok=False, unroll=3, partial=True, tag='rounds')
        if r is None:
            continue
        for st, v in r.exits:
            start, moved, reads = None, None, 0
            for e in st.trace:
                if e.op != 'E':
                    ctx.unsure('a loop of opening that is not laid out')
                    continue
                n = ev_name(e)
                if n == 'read' and T.adt_of(e.a[4]) == 'core::result::Result':
                    if reads:
                        if moved is None and any(T.contains(c, lambda x: x is start) or T.contains(c, lambda x: x.op == 'ev' and 'osition' in x.a[0]) for c in st.facts):
                            ctx.unsure('the next segment is read without a move under a condition on where it starts')
                        elif moved is None:
                            ctx.fail('rounds:%s' % f['path'], 'the next segment is read without moving to where it starts', ctx.where(f))
                        elif start is not None and moved is not start:
                            if T.is_int(moved):
                                ctx.fail('rounds:%s' % f['path'], 'the next segment is always read from %s' % show(moved), ctx.where(f))
                            else:
                                ctx.unsure('the next segment is read from %s' % show(moved)[:120])
                        else:
                            ctx.good('rounds of opening')
                    reads, moved, start = reads + 1, None, None
                elif n == 'add_segment':
                    start = st.simp(M.project(e.a[4], ('v', 0, 0)))
                elif n == 'seek':
                    a = st.simp(e.a[3][1])
                    moved = a.a[2][0] if a.op == 'adt' and a.a[1] == 0 else a


def recursion(ctx):
    """cycles of calls that name the function they call (calls through traits are followed by the scenarios)"""
    g, F = Graph(ctx.F), ctx.F
    local = [i for i, x in enumerate(F.insts) if x.get('body') and x['local']]
    reach = {i: {j for j, c, s in g.edges(i) if j is not None and c is not None and j == c.get('inst') and not c.get('trait') and F.insts[j]['local']} for i in local}
    for i in local:
        seen, todo = set(), list(reach[i])
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            todo += reach.get(j, ())
        if i in seen:
            ctx.unsure('%s calls itself' % F.insts[i]['path'])
        else:
            ctx.good('functions that do not call themselves')


def scenarios():
    R = {}
    for m in (index, reading, paths, requests):
        R.update(m.RULES)
    R.update({k: v for m in (panics.files, panics.wire, panics.counts) for k, v in m.RULES.items()})
    return [(p, R[p]) for p in ('C20', 'C22', 'C21', 'C18', 'C14', 'C16', 'C17', 'C25', 'C26', 'C27', 'C28', 'C29', 'C36', 'C08')]


@rule('C04')
def c04(ctx):
    """Loop analysis: number of rounds of every loop in closed form from what it changes; a round after which everything the loop
    decides by is as before (in every function by itself and in all scenarios of the other rules) is a violation; start of the
    next segment against the one before, moves of the stream between segments, cycles of the call graph."""
    open_ = by_itself(ctx)
    I.Interp.unknown.clear()
    for k in sorted(open_):
        ctx.row('no bound of its own, covered by the scenarios: %s' % k)
    advances(ctx)
    rounds(ctx)
    recursion(ctx)
    if ctx.viol:
        return
    jobs = scenarios() + [('reading a segment', panics.read_segment)]
    res = panics.parallel(ctx, [(n, (lambda g=g: panics.gather(ctx, g, stuck, SOME))) for n, g in jobs])
    for name, r in res.items():
        for k, (d, w) in r['bad'].items():
            ctx.fail(k, '%s (%s)' % (d, name), w)
        ctx.count('functions in scenarios', len(r['fns']))
        for k, n in r['open'].items():
            ctx.unsure('%s in %s may get stuck' % (k, name))
        ctx.row('%s: %d functions' % (name, len(r['fns'])))
    ctx.floor('bounded loops', 40)
    ctx.floor('segments that start after the one before', 24)
    ctx.floor('rounds of opening', 4)
