"""Rules over the whole crate."""
import re
from .. import interp as I
from .. import mem as M
from .. import terms as T
from ..check import modelled, show, ev_name, last, strip_generics
from ..graph import Graph
from ..terms import num, raw

RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


@rule('C30')
def c30(ctx):
    """Effect scan of the type-checked source: every construct that switches the compiler's memory checks off (unsafe blocks, functions,
    trait implementations, mutable statics, unions, foreign functions) outside foreign macros."""
    seen = set()
    for u in ctx.F.d['unsafe_blocks']:
        k = (u['kind'], u['owner'], u['span'])
        if k not in seen:
            seen.add(k)
            ctx.fail('unsafe:%s:%s' % (u['kind'], u['owner']), 'unsafe %s in %s' % (u['kind'], u['owner']), u['span'])
    for f in ctx.F.fns:
        ctx.count('functions')
        if f.get('unsafe'):
            ctx.fail('unsafe:fn:%s' % f['path'], '%s is an unsafe function' % f['path'], f.get('span', ''))
    ctx.count('implementations', len(ctx.F.impls))
    ctx.floor('functions', 100)


# ------------------------------------------------------------------ C19
def is_result(F, t):
    return t is not None and F.adt_path(t) == 'core::result::Result'


def flat(trace, facts=()):
    """events of a trace with the conditions of the loop paths around them"""
    for e in trace:
        if e.op == 'LP':
            for p in e.a[3]:
                yield from flat(p.a[1], facts + tuple(p.a[0]))
        elif e.op == 'E':
            yield e, facts


def io_functions(ctx, g):
    """instances from which a stream operation can be reached"""
    rev, todo = {}, []
    for i, x in enumerate(ctx.F.insts):
        if not x.get('body'):
            continue
        for j, c, span in g.edges(i):
            if j is not None:
                rev.setdefault(j, set()).add(i)
            if c is not None and x['local'] and last(strip_generics(c.get('trait') or '')) in ('Read', 'Write', 'Seek'):
                todo.append(i)
    seen = set(todo)
    while todo:
        for i in rev.get(todo.pop(), ()):
            if i not in seen:
                seen.add(i)
                todo.append(i)
    return seen


@rule('C19')
def c19(ctx):
    """Modular error-flow analysis: every function of the crate with the fallible steps it performs (stream operations, calls of crate
    functions that return a result, in loops and closures too) as events with either outcome; a path that reports success must have
    every step's success among its conditions."""
    F = ctx.F
    g = Graph(F)
    io = io_functions(ctx, g)
    opened = {f['inst'] for f in F.fns if f['name'] in ('new', 'load', 'create') and (f.get('owner') or {}).get('kind') == 'impl' and ctx.tyn(f['owner']['self']) == 'TdmsFile'}
    others = [f['inst'] for f in F.fns if f['exported'] and f.get('inst') is not None and f['inst'] not in opened]
    only_open = {F.insts[i]['path'] for i in g.reach(opened)} - {F.insts[i]['path'] for i in g.reach(others)}
    pe, vs = ctx.variants('TdmsError')
    eof = next((i for i, v in enumerate(vs) if v['name'] == 'EndOfFile'), None)
    ends = {}
    for f in F.fns:
        if f.get('inst') is None or not F.insts[f['inst']].get('body'):
            continue

        def fallible(c, me=f['inst']):
            return is_result(F, c.destty) and bool(c.callee.get('local')) and c.callee.get('inst') != me

        # an unmodelled call can only invalidate this rule by carrying a failure along
        I.Interp.unknown.clear()
        r = ctx.run(f, opaque=fallible, ok=False, budget=100000)
        if r is None:
            continue
        I.Interp.unknown &= I.Interp.carriers
        where = ctx.where(f)
        rt = is_result(F, f['output'])
        used = False
        for st, v in r.exits:
            st = st.copy()
            sure = not rt or modelled(v)
            if rt:
                c = T.isvar(v, 0)
                sure = sure or st.decide(c) is True
                if st.decide(c) is False:
                    ctx.count('error paths')
                    continue
                if not st.assume(c, True):
                    continue
            for e, lf in flat(st.trace):
                x = e.a[4]
                if x.op != 'ev' or T.adt_of(x) != 'core::result::Result':
                    continue
                good = T.isvar(x, 0)
                d = st.decide(good)
                if d is None:
                    for a, b in lf:
                        if a is good:
                            d = bool(b.a[0])
                if d is True:
                    ctx.count('steps')
                    used = True
                    continue
                payload = M.project(x, ('v', 1, 0))
                facts = [(a, bool(b.a[0])) for a, b in lf] + list(st.facts.items())
                if d is False and eof is not None and ((T.isvar(payload, eof), True) in facts or st.decide(T.isvar(payload, eof)) is True):
                    ctx.good('end of file taken as the end', f['path'])
                    continue
                n = ev_name(e)
                if d is False and n == 'seek' and f['path'] in only_open:
                    if T.contains(st.simp(e.a[3][1]), lambda y: y.op == 'ev' and 'add_segment' in y.a[0]):
                        ctx.good('unreachable next segment taken as the end', f['path'])
                        ends.setdefault(f['path'], (f, fallible))
                    else:
                        ctx.unsure('%s: a failing seek while opening' % f['path'])
                    continue
                what = '%s %s although %s %s' % (f['path'], 'reports success' if rt else 'returns', n, 'failed' if d is False else 'may have failed')
                vis = [v] + [a for a, b in facts]
                if d is False and not rt and not f['exported']:
                    ctx.unsure(what)
                elif sure and (d is False or not any(T.contains(a, lambda y: y is x) for a in vis)):
                    span = r.ip.evinfo.get((e.a[0], e.a[1]), ('',))[0]
                    ctx.fail('swallowed:%s:%s' % (f['path'], n), what + (' (%s)' % span if isinstance(span, str) else ''), where)
                else:
                    ctx.unsure(what)
        if used:
            ctx.count('functions with fallible steps')
    for f, fallible in ends.values():
        # the unreachable segment has to be the last step: any path of up to two segments that does something after the failing seek
        r = ctx.run(f, opaque=fallible, ok=False, budget=100000, unroll=1, partial=True)
        if r is None:
            continue
        for st, v in r.exits:
            late = None
            for e in st.trace:
                x = e.a[4] if e.op == 'E' else None
                if x is None:
                    continue
                if late is not None:
                    ctx.fail('continued:%s' % f['path'], '%s goes on with %s after moving to the next segment failed' % (f['path'], ev_name(e)), ctx.where(f))
                    break
                if ev_name(e) == 'seek' and x.op == 'ev' and st.decide(T.isvar(x, 0)) is False:
                    late = e
            if late is not None:
                ctx.count('paths ended by an unreachable segment')
    I.Interp.unknown.clear()
    ctx.floor('steps', 100)
    ctx.floor('functions with fallible steps', 60)
