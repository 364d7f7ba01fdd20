"""Rules over the panic and allocation obligations of the analyses of whole operations."""
import os
import pickle
import resource
import signal
import sys
import traceback
from .. import interp as I
from .. import refute
from .. import terms as T
from ..check import Ctx, ev_name, show, Stop
from ..terms import num
from . import codecs, counts, files, index, reading, wire

RULES = {}
EACH = 420           # seconds for one of the analyses that run side by side
MEMORY = 4 << 30     # bytes of address space for each of them
LARGE = 1 << 24      # elements; what nobody has to be able to allocate for a count found in a file
SKIP = ('cast', 'narrow', 'alloc', 'set_len', 'stuck')


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


def late(*a):
    raise TimeoutError('takes longer than %d s' % EACH)


def parallel(ctx, jobs):
    """run the jobs [(name, fn() -> picklable)] in child processes -> {name: result}"""
    res, live = {}, {}
    jobs = list(jobs)[::-1]
    while jobs or live:
        while jobs and len(live) < (os.cpu_count() or 2):
            name, fn = jobs.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = None
                try:
                    os.close(r)
                    # one analysis that gets out of hand must not take the others along
                    signal.signal(signal.SIGALRM, late)
                    signal.alarm(EACH)
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    out = ('ok', fn())
                except BaseException as e:
                    if os.environ.get('TSA_DEBUG'):
                        traceback.print_exc()
                    out = ('err', '%s: %s' % (type(e).__name__, str(e)[:200]))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            live[pid] = (name, r)
        # results are small; read the oldest to the end
        pid = next(iter(live))
        name, r = live.pop(pid)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            ctx.unsure('the analysis %s ended early' % name)
            continue
        k, v = pickle.loads(data)
        if k == 'err':
            ctx.unsure('the analysis %s: %s' % (name, v))
        else:
            res[name] = v
    return res


def gather(ctx, fn, want, cap=None):
    """run fn(sub context) and judge the obligations of kinds wanted of every interpreter it made
    -> {'counts':…, 'bad': [(key, msg, where)], 'open': …}"""
    sub = Ctx(ctx.F, ctx.prop, ctx.tier, ctx.seed)
    I.Interp.made = made = []
    try:
        fn(sub)
    except Stop:
        pass
    finally:
        I.Interp.made = None
    n, bad, op = {}, {}, {}
    sites = set()
    for ip in made:
        for o in ip.obls:
            if not want(o):
                continue
            n[o.kind] = n.get(o.kind, 0) + 1
            sites.add((o.fn, str(o.span)))
            if o.ok is True:
                continue
            key = '%s:%s' % (o.kind, o.fn)
            if key in bad:
                continue
            try:
                r = judge(o, cap)
            except Exception:
                if os.environ.get('TSA_DEBUG'):
                    traceback.print_exc()
                r = None
            if r is True and not ip.unk:
                bad[key] = (o.desc[:300], '%s at %s, called through %s' % (o.fn, o.span, ' <- '.join(o.chain[::-1][:6])))
            elif r is not False:
                op[key] = op.get(key, 0) + 1
    return {'n': n, 'bad': bad, 'open': op, 'sites': sorted(sites), 'fns': sorted({p for ip in made for p in ip.inlined}), 'sub': (sub.n, len(sub.undec))}


def judge(o, cap):
    if o.kind == 'alloc':
        if not T.contains(o.cond, lambda x: x.op in ('rdbytes', 'unbytes') or x.op == 'ev' and ev_name(x) in refute.READS):
            return False     # as large as something that is there already
        return refute.reachable(o.st, T.le(o.cond, num(LARGE)))
    return refute.reachable(o.st, o.cond, cap)


def report(ctx, res, what):
    sites, fns = set(), set()
    for name, r in res.items():
        for k, v in r['n'].items():
            ctx.count('%s obligations' % k, v)
            ctx.count('obligations', v)
        for k, (d, w) in r['bad'].items():
            ctx.fail(k, '%s: %s' % (what.get(k.split(':')[0], 'can fail'), d), w)
        for k, v in r['open'].items():
            ctx.count('not decided', v)
            ctx.row('not decided (%s): %s, %d times' % (name, k, v))
        sites.update(r['sites'])
        fns.update(r['fns'])
        ctx.row('%s: %s' % (name, ', '.join('%s %d' % kv for kv in sorted(r['n'].items()))))
    ctx.count('sites', len(sites))
    ctx.count('functions', len(fns))


WHAT = {'overflow': 'arithmetic overflow', 'bounds': 'index out of bounds', 'index': 'index out of bounds', 'slice': 'slice out of bounds',
        'panic': 'panic reached', 'divzero': 'division by zero', 'div': 'division by zero', 'alloc': 'allocation of a size taken from the file'}


def panics(o):
    return o.kind not in SKIP


def read_segment(sub):
    f = sub.inherent('Segment', 'read')
    sub.run(f, ok=False, budget=2000000)


def readers(sub):
    """every decoder by itself, down to the values of the stream"""
    for f in sub.methods('TdmsMetaData', 'read') + sub.methods('TdmsStorageType', 'read_le') + sub.methods('TdmsStorageType', 'read_be'):
        sub.run(f, ok=False, budget=200000)


def opening(sub):
    """opening with reading a segment and adding it to the index as steps"""
    def step(c):
        return bool(c.callee.get('local')) and c.name in ('read', 'add_segment') and 'Result' in str(sub.F.tys(c.destty))
    for f in sub.F.fns:
        o = f.get('owner') or {}
        if o.get('kind') == 'impl' and f['name'] in ('new', 'load', 'create') and 'TdmsFile' in sub.F.tys(o['self']) and f.get('inst') is not None:
            sub.run(f, opaque=step, ok=False, budget=200000)


def loading(ctx):
    return [('reading a segment', read_segment), ('decoders', readers), ('opening', opening), ('index C16', index.RULES['C16']), ('index C13', index.RULES['C13']),
            ('index C15', index.RULES['C15']), ('index C17', index.RULES['C17']), ('counts', counts.RULES['C29'])]


@rule('C01')
def c01(ctx):
    """Every panic condition (arithmetic overflow, index and slice bounds, division by zero, unwrapped absence, explicit panics) on the
    paths from opening a stream, reading a segment from arbitrary bytes and adding an arbitrary segment to the index is an
    obligation in the state the abstract interpretation reaches it with; none may be reachable."""
    res = parallel(ctx, [(n, (lambda g=g: gather(ctx, g, panics))) for n, g in loading(ctx)])
    report(ctx, res, WHAT)
    ctx.floor('obligations', 1000)


def conversions(sub):
    """values of properties to the types of the program, for every value"""
    for f in sub.F.fns:
        o = f.get('owner') or {}
        if o.get('kind') == 'traitimpl' and f['name'] in ('from', 'try_from', 'into', 'try_into') and f.get('inst') is not None:
            if any('PropertyValue' in sub.F.tys(t) for t in f['inputs']):
                if sub.run(f, ok=False, budget=200000) is not None:
                    sub.count('conversions')


@rule('C02')
def c02(ctx):
    """Every panic condition (arithmetic overflow, index and slice bounds, division by zero, unwrapped absence, explicit panics) met while
    the analyses of reading, writing, appending, listing, counting and converting walk the operations of an open file is an
    obligation in the state the abstract interpretation reaches it with (quantities of ordinary size); none may be reachable."""
    jobs = [(n, (lambda g=g: gather(ctx, g, panics, 1 << 20))) for n, g in operations(ctx)]
    jobs.append(('conversions', lambda: gather(ctx, conversions, panics)))
    res = parallel(ctx, jobs)
    report(ctx, res, WHAT)
    ctx.floor('obligations', 1000)


def operations(ctx):
    R = {}
    for m in (codecs, counts, files, index, reading, wire):
        R.update(m.RULES)
    return [(p, R[p]) for p in ('C20', 'C22', 'C14', 'C21', 'C18', 'C23', 'C24', 'C25', 'C26', 'C07', 'C08', 'C12', 'C29', 'C17', 'C10')]


def single_steps(sub):
    """every function that takes a reader, with the values and structures it reads as steps"""
    for f in sub.F.fns:
        if f.get('inst') is None or not sub.F.insts[f['inst']].get('body'):
            continue
        if any('Reader' in sub.F.tys(t) or 'Read' in sub.F.tys(t) for t in f['inputs']) or f['name'].startswith('read'):
            me = f['inst']
            sub.run(f, opaque=lambda c: bool(c.callee.get('local')) and c.callee.get('inst') != me and 'Result' in str(sub.F.tys(c.destty)), ok=False, budget=100000)


@rule('C03')
def c03(ctx):
    """Allocation audit of loading: every request for memory that aborts the program when it cannot be served (with_capacity, reserve,
    vec![x; n], resize, collect) on the paths of opening, reading a segment and adding it to the index is an obligation; its size
    must not be able to reach 2^24 elements by values the file contains. Whole operations, and every reading function by itself."""
    def alloc(o):
        return o.kind == 'alloc'
    res = parallel(ctx, [(n, (lambda g=g: gather(ctx, g, alloc))) for n, g in loading(ctx) + [('single steps', single_steps)]])
    report(ctx, res, WHAT)
    ctx.floor('functions', 80)
