"""Decide one property on the current tree:  python3 -m tsa.run C05 [quick|thorough]"""
import gc
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.txt')
LIMIT = 820


class Timeout(BaseException):
    pass


def rules():
    out = {}
    d = os.path.join(HERE, 'tsa', 'rules')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            m = importlib.import_module('tsa.rules.' + f[:-3])
            out.update(getattr(m, 'RULES', {}))
    return out


def known(prop):
    res = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('finding: property=%s key=' % prop):
                k, _, what = ln.split(' key=', 1)[1].partition(' :: ')
                res[k.strip()] = what.strip()
    return res


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    gc.freeze()
    gc.disable()
    from . import facts, check
    rs = rules()
    fn = rs[prop]
    evdir = os.environ.get('TSA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ctx = None

    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(LIMIT)
    F = None
    try:
        pre = os.environ.get('TSA_FACTS')
        F = facts.Facts(json.load(open(pre))) if pre else facts.extract()
        ctx = check.Ctx(F, prop, tier, seed)
        try:
            fn(ctx)
        except check.Stop:
            pass
    except Timeout:
        ctx = ctx or check.Ctx(None, prop, tier, seed)
        ctx.unsure('time limit reached')
    except Exception as e:
        if ctx is None:
            ctx = check.Ctx(None, prop, tier, seed)
            ctx.fail('extract', 'the crate could not be analysed: %s' % str(e)[-1500:])
        else:
            ctx.unsure('internal: %s: %s' % (type(e).__name__, e))
            if os.environ.get('TSA_DEBUG'):
                traceback.print_exc()
    signal.alarm(0)
    kn = known(prop)
    new = [v for v in ctx.viol if v[0] not in kn]
    old = [v for v in ctx.viol if v[0] in kn]
    wall = time.time() - t0
    ran = ctx.n
    doc = (fn.__doc__ or '').strip()
    doc = ' '.join(doc.split())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2),
        'coverage': {
            'explanation': 'Static analysis of the MIR of the crate at /repo. Rule: %s' % doc,
            'counts': ran,
            'samples': ctx.rows[:400],
            'undecided': ctx.undec,
            'violation_reports': [{'key': k, 'what': m, 'where': w} for k, m, w in new],
            'known_findings': [k for k, _, _ in old],
        },
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, m, w in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    print('%s: %s; %.1f s' % (prop, ', '.join('%s=%d' % kv for kv in sorted(ran.items())), wall))
    for u in ctx.undec:
        print('undecided: %s' % u)
    if new:
        rep = os.path.join(evdir, prop + '.report.txt')
        with open(rep, 'w') as f:
            for k, m, w in new:
                f.write('rule %s\nkey  %s\nat   %s\n%s\n\n' % (prop, k, w, m))
        for k, m, w in new:
            print('  [%s] %s  -- %s' % (k, m[:400], w))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv)
