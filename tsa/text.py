"""Abstract strings: concatenations of literal text and names.

A *name* `nm(x)` stands for any text that is not empty and contains none of ' " / ; any string at all is a sequence of names and those
three characters.  Functions over such strings are evaluated piece by piece; a predicate (also one that carries state from character to
character) is run once on a generic character of a name, so the result holds for every name of any length."""
from .terms import *
from .mem import *
from . import terms as T
from . import mem as M
from .models import pattern, val, opt, derefs, upd_place
from . import models as MD
from . import iters as IT
from .iters import S, is_it

EXCLUDED = (34, 39, 47)
_first = len(MD.PATTERNS)


def nm(x):
    return raw('nm', x)


def parts(t):
    """a string term as a list of characters and names, or None"""
    if t.op == 'str':
        return list(t.a[0])
    if t.op == 'nm':
        return [t]
    if t.op == 'seq':
        out = []
        for x in t.a[0]:
            if is_int(x) and 0 <= x.a[0] < 0x110000:
                out.append(chr(x.a[0]))
            elif x.op in ('char', 'str') and len(str(x.a[0])) == 1:
                out.append(x.a[0])
            else:
                return None
        return out
    if t.op == 'rep' and is_int(t.a[1]) and 0 <= t.a[1].a[0] < 64:
        r = parts(seq(t.a[0]))
        return None if r is None else r * t.a[1].a[0]
    if t.op == 'cat':
        out = []
        for x in t.a:
            p = parts(x)
            if p is None:
                return None
            out.extend(p)
        return out
    if t.op == 'fmttext':
        return formatted(t)
    return None


def text(ps):
    out, lit = [], ''
    for p in ps:
        if isinstance(p, str):
            lit += p
        else:
            if lit:
                out.append(raw('str', lit))
            lit = ''
            out.append(p)
    if lit or not out:
        out.append(raw('str', lit))
    return out[0] if len(out) == 1 else raw('cat', *out)


def named(t):
    """parts of a string that contains a name"""
    if not T.contains(t, lambda y: y.op == 'nm'):
        return None
    return parts(t)


def formatted(t):
    a = t.a[0]
    if a.op == 'str':
        return list(a.a[0])
    if a.op != 'fmtargs' or len(a.a[0]) < 1:
        return None
    tpl = a.a[0][0]
    if tpl.op == 'str':
        return list(tpl.a[0])
    args = a.a[0][1].a[0] if len(a.a[0]) > 1 and a.a[0][1].op == 'seq' else ()
    if tpl.op != 'seq' or not all(is_int(x) for x in tpl.a[0]):
        return None
    b = [x.a[0] for x in tpl.a[0]]
    i, k, out = 0, 0, []
    while i < len(b):
        n = b[i]
        if n == 0:
            return out
        if n < 128:
            try:
                out.extend(bytes(b[i + 1:i + 1 + n]).decode())
            except (UnicodeDecodeError, ValueError):
                return None
            i += 1 + n
        elif n == 192:
            if k >= len(args) or args[k].op != 'fmtarg' or args[k].a[0] != 'new_display':
                return None
            x = args[k].a[1]
            p = parts(x)
            if p is None and x.op == 'char':
                p = [x.a[0]]
            if p is None:
                return None
            out.extend(p)
            k += 1
            i += 1
        else:
            return None
    return out


def norm(t):
    """strings inside a term in normal form"""
    p = parts(t) if t.op in ('cat', 'fmttext', 'seq', 'str') else None
    if p is not None and (t.op != 'seq' or p):
        return text(p)
    if t.op == 'adt':
        return adt(t.a[0], t.a[1], tuple(norm(x) for x in t.a[2]))
    return t


def at(ps, i, pat):
    """does the text pat begin at part i?"""
    for j, c in enumerate(pat):
        if i + j >= len(ps):
            return False
        x = ps[i + j]
        if isinstance(x, str):
            if x != c:
                return False
        else:
            return False if ord(c) in EXCLUDED else None
    return True


def ends(ps, pat):
    for j, c in enumerate(reversed(pat)):
        if j >= len(ps):
            return False
        x = ps[-1 - j]
        if isinstance(x, str):
            if x != c:
                return False
        else:
            return False if ord(c) in EXCLUDED else None
    return True


def differ(a, b):
    """two lists of parts that begin with different names: are the texts certainly different there?"""
    def closed(x):
        return len(x) > 1 and isinstance(x[1], str) and ord(x[1]) in EXCLUDED
    return (closed(a) or len(a) == 1) and (closed(b) or len(b) == 1)


def equal(a, b):
    """equality of two strings (different name atoms are different names), None when it depends on the names"""
    a, b = list(a), list(b)
    for rev in (False, True):
        while a and b:
            x, y = (a[-1], b[-1]) if rev else (a[0], b[0])
            if x is y or isinstance(x, str) and x == y:
                del a[-1 if rev else 0], b[-1 if rev else 0]
                continue
            if isinstance(x, str) and isinstance(y, str):
                return False
            for u, v in ((x, y), (y, x)):
                if isinstance(u, str) and not isinstance(v, str) and ord(u) in EXCLUDED:
                    return False
            if not isinstance(x, str) and not isinstance(y, str) and differ(a[::-1] if rev else a, b[::-1] if rev else b):
                return False
            break
    if not a and not b:
        return True
    if not a or not b:
        return False
    return None


def text_eq(a, b):
    if not (T.contains(a, lambda y: y.op == 'nm') or T.contains(b, lambda y: y.op == 'nm')):
        return None
    p, q = parts(a), parts(b)
    if p is None or q is None:
        return None
    r = equal(p, q)
    if r is None:
        x, y = text(p), text(q)
        return raw('veq', *sorted((x, y), key=lambda t: t.id))
    return boolean(r)


M.TEXT_EQ.append(text_eq)


class Pred:
    """a string pattern: character, text, set of characters or predicate (with state)"""

    def __init__(self, ip, st, v, site):
        self.ip, self.st, self.site = ip, st.copy(), site
        self.chars = self.lit = self.f = None
        if v.op == 'ref':
            inner = st.simp(st.read(place_of(v)))
            if inner.op in ('clo', 'fn'):
                self.f = v
                return
            v = inner
        if v.op in ('char', 'str'):
            self.lit = v.a[0]
        elif is_int(v):
            self.lit = chr(v.a[0])
        elif v.op == 'seq':
            p = parts(v)
            if p is None or any(not isinstance(x, str) for x in p):
                raise MD.NoModel('pattern')
            self.chars = set(p)
        elif v.op in ('clo', 'fn'):
            self.f = v
        else:
            raise MD.NoModel('pattern')

    def ask(self, part):
        """True / False; the state of the predicate advances"""
        if self.lit is not None and len(self.lit) == 1:
            return at([part], 0, self.lit)
        if self.chars is not None:
            if isinstance(part, str):
                return part in self.chars
            return False if all(ord(c) in EXCLUDED for c in self.chars) else None
        if isinstance(part, str):
            r = IT.callf(self.ip, self.st.copy(), self.f, [raw('char', part)], self.site)
            if len(r) != 1:
                return None
            self.st, v, self.f = r[0]
            v = self.st.simp(v)
            return v.a[0] if v.op == 'bool' else self.st.decide(v)
        c = raw('sym', 'character of ' + T.show(part))
        s = self.st.copy()
        for x in EXCLUDED:
            s.assume(eq0(sub(c, num(x))), False)
        for s2, v, f2 in IT.callf(self.ip, s, self.f, [c], self.site):
            v = s2.simp(v)
            if (v.a[0] if v.op == 'bool' else s2.decide(v)) is not False:
                return None
            if f2 is not self.f:
                return None
            if s2.trace != s.trace:
                return None
        return False

    def find(self, ps, i):
        """length of the match at part i, 0 when there is none, None when unknown"""
        if self.lit is not None and len(self.lit) != 1:
            r = at(ps, i, self.lit)
            return None if r is None else len(self.lit) if r else 0
        r = self.ask(ps[i])
        return None if r is None else int(bool(r))


def pieces(pred, ps, limit=None):
    out, cur, i = [], [], 0
    while i < len(ps):
        n = 0 if limit is not None and len(out) >= limit - 1 else pred.find(ps, i)
        if n is None:
            return None
        if n:
            out.append(cur)
            cur = []
            i += n
        else:
            cur.append(ps[i])
            i += 1
    return out + [cur]


def ref(ps):
    return mk_ref((('C', text(ps)), ()))


def own(refs):
    return adt('#own', 0, (seq(*refs), num(0), num(len(refs))))


def pure(f):
    def g(ip, st, call):
        del PREDS[:]
        r = f(ip, st, call)
        return r if all(IT.same_mem(p.st, st) for p in PREDS) else None
    return g


PREDS = []


@pattern(r'^(?:core|alloc)::str::<impl str>::(starts_with|ends_with|contains|replace|find|trim_matches|trim_start_matches|trim_end_matches|strip_prefix|strip_suffix|split|rsplit|splitn|split_once|rsplit_once|chars|split_terminator|is_empty)$')
@pure
def m_text(ip, st, call):
    s = val(st, call.args[0])
    ps = named(s)
    if ps is None and s.op == 'str' and call.name not in ('find', 'is_empty'):
        ps = parts(s)
    if ps is None:
        # no text of the path domain: the uninterpreted model
        return None if call.name == 'is_empty' else MD.m_str(ip, st, call)
    op = call.name
    if op == 'is_empty':
        return [(st, boolean(not ps))]
    if op == 'chars':
        it = None
        run = []
        its = []
        for p in ps:
            if isinstance(p, str):
                run.append(raw('char', p))
            else:
                if run:
                    its.append(adt('#own', 0, (seq(*run), num(0), num(len(run)))))
                run = []
                its.append(adt('#own', 0, (p, num(0), length(p))))
        if run or not its:
            its.append(adt('#own', 0, (seq(*run), num(0), num(len(run)))))
        it = its[0]
        for x in its[1:]:
            it = adt('#chain', 0, (it, x))
        return [(st, it)]
    args = call.args[1:]
    limit = None
    if op == 'splitn':
        if not is_int(args[0]):
            return None
        limit, args = args[0].a[0], args[1:]
    a = args[0]
    t = ip.F.types[call.argtys[-len(args)]]
    if t['k'] == 'ref':
        a2 = derefs(ip, st, a, call.argtys[-len(args)])[0]
        a = a if a2.op in ('clo', 'fn') else a2
    if op in ('starts_with', 'strip_prefix'):
        q = MD.derefs(ip, st, call.args[1], call.argtys[1])[0] if ip.F.types[call.argtys[1]]['k'] == 'ref' else a
        q = named(val(st, q) if q.op == 'ref' else q)       # a prefix that itself contains names
        if q is not None:
            r = starts(ps, q)
            if r is None:
                return None
            return [(st, boolean(r) if op == 'starts_with' else opt(boolean(r), ref(ps[len(q):])))]
    try:
        pred = Pred(ip, st, a, S(call.site, 'p'))
        PREDS.append(pred)
    except MD.NoModel:
        return None
    one = pred.lit is None or len(pred.lit) == 1
    if op in ('starts_with', 'strip_prefix', 'ends_with', 'strip_suffix'):
        pre = op in ('starts_with', 'strip_prefix')
        if pred.lit is not None:
            r = at(ps, 0, pred.lit) if pre else ends(ps, pred.lit)
            n = len(pred.lit)
        else:
            n = 1
            r = pred.ask(ps[0 if pre else -1]) if ps else False
        if r is None:
            return None
        if op in ('starts_with', 'ends_with'):
            return [(st, boolean(bool(r)))]
        rest = ps[n:] if pre else ps[:len(ps) - n]
        return [(st, opt(boolean(bool(r)), ref(rest)))]
    if op == 'contains':
        n = pieces(pred, ps)
        return None if n is None else [(st, boolean(len(n) > 1 or pred.lit == ''))]
    if op == 'replace':
        to = val(st, args[1])
        q = parts(to)
        n = pieces(pred, ps)
        if q is None or n is None or pred.lit == '':
            return None
        out = list(n[0])
        for x in n[1:]:
            out += q + x
        return [(st, text(out))]
    if op in ('trim_matches', 'trim_start_matches', 'trim_end_matches') and one:
        out = list(ps)
        while out and op != 'trim_end_matches':
            r = pred.ask(out[0])
            if r is None:
                return None
            if not r:
                break
            out = out[1:]
        while out and op != 'trim_start_matches':
            r = pred.ask(out[-1])
            if r is None:
                return None
            if not r:
                break
            out = out[:-1]
        return [(st, ref(out))]
    if op == 'find':
        n = pieces(pred, ps)
        if n is None:
            return None
        return [(st, opt(boolean(len(n) > 1), length(text(n[0]))))]
    if op in ('split', 'splitn', 'split_terminator', 'rsplit', 'split_once', 'rsplit_once'):
        if op.startswith('r') and pred.f is not None:
            return None
        n = pieces(pred, ps, limit)
        if n is None or pred.lit == '':
            return None
        if op == 'split_terminator' and not n[-1]:
            n = n[:-1]
        if op in ('split_once', 'rsplit_once'):
            if len(n) < 2:
                return [(st, none())]
            k = 1 if op == 'split_once' else len(n) - 1
            sep = list(pred.lit) if pred.lit else None
            if sep is None:
                if len(n) != 2:
                    return None
                sep = []

            def join(xs):
                out = list(xs[0])
                for x in xs[1:]:
                    out += sep + x
                return out
            return [(st, some(adt('()', 0, (ref(join(n[:k])), ref(join(n[k:]))))))]
        if op == 'rsplit':
            n = n[::-1]
        return [(st, own([ref(x) for x in n]))]
    return None


# ------------------------------------------------------------------ ordered maps with known entries
def omap(entries):
    return raw('omap', tuple(entries))


def entries_it(v, m, kind):
    """iterator over a map with known entries"""
    out = []
    for k, x in m.a[0]:
        rk, rv = mk_ref((('C', k), ())), mk_ref((('C', x), ()))
        out.append({'k': rk, 'v': rv, 'kv': adt('()', 0, (rk, rv)), 'kown': k}[kind])
    return own(out)


MD.ENTRIES.append(entries_it)


CHOICE = [None, 0]     # which of the possible ranges is followed (None: all), and how many there were


def bound(b):
    """(text, inclusive) of a lower bound, None when unbounded; raises for an unknown one"""
    if b.op == 'adt' and 'Bound' in b.a[0]:
        if b.a[1] == 2:
            return None
        p = parts(b.a[2][0])
        if p is not None:
            return p, b.a[1] == 0
    raise MD.NoModel('bound')


@pattern(r'BTreeMap::<.*>::range$')
def m_range(ip, st, call):
    m = val(st, call.args[0])
    if m.op != 'omap':
        return None
    r = ip.deep(st, call.args[1])
    try:
        if r.op == 'adt' and r.a[0] == '()':
            lo, hi = bound(r.a[2][0]), bound(r.a[2][1])
        elif r.op == 'adt' and r.a[0].endswith('RangeFrom'):
            lo, hi = (parts(r.a[2][0]), True), None
        else:
            return None
    except MD.NoModel:
        return None
    if hi is not None or lo is not None and lo[0] is None:
        return None
    if lo is None:
        return [(st, entries_it(call.args[0], m, 'kv'))]
    low, incl = lo
    ks = [parts(k) for k, _ in m.a[0]]
    if any(k is None for k in ks):
        return None
    pre = [starts(k, low) for k in ks]
    outs = []

    def go(i, kept, above):
        """above: everything from here on is greater than the bound"""
        if i == len(ks):
            outs.append(list(kept))
            return
        if pre[i] is None:
            raise MD.NoModel('range')
        if pre[i]:
            if equal(ks[i], low) is True and not incl:
                return go(i + 1, kept, True)
            return go(i + 1, kept + [i], True)
        if above:
            return go(i + 1, kept + [i], True)
        # a key that does not start with the bound and lies before one that does is smaller than the bound
        go(i + 1, kept, False)
        if not any(pre[i + 1:]):
            go(i + 1, kept + [i], True)
    try:
        go(0, [], False)
    except MD.NoModel:
        return None
    if CHOICE[0] is not None:
        CHOICE[1] = max(CHOICE[1], len(outs))
        outs = [outs[min(CHOICE[0], len(outs) - 1)]]
    return [(st.copy(), entries_it(call.args[0], omap([m.a[0][i] for i in o]), 'kv')) for o in outs]


def starts(ps, pre):
    """does ps start with pre?  None when it depends on the names"""
    a, b = list(ps), list(pre)
    while b:
        if not a:
            return False
        x, y = a[0], b[0]
        if x is y or isinstance(x, str) and x == y:
            del a[0], b[0]
            continue
        if isinstance(x, str) and isinstance(y, str):
            return False
        for u, v in ((x, y), (y, x)):
            if isinstance(u, str) and not isinstance(v, str) and ord(u) in EXCLUDED:
                return False
        if not isinstance(x, str) and not isinstance(y, str) and len(b) > 1 and differ(a, b):
            return False
        return None
    return True


MD.PATTERNS[:] = MD.PATTERNS[_first:][::-1] + MD.PATTERNS[:_first]
