"""Call graph over the extracted bodies: direct calls, closures, function values, crate trait calls resolved to every impl."""
from .check import last, strip_generics


class Graph:
    def __init__(self, F):
        self.F = F
        self.by_trait = {}
        for f in F.fns:
            o = f.get('owner') or {}
            if f.get('inst') is None:
                continue
            if o.get('kind') in ('traitimpl', 'trait'):
                self.by_trait.setdefault((last(strip_generics(o['trait'])), f['name']), []).append(f['inst'])
        self._e = {}
        self._t = {}

    def callables(self, t, seen=None):
        """instances of the closures and function items inside a type"""
        if t in self._t:
            return self._t[t]
        seen = set() if seen is None else seen
        if t in seen:
            return set()
        seen.add(t)
        d = self.F.types[t]
        out = set()
        if d['k'] == 'closure' and d.get('inst') is not None:
            out.add(d['inst'])
        if d['k'] == 'fndef':
            f = d.get('f')
            if isinstance(f, dict) and f.get('inst') is not None:
                out.add(f['inst'])
            elif isinstance(f, int):
                out.add(f)
        for v in d.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, int) and not isinstance(x, bool) and d['k'] in ('adt', 'closure', 'tuple', 'fndef', 'fnptr') and v is not d.get('inst') and 0 <= x < len(self.F.types):
                    if v is d.get('args') or d['k'] == 'tuple':
                        out |= self.callables(x, seen)
        if len(seen) == 1:
            self._t[t] = out
        return out

    def edges(self, i):
        """-> [(callee instance or None, callee, span)]"""
        if i in self._e:
            return self._e[i]
        out = []
        b = self.F.insts[i].get('body')
        if b:
            for bl in b['blocks']:
                t = bl['t']
                if t and t[0] == 'call':
                    c = t[1]
                    span = next((x for x in t if isinstance(x, str) and '.rs:' in x), '')
                    if c.get('inst') is not None:
                        out.append((c['inst'], c, span))
                    if c.get('trait') and (c.get('inst') is None or c.get('default') or not self.F.insts[c['inst']].get('body')):
                        for j in self.by_trait.get((last(strip_generics(c['trait'])), c['name']), ()):
                            out.append((j, c, span))
                    if c.get('inst') is None:
                        out.append((None, c, span))
                    for a in c.get('args', ()):
                        if isinstance(a, int):
                            for j in self.callables(a):
                                out.append((j, c, span))
            for l in b['locals']:
                t = l if isinstance(l, int) else l.get('ty') if isinstance(l, dict) else l[0]
                if isinstance(t, int):
                    for j in self.callables(t):
                        out.append((j, None, ''))
        self._e[i] = out
        return out

    def reach(self, roots):
        """-> {instance: (caller instance, span)} of everything reachable"""
        seen = {r: None for r in roots}
        todo = list(roots)
        while todo:
            i = todo.pop()
            for j, c, span in self.edges(i):
                if j is not None and j not in seen:
                    seen[j] = (i, span)
                    todo.append(j)
        return seen

    def calls(self, roots):
        """every call reachable: (instance, callee, span)"""
        r = self.reach(roots)
        for i in r:
            for j, c, span in self.edges(i):
                if c is not None:
                    yield i, c, span

    def path(self, reach, i):
        out = []
        while i is not None:
            out.append(self.F.insts[i]['path'])
            i = reach[i][0] if reach[i] else None
        return list(reversed(out))
