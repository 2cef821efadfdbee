"""Call graph over the extracted program: direct calls, every override of a virtual call, functions whose address is taken and
lambdas written in the body.  External functions appear by name."""
from .db import walk


class Graph:
    def __init__(self, db):
        self.db = db
        self.cache = {}
        self.sub = {}
        for c in db.recs:
            for b in [c] + db.bases(c):
                self.sub.setdefault(b, set()).add(c)

    def edges(self, f):
        """[(callee function record or external name, node)]"""
        k = f['fkey']
        if k in self.cache:
            return self.cache[k]
        db = self.db
        out = []
        for n in walk([f.get('body'), f.get('inits'), f.get('init')]):
            if n.get('k') == 'lambda' and n.get('lambdaop') in db.lam:
                out.append((db.lam[n['lambdaop']], n))
            if n.get('k') not in ('call', 'fref', 'ctor', 'new', 'construct') and 'usr' not in n:
                continue
            if 'usr' not in n and not n.get('fn'):
                continue
            g = db.callee(n, f.get('unit'))
            if n.get('k') == 'call' and n.get('cls') and n.get('nm'):
                # a method call may resolve to any override
                for c in self.sub.get(n['cls'], ()):
                    for h in db.byq.get(c + '::' + n['nm'], []):
                        if h['pt'] == n.get('pt') and h.get('body'):
                            out.append((h, n))
            if g is not None and g.get('body'):
                out.append((g, n))
            elif n.get('fn'):
                out.append((n['fn'], n))
        self.cache[k] = out
        return out

    def reach(self, roots, stop=lambda f: False):
        """{key: (function record or name, parent key, call node)} reachable from the roots"""
        seen = {}
        work = []
        for r in roots:
            seen[r['fkey']] = (r, None, None)
            work.append(r)
        while work:
            f = work.pop(0)
            for g, n in self.edges(f):
                key = g if isinstance(g, str) else g['fkey']
                if key in seen:
                    continue
                seen[key] = (g, f['fkey'], n)
                if not isinstance(g, str) and not stop(g):
                    work.append(g)
        return seen

    def path(self, seen, key):
        out = []
        while key is not None:
            g, p, n = seen[key]
            out.append(g if isinstance(g, str) else g['fn'])
            key = p
        return ' <- '.join(out)
