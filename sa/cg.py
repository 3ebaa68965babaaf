"""Call graph over both crates, control flow helpers.

Edges: a call to a local function (resolved by rustc), a function item used as a value, a closure built in a body, a call
of a trait method on a type parameter (to every local impl of it), and a call into another crate that is given a local
type (to the methods of the traits the callee's crate calls back through)."""

CALLBACK = (('binrw::', ('BinRead', 'BinWrite')), ('serde_core::de', ('Deserialize', 'Visitor')),
            ('serde_core::ser', ('Serialize',)), ('serde_core::private', ('Deserialize', 'Visitor')),
            ('serde::private::ser', ('Serialize',)), ('serde::private::de', ('Deserialize', 'Visitor')),
            ('quick_xml::de', ('Deserialize', 'Visitor')), ('quick_xml::se', ('Serialize',)),
            ('fallible_iterator::', ('FallibleIterator',)), ('core::iter::', ('Iterator',)))


def callback_traits(c):
    name, tr = cname(c), c.get('tr') or ''
    for pre, trs in CALLBACK:
        if pre in name or tr.startswith(pre):
            one = [t for t in trs if t + '::' in name or t + '>::' in name]
            yield from one or trs


def succ(t):
    if t['k'] == 'switch':
        return [v[1] for v in t['vals']] + ([t['else']] if t.get('else') is not None else [])
    return list(t.get('to') or [])


def sccs(nodes, adj):
    """Tarjan, iterative; lists of nodes, callees first"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(adj(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(adj(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def loops(f):
    """block sets of the loops of a body (strongly connected components; nested ones by removing the header's entry)"""
    bl = f['blocks']
    adj = [succ(b['t']) for b in bl]
    out = []

    def go(nodes):
        ns = set(nodes)
        for c in sccs(sorted(ns), lambda v: [w for w in adj[v] if w in ns]):
            if len(c) > 1 or c[0] in adj[c[0]]:
                cs = set(c)
                out.append(cs)
                # the inner loops: drop the entry block and look again
                ent = [v for v in cs if any(v in adj[u] for u in range(len(bl)) if u not in cs)] or [min(cs)]
                go(cs - set(ent))
    go(range(len(bl)))
    return out


def callee(cr, t):
    if t['k'] == 'call' and 'k' in t['f']:
        return cr.T[t['f']['k']['t']].get('callee')
    return None


def cname(c):
    return c.get('rp', c['p']) if c else '?'


def local_adts(cr, ti, out=None, d=0):
    """the local types a type mentions in its type arguments"""
    out = set() if out is None else out
    if not isinstance(ti, int) or d > 12:
        return out
    t = cr.T[ti]
    if t['k'] == 'adt':
        if t.get('local') or t['path'].startswith('rekordcrate::'):
            out.add(t['path'])
        for a in t.get('args', ()):
            local_adts(cr, a, out, d + 1)
    elif t['k'] in ('ref', 'ptr', 'array', 'slice'):
        local_adts(cr, t['t'], out, d + 1)
    elif t['k'] == 'tuple':
        for a in t['ts']:
            local_adts(cr, a, out, d + 1)
    return out


class Edge:
    __slots__ = ('f', 'g', 'kind', 'blk', 'ln')

    def __init__(self, f, g, kind, blk, ln):
        self.f, self.g, self.kind, self.blk, self.ln = f, g, kind, blk, ln


class CallGraph:
    def __init__(self, crates):
        self.crates = crates
        self.fns = [f for c in crates.values() for f in c.fns if 'blocks' in f]
        self.impls = {}          # (trait, method) -> fns;   (trait suffix, adt) -> fns
        for f in self.fns:
            if f.get('trait') and f['kind'] == 'fn':
                self.impls.setdefault((f['trait'], f['name']), []).append(f)
                st = f['crate'].T[f['self']]
                while st['k'] == 'ref':
                    st = f['crate'].T[st['t']]
                if st['k'] == 'adt':
                    self.impls.setdefault((f['trait'].split('::')[-1], '@' + st['path']), []).append(f)
            elif f.get('intrait') and f['kind'] == 'fn':
                self.impls.setdefault((f['intrait'], f['name']), []).append(f)
        self.byid = {id(f): f for f in self.fns}
        self.out = {id(f): [] for f in self.fns}
        self.inn = {id(f): [] for f in self.fns}
        for f in self.fns:
            for e in self._edges(f):
                self.out[id(f)].append(e)
                self.inn[id(e.g)].append(e)

    def find(self, cr, name, key=None):
        if key is not None and key in cr.by_key:
            g = cr.by_key[key]
            return g if 'blocks' in g else None
        if cr.bin and name.startswith('rekordcrate::'):
            g = self.crates['lib'].by_path.get(name[len('rekordcrate::'):])
            return g if g is not None and 'blocks' in g else None
        if cr.bin and name.startswith('<rekordcrate::'):
            g = self.crates['lib'].by_path.get(name.replace('rekordcrate::', ''))
            return g if g is not None and 'blocks' in g else None
        g = cr.by_path.get(name)
        return g if g is not None and 'blocks' in g else None

    def targets(self, cr, c):
        """local functions a callee constant stands for: [(fn, kind)]"""
        if c.get('rlocal', c.get('local')) or cname(c).lstrip('<').startswith('rekordcrate::'):
            g = self.find(cr, cname(c), c.get('rk') or (None if 'rp' in c else c.get('pk')))
            if g is not None and not (c.get('tr') and 'rp' not in c):
                return [(g, 'call')]
        if c.get('tr') and 'rp' not in c:
            a0 = cr.T[c['args'][0]] if c['args'] and isinstance(c['args'][0], int) else None
            res = [(g, 'param') for g in self.impls.get((c['tr'], c['name']), ())]
            if res and a0 is not None and a0['k'] not in ('param', 'alias', 'dyn', 'ref'):
                loc = local_adts(cr, c['args'][0])
                loc = {p.replace('rekordcrate::', '') for p in loc}
                res = [(g, k) for g, k in res if loc & {x.replace('rekordcrate::', '') for x in
                                                        local_adts(g['crate'], g['self'])}] if loc else []
            return res
        res = []
        loc = None
        for tr in callback_traits(c):
            if loc is None:
                loc = set()
                for a in list(c.get('args', ())) + list(c.get('rargs', ())):
                    local_adts(cr, a, loc)
            for p in loc:
                for g in self.impls.get((tr, '@' + p.replace('rekordcrate::', '')), ()):
                    res.append((g, 'callback'))
        return res

    def _edges(self, f):
        cr = f['crate']
        seen = set()

        def emit(g, kind, bi, ln):
            k = (id(g), kind, bi)
            if k not in seen:
                seen.add(k)
                return [Edge(f, g, kind, bi, ln)]
            return []
        for bi, b in enumerate(f['blocks']):
            for s in b['s']:
                rv = s.get('rv') or {}
                if rv.get('ak') == 'closure' and rv.get('key') in cr.by_key:
                    g = cr.by_key[rv['key']]
                    if 'blocks' in g:
                        yield from emit(g, 'closure', bi, s.get('ln'))
                for o in operands(rv):
                    if 'k' in o and 't' in o['k'] and 'callee' in cr.T[o['k']['t']]:
                        for g, k in self.targets(cr, cr.T[o['k']['t']]['callee']):
                            yield from emit(g, 'value', bi, s.get('ln'))
            t = b['t']
            c = callee(cr, t)
            if c is not None:
                for g, k in self.targets(cr, c):
                    yield from emit(g, k, bi, t.get('ln'))
                for o in t['args']:
                    if 'k' in o and 't' in o['k'] and 'callee' in cr.T[o['k']['t']]:
                        for g, k in self.targets(cr, cr.T[o['k']['t']]['callee']):
                            yield from emit(g, 'value', bi, t.get('ln'))
                # zero sized closures / function items that only appear as type arguments
                for a in c.get('args', ()):
                    if isinstance(a, int):
                        ta = cr.T[a]
                        if ta['k'] == 'closure' and ta['key'] in cr.by_key and 'blocks' in cr.by_key[ta['key']]:
                            yield from emit(cr.by_key[ta['key']], 'closure', bi, t.get('ln'))
                        elif ta['k'] == 'fndef' and 'callee' in ta:
                            for g, k in self.targets(cr, ta['callee']):
                                yield from emit(g, 'value', bi, t.get('ln'))

    def reach(self, roots, kinds=None):
        seen, todo = {}, [(id(r), None) for r in roots]
        while todo:
            i, e = todo.pop()
            if i in seen:
                continue
            seen[i] = e
            for x in self.out[i]:
                if kinds is None or x.kind in kinds:
                    todo.append((id(x.g), x))
        return seen

    def chain(self, seen, i):
        out = []
        while i is not None and seen.get(i) is not None:
            e = seen[i]
            out.append('%s:%s' % (e.f['path'].split('::')[-1], e.ln))
            i = id(e.f)
        return ' <- '.join(out)

    def cycles(self):
        res = []
        for c in sccs([id(f) for f in self.fns], lambda v: [id(e.g) for e in self.out[v]]):
            s = set(c)
            es = [e for v in c for e in self.out[v] if id(e.g) in s]
            if es and (len(c) > 1 or any(e.g is e.f for e in es)):
                res.append(([self.byid[v] for v in c], es))
        return res


def operands(rv):
    for k in ('o', 'a', 'b', 'l', 'r'):
        if isinstance(rv.get(k), dict):
            yield rv[k]
    for o in rv.get('os', ()):
        yield o


class Frame0:
    """what resolve/make_subst of the interpreter need of a frame"""
    def __init__(self, f, sub):
        self.fn, self.cr, self.subst = f, f['crate'], sub


class Instances:
    """the call graph over instances (function, type arguments): every function once with its parameters opaque, and every
    instance those call. Calls on opaque parameters are the caller's business and have no edge."""

    def __init__(self, G, E):
        self.G, self.E = G, E
        self.nodes, self.out = {}, {}
        todo = [(f, {}) for f in G.fns]
        while todo:
            f, sub = todo.pop()
            k = self.key(f, sub)
            if k in self.out:
                continue
            self.nodes[k] = f
            es = self.out[k] = []
            seen = set()
            for (g, s2, kind, bi, ln) in self.edges(f, sub):
                k2 = self.key(g, s2)
                if (k2, bi) in seen:
                    continue
                seen.add((k2, bi))
                es.append((k2, kind, bi, ln))
                if k2 not in self.out:
                    todo.append((g, s2))

    def key(self, f, sub):
        return (id(f), tuple(sorted((k, str(v)) for k, v in sub.items())))

    def edges(self, f, sub):
        G, E, cr = self.G, self.E, f['crate']
        fr = Frame0(f, sub)
        for bi, b in enumerate(f['blocks']):
            t = b['t']
            ops = []
            for s in b['s']:
                rv = s.get('rv') or {}
                if rv.get('ak') == 'closure' and rv.get('key') in cr.by_key and 'blocks' in cr.by_key[rv['key']]:
                    yield cr.by_key[rv['key']], sub, 'closure', bi, s.get('ln')
                ops += [(o, s.get('ln')) for o in operands(rv)]
            c = callee(cr, t)
            if c is not None:
                ops += [(o, t.get('ln')) for o in t['args']]
                for x in self.targets(fr, c):
                    yield x + (bi, t.get('ln'))
                for a in c.get('args', ()):
                    if isinstance(a, int):
                        ta = cr.T[a]
                        if ta['k'] == 'closure' and ta['key'] in cr.by_key and 'blocks' in cr.by_key[ta['key']]:
                            yield cr.by_key[ta['key']], sub, 'closure', bi, t.get('ln')
                        elif ta['k'] == 'fndef' and 'callee' in ta:
                            for x in self.targets(fr, ta['callee']):
                                yield x[:2] + ('value', bi, t.get('ln'))
            for o, ln in ops:
                if 'k' in o and 't' in o['k'] and 'callee' in cr.T[o['k']['t']]:
                    for x in self.targets(fr, cr.T[o['k']['t']]['callee']):
                        yield x[:2] + ('value', bi, ln)

    def targets(self, fr, c):
        G, E, cr = self.G, self.E, fr.cr
        r = E.resolve(fr, c)
        f = E.local_fn(fr, r)
        if f is not None and 'blocks' in f and not (r.get('tr') and 'rp' not in r):
            yield f, E.make_subst(fr, r, f), 'call'
            return
        if cr.bin:
            g = G.find(cr, cname(r))
            if g is not None and g['crate'] is not cr:
                yield g, {}, 'call'       # the type arguments live in the other crate's table: opaque
                return
        if r.get('tr') and 'rp' not in r:
            # a provided method of a local trait on a type without its own
            for g in G.impls.get((r['tr'], r['name']), ()):
                if g.get('intrait'):
                    yield g, {}, 'call'
        loc = None
        for tr in callback_traits(r):
            if loc is None:
                loc = {}
                for a in list(r.get('args', ())) + list(r.get('rargs', ())):
                    self.types(cr, a, loc)
            for ti, p in loc.items():
                for g in G.impls.get((tr, '@' + p.replace('rekordcrate::', '')), ()):
                    s2 = {}
                    if g['crate'] is cr and g.get('generics'):
                        s2 = {n: x for n, x in zip(g['generics'], cr.T[ti]['args'])
                              if not (isinstance(x, int) and cr.T[x]['k'] == 'param')}
                    yield g, s2, 'callback'

    def types(self, cr, ti, out, d=0):
        if not isinstance(ti, int) or d > 12:
            return
        t = cr.T[ti]
        if t['k'] == 'adt':
            if t.get('local') or t['path'].startswith('rekordcrate::'):
                out[ti] = t['path']
            for a in t.get('args', ()):
                self.types(cr, a, out, d + 1)
        elif t['k'] in ('ref', 'ptr', 'array', 'slice'):
            self.types(cr, t['t'], out, d + 1)
        elif t['k'] == 'tuple':
            for a in t['ts']:
                self.types(cr, a, out, d + 1)

    def cycles(self):
        res = []
        for c in sccs(list(self.out), lambda v: [e[0] for e in self.out[v]]):
            s = set(c)
            es = [(v, e) for v in c for e in self.out[v] if e[0] in s]
            if es and (len(c) > 1 or any(e[0] == v for v, e in es)):
                res.append((c, es))
        return res
