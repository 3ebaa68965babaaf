"""Iterators whose items keep their place.  An iterator is a value ('st', None, ('xi', kind, ...), fields); a step answers with
what the next item is, exactly: sources are lists (from both ends) and endless keys, the adapters are those that neither reorder
nor look ahead.  Consumers (for_each, collect, fold ...) are loops over steps, closed by a fixpoint; a `for` loop is one anyway."""
import re
import engine
from dom import K, V, sym, Lin

ITER = re.compile(r'(?:Iterator|IntoIterator|DoubleEndedIterator|ExactSizeIterator)(?:<[^>]*>)?(?: for [^>]*(?:<[^>]*>)?)?>?::(\w+)$|iter::traits::\w+::\w+::(\w+)$')
KEEP = {'copied', 'cloned', 'by_ref', 'into_iter', 'fuse', 'peekable'}


def cge(x):
    return engine.cge(x)


class Iters:
    def __init__(self, E, L):
        self.E, self.L = E, L
        self.later = []         # what a rule wants to look at once the loops around it have settled

    # -------------------------------------------------- to be said by the rule
    def source(self, st, v):
        """a list that is walked: (src, first, behind the last, by reference, mutable) or None"""
        return None

    def elem(self, st, src, idx, mut, site):
        """the item of a source at a place"""
        return None

    def keyitem(self, st, key, ph):
        return None

    def collected(self, fr, st, site, dty, n, acc):
        """what a collection of n items is"""
        return None

    def collecting(self, st, site):
        """a collection begins"""

    def item_out(self, st, site, n, item):
        """item number n is collected"""

    def salt(self, st):
        """what tells apart collections that are made at one site on different paths"""
        return ()

    # -------------------------------------------------- values
    def mk(self, kind, *more, **fs):
        return ('st', None, ('xi', kind) + more, tuple(sorted(('#' + k, v) for k, v in fs.items() if v is not None)))

    def isx(self, v):
        return v is not None and v[0] == 'st' and isinstance(v[2], tuple) and len(v[2]) > 1 and v[2][0] == 'xi'

    def get(self, v, k):
        return dict(v[3]).get('#' + k)

    def put(self, v, **fs):
        d = dict(v[3])
        d.update({'#' + k: x for k, x in fs.items()})
        return v[:3] + (tuple(sorted(d.items())),)

    def slice(self, src, a, b, ref=True, mut=False):
        return self.mk('list', src, ref, mut, b=('i', a), e=('i', b))

    def find(self, st, v):
        """the iterator that a value is or refers to, and its place"""
        pl, n = None, 0
        while v is not None and v[0] == 'ref' and n < 8:
            pl = v
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        return (pl, v) if self.isx(v) else (None, None)

    # -------------------------------------------------- steps
    def step(self, fr, st, it, site, back=False):
        """[(state, iterator, 'some' | 'none' | 'skip', item)]"""
        E = self.E
        if it is not None and it[0] == 'ref':
            pl, x = self.find(st, it)
            if x is None:
                return None
            r = self.step(fr, st, x, site, back)
            if r is None:
                return None
            out = []
            for s, y, tag, item in r:
                E.store(s, fr, pl[1], pl[2], y, site)
                out.append((s, it, tag, item))
            return out
        if not self.isx(it):
            return None
        k = it[2][1]
        if k == 'list':
            b, e = self.get(it, 'b')[1], self.get(it, 'e')[1]
            out = []
            for some in (True, False):
                s = st.copy()
                if not E.assume(s, cge(e.sub(b).addc(-1)), some):
                    continue
                if not some:
                    out.append((s, it, 'none', None))
                    continue
                i = e.addc(-1) if back else b
                x = self.elem(s, it[2][2], i, it[2][4], site) if it[2][3] else self.item_of_list(s, it[2][2], i, site)
                out.append((s, self.put(it, e=('i', i)) if back else self.put(it, b=('i', b.addc(1))), 'some', x))
            return out
        if k == 'key':
            if back:
                return None
            ph = self.get(it, 'ph')[1]
            return [(st, self.put(it, ph=('i', ph.addc(1))), 'some', self.keyitem(st, it[2][2], ph))]
        if k == 'range':
            b, e = self.get(it, 'b')[1], self.get(it, 'e')[1]
            out = []
            for some in (True, False):
                s = st.copy()
                if E.assume(s, cge(e.sub(b).addc(-1)), some):
                    i = e.addc(-1) if back else b
                    out.append((s, it if not some else self.put(it, e=('i', i)) if back else self.put(it, b=('i', b.addc(1))),
                                'some' if some else 'none', ('i', i) if some else None))
            return out
        inner = self.get(it, 'in')
        if k == 'rev':
            r = self.step(fr, st, inner, site, not back)
        elif k == 'take':
            if back:
                return None
            n = self.get(it, 'n')[1]
            out = []
            s = st.copy()
            if E.assume(s, cge(n.neg())):
                out.append((s, it, 'none', None))
            s = st.copy()
            if E.assume(s, cge(n.addc(-1))):
                r = self.step(fr, s, inner, site)
                if r is None:
                    return None
                out += [(q, self.put(it, **{'in': y, 'n': ('i', n.addc(-1) if tag == 'some' else n)}), tag, item) for q, y, tag, item in r]
            return out
        elif k == 'zip':
            if back:
                return None
            out = []
            r = self.step(fr, st, inner, site + ('a',))
            for s, y, tag, item in r or ():
                if tag != 'some':
                    out.append((s, self.put(it, **{'in': y}), tag, None))
                    continue
                r2 = self.step(fr, s, self.get(it, 'in2'), site + ('b',))
                if r2 is None or any(t == 'skip' for _, _, t, _ in r2):
                    return None
                for s2, y2, tag2, item2 in r2:
                    out.append((s2, self.put(it, **{'in': y, 'in2': y2}), tag2,
                                ('st', None, (site, 'zip'), ((0, item), (1, item2))) if tag2 == 'some' else None))
            return out if r is not None else None
        elif k == 'enumerate':
            n = self.get(it, 'n')[1]
            if back:
                x = inner
                while self.isx(x) and x[2][1] in ('rev', 'deref', 'map'):
                    x = self.get(x, 'in')
                if not self.isx(x) or x[2][1] not in ('list', 'range'):
                    return None
                n = n.add(self.get(x, 'e')[1]).sub(self.get(x, 'b')[1]).addc(-1)
                r = self.step(fr, st, inner, site, True)
                return None if r is None else [
                    (s, self.put(it, **{'in': y}), tag,
                     ('st', None, (site, 'enum'), ((0, ('i', n)), (1, item))) if tag == 'some' else None) for s, y, tag, item in r]
            r = self.step(fr, st, inner, site)
            return None if r is None else [
                (s, self.put(it, **{'in': y, 'n': ('i', n.addc(1) if tag == 'some' else n)}), tag,
                 ('st', None, (site, 'enum'), ((0, ('i', n)), (1, item))) if tag == 'some' else None) for s, y, tag, item in r]
        elif k in ('map', 'filter_map', 'filter', 'inspect'):
            r = self.step(fr, st, inner, site, back)
            if r is None:
                return None
            out = []
            for s, y, tag, item in r:
                if tag != 'some':
                    out.append((s, self.put(it, **{'in': y}), tag, None))
                    continue
                f = self.get(it, 'f')
                arg = item
                if k in ('filter', 'inspect'):
                    o = ('xarg', site)
                    s.mem[o] = item
                    arg = ('ref', o, (), False)
                env = ('xclo', site)
                g = f
                if f is not None and f[0] == 'clo':
                    s.mem[env] = f
                    g = ('ref', env, (), True)
                for s2, v in E.invoke(fr, s, g, [arg], site + (k,), None, {'ln': None, 'to': [0], 'k': 'call'}):
                    z = self.put(it, **{'in': y})
                    if f is not None and f[0] == 'clo':
                        z = self.put(z, f=s2.mem.pop(env, f))
                    if k in ('map', 'inspect'):
                        out.append((s2, z, 'some', v if k == 'map' else item))
                        continue
                    for vi in (0, 1):
                        q = s2.copy()
                        if k == 'filter':
                            if v is None or v[0] != 'b' or not E.assume(q, v[1], bool(vi)):
                                continue
                            out.append((q, z, 'some' if vi else 'skip', item if vi else None))
                        else:
                            if v is None or v[0] != 'en' or not E.assume(q, ('isv', v[2], (vi,), (0, 1))):
                                continue
                            out.append((q, z, 'some' if vi else 'skip', E.payload(self.L, v, 1, '0') if vi else None))
            return out
        elif k == 'deref':
            r = self.step(fr, st, inner, site, back)
            if r is None:
                return None
            out = []
            for s, y, tag, item in r:
                if tag == 'some' and item is not None and item[0] == 'ref':
                    item = E.load(s, self.L, item[1], item[2])
                out.append((s, self.put(it, **{'in': y}), tag, item))
            return out
        else:
            return None
        return None if r is None else [(s, self.put(it, **{'in': y}), tag, item) for s, y, tag, item in r]

    def item_of_list(self, st, src, i, site):
        x = self.elem(st, src, i, False, site)
        if x is not None and x[0] == 'ref':
            return self.E.load(st, self.L, x[1], x[2])
        return x

    # -------------------------------------------------- loops over steps
    def drive(self, fr, st, it, site, body, step=None):
        """every item until the end; body(state, item) -> [(state, None | value that ends it)] -> [(state, iterator, None | value)]"""
        E = self.E
        root = ('xit', site)
        st = st.copy()
        st.mem[root] = it
        st0, head, n = st, st.copy(), 1
        mark = len(self.later)
        while True:
            del self.later[mark:]           # only what the last round leaves is looked at: it covers the others
            r = (step or self.step)(fr, head.copy(), head.mem[root], site + ('s',)) if root in head.mem else None
            if r is None:
                return None
            back, out = [], []
            for s, y, tag, item in r:
                s.mem[root] = y
                if tag == 'none':
                    out.append((s, None))
                elif tag == 'skip':
                    back.append(s)
                elif tag == 'err':
                    out.append((s, item))
                else:
                    for s2, end in body(s, item):
                        if end is None:
                            back.append(s2)
                        else:
                            out.append((s2, end))
            if not back:
                break
            cur = E.join([head, st0] + back, (site, 'drive'), head=head, allow_new=n <= 3, entry_roots=set(st0.mem) | {root})
            if cur.same(head):
                break
            head = cur
            n += 1
            if n > E.MAXPASS:
                raise engine.Unsupported('no fixpoint')
        return [(s, s.mem.pop(root), end) for s, end in out]

    # -------------------------------------------------- calls
    def call(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        if not args or args[0][0] is None:
            return None
        nm = name.rsplit('::', 1)[-1]
        v = args[0][0]
        if nm in ('iter', 'iter_mut', 'into_iter', 'drain', 'bytes', 'as_slice'):
            pl, x = self.find(st, v)
            if x is not None and nm == 'into_iter':
                return [(st, v)]
            sr = self.source(st, v)
            if sr is not None and nm in ('iter', 'iter_mut', 'into_iter'):
                src, a, b, ref, mut = sr
                return [(st, self.slice(src, a, b, ref, mut))]
            if nm == 'into_iter' and v[0] == 'st' and v[1] is not None and L.T[v[1]].get('path') == 'core::ops::range::Range':
                return None
            return None
        pl, x = self.find(st, v)
        rangeit = None
        if x is None and v[0] == 'st' and v[1] is not None and L.T[v[1]].get('path') == 'core::ops::range::Range' and ITER.search(name):
            a, b = E.field(L, v, 'start', None), E.field(L, v, 'end', None)
            if a is not None and b is not None and a[0] == 'i' and b[0] == 'i' and nm in (
                    'map', 'zip', 'for_each', 'try_for_each', 'enumerate', 'filter', 'filter_map', 'rev', 'take'):
                x = v = self.mk('range', b=a, e=b)
        if x is None:
            return None
        if nm == 'clone':
            return [(st, x)]
        if not ITER.search(name) and nm not in ('next', 'zip', 'take', 'cycle', 'collect'):
            return None
        a1 = args[1][0] if len(args) > 1 else None
        f1 = a1
        if nm in ('by_ref', 'into_iter', 'fuse'):
            return [(st, v)]
        if nm in ('copied', 'cloned'):
            return [(st, self.mk('deref', **{'in': v}))]
        if nm == 'rev':
            return [(st, self.mk('rev', **{'in': v}))]
        if nm == 'take' and a1[0] == 'i':
            return [(st, self.mk('take', **{'in': v, 'n': a1}))]
        if nm == 'zip':
            o = a1
            if self.find(st, a1)[1] is None:
                sr = self.source(st, a1)
                if sr is None:
                    return None
                o = self.slice(*sr)
            return [(st, self.mk('zip', **{'in': v, 'in2': o}))]
        if nm == 'enumerate':
            return [(st, self.mk('enumerate', **{'in': v, 'n': ('i', K(0))}))]
        if nm in ('map', 'filter_map', 'filter', 'inspect'):
            return [(st, self.mk(nm, **{'in': v, 'f': f1}))]
        if nm == 'skip' and x[2][1] == 'list' and a1[0] == 'i':
            b, e = self.get(x, 'b')[1], self.get(x, 'e')[1]
            out = []
            for some in (True, False):
                s = st.copy()
                if E.assume(s, cge(e.sub(b).sub(a1[1])), some):
                    out.append((s, self.put(x, b=('i', b.add(a1[1]) if some else e))))
            return out
        if nm == 'cycle' and x[2][1] == 'list' and not x[2][3]:
            return [(st, self.cycle(st, x))]
        if nm in ('next', 'next_back') and v[0] == 'ref' and isinstance(dty, int):
            r = self.step(fr, st, v, site, nm == 'next_back')
            if r is not None and any(tag == 'skip' for _, _, tag, _ in r) and nm == 'next':
                # the first item that is not passed over
                r = self.drive(fr, st, v, site, lambda s, item: [(s, ('first', item))])
                r = r and [(s, it, 'some' if end else 'none', end[1] if end else None) for s, it, end in r]
            if r is None or any(tag == 'skip' for _, _, tag, _ in r):
                return None
            out = []
            for s, _, tag, item in r:
                vi = 1 if tag == 'some' else 0
                out.append((s, E.new_enum(s, dty, (site, 'xn', vi), vi, [('0', item)] if vi else [])))
            return out
        if nm in ('len',) and x[2][1] == 'list':
            return [(st, ('i', self.get(x, 'e')[1].sub(self.get(x, 'b')[1])))]
        if nm in ('for_each', 'try_for_each'):
            def body(s, item):
                out = []
                for s2, r in E.invoke(fr, s, f1, [item], site + ('fe',), None, {'ln': None, 'to': [0], 'k': 'call'}):
                    out.append((s2, r if nm == 'try_for_each' and E.fails(L, s2, r) else None))
                return out
            r = self.drive(fr, st, v, site, body)
            if r is None:
                return None
            out = []
            for s, _, end in r:
                if end is None and nm == 'try_for_each':
                    vi = 1 if 'Option' in L.T[dty].get('path', '') else 0
                    end = E.new_enum(s, dty, (site, 'done'), vi, [('0', ('st', None, (site, 'unit'), ()))])
                out.append((s, end if end is not None else ('st', None, (site, 'unit'), ())))
            return out
        if nm in ('collect', 'count', 'last', 'extend'):
            cnt = ('xcnt', site)
            cs = site + self.salt(st)
            st = st.copy()
            st.mem[cnt] = ('i', K(0))
            self.collecting(st, cs)
            inner = L.T[dty] if isinstance(dty, int) else {}
            res = inner.get('path') == 'core::result::Result'

            def body(s, item):
                c = s.mem.get(cnt)
                n = c[1] if c is not None and c[0] == 'i' else None
                if res and nm == 'collect':
                    if E.fails(L, s, item):
                        return [(s, item)]
                    out = []
                    for vi in (0, 1):
                        q = s.copy()
                        if item is None or item[0] != 'en' or not E.assume(q, ('isv', item[2], (vi,), (0, 1))):
                            continue
                        if vi == 0:
                            self.item_out(q, cs, n, E.payload(L, item, 0, '0'))
                            q.mem[cnt] = ('i', n.addc(1)) if n is not None else ('op', ('lost',), None)
                        out.append((q, item if vi else None))
                    return out
                self.item_out(s, cs, n, item)
                s.mem[cnt] = ('i', n.addc(1)) if n is not None else ('op', ('lost',), None)
                return [(s, None)]
            r = self.drive(fr, st, v, site, body)
            if r is None:
                return None
            out = []
            for s, _, end in r:
                c = s.mem.pop(cnt, None)
                n = c[1] if c is not None and c[0] == 'i' else None
                if nm == 'count':
                    out.append((s, c))
                    continue
                if end is not None:
                    # an error ends it
                    e = E.payload(L, end, 1, '0') if end[0] == 'en' else None
                    out.append((s, E.new_enum(s, dty, (site, 'ce'), 1, [('0', e)])))
                    continue
                y = self.collected(fr, s, cs, self.targ(dty, 0) if res else dty, n, None)
                if y is None:
                    y = E.fresh(L, (site, 'coll'), self.targ(dty, 0) if res else dty)
                out.append((s, E.new_enum(s, dty, (site, 'co'), 0, [('0', y)]) if res else y))
            return out
        return None

    def cycle(self, st, x):
        return self.mk('key', x[2][2], ph=self.get(x, 'b'), n=self.get(x, 'e'))

    def targ(self, ti, n):
        return self.L.T[ti]['args'][n]
