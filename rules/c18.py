"""The playlist tree.  Rows are lists by place: row i of the table.  What a map has been given is counted, and operation number i
has to be about row i; what is found under a key is then the list of the rows that have this key, in their order.  The recursive
walk is analysed once for an arbitrary id: what it gives has as many items as there are rows under the id, item j made of row j;
its own calls give, by induction, what stands under the ids they are given."""
import re
import cg
import lists
from engine import cge, ceq, neg
from dom import K, V, sym

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR with lists by place and counted map operations; induction over the recursion'
NOTE = ('All databases: any number of rows with any ids, parents and flags. Given that the rows are read in order (C20). '
        'Whether the walk fails (cycles, depth) is not part of it.')
ASSUMPTIONS = ['the maps of std behave as documented', 'FallibleIterator adapters behave as documented']
FALL = re.compile(r'fallible_iterator::FallibleIterator(?:<[^>]*>)?(?:>)?::(\w+)$')
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
BIG = 1 << 48


def size(lid):
    return V(sym((lid, 'rows'), 0, BIG))


class Tables(lists.Lists):
    def __init__(self, ctx, L):
        super().__init__(ctx.crates, L)
        self.ctx = ctx
        self.E.hooks['array'] = lambda st, site, vals: st.mem.__setitem__(('arr1',) + tuple(site[:2]), vals[0])
        self.rows = {}          # list of rows -> type of a row
        self.rules = {}         # map -> what its operations are
        self.bad = {}
        self.rec = set()
        self.active = []
        self.walks = {}

    # ---------------------------------------------------------------- rows
    def item(self, st, lid, i, site):
        if lid in self.rows:
            self.E.add_fact(st, i)
            if self.changed(st, lid):
                return ('op', ('changed', lid, site), None)
            for k, v in st.mem.items():
                if k[0] == 'lel' and k[1] == lid and lists.eq(st, k[2], i):
                    return v
            return self.E.fresh(self.L, ('at', lid[0], lid, i), self.rows[lid])
        return super().item(st, lid, i, site)

    def changed(self, st, lid):
        """items have been moved about"""
        d = st.mem.get(('ldone', lid))
        return d is not None and d[0] == 'op' and d[1] == ('lost',)

    def deref(self, st, v):
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        return v

    def where(self, st, v):
        """(rows, place, fields) that a value is"""
        v = self.deref(st, v)
        if v is None:
            return None
        if v[0] == 'st':
            if v[3]:
                if v[1] is None or len(v[3]) != 1:
                    return None
                w = self.where(st, v[3][0][1])          # a wrapper around a field
                return w[:2] + (w[2][:-1],) if w is not None and w[2] and w[2][-1] == v[3][0][0] else None
            k = v[2]
        elif v[0] == 'i' and v[1].c == 0 and len(v[1].t) == 1 and v[1].t[0][1] == 1:
            from dom import SYM
            k = SYM[v[1].t[0][0]][0]
        elif v[0] in ('op', 'seq'):
            k = v[1]
            if v[0] == 'op' and isinstance(k, tuple) and len(k) == 4 and k[0] == 'text':
                return k[1], k[2], k[3] + ('text',)
        elif v[0] == 'en':
            k = v[3]
        elif v[0] == 'b' and v[1][0] == 'isv':
            k = v[1][1]
        else:
            return None
        path = []
        while isinstance(k, tuple) and k and not (k[0] == 'at' and len(k) == 4):
            path = list(k[1:]) + path
            k = k[0]
        if not isinstance(k, tuple) or not k:
            return None
        return k[2], k[3], tuple(path)

    def number(self, st, v):
        """the number inside of an id"""
        v = self.deref(st, v)
        if v is not None and v[0] == 'st':
            v = self.E.field(self.L, v, '0', None)
            v = self.deref(st, v)
        return v[1] if v is not None and v[0] == 'i' else None

    # ---------------------------------------------------------------- iterators that may fail
    def fstep(self, fr, st, it, site):
        E, L = self.E, self.L
        if it is not None and it[0] == 'ref':
            pl, x = self.find(st, it)
            r = self.fstep(fr, st, x, site) if x is not None else None
            if r is None:
                return None
            out = []
            for s, y, tag, item in r:
                E.store(s, fr, pl[1], pl[2], y, site)
                out.append((s, it, tag, item))
            return out
        if not self.isx(it):
            return None
        if it[2][1] == 'list':
            return [(st.copy(), it, 'err', None)] + self.step(fr, st, it, site)
        if it[2][1] in ('fmap', 'ffilter', 'ffilter_map'):
            r = self.fstep(fr, st, self.get(it, 'in'), site + ('in',))
            if r is None:
                return None
            out = []
            for s, y, tag, item in r:
                it2 = self.put(it, **{'in': y})
                if tag != 'some':
                    out.append((s, it2, tag, item))
                    continue
                arg = item
                if it[2][1] == 'ffilter':
                    o = ('flt', site)
                    s.mem[o] = item
                    arg = ('ref', o, (), False)
                for s2, ok, v in self.invoked(fr, s, self.get(it, 'f'), [arg], site + ('f',)):
                    if not ok:
                        out.append((s2, it2, 'err', None))
                    elif it[2][1] == 'fmap':
                        out.append((s2, it2, 'some', v))
                    elif it[2][1] == 'ffilter':
                        for b in (True, False):
                            q = s2.copy()
                            if v is not None and v[0] == 'b' and E.assume(q, v[1], b):
                                out.append((q, it2, 'some' if b else 'skip', item))
                    else:
                        for vi in (0, 1):
                            q = s2.copy()
                            if v is not None and v[0] == 'en' and E.assume(q, ('isv', v[2], (vi,), (0, 1))):
                                out.append((q, it2, 'some' if vi else 'skip', E.payload(L, v, 1, '0') if vi else None))
            return out
        return None

    def invoked(self, fr, st, f, vals, site):
        """[(state, it went well, value)] of a closure that may fail"""
        E = self.E
        out = []
        for s, v in E.invoke(fr, st, f, vals, site, None, {'ln': None, 'to': [0], 'k': 'call'}):
            if v is None or v[0] != 'en':
                out += [(s, True, None), (s.copy(), False, None)]
                continue
            for vi in (0, 1):
                q = s.copy()
                if E.assume(q, ('isv', v[2], (vi,), (0, 1))):
                    out.append((q, vi == 0, E.payload(self.L, v, 0, '0') if vi == 0 else None))
        return out

    def result(self, st, dty, site, ok, v=None):
        return self.E.new_enum(st, dty, (site, 'ok' if ok else 'err'), 0 if ok else 1, [('0', v)] if ok and v is not None else [])

    def fallible(self, fr, st, nm, args, site, dty):
        E, L = self.E, self.L
        v = args[0][0]
        if self.find(st, v)[1] is None:
            return None
        a1 = args[1][0] if len(args) > 1 else None
        unit = ('st', None, (site, 'unit'), ())
        if nm in ('map', 'filter', 'filter_map'):
            return [(st, self.mk('f' + nm, **{'in': v, 'f': a1}))]
        if nm in ('by_ref', 'into_fallible_iter', 'fuse'):
            return [(st, v)]
        if nm == 'next' and isinstance(dty, int):
            r = self.fstep(fr, st, v, site)
            if r is None or any(tag == 'skip' for _, _, tag, _ in r):
                return None
            oty = L.T[dty]['args'][0]
            out = []
            for s, _, tag, item in r:
                if tag == 'err':
                    out.append((s, self.result(s, dty, site, False)))
                else:
                    vi = 1 if tag == 'some' else 0
                    o = E.new_enum(s, oty, (site, 'fn', vi), vi, [('0', item)] if vi else [])
                    out.append((s, self.result(s, dty, site, True, o)))
            return out
        if nm in ('for_each', 'fold', 'collect', 'try_for_each'):
            acc = ('acc', site)
            st = st.copy()
            if nm == 'collect':
                if L.T[L.T[dty]['args'][0]].get('path') not in MAPS:
                    return None
                st.mem[acc] = self.newmap(site + self.salt(st))
            elif nm == 'fold':
                st.mem[acc] = a1
            f = args[2][0] if nm == 'fold' else a1

            def body(s, item):
                if nm == 'collect':
                    self.mapop(s, fr, ('ref', acc, (), True), E.field(L, item, 0, None), 'put', (E.field(L, item, 1, None),), site)
                    return [(s, None)]
                vals = [s.mem.get(acc), item] if nm == 'fold' else [item]
                out = []
                for s2, ok, x in self.invoked(fr, s, f, vals, site + ('fe',)):
                    if nm == 'fold' and ok:
                        if x is None:
                            x = ('op', ('lost', site), None)
                        s2.mem[acc] = x
                    out.append((s2, None if ok else 'err'))
                return out

            def step(fr, s, it, site):
                r = self.fstep(fr, s, it, site)
                return r and [(q, y, tag, 'err' if tag == 'err' else item) for q, y, tag, item in r]
            r = self.drive(fr, st, v, site, body, step)
            if r is None:
                return None
            out = []
            for s, _, end in r:
                x = s.mem.pop(acc, None)
                out.append((s, self.result(s, dty, site, end is None, unit if nm.endswith('for_each') else x)))
            return out
        return None

    # ---------------------------------------------------------------- maps
    def newmap(self, key):
        return ('st', None, ('map', key), (('#n', ('i', K(0))),))

    def ismap(self, v):
        return v is not None and v[0] == 'st' and isinstance(v[2], tuple) and v[2][0] == 'map'

    def mapat(self, st, v):
        """where a map is, and the map"""
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            x = self.E.load(st, self.L, v[1], v[2])
            if self.ismap(x):
                return v, x
            v = x
            n += 1
        return None, None

    def mapop(self, st, fr, ref, key, op, vals, site):
        pl, m = self.mapat(st, ref)
        if m is None:
            return
        n = m[3][0][1]
        n = n[1] if n[0] == 'i' else None
        ws = [self.where(st, x) for x in (key,) + tuple(vals)]
        new = ('op', ('lost', site), None)
        if n is None or any(w is None for w in ws) or any(w[0] != ws[0][0] or not lists.eq(st, w[1], n) for w in ws):
            self.rules.setdefault(m[2], set()).add(('something else', op))
        else:
            self.rules.setdefault(m[2], set()).add((ws[0][0], op) + tuple(w[2] for w in ws))
            new = ('i', n.addc(1))
        st.mem.pop(('absent', m[2]), None)
        self.E.store(st, fr, pl[1], pl[2], m[:3] + ((('#n', new),),), site)

    def complete(self, st, m):
        """the rule that a map is filled by, if it has been filled with all rows"""
        rs = self.rules.get(m[2], set())
        n = m[3][0][1]
        if len(rs) != 1 or n[0] != 'i':
            return None
        r = next(iter(rs))
        return r if r[0] in self.rows and lists.eq(st, n[1], size(r[0])) else None

    def same(self, st, v, dty):
        return v

    def maps(self, fr, st, nm, name, args, site, dty):
        E, L = self.E, self.L
        path = L.T[dty].get('path') if isinstance(dty, int) else None
        if nm in ('new', 'default', 'with_capacity') and path in MAPS:
            return [(st, self.newmap(site + self.salt(st)))]
        if not args or args[0][0] is None:
            return None
        v = args[0][0]
        x = self.deref(st, v)
        slot = x if x is not None and x[0] == 'st' and x[2] in (('slot',), ('entry',)) else None
        if slot is not None:
            k, m = self.get(slot, 'k'), self.get(slot, 'm')
            if slot[2] == ('entry',) and nm in ('or_default', 'or_insert_with', 'or_insert', 'or_insert_with_key'):
                if nm != 'or_default' and not self.empty(fr, st, args[1][0] if len(args) > 1 else None, nm, site):
                    return None
                st.mem[('slot', site)] = ('st', None, ('slot',), slot[3])
                return [(st, ('ref', ('slot', site), (), True))]
            if slot[2] == ('slot',) and nm in ('push', 'push_back'):
                self.mapop(st, fr, m, k, 'push', (args[1][0],), site)
                return [(st, ('st', None, (site, 'unit'), ()))]
            if slot[2] == ('slot',) and nm == 'insert' and len(args) == 3:
                self.mapop(st, fr, m, k, 'put in order' if 'BTreeMap' in name else 'put in any order', (args[1][0], args[2][0]), site)
                return [(st, E.fresh(L, (site, 'old'), dty))] if isinstance(dty, int) else None
            self.mapop(st, fr, m, None, nm, (), site)
            return None
        pl, m = self.mapat(st, v)
        if m is None and self.ismap(v):
            return None
        if m is None:
            return None
        if nm == 'entry':
            return [(st, ('st', None, ('entry',), (('#k', args[1][0]), ('#m', pl))))]
        if nm == 'insert' and len(args) == 3:
            b = self.lst(st, args[2][0])
            gone = st.mem.pop(('absent', m[2]), None)
            if b is not None and b[2] == K(1) and gone is not None and self.where(st, gone) == self.where(st, args[1][0]):
                self.mapop(st, fr, pl, args[1][0], 'push', (self.item(st, b[0], b[1], site),), site)
            else:
                self.mapop(st, fr, pl, args[1][0], 'put', (args[2][0],), site)
            return [(st, E.fresh(L, (site, 'old'), dty))]
        if nm in ('deref', 'as_ref', 'borrow', 'deref_mut', 'as_mut'):
            return [(st, v)]
        if nm == 'get' and len(args) == 2 and isinstance(dty, int):
            return self.found(fr, st, m, args[1][0], site, dty)
        if nm == 'get_mut' and len(args) == 2 and isinstance(dty, int):
            s2 = st.copy()
            s2.mem[('slot', site)] = ('st', None, ('slot',), (('#k', args[1][0]), ('#m', pl)))
            st.mem[('absent', m[2])] = self.deref(st, args[1][0])
            return [(st, E.new_enum(st, dty, (site, 'gm', 0), 0, [])),
                    (s2, E.new_enum(s2, dty, (site, 'gm', 1), 1, [('0', ('ref', ('slot', site), (), True))]))]
        if nm in ('contains_key', 'len', 'is_empty', 'reserve', 'shrink_to_fit'):
            return [(st, E.fresh(L, (site, 'q'), dty))] if isinstance(dty, int) else None
        if v[0] == 'ref' and v[3]:
            self.mapop(st, fr, pl, None, nm, (), site)
        return None

    def empty(self, fr, st, f, nm, site):
        """a new collection"""
        if nm == 'or_insert':
            b = self.lst(st, f)
            return self.ismap(f) and f[3][0][1] == ('i', K(0)) or b is not None and b[2] == K(0)
        return f is not None and f[0] == 'fn' and bool(re.search(r'::(new|default)\b', self.fname(f))) or \
            f is not None and f[0] == 'clo' and all(self.empty(fr, s, v, 'or_insert', site) for s, v in self.E.invoke(
                fr, st.copy(), f, [], site + ('e',), None, {'ln': None, 'to': [0], 'k': 'call'}))

    def fname(self, f):
        t = self.L.T[f[1]] if isinstance(f[1], int) else {}
        return '%s %s' % (t.get('s', ''), t.get('path', ''))

    def found(self, fr, st, m, key, site, dty):
        """what a map holds under a key"""
        E = self.E
        r = self.complete(st, m)
        n = self.number(st, key)
        if r is None or n is None:
            return None
        if r[1] == 'push' and r[3] == ():
            lid = ('under', r[0], r[2], n)
            self.rows[lid] = self.rows[r[0]]
            s0, s1 = st.copy(), st
            out = []
            if E.add_fact(s0, size(lid).neg()):
                out.append((s0, E.new_enum(s0, dty, (site, 'get', 0), 0, [])))
            o = ('under', site)
            s1.mem[o] = ('seq', ('xl', lid, K(0)), size(lid), None)
            out.append((s1, E.new_enum(s1, dty, (site, 'get', 1), 1, [('0', ('ref', o, (), False))])))
            return out
        return self.held(fr, st, m, r, key, n, site, dty)

    def held(self, fr, st, m, r, key, n, site, dty):
        return None

    # ---------------------------------------------------------------- calls
    def more(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        f = E.local_fn(fr, callee)
        nm = name.rsplit('::', 1)[-1]
        if name.endswith('::iter_rows'):
            ti = self.rowtype(fr, callee, f)
            if ti is None:
                return None
            lid = ('rows', L.T[ti].get('path'), site)
            self.rows[lid] = ti
            it = self.slice(lid, K(0), size(lid), True, True)
            s2 = st.copy()
            return [(st, self.result(st, dty, site, True, it)), (s2, self.result(s2, dty, site, False))]
        if f is not None and f['key'] in self.rec:
            return self.recursive(fr, st, f, callee, args, site, dty, t)
        if nm in ('into_string', 'try_into', 'try_from') and len(args) == 1 and isinstance(dty, int) and L.T[dty].get('path') == 'core::result::Result':
            w = self.where(st, args[0][0])
            if w is not None:
                s2 = st.copy()
                x = ('op', ('text',) + w, None)
                return [(st, self.result(st, dty, site, True, x)), (s2, self.result(s2, dty, site, False))]
        if f is not None and nm not in ('clone',):
            return None
        if nm == 'box_assume_init_into_vec_unsafe' and site[0] == fr.id:
            v = st.mem.pop(('arr1', fr.id, site[1]), None)
            if v is None:
                return None
            lid = ('one', site) + self.salt(st)
            st.mem[('lel', lid, K(0))] = v
            return [(st, ('seq', ('xl', lid, K(0)), K(1), None))]
        m = FALL.search(name)
        if m and args:
            return self.fallible(fr, st, m.group(1), args, site, dty)
        if nm in ('clone', 'to_owned', 'cloned', 'copied') and len(args) == 1:
            v = args[0][0]
            x = self.deref(st, v)
            if v is not None and v[0] == 'ref' and x is not None and (self.where(st, x) is not None or x[0] == 'op' and
                                                                      isinstance(x[1], tuple) and x[1][0] == 'text'):
                return [(st, x)]
        r = self.maps(fr, st, nm, name, args, site, dty)
        if r is not None:
            return r
        return self.options(fr, st, nm, name, args, site, dty)

    def options(self, fr, st, nm, name, args, site, dty):
        """an Option as an iterator of at most one item"""
        E, L = self.E, self.L
        if not args or args[0][0] is None:
            return None
        v = args[0][0]
        ti = args[0][1]
        if v[0] == 'en' and nm in ('into_iter', 'iter') and isinstance(ti, int) and L.T[ti].get('path') == 'core::option::Option':
            out = []
            for vi in (0, 1):
                s = st.copy()
                if E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                    out.append((s, self.mk('opt', vi, **({'v': E.payload(L, v, 1, '0')} if vi else {}))))
            return out
        if v[0] == 'en' and isinstance(ti, int) and L.T[ti].get('path') == 'core::option::Option' and nm in ('map', 'unwrap_or_default'):
            out = []
            for vi in (0, 1):
                s = st.copy()
                if not E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                    continue
                x = E.payload(L, v, 1, '0') if vi else None
                if vi and self.lst(s, x) is None:
                    return None
                if nm == 'map':
                    f = args[1][0]
                    if f[0] != 'fn' or not re.search(r'::(as_slice|deref|as_ref|borrow|iter)\b', self.fname(f)):
                        return None
                    if vi and self.fname(f).rstrip().endswith('iter'):
                        x = self.slice(*self.source(s, x))
                    out.append((s, E.new_enum(s, dty, (site, 'om', vi), vi, [('0', x)] if vi else [])))
                else:
                    if not vi:
                        s.mem[('none', site)] = ('seq', ('xl', ('none',), K(0)), K(0), None)
                        x = ('ref', ('none', site), (), False)
                    out.append((s, x))
            return out
        if v[0] == 'st' and isinstance(v[2], tuple) and v[2][:2] == ('xi', 'opt'):
            some = v[2][2]
            if nm in ('flat_map', 'map', 'flatten', 'cloned', 'copied'):
                if not some:
                    return [(st, v if nm in ('map', 'cloned', 'copied') else self.slice(('none',), K(0), K(0)))]
                x = self.get(v, 'v')
                outs = [(st, x)] if nm not in ('map', 'flat_map') else E.invoke(
                    fr, st, args[1][0], [x], site + ('f',), None, {'ln': None, 'to': [0], 'k': 'call'})
                out = []
                for s, y in outs:
                    if nm in ('flat_map', 'flatten'):
                        if not self.isx(y):
                            sr = self.source(s, y)
                            if sr is None:
                                return None
                            y = self.slice(*sr)
                    else:
                        y = self.mk('opt', 1, v=y)
                    out.append((s, y))
                return out
        if nm in ('iter', 'into_iter') and self.source(st, v) is None:
            x = self.deref(st, v)
            if x is not None and x[0] == 'seq' and x[2] == K(0):
                return [(st, self.slice(('none',), K(0), K(0)))]
        return None

    def rowtype(self, fr, callee, f):
        if f is not None:
            for n, x in self.E.make_subst(fr, callee, f).items():
                if isinstance(x, int) and self.L.T[x].get('k') == 'adt' and n not in ('R', 'Self') and 'Row' in n:
                    return x
        for x in reversed((callee.get('rargs') or callee.get('args') or [])):
            if isinstance(x, int) and self.L.T[x].get('k') == 'adt':
                return x
        return None

    def recursive(self, fr, st, f, callee, args, site, dty, t):
        return None

    def fail(self, key, msg):
        self.bad[key] = msg


class Tree(Tables):
    """the walk that makes the tree"""
    def recursive(self, fr, st, f, callee, args, site, dty, t):
        E, L = self.E, self.L
        ids = [i for i, (a, ti) in enumerate(args) if isinstance(ti, int) and L.T[ti].get('path', '').endswith('NodeId')]
        res = isinstance(dty, int) and L.T[dty].get('path') == 'core::result::Result'
        n = self.number(st, args[ids[0]][0]) if len(ids) == 1 else None
        if n is None:
            self.fail('walk', 'the recursive walk is not given one id')
            return None
        if f['key'] not in self.active:
            vals = [a for a, _ in args]
            vals[ids[0]] = E.fresh(L, ('the id',), args[ids[0]][1])
            for j, (a, ti) in enumerate(args):      # anything that counts or remembers
                if isinstance(ti, int) and L.T[ti]['k'] == 'int':
                    vals[j] = E.fresh(L, ('the number', j), ti)
            the = self.number(st, vals[ids[0]])
            self.active.append(f['key'])
            r = E.try_inline(fr, st.copy(), f, vals, site, E.make_subst(fr, callee, f), t)
            self.active.pop()
            good = 0
            for s, v in r or ():
                if res:
                    if v is None or v[0] != 'en':
                        self.fail('walk', 'what the walk gives is not understood')
                        continue
                    if not E.assume(s, ('isv', v[2], (0,), (0, 1))):
                        continue
                    v = E.payload(L, v, 0, '0')
                good += 1
                self.result_ok(s, v, the)
            self.walks[f['path']] = good
        y = ('seq', ('xl', ('children', n), K(0)), V(sym((site, 'children'), 0, BIG)), None)
        if not res:
            return [(st, y)]
        s2 = st.copy()
        return [(st, self.result(st, dty, site, True, y)), (s2, self.result(s2, dty, site, False))]

    def result_ok(self, s, v, the):
        b = self.lst(s, v)
        if b is None:
            return self.fail('walk', 'what the walk gives is not known item by item')
        lid, off, ln = b
        p = self.pat.get(lid) if not self.changed(s, lid) else None
        if lists.eq(s, ln, K(0)):
            ok = any(k[0] == 'under' and k[1][1].endswith('PlaylistTreeNode') and lists.eq(s, k[3], the) and lists.eq(s, size(k), K(0))
                     for k in self.rows)
            if not ok:
                self.fail('walk', 'the walk gives nothing although there may be rows under the id')
            return
        if p is None or p[0] != 'op' or p[1][0] != 'node of':
            return self.fail('walk', 'the walk gives items that are not made of the rows under its id')
        src = p[1][1]
        if src[0] != 'under' or not lists.eq(s, src[3], the):
            return self.fail('walk', 'the walk gives nodes of another id than its own')
        if src[2] != ('parent_id',):
            return self.fail('walk', 'the walk takes rows by %s, not by their parent' % (src[2],))
        if not lists.eq(s, ln, size(src)):
            return self.fail('walk', 'the walk does not give one item for every row under its id')

    def pattern(self, st, v, n):
        if v is not None and v[0] == 'en' and isinstance(v[1], int) and self.L.T[v[1]].get('path', '').endswith('PlaylistNode'):
            src = self.node(st, v, n)
            return ('op', ('node of', src), None) if src is not None else None
        return super().pattern(st, v, n)

    def node(self, st, v, n):
        """the rows that item n is made of"""
        E, L = self.E, self.L
        vs = st.vars.get(v[2])
        a = self.L.adts.get(L.T[v[1]]['path'])
        if vs is None or len(vs) != 1:
            return self.fail('node', 'it is not known whether a node is a folder or a playlist')
        vi = next(iter(vs))
        kind = a['variants'][vi]['n']
        x = self.deref(st, E.payload(L, v, vi, '0'))
        if x is None or x[0] != 'st':
            return self.fail('node', 'a node is not understood')
        fs = {}
        ad = self.L.adts.get(L.T[x[1]]['path']) if x[1] is not None else None
        for fd in ad['variants'][0]['f'] if ad else ():
            fs[fd['n']] = E.field(L, x, fd['n'], None)
        wid = self.where(st, fs.get('id'))
        if wid is None or wid[2] != ('id',):
            return self.fail('node:%s:id' % kind, 'a %s does not have the id of its row' % kind)
        lid, i = wid[:2]
        if not lists.eq(st, i, n):
            return self.fail('node:%s:place' % kind, 'item number n of a folder is not made of row number n')
        name = fs.get('name')
        if name is None or name[0] != 'op' or name[1][:2] != ('text', lid) or not lists.eq(st, name[1][2], i) or name[1][3] != ('name',):
            return self.fail('node:%s:name' % kind, 'a %s does not have the name of its row' % kind)
        flag = E.fresh(L, (('at', lid[0], lid, i), 'node_is_folder'), self.flagty)
        want = 'Folder' if st.F.entails(flag[1].addc(-1)) else 'Playlist' if lists.eq(st, flag[1], K(0)) else None
        if want != kind:
            return self.fail('node:%s:kind' % kind, 'a row becomes a %s although it is not known to be one' % kind)
        for k, y in fs.items():
            if k in ('id', 'name'):
                continue
            b = self.lst(st, y)
            if k == 'children' and b is not None and b[0][0] == 'children' and not self.changed(st, b[0]) and lists.eq(st, b[0][1], self.number(st, fs['id'])):
                continue
            return self.fail('node:%s:%s' % (kind, k), 'the %s of a %s are not what stands under its id' % (k, kind))
        self.nodes[kind] = self.nodes.get(kind, 0) + 1
        return lid


def recursive_fns(cr, E):
    adj = {}
    for f in cr.fns:
        ks = adj.setdefault(f['key'], set())
        if f['kind'] == 'closure':
            adj.setdefault(f['key'].rsplit('::{closure', 1)[0], set()).add(f['key'])
        for b in f.get('blocks', ()):
            c = cg.callee(cr, b['t'])
            if c is not None:
                g = E.local_fn(type('F', (), {'cr': cr})(), c)
                if g is not None:
                    ks.add(g['key'])
    return {k for s in cg.sccs(list(adj), lambda k: [x for x in adj.get(k, ()) if x in adj]) for k in s
            if len(s) > 1 or k in adj.get(k, ())}


def tree(ctx):
    L = ctx.lib
    f = ctx.fn('device::get_playlists')
    X = Tree(ctx, L)
    X.nodes = {}
    E = X.E
    X.rec = {k for k in recursive_fns(L, E) if L.by_key[k]['kind'] != 'closure'}
    row = ctx.adt('pdb::PlaylistTreeNode', L)
    fl = [x for x in row['variants'][0]['f'] if x['n'] == 'node_is_folder']
    ctx.need(fl, 'the flag of a folder row')
    X.flagty = fl[0]['t']
    sts, fr = E.paths(f, lambda *a: None, 'c18')
    good = 0
    at = '%s:%s (%s)' % (f['file'], f['ln'], f['path'])
    for s in sts:
        v = s.mem.get((fr.id, 0))
        if v is None or v[0] != 'en':
            ctx.ob(False, 'result', at, 'what is returned is not understood')
            continue
        if not E.assume(s, ('isv', v[2], (0,), (0, 1))):
            continue
        b = X.lst(s, E.payload(L, v, 0, '0'))
        good += 1
        ctx.ob(b is not None and b[0][0] == 'children' and not X.changed(s, b[0]) and lists.eq(s, b[0][1], K(0)), 'root', at,
               'the tree that is returned is not what stands under the id 0', 'the tree is what stands under id 0')
    ctx.floor('paths that give a tree', good, 1)
    for m, rs in X.rules.items():
        for r in rs:
            ctx.ob(r[0] in X.rows and r[1:] == ('push', ('parent_id',), ()), 'map:%s' % (r[1],), at,
                   'the rows are not put under their parent one after the other: %s' % (r[1:],), 'every row is put under its parent')
    ctx.floor('maps that are filled', len(X.rules), 1)
    for k, msg in X.bad.items():
        ctx.ob(False, k, at, msg)
    ctx.floor('walks', sum(X.walks.values()), 1)
    for k in ('Folder', 'Playlist'):
        ctx.ob(X.nodes.get(k, 0) > 0, 'kind:%s' % k, at, 'no %s is ever made' % k, 'nodes of kind %s' % k)


def run(ctx):
    tree(ctx)
