"""Lists whose items are known as a function of their place.  A list is ('seq', ('xl', id, first), length, None); what it holds is
a pattern: an abstract value in which the place of the item is a variable.  A list that is collected, mapped, pushed or stored
item by item is known when every item fits one pattern at its own place; loops over places are closed by a fixpoint."""
import re
import engine
import iters
from dom import K, V, sym, SYM, Lin, Facts

HERE = V(sym(('place of the item',), 0, 1 << 48))
NONE = ('nothing',)


def eq(st, a, b):
    return a is not None and b is not None and st.F.entails(a.sub(b)) and st.F.entails(b.sub(a))


def at(kind, lid, i):
    return ('at', kind, lid, i)


def remap(x, f):
    """the same with every place i replaced by f(i)"""
    if isinstance(x, Lin):
        r = K(x.c)
        for s, c in x.t:
            k, lo, hi, deps = SYM[s]
            k2 = remap(k, f)
            if k2 != k:
                s = sym(k2, lo, hi, tuple(sorted(places(k2))))
            r = r.add(V(s).scale(c))
        return r
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'at' and isinstance(x[3], Lin):
            return ('at', x[1], x[2], f(x[3]))
        y = tuple(remap(z, f) for z in x)
        return y if any(a is not b for a, b in zip(x, y)) else x
    return x


def places(k):
    if isinstance(k, Lin):
        return set(k.syms())
    if isinstance(k, tuple):
        return set().union(*[places(z) for z in k]) if k else set()
    return set()


def tag_of(v):
    """the ('at', ...) that an opaque value or a number is"""
    if v is None:
        return None
    k = v[1] if v[0] == 'op' else None
    if v[0] == 'i' and v[1].c == 0 and len(v[1].t) == 1 and v[1].t[0][1] == 1:
        k = SYM[v[1].t[0][0]][0]
    return k if isinstance(k, tuple) and len(k) == 4 and k[0] == 'at' else None


def merge(q, p):
    if q == p:
        return q
    if q[0] in ('#en', '#alt') and p[0] in ('#en', '#alt') and q[1] == p[1]:
        d = dict(q[2] if q[0] == '#alt' else ((q[2], q[3]),))
        for vi, fs in (p[2] if p[0] == '#alt' else ((p[2], p[3]),)):
            if vi in d:
                o = d[vi]
                if len(o) != len(fs):
                    return None
                out = []
                for (n, a), (_, b) in zip(o, fs):
                    m = merge(a, b)
                    if m is None:
                        return None
                    out.append((n, m))
                fs = tuple(out)
            d[vi] = fs
        return ('#alt', q[1], tuple(sorted(d.items()))) if len(d) > 1 else ('#en', q[1]) + next(iter(d.items()))
    if q[0] == 'op' and p[0] == 'op' and not (tag_of(q) or tag_of(p)):
        return ('op', ('?',), q[2])
    return None


class Lists(iters.Iters):
    def __init__(self, crates, L):
        E = engine.Engine(crates)
        super().__init__(E, L)
        E.split = E.split_loops = E.keep_errs = True
        E.cr = L
        Facts.EQ = True
        E.MAXDEPTH = max(E.MAXDEPTH, 12)
        E.intercept = self.intercept
        E.hooks['elem'] = self.load_elem
        E.hooks['elstore'] = self.elstore
        E.hooks['store'] = self.store
        E.hooks['repeat'] = self.repeat
        self.pat = {}          # list -> pattern of the items from done on
        self.new = {}          # list -> pattern of the items below done

    # ---------------------------------------------------------------- patterns
    def abstract_int(self, st, n, x):
        """a number that item n has for a reason the rule knows: its pattern"""
        return None

    def pattern(self, st, v, n):
        """the value with the place n made variable; None if it is not a function of the place"""
        E, L = self.E, self.L
        if v is None:
            return None

        def f(i):
            return HERE if eq(st, i, n) else i
        if v[0] == 'en':
            vs = st.vars.get(v[2])
            vi = next(iter(vs)) if vs is not None and len(vs) == 1 else None
            if vi is None:
                return None
            fs = []
            for nm in self.variant_fields(v[1], vi):
                p = self.pattern(st, E.payload(L, v, vi, nm), n)
                if p is None:
                    return None
                fs.append((nm, p))
            return ('#en', v[1], vi, tuple(fs))
        if v[0] == 'st':
            fs = []
            for nm, x in v[3]:
                p = self.pattern(st, x, n)
                if p is None:
                    return None
                fs.append((nm, p))
            return ('#st', v[1], remap(v[2], f), tuple(fs))
        if v[0] == 'i':
            p = self.abstract_int(st, n, v[1])
            return ('i', p) if p is not None else remap(v, f)
        if v[0] == 'ref':
            if isinstance(v[1], tuple) and v[1][0] == 'at':
                return remap(v, f)
            p = self.pattern(st, E.load(st, L, v[1], v[2]), n)
            return ('#ref', p) if p is not None else None
        if v[0] in ('op', 'fn', 'unit'):
            return remap(v, f)
        if v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xl':
            return remap(v, f)
        return None

    def variant_fields(self, ti, vi):
        p = self.L.T[ti].get('path', '')
        if p == 'core::option::Option':
            return ['0'] if vi == 1 else []
        if p in ('core::result::Result', 'core::ops::control_flow::ControlFlow') or p.endswith('SeekFrom'):
            return ['0']
        a = self.L.adts.get(p)
        return [f['n'] for f in a['variants'][vi]['f']] if a else []

    def value(self, st, p, i, site):
        """item number i of a list with this pattern"""
        if p is None:
            return None
        if p[0] == '#en':
            return self.E.new_enum(st, p[1], (site, 'it', repr(p)[:60]), p[2], [(n, self.value(st, x, i, site + (n,))) for n, x in p[3]])
        if p[0] == '#alt':
            eid = (site, 'alt')
            st.vars[eid] = frozenset(vi for vi, _ in p[2])
            for k in [k for k in st.defer if k[0] == eid]:
                del st.defer[k]
            fs = [((vi, n), self.value(st, x, i, site + (vi, n))) for vi, f in p[2] for n, x in f]
            return ('en', p[1], eid, eid, tuple(sorted(fs, key=str)))
        if p[0] == '#st':
            return ('st', p[1], remap(p[2], lambda j: i if j == HERE else j), tuple((n, self.value(st, x, i, site + (n,))) for n, x in p[3]))
        if p[0] == '#ref':
            o = ('itm', site)
            st.mem[o] = self.value(st, p[1], i, site + ('*',))
            return ('ref', o, (), False)
        return remap(p, lambda j: i if j == HERE else j)

    def merged(self, table, lid, p):
        """one more pattern for the items of a list; False if they do not fit together"""
        q = table.get(lid)
        r = p if q is None else merge(q, p)
        if r is not None:
            table[lid] = r
        return r is not None

    # ---------------------------------------------------------------- lists
    def repeat(self, E, st, fr, v, n, site):
        p = self.pattern(st, v, K(-1))
        dt = E._dst_ty(st, fr, site)
        x = E.fresh(self.L, (site, 'rep'), dt) if dt is not None else None
        if x is None or x[0] != 'seq':
            return None
        return self.make(st, ('rep', site) + self.salt(st), x[2], p if p is not None else ('op', ('?', site), None))

    def make(self, st, lid, n, pat):
        st.mem[('ldone', lid)] = ('i', K(0))
        self.pat[lid] = pat
        return ('seq', ('xl', lid, K(0)), n, None)

    def lst(self, st, v):
        """(list, first, length)"""
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        if v is not None and v[0] == 'st' and v[3] and len(v[3]) == 1 and v[3][0][0] == '#list':
            v = v[3][0][1]
        if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xl':
            return v[1][1], v[1][2], v[2]
        return None

    def done(self, st, lid):
        v = st.mem.get(('ldone', lid))
        return K(0) if v is None else v[1] if v[0] == 'i' else None

    def now(self, st, lid, i):
        """pattern of what a list holds at a place"""
        for k, v in st.mem.items():
            if k[0] == 'lel' and k[1] == lid and eq(st, k[2], i):
                return v, False
        d = self.done(st, lid)
        if d is not None and st.F.entails(i.sub(d)):
            return self.pat.get(lid), True
        if d is not None and st.F.entails(d.sub(i).addc(-1)):
            return self.new.get(lid), True
        return None, True

    def item(self, st, lid, i, site):
        self.E.add_fact(st, i)          # places are not negative
        p, ispat = self.now(st, lid, i)
        if not ispat:
            return p
        v = self.value(st, p, i, site)
        return v if v is not None else ('op', ('item?', lid, site), None)

    def source(self, st, v):
        b = self.lst(st, v)
        if b is None:
            return None
        return b[0], b[1], b[1].add(b[2]), v[0] == 'ref', v[0] == 'ref' and v[3]

    def elem(self, st, src, i, mut, site):
        o = ('lel', src, i)
        st.mem[o] = self.item(st, src, i, site)
        return ('ref', o, (), mut)

    def item_of_list(self, st, src, i, site):
        return self.item(st, src, i, site)

    def load_elem(self, E, v, idx, e):
        if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xl' and idx is not None and E.ldst is not None:
            return self.item(E.ldst, v[1][1], v[1][2].add(idx), ('le', e[1]))
        return None

    def written(self, st, lid, i, val):
        d = self.done(st, lid)
        p = self.pattern(st, val, i)
        if d is None or p is None:
            st.mem[('ldone', lid)] = ('op', ('lost',), None)
            return
        if eq(st, i, d):
            if not self.merged(self.new, lid, p):
                st.mem[('ldone', lid)] = ('op', ('lost',), None)
            else:
                st.mem[('ldone', lid)] = ('i', d.addc(1))
        elif eq(st, i, d.addc(-1)):
            # once more: the last place again
            if self.new.get(lid) != p:
                self.new[lid] = p if lid not in self.frozen else None
        else:
            st.mem[('ldone', lid)] = ('op', ('lost',), None)
    frozen = ()

    def store(self, E, st, root, proj, val):
        if root[0] == 'lel':
            if not proj:
                self.written(st, root[1], root[2], val)
            else:
                st.mem[('ldone', root[1])] = ('op', ('lost',), None)

    def elstore(self, E, st, root, proj, idx, val):
        v = E.load(st, self.L, root, proj)
        if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xl':
            if idx is None:
                st.mem[('ldone', v[1][1])] = ('op', ('lost',), None)
            else:
                self.written(st, v[1][1], v[1][2].add(idx), val)

    # ---------------------------------------------------------------- collecting
    def collecting(self, st, site):
        st.mem[('coll', site)] = ('fn', True)

    def item_out(self, st, site, n, item):
        p = self.pattern(st, item, n) if n is not None else None
        if p is None or not self.merged(self.pat, ('coll', site), p):
            st.mem[('coll', site)] = ('fn', False)

    def collected(self, fr, st, site, dty, n, acc):
        lid = ('coll', site)
        if n is None or st.mem.get(lid) != ('fn', True):
            return None
        return self.make(st, lid, n, self.pat.get(lid, NONE))

    def more(self, fr, st, name, callee, args, site, dty, t):
        return None

    def intercept(self, fr, st, name, callee, args, site, dty, t):
        r = self.more(fr, st, name, callee, args, site, dty, t)
        if r is not None:
            return r
        if args and args[0][0] is not None:
            nm = name.rsplit('::', 1)[-1]
            if nm == 'map' and name.startswith('core::array') and len(args) > 1:
                sr = self.source(st, args[0][0])
                if sr is not None:
                    return self.call(fr, st, 'core::iter::traits::iterator::Iterator::collect', callee,
                                     [(self.mk('map', **{'in': self.slice(sr[0], sr[1], sr[2], False), 'f': args[1][0]}), None)],
                                     site, dty, t)
        r = self.call(fr, st, name, callee, args, site, dty, t)
        if r is not None:
            return r
        nm = name.rsplit('::', 1)[-1]
        if nm in ('new', 'with_capacity', 'default') and isinstance(dty, int) and self.L.T[dty].get('path') == 'alloc::vec::Vec':
            return [(st, self.make(st, ('new', site) + self.salt(st), K(0), None))]
        if not args or args[0][0] is None:
            return None
        E, L = self.E, self.L
        b = self.lst(st, args[0][0])
        if b is None:
            return None
        lid, off, ln = b
        if nm in ('as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'each_ref'):
            return [(st, args[0][0])]
        if nm == 'clone':
            v = args[0][0]
            while v[0] == 'ref':
                v = E.load(st, L, v[1], v[2])
            return [(st, v)]
        if nm in ('try_into', 'try_from') and isinstance(dty, int):
            v = args[0][0]
            while v[0] == 'ref':
                v = E.load(st, L, v[1], v[2])
            return [(st, E.new_enum(st, dty, (site, 'ti'), 0, [('0', v)]))]
        if nm == 'len':
            return [(st, ('i', ln))]
        if nm in ('index', 'get') and len(args) > 1 and args[1][0] is not None and args[1][0][0] == 'st' and args[1][0][1] is not None:
            rt = L.T[args[1][0][1]].get('path', '')
            a, b = E.field(L, args[1][0], 'start', None), E.field(L, args[1][0], 'end', None)
            if rt.endswith('RangeFrom'):
                b = ('i', ln)
            elif rt.endswith('RangeTo'):
                a = ('i', K(0))
            elif not rt.endswith('Range'):
                return None
            if a is None or b is None or a[0] != 'i' or b[0] != 'i':
                return None
            if not st.F.entails(b[1].sub(a[1])) or not st.F.entails(ln.sub(b[1])) or nm == 'get':
                return None
            o = ('lslice', site)
            st.mem[o] = ('seq', ('xl', lid, off.add(a[1])), b[1].sub(a[1]), None)
            return [(st, ('ref', o, (), False))]
        if nm == 'push' and len(args) > 1 and args[0][0][0] == 'ref':
            pl = args[0][0]
            while True:
                x = E.load(st, L, pl[1], pl[2])
                if x is None or x[0] != 'ref':
                    break
                pl = x
            p = self.pattern(st, args[1][0], ln)
            if p is None or not self.merged(self.pat, lid, p):
                E.store(st, fr, pl[1], pl[2], ('op', ('unknown list', site), None), site)
            else:
                E.store(st, fr, pl[1], pl[2], ('seq', ('xl', lid, off), ln.addc(1), None), site)
            return [(st, ('st', None, (site, 'unit'), ()))]
        return None
