"""Iterating over the rows of a table.  find_table is followed over the list of tables with a counter: table number i is compared
with the wanted type as operation number i, the answer is the table the comparison has just held for, and None is possible only
when all have been compared.  iter_pages and iter_pages_for_table build their iterator from exactly that table.  iter_rows is
read as a chain of adapters over the pages of the table of the row type: a page in each of its states and a row of such a page
are sent down the chain, and what comes out is compared with the rows of the page, each once and in their order."""
import re
import engine
import lists
from dom import K, V, sym
from rules import c18

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR: counted comparisons over the list of tables; symbolic pages and rows sent down the adapter chain'
NOTE = ('All databases, table lists, pages and rows. How the pages of a table are linked and read is C24, which slots of a page hold '
        'rows is C14, which row is of which kind is C10.')
ASSUMPTIONS = ['the adapters of Iterator and FallibleIterator, and BTreeMap, behave as documented']
PT = 'pdb::PageType'
ITN = 'pdb::io::PageIterator'
TAB = ('tab',)
FALL = re.compile(r'fallible_iterator::(?:IntoFallibleIterator|FallibleIterator|IteratorExt|DoubleEndedFallibleIterator)'
                  r'(?:<[^>]*>)?(?:>)?::(\w+)$|fallible_iterator::(convert)$')
STD = re.compile(r'(?:Iterator|IntoIterator|DoubleEndedIterator)(?:<[^>]*>)?(?: for [^>]*(?:<[^>]*>)?)?>?::(\w+)$|iter::traits::\w+::\w+::(\w+)$')
MAPIT = re.compile(r'BTreeMap(?:::)?<.*>::(\w+)$|btree::map::BTreeMap::(\w+)$|<.*BTreeMap<.*> as core::iter.*>::(\w+)$')


def run(ctx):
    L = ctx.lib
    equality(ctx, L)
    tables(ctx, L)
    pages(ctx, L)
    rows(ctx, L)


def tyof(L, v):
    return L.T[v[1]].get('path') if v is not None and v[0] in ('st', 'en') and v[1] is not None else None


# ------------------------------------------------------------------------------------------------- which table
class Find(c18.Tables):
    """tables are compared in their order; ('#cmp',) counts those that have been found different"""
    def more(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        nm = name.rsplit('::', 1)[-1]
        if nm in ('eq', 'ne') and len(args) == 2:
            a, b = (self.deref(st, x[0]) for x in args)
            if tyof(L, a) == PT and tyof(L, b) == PT:
                ws = [self.where(st, x) for x in (a, b)]
                ws = [w for w in ws if w is not None and w[0] == TAB and w[2] == ('page_type',)]
                if len(ws) != 1 or self.wanted not in (a, b):
                    return None
                i = ws[0][1]
                out = []
                for same in (True, False):
                    s = st.copy()
                    if same:
                        s.mem[('hit',)] = ('i', i)
                    else:
                        c = s.mem.get(('cmp',))
                        ok = c is not None and c[0] == 'i' and lists.eq(s, c[1], i)
                        s.mem[('cmp',)] = ('i', c[1].addc(1)) if ok else ('op', ('lost',), None)
                    out.append((s, ('b', ('c', same == (nm == 'eq')))))
                return out
        if nm in ('find', 'position', 'find_map', 'any') and len(args) == 2 and isinstance(dty, int) and \
                self.find(st, args[0][0])[1] is not None:
            cnt = ('fpos', site)
            st = st.copy()
            st.mem[cnt] = ('i', K(0))

            def body(s, item):
                arg = item
                if nm == 'find':
                    o = ('farg', site)
                    s.mem[o] = item
                    arg = ('ref', o, (), False)
                out = []
                for s2, v in E.invoke(fr, s, args[1][0], [arg], site + ('fd',), None, {'ln': None, 'to': [0], 'k': 'call'}):
                    for yes in (True, False):
                        q = s2.copy()
                        if nm == 'find_map':
                            if v is None or v[0] != 'en' or not E.assume(q, ('isv', v[2], (int(yes),), (0, 1))):
                                continue
                            end = E.payload(L, v, 1, '0') if yes else None
                        else:
                            if v is None or v[0] != 'b' or not E.assume(q, v[1], yes):
                                continue
                            end = q.mem.get(cnt) if nm == 'position' else ('b', ('c', True)) if nm == 'any' else item
                        c = q.mem.get(cnt)
                        if c is not None and c[0] == 'i':
                            q.mem[cnt] = ('i', c[1].addc(1))
                        out.append((q, end if yes else None))
                return out
            r = self.drive(fr, st, args[0][0], site, body)
            if r is None:
                return None
            out = []
            for s, _, end in r:
                s.mem.pop(cnt, None)
                if nm == 'any':
                    out.append((s, ('b', ('c', end is not None))))
                    continue
                vi = 1 if end is not None else 0
                out.append((s, E.new_enum(s, dty, (site, 'fd', vi), vi, [('0', end)] if vi else [])))
            return out
        if nm in ('get', 'get_mut', 'index', 'index_mut') and len(args) == 2 and args[1][0] is not None and args[1][0][0] == 'i':
            b = self.lst(st, args[0][0])
            if b is not None and b[0] == TAB:
                i = args[1][0][1]
                some = self.elem(st, b[0], b[1].add(i), 'mut' in nm, site)
                if nm.startswith('index'):
                    return [(st, some)]
                out = []
                for vi in (1, 0):
                    s = st.copy()
                    if E.assume(s, engine.cge(b[2].sub(i).addc(-1)), bool(vi)):
                        out.append((s, E.new_enum(s, dty, (site, 'tg', vi), vi, [('0', some)] if vi else [])))
                return out
        return super().more(fr, st, name, callee, args, site, dty, t)

    def header(self, st, ti):
        """a header with any list of tables"""
        E, L = self.E, self.L
        v = E.fresh(L, ('header',), ti)
        vt = [f['t'] for f in L.adts[L.T[ti]['path']]['variants'][0]['f'] if f['n'] == 'tables'][0]
        self.rows[TAB] = L.T[vt]['args'][0]
        st.mem[('cmp',)] = ('i', K(0))
        self.n = V(sym(('tables',), 0, 1 << 32))
        return ('st', v[1], v[2], tuple(sorted([x for x in v[3] if x[0] != 'tables'] + [('tables', ('seq', ('xl', TAB, K(0)), self.n, None))])))

    def chosen(self, st, v):
        """the place of the table this is"""
        w = self.where(st, v)
        return w[1] if w is not None and w[0] == TAB and w[2] == () else None


def strip(L, ti):
    while L.T[ti]['k'] == 'ref':
        ti = L.T[ti]['t']
    return ti


def equality(ctx, L):
    """page types are equal exactly if they are the same"""
    f = ctx.fn('<pdb::PageType as core::cmp::PartialEq>::eq')
    E = engine.Engine(ctx.crates)
    E.split = True
    a = ctx.adt(PT)
    leaves = []
    for vi, v in enumerate(a['variants']):
        sub = L.adts.get(L.T[v['f'][0]['t']].get('path')) if v['f'] else None
        leaves += [(vi, si) for si in (range(len(sub['variants'])) if sub and sub['kind'] == 'enum' else [None])]
    ctx.floor('page types', len(leaves), 15)
    w = ctx.where(f)
    pairs = [(x, y, m) for x in leaves for y in leaves
             for m in ((0, 1, -1) if x == y and x[1] is None and a['variants'][x[0]]['f'] else (0,))]
    for x, y, m in pairs:
        nums = []

        def init(E_, st, fr, j, ti):
            ti = strip(L, ti)
            vi, si = (x, y)[j]
            fl = a['variants'][vi]['f']
            fields = []
            if fl and si is not None:
                fields = [(fl[0]['n'], E_.new_enum(st, fl[0]['t'], ('s', j), si, []))]
            elif fl:
                p = nums[0] if nums and x == y and m == 0 else E_.fresh(L, ('num', j), fl[0]['t'])
                if nums and m:          # one is larger than the other
                    E_.add_fact(st, p[1].sub(nums[0][1]).scale(m).addc(-1))
                nums.append(p)
                fields = [(fl[0]['n'], p)]
            st.mem[('pt', j)] = E_.new_enum(st, ti, ('t', j), vi, fields)
            return ('ref', ('pt', j), (), False)
        sts, fr = E.paths(f, init, ('c20eq', x, y, m))
        key, same = 'equal:%s:%s:%d' % (x, y, m), x == y and m == 0
        for st in sts:
            v = st.mem.get((fr.id, 0))
            for b in (True, False):
                s = st.copy()
                if v is not None and v[0] == 'b' and E.assume(s, v[1], b):
                    ctx.ob(same is b, key, w, 'page types that are the same are not equal' if same else 'page types that are not the same are equal')
            ctx.ob(v is not None and v[0] == 'b', key, w, 'it is not known whether page types are equal')
        ctx.ob(sts, key, w, 'page types are never compared')


def tables(ctx, L):
    n = 0
    for nm in ('find_table', 'find_table_mut'):
        f = ctx.fn('pdb::Header::' + nm)
        T = Find(ctx, L)
        E = T.E

        def init(E_, st, fr, j, ti):
            if j == 0:
                st.mem[('hd',)] = T.header(st, strip(L, ti))
                return ('ref', ('hd',), (), nm.endswith('mut'))
            T.wanted = E_.fresh(L, ('wanted',), ti)
            return T.wanted
        sts, fr = E.paths(f, init, 'c20' + nm)
        w = ctx.where(f)
        seen = set()
        for st in sts:
            v = st.mem.get((fr.id, 0))
            for vi in (0, 1):
                s = st.copy()
                if v is None or v[0] != 'en' or not E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                    continue
                seen.add(vi)
                c, hit = s.mem.get(('cmp',)), s.mem.get(('hit',))
                c = c[1] if c is not None and c[0] == 'i' else None
                if vi == 0:
                    ctx.ob(c is not None and hit is None and lists.eq(s, c, T.n), nm + ':none', w,
                           '%s answers that there is no such table before all tables have been compared' % nm,
                           nm + ': None only after all tables')
                    continue
                p = E.payload(L, v, 1, '0')
                i = T.number(s, E.field(L, p, 0, None)) if p is not None and p[0] == 'st' else None
                tb = T.chosen(s, E.field(L, p, 1, None)) if i is not None else None
                ok = hit is not None and hit[0] == 'i' and i is not None and tb is not None and lists.eq(s, tb, hit[1]) and \
                    lists.eq(s, i, hit[1]) and c is not None and lists.eq(s, c, hit[1])
                ctx.ob(ok, nm + ':some', w, '%s does not answer with the first table of the type and its number' % nm,
                       nm + ': the first table of the type, with its number')
                n += 1
            ctx.ob(v is not None and v[0] == 'en', nm + ':answer', w, 'the answer of %s is not known' % nm)
        ctx.ob(seen == {0, 1}, nm + ':both', w, '%s %s' % (nm, 'never finds a table' if 1 not in seen else 'always finds a table'))
    ctx.floor('ways to find a table', n, 2)


# ------------------------------------------------------------------------------------------------- the pages of it
def pages(ctx, L):
    for nm in ('iter_pages', 'iter_pages_for_table'):
        f = ctx.need([f for f in L.fns if f['path'].startswith('pdb::io::Database::<') and f.get('name') == nm and 'blocks' in f],
                     'Database::' + nm)[0]
        T = Find(ctx, L)
        E = T.E

        def init(E_, st, fr, j, ti):
            if j == 0:
                ti = strip(L, ti)
                v = E_.fresh(L, ('database',), ti)
                c = E_.field(L, v, 'content', None)
                h = E_.field(L, c, 'header', None)
                put = lambda x, k, y: ('st', x[1], x[2], tuple(sorted([z for z in x[3] if z[0] != k] + [(k, y)])))
                st.mem[('db',)] = put(v, 'content', put(c, 'header', T.header(st, h[1])))
                return ('ref', ('db',), (), True)
            T.wanted = E_.fresh(L, ('wanted',), ti)
            return T.wanted
        sts, fr = E.paths(f, init, 'c20' + nm)
        w = ctx.where(f)
        seen = set()
        for st in sts:
            v = st.mem.get((fr.id, 0))
            for vi in (0, 1):
                s = st.copy()
                if v is None or v[0] != 'en' or not E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                    continue
                seen.add(vi)
                c, hit = s.mem.get(('cmp',)), s.mem.get(('hit',))
                c = c[1] if c is not None and c[0] == 'i' else None
                byty = nm == 'iter_pages'
                if vi == 1:
                    if byty:
                        ok = c is not None and hit is None and lists.eq(s, c, T.n)
                    else:
                        i = T.number(s, T.wanted)
                        ok = i is not None and s.F.entails(i.sub(T.n))
                    ctx.ob(ok, nm + ':refused', w, '%s fails although there is such a table' % nm, nm + ' fails only without a table')
                    continue
                it = E.payload(L, v, 0, '0')
                want = hit[1] if byty and hit is not None and hit[0] == 'i' else None if byty else T.number(s, T.wanted)
                ends = []
                nx = E.field(L, it, 'next_page', None)
                ends.append(E.payload(L, nx, 1, '0') if nx is not None and nx[0] == 'en' and s.vars.get(nx[2]) == frozenset((1,)) else None)
                ends.append(E.field(L, it, 'last_page', None))
                ws = [x and T.where(s, x) for x in ends]
                for x, k in zip(ws, ('first_page', 'last_page')):
                    ctx.ob(x is not None and want is not None and x[0] == TAB and x[2] == (k,) and lists.eq(s, x[1], want), '%s:%s' % (nm, k), w,
                           '%s does not use the %s of the table that is asked for' % (nm, k.replace('_', ' ')),
                           '%s: the %s of the table asked for' % (nm, k))
                if byty:
                    ctx.ob(c is not None and want is not None and lists.eq(s, c, want), nm + ':first', w, 'not the first table of this type')
            ctx.ob(v is not None and v[0] == 'en', nm + ':answer', w, 'the answer of %s is not known' % nm)
        ctx.ob(seen == {0, 1}, nm + ':both', w, '%s %s' % (nm, 'never succeeds' if 0 not in seen else 'never fails'))


# ------------------------------------------------------------------------------------------------- the rows of them
class Chain:
    """a chain is ('st', None, ('fx', source, stages, fallible), ()); a stage is (kind, function, fallible)"""
    def __init__(self, ctx, L):
        self.ctx, self.L = ctx, L
        E = self.E = engine.Engine(ctx.crates)
        E.split = E.keep_errs = True
        E.cr = L
        E.intercept = self.call
        E.MAXDEPTH = max(E.MAXDEPTH, 12)
        self.asked = []

    def deref(self, st, v):
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        return v

    def mk(self, src, stages, fall):
        return ('st', None, ('fx', src, tuple(stages), fall), ())

    def isx(self, v):
        return v is not None and v[0] == 'st' and isinstance(v[2], tuple) and len(v[2]) == 4 and v[2][0] == 'fx'

    def chain(self, st, v):
        v = self.deref(st, v)
        if self.isx(v):
            return v
        if tyof(self.L, v) == ITN:
            return self.mk(('pages', v), (), True)
        if v is not None and v[0] == 'en' and tyof(self.L, v) == 'core::option::Option':
            return self.mk(('option', v), (), False)
        return None

    def themap(self, st, v):
        x = self.deref(st, v)
        return x if x is not None and x[0] in ('st', 'op', 'seq') and x == self.map else None

    def call(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        nm = name.rsplit('::', 1)[-1]
        f = E.local_fn(fr, callee)
        if nm in ('iter_pages', 'iter_pages_for_table') and 'pdb::io::Database' in name and isinstance(dty, int):
            self.asked.append((nm, args[1][0]))
            s2 = st.copy()
            it = self.mk(('pages', (nm, args[1][0])), (), True)
            return [(st, E.new_enum(st, dty, (site, 'ip', 0), 0, [('0', it)])), (s2, E.new_enum(s2, dty, (site, 'ip', 1), 1, []))]
        if nm in ('from_row', 'from_row_mut') and 'RowVariant' in name and f is None and isinstance(dty, int):
            s2 = st.copy()
            for s, vi in ((st, 1), (s2, 0)):
                s.mem[('asked', 'typed')] = ('fn', bool(vi))
            o = ('typed', 0)
            st.mem[o] = ('st', None, ('typed row',), (('of', args[0][0]),))
            return [(st, E.new_enum(st, dty, (site, 'fr', 1), 1, [('0', ('ref', o, (), True))])), (s2, E.new_enum(s2, dty, (site, 'fr', 0), 0, []))]
        if not args or args[0][0] is None:
            return None
        v = args[0][0]
        a1 = args[1][0] if len(args) > 1 else None
        m = MAPIT.search(name)
        if self.themap(st, v) is not None:
            how = nm if nm in ('values_mut', 'values', 'into_values', 'iter', 'iter_mut', 'into_iter', 'len', 'is_empty') else None
            if nm in ('len', 'is_empty', 'deref', 'as_ref', 'borrow', 'clone'):
                return None
            if how is None:
                return [(st, self.mk(('?', nm), (), False))] if m or STD.search(name) else None
            return [(st, self.mk(('rows', 'values' in how), (), False))]
        x = self.chain(st, v)
        if x is None:
            return None
        m = FALL.search(name)
        fall = m is not None
        g = STD.search(name)
        if not m and not g:
            return None
        _, src, stages, xf = x[2]
        if nm in ('by_ref', 'into_iter', 'into_fallible_iter', 'fuse', 'peekable'):
            return [(st, x if v[0] != 'ref' or not self.isx(x) else v)] if self.isx(x) else None
        if not self.isx(x):
            return None
        if nm in ('convert', 'transpose_into_fallible'):
            return [(st, self.mk(src, stages + (('convert', None, False),), True))]
        if nm == 'into_fallible':
            return [(st, self.mk(src, stages, True))]
        if nm == 'iterator':
            return [(st, self.mk(src, stages + (('results', None, False),), False))]
        if nm in ('map', 'filter_map', 'filter', 'inspect', 'flat_map', 'map_err', 'and_then'):
            return [(st, self.mk(src, stages + ((nm, a1, fall),), xf))]
        if nm == 'flatten':
            return [(st, self.mk(src, stages + ((nm, None, fall),), xf))]
        if nm in ('copied', 'cloned'):
            return [(st, self.mk(src, stages, xf))]
        if nm == 'collect' and not xf and isinstance(dty, int) and L.T[dty].get('path') == 'alloc::vec::Vec':
            return [(st, x)]
        if nm in ('next', 'size_hint'):
            return None
        return [(st, self.mk(('?', nm), (), xf))]

    # ---- what a chain makes of one item
    def fn(self, fr, st, f, vals, site):
        return self.E.invoke(fr, st, f, vals, site, None, {'ln': None, 'to': [0], 'k': 'call'})

    def results(self, st, v):
        """[(state, went well, payload)] of a Result"""
        E = self.E
        out = []
        if v is None or v[0] != 'en':
            return [(st, None, None)]
        for vi in (0, 1):
            q = st.copy()
            if E.assume(q, ('isv', v[2], (vi,), (0, 1))):
                out.append((q, vi == 0, E.payload(self.L, v, vi, '0')))
        return out

    def push(self, fr, st, stages, item, n=0):
        """[(state, outcome)]: ('none',) | ('item', v) | ('err',) | ('list', source, stages, rest of the stages) | ('?', why)"""
        E, L = self.E, self.L
        if n == len(stages):
            return [(st, ('item', item))]
        kind, f, fall = stages[n]
        site = ('c20', n, kind)
        if kind in ('map_err', 'inspect'):
            return self.push(fr, st, stages, item, n + 1)
        if kind == 'results':
            return self.push(fr, st, stages, item, n + 1) if not fall else [(st, ('?', 'results'))]
        if kind == 'convert':
            out = []
            for s, ok, v in self.results(st, item):
                out += self.push(fr, s, stages, v, n + 1) if ok else [(s, ('err',) if ok is False else ('?', kind))]
            return out
        arg = item
        if kind == 'filter':
            st.mem[('cfa', n)] = item
            arg = ('ref', ('cfa', n), (), False)
        g = f
        if f is not None and f[0] == 'clo':
            st.mem[('cenv', n)] = f
            g = ('ref', ('cenv', n), (), True)
        out = []
        rs = self.fn(fr, st, g, [arg], site) if kind != 'flatten' else [(st, item)]
        for s, v in rs:
            if fall and kind not in ('flatten',):
                ways = self.results(s, v)
            else:
                ways = [(s, True, v)]
            for q, ok, x in ways:
                if not ok:
                    out.append((q, ('err',) if ok is False else ('?', kind)))
                elif kind in ('map', 'and_then'):
                    out += self.push(fr, q, stages, x, n + 1)
                elif kind == 'filter':
                    for b in (True, False):
                        q2 = q.copy()
                        if x is None or x[0] != 'b':
                            out.append((q2, ('?', kind)))
                        elif E.assume(q2, x[1], b):
                            out += self.push(fr, q2, stages, item, n + 1) if b else [(q2, ('none',))]
                elif kind == 'filter_map':
                    for vi in (0, 1):
                        q2 = q.copy()
                        if x is None or x[0] != 'en':
                            out.append((q2, ('?', kind)))
                        elif E.assume(q2, ('isv', x[2], (vi,), (0, 1))):
                            out += self.push(fr, q2, stages, E.payload(L, x, 1, '0'), n + 1) if vi else [(q2, ('none',))]
                elif kind in ('flat_map', 'flatten'):
                    c = self.chain(q, x)
                    if c is None and self.themap(q, x) is not None:
                        c = self.mk(('rows', False), (), False)
                    if c is None:
                        out.append((q, ('?', kind)))
                    elif c[2][1][0] == 'option':
                        for vi in (0, 1):
                            q2 = q.copy()
                            o = c[2][1][1]
                            if E.assume(q2, ('isv', o[2], (vi,), (0, 1))):
                                out += self.inner(fr, q2, c[2][2], E.payload(L, o, 1, '0'), stages, n + 1) if vi else [(q2, ('none',))]
                    else:
                        out.append((q, ('list', c[2][1], c[2][2], stages[n + 1:])))
        return out

    def inner(self, fr, st, own, item, stages, n):
        out = []
        for s, r in self.push(fr, st, own, item):
            if r[0] == 'list':
                r = r[:3] + (tuple(r[3]) + tuple(stages[n:]),)
            out += self.push(fr, s, stages, r[1], n) if r[0] == 'item' else [(s, r)]
        return out


def rows(ctx, L):
    f = ctx.need([f for f in L.fns if f['path'].startswith('pdb::io::Database::<') and f.get('name') == 'iter_rows' and 'blocks' in f],
                 'Database::iter_rows')[0]
    C = Chain(ctx, L)
    C.map = None
    E = C.E
    w = ctx.where(f)
    sts, fr = E.paths(f, None, 'c20r')
    oks = 0
    page = ctx.adt('pdb::Page')
    pti = [i for i, t in enumerate(L.T) if t.get('path') == 'pdb::Page' and t['k'] == 'adt'][0]
    rti = [i for i, t in enumerate(L.T) if t.get('path') == 'pdb::Row' and t['k'] == 'adt'][0]
    cti = [x['t'] for x in page['variants'][0]['f'] if x['n'] == 'content'][0]
    kinds = [v['n'] for v in ctx.adt('pdb::PageContent')['variants']]
    ctx.need('Data' in kinds, 'pages with data')
    for st in sts:
        v = st.mem.get((fr.id, 0))
        if v is None or v[0] != 'en':
            ctx.ob(False, 'answer', w, 'the answer of iter_rows is not known')
            continue
        if st.vars.get(v[2]) == frozenset((1,)):
            ctx.ob(C.asked, 'refused', w, 'iter_rows fails although the pages can be walked')
            continue
        if not E.assume(st, ('isv', v[2], (0,), (0, 1))):
            continue
        oks += 1
        x = C.chain(st, E.payload(L, v, 0, '0'))
        if not ctx.ob(x is not None and x[2][1][0] == 'pages', 'chain', w,
                      'what iter_rows answers with is not made of the pages of the table one by one%s' %
                      (' (%s)' % x[2][1][1] if x is not None and x[2][1][0] == '?' else '')):
            continue
        how, arg = x[2][1][1] if isinstance(x[2][1][1], tuple) and len(x[2][1][1]) == 2 else ('?', None)
        ctx.ob(how == 'iter_pages' and 'PAGE_TYPE' in repr(arg), 'type', w, 'iter_rows does not walk the pages of the table of the row type',
               'iter_rows walks iter_pages(RowT::PAGE_TYPE)')
        stages = x[2][2]
        for vi, kn in enumerate(kinds):
            s = st.copy()
            p = E.fresh(L, ('page',), pti)
            fields = []
            for fl in ctx.adt('pdb::PageContent')['variants'][vi]['f']:
                y = E.fresh(L, ('content', kn, fl['n']), fl['t'])
                if kn == 'Data':
                    C.map = E.field(L, y, 'rows', None)
                fields.append((fl['n'], y))
            c = E.new_enum(s, cti, ('content', kn), vi, fields)
            s.mem[('pg',)] = ('st', p[1], p[2], tuple(sorted([z for z in p[3] if z[0] != 'content'] + [('content', c)])))
            outs = C.push(fr, s, stages, ('ref', ('pg',), (), True))
            ctx.ob(outs, 'never:' + kn, w, 'nothing is known of what iter_rows makes of %s pages' % kn)
            for q, o in outs:
                if kn != 'Data':
                    ctx.ob(o == ('none',), 'page:' + kn, w, 'a page of kind %s is not passed over (%s)' % (kn, o[0]), '%s pages give no rows' % kn)
                    continue
                if not ctx.ob(o[0] == 'list' and o[1][0] == 'rows', 'page:Data', w,
                              'the rows of a page are not given one by one in their order (%s)' %
                              (o[0] if o[0] != 'list' else o[1][1]), 'a data page gives its rows in order'):
                    continue
                row(ctx, L, C, fr, q, o, rti, w)
    ctx.ob(oks, 'never', w, 'iter_rows never succeeds')
    ctx.cov['stages'] = len(stages) if oks else 0


def row(ctx, L, C, fr, q, o, rti, w):
    E = C.E
    q = q.copy()
    q.mem[('row', 0)] = E.fresh(L, ('row',), rti)
    r = ('ref', ('row', 0), (), True)
    item = r if o[1][1] else ('st', None, ('pair',), ((0, E.fresh(L, ('rowkey',), E.find_ty(L, 'u16'))), (1, r)))
    q.mem.pop(('asked', 'typed'), None)
    seen = set()
    for s, out in C.inner(fr, q, o[2], item, o[3], 0):
        typed = s.mem.get(('asked', 'typed'))
        if typed is None:
            ctx.ob(False, 'row:untyped', w, 'a row is dealt with (%s) whatever its kind is' % out[0])
            continue
        if typed[1]:
            d = C.deref(s, out[1]) if out[0] == 'item' else None
            ok = d is not None and d[0] == 'st' and d[2] == ('typed row',) and same(C, s, dict(d[3])['of'], r)
            ctx.ob(ok, 'row:given', w, 'a row of the type is not given (%s)' % out[0], 'a row of the type is given')
            seen.add('given')
        else:
            ctx.ob(out == ('err',), 'row:other', w, 'a row of another kind is not an error (%s)' % out[0], 'a row of another kind is an error')
            seen.add('error')
    ctx.ob(seen == {'given', 'error'}, 'row:both', w, 'rows of a page are not looked at')


def same(C, st, v, r):
    n = 0
    while v is not None and v[0] == 'ref' and n < 8:
        if v[1:3] == r[1:3]:
            return True
        v = C.E.load(st, C.L, v[1], v[2])
        n += 1
    return False
