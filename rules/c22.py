"""Allocating a row in a page.  Page::allocate_row and the function it answers with are walked path by path on any page, with
ghost state for the row counts (a pair of numbers), the row groups (which are added, which slot of which group is written), and
the rows (which offset is taken).  Answering None is allowed only if the page is untouched and a stated reason holds (the
negation of all reasons is infeasible); answering Some, every field of the page is compared with what it has to be before and
after the row is inserted."""
import re
import engine
from dom import K, V, sym, Lin

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR with symbolic pages, ghost slots and ghost row counts'
NOTE = 'All pages, all row sizes; all paths of allocation and insertion.'
ASSUMPTIONS = ['the setters and getters that modular_bitfield generates for PackedRowCounts store 13 and 11 bits',
               'BTreeMap and Vec do what they are documented to do']
MAXR, MAXV = (1 << 13) - 1, (1 << 11) - 1
CNT = 'pdb::bitfields::PackedRowCounts'
LOG = ('log', 0)
ELS = ('els', 0)


def eq(st, a, b):
    return a is not None and b is not None and st.F.entails(a.sub(b)) and st.F.entails(b.sub(a))


class Alloc:
    def __init__(self, crates, L):
        self.E = engine.Engine(crates)
        self.L = L
        E = self.E
        E.split = True
        E.cr = L
        E.intercept = self.call
        E.MAXDEPTH = max(E.MAXDEPTH, 12)
        E.hooks['elstore'] = self.elstore
        self.gty = [i for i, t in enumerate(L.T) if t.get('path') == 'pdb::RowGroup' and t['k'] == 'adt'][0]
        self.u16 = E.find_ty(L, 'u16')

    def add(self, st, key, *it):
        st.mem[key] = ('tr', (st.mem[key][1] if key in st.mem else ()) + (it,))

    def log(self, st, key=LOG):
        return st.mem[key][1] if key in st.mem else ()

    def elstore(self, E, st, root, proj, idx, val):
        self.add(st, ELS, root, tuple(proj), idx, val)

    def deref(self, st, v, n=0):
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        return v

    def place(self, st, v):
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            x = self.E.load(st, self.L, v[1], v[2])
            if x is None or x[0] != 'ref':
                return v
            v, n = x, n + 1
        return v

    def group(self, st, i):
        """the group with a number: the one that was added, or one of those that were there"""
        E = self.E
        for k in st.mem:
            if k[0] == 'group' and eq(st, k[1], i):
                return ('ref', k, (), True)
        r = ('group', i)
        st.mem[r] = E.fresh(self.L, ('group', i), self.gty)
        return ('ref', r, (), True)

    def either(self, st, dty, site, cond, make):
        out = []
        for vi in (1, 0):
            s = st.copy()
            if self.E.assume(s, cond, bool(vi)):
                out.append((s, self.E.new_enum(s, dty, (site, vi), vi, [('0', make(s))] if vi else [])))
        return out

    def counts(self, ti, n, v):
        return ('st', ti, ('cnt', n, v), (('#n', ('i', n)), ('#v', ('i', v))))

    def pick(self, v):
        if v is None or v[0] != 'st':
            return None
        d = dict(v[3])
        return (d['#n'][1], d['#v'][1]) if '#n' in d and '#v' in d else None

    def call(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        m = re.search(r'PackedRowCounts(?:>|::<[^>]*>)?::(\w+)$', name)
        if m:
            op = m.group(1)
            if op == 'new' and not args:
                return [(st, self.counts(dty, K(0), K(0)))]
            mm = re.match(r'(set_|with_)?(num_rows(?:_valid)?)(_checked)?$', op)
            if mm and args:
                pl = self.place(st, args[0][0]) if args[0][0][0] == 'ref' else None
                v = self.deref(st, args[0][0])
                c = self.pick(v)
                if c is None:
                    return None
                i = 1 if mm.group(2).endswith('valid') else 0
                if not mm.group(1):
                    return [(st, ('i', c[i]))]
                x = args[1][0]
                if x[0] != 'i':
                    return None
                nv = self.counts(v[1], *((x[1], c[1]) if i == 0 else (c[0], x[1])))
                cond = engine.cge(x[1].neg().addc(MAXV if i else MAXR))
                out = []
                for vi in (0, 1):
                    s = st.copy()
                    if not E.assume(s, cond, vi == 0):
                        continue
                    if vi == 1 and not mm.group(3):
                        continue            # panics (C02 sees to that)
                    if mm.group(1) == 'set_' and vi == 0:
                        E.store(s, fr, pl[1], pl[2], nv, site)
                    res = nv if mm.group(1) == 'with_' else ('st', None, (site, 'unit'), ())
                    if mm.group(3):
                        res = E.new_enum(s, dty, (site, vi), vi, [('0', res)] if vi == 0 else [])
                    out.append((s, res))
                return out
        if not args or args[0][0] is None:
            return None
        x = self.deref(st, args[0][0])
        nm = name.rsplit('::', 1)[-1]
        if x is None:
            return None
        if x[0] == 'seq' and x[1] == 'groups':
            pl = self.place(st, args[0][0])
            n = args[1][0] if len(args) > 1 else None
            if nm in ('len',):
                return [(st, ('i', x[2]))]
            if nm in ('as_mut_slice', 'as_slice', 'deref', 'deref_mut', 'as_mut', 'as_ref', 'borrow_mut'):
                return [(st, args[0][0] if args[0][0][0] != 'ref' else pl)]
            if nm in ('push',):
                g = ('group', x[2])
                st.mem[g] = n
                self.add(st, LOG, 'push', x[2])
                E.store(st, fr, pl[1], pl[2], ('seq', 'groups', x[2].addc(1)) + x[3:], site)
                return [(st, ('st', None, (site, 'unit'), ()))]
            if nm in ('get', 'get_mut') and n is not None and n[0] == 'i':
                return self.either(st, dty, site, engine.cge(x[2].sub(n[1]).addc(-1)), lambda s: self.group(s, n[1]))
            if nm in ('last', 'last_mut'):
                return self.either(st, dty, site, engine.cge(x[2].addc(-1)), lambda s: self.group(s, x[2].addc(-1)))
            if nm in ('index', 'index_mut') and n is not None and n[0] == 'i':
                return [(st, self.group(st, n[1]))] if E.assume(st, engine.cge(x[2].sub(n[1]).addc(-1))) else []
            if nm == 'is_empty':
                return [(st, ('b', engine.ceq(x[2])))]
            self.add(st, LOG, 'other', name)
            return None
        if isinstance(x, tuple) and x[0] in ('st', 'op') and x[2 if x[0] == 'st' else 1] == 'rows':
            k = self.deref(st, args[1][0]) if len(args) > 1 else None
            if nm == 'contains_key' and k is not None and k[0] == 'i':
                return [(st, ('b', ('isv', self.occ(st, k[1]), (1,), (0, 1))))]
            if nm in ('get', 'get_mut', 'get_key_value') and k is not None and k[0] == 'i' and isinstance(dty, int):
                e = self.occ(st, k[1])
                st.vars.setdefault(e, frozenset((0, 1)))
                return [(st, ('en', dty, e, e, ()))]
            if nm == 'insert' and k is not None and k[0] == 'i':
                self.add(st, LOG, 'insert', k[1], self.deref(st, args[2][0]))
                return [(st, E.fresh(L, (site, 'old'), dty))]
            self.add(st, LOG, 'other', name)
            return None
        if x[0] == 'seq' and nm in ('get_mut', 'index_mut') and args[0][0][0] == 'ref':
            pl = self.place(st, args[0][0])
            n = args[1][0]
            if pl[1][0] == 'group' and n[0] == 'i':
                o = ('el', site)
                E.elref[o] = (pl[1], pl[2], n[1])
                st.mem[o] = E.fresh(L, (site, 'el'), self.u16)
                r = ('ref', o, (), True)
                if nm == 'get_mut':
                    return self.either(st, dty, site, engine.cge(x[2].sub(n[1]).addc(-1)), lambda s: r)
                return [(st, r)] if E.assume(st, engine.cge(x[2].sub(n[1]).addc(-1))) else []
        return None

    def occ(self, st, l):
        for e in st.vars:
            if isinstance(e, tuple) and e[0] == 'occ' and eq(st, e[1], l):
                return e
        e = ('occ', l)
        st.vars[e] = frozenset((0, 1))
        return e


def run(ctx):
    L = ctx.lib
    for n in ('num_rows', 'num_rows_valid', 'set_num_rows_checked', 'set_num_rows_valid_checked'):
        ctx.fn(CNT + '::' + n)
    f = ctx.fn('pdb::Page::allocate_row')
    made = {'None': 0, 'Some': 0, 'new group': 0, 'old group': 0}
    for case in ('full', 'room', 'short'):
        allocate(ctx, L, f, case, made)
    for k, c in made.items():
        ctx.floor('paths: ' + k, c, 1)


def allocate(ctx, L, f, case, made):
    """the groups are all full (n / 16 of them), have room, or are fewer than there should be"""
    A = Alloc(ctx.crates, L)
    E = A.E
    keep = {}
    PAGE = ('page', 0)

    def init(E_, st, fr, j, ti):
        if j == 1:
            keep['bytes'] = V(sym(('bytes',), 0, 65535))
            return ('i', keep['bytes'])
        pt = L.T[ti]['t']
        v = E_.fresh(L, ('page',), pt)
        h = E_.field(L, v, 'header', None)
        keep['n'], keep['v'] = V(sym(('n',), 0, MAXR)), V(sym(('v',), 0, MAXV))
        keep['groups'] = V(sym(('groups',), 0, 1 << 40))
        keep['free'], keep['used'] = V(sym(('free',), 0, 65535)), V(sym(('used',), 0, 65535))
        cty = [i for i, t in enumerate(L.T) if t.get('path') == CNT and t['k'] == 'adt'][0]
        keep['cty'] = cty
        h = E_.upd(L, h, (('f', 'packed_row_counts', cty),), A.counts(cty, keep['n'], keep['v']))
        h = E_.upd(L, h, (('f', 'free_size', None),), ('i', keep['free']))
        h = E_.upd(L, h, (('f', 'used_size', None),), ('i', keep['used']))
        # all fields are there
        h = ('st', h[1], h[2], tuple(sorted(((x['n'], E_.field(L, h, x['n'], None)) for x in
                                             L.adts['pdb::PageHeader']['variants'][0]['f']))))
        c = E_.field(L, v, 'content', None)
        vs = [x['n'] for x in L.adts['pdb::PageContent']['variants']]
        keep['data'] = vs.index('Data')
        keep['content'] = c
        d = E_.payload(L, c, keep['data'], '0')
        fs = {x['n']: E_.field(L, d, x['n'], None) for x in L.adts['pdb::DataPageContent']['variants'][0]['f']}
        fs['row_groups'] = ('seq', 'groups', keep['groups'], None)
        fs['rows'] = ('st', fs['rows'][1] if fs['rows'][0] == 'st' else fs['rows'][2], 'rows', ())
        keep['fields'] = fs
        d = ('st', d[1], d[2], tuple(sorted(fs.items())))
        pt_ = L.adts['pdb::PageContent']['variants'][keep['data']]['f'][0]
        c = E_.upd(L, c, (('vf', keep['data'], '0', pt_['t']),), d)
        keep['header'] = h
        st.mem[PAGE] = ('st', v[1], v[2], tuple(sorted({'header': h, 'content': c}.items())))
        gi = E_.arith(st, 'Div', keep['n'], K(16), L.T[A.u16], ('c22', 'gi'))
        d = keep['groups'].sub(gi)
        E_.assume(st, engine.ceq(d) if case == 'full' else engine.cge(d.addc(-1)) if case == 'room' else engine.cge(d.neg().addc(-1)))
        return ('ref', PAGE, (), True)
    sts, fr = E.paths(f, init, 'c22' + case)
    w = ctx.where(f)
    n, used, free, groups = keep['n'], keep['used'], keep['free'], keep['groups']
    it = L.T[A.u16]
    def hd(st, x):
        return E.load(st, L, PAGE, (('f', 'header', None), ('f', x, None)))

    def same_header(st, but):
        return [x for x, v in keep['header'][3] if x not in but and hd(st, x) != v]

    def same_content(st):
        c = E.load(st, L, PAGE, (('f', 'content', None),))
        d = E.payload(L, c, keep['data'], '0')
        return [k for k, v in keep['fields'].items() if k not in ('row_groups', 'rows') and E.field(L, d, k, None) != v]
    for st in sts:
        v = st.mem.get((fr.id, 0))
        isd = st.vars.get(keep['content'][2])
        vs = st.vars.get(v[2]) if v is not None and v[0] == 'en' else None
        if not ctx.ob(vs is not None and len(vs) == 1, 'answer', w, 'it is not known whether there is room'):
            continue
        # the numbers as they have to be
        al = E.arith(st, 'Div', keep['bytes'].addc(3), K(4), it, ('c22', 'al')).scale(4)
        gi = E.arith(st, 'Div', n, K(16), it, ('c22', 'gi'))
        sub = E.arith(st, 'Rem', n, K(16), it, ('c22', 'su'))
        log, els = A.log(st), A.log(st, ELS)
        if vs == frozenset((0,)):
            made['None'] += 1
            ctx.ob(not same_header(st, ()) and not log and not els and not same_content(st), 'none:changed', w,
                   'the page is changed although no row is allocated (%s)' % ', '.join(same_header(st, ())), 'None: page as before')
            s = st.copy()
            can = E.assume(s, ('isv', keep['content'][2], (keep['data'],), tuple(range(len(L.adts['pdb::PageContent']['variants'])))))
            for c in (engine.cge(free.sub(al).addc(-6)), engine.cge(used.add(al).neg().addc(65535)),
                      engine.cge(n.neg().addc(MAXR - 1)), engine.cge(keep['v'].neg().addc(MAXV - 1)), engine.cge(groups.sub(gi)),
                      ('isv', A.occ(s, used), (0,), (0, 1))):
                can = can and E.assume(s, c)
            ctx.ob(not can, 'none:why', w, 'no row is allocated although there is room for it and it can be counted', 'None: for a reason')
            continue
        made['Some'] += 1
        ctx.ob(isd == frozenset((keep['data'],)), 'some:index', w, 'a row is allocated in a page that has no rows')
        ctx.ob(not [x for x in log if x[0] in ('other', 'insert')], 'some:else', w,
               'allocating does something else to the rows or groups: %s' % [x for x in log if x[0] in ('other', 'insert')][:1])
        pushes = [x for x in log if x[0] == 'push']
        new = bool(pushes)
        made['new group' if new else 'old group'] += 1
        ctx.ob(len(pushes) == (1 if new else 0) and (eq(st, gi, groups) if new else st.F.entails(groups.sub(gi).addc(-1))),
               'some:group', w, 'a row group is added when it is not needed, or not added when it is', 'group added iff needed')
        bad = same_header(st, ('used_size', 'free_size', 'packed_row_counts'))
        ctx.ob(not bad and not same_content(st), 'some:header', w, 'allocating changes %s' % bad)
        u, fz = hd(st, 'used_size'), hd(st, 'free_size')
        ctx.ob(u[0] == 'i' and eq(st, u[1], used.add(al)), 'some:used', w, 'the used size does not grow by the aligned size of the row',
               'used + aligned')
        ctx.ob(fz[0] == 'i' and eq(st, fz[1], free.sub(al).addc(-6 if new else -2)), 'some:free', w,
               'the free size does not shrink by the row, its offset and the header of a new group', 'free - aligned - %d' % (6 if new else 2))
        ctx.ob(not E.assume(st.copy(), ('isv', A.occ(st, used), (1,), (0, 1))), 'some:taken', w, 'the place of another row is given away')
        c = A.pick(hd(st, 'packed_row_counts'))
        ctx.ob(c is not None and eq(st, c[0], n.addc(1)) and eq(st, c[1], keep['v']), 'some:count', w,
               'allocating does not count exactly one more row', 'n + 1 rows')
        slot(ctx, A, st, els, gi, sub, used, new, w)
        ctx.ob(eq(st, E.load(st, L, PAGE, (('f', 'content', None), ('vf', keep['data'], '0', None), ('f', 'row_groups', None)))[2],
                  groups.addc(1 if new else 0)), 'some:groups', w, 'groups are lost')
        before = {k: x for k, x in st.mem.items() if k[0] == 'group'}
        insert(ctx, A, st, fr, v, keep, PAGE, gi, sub, used, before, f)


def slot(ctx, A, st, els, gi, sub, used, new, w):
    """exactly one slot is written: 15 - n % 16 of group n / 16, with the offset; nothing is marked yet"""
    E, L = A.E, A.L
    ok = len(els) == 1 and els[0][0][0] == 'group' and eq(st, els[0][0][1], gi) and \
        [p[1] for p in els[0][1]] == ['row_offsets'] and els[0][2] is not None and eq(st, els[0][2], K(15).sub(sub)) and \
        els[0][3] is not None and els[0][3][0] == 'i' and eq(st, els[0][3][1], used)
    ctx.ob(ok, 'slot', w, 'the offset of the row is not stored in the slot of the row', 'slot 15 - n % 16 of group n / 16')
    for k, g in st.mem.items():
        if k[0] != 'group':
            continue
        for x in ('row_presence_flags', 'unknown'):
            v = E.field(L, g, x, None)
            fresh = E.field(L, E.fresh(L, ('group', k[1]), A.gty), x, None)
            was = ('i', K(0)) if new and eq(st, k[1], gi) else fresh
            ctx.ob(v == was, 'slot:' + x, w, 'allocating changes %s of a row group' % x)


def insert(ctx, A, st, fr, v, keep, PAGE, gi, sub, used, before, f):
    E, L = A.E, A.L
    clo = E.payload(L, v, 1, '0')
    w = ctx.where(f)
    if not ctx.ob(clo is not None and clo[0] == 'clo', 'insert:fn', w, 'the function that inserts the row is not known'):
        return
    nlog, nels = len(A.log(st)), len(A.log(st, ELS))
    head = E.load(st, L, PAGE, (('f', 'header', None),))
    g = L.by_key[clo[1]]
    row = E.fresh(L, ('row',), g['locals'][2]['t'])
    outs = E.run_clo(fr, st.copy(), clo, None, [row], ('c22', 'ins'), None, None, True)
    ctx.ob(outs, 'insert:never', w, 'inserting never ends')
    wc = ctx.where(g)
    for s, _ in outs:
        log, els = A.log(s)[nlog:], A.log(s, ELS)[nels:]
        ok = len(log) == 1 and log[0][0] == 'insert' and eq(s, log[0][1], used) and log[0][2] == row
        ctx.ob(ok, 'insert:row', wc, 'the row is not stored at its offset', 'row stored at its offset')
        ctx.ob(not els, 'insert:slot', wc, 'inserting the row writes a row offset')
        h = E.load(s, L, PAGE, (('f', 'header', None),))
        bad = [x for x, y in keep['header'][3] if x != 'packed_row_counts' and E.field(L, h, x, None) != E.field(L, head, x, None)]
        ctx.ob(not bad, 'insert:header', wc, 'inserting the row changes %s' % bad)
        c = A.pick(E.field(L, h, 'packed_row_counts', None))
        ctx.ob(c is not None and eq(s, c[0], keep['n'].addc(1)) and eq(s, c[1], keep['v'].addc(1)), 'insert:count', wc,
               'inserting the row does not count exactly one more valid row', 'v + 1 valid rows')
        d = E.payload(L, E.load(s, L, PAGE, (('f', 'content', None),)), keep['data'], '0')
        ctx.ob(all(E.field(L, d, k, None) == x for k, x in keep['fields'].items() if k not in ('rows', 'row_groups')),
               'insert:content', wc, 'inserting the row changes something else of the page')
        for k in {k for k in s.mem if k[0] == 'group'} | set(before):
            now = s.mem[k]
            old = before.get(k) or E.fresh(L, ('group', k[1]), A.gty)
            mine = eq(s, k[1], gi)
            a, b = E.field(L, now, 'row_presence_flags', None), E.field(L, old, 'row_presence_flags', None)
            if mine:
                bit = V(sym(('pow2', sub, 'u16'), 1, 1 << 15, tuple(sub.syms())))
                s2 = s.copy()
                want = E.arith(s2, 'BitOr', b[1], bit, L.T[A.u16], ('c22', 'or'))
                ctx.ob(a[0] == 'i' and eq(s2, a[1], want), 'insert:mark', wc, 'inserting the row does not mark exactly its own slot',
                       'bit n % 16 of group n / 16')
            else:
                ctx.ob(a == b, 'insert:other', wc, 'inserting the row marks a row of another group')
            ctx.ob(E.field(L, now, 'unknown', None) == E.field(L, old, 'unknown', None), 'insert:unknown', wc,
                   'inserting the row changes the unknown field of a group')
