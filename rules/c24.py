"""Pages of a database are read from, kept at and written back to their own place.  Page n is the page_size bytes at
n * page_size; the header takes the place of page 0.  The readers of pages (load_page, PageIterator) are walked path by path:
the slot that is answered with is that of the page that is asked for, a page that is not loaded is read from its own place
with the page size and the kind of this database, and one that is loaded is left as it is.  The iterator goes from the first
page of its table along the next_page of each page and ends after the last one.  flush starts at 0 with the header padded to a
page, and every slot then takes exactly one page: one that is not loaded is passed over and not written."""
import re
import engine
import wire
from dom import K, V, sym, SYM, Lin

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR, with positions in the file and places in the list of pages'
NOTE = 'All page numbers, page sizes and states of the page list. Index pages: for page sizes that are a multiple of 4.'
ASSUMPTIONS = ['the header (28 bytes and 16 per table) fits into the first page',
               'Page and Header are laid out as C11 and C12 say']
LOG = ('log', 0)
END = ('end', 0)         # what a seek to the end has answered
WR = re.compile(r'BinWrite(?:Ext)?>?::write(_args|_le|_be|_ne|_options)?(_args)?$')
SEEK = re.compile(r'Seek>?::(seek|rewind|seek_relative|stream_position)$')


class Pages:
    """follows positions in the file and slots in the list of pages"""

    def __init__(self, crates, L):
        self.E = engine.Engine(crates)
        self.E.split = True
        self.E.keep_errs = True
        self.E.intercept = self.call
        self.E.cr = L
        self.E.MAXDEPTH = max(self.E.MAXDEPTH, 12)
        self.L = L
        self.n = 0

    def deref(self, st, v, n=0):
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.E.cr, v[1], v[2])
            n += 1
        return v

    def add(self, st, *it):
        st.mem[LOG] = ('tr', (st.mem[LOG][1] if LOG in st.mem else ()) + (it,))

    def log(self, st):
        return st.mem[LOG][1] if LOG in st.mem else ()

    def who(self, st, v):
        """which stream this is: the innermost place the reference comes down to"""
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            x = self.E.load(st, self.E.cr, v[1], v[2])
            if x is None or x[0] != 'ref':
                return place_of(v)
            v, n = x, n + 1
        return v

    def pages(self, off, ln):
        return ('seq', ('pages', off), ln, None)

    def isp(self, x):
        return x is not None and x[0] == 'seq' and isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][0] == 'pages'

    def slot(self, st, i, ti):
        """a reference to slot i of the list; the same slot if it is the same number"""
        for k in st.mem:
            if k[0] == 'slot' and k[1] == i:
                return ('ref', k, (), True)
        r = ('slot', i)
        st.mem[r] = self.E.fresh(self.L, ('slot', i), ti)
        return ('ref', r, (), True)

    def part(self, st, off, ln):
        self.n += 1
        r = ('part', self.n)
        st.mem[r] = self.pages(off, ln)
        return ('ref', r, (), True)

    def inner(self, ti, *path):
        T = self.L.T
        for p in path:
            t = T[ti]
            ti = t['t'] if p == '*' else t['ts'][p] if t['k'] == 'tuple' else t['args'][p]
        return ti

    def either(self, st, dty, site, cond, make):
        """Some(make) if cond, else None"""
        out = []
        for vi in (1, 0):
            s = st.copy()
            if not self.E.assume(s, cond, bool(vi)):
                continue
            out.append((s, self.E.new_enum(s, dty, (site, vi), vi, [('0', make(s))] if vi else [])))
        return out

    def call(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        m = SEEK.search(name)
        if m and args[0][0] is not None:
            who = self.who(st, args[0][0])
            kind, x = m.group(1), None
            if kind == 'seek':
                w = args[1][0]
                vs = st.vars.get(w[2]) if w[0] == 'en' else None
                vi = next(iter(vs)) if vs and len(vs) == 1 else None
                pv = E.payload(L, w, vi, '0') if vi is not None else None
                x = (('start', 'end', 'current')[vi], pv[1]) if vi is not None and pv[0] == 'i' else ('?', None)
            elif kind == 'rewind':
                x = ('start', K(0))
            elif kind == 'seek_relative':
                x = ('current', args[1][0][1]) if args[1][0][0] == 'i' else ('?', None)
            return self.forked(fr, st, name, callee, args, site, dty, t, ('seek', who) + x if x else None)
        m = wire.READ.search(name) or re.search(r'BinRead(?:>)?::(read_args|read_le_args|read_options|read_be_args|read)$', name)
        if m and len(args) >= 2:
            ti = callee['args'][0] if isinstance(callee['args'][0], int) else None
            return self.forked(fr, st, name, callee, args, site, dty, t,
                               ('read', self.who(st, args[0][0]), L.T[ti]['s'] if ti is not None else '?',
                                self.deref(st, args[-1][0])))
        if len(args) >= 2 and (wire.WRITE.search(name) or WR.search(name)):
            ti = wire.strip(L, args[0][1])
            return self.forked(fr, st, name, callee, args, site, dty, t,
                               ('write', self.who(st, args[1][0]), L.T[ti]['s'] if ti is not None else '?', args[0][0],
                                self.deref(st, args[-1][0]) if len(args) > 2 else None))
        if not args or args[0][0] is None:
            return None
        x = self.deref(st, args[0][0])
        if not self.isp(x) or not isinstance(dty, int):
            return None
        m = name.rsplit('::', 1)[-1]
        off, ln = x[1][1], x[2]
        n = args[1][0] if len(args) > 1 else None
        if m in ('as_mut_slice', 'as_slice', 'deref', 'deref_mut', 'as_mut', 'borrow_mut', 'index', 'index_mut') and \
                (len(args) == 1 or L.T[args[1][1]].get('path', '').endswith('RangeFull')):
            return [(st, self.part(st, off, ln))]
        if m in ('get', 'get_mut') and n[0] == 'i':
            return self.either(st, dty, site, ('>', ln.sub(n[1]).addc(-1)) if False else self.ge(ln.sub(n[1]).addc(-1)),
                               lambda s: self.slot(s, off.add(n[1]), self.inner(dty, 0, '*')))
        if m in ('get', 'get_mut', 'index', 'index_mut') and n[0] == 'st' and \
                L.T[n[1]].get('path', '').endswith(('::RangeFrom', '::Range', '::RangeTo')):
            a = E.field(L, n, 'start', None) if 'To' not in L.T[n[1]]['path'] else ('i', K(0))
            b = E.field(L, n, 'end', None) if not L.T[n[1]]['path'].endswith('From') else ('i', ln)
            if a[0] == 'i' and b[0] == 'i':
                mk = lambda s: self.part(s, off.add(a[1]), b[1].sub(a[1]))
                c = self.both(self.ge(b[1].sub(a[1])), self.ge(ln.sub(b[1])))
                if m.startswith('get'):
                    return self.either(st, dty, site, c, mk)
                if not E.assume(st, c, True):
                    return []
                return [(st, mk(st))]
        if m in ('index', 'index_mut') and n[0] == 'i':
            if not E.assume(st, self.ge(ln.sub(n[1]).addc(-1)), True):
                return []
            return [(st, self.slot(st, off.add(n[1]), self.inner(dty, '*')))]
        if m.startswith('split_at') and n is not None and n[0] == 'i':
            chk = m.endswith('_checked')
            tt = self.inner(dty, 0) if chk else dty
            mk = lambda s: ('st', tt, (site, 'pr'), ((0, self.part(s, off, n[1])), (1, self.part(s, off.add(n[1]), ln.sub(n[1])))))
            if chk:
                return self.either(st, dty, site, self.ge(ln.sub(n[1])), mk)
            if not E.assume(st, self.ge(ln.sub(n[1])), True):
                return []
            return [(st, mk(st))]
        if m in ('split_first', 'split_first_mut', 'first', 'first_mut'):
            tt = self.inner(dty, 0)
            if m.startswith('split'):
                mk = lambda s: ('st', tt, (site, 'pr'), ((0, self.slot(s, off, self.inner(tt, 0, '*'))),
                                                         (1, self.part(s, off.addc(1), ln.addc(-1)))))
            else:
                mk = lambda s: self.slot(s, off, self.inner(tt, '*'))
            return self.either(st, dty, site, self.ge(ln.addc(-1)), mk)
        return None

    def ge(self, l):
        return engine.cge(l)

    def both(self, a, b):
        return engine.cand(a, b)

    def forked(self, fr, st, name, callee, args, site, dty, t, item):
        E = self.E
        out = []
        r = None
        if item is None:
            return None
        for m in E.models_for(name, callee['p']) if item[0] == 'seek' else ():
            r = m(E.mm.Call(E, fr, st, callee, args, site, dty, t))
            if r is not None:
                break
        for s, v in r if r is not None else E.unknown_call(fr, st, args, site, dty, name):
            if v is None or v[0] != 'en':
                self.add(s, *item)
                out.append((s, v))
                continue
            for vi in (0, 1):
                s2 = s.copy()
                if not E.assume(s2, ('isv', v[2], (vi,), (0, 1))):
                    continue
                if vi == 0:
                    x = E.payload(self.L, v, 0, '0')
                    self.add(s2, *(item + (x,)))
                else:
                    self.add(s2, 'failed', item[0])
                out.append((s2, v))
        return out


def place_of(v):
    return v[1], tuple(p[1] if p[0] == 'f' else p for p in v[2])


def eq(st, a, b):
    d = a.sub(b)
    return st.F.entails(d) and st.F.entails(d.neg())


def num(E, L, v):
    """the number of a page index"""
    x = E.field(L, v, '0', None) if v is not None and v[0] == 'st' else None
    return x[1] if x is not None and x[0] == 'i' else None


def run(ctx):
    L = ctx.lib
    place(ctx, L)
    database(ctx, L)
    opening(ctx, L)
    load(ctx, L)
    iterator(ctx, L)
    flush(ctx, L)


def place(ctx, L):
    f = ctx.fn('pdb::PageIndex::offset')
    P = Pages(ctx.crates, L)
    E = P.E
    keep = {}

    def init(E_, st, fr, j, ti):
        v = E_.fresh(L, ('off', j), ti)
        keep[j] = v
        if j == 0:
            keep['n'] = num(E_, L, P.deref(st, v))
        return v
    sts, fr = E.paths(f, init, 'c24o')
    for st in sts:
        n = num(E, L, P.deref(st, keep[0]))
        ps = keep[1][1]
        v = st.mem.get((fr.id, 0))
        want = E.arith(st, 'Mul', n, ps, {'k': 'int', 'bits': 64, 'signed': False, 's': 'u64'}, None)
        safe = all(o.ok for o in E.ob.values())
        ctx.ob(safe and v is not None and v[0] == 'i' and eq(st, v[1], want), 'offset', ctx.where(f),
               'the place of a page is not its number times the page size', 'offset = number * page size')
    ctx.ob(sts, 'offset0', ctx.where(f), 'pages have no place')


DB = 'pdb::io::Database'


def database(ctx, L):
    """what a database is made of: the names of the fields"""
    a = ctx.adt(DB)
    fs = {x['n'] for x in a['variants'][0]['f']}
    ctx.need({'io', 'db_type', 'content'} <= fs, 'fields of Database')
    lp = ctx.adt('pdb::io::LazyPage')
    ctx.need([v['n'] for v in lp['variants']] == ['NotLoaded', 'Loaded'], 'variants of LazyPage')


class Db:
    """a database in any state: a list of pages that starts with page 1"""

    def __init__(self, P, st, ti):
        E, L = P.E, P.L
        self.root = ('db', 0)
        v = E.fresh(L, ('database',), ti)
        c = E.field(L, v, 'content', None)
        self.header = E.field(L, c, 'header', None)
        self.size = E.field(L, self.header, 'page_size', None)[1]
        self.type = E.field(L, v, 'db_type', None)
        self.count = V(sym(('count',), 0, 1 << 32))
        c = ('st', c[1], c[2], tuple(sorted([x for x in c[3] if x[0] != 'pages'] + [('pages', P.pages(K(0), self.count))])))
        v = ('st', v[1], v[2], tuple(sorted([x for x in v[3] if x[0] != 'content'] + [('content', c)])))
        st.mem[self.root] = v
        self.io = (self.root, ('io',))


def strip(L, ti):
    while L.T[ti]['k'] == 'ref':
        ti = L.T[ti]['t']
    return ti


def check_slot(ctx, P, st, fr, f, key, ret, want, size, dbt, io, who):
    """the answer is the page in slot `want`; it has been read from its own place unless it was there"""
    E, L = P.E, P.L
    w = ctx.where(f)
    ok = ret is not None and ret[0] == 'ref' and ret[1][0] == 'slot' and eq(st, ret[1][1], want)
    if not ctx.ob(ok, key + ':slot', w, '%s answers with another page than the one that is asked for' % who,
                  '%s: slot %s' % (who, want)):
        return None
    s = st.mem[ret[1]]
    vs = st.vars.get(s[2]) if s[0] == 'en' else None
    ctx.ob(vs == frozenset((1,)), key + ':loaded', w, '%s answers with a page that is not loaded' % who)
    log = [x for x in P.log(st)]
    reads = [x for x in log if x[0] == 'read']
    others = {k for k in st.mem if k[0] == 'slot' and k != ret[1] and st.mem[k] != E.fresh(L, ('slot', k[1]), s[1])}
    ctx.ob(not others, key + ':others', w, '%s changes other pages' % who)
    untouched = s[0] == 'en' and s[3] == E.fresh(L, ('slot', ret[1][1]), s[1])[3]
    ctx.ob(not [x for x in log if x[0] in ('write', 'failed')], key + ':io', w, '%s goes on after a failure, or writes' % who)
    if untouched:
        ctx.ob(not reads, key + ':reread', w, '%s reads a page that is loaded already' % who)
        return s
    n = want.addc(1)
    good = len(reads) == 1 and reads[0][2] == 'pdb::Page'
    if good:
        at = log.index(reads[0])
        sk = log[at - 1] if at else None
        m = E.arith(st, 'Mul', n, size, {'k': 'int', 'bits': 64, 'signed': False, 's': 'u64'}, None)
        good = sk is not None and sk[0] == 'seek' and sk[1] == reads[0][1] and sk[2] == 'start' and eq(st, sk[3], m)
        ctx.ob(sk is None or sk[1] == io, key + ':stream', w, '%s reads from another stream than that of the database' % who)
    ctx.ob(good, key + ':place', w, '%s does not read the page once from its own place' % who,
           '%s: read at number * page size' % who)
    if reads:
        a = reads[0][3]
        x0, x1 = (E.field(L, a, i, None) if a is not None and a[0] == 'st' else None for i in (0, 1))
        ctx.ob(x0 is not None and x0[0] == 'i' and eq(st, x0[1], size) and x1 == dbt, key + ':args', w,
               '%s reads with another page size or kind of database' % who)
        pl = E.payload(L, s, 1, '0')
        ctx.ob(pl == reads[0][-1], key + ':kept', w, '%s does not keep the page that has been read' % who)
    return s


def opening(ctx, L):
    """opening: a slot for every page in front of the first unused one, as far as the file goes; nothing is loaded"""
    for nm in ('open', 'open_non_persistent'):
        fs = [f for f in L.fns if f['path'].startswith(DB + '::<') and f.get('name') == nm and 'blocks' in f]
        f = ctx.need(fs, 'Database::' + nm)[0]
        P = Pages(ctx.crates, L)
        E = P.E
        keep = {}

        def init(E_, st, fr, j, ti):
            keep[j] = E_.fresh(L, ('open', j), ti)
            return keep[j]
        sts, fr = E.paths(f, init, 'c24' + nm)
        n = 0
        for st in sts:
            v = st.mem.get((fr.id, 0))
            if E.fails(L, st, v) or not E.assume(st, ('isv', v[2], (0,), (0, 1))):
                continue
            n += 1
            db = E.payload(L, v, 0, '0')
            rd = [x for x in P.log(st) if x[0] == 'read']
            ok = len(rd) == 1 and rd[0][2] == 'pdb::io::LazyDatabase' and not [x for x in P.log(st) if x[0] != 'read']
            ctx.ob(ok, nm + ':reads', ctx.where(f), '%s does not read the database once' % nm)
            if not ok:
                continue
            a = rd[0][3]
            ctx.ob(E.field(L, a, 0, None) == keep[1], nm + ':kind', ctx.where(f), '%s reads another kind of database' % nm)
            ctx.ob(E.field(L, db, 'content', None) == rd[0][-1] and E.field(L, db, 'db_type', None) == keep[1] and
                   E.field(L, db, 'io', None) == st.mem[(fr.id, 1)], nm + ':parts', ctx.where(f),
                   '%s does not keep the stream, the kind and what it has read' % nm, '%s: keeps what it has read' % nm)
        ctx.ob(n, nm + ':never', ctx.where(f), '%s never succeeds' % nm)
    f = ctx.fn('<pdb::io::LazyDatabase as binrw::binread::BinRead>::read_options')
    w = wire.Wire(ctx.crates)
    E = w.E

    def call(fr, st, name, callee, args, site, dty, t):
        r = w.intercept(fr, st, name, callee, args, site, dty, t)
        if r is not None and SEEK.search(name) and len(args) == 2 and args[1][0][0] == 'en' and \
                st.vars.get(args[1][0][2]) == frozenset((1,)):
            for s, v in r:
                if v is not None and v[0] == 'en' and st.vars.get(v[2]) != frozenset((1,)):
                    s.mem[END] = E.payload(L, v, 0, '0')
        return r
    E.intercept = call
    outs, _ = w.reader(f)
    ctx.floor('paths of opening', len(outs), 1)
    for st, v in outs:
        pg = E.field(L, v, 'pages', None) if v is not None else None
        h = E.field(L, v, 'header', None) if v is not None else None
        ok = pg is not None and pg[0] == 'seq' and h is not None and h[0] == 'st'
        nu = num(E, L, E.field(L, h, 'next_unused_page', None)) if ok else None
        if ok and nu is not None:
            ok = st.F.entails(pg[2].sub(nu).addc(1)) or filelong(E, L, st, pg[2], h)
        ctx.ob(ok, 'slots', ctx.where(f), 'opening a database does not make room for all of its pages',
               'as many slots as pages')


def filelong(E, L, st, n, h):
    """n is at least the number of pages that the file has room for: its size over the page size, the header not counted"""
    ps = E.field(L, h, 'page_size', None)[1]
    end = st.mem.get(END)
    if end is None:
        return False
    for s in SYM.values() if isinstance(SYM, dict) else SYM:
        k = s[0]
        if isinstance(k, tuple) and len(k) == 3 and k[0] in ('div', 'divceil') and isinstance(k[1], Lin):
            q = V(sym(*s))
            # by zero nothing is divided: a page of size 0 is taken for one of size 1
            if eq(st, k[1], end[1]) and (eq(st, k[2], ps) or eq(st, k[2], K(1)) and st.F.entails(ps.neg().addc(1))) and \
                    st.F.entails(n.sub(q)):
                return True
    return False


def load(ctx, L):
    fs = [f for f in L.fns if f['path'].startswith(DB + '::<') and f.get('name') == 'load_page' and 'blocks' in f]
    f = ctx.need(fs, 'Database::load_page')[0]
    P = Pages(ctx.crates, L)
    E = P.E
    keep = {}

    def init(E_, st, fr, j, ti):
        if j == 0:
            keep['db'] = Db(P, st, strip(L, ti))
            return ('ref', keep['db'].root, (), True)
        keep[j] = E_.fresh(L, ('lp', j), ti)
        return keep[j]
    sts, fr = E.paths(f, init, 'c24l')
    db = keep['db']
    n = num(E, L, keep[1])
    oks = 0
    for st in sts:
        v = st.mem.get((fr.id, 0))
        if E.fails(L, st, v):
            # an error although the page is there and could be read?
            if not [x for x in P.log(st) if x[0] == 'failed']:
                s = st.copy()
                inside = E.assume(s, engine.cand(engine.cge(n.addc(-1)), engine.cge(db.count.sub(n))), True)
                ctx.ob(not inside, 'load:refused', ctx.where(f), 'load_page refuses a page that is there')
            continue
        if not E.assume(st, ('isv', v[2], (0,), (0, 1))):
            continue
        oks += 1
        p = E.payload(L, v, 0, '0')
        check_slot(ctx, P, st, fr, f, 'load', p, n.addc(-1), db.size, db.type, db.io, 'load_page')
    ctx.ob(oks >= 2, 'load:paths', ctx.where(f), 'load_page does not tell loaded from other pages')


def iterator(ctx, L):
    """PageIterator: starts with the whole list, the first page and the last page of its table; each step keeps the list in
    step with the number of its first page"""
    IT = 'pdb::io::PageIterator'
    a = ctx.adt(IT)
    for nm in ('iter_pages', 'iter_pages_for_table'):
        fs = [f for f in L.fns if f['path'].startswith(DB + '::<') and f.get('name') == nm and 'blocks' in f]
        f = ctx.need(fs, 'Database::' + nm)[0]
        P = Pages(ctx.crates, L)
        E = P.E
        keep = {}

        def init(E_, st, fr, j, ti):
            if j == 0:
                keep['db'] = Db(P, st, strip(L, ti))
                return ('ref', keep['db'].root, (), True)
            keep[j] = E_.fresh(L, ('ip', j), ti)
            return keep[j]
        sts, fr = E.paths(f, init, 'c24' + nm)
        db = keep['db']
        oks = 0
        for st in sts:
            v = st.mem.get((fr.id, 0))
            if E.fails(L, st, v) or not E.assume(st, ('isv', v[2], (0,), (0, 1))):
                continue
            oks += 1
            it = E.payload(L, v, 0, '0')
            g = lambda n: E.field(L, it, n, None)
            pg = P.deref(st, g('db_pages'))
            w = ctx.where(f)
            ok = P.isp(pg) and g('db_pages_offset')[0] == 'i' and eq(st, pg[1][1].addc(1), g('db_pages_offset')[1]) and \
                eq(st, pg[2], db.count.sub(pg[1][1])) and st.F.entails(pg[1][1].neg())
            ctx.ob(ok, nm + ':list', w, '%s does not start with the whole list of pages' % nm, nm + ': whole list')
            ctx.ob(g('db_page_size')[0] == 'i' and eq(st, g('db_page_size')[1], db.size) and g('db_type') == db.type and
                   P.who(st, g('db_io')) == db.io, nm + ':db', w, '%s reads pages with another size, kind or stream' % nm)
            nx, la = g('next_page'), g('last_page')
            vs = st.vars.get(nx[2]) if nx[0] == 'en' else None
            first = E.payload(L, nx, 1, '0') if vs == frozenset((1,)) else None
            tf, tl = (table(st, E, L, x) for x in (first, la))
            ctx.ob(tf is not None and tl is not None and tf[0] == tl[0] and (tf[1], tl[1]) == ('first_page', 'last_page'),
                   nm + ':ends', w, '%s does not go from the first to the last page of a table' % nm, nm + ': first to last page')
        ctx.ob(oks, nm + ':never', ctx.where(f), '%s never succeeds' % nm)
    fs = [f for f in L.fns if f.get('name') == 'next' and f.get('trait', '').endswith('FallibleIterator') and
          IT in f['path'] and 'blocks' in f]
    f = ctx.need(fs, 'PageIterator::next')[0]
    kinds = set()
    for atlast in (False, True):
        step(ctx, L, f, atlast, kinds)
    ctx.ob(kinds == {'end', 'read', 'loaded', 'last', 'follow'}, 'next:kinds', ctx.where(f),
           'steps of the iterator are missing: %s' % sorted(kinds))


def step(ctx, L, f, atlast, kinds):
    """one step of the iterator, for any page or for one that is the last"""
    P = Pages(ctx.crates, L)
    E = P.E
    keep = {}
    root = ('it', 0)

    def init(E_, st, fr, j, ti):
        v = E_.fresh(L, ('it',), strip(L, ti))
        off = E_.field(L, v, 'db_pages_offset', None)[1]
        E_.add_fact(st, off.addc(-1))
        keep['off'] = off
        keep['count'] = V(sym(('left',), 0, 1 << 32))
        pr = ('list', 0)
        st.mem[pr] = P.pages(off.addc(-1), keep['count'])
        for n in ('next_page', 'last_page', 'db_page_size', 'db_type'):
            keep[n] = E_.field(L, v, n, None)
        if atlast:
            keep['last_page'] = E_.payload(L, keep['next_page'], 1, '0')
        st.mem[('io', 0)] = E_.fresh(L, ('io',), [i for i, t in enumerate(L.T) if t['k'] == 'param'][0])
        keep['db_io'] = ('ref', ('io', 0), (), True)
        over = {'db_pages': ('ref', pr, (), True), 'db_io': keep['db_io'], 'last_page': keep['last_page']}
        st.mem[root] = ('st', v[1], v[2], tuple(sorted([x for x in v[3] if x[0] not in over] + list(over.items()))))
        return ('ref', root, (), True)
    sts, fr = E.paths(f, init, 'c24n')
    w = ctx.where(f)
    nx = keep['next_page']
    for st in sts:
        v = st.mem.get((fr.id, 0))
        had = st.vars.get(nx[2])
        n = num(E, L, E.payload(L, nx, 1, '0'))
        me = st.mem[root]
        g = lambda k: E.field(L, me, k, None)
        pg = P.deref(st, g('db_pages'))
        fails = E.fails(L, st, v)
        # the invariant: the list starts with the page of the offset, or is empty
        inv = P.isp(pg) and eq(st, pg[1][1].addc(1), g('db_pages_offset')[1]) and st.F.entails(g('db_pages_offset')[1].addc(-1)) \
            or pg is not None and pg[0] == 'seq' and st.F.entails(pg[2].neg())
        ctx.ob(inv, 'next:list', w, 'the list of pages is out of step with the number of its first page', 'next keeps the list in step')
        ctx.ob(g('db_page_size') == keep['db_page_size'] and g('db_type') == keep['db_type'] and g('db_io') == keep['db_io'] and
               g('last_page') == keep['last_page'], 'next:db', w, 'next changes the page size, kind, stream or last page')
        if fails:
            if not [x for x in P.log(st) if x[0] == 'failed']:
                s = st.copy()
                inside = E.assume(s, engine.cand(engine.cge(n.sub(keep['off'])),
                                                 engine.cge(keep['off'].add(keep['count']).addc(-1).sub(n))), True)
                ctx.ob(not inside or had == frozenset((0,)), 'next:refused', w, 'next refuses a page that is there')
            continue
        if v is None or v[0] != 'en' or not E.assume(st, ('isv', v[2], (0,), (0, 1))):
            ctx.ob(False, 'next:answer', w, 'the answer of next is not known')
            continue
        o = E.payload(L, v, 0, '0')
        vs = st.vars.get(o[2])
        if had == frozenset((0,)):
            ctx.ob(vs == frozenset((0,)) and not P.log(st), 'next:end', w, 'next goes on after the last page')
            kinds.add('end')
            continue
        if not ctx.ob(vs == frozenset((1,)), 'next:none', w, 'next skips a page or ends before the last one'):
            continue
        ret = E.payload(L, o, 1, '0')
        s = check_slot(ctx, P, st, fr, f, 'next', ret, n.addc(-1), keep['db_page_size'][1], keep['db_type'],
                       P.who(st, keep['db_io']), 'next')
        if s is None:
            continue
        kinds.add('read' if [x for x in P.log(st) if x[0] == 'read'] else 'loaded')
        # where it goes from here
        nn = g('next_page')
        nvs = st.vars.get(nn[2]) if nn[0] == 'en' else None
        page = E.payload(L, s, 1, '0')
        follow = num(E, L, E.field(L, E.field(L, page, 'header', None), 'next_page', None))
        last = num(E, L, keep['last_page'])
        for vi in (0, 1):
            q = st.copy()
            if nvs is None or not E.assume(q, ('isv', nn[2], (vi,), (0, 1))):
                continue
            if vi == 0:
                ctx.ob(eq(q, n, last), 'next:stops', w, 'next stops before the last page', 'stops at the last page only')
                kinds.add('last')
            else:
                x = num(E, L, E.payload(L, nn, 1, '0'))
                ctx.ob(not atlast and x is not None and eq(q, x, follow), 'next:follow', w,
                       'next does not go on with the next page of the page, or goes on after the last one', 'goes on with next_page')
                kinds.add('follow')


def table(st, E, L, v):
    """(table, field) of a page index that comes from a table"""
    if v is None or v[0] != 'st':
        return None
    k = v[2]
    if isinstance(k, tuple) and len(k) >= 2 and k[-1] in ('first_page', 'last_page'):
        return k[:-1], k[-1]
    return None


def flush(ctx, L):
    fs = [f for f in L.fns if f['path'].startswith(DB + '::<') and f.get('name') == 'flush' and 'blocks' in f]
    f = ctx.need(fs, 'Database::flush')[0]
    P = Pages(ctx.crates, L)
    E = P.E
    keep = {}

    def init(E_, st, fr, j, ti):
        keep['db'] = Db(P, st, strip(L, ti))
        return ('ref', keep['db'].root, (), True)
    sts, fr = E.paths(f, init, 'c24f')
    db = keep['db']
    oks = 0
    for st in sts:
        v = st.mem.get((fr.id, 0))
        if E.fails(L, st, v) or not E.assume(st, ('isv', v[2], (0,), (0, 1))):
            continue
        oks += 1
        log = P.log(st)
        ok = len(log) == 2 and log[0][0] == 'seek' and log[0][1] == db.io and log[0][2] == 'start' and eq(st, log[0][3], K(0)) and \
            log[1][0] == 'write' and log[1][1] == db.io and log[1][2] == 'pdb::io::LazyDatabase' and log[1][3][0] == 'ref' and \
            place_of(log[1][3]) == (db.root, ('content',))
        ctx.ob(ok, 'flush', ctx.where(f), 'flush does not write the header and the pages from the start of the file', 'flush: from 0')
    ctx.ob(oks, 'flush:never', ctx.where(f), 'flush never succeeds')
    own(ctx, L, 'pdb::io::LazyDatabase', layout_database)
    own(ctx, L, 'pdb::io::LazyPage', layout_slot)
    own(ctx, L, 'pdb::Page', layout_page)
    own(ctx, L, 'pdb::PageContent', layout_content)
    own(ctx, L, 'pdb::DataPageContent', layout_data)
    own(ctx, L, 'pdb::IndexPageContent', layout_index)
    filler(ctx, L)


def own(ctx, L, path, check):
    """walk the writer of a type on any value"""
    g = ctx.fn('<%s as binrw::binwrite::BinWrite>::write_options' % path)
    w = wire.Wire(ctx.crates)
    E = w.E
    E.cr = L

    def call(fr, st, name, callee, args, site, dty, t):
        if name == 'binrw::__private::write_zeroes':
            p = w.trace(st)
            r = w.intercept(fr, st, name, callee, args, site, dty, t)
            for s, v in r or ():
                q = w.trace(s)
                if q and q != p and q[-1][0] == 'pad':
                    s.mem[wire.TR] = ('tr', q[:-1] + (('zeros',) + q[-1][1:],))
            return r
        return w.intercept(fr, st, name, callee, args, site, dty, t)
    E.intercept = call
    ti = [i for i, t in enumerate(L.T) if t.get('path') == path and t['k'] == 'adt'][0]
    keep = {}
    st = engine.State()
    v = E.fresh(L, ('val',), ti)
    size = V(sym(('quarter of the page size',), 20, 1 << 30)).scale(4)
    fs = [(i, t) for i, t in enumerate(g['locals'][:g['argc'] + 1])]
    ati = g['locals'][4]['t']
    a = E.fresh(L, ('wargs',), ati)
    t = L.T[ati]
    if t['k'] == 'tuple' and len(t['ts']) == 1 and L.T[t['ts'][0]]['s'] == 'u32':
        a = ('st', ati, ('wargs',), ((0, ('i', size)),))
    elif t['k'] == 'adt' and a[0] == 'st' and [x['n'] for x in L.adts[t['path']]['variants'][0]['f']] == ['page_size']:
        a = ('st', ati, ('wargs',), (('page_size', ('i', size)),))
    w.args = lambda cr, s, rarg, ti_, g_: a
    n = 0
    outs = w.writer(g, st, v, {2: (a, ati)})
    for s in outs:
        n += 1
        its = []
        for it in w.items(s) or [('lost',)]:
            its.append(it)
        check(ctx, L, E, w, s, v, size, its, ctx.where(g), path)
    ctx.floor('paths writing ' + path, n, 1)


def arg(E, L, it):
    """the page size that is given to the writer of an item"""
    a = it[4]
    if a is None or a[0] != 'st':
        return None
    x = E.field(L, a, 0 if L.T[a[1]]['k'] == 'tuple' else 'page_size', None)
    return x[1] if x is not None and x[0] == 'i' else None


def fit(ctx, s, total, want, w, path):
    ctx.ob(total is not None and eq(s, total, want), 'size:' + path, w, 'what is written of %s does not take exactly the room it has' % path,
           '%s takes %s' % (path, want))


def layout_database(ctx, L, E, w, s, v, _, its, where, path):
    ps = E.field(L, E.field(L, v, 'header', None), 'page_size', None)[1]
    vals = [x for x in its if x[0] == 'val']
    ok = [x[1] for x in vals] == ['pdb::Header', 'alloc::vec::Vec<pdb::io::LazyPage>'] and its[0] == vals[0] and its[-1] == vals[1] \
        and vals[0][2] == E.field(L, v, 'header', None) and vals[1][2] == E.field(L, v, 'pages', None)
    if not ctx.ob(ok, 'file', where, 'the header and the pages are not written one after the other'):
        return
    ctx.ob(arg(E, L, vals[1]) is not None and eq(s, arg(E, L, vals[1]), ps), 'file:size', where,
           'pages are written with another page size than that of the database', 'pages get the page size of the header')
    p1 = [V(sym(('wirestart',), 0, E.IOMAX))]
    pads = [x for x in its if x[0] in ('zeros', 'pad')]
    ctx.ob(len(pads) <= 1 and all(x[0] in ('zeros', 'pad', 'val') for x in its), 'file:pad', where, 'the header is not padded once')
    # start + page size - position after the header
    end = after_header(E, w, s)
    if pads and pads[0][1] is not None and pads[0][1][0] == 'i':
        x = pads[0][1][1]
        ctx.ob(end is not None and eq(s, x.add(end).sub(p1[0]), ps), 'file:header', where,
               'the header does not take the place of one page', 'header padded to a page')
    else:
        ctx.ob(end is not None and s.F.entails(end.sub(p1[0]).sub(ps)), 'file:header', where, 'the header is not padded to a page')


def after_header(E, w, s):
    """where the stream stands after the header"""
    ps = [x[1][1] for x in w.trace(s) or () if x[0] == 'pos' and x[1] is not None and x[1][0] == 'i']
    return ps[-1] if ps else None


def layout_slot(ctx, L, E, w, s, v, size, its, where, path):
    vs = s.vars.get(v[2])
    if vs == frozenset((0,)):
        ok = len(its) == 1 and its[0][0] == 'pad' and its[0][1] is not None and its[0][1][0] == 'i' and eq(s, its[0][1][1], size)
        ctx.ob(ok, 'slot:skip', where, 'a page that is not loaded is not passed over by exactly one page', 'not loaded: passed over')
    elif vs == frozenset((1,)):
        ok = len(its) == 1 and its[0][0] == 'val' and its[0][1] == 'pdb::Page' and its[0][2] == E.payload(L, v, 1, '0') and \
            arg(E, L, its[0]) is not None and eq(s, arg(E, L, its[0]), size)
        ctx.ob(ok, 'slot:write', where, 'a page that is loaded is not written once with the page size', 'loaded: written')
    else:
        ctx.ob(False, 'slot', where, 'it is not known what is written for a slot')


def layout_page(ctx, L, E, w, s, v, size, its, where, path):
    ok = [x[1] if x[0] == 'val' else x[0] for x in its] == ['pdb::PageHeader', 'pdb::PageContent'] and \
        its[1][2] == E.field(L, v, 'content', None) and arg(E, L, its[1]) is not None and eq(s, arg(E, L, its[1]), size)
    ctx.ob(ok, 'page', where, 'a page is not its header and its content', 'page: header, content')


def layout_content(ctx, L, E, w, s, v, size, its, where, path):
    ok = len(its) == 1 and its[0][0] == 'val' and its[0][1] in ('pdb::DataPageContent', 'pdb::IndexPageContent') and \
        arg(E, L, its[0]) is not None and eq(s, arg(E, L, its[0]), size)
    ctx.ob(ok, 'content', where, 'the content of a page is not written once with the page size', 'content: %s' % (its[0][1] if ok else ''))


FIXED = {'pdb::DataPageHeader': 8, 'pdb::IndexPageHeader': 28, 'pdb::PageHeader': 32, 'pdb::IndexEntry': 4}


def room(ctx, E, L, s, its):
    """how many bytes a list of items takes"""
    tot = K(0)
    for it in its:
        if it[0] in ('pad', 'zeros'):
            if it[1] is None or it[1][0] != 'i':
                return None
            tot = tot.add(it[1][1])
        elif it[0] == 'val':
            m = re.match(r'alloc::vec::Vec<(.*)>$', it[1])
            n = FIXED.get(m.group(1) if m else it[1])
            if it[1] == 'pdb::EmptyIndexEntries' and it[2] is not None and it[2][0] == 'st':
                x = E.field(L, it[2], '0', None)
                if x is None or x[0] != 'i':
                    return None
                tot = tot.add(x[1].scale(FIXED['pdb::IndexEntry']))
            elif n is None:
                return None
            elif m:
                if it[2] is None or it[2][0] != 'seq':
                    return None
                tot = tot.add(it[2][2].scale(n))
            else:
                tot = tot.addc(n)
        else:
            return None
    return tot


def layout_data(ctx, L, E, w, s, v, size, its, where, path):
    fit(ctx, s, room(ctx, E, L, s, its), size.addc(-32), where, path)


layout_index = layout_data


def filler(ctx, L):
    """the filler of an index page: as many empty entries as it says"""
    g = ctx.fn('<pdb::EmptyIndexEntries as binrw::binwrite::BinWrite>::write_options')
    E = engine.Engine(ctx.crates)
    E.cr = L
    CNT = ('count', 0)
    bad, keep, due = [], {}, {}

    def call(fr, st, name, callee, args, site, dty, t):
        if (wire.WRITE.search(name) or WR.search(name)) and len(args) >= 2:
            if L.T[wire.strip(L, args[0][1])]['s'] != 'pdb::IndexEntry':
                bad.append(t.get('ln'))
            c = st.mem.get(CNT)
            # one more is due (the last word on this site is that of the fixpoint); when all goes well
            due[site] = c is not None and c[0] == 'i' and st.F.entails(keep['n'].sub(c[1]).addc(-1))
            r = [(s, v) for s, v in E.unknown_call(fr, st, args, site, dty, name) if E.assume(s, ('isv', v[2], (0,), (0, 1)))]
            for s, v in r:
                s.mem[CNT] = ('i', c[1].addc(1)) if c is not None and c[0] == 'i' else ('op', 'lost', None)
            return r
        return None
    E.intercept = call

    def init(E_, st, fr, j, ti):
        v = E_.fresh(L, ('fill', j), ti)
        if j == 0:
            st.mem[CNT] = ('i', K(0))
            x = E_.load(st, L, v[1], v[2])
            keep['n'] = E_.field(L, x, '0', None)[1]
        return v
    st, fr = E.analyse(g, init, 'c24e')
    c = st.mem.get(CNT) if st is not None else None
    v = st.mem.get((fr.id, 0)) if st is not None else None
    s = st.copy() if st is not None else None
    ok = s is not None and c is not None and c[0] == 'i' and not bad
    ctx.ob(ok and due and all(due.values()) and s.F.entails(c[1].sub(keep['n'])), 'filler', ctx.where(g), 'the filler of an index page is not as many entries as it says',
           'filler: one entry per count')
