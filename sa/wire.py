"""Wire signatures: what a reader takes from its stream and what a writer puts into it, path by path.

Readers and writers are walked with their paths kept apart (failing ones joined).  Every read or write of a value, magic
number or padding is one item of the path's trace; values are those of the abstract interpreter.  The writer is walked
from the state in which the reader has answered with a value, on that value."""
import re
import cg
import engine
from dom import K, V, sym

READ = re.compile(r'(binread::BinRead>::read_options|impl binrw::binread::BinRead for .*>::read_options|^binrw::binread::BinRead::read_options)$')
WRITE = re.compile(r'(binwrite::BinWrite>::write_options|impl binrw::binwrite::BinWrite for .*>::write_options|^binrw::binwrite::BinWrite::write_options)$')
PURE = re.compile(r'(Deref>::deref|Deref::deref|core::num::nonzero::NonZero::<\w+>::get)$')
ROUNDS = re.compile(r'Iterator::(try_)?for_each$')
TR = ('wire', 0)
PEEK = ('wire', 2)        # what was read and then gone back over


def strip(cr, ti):
    while ti is not None and cr.T[ti]['k'] == 'ref':
        ti = cr.T[ti]['t']
    return ti


class Wire:
    def __init__(self, crates, E=None):
        self.E = E or engine.Engine(crates)
        self.E.split = True
        self.E.intercept = self.intercept
        self.E.MAXDEPTH = max(self.E.MAXDEPTH, 10)
        self.odd = []
        self.home = None
        self.memo = {}
        self.alias = {}
        self.inside = 0
        self.customs = set()
        self.deep = set()       # types whose own readers and writers are followed instead of standing for one item

    # -- traces
    def trace(self, st):
        v = st.mem.get(TR)
        return v[1] if v is not None else None

    def add(self, st, *item):
        t = self.trace(st)
        st.mem[TR] = ('tr', (t if t is not None else (('lost',),)) + (item,))

    def at(self, st):
        """where the stream stands"""
        ks = self.E.iops(st, *self.home) if self.home else ()
        return st.mem[ks[0]][1] if len(ks) == 1 and st.mem[ks[0]][0] == 'i' else None

    def start(self, st, v):
        self.alias.clear()
        self.home = (v[1], tuple(v[2])) if v is not None and v[0] == 'ref' else None
        if self.home:
            for k in self.E.iops(st, *self.home):
                del st.mem[k]
            st.mem[('iop',) + self.home] = ('i', V(sym(('wirestart',), 0, self.E.IOMAX)))

    def moved(self, st, p0):
        p1 = self.at(st)
        return p1.sub(p0) if p0 is not None and p1 is not None else None

    def base(self, st, v, ti=None, n=0):
        """the place a stream argument comes down to, and the adapters on the way"""
        if v is None or n > 10:
            return None
        if v[0] == 'ref':
            x = self.E.load(st, self.E.cr, v[1], v[2])
            if x is not None and x[0] in ('ref', 'st'):
                b = self.base(st, x, None, n + 1)
                if b is not None:
                    if x[0] == 'st' and b[0] == self.home:
                        self.alias[(v[1], v[2])] = b[1]
                    return b
            if (v[1], v[2]) in self.alias:      # an adapter that has been used before
                return self.home, self.alias[(v[1], v[2])]
            return (v[1], v[2]), ()
        if v[0] == 'st':
            for k, x in v[3]:
                if x is not None and x[0] in ('ref', 'st'):
                    b = self.base(st, x, None, n + 1)
                    if b is not None and b[0] == self.home:
                        t = self.E.cr.T[v[1]]['s'].split('<')[0] if v[1] is not None else '?'
                        return b[0], b[1] + (t,)
        return None

    def mine(self, st, v):
        """None: not the stream of this reader or writer; else the adapters between"""
        b = self.base(st, v)
        if b is None:
            return ('?',)
        if self.home is None or b[0] == self.home:
            return b[1]
        return None

    def endian(self, st, v):
        v = self.deref(st, v)
        if v is None or v[0] != 'en':
            return None
        vs = st.vars.get(v[2])
        return ('e', tuple(sorted(vs))) if vs is not None and len(vs) == 1 else ('v', v[2])

    def deref(self, st, v, n=0):
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.E.cr, v[1], v[2])
            n += 1
        return v

    def fork(self, fr, st, v, dty):
        """the Ok and the Err outcome of a Result value"""
        E = self.E
        res = []
        if v is None or v[0] != 'en':
            return [(st, v, None)]
        for vi in (0, 1):
            s = st.copy()
            if E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                res.append((s, v, vi))
        return res

    def plain(self, fr, st, name, callee, args, site, dty, t, models=True):
        E = self.E
        if models:
            for m in E.models_for(name, callee['p']):
                r = m(E.mm.Call(E, fr, st, callee, args, site, dty, t))
                if r is not None:
                    return r
        return E.unknown_call(fr, st, args, site, dty, name)

    def intercept(self, fr, st, name, callee, args, site, dty, t):
        E = self.E
        cr = fr.cr
        r = self.counts(fr, st, name, callee, args, site, dty, t)
        if r is not None:
            return r
        if name == 'binrw::__private::restore_position_variant':
            pv = args[1][0]
            out = []
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi == 0:
                        self.seek(s2, 0, pv)
                    out.append((s2, v2))
            return out
        if not self.inside and not READ.search(name) and not WRITE.search(name):
            f = E.local_fn(fr, callee)
            if f is not None and 'blocks' in f and f['kind'] != 'closure' and self.repeats(f):
                for i, (a, ti) in enumerate(args):
                    if a is not None and a[0] == 'ref' and a[3] and self.mine(st, a) not in (None, ('?',)):
                        return self.custom(fr, st, f, callee, args, site, dty, t, i)
        if READ.search(name) and len(args) == 3:
            via = self.mine(st, args[0][0])
            if via is None:
                return None
            ti = callee['args'][0]
            ty = cr.T[ti]['s'] if isinstance(ti, int) else '?'
            if ty in self.deep:
                return self.follow(fr, st, callee, args, site, t)
            en = self.endian(st, args[1][0])
            nz = re.match(r'core::option::Option<core::num::nonzero::NonZero<(\w+)>>$', ty)
            local = cr.T[ti]['k'] == 'adt' and cr.T[ti]['path'] in cr.adts if isinstance(ti, int) else True
            av = self.deref(st, args[2][0])
            p0 = self.at(st)
            out = []
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t, not local):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi != 1:
                        x = E.payload(cr, v2, 0, '0') if v2 is not None and v2[0] == 'en' else None
                        if nz and x is not None and x[0] == 'en':
                            E.refine(s2, x[2], frozenset((1,)))
                            x = self.pure(s2, cr, 'core::num::nonzero::NonZero::get', (E.payload(cr, x, 1, '0'),), nz.group(1))
                            ty = nz.group(1)
                        if av is not None and av[0] == 'tr' and av[1][0][0] == 'va' and x is not None and x[0] == 'seq':
                            n = av[1][0][1]
                            if n is not None and n[0] == 'i':
                                E.add_fact(s2, x[2].sub(n[1]))
                                E.add_fact(s2, n[1].sub(x[2]))
                        self.add(s2, 'val', ty, x if x is not None else ('op', site, None), en, av, via, None if via else self.moved(s2, p0))
                    elif nz:        # a zero is no NonZero
                        self.add(s2, 'val', nz.group(1), ('i', K(0)), en, av, via)
                    out.append((s2, v2))
            return out
        if WRITE.search(name) and len(args) == 4:
            via = self.mine(st, args[1][0])
            if via is None:
                return None
            ti = strip(cr, callee['args'][0])
            ty = cr.T[ti]['s']
            if ty in self.deep:
                return self.follow(fr, st, callee, args, site, t)
            en = self.endian(st, args[2][0])
            x = self.deref(st, args[0][0])
            av = self.deref(st, args[3][0])
            p0 = self.at(st)
            out = []
            for s, v in E.unknown_call(fr, st, args, site, dty, name):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi != 1:
                        self.as_read(s2, ty, x, p0)
                        self.add(s2, 'val', ty, x if x is not None else ('op', site, None), en, av, via)
                    out.append((s2, v2))
            return out
        if name == 'binrw::__private::magic':
            via = self.mine(st, args[0][0])
            if via is None:
                return None
            ti = callee['args'][0] if isinstance(callee['args'][0], int) else None
            x = self.deref(st, args[1][0])
            ti = args[1][1]
            en = self.endian(st, args[2][0])
            out = []
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi != 1:
                        self.add(s2, 'val', cr.T[strip(cr, ti)]['s'] if ti is not None else '?', x, en, None, via)
                    out.append((s2, v2))
            return out
        if name == 'binrw::__private::write_zeroes':
            n = args[1][0]
            via = self.mine(st, args[0][0])
            if via is None:
                return None
            out = []
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi != 1:
                        self.add(s2, 'pad', n)
                    out.append((s2, v2))
            return out
        if name.endswith(('Seek::stream_position', 'Seek>::stream_position')):
            if self.mine(st, args[0][0]) is None:
                return None
            out = []
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi == 0:
                        x = E.payload(cr, v2, 0, '0')
                        self.add(s2, 'pos', x)
                    out.append((s2, v2))
            return out
        if name.endswith(('Seek::seek', 'Seek>::seek')):
            if self.mine(st, args[0][0]) is None:
                return None
            w = args[1][0]
            out = []
            vs = st.vars.get(w[2]) if w[0] == 'en' else None
            pv = E.payload(cr, w, next(iter(vs)), '0') if vs and len(vs) == 1 else None
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi != 1:
                        self.seek(s2, next(iter(vs)) if vs and len(vs) == 1 else None, pv)
                    out.append((s2, v2))
            return out
        if PURE.search(name) and args and not (E.local_fn(fr, callee) or {}).get('blocks'):
            vs = tuple(self.deref(st, a) for a, _ in args)
            if any(v is None for v in vs):
                return None
            k = (re.sub(r'::<\w+>', '', PURE.search(name).group(0)), fr.cr.T[dty]['s'] if isinstance(dty, int) else str(dty), vs)
            if k not in self.memo:
                r = self.plain(fr, st, name, callee, args, site, dty, t)
                if len(r) != 1:
                    return r
                self.memo[k] = (r[0][1], dty)
                return r
            v = self.memo[k][0]
            if v is not None and v[0] == 'en' and v[2] not in st.vars:
                return None
            return [(st, v)]
        if re.search(r'io::(Read|Write)(>)?::\w+$|io::(read|write)::(Read|Write)(>)?::\w+$', name):
            if self.mine(st, args[0][0]) is None:
                return None
            out = []
            x = self.deref(st, args[1][0]) if len(args) > 1 else None
            for s, v in self.plain(fr, st, name, callee, args, site, dty, t):
                for s2, v2, vi in self.fork(fr, s, v, dty):
                    if vi != 1:
                        self.add(s2, 'raw', name.rsplit('::', 1)[-1], x)
                    out.append((s2, v2))
            return out
        return None

    def as_read(self, st, ty, x, p0):
        """what is written as it was read takes as many bytes as it did then"""
        n = len([1 for it in self.trace(st) or () if it[0] == 'val'])
        rd = [it for it in self.rdtrace if it[0] == 'val']
        if n < len(rd) and rd[n][1] == ty and len(rd[n]) > 6 and rd[n][6] is not None and x is not None:
            m = self.moved(st, p0)
            if m is not None and self.same(st, rd[n][2], x):
                st.mem[self.E.iops(st, *self.home)[0]] = ('i', p0.add(rd[n][6]))

    def counts(self, fr, st, name, callee, args, site, dty, t):
        """binrw's argument builders"""
        if 'binrw::' not in name and not name.endswith('Clone>::clone'):
            return None
        if name.startswith('binrw::binread::impls::VecArgsBuilder::<'):
            me = args[0][0]
            if me is None or me[0] != 'tr' or me[1][0][0] != 'va':
                return None
            n, i = me[1][0][1:]
            m = name.rsplit('::', 1)[-1]
            if m == 'count':
                return [(st, ('tr', (('va', args[1][0], i),)))]
            if m == 'inner':
                return [(st, ('tr', (('va', n, args[1][0]),)))]
            return [(st, me)]
        if name.startswith('binrw::named_args::builder_helper'):
            ty = fr.cr.T[callee['args'][0]]['s'] if isinstance(callee['args'][0], int) else ''
            if ty.startswith('binrw::binread::impls::VecArgs<'):
                return [(st, ('tr', (('va', None, None),)))]
            return None
        if name.endswith('Clone>::clone'):
            v = self.deref(st, args[0][0])
            if v is not None and v[0] == 'tr':
                return [(st, v)]
        return None

    def seek(self, st, kind, pv):
        tr = self.trace(st) or (('lost',),)
        if kind == 0 and pv is not None and pv[0] == 'i':
            for i in range(len(tr) - 1, -1, -1):
                if tr[i][0] == 'pos' and tr[i][1] is not None and tr[i][1] == pv:
                    pk = st.mem.get(PEEK)
                    n = len([1 for it in tr[:i] if it[0] != 'pos'])
                    st.mem[PEEK] = ('tr', (pk[1] if pk is not None else ()) + tuple((n, it) for it in tr[i + 1:]))
                    st.mem[TR] = ('tr', tr[:i + 1])
                    return
        if kind == 2 and pv is not None:
            return self.add(st, 'pad', pv)
        self.add(st, 'seek', kind, pv)

    def pure(self, st, cr, name, vs, ty):
        k = (name, ty, vs)
        if k not in self.memo:
            ti = self.E.find_ty(cr, ty)
            self.memo[k] = (self.E.fresh(cr, ('pure', name, ty, vs), ti), ti)
        return self.memo[k][0]

    def repeats(self, f):
        """does it have rounds of its own?"""
        if self.E.fninfo(f)[4]:
            return True
        for b in f['blocks']:
            t = b['t']
            if t['k'] == 'call' and ROUNDS.search((cg.callee(f['crate'], t) or {}).get('p', '')):
                return True
        return False

    def custom(self, fr, st, f, callee, args, site, dty, t, i):
        """a reader or writer with loops of its own is one item: the value it answers with, or is given first"""
        E = self.E
        cr = fr.cr
        before = self.trace(st)
        via = self.mine(st, args[i][0])
        x0 = self.deref(st, args[0][0]) if i else None
        pk = st.mem.setdefault(PEEK, ('tr', ()))
        self.inside += 1
        E.split_loops, old = True, E.split_loops
        try:
            r = E.try_inline(fr, st, f, [a for a, _ in args], site, E.make_subst(fr, callee, f), t)
        finally:
            self.inside -= 1
            E.split_loops = old
        if r is None:
            return None
        out = []
        cut = lambda s: [it for it in self.trace(s) or (('lost',),) if it[0] != 'pos']
        b0 = [it for it in before or (('lost',),) if it[0] != 'pos']
        oks = [x for x in r if not E.fails(cr, *x)]
        if len(oks) > 1 and any(cut(s) != b0 for s, _ in oks):
            for s, v in oks:
                s.mem[(site, 'custom')] = v
                s.mem[TR] = ('tr', (('lost',),))
            j = E.join([s for s, _ in oks], (site, 'custom'))
            v = j.mem.pop((site, 'custom'), None)
            r = [x for x in r if E.fails(cr, *x)] + [(j, v if v is not None else E.fresh(cr, (site, 'custom'), dty))]
        for s, v in r:
            if cut(s) == b0 and s.mem.get(PEEK) != pk:        # it has put the stream back
                out.append((s, v))
                continue
            for s2, v2, vi in self.fork(fr, s, v, dty):
                s2.mem[TR] = ('tr', before if before is not None else (('lost',),))
                if vi != 1:
                    if i:
                        x, ti = x0, strip(cr, args[0][1])
                    else:
                        ti = cr.T[dty]['args'][0] if isinstance(dty, int) and cr.T[dty].get('args') else None
                        x = E.payload(cr, v2, 0, '0') if v2 is not None and v2[0] == 'en' else None
                    self.add(s2, 'val', cr.T[ti]['s'] if ti is not None else '?', x, None, None, via)
                    self.customs.add(f['path'])
                out.append((s2, v2))
        return out

    def follow(self, fr, st, callee, args, site, t):
        f = self.E.local_fn(fr, callee)
        if f is None or 'blocks' not in f:
            return None
        self.E.unroll.setdefault(f['key'], 1)
        return self.E.try_inline(fr, st, f, [a for a, _ in args], site, self.E.make_subst(fr, callee, f), t)

    # -- signatures
    def reader(self, f, fix=None):
        E = self.E
        E.cr = f['crate']
        keep = {}

        def init(E_, st, fr, j, ti):
            if j == 0:
                st.mem[TR] = ('tr', ())
            v = fix[j](st, ti) if fix and j in fix else E_.fresh(fr.cr, ('rarg', f['key'], j), ti)
            keep[j] = (v, ti)
            if j == 0:
                self.start(st, v)
            return v
        sts, fr = E.paths(f, init, 'wire')
        out = []
        for st in sts:
            v = st.mem.get((fr.id, 0))
            if E.fails(fr.cr, st, v):
                continue
            if v is None or v[0] != 'en':
                out.append((st, None))
                continue
            if not E.assume(st, ('isv', v[2], (0,), (0, 1))):
                continue
            out.append((st, E.payload(fr.cr, v, 0, '0')))
        return out, keep

    def writer(self, g, st, val, rargs):
        """walk the writer on val in state st -> states of its successful ends"""
        E = self.E
        cr = g['crate']
        fid = E.ctx(('wentry', cr.bin, g['key']))
        fr = engine.Frame(g, cr, fid, {}, 0, ((g['key'], None, None),), None)
        E.frames[fid] = fr
        E.cur_entry = g
        st = st.copy()
        root = ('wv', 0)
        st.mem[root] = val
        self.rdtrace = self.trace(st) or ()
        st.mem[('wire', 1)] = ('tr', self.rdtrace)      # keeps what is known about it
        st.mem[TR] = ('tr', ())
        for j in range(g['argc']):
            ti = g['locals'][j + 1]['t']
            if j == 0:
                v = ('ref', root, (), False)
            elif j == 2 and 1 in rargs:
                v = rargs[1][0]
            elif j == 3 and 2 in rargs:
                v = self.args(cr, st, rargs[2], ti, g)
            else:
                v = E.fresh(cr, ('warg', g['key'], j), ti)
            if j == 1:
                self.start(st, v)
            st.mem[(fid, j + 1)] = v
        E.visited.add(g['key'])
        if E.fninfo(g)[4]:
            r = E.run_fn(g, fid, st, {}, 0, fr.chain, None)
            sts = [r] if r is not None else []
        else:
            sts = E.walk(fr, st)
        out = []
        for s in sts:
            v = s.mem.get((fid, 0))
            if E.fails(cr, s, v):
                continue
            if v is not None and v[0] == 'en' and not E.assume(s, ('isv', v[2], (0,), (0, 1))):
                continue
            out.append(s)
        return out

    def args(self, cr, st, rarg, ti, g):
        """the arguments of the writer: those of the reader that have the same name or place"""
        E = self.E
        v, rti = rarg
        if rti == ti:
            return v
        a = E.fresh(cr, ('warg', g['key'], 3), ti)
        if a[0] == 'st' and v[0] == 'st' and cr.T[ti]['k'] == 'adt' and cr.T[rti]['k'] == 'adt':
            wa, ra = cr.adts.get(cr.T[ti]['path']), cr.adts.get(cr.T[rti]['path'])
            if wa and ra:
                fs = []
                for x in wa['variants'][0]['f']:
                    for y in ra['variants'][0]['f']:
                        if x['n'] == y['n'] and x['t'] == y['t']:
                            fs.append((x['n'], E.field(cr, v, x['n'], x['t'])))
                a = ('st', a[1], a[2], tuple(sorted(fs)))
        return a

    # -- comparison
    def same(self, st, a, b, n=0):
        E = self.E
        a, b = self.deref(st, a), self.deref(st, b)
        if a is None or b is None:
            return False
        if a == b:
            return True
        if n > 6:
            return False
        if a[0] == 'i' and b[0] == 'i':
            d = a[1].sub(b[1])
            return st.F.entails(d) and st.F.entails(d.neg())
        if a[0] == 'b' and b[0] == 'b':
            return False
        if a[0] == 'st' and b[0] == 'st':
            ks = {k for k, _ in a[3]} | {k for k, _ in b[3]}
            da, db = dict(a[3]), dict(b[3])
            if a[2] == b[2]:
                return all(self.same(st, da[k], db[k], n + 1) for k in ks if k in da and k in db) and \
                    all(k in da and k in db for k in ks)
            return False
        if a[0] == 'en' and b[0] == 'en':
            va, vb = st.vars.get(a[2]), st.vars.get(b[2])
            if a[2] != b[2] and not (va is not None and va == vb and len(va) == 1):
                return False
            da, db = dict(a[4]), dict(b[4])
            live = va
            for k in set(da) | set(db):
                if live is not None and k[0] not in live:
                    continue
                x = da.get(k)
                y = db.get(k)
                if x is None or y is None or not self.same(st, x, y, n + 1):
                    return False
            return a[3] == b[3] or bool(da) or not self.payloads(a, va)
        if a[0] == 'seq' and b[0] == 'seq':
            return a[1] == b[1] and self.same(st, ('i', a[2]), ('i', b[2]))
        return False

    def payloads(self, v, vs):
        t = self.E.cr.T[v[1]] if v[1] is not None else None
        a = self.E.cr.adts.get(t.get('path')) if t else None
        if a is None or vs is None:
            return True
        return any(a['variants'][i]['f'] for i in vs if i < len(a['variants']))

    def items(self, st):
        tr = self.trace(st)
        if tr is None:
            return None
        out = []
        for it in tr:
            if it[0] == 'pos':
                continue
            if it[0] == 'val' and it[1] == '()':
                continue
            if it[0] == 'pad' and it[1] is not None and it[1][0] == 'i' and st.F.entails(it[1][1].neg()) \
                    and st.F.entails(it[1][1]):
                continue
            out.append(it)
        return out


    # -- agreement of a reader and a writer
    def agree(self, R, W, limit=20000):
        """-> (reader paths, pairs, [mismatch])"""
        rs, ra = self.reader(R)
        bad, n = [], 0
        self.variants = set()
        for st, v in rs:
            if v is not None and v[0] == 'en':
                self.variants |= st.vars.get(v[2]) or set()
            it = self.items(st)
            if v is None or it is None:
                bad.append(('opaque', 'a path of the reader could not be followed'))
                continue
            ws = self.writer(W, st, v, ra)
            if not ws:
                bad.append(('unwritable', 'a value that is read (%s) can never be written' % self.sig(it)))
            for s in ws:
                n += 1
                if n > limit:
                    raise engine.Unsupported('too many paths')
                self.compare(s, it, self.items(s), bad)
        return len(rs), n, bad

    def sig(self, it):
        return ' '.join(show(x) for x in it)

    def compare(self, s, it, jt, bad):
        if jt is None:
            bad.append(('opaque', 'a path of the writer could not be followed'))
            return
        i = 0
        for i in range(max(len(it), len(jt))):
            x = it[i] if i < len(it) else None
            y = jt[i] if i < len(jt) else None
            if x is None or y is None or x[0] != y[0] or x[0] == 'val' and x[1] != y[1]:
                bad.append(('shape:%d' % i, 'item %d is read as %s but written as %s (read: %s; written: %s)' % (
                    i, show(x) if x else 'nothing', show(y) if y else 'nothing', self.sig(it), self.sig(jt))))
                return
            if x[0] == 'val':
                if not self.same(s, x[2], y[2]):
                    bad.append(('value:%d' % i, 'item %d (%s): what is written is not what was read (read: %s; written: %s)'
                                % (i, show(y), self.sig(it), self.sig(jt))))
                if x[3] is not None and y[3] is not None and x[3] != y[3] and not BYTES.match(x[1]):
                    bad.append(('endian:%d' % i, 'item %d (%s): the byte orders of reader and writer differ' % (i, show(x))))
                if x[5] != y[5]:
                    bad.append(('via:%d' % i, 'item %d (%s) is read through %s but written through %s' % (
                        i, show(x), ','.join(x[5]) or 'nothing', ','.join(y[5]) or 'nothing')))
            elif x[0] == 'pad':
                if not self.same(s, x[1], y[1]):
                    bad.append(('pad:%d' % i, 'item %d: as many bytes are not skipped by the reader as padded by the writer' % i))
            elif x[0] == 'seek':
                if x[1] != y[1] or x[2] is None or not self.same(s, x[2], y[2]):
                    bad.append(('seek:%d' % i, 'item %d: reader and writer seek to different places' % i))
            else:
                bad.append(('opaque:%d' % i, 'item %d can not be compared' % i))


# types without a byte order
BYTES = re.compile(r'((alloc::vec::Vec<|\[)?(u8|i8|bool)\b.*|binrw::strings::NullString)$')


def show(it):
    if it[0] == 'val':
        v = it[2]
        return '%s%s' % (it[1], '=%s' % (v[1],) if v is not None and v[0] == 'i' and v[1].isconst() else '')
    return str(it[0]) + (':' + str(it[1])[:40] if len(it) > 1 else '')
