"""Values that are stored behind offsets.  The functions that read and write them are walked with a stream whose position is
followed as a number, and with lists whose items are known by their place: every read and write of a value has to happen at the
base plus the offset of this very value, each result has to be paired with its own offset, and offsets that are computed have to
be the places at which the values were written.  The slots of a row group are walked one by one for either state of their bit."""
import re
import engine
import lists
from lists import HERE, at, eq, tag_of
from dom import K, V, sym, SYM, Lin

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR with stream positions and lists whose items keep their place'
NOTE = 'All numbers of items, offsets, distances and positions; paths on which the stream itself does not fail.'
ASSUMPTIONS = ['the stream keeps the contracts of Read, Write and Seek', 'an integer offset is relative to the current position, '
               'as documented for binrw (IntoSeekFrom)', 'iterator adapters, arrays and Vec do what they are documented to do']
POS = ('pos', 0)
LOG = ('log', 0)
BAD = ('bad', 0)
OA = 'pdb::offset_array::'
IO = re.compile(r'(?<!Bin)(Read|Write|Seek)(?:>)?::(\w+)$')
BIG = 1 << 60


class Places(lists.Lists):
    def __init__(self, crates, L, items=None):
        super().__init__(crates, L)
        self.base = None
        self.sizes = None

    # ---------------------------------------------------------------- ghost
    def pos(self, st):
        v = st.mem.get(POS)
        return v[1].add(self.ahead(st)) if v is not None and v[0] == 'i' else None

    def setpos(self, st, x):
        st.mem[POS] = ('i', x.sub(self.ahead(st)))

    def ahead(self, st):
        """how far the position moves on with the number of slots that are written"""
        c = self.count(st, 'write') if self.step2 else None
        return c.scale(2) if c is not None else K(0)
    step2 = False

    def moved(self, st, site, ln=None):
        """the stream moves on by ln bytes, or by an unknown number"""
        p = self.pos(st)
        if ln is None:
            q = V(sym((site, 'pos'), 0, BIG))
            if p is not None:
                self.E.add_fact(st, q.sub(p))
            self.setpos(st, q)
        elif p is not None:
            self.setpos(st, p.add(ln))

    def bad(self, st, what):
        st.mem[BAD] = ('tr', (st.mem[BAD][1] if BAD in st.mem else ()) + (what,))

    def isbad(self, st):
        return [x for x in st.mem[BAD][1] if isinstance(x, str)] or ['something is done more than once that is not understood'] \
            if BAD in st.mem and st.mem[BAD][1] else []

    def count(self, st, k):
        v = st.mem.get((k, 'n'))
        return v[1] if v is not None and v[0] == 'i' else None

    def start(self, st):
        st.mem[POS] = ('i', self.pos0)
        st.mem[BAD] = ('tr', ())
        for k in ('read', 'write', 'table', 'pad'):
            st.mem[(k, 'n')] = ('i', K(0))
        st.mem[('end', 0)] = ('i', self.pos0)     # behind the last value
        st.mem[('tab', 0)] = ('fn', None)

    pos0 = V(sym(('pos0',), 0, 1 << 48))

    def unref(self, st, v):
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        return v

    def ok(self, st, dty, site, v):
        """the result when the stream does not fail"""
        return [(st, self.E.new_enum(st, dty, (site, 'ok'), 0, [('0', v if v is not None else ('st', None, (site, 'unit'), ()))]))]

    def okty(self, dty):
        return self.L.T[dty]['args'][0]

    def source(self, st, v):
        s = super().source(st, v)
        return s if s is None or s[0] != 'pairs' else s[:3] + (False, False)      # by definition the items are pairs of references

    def salt(self, st):
        v = st.mem.get(('tab', 0))
        return (v[1],) if v is not None and v[0] == 'fn' else ()

    # ---------------------------------------------------------------- calls
    def more(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        nm = name.rsplit('::', 1)[-1]
        m = IO.search(name)
        if m and isinstance(dty, int) and E.local_fn(fr, callee) is None:
            k = m.group(2)
            p = self.pos(st)
            if k == 'stream_position':
                return self.ok(st, dty, site, ('i', p) if p is not None else None)
            if k == 'seek':
                return self.seek(fr, st, self.unref(st, args[1][0]), site, dty)
            if k == 'rewind':
                self.setpos(st, K(0))
                return self.ok(st, dty, site, None)
            if k == 'seek_relative':
                x = args[1][0]
                self.setpos(st, p.add(x[1])) if p is not None and x[0] == 'i' else self.moved(st, site)
                return self.ok(st, dty, site, None)
            if k == 'write_all':
                return self.bytes(fr, st, args[1][0], site, dty)
            if k in ('by_ref', 'flush'):
                return None
            self.bad(st, 'the stream is used in a way that is not understood: ' + k)
            return None
        if name == 'alloc::vec::from_elem' and args[0][0] == ('i', K(0)) and args[1][0] is not None and args[1][0][0] == 'i':
            return [(st, ('seq', ('zeros', site), args[1][0][1], ('i', K(0))))]
        if nm == 'into_seek_from' and args and isinstance(dty, int):
            v = self.unref(st, args[0][0])
            g = tag_of(v)
            if g is not None and g[1] == 'off':
                x = ('i', V(sym(at('offv', g[2], g[3]), -BIG, BIG, tuple(g[3].syms()))))
            elif v is not None and v[0] == 'i':
                x = v
            else:
                return None
            cur = [i for i, n in enumerate(('Start', 'End', 'Current'))][2]
            return [(st, E.new_enum(st, dty, (site, 'isf'), cur, [('0', x)]))]
        if nm == 'read_options' and isinstance(dty, int):
            return self.read(fr, st, name, args, site, dty)
        if nm == 'write_options' and isinstance(dty, int):
            return self.write(fr, st, name, args, site, dty)
        if nm == 'required_alignment' and args:
            g = tag_of(self.unref(st, args[0][0]))
            if g is not None and g[1] == 'item':
                return [(st, ('i', V(sym(at('align', g[2], g[3]), 0, 65535, tuple(g[3].syms())))))]
        if nm == 'as_items' and isinstance(dty, int):
            return [(st, self.make(st, 'items', self.N(dty), ('#ref', ('op', at('item', 'items', HERE), None))))]
        if nm == 'from_items' and isinstance(dty, int):
            st.mem[('from', 0)] = args[0][0]
            return [(st, ('op', ('from items',), dty))]
        if nm == 'max' and len(args) == 2 and all(a[0] is not None and a[0][0] == 'i' for a in args):
            a, b = args[0][0][1], args[1][0][1]
            out = []
            for z in (True, False):
                s = st.copy()
                if E.assume(s, engine.cge(a.sub(b)), z):
                    out.append((s, ('i', a if z else b)))
            return out
        if nm == 'next_multiple_of' and len(args) == 2 and all(a[0] is not None and a[0][0] == 'i' for a in args):
            a, b = args[0][0][1], args[1][0][1]
            if not E.assume(st, engine.cge(b.addc(-1))):
                return []
            r = V(sym(('nmo', a, b), 0, BIG, tuple(a.syms()) + tuple(b.syms())))
            E.add_fact(st, r.sub(a))
            E.add_fact(st, a.add(b).addc(-1).sub(r))
            return [(st, ('i', r))]
        if nm == 'leading_zeros' and args and args[0][0] is not None and args[0][0][0] == 'i':
            x = args[0][0][1]
            return [(st, ('i', V(sym(('lz', x), 0, 64, tuple(x.syms())))))] if self.lz is None or x != self.lz[0] else \
                [(st, ('i', self.lz[1]))]
        return None
    lz = None

    def N(self, dty):
        v = self.E.fresh(self.L, ('n of', dty), dty)
        return v[2] if v[0] == 'seq' else None

    def seek(self, fr, st, v, site, dty):
        E, L = self.E, self.L
        out = []
        if v is None or v[0] != 'en':
            self.bad(st, 'the stream is moved to an unknown place')
            return self.ok(st, dty, site, None)
        for vi in (0, 1, 2):
            s = st.copy()
            if not E.assume(s, ('isv', v[2], (vi,), (0, 1, 2))):
                continue
            x = E.payload(L, v, vi, '0')
            p = self.pos(s)
            if vi == 1 or x is None or x[0] != 'i' or p is None:
                self.moved(s, site)
                self.setpos(s, V(sym((site, 'somewhere', vi), 0, BIG)))
            else:
                self.setpos(s, x[1] if vi == 0 else p.add(x[1]))
            q = self.pos(s)
            E.add_fact(s, q)
            out += self.ok(s, dty, site + (vi,), ('i', q))
        return out

    def bytes(self, fr, st, v, site, dty):
        """literal bytes: padding"""
        x = self.unref(st, v)
        r = v
        n = 0
        while r is not None and r[0] == 'ref' and n < 8:
            if r[1][0] == 'cb' and not r[2] and isinstance(r[1][1], tuple):
                bs = r[1][1]
                break
            r = self.E.load(st, self.L, r[1], r[2])
            n += 1
        else:
            bs = None
            if x is not None and x[0] == 'seq' and x[3] is not None and x[3][0] == 'arr' and all(y[0] == 'i' and y[1].isconst() for y in x[3][1]):
                bs = tuple(y[1].c for y in x[3][1])
            elif x is not None and x[0] == 'seq' and x[3] is not None and x[3][0] == 'i' and x[3][1] == K(0):
                self.moved(st, site, x[2])
                return self.ok(st, dty, site, None)
        if bs is None or any(bs):
            self.bad(st, 'the gap between two values is not filled with zeros')
            self.moved(st, site)
        else:
            self.moved(st, site, K(len(bs)))
        return self.ok(st, dty, site, None)

    # ---------------------------------------------------------------- values
    def place_of(self, st, d):
        """the item whose offset a distance is"""
        g = tag_of(('i', d)) if d is not None else None
        if g is not None and g[1] == 'offv':
            return g
        for f in (d.t if d is not None else ()):
            g = SYM[f[0]][0]
            if isinstance(g, tuple) and len(g) == 4 and g[0] == 'at' and g[1] == 'offv' and eq(st, d, V(f[0])):
                return g
        return None

    def read(self, fr, st, name, args, site, dty):
        E, L = self.E, self.L
        ot = self.okty(dty)
        p = self.pos(st)
        if OA + 'OffsetArray' in L.T[ot].get('path', '') and not L.T[ot]['path'].endswith('Container'):
            return self.read_table(fr, st, args, site, dty, ot, p)
        if L.T[ot]['k'] not in ('param', 'alias'):
            return None
        g = self.place_of(st, p.sub(self.base)) if p is not None and self.base is not None else None
        if g is None:
            self.bad(st, 'a value is read from a place that is not the base plus an offset')
            x = None
        else:
            x = ('op', at('got', g[2], g[3]), ot)
            c = self.count(st, 'read')
            if c is None or not eq(st, c, g[3]):
                self.bad(st, 'the values are not read one for each offset, in the order of the offsets')
        c = self.count(st, 'read')
        if c is not None:
            st.mem[('read', 'n')] = ('i', c.addc(1))
        self.moved(st, site)
        return self.ok(st, dty, site, x)

    def read_table(self, fr, st, args, site, dty, ot, p):
        E, L = self.E, self.L
        if p is None or not eq(st, p, self.pos0) or not eq(st, self.count(st, 'table'), K(0)):
            self.bad(st, 'the offset table is not read first')
        st.mem[('table', 'n')] = ('i', K(1))
        a = L.adts[L.T[ot]['path']]
        out = []
        for vi, var in enumerate(a['variants']):
            s = st.copy()
            sz = args[2][0] if len(args) > 2 else None
            sz = E.field(L, sz, 0, None) if sz is not None and sz[0] == 'st' else None
            sa = L.adts[OA + 'OffsetSize']
            si = [i for i, x in enumerate(sa['variants']) if x['n'] == var['n']]
            if sz is None or sz[0] != 'en' or not si:
                self.bad(s, 'the size of the offsets in the table is not known')
            elif not E.assume(s, ('isv', sz[2], tuple(si), tuple(range(len(sa['variants']))))):
                continue
            hi = 255 if var['n'] == 'U8' else 65535
            ft = var['f'][0]['t']
            n = self.N(ft)
            lst = self.make(s, ('table', vi), n, ('i', V(sym(at('offv', ('table', vi), HERE), 0, hi, tuple(HERE.syms())))))
            self.moved(s, site + (vi,))
            v = E.new_enum(s, ot, (site, 'tab', vi), vi, [(var['f'][0]['n'], lst)])
            s.mem[('tab', 0)] = ('fn', vi)
            out += self.ok(s, dty, site + (vi,), v)
        return out

    def write(self, fr, st, name, args, site, dty):
        E, L = self.E, self.L
        v = self.unref(st, args[0][0])
        p = self.pos(st)
        if v is not None and v[0] == 'en' and L.T[v[1]].get('path') == OA + 'OffsetArray':
            return self.write_table(fr, st, v, site, dty, p)
        g = tag_of(v)
        if g is None or g[1] not in ('item', 'slot'):
            self.bad(st, 'a value is written that is not understood')
            self.moved(st, site)
            return self.ok(st, dty, site, None)
        c = self.count(st, 'write')
        if g[1] == 'slot':
            self.slot(st, g, p)
            if p is not None:
                self.setpos(st, p.addc(2))
            return self.ok(st, dty, site, None)
        if c is None or not eq(st, c, g[3]):
            self.bad(st, 'the values are not written one for each offset, in the order of the offsets')
        if c is not None:
            st.mem[('write', 'n')] = ('i', c.addc(1))
        if self.calc:
            self.calculated(st, g, p, site)
        else:
            o = self.place_of(st, p.sub(self.base)) if p is not None and self.base is not None else None
            if o is None or not eq(st, o[3], g[3]):
                self.bad(st, 'a value is written to a place that is not the base plus its own offset')
        self.moved(st, site)
        st.mem[('end', 0)] = ('i', self.pos(st))
        return self.ok(st, dty, site, None)
    calc = False

    def slot(self, st, g, p):
        c = self.count(st, 'write')
        if c is None or not eq(st, c, g[3]):
            self.bad(st, 'the slots are not written one after the other, from the first that is present on')
        if c is not None:
            st.mem[('write', 'n')] = ('i', c.addc(1))
        if p is None or not eq(st, p, self.pos0.add(g[3].scale(2))):
            self.bad(st, 'a slot is not written to its own place in the group')

    def calculated(self, st, g, p, site):
        """a value is written to the next place that its alignment allows, counted from the base"""
        end = st.mem.get(('end', 0))
        end = end[1] if end is not None and end[0] == 'i' else None
        al = V(sym(at('align', g[2], g[3]), 0, 65535, tuple(g[3].syms())))
        if p is None or end is None:
            self.bad(st, 'a value is written to an unknown place')
            return
        o = p.sub(self.base)
        for some in (True, False):      # no alignment is an alignment of one
            s = st.copy()
            if not self.E.assume(s, engine.cge(al.addc(-1)), some):
                continue
            m = al if some else K(1)
            ends = [end] + [V(z) for z in sorted({z for f in s.F.s for z in f.syms()}) if len(end.t) == 1 and eq(s, end, V(z))]
            here = [p] + [self.base.add(y) for y in multiples(s, m) if eq(s, o, y)]
            if not (any(s.F.entails(q.sub(e)) for e in ends for q in here) and
                    any(s.F.entails(e.add(m).addc(-1).sub(q)) for e in ends for q in here) and multiple(s, o, m)):
                self.bad(st, 'a value is not written to the next place that its alignment allows')
        P = V(sym(at('place', g[2], g[3]), 0, BIG, tuple(g[3].syms())))
        self.E.add_fact(st, P.sub(o))
        self.E.add_fact(st, o.sub(P))

    def abstract_int(self, st, n, x):
        if not self.calc:
            return None
        for y in {z for f in st.F.s for z in f.syms()}:
            k = SYM[y][0]
            if isinstance(k, tuple) and len(k) == 4 and k[:3] == ('at', 'place', 'items') and eq(st, k[3], n) and eq(st, x, V(y)):
                return V(sym(at('place', 'items', HERE), 0, BIG, tuple(HERE.syms())))
        return None

    def write_table(self, fr, st, v, site, dty, p):
        E, L = self.E, self.L
        vs = st.vars.get(v[2])
        if p is None or not eq(st, p, self.pos0):
            self.bad(st, 'the offset table is not written to its own place')
        c = self.count(st, 'table')
        if c is not None:
            st.mem[('table', 'n')] = ('i', c.addc(1))
        a = L.adts[OA + 'OffsetArray']
        out = []
        for vi, var in enumerate(a['variants']):
            s = st.copy()
            if not E.assume(s, ('isv', v[2], (vi,), tuple(range(len(a['variants']))))):
                continue
            x = self.lst(s, E.payload(L, v, vi, var['f'][0]['n']))
            n = self.N(var['f'][0]['t'])
            if self.calc:
                w = ('i', V(sym(at('place', 'items', HERE), 0, BIG, tuple(HERE.syms()))))
                if x is None or not eq(s, x[1], K(0)) or not eq(s, x[2], n) or self.whole(s, x[0], n) != w:
                    self.bad(s, 'the offset table does not state the places of the values')
            elif x is None or x[0] != ('table', vi):
                self.bad(s, 'another offset table is written')
            s.mem[('tab', 0)] = ('fn', vi)
            self.moved(s, site + (vi,))
            out += self.ok(s, dty, site + (vi,), None)
        return out

    def whole(self, st, lid, n):
        """the pattern that all items of a list have"""
        d = self.done(st, lid)
        if d is None:
            return None
        if eq(st, d, K(0)):
            return self.pat.get(lid)
        if eq(st, d, n):
            return self.new.get(lid)
        return None


def multiple(st, x, m):
    """x is a multiple of m"""
    if m == K(1) or eq(st, m, K(1)):
        return True
    ms = m.t[0][0]
    for _ in range(20):
        if x.isconst():
            return x.c == 0
        n = None
        for s, c in x.t:
            k = SYM[s][0]
            if s == ms or isinstance(k, tuple) and k[0] in ('nmo', 'mulof') and k[2] == m:
                n = x.sub(V(s).scale(c))
            elif isinstance(k, tuple) and k[0] == 'rem' and k[2] == m:
                n = x.sub(V(s).scale(c)).add(k[1].scale(c))
            if n is not None:
                break
        if n is None:
            return any(eq(st, x, y) for y in multiples(st, m))
        x = n
    return False


def multiples(st, m):
    """the multiples of m that are known here"""
    for s in sorted({z for f in st.F.s for z in f.syms()}):
        k = SYM[s][0]
        if isinstance(k, tuple) and len(k) == 3 and k[2] == m:
            if k[0] == 'nmo':
                yield V(s)
            elif k[0] == 'rem':
                yield k[1].sub(V(s))
                yield k[1].sub(V(s)).add(m)
                if st.F.entails(V(s).neg()):
                    yield k[1]


def need_fn(ctx, L, pred, what):
    fs = [f for f in L.fns if 'blocks' in f and pred(f)]
    return ctx.need(fs, what)[0]


def report(ctx, X, st, key, w):
    b = X.isbad(st)
    return ctx.ob(not b, key, w, b[0] if b else '', 'every value at its own place')


def run(ctx):
    L = ctx.lib
    reading(ctx, L)
    writing(ctx, L)


def reading(ctx, L):
    parse_at(ctx, L)
    container_read(ctx, L)
    slots(ctx, L)


def writing(ctx, L):
    write_at(ctx, L)
    container_write(ctx, L, True)
    container_write(ctx, L, False)
    slots_written(ctx, L)


def parse_at(ctx, L):
    f = ctx.fn('util::parse_at_offsets')
    X = Places(ctx.crates, L)
    E = X.E
    w = ctx.where(f)

    def init0(E_, st, fr, j, ti):
        return X.make(st, 'offs', V(sym(('number of offsets',), 0, 1 << 48)), ('op', at('off', 'offs', HERE), None))
    sts, fr = E.paths(f, init0, 'c14p0')
    ctx.floor('ways to make the parser', len(sts), 1)
    for st in sts:
        c = st.mem.get((fr.id, 0))
        if not ctx.ob(c is not None and c[0] == 'clo', 'parse:closure', w, 'the parser is not understood'):
            continue
        g = L.by_key[c[1]]
        X.base = X.pos0
        mem = st.mem

        def init(E_, s, fr_, j, ti):
            if j == 0:
                for k, v in mem.items():
                    if k[0] == 'ldone':
                        s.mem[k] = v
                X.start(s)
                return c
            return None
        outs, fr2 = E.paths(g, init, 'c14p')
        n = 0
        for s in outs:
            v = s.mem.get((fr2.id, 0))
            if E.fails(L, s, v):
                continue
            n += 1
            report(ctx, X, s, 'parse:places', w)
            num = V(sym(('number of offsets',), 0, 1 << 48))
            x = X.lst(s, E.payload(L, v, 0, '0')) if v is not None and v[0] == 'en' else None
            p = X.whole(s, x[0], x[2]) if x is not None else None
            ok = p is not None and p[0] == '#st' and eq(s, x[2], num) and [tag_of(y) for _, y in p[3]] == [at('off', 'offs', HERE), at('got', 'offs', HERE)]
            ctx.ob(ok, 'parse:pairs', w, 'the result is not one pair of offset and value for each offset, in order', 'offset i with the value at base + offset i')
            ctx.ob(eq(s, X.pos(s), X.pos0), 'parse:back', w, 'the stream is not put back to where it was')
        ctx.floor('paths of reading at offsets', n, 1)


def write_at(ctx, L):
    f = ctx.fn('util::write_at_offsets')
    X = Places(ctx.crates, L)
    E = X.E
    w = ctx.where(f)
    X.base = X.pos0
    num = V(sym(('number of offsets',), 0, 1 << 48))

    def init(E_, st, fr, j, ti):
        if j == 0:
            X.start(st)
            pr = ('#st', None, ('pair',), ((0, ('#ref', ('op', at('off', 'offs', HERE), None))), (1, ('#ref', ('op', at('item', 'offs', HERE), None)))))
            o = ('t', 0)
            st.mem[o] = X.make(st, 'pairs', num, pr)
            return ('ref', o, (), False)
        return None
    sts, fr = E.paths(f, init, 'c14w')
    n = 0
    for st in sts:
        v = st.mem.get((fr.id, 0))
        if E.fails(L, st, v):
            continue
        n += 1
        report(ctx, X, st, 'write:places', w)
        ctx.ob(eq(st, X.count(st, 'write'), num), 'write:all', w, 'not every value is written', 'all values')
        ctx.ob(eq(st, X.pos(st), X.pos0), 'write:back', w, 'the stream is not put back to where it was')
    ctx.floor('paths of writing at offsets', n, 1)


def container(ctx, L, trait):
    return need_fn(ctx, L, lambda f: f.get('trait', '') and f['trait'].endswith(trait) and f.get('name') in ('read_options', 'write_options')
                   and f.get('self') is not None and L.T[f['self']].get('path') == OA + 'OffsetArrayContainer', trait + ' of OffsetArrayContainer')


D = V(sym(('distance',), 0, 1 << 48))


def argtuple(X, st, ti):
    E, L = X.E, X.L
    v = E.fresh(L, ('args',), ti)
    ts = L.T[ti]['ts']
    return ('st', ti, ('args',), tuple((i, ('i', D) if L.T[t]['k'] == 'int' else E.fresh(L, ('arg', i), t)) for i, t in enumerate(ts)))


def container_read(ctx, L):
    f = container(ctx, L, 'BinRead')
    X = Places(ctx.crates, L)
    E = X.E
    w = ctx.where(f)
    X.base = X.pos0.sub(D)

    def init(E_, st, fr, j, ti):
        if j == 0:
            X.start(st)
        if L.T[ti]['k'] == 'tuple':
            return argtuple(X, st, ti)
        return None
    sts, fr = E.paths(f, init, 'c14cr')
    n = 0
    for st in sts:
        v = st.mem.get((fr.id, 0))
        if E.fails(L, st, v):
            continue
        n += 1
        report(ctx, X, st, 'table:read:places', w)
        c = E.payload(L, v, 0, '0')
        ti = L.T[v[1]]['args'][0]
        vi = st.mem[('tab', 0)][1] if ('tab', 0) in st.mem else None
        x = X.lst(st, st.mem.get(('from', 0)))
        p = X.whole(st, x[0], x[2]) if x is not None else None
        a = L.adts[OA + 'OffsetArray']['variants']
        ok = p is not None and vi is not None and tag_of(p) == at('got', ('table', vi), HERE) and eq(st, x[1], K(0)) and eq(st, x[2], X.N(a[vi]['f'][0]['t']))
        ctx.ob(ok, 'table:read:values', w, 'value i is not what was read at the base plus offset i', 'value i from base + offset i')
        o = E.field(L, c, 'offsets', None) if c is not None else None
        q = E.field(L, c, 'inner', None) if c is not None else None
        ok = q is not None and q[0] == 'op' and q[1] == ('from items',)
        tv = None
        mc = L.adts['util::MaybeCalculated']['variants']
        pi = [i for i, z in enumerate(mc) if z['n'] == 'Provided'][0]
        if o is not None and o[0] == 'en' and st.vars.get(o[2]) == frozenset((pi,)):
            tv = E.payload(L, o, pi, mc[pi]['f'][0]['n'])
        if tv is not None and tv[0] == 'en' and vi is not None:
            tv = X.lst(st, E.payload(L, tv, vi, a[vi]['f'][0]['n']))
        ctx.ob(ok and tv is not None and tv[0] == ('table', vi), 'table:read:kept', w,
               'the value does not hold the offsets and items that were read', 'offsets and items are kept')
    ctx.floor('paths of reading an offset table', n, 2)


def container_write(ctx, L, calc):
    f = container(ctx, L, 'BinWrite')
    X = Places(ctx.crates, L)
    E = X.E
    w = ctx.where(f)
    X.base = X.pos0.sub(D)
    X.calc = calc
    what = 'calculated' if calc else 'provided'
    mc = L.adts['util::MaybeCalculated']['variants']
    oa = L.adts[OA + 'OffsetArray']['variants']
    sizes = L.adts[OA + 'OffsetSize']['variants']
    n = 0
    for vi, var in enumerate(oa):
        si = [i for i, z in enumerate(sizes) if z['n'] == var['n']]
        ctx.need(si, 'offset size ' + var['n'])
        N = X.N(var['f'][0]['t'])
        width = 1 if var['n'] == 'U8' else 2

        def init(E_, st, fr, j, ti):
            if j == 0:
                X.start(st)
                st.mem[('end', 0)] = ('i', X.pos0.add(N.addc(1).scale(width)))
                ct = L.T[ti]['t']
                ot = [z['t'] for z in L.adts[OA + 'OffsetArrayContainer']['variants'][0]['f'] if z['n'] == 'offsets'][0]
                pi = [i for i, z in enumerate(mc) if (z['n'] == 'Provided') != calc][0]
                pl = []
                if not calc:
                    hi = 255 if width == 1 else 65535
                    lst = X.make(st, ('table', vi), N, ('i', V(sym(at('offv', ('table', vi), HERE), 0, hi, tuple(HERE.syms())))))
                    tt = mc[pi]['f'][0]['t']
                    tt = L.T[ot]['args'][0]
                    pl = [(mc[pi]['f'][0]['n'], E_.new_enum(st, tt, ('tab in',), vi, [(var['f'][0]['n'], lst)]))]
                o = ('self', 0)
                st.mem[o] = ('st', ct, ('self',), (('inner', ('op', ('inner',), None)), ('offsets', E_.new_enum(st, ot, ('offsets in',), pi, pl))))
                return ('ref', o, (), False)
            if L.T[ti]['k'] == 'tuple':
                v = argtuple(X, st, ti)
                fs = tuple((i, E_.new_enum(st, x[1], ('size in',), si[0], []) if x[0] == 'en' else x) for i, x in v[3])
                return v[:3] + (fs,)
            return None
        sts, fr = E.paths(f, init, ('c14cw', calc, vi))
        for st in sts:
            v = st.mem.get((fr.id, 0))
            if E.fails(L, st, v):
                continue
            n += 1
            report(ctx, X, st, 'table:%s:places' % what, w)
            ctx.ob(eq(st, X.count(st, 'write'), N), 'table:%s:all' % what, w, 'not every value is written', '%s: all values' % what)
            ctx.ob(eq(st, X.count(st, 'table'), K(1)) and st.mem.get(('tab', 0)) == ('fn', vi), 'table:%s:table' % what, w,
                   'the offset table is not written, or not with offsets of the right size', '%s: the offsets' % what)
    ctx.floor('paths of writing an offset table (%s)' % what, n, 2)


# ---------------------------------------------------------------- slots of a row group
FLAGS = 'row_presence_flags'
GROUP = 'pdb::RowGroup'


def slots(ctx, L):
    """the slots that are present, from the lowest bit on: slot k of a group is the item 15 - k of its table"""
    f = ctx.fn(GROUP + '::present_rows_offsets')
    X = Places(ctx.crates, L)
    E = X.E
    w = ctx.where(f)
    bits = [V(sym(('bit', 'flags', i), 0, 1)) for i in range(16)]
    flags = K(0)
    for i, b in enumerate(bits):
        flags = flags.add(b.scale(1 << i))

    def init(E_, st, fr, j, ti):
        t = L.T[ti]['t']
        o = ('group', 0)
        a = L.adts[GROUP]['variants'][0]['f']
        ctx.need([x for x in a if x['n'] == FLAGS], 'field ' + FLAGS)
        ctx.need([x for x in a if x['n'] == 'row_offsets'], 'field row_offsets')
        lst = X.make(st, 'slots', K(16), ('i', V(sym(at('slot', 'slots', HERE), 0, 65535, tuple(HERE.syms())))))
        st.mem[o] = ('st', t, ('group',), ((FLAGS, ('i', flags)), ('row_offsets', lst)))
        return ('ref', o, (), False)
    sts, fr = E.paths(f, init, 'c14s')
    n = 0
    for st in sts:
        todo = [(st, st.mem.get((fr.id, 0)), 0)]
        for k in range(40):
            nxt, its = [], set()
            for s0, it, j in todo:
                if j == 16:
                    r = X.step(fr, s0.copy(), it, ('c14 step', k)) if X.isx(it) else None
                    ctx.ob(r is not None and all(x[2] == 'none' for x in r), 'slots:end', w, 'there is something after the last slot', 'nothing after slot 15')
                    n += 1
                    continue
                for bit in (1, 0):
                    s = s0.copy()
                    E.add_fact(s, bits[j].addc(-bit))
                    E.add_fact(s, bits[j].neg().addc(bit))
                    r = X.step(fr, s, it, ('c14 step', k, bit)) if X.isx(it) else None
                    if not ctx.ob(r is not None, 'slots:known', w, 'the order of the present slots is not understood'):
                        continue
                    for x in r:
                        g = tag_of(x[3])
                        if bit:
                            ok = x[2] == 'some' and g is not None and g[:3] == at('slot', 'slots', HERE)[:3] and eq(x[0], g[3], K(15 - j))
                            ctx.ob(ok, 'slots:present', w, 'the value of slot %d is not its own offset' % j, 'slot k: item 15 - k of the table')
                        else:
                            ctx.ob(x[2] == 'skip', 'slots:absent', w, 'slot %d is taken although its bit is not set' % j, 'slots with a clear bit are passed over')
                    if bit and r:
                        # what comes next is the same for either state of the bit
                        nxt.append((st.copy(), r[0][1], j + 1))
                        its = {repr(x[1]) for x in r}
                    elif r:
                        ctx.ob(len(its | {repr(x[1]) for x in r}) == 1, 'slots:next', w, 'what follows a slot depends on whether it is present')
            todo = nxt
            if not todo:
                break
    ctx.floor('walks of the slots of a row group', n, 1)


def slots_written(ctx, L):
    """the slots from the first that is present on are written, each at its own place, and what is before them is passed over"""
    f = ctx.fn(GROUP + '::write_row_offsets')
    X = Places(ctx.crates, L)
    E = X.E
    w = ctx.where(f)
    flags = V(sym(('presence flags',), 0, 65535))
    lz = V(sym(('leading zeros',), 0, 16))
    X.lz = (flags, lz)
    X.step2 = True

    def init(E_, st, fr, j, ti):
        if j == 0:
            X.start(st)
            st.mem[('write', 'n')] = ('i', lz)
            X.setpos(st, X.pos0)
            o = ('slots', 0)
            st.mem[o] = X.make(st, 'slots', K(16), ('i', V(sym(at('slot', 'slots', HERE), 0, 65535, tuple(HERE.syms())))))
            return ('ref', o, (), False)
        if L.T[ti]['k'] == 'tuple':
            return ('st', ti, ('args',), ((0, ('i', flags)),))
        return None
    sts, fr = E.paths(f, init, 'c14sw')
    n = 0
    for st in sts:
        if E.fails(L, st, st.mem.get((fr.id, 0))):
            continue
        n += 1
        report(ctx, X, st, 'slots:written', w)
        ctx.ob(eq(st, X.count(st, 'write'), K(16)), 'slots:written:all', w, 'not every slot from the first that is present on is written', 'slots 15 - lz .. 0')
        ctx.ob(eq(st, X.pos(st), X.pos0.addc(32)), 'slots:written:end', w, 'the flags of a group do not come after its sixteen slots', '32 bytes for the slots')
    ctx.floor('paths of writing the slots of a row group', n, 1)
