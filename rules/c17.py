"""The XOR stream and the encrypted song structure.  Reading, writing and seeking of XorStream are walked with symbolic buffers:
every byte of a buffer and every byte of the key carries its place.  The key is endless, with the place it stands at; loops over
bytes are closed by a fixpoint in which the number of bytes done, the place in the buffer and the place in the key stay in step.
The key of a song structure is compared byte by byte, modulo 256, with the published one; reader and writer of the song structure
are walked for both values of the decision."""
import re
import engine
import iters
import wire
from dom import K, V, sym, SYM, Lin, Facts

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR with iterators, buffers and keys whose items keep their place'
NOTE = 'All buffers, keys, positions, and short reads and writes of the inner stream.'
ASSUMPTIONS = ['the inner stream keeps the contracts of Read, Write and Seek (reads and writes at most the buffer)',
               'slice, Vec, Cycle and the iterator adapters do what they are documented to do']
KEY = [0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1]
BAD = ('bad', 0)
LOG = ('log', 0)
XS = 'xor::XorStream'
IO = re.compile(r'(Read|Write|Seek)(?:>)?::(read|write|flush|seek|stream_position|rewind|seek_relative|read_exact|write_all|'
                r'read_to_end|by_ref)$')


def eq(st, a, b):
    return a is not None and b is not None and st.F.entails(a.sub(b)) and st.F.entails(b.sub(a))


def key_of(l):
    """the key of the symbol that a number is"""
    if l is None or l.c != 0 or len(l.t) != 1 or l.t[0][1] != 1:
        return None
    return SYM[l.t[0][0]][0]


def congruent(st, x, y, m):
    """x and y leave the same remainder on division by m (a number or a symbol)"""
    d = x.sub(y)
    ms = m.t[0][0] if not m.isconst() else None
    for _ in range(20):
        n = None
        for s, c in d.t:
            k = SYM[s][0]
            if not isinstance(k, tuple):
                continue
            if ms is not None and s == ms:
                n = d.add(V(s).scale(c), -1)
            elif k[0] == 'rem' and k[2] == m:
                n = d.add(V(s).scale(c), -1).add(k[1].scale(c))
            elif ms is None and k[0] == 'div' and (c * 1) % m.c == 0:
                n = d.add(V(s).scale(c), -1)
            elif ms is None and k[0] == 'cast' and isinstance(k[1], Lin) and SYM[s][1] >= 0 and (SYM[s][2] + 1) % m.c == 0:
                n = d.add(V(s).scale(c), -1).add(k[1].scale(c))
            elif ms is None and k[0] == 'wrap' and k[1] in ('add', 'sub') and SYM[s][1] >= 0 and (SYM[s][2] + 1) % m.c == 0:
                n = d.add(V(s).scale(c), -1).add((k[2].add(k[3]) if k[1] == 'add' else k[2].sub(k[3])).scale(c))
            if n is not None:
                break
        if n is None:
            break
        d = n
    return d.isconst() and (d.c % m.c == 0 if m.isconst() else d.c == 0) or eq(st, d, K(0))


class Xor(iters.Iters):
    """buffers ('xb', id): seq values; what they held at first is orig(id)[i]; done[id] of them are encrypted"""

    def __init__(self, crates, L):
        E = engine.Engine(crates)
        super().__init__(E, L)
        E.split = True
        E.split_loops = True
        E.keep_errs = True
        E.cr = L
        Facts.EQ = True
        E.MAXDEPTH = max(E.MAXDEPTH, 12)
        E.intercept = self.intercept
        E.hooks['store'] = self.store
        E.hooks['elstore'] = self.elstore
        E.hooks['elem'] = self.load_elem
        self.u8 = E.find_ty(L, 'u8')
        self.phase0 = V(sym(('phase',), 0, 1 << 62))
        self.orig = {}         # a copy holds what the buffer it was made of holds
        self.more = None

    def bad(self, st, *what):
        st.mem[BAD] = ('tr', (st.mem[BAD][1] if BAD in st.mem else ()) + (what,))

    def add(self, st, *it):
        st.mem[LOG] = ('tr', (st.mem[LOG][1] if LOG in st.mem else ()) + (it,))

    def log(self, st):
        return st.mem[LOG][1] if LOG in st.mem else ()

    def isbad(self, st):
        return BAD in st.mem and bool(st.mem[BAD][1])

    # ---------------------------------------------------------------- bytes
    def of(self, bid):
        return self.orig.get(bid, bid)

    def byte(self, bid, i):
        o = self.of(bid)
        if o[0] == 'raw' and i.isconst():
            return ('i', V(sym(('orig', o, i), 0, 255)))
        return ('i', V(sym(('orig', o, i), 0, 255, tuple(i.syms()))))

    def keyitem(self, st, key, ph):
        return ('i', V(sym(('keybyte', key, ph), 0, 255, tuple(ph.syms()))))

    def encrypted(self, st, val, idx):
        """the buffer that val is byte number idx of, encrypted"""
        k = key_of(val[1]) if val is not None and val[0] == 'i' else None
        if not isinstance(k, tuple) or k[0] != 'BitXor':
            return None
        a, b = key_of(k[1]), key_of(k[2])
        for a, b in ((a, b), (b, a)):
            if a and b and a[0] == 'orig' and self.key_at(st, k[2] if key_of(k[1]) == a else k[1], idx) and eq(st, a[2], idx):
                return a[1]
        return None

    def key_at(self, st, l, idx):
        """it is the byte of the key for byte number idx"""
        b = key_of(l)
        return b is not None and b[0] == 'keybyte' and eq(st, b[2], self.phase0.add(idx))

    # ---------------------------------------------------------------- buffers
    def buf(self, st, v):
        """(buffer, first place, length) of a slice or vector"""
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(st, self.L, v[1], v[2])
            n += 1
        if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xb':
            return v[1][1], v[1][2], v[2]
        return None

    def source(self, st, v):
        b = self.buf(st, v)
        if b is not None:
            return b[0], b[1], b[1].add(b[2]), v[0] == 'ref', v[0] == 'ref' and v[3]
        n = 0
        x = v
        while x is not None and x[0] == 'ref' and n < 8:
            if x[1][0] == 'cb' and not x[2] and isinstance(x[1][1], tuple):
                return ('const', x[1][1]), K(0), K(len(x[1][1])), True, False
            x = self.E.load(st, self.L, x[1], x[2])
            n += 1
        if x is not None and x[0] == 'seq' and x[3] is not None and x[3][0] == 'arr' and \
                all(y[0] == 'i' and y[1].isconst() for y in x[3][1]):
            bid = ('const', tuple(y[1].c for y in x[3][1]))
            return bid, K(0), x[2], v[0] == 'ref', False
        return None

    def now(self, st, bid, i):
        """what a buffer holds at a place"""
        for k, v in st.mem.items():
            if k[0] == 'xel' and k[1] == bid and eq(st, k[2], i):
                return v
        d = self.done(st, bid)
        if d is not None and st.F.entails(i.sub(d)):
            return self.byte(bid, i)
        return ('op', ('encrypted?', bid), None)

    def done(self, st, bid):
        v = st.mem.get(('done', bid))
        return K(0) if v is None else v[1] if v[0] == 'i' else None

    def elem(self, st, src, i, mut, site):
        o = ('xel', src, i)
        st.mem[o] = self.now(st, src, i)
        return ('ref', o, (), mut)

    def load_elem(self, E, v, idx, e):
        if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xb' and idx is not None:
            return self.byte(v[1][1], v[1][2].add(idx))
        return None

    def written(self, st, bid, i, val):
        d = self.done(st, bid)
        ok = self.encrypted(st, val, i) == self.of(bid) if self.more is None else \
            bid == ('raw',) and self.more(st, i, val) == ('mood',)
        if d is not None and eq(st, i, d) and ok:
            st.mem[('done', bid)] = ('i', d.addc(1))
        else:
            self.bad(st, 'a byte of a buffer is replaced by something else than itself XOR the byte of the key that is due')

    def store(self, E, st, root, proj, val):
        if root[0] == 'xel':
            self.written(st, root[1], root[2], val)

    def elstore(self, E, st, root, proj, idx, val):
        v = E.load(st, self.L, root, proj)
        if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] == 'xb':
            if idx is None:
                self.bad(st, 'a byte is written at an unknown place')
            else:
                self.written(st, v[1][1], v[1][2].add(idx), val)

    def item_out(self, st, site, n, item):
        if n is None:
            self.bad(st, 'items lost')
            return
        o = self.encrypted(st, item, n) if self.more is None else self.more(st, n, item)
        if o is None or self.orig.setdefault(('coll', site), o) != o:
            st.mem[('coll', site)] = ('fn', False)

    def collecting(self, st, site):
        st.mem[('coll', site)] = ('fn', True)

    def collected(self, fr, st, site, dty, n, acc):
        o = st.mem.get(('coll', site))
        if n is None or not self.L.T[dty]['s'].startswith(('alloc::vec::Vec<u8', 'alloc::boxed::Box<[u8]')):
            return None
        bid = ('coll', site)
        if o != ('fn', True) or bid not in self.orig:
            return None
        st.mem[('done', bid)] = ('i', n if self.more is None else K(0))
        return ('seq', ('xb', bid, K(0)), n, None)

    # ---------------------------------------------------------------- calls
    def whole(self, st, v):
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            x = self.E.load(st, self.L, v[1], v[2])
            if x is None or x[0] != 'ref':
                return (v[1], tuple(p[1] for p in v[2]))
            v, n = x, n + 1
        return v

    def fork(self, fr, st, args, site, dty, name, item, ln=None):
        E = self.E
        out = []
        for vi in (0, 1):
            s = st.copy()
            v = E.fresh(self.L, (site, 'io'), dty)
            if v[0] != 'en' or not E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                continue
            p = E.payload(self.L, v, vi, '0')
            if vi == 0 and ln is not None and p[0] == 'i':
                E.add_fact(s, ln.sub(p[1]))
            self.add(s, *(item + ((p[1] if p[0] == 'i' else None,) if vi == 0 else ('failed',))))
            out.append((s, v))
        return out

    def intercept(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        r = self.call(fr, st, name, callee, args, site, dty, t)
        if r is not None:
            return r
        nm = name.rsplit('::', 1)[-1]
        m = IO.search(name)
        if m and args and E.local_fn(fr, callee) is None and isinstance(dty, int):
            who = self.whole(st, args[0][0])
            kind = m.group(2)
            if kind == 'by_ref':
                return [(st, args[0][0])]
            if kind in ('read', 'write'):
                b = self.buf(st, args[1][0])
                if kind == 'write' and b is not None:
                    d = self.done(st, b[0])
                    self.add(st, 'done', d)
                return self.fork(fr, st, args, site, dty, name, (kind, who, b), b[2] if b else None)
            return self.fork(fr, st, args, site, dty, name, (kind, who, args[1][0] if len(args) > 1 else None))
        if not args or args[0][0] is None:
            if nm in ('new', 'with_capacity', 'default') and isinstance(dty, int) and L.T[dty]['s'].startswith('alloc::vec::Vec<u8'):
                st.mem[('done', ('new', site))] = ('i', K(0))
                return [(st, ('seq', ('xb', ('new', site), K(0)), K(0), None))]
            return None
        b = self.buf(st, args[0][0])
        if nm == 'with_capacity' and isinstance(dty, int) and L.T[dty]['s'].startswith('alloc::vec::Vec<u8'):
            st.mem[('done', ('new', site))] = ('i', K(0))
            return [(st, ('seq', ('xb', ('new', site), K(0)), K(0), None))]
        if b is None:
            return None
        bid, off, ln = b
        a1 = args[1][0] if len(args) > 1 else None
        ref = lambda v, tag: self.refto(st, v, (site, tag))
        if nm in ('to_vec', 'to_owned', 'clone', 'into_vec', 'into_boxed_slice', 'from', 'into'):
            if not (eq(st, off, K(0)) and self.done(st, bid) is not None):
                return None
            n = ('cp', site)
            self.orig[n] = self.of(bid)
            st.mem[('done', n)] = st.mem.get(('done', bid), ('i', K(0)))
            return [(st, ('seq', ('xb', n, K(0)), ln, None))]
        if nm in ('as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut'):
            return [(st, args[0][0])]
        if nm == 'push' and a1 is not None and bid[0] != 'new' and eq(st, ln, K(0)) and a1[0] == 'i' and a1[1].isconst():
            pl = self.place(st, args[0][0])
            E.store(st, fr, pl[1], pl[2], ('seq', ('xb', ('const', (a1[1].c,)), K(0)), K(1), None), site)
            return [(st, ('st', None, (site, 'unit'), ()))]
        if nm == 'push' and a1 is not None and bid[0] == 'new':
            w = self.encrypted(st, a1, ln) if self.more is None else self.more(st, ln, a1)
            if w is None or self.orig.get(bid, w) != w:
                self.bad(st, 'a byte that is collected is not the next one XOR the byte of the key that is due')
            else:
                self.orig[bid] = w
            pl = self.place(st, args[0][0])
            st.mem[('done', bid)] = ('i', ln.addc(1) if self.more is None else K(0))
            E.store(st, fr, pl[1], pl[2], ('seq', ('xb', bid, off), ln.addc(1), None), site)
            return [(st, ('st', None, (site, 'unit'), ()))]
        if nm == 'extend' and bid[0] == 'new' and eq(st, ln, K(0)):
            pl, x = self.find(st, a1)
            if x is None:
                return None
            cl = E.find_ty(L, 'alloc::vec::Vec<u8>')
            r = self.call(fr, st, 'core::iter::traits::iterator::Iterator::collect', callee, [args[1]], site, cl, t)
            out = []
            for s, v in r or ():
                p = self.place(s, args[0][0])
                E.store(s, fr, p[1], p[2], v, site)
                out.append((s, ('st', None, (site, 'unit'), ())))
            return out if r is not None else None
        if nm in ('index', 'index_mut', 'get', 'get_mut') and a1 is not None:
            if a1[0] == 'i':
                if nm.startswith('get'):
                    out = []
                    for vi in (1, 0):
                        s = st.copy()
                        if E.assume(s, engine.cge(ln.sub(a1[1]).addc(-1)), bool(vi)):
                            out.append((s, E.new_enum(s, dty, (site, 'g', vi), vi, [('0', self.elem(s, bid, off.add(a1[1]), True, site))] if vi else [])))
                    return out
                if not E.assume(st, engine.cge(ln.sub(a1[1]).addc(-1))):
                    return []
                return [(st, self.elem(st, bid, off.add(a1[1]), nm == 'index_mut', site))]
            if a1[0] == 'st' and a1[1] is not None:
                p = L.T[a1[1]].get('path', '')
                f = lambda n: E.field(L, a1, n, None)
                a, z = K(0), ln
                if p.endswith(('::Range', '::RangeFrom')):
                    a = f('start')[1]
                if p.endswith(('::Range', '::RangeTo')):
                    z = f('end')[1]
                if not p.endswith(('::Range', '::RangeFrom', '::RangeTo', '::RangeFull')):
                    return None
                c = engine.cand(engine.cge(z.sub(a)), engine.cge(ln.sub(z)))
                v = ('seq', ('xb', bid, off.add(a)), z.sub(a), None)
                if nm.startswith('get'):
                    out = []
                    for vi in (1, 0):
                        s = st.copy()
                        if E.assume(s, c, bool(vi)):
                            o = ('part', site)
                            s.mem[o] = v
                            out.append((s, E.new_enum(s, dty, (site, 'g', vi), vi, [('0', ('ref', o, (), True))] if vi else [])))
                    return out
                if not E.assume(st, c):
                    return []
                return [(st, ref(v, 'part'))]
        return None

    def place(self, st, v):
        while True:
            x = self.E.load(st, self.L, v[1], v[2])
            if x is None or x[0] != 'ref':
                return v
            v = x

    def refto(self, st, v, o):
        o = ('part', o)
        st.mem[o] = v
        return ('ref', o, (), True)


def methods(ctx, L):
    fs = {}
    for f in L.fns:
        s = f.get('self')
        if f.get('trait') and s is not None and L.T[s].get('path') == XS and 'blocks' in f and \
                f['trait'].rsplit('::', 1)[-1] in ('Read', 'Write', 'Seek', 'BufRead'):
            fs[(f['trait'].rsplit('::', 1)[-1], f['name'])] = f
    want = {('Read', 'read'), ('Write', 'write'), ('Write', 'flush'), ('Seek', 'seek')}
    for k in want:
        ctx.need(fs.get(k), '%s::%s of XorStream' % k)
    for k in set(fs) - want:
        ctx.ob(False, 'method:' + k[1], ctx.where(fs[k]), 'nothing is known about the method %s of the XOR stream' % k[1])
    return fs


def fields(ctx, L):
    """(stream, key, key size) fields of the XOR stream"""
    a = ctx.adt(XS)
    r = {}
    for f in a['variants'][0]['f']:
        s = L.T[f['t']]
        if s['k'] == 'param':
            r['stream'] = f['n']
        elif s.get('path', '').endswith('Cycle'):
            r['key'] = f['n']
        elif s['k'] == 'int':
            r['size'] = f['n']
    ctx.need(len(r) == 3, 'fields stream, key and key size of XorStream')
    return r


def setup(X, f, fl):
    E, L = X.E, X.L
    S = ('xs', 0)
    X.S = S
    X.size = V(sym(('key size',), 1, 1 << 48))
    X.len = V(sym(('buf len',), 0, 1 << 48))

    def init(E_, st, fr, j, ti):
        if j == 0:
            v = E_.fresh(L, ('xor',), L.T[ti]['t'])
            v = E_.upd(L, v, (('f', fl['key'], None),), X.mk('key', 'key', ph=('i', X.phase0), n=('i', X.size)))
            v = E_.upd(L, v, (('f', fl['size'], None),), ('i', X.size))
            st.mem[S] = v
            return ('ref', S, (), True)
        t = L.T[ti]
        if t['k'] == 'ref' and L.T[t['t']]['k'] == 'slice':
            o = ('bufo', 0)
            st.mem[o] = ('seq', ('xb', ('buf',), K(0)), X.len, None)
            st.mem[('done', ('buf',))] = ('i', K(0))
            return ('ref', o, (), t.get('mut', False))
        return None
    return init


def phase(X, st, fl):
    k = X.E.load(st, X.L, X.S, (('f', fl['key'], None),))
    return X.get(k, 'ph')[1] if X.isx(k) and X.get(k, 'ph')[0] == 'i' else None


def run(ctx):
    L = ctx.lib
    fs = methods(ctx, L)
    fl = fields(ctx, L)
    transfer(ctx, L, fs[('Read', 'read')], fl, 'read')
    transfer(ctx, L, fs[('Write', 'write')], fl, 'write')
    flush(ctx, L, fs[('Write', 'flush')], fl)
    seek(ctx, L, fs[('Seek', 'seek')], fl)
    with_key(ctx, L, fl)
    song(ctx, L)


def transfer(ctx, L, f, fl, kind):
    X = Xor(ctx.crates, L)
    E = X.E
    sts, fr = E.paths(f, setup(X, f, fl), 'c17' + kind)
    w = ctx.where(f)
    n_ok = n_err = 0
    for st in sts:
        v = st.mem.get((fr.id, 0))
        log = [x for x in X.log(st) if x[0] != 'done']
        if not ctx.ob(len(log) == 1 and log[0][0] == kind and log[0][1] == (X.S, (fl['stream'],)), kind + ':once', w,
                      '%s does not %s the inner stream exactly once' % (kind, kind)):
            continue
        it = log[0]
        ctx.ob(not X.isbad(st), kind + ':bytes', w, (st.mem[BAD][1][0][0] if X.isbad(st) and st.mem[BAD][1][0] != 'lost' else
                                                     'the bytes are not XORed with the key'), 'each byte with its byte of the key')
        b = it[2]
        if b is None:
            ctx.ob(False, kind + ':buffer', w, 'it is not known which buffer the inner stream gets')
            continue
        same = eq(st, b[1], K(0)) and eq(st, b[2], X.len)
        if kind == 'read':
            ctx.ob(same and b[0] == ('buf',), 'read:buffer', w, 'the inner stream does not read into the buffer', 'reads into the buffer')
        else:
            d = [x[1] for x in X.log(st) if x[0] == 'done']
            ctx.ob(same and X.of(b[0]) == ('buf',) and d and d[-1] is not None and eq(st, d[-1], X.len), 'write:buffer', w,
                   'the inner stream does not get all the bytes of the buffer, encrypted', 'writes all bytes, encrypted')
        ph = phase(X, st, fl)
        if E.fails(L, st, v):
            n_err += 1
            ctx.ob(it[-1] == 'failed' and ph is not None and eq(st, ph, X.phase0), kind + ':error', w,
                   '%s fails without need or moves in the key although nothing was transferred' % kind)
            continue
        n_ok += 1
        n = it[-1]
        p = E.payload(L, v, 0, '0')
        if not ctx.ob(isinstance(n, Lin), kind + ':ok', w, '%s succeeds although the inner stream failed' % kind):
            continue
        ctx.ob(p[0] == 'i' and eq(st, p[1], n), kind + ':count', w, '%s answers with another number of bytes than the inner stream' % kind)
        ctx.ob(ph is not None and eq(st, ph, X.phase0.add(n)), kind + ':phase', w,
               'the key does not move on by the number of bytes that were transferred', '%s: key + n' % kind)
        if kind == 'read':
            d = X.done(st, ('buf',))
            ctx.ob(d is not None and eq(st, d, n), 'read:all', w, 'not exactly the bytes that were read are decrypted', 'n bytes decrypted')
    ctx.floor('paths of ' + kind, min(n_ok, n_err), 1)


def flush(ctx, L, f, fl):
    X = Xor(ctx.crates, L)
    sts, fr = X.E.paths(f, setup(X, f, fl), 'c17f')
    w = ctx.where(f)
    ctx.floor('paths of flush', len(sts), 1)
    for st in sts:
        log = X.log(st)
        ok = len(log) == 1 and log[0][:2] == ('flush', (X.S, (fl['stream'],)))
        ctx.ob(ok and eq(st, phase(X, st, fl), X.phase0) and X.E.fails(L, st, st.mem.get((fr.id, 0))) == (log[0][-1] == 'failed'), 'flush', w,
               'flush is not that of the inner stream', 'flush: inner')


def seek(ctx, L, f, fl):
    X = Xor(ctx.crates, L)
    E = X.E
    arg = {}
    ini = setup(X, f, fl)

    def init(E_, st, fr, j, ti):
        v = ini(E_, st, fr, j, ti)
        if j == 1:
            v = E_.fresh(L, ('whence',), ti)
            arg['v'] = v
        return v
    sts, fr = E.paths(f, init, 'c17s')
    w = ctx.where(f)
    n = 0
    for st in sts:
        v = st.mem.get((fr.id, 0))
        log = X.log(st)
        ph = phase(X, st, fl)
        ctx.ob(all(x[1] == (X.S, (fl['stream'],)) for x in log), 'seek:stream', w, 'seek moves another stream')
        sk = [x for x in log if x[0] == 'seek']
        if E.fails(L, st, v):
            ctx.ob([x for x in log if x[-1] == 'failed'] and (ph is not None and eq(st, ph, X.phase0)), 'seek:error', w,
                   'seek fails without need, or moves in the key although it failed')
            continue
        n += 1
        old = [x[-1] for x in log if x[0] == 'stream_position' and log.index(x) < log.index(sk[0])] if sk else []
        ok = len(sk) == 1 and sk[0][2] == arg['v'] and isinstance(sk[0][-1], Lin) and old and isinstance(old[0], Lin)
        if not ctx.ob(ok, 'seek:inner', w, 'seek does not seek the inner stream once, to where it is told to'):
            continue
        new, old = sk[0][-1], old[0]
        p = E.payload(L, v, 0, '0')
        ctx.ob(p[0] == 'i' and eq(st, p[1], new), 'seek:answer', w, 'seek does not answer with the new position', 'answers the new position')
        ctx.ob(ph is not None and congruent_(st, ph.sub(X.phase0), new.sub(old), X.size), 'seek:phase', w,
               'after a seek the key does not stand where the stream stands', 'key moves by new - old, modulo its length')
    ctx.floor('paths of seek', n, 1)


def congruent_(st, x, y, m):
    if congruent(st, x, y, m):
        return True
    # x is another name for a number that is
    for f in st.F.s:
        for s, c in f.t:
            if c in (1, -1):
                k = SYM[s][0]
                if isinstance(k, tuple) and k[0] == 'rem' and k[2] == m:
                    for z in (V(s), m.sub(V(s)), V(s).neg()):
                        if eq(st, x, z) and congruent(st, z, y, m):
                            return True
    return eq(st, x, K(0)) and eq(st, y, K(0))


def with_key(ctx, L, fl):
    f = ctx.fn(XS + '::<T>::with_key')
    X = Xor(ctx.crates, L)
    E = X.E
    ln = V(sym(('key len',), 0, 1 << 48))
    keep = {}

    def init(E_, st, fr, j, ti):
        if L.T[ti].get('path') == 'alloc::vec::Vec':
            return ('seq', ('xb', ('thekey',), K(0)), ln, None)
        v = E_.fresh(L, ('inner',), ti)
        keep['s'] = v
        return v
    sts, fr = E.paths(f, init, 'c17k')
    w = ctx.where(f)
    ctx.floor('paths of with_key', len(sts), 2)
    for st in sts:
        v = st.mem.get((fr.id, 0))
        k = E.field(L, v, fl['key'], None)
        z = E.field(L, v, fl['size'], None)
        ctx.ob(E.field(L, v, fl['stream'], None) == keep['s'], 'key:stream', w, 'the XOR stream is not around the stream that is given')
        if not ctx.ob(X.isx(k) and k[2][1] == 'key', 'key', w, 'it is not known which key the XOR stream uses'):
            continue
        n = X.get(k, 'n')[1]
        ctx.ob(eq(st, X.get(k, 'ph')[1], K(0)) and z[0] == 'i' and eq(st, z[1], n) and st.F.entails(n.addc(-1)), 'key:size', w,
               'the key does not start at its start, or its length is taken to be another one', 'key from 0, of its length')
        src = k[2][2]
        if src == ('thekey',):
            ctx.ob(st.F.entails(ln.addc(-1)) and eq(st, n, ln), 'key:given', w, 'the key that is given is not used', 'the key that is given')
        else:
            ctx.ob(eq(st, ln, K(0)) and src[0] == 'const' and set(src[1]) == {0}, 'key:empty', w,
                   'another key than the given one is used', 'an empty key changes nothing')


def song(ctx, L):
    P = 'anlz::SongStructureData'
    n = 0
    for kind, tr in (('read_encrypted', 'read'), ('write_encrypted', 'write')):
        f = ctx.fn('%s::%s' % (P, kind))
        X = Song(ctx.crates, L)
        E = X.E
        keep = {}

        def init(E_, st, fr, j, ti):
            t = L.T[ti]
            if t['k'] == 'tuple':
                e = ('isv', 'encrypted', (1,), (0, 1))
                st.vars['encrypted'] = frozenset((0, 1))
                return ('st', ti, ('args',), ((0, ('b', e)), (1, ('i', X.entries))))
            v = E_.fresh(L, ('arg', j), t['t'] if t['k'] == 'ref' else ti)
            if t['k'] == 'ref':
                keep['self' if t['t'] is not None and L.T[t['t']].get('path') == P else 'stream'] = ('argo', j)
                st.mem[('argo', j)] = v
                return ('ref', ('argo', j), (), True)
            keep['endian'] = v
            return v
        sts, fr = E.paths(f, init, 'c17' + kind)
        w = ctx.where(f)
        for st in sts:
            vs = st.vars.get('encrypted')
            for vi in vs or ():
                s = st.copy()
                if not E.assume(s, ('isv', 'encrypted', (vi,), (0, 1))):
                    continue
                n += 1
                log = X.log(s)
                if not ctx.ob(len(log) == 1 and log[0][0] == tr, kind + ':once', w, 'the song structure is not %s exactly once' % tr):
                    continue
                _, stream, args, val, en, res = log[0]
                ctx.ob(s.mem.get((fr.id, 0)) is not None and s.mem.get((fr.id, 0)) == res, kind + ':result', w,
                       'the answer is not that of the %ser of the data' % tr)
                ctx.ob(en == keep['endian'], kind + ':endian', w, 'another byte order is used')
                if tr == 'read':
                    ctx.ob(args is not None and args[0] == 'i' and eq(s, args[1], X.entries), kind + ':entries', w,
                           'the data is read with another number of entries')
                else:
                    ctx.ob(val == (keep['self'], ()), kind + ':self', w, 'something else is written')
                if vi:
                    ok = stream[0] == 'xor' and stream[1] == (keep['stream'], ()) and stream[2] is not None
                    ctx.ob(ok, kind + ':xor', w, 'encrypted data does not go through the XOR stream with the key of its number of entries',
                           '%s: XOR with published key + entries' % kind)
                else:
                    ctx.ob(stream == ('plain', (keep['stream'], ())), kind + ':plain', w, 'plain data does not go to the stream directly',
                           '%s: plain' % kind)
    ctx.floor('decisions walked', n, 4)
    decide(ctx, L, P)
    structure(ctx, L)


class Song(Xor):
    """bytes of the key of a song structure are KEY[i] + entries, modulo 256"""

    def __init__(self, crates, L):
        super().__init__(crates, L)
        self.entries = V(sym(('entries',), 0, 65535))
        self.more = self.keybyte

    def due(self, st, l, idx):
        """l is byte idx of the key of the song structure"""
        if l is None:
            return None
        for s in self.syms(l):
            k = SYM[s][0]
            if isinstance(k, tuple) and k[0] == 'orig' and k[1] == ('songkey',) and eq(st, k[2], idx) and l == V(s):
                return True
            if isinstance(k, tuple) and k[0] == 'orig' and k[1][0] == 'const' and list(k[1][1]) == KEY and eq(st, k[2], idx) and \
                    congruent(st, l, V(s).add(self.entries), K(256)) and st.F.entails(l) and st.F.entails(l.neg().addc(255)):
                return True
        return False

    def syms(self, l, d=0):
        for s, _ in l.t:
            yield s
            k = SYM[s][0]
            if isinstance(k, tuple) and d < 6:
                for x in k[1:]:
                    if isinstance(x, Lin):
                        yield from self.syms(x, d + 1)

    def keybyte(self, st, n, item):
        return ('songkey',) if item is not None and item[0] == 'i' and self.due(st, item[1], n) else None

    def intercept(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        if re.search(r'XorStream(?:::)?(?:<[^>]*>)?::with_key$', name):
            b = self.buf(st, args[1][0])
            ok = b is not None and self.of(b[0]) == ('songkey',) and eq(st, b[2], K(len(KEY)))
            o = ('xorkey', site)
            return [(st, ('st', dty, ('xorstream', self.whole(st, args[0][0]), ok or None), ()))]
        m = wire.READ.search(name) or wire.WRITE.search(name) or re.search(r'Bin(Read|Write)(?:>)?::(read|write)_options$', name)
        if m and len(args) >= 4 - ('ead' in m.group(0)):
            rd = 'BinRead' in name
            i = 0 if rd else 1
            v = args[i][0]
            x, n = v, 0
            stream = None
            while x is not None and x[0] == 'ref' and n < 8:
                y = E.load(st, L, x[1], x[2])
                if y is not None and y[0] == 'st' and isinstance(y[2], tuple) and y[2][0] == 'xorstream':
                    stream = ('xor',) + y[2][1:]
                    break
                x, n = y, n + 1
            if stream is None:
                stream = ('plain', self.whole(st, v))
            a = args[-1][0]
            if a is not None and a[0] == 'st' and len(a[3]) == 1:
                a = a[3][0][1]
            res = E.fresh(L, (site, 'res'), dty)
            self.add(st, 'read' if rd else 'write', stream, a, None if rd else self.whole(st, args[0][0]), args[i + 1][0], res)
            return [(st, res)]
        return super().intercept(fr, st, name, callee, args, site, dty, t)


def decide(ctx, L, P):
    """the section is taken to be encrypted iff the decrypted mood is a mood"""
    f = ctx.fn(P + '::check_if_encrypted')

    class D(Song):
        def keybyte(self, st, n, item):
            r = super().keybyte(st, n, item)
            if r is not None:
                return r
            k = key_of(item[1]) if item is not None and item[0] == 'i' else None
            if isinstance(k, tuple) and k[0] == 'BitXor':
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    q = key_of(a)
                    if q and q[0] == 'orig' and q[1] == ('raw',) and eq(st, q[2], n) and self.due(st, b, n):
                        return ('mood',)
            return None

        def intercept(self, fr, st, name, callee, args, site, dty, t):
            if re.search(r'Cursor(?:::)?(?:<[^>]*>)?::new$', name):
                b = self.buf(st, args[0][0])
                d = b and self.done(st, b[0])
                o = b and (('mood',) if b[0] == ('raw',) and d is not None and eq(st, d, b[2]) else self.of(b[0]))
                return [(st, ('st', dty, ('cursor', b and (o, b[2]) if not self.isbad(st) else None), ()))]
            m = re.search(r'BinRead(?:Ext)?>?::(read|read_be|read_le|read_ne|read_options|read_args|read_type|read_be_args)$', name)
            if m and isinstance(dty, int):
                x = args[0][0]
                while x is not None and x[0] == 'ref':
                    x = self.E.load(st, self.L, x[1], x[2])
                res = self.E.fresh(self.L, ('moodres',), dty)
                ok = x is not None and x[0] == 'st' and isinstance(x[2], tuple) and x[2][0] == 'cursor' and x[2][1] is not None and \
                    x[2][1][0] == ('mood',) and eq(st, x[2][1][1], K(2)) and 'anlz::Mood' in self.L.T[dty]['s'] and \
                    'le' not in m.group(1).split('_') and 'ne' not in m.group(1).split('_')
                self.add(st, 'mood', ok)
                return [(st, res)]
            return super().intercept(fr, st, name, callee, args, site, dty, t)
    X = D(ctx.crates, L)
    E = X.E

    def init(E_, st, fr, j, ti):
        if L.T[ti]['k'] == 'array':
            st.mem[('done', ('raw',))] = ('i', K(0))
            return ('seq', ('xb', ('raw',), K(0)), K(2), None, 'fix')
        return ('i', X.entries)
    sts, fr = E.paths(f, init, 'c17d')
    w = ctx.where(f)
    n = 0
    for st in sts:
        log = X.log(st)
        if not ctx.ob(len(log) == 1 and log[0] == ('mood', True), 'decide:mood', w,
                      'whether it is encrypted is not decided by the two decrypted bytes of the mood', 'decided by the decrypted mood'):
            continue
        v = st.mem.get((fr.id, 0))
        for vi in (0, 1):
            s = st.copy()
            if v is None or v[0] != 'b' or not E.assume(s, v[1], vi == 1):
                continue
            vs = s.vars.get(('moodres',))
            n += 1
            ctx.ob(vs == frozenset((0,) if vi else (1,)), 'decide:answer', w, 'it is not taken as encrypted exactly if the decrypted mood is valid')
    ctx.floor('answers of the decision', n, 2)


def structure(ctx, L):
    """the section hands the decision and the number of entries to reader and writer of the data"""
    g = ctx.fn('<anlz::SongStructure as binrw::binread::BinRead>::read_options')
    E = engine.Engine(ctx.crates)
    E.cr = L
    E.split = True
    n = [0]
    seen = []

    def call(fr, st, name, callee, args, site, dty, t):
        if name.endswith('SongStructureData::check_if_encrypted'):
            st.vars[('enc',)] = frozenset((0, 1))
            seen.append(('check', args[1][0]))
            st.mem[('chk', 0)] = ('tr', ((args[1][0],),))
            return [(st, ('b', ('isv', ('enc',), (1,), (0, 1))))]
        if name.endswith('SongStructureData::read_encrypted'):
            a = args[-1][0]
            e = E.field(L, a, 0, None)
            n[0] += 1
            c = st.mem.get(('chk', 0))
            ok = True
            for vi in (0, 1):
                s = st.copy()
                if E.assume(s, ('isv', ('enc',), (vi,), (0, 1))):
                    ok = ok and E.decide(s, e[1]) is bool(vi)
            ctx.ob(ok and c is not None and c[1] and c[1][0][0] == E.field(L, a, 1, None), 'section:args', ctx.where(g),
                   'the data is not read as the decision and the number of entries say', 'decision and entries handed on')
            return None
        return None
    E.intercept = call
    sts, fr = E.paths(g, None, 'c17g')
    ctx.floor('data read in a section', n[0], 1)
