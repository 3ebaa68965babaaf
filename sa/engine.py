"""Join-based abstract interpretation of MIR: linear integer facts, enum variants, references to
places, collection lengths; context-sensitive on local callees and closures.  Nothing of the
analysed program is executed and no solver is used; entailment is bounded linear elimination."""
import re
import sys
from dom import Lin, K, V, sym, SYM, Facts, INF, norm

sys.setrecursionlimit(20000)
USIZE = (1 << 64) - 1
ISIZE = (1 << 63) - 1
LENMAX = 1 << 48       # no object in memory is larger than the address space
NPMAX = 1 << 32           # assumption: const-generic array lengths are at most this

KNOWN_VARIANTS = {
    'core::option::Option': (0, 1), 'core::result::Result': (0, 1),
    'core::ops::control_flow::ControlFlow': (0, 1), 'alloc::borrow::Cow': (0, 1),
    'core::cmp::Ordering': (0, 1, 2), 'core::io::seek::SeekFrom': (0, 1, 2),
    'binrw::endian::Endian': (0, 1),
}
NONE, SOME, OK, ERR = 0, 1, 0, 1


MONO_IO = re.compile(r'(Read::read(_exact|_to_end|_to_string|_buf|_vectored)?|Read>::read\w*|Write::write\w*|Write::flush|Write>::write\w*|'
                     r'Seek::stream_position|Seek>::stream_position|BinRead(Ext)?::read\w*|BinRead>::read\w*|'
                     r'BinWrite::write\w*|BinWrite>::write\w*|BinReaderExt::read\w*|BinWriterExt::write\w*)$')


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('mem', 'F', 'vars', 'defer')

    def __init__(self, mem=None, F=None, vars=None, defer=None):
        self.mem = mem if mem is not None else {}
        self.F = F if F is not None else Facts()
        self.vars = vars if vars is not None else {}
        self.defer = defer if defer is not None else {}

    def copy(self):
        return State(dict(self.mem), self.F, dict(self.vars), dict(self.defer))

    def same(self, o):
        return self.F == o.F and self.mem == o.mem and self.vars == o.vars and self.defer == o.defer


def is_false(c):
    return c == ('c', False)


def neg(c):
    k = c[0]
    if k == 'c':
        return ('c', not c[1])
    if k == 'not':
        return c[1]
    if k == 'ge':
        return ('ge', c[1].neg().addc(-1))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return ('or', neg(c[1]), neg(c[2]))
    if k == 'or':
        return ('and', neg(c[1]), neg(c[2]))
    return ('not', c)


def cge(l):
    if l.isconst():
        return ('c', l.c >= 0)
    return ('ge', l)


def ceq(l):
    if l.isconst():
        return ('c', l.c == 0)
    return ('eq', l)


def cand(a, b):
    if a == ('c', True):
        return b
    if b == ('c', True):
        return a
    if is_false(a) or is_false(b):
        return ('c', False)
    return ('and', a, b)


def cor(a, b):
    return neg(cand(neg(a), neg(b)))


def cond_syms(c, out):
    k = c[0]
    if k in ('ge', 'eq', 'ne'):
        out.update(c[1].syms())
    elif k in ('and', 'or'):
        cond_syms(c[1], out)
        cond_syms(c[2], out)
    elif k == 'not':
        cond_syms(c[1], out)
    return out


def cond_eids(c, out):
    k = c[0]
    if k == 'isv':
        out.add(c[1])
    elif k in ('and', 'or'):
        cond_eids(c[1], out)
        cond_eids(c[2], out)
    elif k == 'not':
        cond_eids(c[1], out)
    return out


def val_syms(v, out):
    k = v[0]
    if k == 'i':
        out.update(v[1].syms())
    elif k == 'b':
        cond_syms(v[1], out)
    elif k == 'st':
        for _, x in v[3]:
            val_syms(x, out)
    elif k == 'en':
        for _, x in v[4]:
            val_syms(x, out)
    elif k == 'seq':
        out.update(v[2].syms())
        if v[3]:
            val_syms(v[3], out)
    elif k == 'clo':
        for x in v[2]:
            val_syms(x, out)
    elif k == 'tr':
        for it in v[1]:
            for x in it:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    val_syms(x, out)
                elif isinstance(x, Lin):
                    out.update(x.syms())
    elif k == 'it':
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                val_syms(x, out)
            elif isinstance(x, Lin):
                out.update(x.syms())
    return out


class Frame:
    __slots__ = ('fn', 'cr', 'id', 'subst', 'depth', 'chain', 'cs')

    def __init__(self, fn, cr, fid, subst, depth, chain, cs):
        self.fn = fn
        self.cr = cr
        self.id = fid
        self.subst = subst
        self.depth = depth
        self.chain = chain
        self.cs = cs


class Oblig:
    """one panic-capable construct, in one calling context"""
    __slots__ = ('fn', 'kind', 'what', 'ln', 'ok', 'why', 'chain', 'x', 'entry', 'file')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


def bitwise(op, a, b, bits):
    """numbers that are given as the sum of their bits: symbols ('bit', ..) of 0 or 1, each times a power of two"""
    def of(x):
        if x.isconst() or x.c:
            return None
        d = {}
        for s, c in x.t:
            k = SYM[s][0]
            if not isinstance(k, tuple) or k[0] != 'bit' or c <= 0 or c & (c - 1) or c in d:
                return None
            d[c] = s
        return d
    if op == 'BitAnd' and a.isconst():
        a, b = b, a
    if not b.isconst() or b.c < 0:
        return None
    d = of(a)
    if d is None:
        return None
    out = K(0)
    for c, s in d.items():
        if op == 'BitAnd':
            if c & b.c:
                out = out.add(V(s).scale(c))
        elif op == 'Shr':
            if c >> b.c:
                out = out.add(V(s).scale(c >> b.c))
        elif c << b.c < 1 << bits:
            out = out.add(V(s).scale(c << b.c))
    return out


class Engine:
    MAXDEPTH = 9
    MAXBLOCKS = 220
    MAXPASS = 40

    def __init__(self, crates, opts=None):
        self.crates = crates
        self.cr = crates['lib']
        self.ob = {}
        self.opts = opts or {}
        self.parents = {}
        self.frames = {}
        self.ctxids = {}
        self.visited = set()
        self.uninlined = set()
        self.created = {}        # closure -> {site: (state, frame, value)} for closures that were never run
        self.hooks = {}
        self.xidx = {}           # index projections: which index
        self.elref = {}          # references to elements: which list, which place
        self.notes = {}
        self.events = {}
        self.invariants = {}
        self.budget = 0
        self._fninfo = {}
        self._loops = {}
        self._subst = {}
        self._strict = {}
        self.blocked = set()     # functions not followed because of depth or recursion
        self.unroll = {}         # function key -> how often a recursive call of it is followed
        import models
        self.models = models.MODELS
        self.models_sfx = models.SUFFIX
        self._mfor = {}
        self._seekfree = {}
        self.mm = models

    # ------------------------------------------------------------------ types
    def T(self, fr, i):
        return fr.cr.T[i]

    def ty(self, fr, i):
        """type index with the frame's generic substitution applied"""
        if not fr.subst:
            return i
        return self.subst_ty(fr.cr, i, fr.subst)

    def subst_ty(self, cr, i, sub):
        key = (cr.bin, i, tuple(sorted(sub.items())))
        r = self._subst.get(key)
        if r is not None:
            return r
        t = cr.T[i]
        k = t['k']
        r = i
        if k == 'param':
            r = sub.get(t['name'], i)
            if not isinstance(r, int):
                r = i
        elif k in ('adt', 'ref', 'slice', 'array', 'tuple', 'ptr'):
            n = dict(t)
            ch = False
            if k == 'adt':
                a = [self.subst_ty(cr, x, sub) if isinstance(x, int) else sub.get(x, x) for x in t['args']]
                ch = a != t['args']
                n['args'] = a
            elif k == 'tuple':
                a = [self.subst_ty(cr, x, sub) for x in t['ts']]
                ch = a != t['ts']
                n['ts'] = a
            else:
                a = self.subst_ty(cr, t['t'], sub)
                ch = a != t['t']
                n['t'] = a
                if k == 'array' and 'np' in t and t['np'] in sub:
                    try:
                        n['n'] = int(str(sub[t['np']]).split('_')[0])
                        ch = True
                    except ValueError:
                        pass
            if ch:
                n['s'] = self.ty_str(cr, n)
                r = self.intern_ty(cr, n)
        self._subst[key] = r
        return r

    def ty_str(self, cr, n):
        k = n['k']
        s = lambda x: cr.T[x]['s'] if isinstance(x, int) else str(x)
        if k == 'adt':
            return n['path'] + '<' + ', '.join(s(x) for x in n['args']) + '>'
        if k == 'tuple':
            return '(' + ', '.join(s(x) for x in n['ts']) + (',)' if len(n['ts']) == 1 else ')')
        if k == 'ref':
            return '&' + ('mut ' if n['mut'] else '') + s(n['t'])
        if k == 'slice':
            return '[' + s(n['t']) + ']'
        if k == 'array':
            return '[%s; %s]' % (s(n['t']), n.get('n', n.get('np')))
        return '*' + s(n['t'])

    def intern_ty(self, cr, n):
        ix = getattr(cr, '_tix', None)
        if ix is None:
            ix = cr._tix = {}
            for j, t in enumerate(cr.T):
                ix.setdefault(t['s'], j)
        j = ix.get(n['s'])
        if j is None:
            j = len(cr.T)
            cr.T.append(n)
            ix[n['s']] = j
        return j

    def find_ty(self, cr, s):
        ix = getattr(cr, '_tix', None)
        if ix is None:
            self.intern_ty(cr, cr.T[0])
            ix = cr._tix
        return ix.get(s)

    def int_range(self, t):
        b = t['bits']
        if t['signed']:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def adt_of(self, cr, t):
        return cr.adts.get(t.get('path'))

    def all_variants(self, cr, ti):
        if ti is None:
            return None
        t = cr.T[ti]
        while t['k'] == 'ref':
            t = cr.T[t['t']]
        if t['k'] == 'bool':
            return (0, 1)
        if t['k'] != 'adt':
            return None
        p = t['path']
        if p in KNOWN_VARIANTS:
            return KNOWN_VARIANTS[p]
        a = cr.adts.get(p)
        if a and a['kind'] == 'enum':
            return tuple(range(len(a['variants'])))
        return None

    def discr_to_variant(self, cr, ti, d):
        t = cr.T[ti]
        if t['k'] == 'adt':
            if t['path'] == 'core::cmp::Ordering':
                return {255: 0, 0: 1, 1: 2}.get(d, 0)
            a = cr.adts.get(t['path'])
            if a and a['kind'] == 'enum':
                for i, v in enumerate(a['variants']):
                    if v['d'] == d:
                        return i
                return None
        return d

    def is_enum_ty(self, cr, t):
        if t['k'] != 'adt':
            return False
        p = t['path']
        if p in KNOWN_VARIANTS:
            return True
        a = cr.adts.get(p)
        if a:
            return a['kind'] == 'enum'
        return False

    SEQ = ('alloc::vec::Vec', 'alloc::string::String', 'std::ffi::os_str::OsString')

    # ------------------------------------------------------------ fresh values
    def fresh(self, cr, key, ti):
        t = cr.T[ti]
        k = t['k']
        if k == 'int':
            lo, hi = self.int_range(t)
            return ('i', V(sym(key, lo, hi)))
        if k == 'char':
            return ('i', V(sym(key, 0, 0x10ffff)))
        if k == 'bool':
            return ('b', ('isv', key, (1,), (0, 1)))
        if k in ('ref', 'ptr'):
            return ('ref', ('o', key, t['t']), (), t['mut'])
        if k in ('slice', 'str'):
            return ('seq', key, V(sym((key, 'len'), 0, LENMAX)), None)
        if k == 'array':
            if 'n' in t:
                return ('seq', key, K(t['n']), None, 'fix')
            return ('seq', key, V(sym(('arrlen', t.get('np')), 0, NPMAX)), None, 'fix')
        if k == 'adt':
            p = t['path']
            if p in self.SEQ:
                return ('seq', key, V(sym((key, 'len'), 0, LENMAX)), None)
            if p == 'core::num::nonzero::NonZero' and isinstance(t['args'][0], int):
                it = cr.T[t['args'][0]]
                if it['k'] == 'int' and not it['signed']:
                    return ('i', V(sym((key, 'nz'), 1, self.int_range(it)[1])))
            if self.is_enum_ty(cr, t):
                return ('en', ti, key, key, ())
            if p in cr.adts or p.startswith('core::ops::range::Range'):
                return ('st', ti, key, ())
            return ('op', key, ti)
        if k in ('tuple', 'closure'):
            return ('st', ti, key, ())
        return ('op', key, ti)

    def obj_default(self, fr_cr, root):
        if root[0] == 'o':
            return self.fresh(fr_cr, (root[1], '*'), root[2])
        if root[0] == 'cs':
            return ('seq', root, K(len(root[1].encode())), None)
        if root[0] == 'cb':
            return ('seq', root, K(root[2]), None)
        return None

    # ---------------------------------------------------------------- memory
    def field(self, cr, v, n, fty):
        """project a field (name or index) out of a value"""
        if v[0] == 'st':
            for f, x in v[3]:
                if f == n:
                    return x
            if v[2] is None:
                return None
            return self.fresh_field(cr, v[1], v[2], n, fty)
        if v[0] == 'op':
            return self.fresh(cr, (v[1], n), fty) if fty is not None else ('op', (v[1], n), None)
        if v[0] == 'en':      # field without downcast: single-variant layout
            return self.fresh(cr, (v[3], n), fty) if fty is not None else None
        if v[0] == 'clo':
            return v[2][n] if isinstance(n, int) and n < len(v[2]) else None
        if v[0] == 'i' and fty is not None:     # NonZero inner
            return v if cr.T[fty]['k'] == 'int' else self.fresh(cr, ('nzin', v[1], n), fty)
        if v[0] == 'it' and fty is not None:
            return self.fresh(cr, ('itf', repr(v)[:200], n), fty)
        return None

    def fresh_field(self, cr, sti, key, n, fty):
        t = cr.T[sti]
        inv = self.invariants.get((t.get('path'), n))
        if fty is None:
            fty = self.field_ty(cr, t, None, n)
            if fty is None:
                return ('op', (key, n), None)
        if inv is not None and cr.T[fty]['k'] == 'int':
            lo, hi = self.int_range(cr.T[fty])
            return ('i', V(sym((key, n, 'inv', inv), max(lo, inv[0]), min(hi, inv[1]))))
        return self.fresh(cr, (key, n), fty)

    def field_ty(self, cr, t, vi, n):
        if t['k'] == 'tuple':
            return t['ts'][n] if isinstance(n, int) and n < len(t['ts']) else None
        if t['k'] != 'adt':
            return None
        p = t['path']
        if p == 'core::option::Option' and vi == 1:
            return t['args'][0]
        if p == 'core::result::Result':
            return t['args'][vi or 0] if vi in (0, 1) else None
        if p == 'core::ops::control_flow::ControlFlow' and len(t['args']) == 2:
            return t['args'][1 - vi] if vi in (0, 1) else None
        if p.startswith('core::ops::range::Range') and t['args']:
            return t['args'][0]
        a = cr.adts.get(p)
        if a:
            vs = a['variants'][vi or 0]
            for j, f in enumerate(vs['f']):
                if f['n'] == n or j == n:
                    ft = f['t']
                    if t['args'] and a.get('_gen') is None:
                        pass
                    if cr.T[ft]['k'] in ('int', 'bool'):
                        return ft
                    return ft if not t['args'] else self.subst_adt(cr, a, t, ft)
        return None

    def subst_adt(self, cr, a, t, ft):
        g = a.get('generics')
        if g and len(g) != len(t['args']):
            return ft
        if not g:
            return ft
        return self.subst_ty(cr, ft, dict(zip(g, t['args'])))

    def payload(self, cr, v, vi, n, fty=None):
        """field n of variant vi of an enum value"""
        if v[0] == 'en':
            for k, x in v[4]:
                if k == (vi, n):
                    return x
            if fty is None:
                fty = self.field_ty(cr, cr.T[v[1]], vi, n)
            b = v[3] if v[3] is not None else ('dead', v[2])
            if fty is None:
                return ('op', (b, vi, n), None)
            return self.fresh(cr, (b, vi, n), fty)
        if v[0] == 'op':
            return self.fresh(cr, (v[1], vi, n), fty) if fty is not None else ('op', (v[1], vi, n), None)
        return ('op', ('pl', repr(v)[:100], vi, n), fty)

    def elem(self, cr, v, site, ety):
        if v[0] == 'seq' and v[3] is not None:
            return v[3]
        return self.fresh(cr, (site, 'el'), ety) if ety is not None else ('op', (site, 'el'), None)

    def load_root(self, st, cr, root):
        v = st.mem.get(root)
        if v is None:
            v = self.obj_default(cr, root)
        return v

    def load(self, st, cr, root, proj):
        v = self.load_root(st, cr, root)
        self.ldst = st
        for e in proj:
            if v is None:
                return None
            v = self.proj1(cr, v, e)
        return v

    def proj1(self, cr, v, e):
        k = e[0]
        if k == 'f':
            return self.field(cr, v, e[1], e[2])
        if k == 'vf':
            return self.payload(cr, v, e[1], e[2], e[3])
        if k == 'x':
            if 'elem' in self.hooks:             # which element of which list
                x = self.hooks['elem'](self, v, self.xidx.get(e[1]), e)
                if x is not None:
                    return x
            if v[0] == 'seq' and v[3] is not None and v[3][0] != 'arr':
                return v[3]
            if v[0] == 'seq' and v[3] is not None and len(e) > 3 and e[3] is not None and e[3] < len(v[3][1]):
                return v[3][1][e[3]]
            if e[2] is None:
                return ('op', (e[1], 'el'), None)
            return self.fresh(cr, (e[1], 'el'), e[2])
        if k == 'ss':
            return ('seq', ('ss', e), e[1], None)
        if k == 'box':
            if v[0] == 'op':
                return self.fresh(cr, (v[1], 'box'), e[1])
            return None
        return None

    def upd(self, cr, v, proj, new):
        if not proj:
            return new
        e = proj[0]
        k = e[0]
        if v is None:
            v = ('st', None, None, ())
        if k == 'f':
            if v[0] == 'st':
                old = self.field(cr, v, e[1], e[2]) if len(proj) > 1 else None
                nv = self.upd(cr, old, proj[1:], new)
                d = dict(v[3])
                d[e[1]] = nv
                return ('st', v[1], v[2], tuple(sorted(d.items(), key=lambda x: str(x[0]))))
            if v[0] == 'op':
                old = self.field(cr, v, e[1], e[2]) if len(proj) > 1 else None
                nv = self.upd(cr, old, proj[1:], new)
                return ('st', v[2], v[1], ((e[1], nv),)) if v[2] is not None else v
            if v[0] == 'clo' and isinstance(e[1], int) and e[1] < len(v[2]):
                c = list(v[2])
                c[e[1]] = self.upd(cr, c[e[1]], proj[1:], new)
                return ('clo', v[1], tuple(c)) + v[3:]
            return v
        if k == 'vf':
            if v[0] in ('en', 'op'):
                if v[0] == 'op':
                    if v[2] is None:
                        return v
                    v = ('en', v[2], v[1], v[1], ())
                old = self.payload(cr, v, e[1], e[2], e[3]) if len(proj) > 1 else None
                nv = self.upd(cr, old, proj[1:], new)
                d = dict(v[4])
                d[(e[1], e[2])] = nv
                return ('en', v[1], v[2], v[3], tuple(sorted(d.items(), key=str)))
            return v
        if k == 'x':
            if v[0] == 'seq':
                return ('seq', v[1], v[2], None) + v[4:]
            return v
        return v
    ldst = None

    # ---------------------------------------------------------------- stream positions
    # A place that holds a reader/writer may have a known stream position: mem[('iop', root, proj)].
    IOMAX = (1 << 63) - 1

    def iops(self, st, root, proj):
        """keys of the positions of streams in (or containing) a place"""
        out = []
        for k in st.mem:
            if k[0] == 'iop' and k[1] == root:
                n = min(len(k[2]), len(proj))
                if k[2][:n] == tuple(proj)[:n]:
                    out.append(k)
        return out

    def iop_drop(self, st, root, proj):
        for k in self.iops(st, root, proj):
            del st.mem[k]

    def iop_later(self, st, old, site):
        """the streams in `old` (key -> position) have moved forward by an unknown amount"""
        for i, (k, v) in enumerate(sorted(old.items(), key=str)):
            n = V(sym((site, 'iop', i), 0, self.IOMAX))
            st.mem[k] = ('i', n)
            fs = [n.sub(v[1])]
            if len(v[1].t) == 1 and v[1].t[0][1] == 1:      # what was behind the old position is behind the new one
                s = v[1].t[0][0]
                fs += [f.add(V(s), -1).add(n).addc(-v[1].c) for f in st.F.ix().get((s, True), ())
                       if len(f.t) == 2 and f.coef(s) == 1]
            st.F = st.F.with_([norm(f) for f in fs])

    def mono_io(self, name, callee=None):
        """calls that never move a stream backwards (on any path that reports success)"""
        if MONO_IO.search(name):
            if 'BinRead' in name or 'BinWrite' in name:
                f = self.local_fn_by_path(name)
                return f is None or self.seekfree(f)
            return True
        return False

    def local_fn_by_path(self, name):
        for cr in self.crates.values():
            f = cr.by_path.get(name)
            if f is not None and 'blocks' in f:
                return f
        return None

    PRIM = re.compile(r'<?(impl )?(binrw::\S+ for )?(u8|u16|u32|u64|u128|i8|i16|i32|i64|i128|f32|f64|char)\b')

    def strict(self, f):
        """a reader that has consumed at least one byte on every path that returns without an error"""
        r = self._strict.get(f['key'])
        if r is not None:
            return r
        self._strict[f['key']] = False
        cr = f['crate']
        res = self._strict[f['key']] = self._strict_body(f, cr)
        return res

    def const_fn(self, f, cr, o, d=0):
        """the function a callee operand always is"""
        if 'k' in o:
            return cr.T[o['k']['t']].get('callee') if 't' in o['k'] else None
        pl = o.get('m') or o.get('c')
        if pl is None or pl.get('p') or d > 6:
            return None
        asg = [s['rv'] for b in f['blocks'] for s in b['s'] if s.get('k') == '=' and s['pl'] == {'l': pl['l']}]
        asg += [None for b in f['blocks'] if b['t']['k'] == 'call' and b['t']['dst'] == {'l': pl['l']}]
        if len(asg) != 1 or asg[0] is None or asg[0]['k'] not in ('use', 'cast'):
            return None
        return self.const_fn(f, cr, asg[0]['o'], d + 1)

    def strict_callee(self, cr, c):
        n = c.get('rp', c['p'])
        if c.get('tr') == 'binrw::binread::BinRead' and c.get('name') in ('read_options', 'read_le', 'read_be', 'read_args',
                                                                         'read_le_args', 'read_be_args', 'read_ne', 'read'):
            t = cr.T[c['args'][0]] if isinstance(c['args'][0], int) else None
            if t is None:
                return False
            if t['k'] in ('int', 'float', 'char'):
                return True
            if t['k'] == 'array':
                e = cr.T[t['t']]
                return t.get('n', 0) > 0 and e['k'] in ('int', 'float')
            if t['k'] == 'adt':
                g = self.find_impl(cr, c['tr'], t, 'read_options', [])
                return g is not None and 'blocks' in g and self.strict(g)
            return False
        g = cr.by_key.get(c.get('rk') or c.get('pk') or '')
        return g is not None and 'blocks' in g and 'Reader' not in n and self.strict(g)

    def _strict_body(self, f, cr):
        bl = f['blocks']
        seen, todo = set(), [0]
        closures = {}
        while todo:
            b = todo.pop()
            if b in seen or bl[b].get('cl'):
                continue
            seen.add(b)
            err = False
            for s in bl[b]['s']:
                rv = s.get('rv') or {}
                if rv.get('ak') == 'adt' and rv.get('vn') == 'Err' and s['pl']['l'] == 0 and not s['pl'].get('p'):
                    err = True
            t = bl[b]['t']
            if t['k'] == 'return':
                return False
            if err:
                continue
            if t['k'] == 'call':
                c = self.const_fn(f, cr, t['f'])
                if c is not None:
                    n = c.get('rp', c['p'])
                    if 'from_residual' in n:
                        continue
                    if c.get('tr') in self.FNTRAITS and c.get('rk') in cr.by_key:
                        g = cr.by_key[c['rk']]
                        if 'blocks' in g and self.strict(g):
                            continue
                    elif self.strict_callee(cr, c):
                        continue
            to = [v[1] for v in t['vals']] + ([t['else']] if t.get('else') is not None else []) if t['k'] == 'switch' \
                else list(t.get('to') or [])
            todo += to
        return True

    def seekfree(self, f):
        """no call to Seek::seek (or into unknown local readers) anywhere below f"""
        r = self._seekfree.get(f['key'])
        if r is not None:
            return r
        self._seekfree[f['key']] = True      # cycles: optimistic, the cycle itself adds no seek
        ok = True
        cr = f['crate']
        for b in f['blocks']:
            t = b['t']
            for s in b['s']:
                rv = s.get('rv') or {}
                if rv.get('ak') == 'closure':
                    g = cr.by_key.get(rv['key'])
                    if g is not None and 'blocks' in g and not self.seekfree(g):
                        ok = False
            if t['k'] != 'call' or 'k' not in t['f']:
                continue
            c = cr.T[t['f']['k']['t']].get('callee')
            if c is None:
                continue
            n = c.get('rp', c['p'])
            if n.endswith(('Seek::seek', 'Seek>::seek', 'Seek::rewind', 'Seek>::rewind', 'Seek::seek_relative',
                           'restore_position', 'restore_position_err', 'restore_position_variant')) or 'Seek' in n and \
                    n.endswith('::seek'):
                # restoring the position of a failed read happens on error paths only
                if not n.startswith('binrw::'):
                    ok = False
            g = self.local_fn_by_path(n)
            if g is not None and not self.seekfree(g):
                ok = False
        self._seekfree[f['key']] = ok
        return ok

    def store(self, st, fr, root, proj, val, site):
        self.iop_drop(st, root, proj)
        if 'store' in self.hooks:
            self.hooks['store'](self, st, root, proj, val)
        if 'elstore' in self.hooks:          # an element of a list is written: which list, which place, what
            h = self.hooks['elstore']
            i = next((j for j, e in enumerate(proj) if e[0] == 'x'), None)
            if i is not None:
                h(self, st, root, proj[:i], self.xidx.get(proj[i][1]), val)
            elif root in self.elref:
                h(self, st, *self.elref[root], val)
        cur = self.load_root(st, fr.cr, root)
        st.mem[root] = self.upd(fr.cr, cur, proj, val)
        if root[0] == 'o':
            self.touch_parents(st, fr, root, site)

    def touch_parents(self, st, fr, root, site):
        key = root[1]
        while True:
            ps = self.parents.get(key)
            if ps:
                for i, q in enumerate(ps):
                    r, p = q[0], q[1]
                    if r != root:
                        if len(q) > 2:
                            self.havoc_elems(st, fr, r, p, (site, 'par', i))
                        else:
                            self.havoc(st, fr, r, p, (site, 'par', i))
                return
            if isinstance(key, tuple) and key and isinstance(key[0], tuple):
                key = key[0]
            else:
                return

    def havoc_elems(self, st, fr, root, proj, site):
        """an element of a collection was written: contents unknown, length unchanged"""
        v = self.load(st, fr.cr, root, proj)
        if v is not None and v[0] == 'seq':
            key = v[1] if 'elstore' in self.hooks and isinstance(v[1], tuple) and v[1][0] in ('xb', 'xl') else (site, 'hv')
            nv = ('seq', key, v[2], None) + v[4:]
            st.mem[root] = self.upd(fr.cr, self.load_root(st, fr.cr, root), proj, nv)
            if root[0] == 'o':
                self.touch_parents(st, fr, root, site)
        else:
            self.havoc(st, fr, root, proj, site)

    def type_of_val(self, cr, v):
        k = v[0]
        if k in ('st', 'en'):
            return v[1]
        if k == 'op':
            return v[2]
        return None

    def havoc(self, st, fr, root, proj, site, ty=None):
        """forget the contents of a place"""
        cr = fr.cr
        self.iop_drop(st, root, proj)
        v = self.load(st, cr, root, proj)
        if v is None:
            return
        nv = self.havoc_val(cr, v, site)
        if 'elstore' in self.hooks:
            i = next((j for j, e in enumerate(proj) if e[0] == 'x'), None)
            if i is not None:
                self.hooks['elstore'](self, st, root, proj[:i], None, None)
            elif root in self.elref:
                self.hooks['elstore'](self, st, *self.elref[root][:2], None, None)
        st.mem[root] = self.upd(cr, self.load_root(st, cr, root), proj, nv)
        if root[0] == 'o':
            self.touch_parents(st, fr, root, site)
        # things reachable through mutable references stored in the place
        for r, p in self.mut_refs(st, cr, v):
            if (r, p) != (root, proj):
                self.havoc(st, fr, r, p, (site, 'in'))

    def havoc_val(self, cr, v, site):
        k = v[0]
        if k == 'i':
            ss = v[1].syms()
            lo, hi = v[1].lo(), v[1].hi()
            # widen to a machine type that certainly covers it
            for b in (8, 16, 32, 64, 128):
                if lo >= 0 and hi < (1 << b):
                    lo, hi = 0, (1 << b) - 1
                    break
                if lo >= -(1 << (b - 1)) and hi < (1 << (b - 1)):
                    lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
                    break
            if not ss or hi < (1 << 64):
                hi = max(hi, USIZE)
            return ('i', V(sym((site, 'hv', lo, hi), lo, hi)))
        if k == 'b':
            return ('b', ('isv', (site, 'hv'), (1,), (0, 1)))
        if k == 'st':
            if v[1] is None:
                return ('op', (site, 'hv'), None)
            return ('st', v[1], (site, 'hv'), ())
        if k == 'en':
            return ('en', v[1], (site, 'hv'), (site, 'hv'), ())
        if k == 'op':
            return ('op', (site, 'hv'), v[2])
        if k == 'seq':
            if len(v) > 4 and v[4] == 'fix':
                return ('seq', (site, 'hv'), v[2], None, 'fix')
            return ('seq', (site, 'hv'), V(sym((site, 'hv', 'len'), 0, LENMAX)), None)
        if k == 'ref':
            return v if not v[3] else v
        if k == 'clo':
            return v
        if k == 'it':
            return v
        return v

    def mut_refs(self, st, cr, v, depth=0):
        out = []
        k = v[0]
        if depth > 4:
            return out
        if k == 'ref':
            if v[3]:
                out.append((v[1], v[2]))
                x = self.load(st, cr, v[1], v[2])
                if x is not None and x[0] in ('st', 'en', 'ref', 'clo'):
                    out += self.mut_refs(st, cr, x, depth + 1)
        elif k == 'st':
            for _, x in v[3]:
                out += self.mut_refs(st, cr, x, depth + 1)
        elif k == 'en':
            for _, x in v[4]:
                out += self.mut_refs(st, cr, x, depth + 1)
        elif k == 'clo':
            for x in v[2]:
                out += self.mut_refs(st, cr, x, depth + 1)
        elif k == 'it':
            for x in v[2:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    out += self.mut_refs(st, cr, x, depth + 1)
        return out

    # ---------------------------------------------------------------- places
    def place(self, st, fr, p, site):
        """-> (root, proj, type index)"""
        root = (fr.id, p['l'])
        proj = ()
        cr = fr.cr
        ti = self.ty(fr, fr.fn['locals'][p['l']]['t'])
        var = None
        for n, e in enumerate(p.get('p', ())):
            if e == '*':
                v = self.load(st, cr, root, proj)
                t = cr.T[ti]
                if t['k'] in ('ref', 'ptr'):
                    pt = t['t']
                elif t['k'] == 'adt' and t['args'] and isinstance(t['args'][0], int):
                    pt = t['args'][0]
                else:
                    pt = ti
                if v is not None and v[0] == 'ref':
                    root, proj = v[1], v[2]
                elif v is not None and v[0] == 'op' and t['k'] == 'adt':
                    root, proj = ('o', (v[1], 'box'), pt), ()
                else:
                    key = ('unk', site, n) if v is None or v[0] != 'op' else v[1]
                    root, proj = ('o', key, pt), ()
                ti = pt
                var = None
            elif isinstance(e, str):
                raise Unsupported('projection ' + e)
            elif 'f' in e:
                ft = self.ty(fr, e['t'])
                nm = e['n'] if 'n' in e and cr.T[ti]['k'] == 'adt' else e['f']
                if var is not None:
                    proj = proj + (('vf', var, nm, ft),)
                else:
                    proj = proj + (('f', nm, ft),)
                ti = ft
                var = None
            elif 'd' in e:
                var = e['d']
            elif 'i' in e:
                et = cr.T[ti].get('t')
                iv = self.load(st, cr, (fr.id, e['i']), ())
                kx = iv[1].c if iv is not None and iv[0] == 'i' and iv[1].isconst() else None
                self.xidx[(site, n)] = iv[1] if iv is not None and iv[0] == 'i' else None
                proj = proj + (('x', (site, n), et, kx),)
                ti = et
            elif 'ci' in e:
                et = cr.T[ti].get('t')
                proj = proj + (('x', (site, n, tuple(e['ci'])), et, e['ci'][0] if not e['ci'][2] else None),)
                ti = et
            elif 'ss' in e:
                v = self.load(st, cr, root, proj)
                a, b, fe = e['ss']
                if v is not None and v[0] == 'seq':
                    ln = v[2].addc(-(a + b)) if fe else K(b - a)
                else:
                    ln = V(sym((site, n, 'sslen'), 0, LENMAX))
                proj = proj + (('ss', ln),)
            else:
                raise Unsupported('projection')
        return root, proj, ti

    def read(self, st, fr, p, site):
        root, proj, ti = self.place(st, fr, p, site)
        v = self.load(st, fr.cr, root, proj)
        if v is None:
            v = self.fresh(fr.cr, (site, 'un'), ti)
        return v, ti

    def const(self, st, fr, k, site):
        cr = fr.cr
        ti = self.ty(fr, k['t'])
        t = cr.T[ti]
        if 'v' in k:
            if t['k'] in ('int', 'char'):
                return ('i', K(k['v'])), ti
            if t['k'] == 'bool':
                return ('b', ('c', bool(k['v']))), ti
            if t['k'] == 'adt':
                if self.is_enum_ty(cr, t) and t['path'] in cr.adts:
                    vi = self.discr_to_variant(cr, ti, k['v'])
                    if vi is not None:
                        eid = ('kc', ti, vi)
                        st.vars[eid] = frozenset((vi,))
                        return ('en', ti, eid, eid, ()), ti
                if t['path'] == 'core::num::nonzero::NonZero':
                    return ('i', K(k['v'])), ti
                a = cr.adts.get(t['path'])
                if a and a['kind'] == 'struct' and len(a['variants'][0]['f']) == 1:
                    f = a['variants'][0]['f'][0]
                    if cr.T[f['t']]['k'] == 'int':
                        return ('st', ti, ('kc', ti, k['v']), ((f['n'], ('i', K(k['v']))),)), ti
            return self.fresh(cr, ('k', ti, k['v']), ti), ti
        if 'str' in k:
            return ('ref', ('cs', k['str']), (), False), ti
        if 'ds' in k:
            v = self.const_ds(st, cr, k['ds'], ('kd',))
            if v is not None:
                return v, ti
        if 'mem' in k and t['k'] == 'array' and cr.T[t['t']]['k'] == 'int':
            b = cr.T[t['t']]['bits'] // 8
            m = k['mem']
            els = tuple(('i', K(int.from_bytes(bytes(m[j:j + b]), 'little', signed=cr.T[t['t']]['signed'])))
                        for j in range(0, len(m), b))
            return ('seq', ('km', tuple(m)), K(len(els)), ('arr', els), 'fix'), ti
        if 'bytes' in k and t['k'] == 'ref' and cr.T[t['t']]['k'] in ('array', 'slice'):
            n = len(k['bytes'])
            tt = cr.T[t['t']]
            if tt['k'] == 'array' and 'n' in tt:
                n = tt['n']
            root = ('cb', tuple(k['bytes']), n)
            return ('ref', root, (), False), ti
        if t['k'] == 'fndef':
            return ('fn', ti), ti
        if t['k'] == 'closure':
            return ('clo', t['key'], (), fr.id), ti
        if 'pr' in k:
            r = self.promoted(st, fr, k, site)
            if r is not None:
                return r, ti
            return self.fresh(cr, ('prom', k['d'], k['pr'], ti), ti), ti
        if 'cp' in k:
            v = fr.subst.get(k['cp']) if fr.subst else None
            if v is not None and not isinstance(v, int):
                try:
                    return ('i', K(int(str(v).split('_')[0]))), ti
                except ValueError:
                    pass
            if t['k'] == 'int':
                return ('i', V(sym(('arrlen', k['cp']), 0, NPMAX))), ti
        if 'd' in k:
            f = cr.by_path.get(k['d'])
            if f and 'value' in f and ('v' in f['value'] or 'ds' in f['value']) and not f.get('intrait'):
                return self.const(st, fr, dict(f['value'], t=k['t']), site)
            # a constant is the same value wherever it is mentioned
            return self.fresh(cr, ('const', k['d'], tuple(map(str, k.get('da', ()))), self.subst_sig(fr)), ti), ti
        if t['k'] == 'adt' and self.is_enum_ty(cr, t):
            return self.fresh(cr, ('kz', ti), ti), ti
        return self.fresh(cr, ('kz', ti), ti), ti

    def const_ds(self, st, cr, d, key):
        """a constant given as a tree of variants, fields and scalars"""
        ti = d['t']
        t = cr.T[ti]
        if 'v' in d:
            if t['k'] in ('int', 'char'):
                return ('i', K(d['v']))
            if t['k'] == 'bool':
                return ('b', ('c', bool(d['v'])))
            return None
        if 'str' in d:
            return ('ref', ('cs', d['str']), (), False)
        if 'f' not in d:
            return None
        fs = [self.const_ds(st, cr, x, key + (j,)) for j, x in enumerate(d['f'])]
        if any(x is None for x in fs):
            return None
        if t['k'] == 'array':
            return ('seq', ('kd', str(d)), K(len(fs)), ('arr', tuple(fs)), 'fix')
        if t['k'] == 'tuple':
            return ('st', ti, ('kd', str(d)), tuple(enumerate(fs)))
        a = cr.adts.get(t.get('path'))
        if a is None:
            return None
        vi = d.get('vi', 0)
        names = [f['n'] for f in a['variants'][vi]['f']]
        if a['kind'] == 'enum':
            return self.new_enum(st, ti, ('kd', str(d)), vi, list(zip(names, fs)))
        return ('st', ti, ('kd', str(d)), tuple(sorted(zip(names, fs), key=lambda x: str(x[0]))))

    def subst_sig(self, fr):
        return tuple(sorted((k, str(v)) for k, v in fr.subst.items())) if fr.subst else ()

    def promoted(self, st, fr, k, site):
        """evaluate a promoted constant body (straight-line)"""
        f = fr.cr.by_path.get(k['d'])
        if f is None or 'promoted' not in f or k['pr'] >= len(f['promoted']):
            return None
        body = f['promoted'][k['pr']]
        key = ('p', fr.cr.bin, f['key'], k['pr'], self.subst_sig(fr))
        pf = Frame(dict(body, key=f['key'], path=f['path'], crate=fr.cr, ispromoted=True), fr.cr, key, fr.subst,
                   fr.depth + 1, fr.chain, None)
        if fr.depth > self.MAXDEPTH + 2:
            return None
        blk = 0
        for _ in range(50):
            b = body['blocks'][blk]
            for i, s in enumerate(b['s']):
                self.stmt(st, pf, s, (key, blk, i))
            t = b['t']
            if t['k'] == 'return':
                v = st.mem.get((key, 0))
                return v
            if t['k'] in ('goto', 'drop', 'assert'):
                blk = t['to'][0]
                continue
            return None
        return None

    def operand(self, st, fr, o, site):
        if 'c' in o:
            return self.read(st, fr, o['c'], site)
        if 'm' in o:
            return self.read(st, fr, o['m'], site)
        if 'k' in o:
            return self.const(st, fr, o['k'], site)
        return ('b', ('c', True)), None

    # ------------------------------------------------------------ conditions
    def decide(self, st, c):
        """True/False/None"""
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'ge':
            if st.F.entails(c[1]):
                return True
            if st.F.entails(c[1].neg().addc(-1)):
                return False
            return None
        if k == 'eq':
            if st.F.entails(c[1]) and st.F.entails(c[1].neg()):
                return True
            if st.F.entails(c[1].addc(-1)) or st.F.entails(c[1].neg().addc(-1)):
                return False
            return None
        if k == 'ne':
            r = self.decide(st, ('eq', c[1]))
            return None if r is None else not r
        if k == 'not':
            r = self.decide(st, c[1])
            return None if r is None else not r
        if k == 'and':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == 'isv':
            vs = st.vars.get(c[1])
            if vs is None:
                return None
            if vs <= frozenset(c[2]):
                return True
            if not (vs & frozenset(c[2])):
                return False
            return None
        return None

    def assume(self, st, c, want=True):
        """refine st in place; False if contradictory"""
        if not want:
            c = neg(c)
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'ge':
            return self.add_fact(st, c[1])
        if k == 'eq':
            return self.add_fact(st, c[1]) and self.add_fact(st, c[1].neg())
        if k == 'ne':
            l = c[1]
            if st.F.entails(l):
                return self.add_fact(st, l.addc(-1))
            if st.F.entails(l.neg()):
                return self.add_fact(st, l.neg().addc(-1))
            return True
        if k == 'and':
            return self.assume(st, c[1]) and self.assume(st, c[2])
        if k == 'or':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False and b is False:
                return False
            if a is False:
                return self.assume(st, c[2])
            if b is False:
                return self.assume(st, c[1])
            return True
        if k == 'isv':
            return self.refine(st, c[1], frozenset(c[2]))
        if k == 'not':
            i = c[1]
            if i[0] == 'isv':
                vs = st.vars.get(i[1])
                if vs is None:
                    al = i[3] if len(i) > 3 else None
                    if al is None:
                        return True
                    vs = frozenset(al)
                return self.refine(st, i[1], vs - frozenset(i[2]))
            return True
        return True

    def add_fact(self, st, l):
        l = norm(l)
        if l.isconst():
            return l.c >= 0
        if st.F.entails(l):
            return True
        if st.F.entails(l.neg().addc(-1)):
            return False
        st.F = st.F.with_([l])
        return True

    def refine(self, st, eid, allowed):
        cur = st.vars.get(eid)
        new = allowed if cur is None else (cur & allowed)
        if not new:
            return False
        if cur == new:
            return True
        st.vars[eid] = frozenset(new)
        if len(new) == 1:
            v = next(iter(new))
            for c in st.defer.get((eid, v), ()):
                if not self.assume(st, c):
                    return False
        return True

    # ------------------------------------------------------------- statements
    def new_enum(self, st, ti, eid, vi, fields):
        st.vars[eid] = frozenset((vi,))
        for k in [k for k in st.defer if k[0] == eid]:
            del st.defer[k]
        return ('en', ti, eid, eid, tuple(sorted((((vi, n), x) for n, x in fields), key=str)))

    def stmt(self, st, fr, s, site):
        k = s['k']
        if k == '=':
            v = self.rvalue(st, fr, s['rv'], site, s)
            root, proj, ti = self.place(st, fr, s['pl'], site)
            if v is None:
                v = self.fresh(fr.cr, (site, 'rv'), ti)
            self.store(st, fr, root, proj, v, site)
        elif k == 'setdiscr':
            root, proj, ti = self.place(st, fr, s['pl'], site)
            self.store(st, fr, root, proj, self.new_enum(st, ti, (site, 'sd'), s['vi'], ()), site)
        elif k == 'dead':
            st.mem.pop((fr.id, s['l']), None)
        elif k == 'assume':
            v, _ = self.operand(st, fr, s['o'], site)
            if v[0] == 'b':
                self.assume(st, v[1])

    def as_int(self, st, v, ti, cr, site):
        if v[0] == 'i':
            return v[1]
        if v[0] == 'b':
            d = self.decide(st, v[1])
            if d is not None:
                return K(1 if d else 0)
            return V(sym((site, 'b2i'), 0, 1))
        if v[0] == 'disc':
            return V(sym(('disc', v[1]), 0, (1 << 64) - 1))
        return None

    def rvalue(self, st, fr, r, site, s):
        k = r['k']
        cr = fr.cr
        if k == 'use':
            return self.operand(st, fr, r['o'], site)[0]
        if k in ('ref', 'rawptr'):
            root, proj, ti = self.place(st, fr, r['pl'], site)
            # a subslice is a place of its own
            if proj and proj[-1][0] == 'ss':
                v = self.load(st, cr, root, proj)
                key = (site, 'ssr')
                self.parents[key] = [(root, proj[:-1], 'el')]
                o = ('o', key, ti)
                st.mem[o] = ('seq', key, v[2], None)
                return ('ref', o, (), bool(r.get('mut', True)))
            if any(e[0] == 'x' for e in proj):
                # reference to an element: a fresh object whose parent is the collection
                i = next(j for j, e in enumerate(proj) if e[0] == 'x')
                v = self.load(st, cr, root, proj)
                key = (site, 'elr')
                self.parents[key] = [(root, proj[:i], 'el')]
                o = ('o', key, ti)
                self.elref[o] = (root, proj[:i], self.xidx.get(proj[i][1]))
                if v is not None:
                    st.mem[o] = v
                return ('ref', o, (), bool(r.get('mut', True)))
            return ('ref', root, proj, bool(r.get('mut', True)))
        if k == 'bin':
            return self.binop(st, fr, r, site)
        if k == 'un':
            v, ti = self.operand(st, fr, r['o'], site)
            if r['op'] == 'Not':
                if v[0] == 'b':
                    return ('b', neg(v[1]))
                if v[0] == 'i' and ti is not None and cr.T[ti]['k'] == 'int' and not cr.T[ti]['signed']:
                    return ('i', v[1].neg().addc(self.int_range(cr.T[ti])[1]))
                return None
            if r['op'] == 'Neg' and v[0] == 'i':
                return ('i', v[1].neg())
            if r['op'] == 'PtrMetadata':
                if v[0] == 'ref':
                    x = self.load(st, cr, v[1], v[2])
                    if x is not None and x[0] == 'seq':
                        return ('i', x[2])
                return None
            return None
        if k == 'cast':
            return self.cast(st, fr, r, site)
        if k == 'discr':
            v, ti = self.read(st, fr, r['pl'], site)
            if v[0] == 'en':
                return ('disc', v[2], v[1])
            if v[0] == 'op' and ti is not None:
                return ('disc', v[1], ti)
            return None
        if k == 'agg':
            return self.aggregate(st, fr, r, site)
        if k == 'repeat':
            v, _ = self.operand(st, fr, r['o'], site)
            if 'repeat' in self.hooks:
                x = self.hooks['repeat'](self, st, fr, v, r.get('n'), site)
                if x is not None:
                    return x
            if 'n' in r:
                return ('seq', (site, 'rep'), K(r['n']), v if v[0] in ('i', 'b') else None, 'fix')
            return None
        return None

    def aggregate(self, st, fr, r, site):
        cr = fr.cr
        ak = r['ak']
        vals = [self.operand(st, fr, o, site + (j,))[0] for j, o in enumerate(r['os'])]
        if ak == 'tuple':
            return ('st', self._dst_ty(st, fr, site), (site, 'tup'), tuple((j, v) for j, v in enumerate(vals)))
        if ak == 'array' and len(vals) == 1 and 'array' in self.hooks:
            self.hooks['array'](st, site, vals)
        if ak == 'array':
            if len(vals) <= 64:
                return ('seq', (site, 'arr'), K(len(vals)), ('arr', tuple(vals)), 'fix')
            return ('seq', (site, 'arr'), K(len(vals)), None, 'fix')
        if ak == 'closure':
            v = ('clo', r['key'], tuple(vals), fr.id)
            if r['key'] not in self.visited:
                self.created.setdefault(r['key'], {})[(fr.id, site)] = (st.copy(), fr, v)
            return v
        if ak == 'adt':
            p = r['path']
            ti = self._dst_ty(st, fr, site)
            a = cr.adts.get(p)
            self.emit('agg', (p, r['vn']), st, fr, dict(zip(r['fn'], vals)), site)
            if p in KNOWN_VARIANTS or (a and a['kind'] == 'enum'):
                return self.new_enum(st, ti, (site, 'agg'), r['vi'], list(zip(r['fn'], vals)))
            return ('st', ti, (site, 'agg'), tuple(sorted(zip(r['fn'], vals), key=lambda x: str(x[0]))))
        return None

    _cur_dst = None

    def _dst_ty(self, st, fr, site):
        return self._cur_dst

    def emit(self, kind, key, st, fr, data, site):
        h = self.hooks.get(kind)
        if h:
            h(self, key, st, fr, data, site)

    def cast(self, st, fr, r, site):
        cr = fr.cr
        v, vt = self.operand(st, fr, r['o'], site)
        ti = self.ty(fr, r['t'])
        t = cr.T[ti]
        ck = r['ck']
        if 'Unsiz' in ck or 'Pointer' in ck or 'PtrToPtr' in ck or 'Transmute' in ck or 'Subtype' in ck:
            if v[0] in ('ref', 'clo', 'fn') and 'ReifyFn' not in ck and 'Transmute' not in ck:
                return v
            if v[0] in ('fn', 'clo'):
                return v
            if 'Transmute' in ck and v[0] == 'ref':
                return v
            return None
        if t['k'] in ('int', 'char') and v[0] in ('i', 'b', 'disc'):
            lo, hi = self.int_range(t) if t['k'] == 'int' else (0, 0x10ffff)
            if v[0] == 'disc':
                vs = st.vars.get(v[1])
                al = self.all_variants(cr, v[2])
                a = cr.adts.get(cr.T[v[2]].get('path'))
                if a and al:
                    ds = [a['variants'][x]['d'] for x in (vs or al)]
                    if len(ds) == 1:
                        return ('i', K(ds[0]))
                    if max(ds) <= hi:
                        return ('i', V(sym(('dsc', v[1], min(ds), max(ds)), min(ds), max(ds))))
                return None
            l = self.as_int(st, v, vt, cr, site)
            if st.F.entails(l.addc(-lo)) and st.F.entails(l.neg().addc(hi)):
                self.note('cast', fr, site, True, cr.T[vt]['s'] if vt is not None else '?', t['s'])
                return ('i', l)
            if vt is not None and t['k'] == 'int' and cr.T[vt]['k'] == 'int':
                self.note('cast', fr, site, False, cr.T[vt]['s'], t['s'])
            if l.isconst():
                n = l.c & ((1 << t['bits']) - 1)
                if t['signed'] and n >> (t['bits'] - 1):
                    n -= 1 << t['bits']
                return ('i', K(n))
            return ('i', V(sym(('cast', l, ti), lo, hi, tuple(l.syms()))))
        return None

    def note(self, kind, fr, site, ok, *info):
        h = self.hooks.get('note_' + kind)
        if h:
            h(self, fr, site, ok, info)

    def binop(self, st, fr, r, site):
        cr = fr.cr
        op = r['op']
        a, at = self.operand(st, fr, r['a'], site)
        b, bt = self.operand(st, fr, r['b'], site)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            c = self.compare(st, cr, op, a, b, site)
            return ('b', c)
        if a[0] == 'b' and b[0] == 'b':
            if op == 'BitAnd':
                return ('b', cand(a[1], b[1]))
            if op == 'BitOr':
                return ('b', cor(a[1], b[1]))
            if op == 'BitXor':
                return ('b', ('isv', (site, 'xor'), (1,), (0, 1)))
            return None
        la = self.as_int(st, a, at, cr, site)
        lb = self.as_int(st, b, bt, cr, site)
        if la is None or lb is None:
            if op.endswith('WithOverflow'):
                return None
            return None
        t = cr.T[at] if at is not None else None
        if t is None or t['k'] != 'int':
            return None
        lo, hi = self.int_range(t)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        l = self.arith(st, base, la, lb, t, site)
        if op.endswith('WithOverflow'):
            if l is None:
                return ('st', self._cur_dst, (site, 'ov'), ())
            over = neg(cand(cge(l.addc(-lo)), cge(l.neg().addc(hi))))
            return ('st', self._cur_dst, (site, 'ov'), ((0, ('i', l)), (1, ('b', over))))
        if l is None:
            return None
        if base in ('Add', 'Sub', 'Mul') and 'Unchecked' not in op:
            if not (st.F.entails(l.addc(-lo)) and st.F.entails(l.neg().addc(hi))):
                return ('i', V(sym(('wrap', base, la, lb, at), lo, hi, tuple(la.syms() + lb.syms()))))
        return ('i', l)

    def arith(self, st, op, a, b, t, site):
        """exact mathematical result as a Lin (possibly a new derived symbol), or None"""
        lo, hi = self.int_range(t)
        dep = tuple(a.syms() + b.syms())
        if op == 'Add':
            return a.add(b)
        if op == 'Sub':
            return a.sub(b)
        if op == 'Mul':
            if a.isconst():
                return b.scale(a.c)
            if b.isconst():
                return a.scale(b.c)
            al, ah = st.F.lb(a), st.F.ub(a)
            bl, bh = st.F.lb(b), st.F.ub(b)
            ps = [x * y for x in (al, ah) for y in (bl, bh)]
            x, y = sorted((a, b), key=repr)
            s = sym(('mul', x, y), min(-INF, 0) if min(ps) < 0 else 0, INF, dep)
            n = V(s)
            self.add_fact(st, n.addc(-min(ps)))
            self.add_fact(st, n.neg().addc(max(ps)))
            # monotone in each factor when the other is known
            if al >= 0 and bl >= 1:
                self.add_fact(st, n.sub(a))
            if bl >= 0 and al >= 1:
                self.add_fact(st, n.sub(b))
            if al >= 0 and bl >= 0 and bh < INF // 2:
                self.add_fact(st, a.scale(bh).sub(n))
            if al >= 0 and bl >= 0 and ah < INF // 2:
                self.add_fact(st, b.scale(ah).sub(n))
            return n
        if op in ('Div', 'Rem'):
            if a.isconst() and b.isconst() and b.c > 0 and a.c >= 0:
                return K(a.c // b.c if op == 'Div' else a.c % b.c)
            if not st.F.entails(a) or not st.F.entails(b.addc(-1)):
                return V(sym(('d', op, a, b, t['s']), lo, hi, dep))
            if self.split and b.isconst():
                # multiples of the divisor are taken out
                w = a.c - a.c % b.c
                if w and st.F.entails(a.addc(-w)):
                    r = self.arith(st, op, a.addc(-w), b, t, site)
                    return r.addc(w // b.c) if op == 'Div' else r
            if self.split and b.isconst():
                q = V(sym(('div', a, b), 0, min(hi, max(a.hi(), 0) // b.c), dep))
                m = a.sub(q.scale(b.c))
                self.add_fact(st, m)
                self.add_fact(st, m.neg().addc(b.c - 1))
                # how it is related to other quotients of nearly the same number
                for x in {x for f in st.F.s for x, _ in f.t}:
                    k = SYM[x][0]
                    if isinstance(k, tuple) and k[0] == 'div' and len(k) == 3 and k[2] == b and k[1] != a:
                        d = a.sub(k[1])
                        if d.isconst() and abs(d.c) < b.c:
                            r = k[1].sub(V(x).scale(b.c))
                            l, u = max(st.F.lb(r), 0), min(st.F.ub(r), b.c - 1)
                            self.add_fact(st, q.sub(V(x)).addc(-((l + d.c) // b.c)))
                            self.add_fact(st, V(x).sub(q).addc((u + d.c) // b.c))
                return q if op == 'Div' else m
            if op == 'Div':
                q = V(sym(('div', a, b), 0, min(hi, max(a.hi(), 0) // b.c) if b.isconst() else hi, dep))
                if b.isconst():
                    d = a.sub(q.scale(b.c))
                    self.add_fact(st, d)
                    self.add_fact(st, d.neg().addc(b.c - 1))
                else:
                    self.add_fact(st, a.sub(q))
                return q
            m = V(sym(('rem', a, b), 0, hi, dep))
            self.add_fact(st, a.sub(m))
            self.add_fact(st, b.sub(m).addc(-1))
            return m
        if op in ('Shl', 'Shr', 'BitAnd') and not t['signed']:
            r = bitwise(op, a, b, t['bits'])
            if r is not None:
                return r
        if op in ('Shl', 'Shr'):
            if b.isconst() and 0 <= b.c < t['bits']:
                if op == 'Shr':
                    if t['signed'] and not st.F.entails(a):
                        return V(sym(('shr', a, b, t['s']), lo, hi, dep))
                    return self.arith(st, 'Div', a, K(1 << b.c), t, site)
                l = a.scale(1 << b.c)
                if st.F.entails(l.neg().addc(hi)) and st.F.entails(l.addc(-lo)):
                    return l
                return V(sym(('shl', a, b, t['s']), lo, hi, dep))
            if op == 'Shr' and st.F.entails(a):
                s = V(sym(('shr', a, b, t['s']), 0, hi, dep))
                self.add_fact(st, a.sub(s))
                return s
            if op == 'Shl' and a == K(1) and not t['signed']:
                return V(sym(('pow2', b, t['s']), 1, 1 << (t['bits'] - 1), dep))
            return V(sym((op, a, b, t['s']), lo, hi, dep))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.isconst() and b.isconst():
                return K({'BitAnd': a.c & b.c, 'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c}[op])
            x, y = sorted((a, b), key=repr)
            if op == 'BitAnd':
                if st.F.entails(a) or st.F.entails(b):
                    # low-bit masks are remainders
                    for p, m in ((a, b), (b, a)):
                        if m.isconst() and m.c >= 0 and (m.c & (m.c + 1)) == 0 and st.F.entails(p):
                            return self.arith(st, 'Rem', p, K(m.c + 1), t, site)
                        lw = hi - m.c if m.isconst() else -1       # so are masks of the high bits
                        if self.split and lw >= 0 and (lw & (lw + 1)) == 0 and st.F.entails(p):
                            return p.sub(self.arith(st, 'Rem', p, K(lw + 1), t, site))
                    s = V(sym(('and', x, y), 0, hi, dep))
                    for p in (a, b):
                        if st.F.entails(p):
                            self.add_fact(st, p.sub(s))
                    return s
                return V(sym(('and', x, y), lo, hi, dep))
            if self.split and op == 'BitOr':
                for p, q in ((a, b), (b, a)):
                    if q == K(1) and p.even() and st.F.entails(p):
                        return p.addc(1)
            if st.F.entails(a) and st.F.entails(b):
                ub = max(st.F.ub(a), st.F.ub(b))
                m = 1
                while m <= ub:
                    m *= 2
                s = V(sym((op, x, y), 0, hi, dep))
                self.add_fact(st, s.neg().addc(min(hi, m - 1)))
                if op == 'BitOr':
                    self.add_fact(st, s.sub(a))
                    self.add_fact(st, s.sub(b))
                    self.add_fact(st, a.add(b).sub(s))
                return s
            return V(sym((op, x, y), lo, hi, dep))
        return None

    def compare(self, st, cr, op, a, b, site):
        if a[0] == 'disc' or b[0] == 'disc':
            if b[0] != 'disc':
                a, b = b, a
                swapped = True
            if op in ('Eq', 'Ne'):
                c = None
                if a[0] == 'i' and a[1].isconst() and b[0] == 'disc':
                    vi = self.discr_to_variant(cr, b[2], a[1].c)
                    al = self.all_variants(cr, b[2])
                    c = ('isv', b[1], (vi,)) + ((al,) if al else ())
                elif a[0] == 'disc' and b[0] == 'disc':
                    if a[1] == b[1]:
                        c = ('c', True)
                    else:
                        va, vb = st.vars.get(a[1]), st.vars.get(b[1])
                        al = self.all_variants(cr, b[2]) or self.all_variants(cr, a[2])
                        if vb is not None and len(vb) == 1:
                            c = ('isv', a[1], tuple(vb)) + ((al,) if al else ())
                        elif va is not None and len(va) == 1:
                            c = ('isv', b[1], tuple(va)) + ((al,) if al else ())
                        elif va is not None and vb is not None and not (va & vb):
                            c = ('c', False)
                if c is not None:
                    return c if op == 'Eq' else neg(c)
            return ('isv', (site, 'cmp'), (1,), (0, 1))
        if a[0] == 'b' and b[0] == 'b':
            if op in ('Eq', 'Ne'):
                for x, y in ((a[1], b[1]), (b[1], a[1])):
                    d = self.decide(st, y)
                    if d is not None:
                        c = x if d else neg(x)
                        return c if op == 'Eq' else neg(c)
            return ('isv', (site, 'cmp'), (1,), (0, 1))
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            return {'Eq': lambda: ceq(x.sub(y)), 'Ne': lambda: neg(ceq(x.sub(y))),
                    'Lt': lambda: cge(y.sub(x).addc(-1)), 'Le': lambda: cge(y.sub(x)),
                    'Gt': lambda: cge(x.sub(y).addc(-1)), 'Ge': lambda: cge(x.sub(y))}[op]()
        if a == b and op in ('Eq', 'Le', 'Ge') and a[0] in ('op', 'st', 'en'):
            return ('isv', (site, 'cmp'), (1,), (0, 1))
        return ('isv', (site, 'cmp'), (1,), (0, 1))

    # -------------------------------------------------------------------- join
    def join(self, states, point, head=None, allow_new=True, entry_roots=None):
        """n-ary join; `head` = previous in-state of a loop head (already one of `states`)"""
        if len(states) == 1 and head is None:
            return states[0]
        J = Joiner(self, states, point, head, allow_new, entry_roots)
        return J.run()

    # ---------------------------------------------------------------- functions
    def fninfo(self, fn):
        r = self._fninfo.get(id(fn))
        if r is None:
            blocks = fn['blocks']
            succ = []
            for b in blocks:
                t = b['t']
                if t['k'] == 'switch':
                    s = [x[1] for x in t['vals']]
                    if t['else'] is not None:
                        s.append(t['else'])
                    succ.append(list(dict.fromkeys(s)))
                elif b.get('cl'):
                    succ.append([])
                else:
                    succ.append(list(t.get('to') or []))
            order, seen = [], set()
            stack = [(0, iter(succ[0]))]
            seen.add(0)
            onst = {0}
            heads = set()
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m in onst:
                        heads.add(m)
                    if m not in seen:
                        seen.add(m)
                        onst.add(m)
                        stack.append((m, iter(succ[m])))
                        break
                else:
                    stack.pop()
                    onst.discard(n)
                    order.append(n)
            order.reverse()
            pos = {b: i for i, b in enumerate(order)}
            preds = {b: [] for b in order}
            for b in order:
                for m in succ[b]:
                    preds[m].append(b)
            r = (succ, order, pos, preds, heads)
            self._fninfo[id(fn)] = r
        return r

    def ctx(self, key):
        i = self.ctxids.get(key)
        if i is None:
            i = len(self.ctxids) + 1
            self.ctxids[key] = i
        return i

    def run_fn(self, fn, fid, st, subst, depth, chain, cs):
        """analyse fn from state st (arguments already stored at (fid, 1..)); -> exit state or None"""
        fr = Frame(fn, fn['crate'], fid, subst, depth, chain, cs)
        self.frames[fid] = fr
        self.visited.add(fn['key'])
        exits = self.fix(fr, st)
        if not exits:
            return None
        return self.join(exits, (fid, 'ret')) if len(exits) > 1 else exits[0]

    def fix(self, fr, st):
        """the fixpoint over the body: the states it returns with"""
        fn = fr.fn
        succ, order, pos, preds, heads = self.fninfo(fn)
        edge = {}
        headst = {}
        headn = {}
        npass = 0
        while True:
            npass += 1
            changed = False
            exits = []
            for b in order:
                if b == 0:
                    ins = [st.copy()]
                else:
                    ins = []
                fw = list(ins)
                for p in preds[b]:
                    e = edge.get((p, b))
                    if e is not None:
                        ins.append(e)
                        if pos[p] < pos[b]:
                            fw.append(e)
                if not ins:
                    continue
                if b in heads:
                    old = headst.get(b)
                    n = headn.get(b, 0)
                    if old is None:
                        cur = self.join(fw, (fr.id, b)) if len(fw) > 1 else fw[0]
                        headst[b] = cur
                        headn[b] = 1
                        changed = True
                        self._entry_roots = None
                    else:
                        roots = None
                        for e in fw:
                            roots = set(e.mem) if roots is None else roots & set(e.mem)
                        cur = self.join([old] + ins, (fr.id, b), head=old, allow_new=n <= 3, entry_roots=roots)
                        if not cur.same(old):
                            changed = True
                            headst[b] = cur
                            headn[b] = n + 1
                        else:
                            cur = old
                else:
                    cur = self.join(ins, (fr.id, b)) if len(ins) > 1 else ins[0]
                for (p, q) in [k for k in edge if k[0] == b]:
                    del edge[(p, q)]
                outs = self.block(fr, b, cur.copy())
                if outs is None:
                    continue
                for (tgt, s) in outs:
                    if tgt == 'ret':
                        exits.append(s)
                    else:
                        k = (b, tgt)
                        if k in edge:
                            edge[k] = self.join([edge[k], s], (fr.id, b, tgt))
                        else:
                            edge[k] = s
            if not heads or not changed:
                break
            if npass > self.MAXPASS:
                self.notes.setdefault('nonterm', set()).add(fn['path'])
                raise Unsupported('no fixpoint in ' + fn['path'])
        if 'loop' in self.hooks:
            for b in heads:
                back = [(p, edge[(p, b)]) for p in preds[b] if (p, b) in edge and pos[p] >= pos[b]]
                if b in headst:
                    self.emit('loop', fn['key'], headst[b], fr, back, b)
        return exits

    def loop_of(self, fn, b):
        """the blocks of the loop that is entered at b"""
        succ, order, pos, preds, heads = self.fninfo(fn)
        k = (id(fn), b)
        r = self._loops.get(k)
        if r is None:
            r = {b}
            todo = [p for p in preds[b] if pos[p] >= pos[b]]
            while todo:
                x = todo.pop()
                if x not in r:
                    r.add(x)
                    todo += preds[x]
            if any(p not in r for x in r if x != b for p in preds[x]):
                raise Unsupported('loop with two entries in ' + fn['path'])
            self._loops[k] = r
        return r

    def block(self, fr, b, st):
        blk = fr.fn['blocks'][b]
        i = -1
        for i, s in enumerate(blk['s']):
            if s['k'] == '=':
                pl = s['pl']
                self._cur_dst = self.place_ty(fr, pl)
            self.stmt(st, fr, s, (fr.id, b, i))
        t = blk['t']
        k = t['k']
        site = (fr.id, b, 't')
        if k == 'goto' or k == 'drop':
            if k == 'drop':
                pass
            return [(t['to'][0], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume', 'abort'):
            return []
        if k == 'switch':
            return self.switch(fr, st, t, site)
        if k == 'assert':
            return self.do_assert(fr, st, t, site)
        if k == 'call':
            return self.call(fr, st, t, site)
        if t.get('to'):
            raise Unsupported('terminator ' + k)
        return []

    def place_ty(self, fr, pl):
        ti = self.ty(fr, fr.fn['locals'][pl['l']]['t'])
        for e in pl.get('p', ()):
            t = fr.cr.T[ti] if ti is not None else None
            if e == '*':
                if t and t['k'] in ('ref', 'ptr'):
                    ti = t['t']
                elif t and t['k'] == 'adt' and t['args']:
                    ti = t['args'][0]
            elif isinstance(e, dict) and 'f' in e:
                ti = self.ty(fr, e['t'])
            elif isinstance(e, dict) and ('i' in e or 'ci' in e):
                ti = t.get('t') if t else None
        return ti

    def switch(self, fr, st, t, site):
        v, ti = self.operand(st, fr, t['o'], site)
        outs = []
        vals = t['vals']
        els = t['else']
        if v[0] == 'b':
            conds = []
            for val, tgt in vals:
                conds.append((v[1] if val else neg(v[1]), tgt))
            if els is not None and len(vals) == 1:
                conds.append((neg(conds[0][0]), els))
        elif v[0] == 'disc':
            al = self.all_variants(fr.cr, v[2])
            conds = []
            seen = []
            for val, tgt in vals:
                vi = self.discr_to_variant(fr.cr, v[2], val)
                if vi is None:
                    continue
                seen.append(vi)
                conds.append((('isv', v[1], (vi,)) + ((al,) if al else ()), tgt))
            if els is not None:
                if al is not None:
                    rest = tuple(x for x in al if x not in seen)
                    conds.append((('isv', v[1], rest, al) if rest else ('c', False), els))
                else:
                    conds.append((('c', True), els))
        elif v[0] == 'i':
            conds = [(ceq(v[1].addc(-self.sval(fr, ti, val))), tgt) for val, tgt in vals]
            if els is not None:
                c = ('c', True)
                for cc, _ in conds:
                    c = cand(c, neg(cc))
                conds.append((c, els))
        else:
            conds = [(('c', True), tgt) for _, tgt in vals]
            if els is not None:
                conds.append((('c', True), els))
        for c, tgt in conds:
            s = st.copy()
            if self.assume(s, c):
                outs.append((tgt, s))
        return outs

    def sval(self, fr, ti, val):
        if ti is not None:
            t = fr.cr.T[ti]
            if t['k'] == 'int' and t['signed'] and val >> (t['bits'] - 1):
                return val - (1 << t['bits'])
        return val

    # ------------------------------------------------------------- obligations
    def oblige(self, fr, site, kind, what, t, ok, why=''):
        key = (site, kind, what)
        fn = fr.fn
        self.ob[key] = Oblig(fn=fn['path'], kind=kind, what=what, ln=t.get('ln'), ok=ok, why=why,
                             chain=fr.chain, x=t.get('x'), file=self.file_of(fn), entry=self.cur_entry)

    cur_entry = None

    def file_of(self, fn):
        return fn.get('file', '?')

    def do_assert(self, fr, st, t, site):
        v, _ = self.operand(st, fr, t['o'], site)
        m = t['msg']
        kind = m[0]
        c = v[1] if v[0] == 'b' else ('isv', (site, 'as'), (1,), (0, 1))
        want = c if t['exp'] else neg(c)
        r = self.decide(st, want)
        what = kind + (':' + m[1] if kind == 'overflow' else '')
        if kind in ('ptr', 'enum'):
            r = True
        self.oblige(fr, site, 'assert', what, t, r is True, '')
        if r is False:
            return []
        s = st
        if not self.assume(s, want):
            return []
        return [(t['to'][0], s)]

    # -------------------------------------------------------------------- calls
    def call(self, fr, st, t, site):
        fo = t['f']
        cr = fr.cr
        args = [self.operand(st, fr, a, site + (j,)) for j, a in enumerate(t['args'])]
        dst = t['dst']
        dty = self.place_ty(fr, dst)
        callee = None
        if 'k' in fo:
            ft = cr.T[fo['k']['t']]
            if ft['k'] == 'fndef':
                callee = self.resolve(fr, ft['callee'])
        target = t['to'][0] if t['to'] else None
        if callee is None:
            # call through a value
            fv = self.operand(st, fr, fo, site)[0]
            outs = self.invoke(fr, st, fv, [a for a, _ in args], site, dty, t)
        else:
            outs = self.dispatch(fr, st, callee, args, site, dty, t)
        if target is None:
            return []
        res = []
        for i, (s, v) in enumerate(outs):
            if v is None:
                v = self.fresh(cr, (site, 'res'), dty)
            if callee is not None:
                self.emit('result', callee.get('rp', callee['p']), s, fr, (callee, args, v), site)
            root, proj, _ = self.place(s, fr, dst, site)
            self.store(s, fr, root, proj, v, site)
            res.append(s)
        if not res:
            return []
        if len(res) == 1:
            return [(target, res[0])]
        if self.split:
            return [(target, s) for s in res]
        return [(target, self.join(res, (site, 'call')))]

    def resolve(self, fr, c):
        """callee with the frame's substitution applied; trait calls resolved where possible"""
        if not fr.subst:
            return c
        cr = fr.cr
        key = ('res', cr.bin, id(c), self.subst_sig(fr))
        r = self._subst.get(key)
        if r is not None:
            return r
        n = dict(c)
        sb = lambda a: [self.subst_ty(cr, x, fr.subst) if isinstance(x, int) else fr.subst.get(x, x) for x in a]
        n['args'] = sb(c.get('args', []))
        if 'rargs' in c:
            n['rargs'] = sb(c['rargs'])
        if 'rp' not in c and c.get('tr') and n['args'] and isinstance(n['args'][0], int):
            self_t = cr.T[n['args'][0]]
            f = self.find_impl(cr, c['tr'], self_t, c['name'], n['args'][1:])
            if f is not None:
                n['rp'] = f['path']
                n['rlocal'] = True
                n['rfn'] = f
                n['rargs'] = self_t.get('args', [])
        self._subst[key] = n
        return n

    def find_impl(self, cr, tr, self_t, name, targs):
        ix = getattr(cr, '_implix', None)
        if ix is None:
            ix = cr._implix = {}
            for f in cr.fns:
                if f.get('trait') and f.get('kind') == 'fn':
                    ix.setdefault((f['trait'], cr.T[f['self']]['s'], f['name']), []).append(f)
                    stt = cr.T[f['self']]
                    if stt['k'] == 'adt':
                        ix.setdefault((f['trait'], ('adt', stt['path']), f['name']), []).append(f)
        c = ix.get((tr, self_t['s'], name)) or (ix.get((tr, ('adt', self_t.get('path')), name))
                                                if self_t['k'] == 'adt' else None)
        if c and len(c) == 1:
            return c[0]
        if c:
            for f in c:
                if [cr.T[x]['s'] if isinstance(x, int) else x for x in f.get('trargs', [])[1:]] == \
                        [cr.T[x]['s'] if isinstance(x, int) else x for x in targs]:
                    return f
        return None

    def overridden(self, cr, callee):
        ix = getattr(cr, '_overix', None)
        if ix is None:
            ix = cr._overix = {(f['trait'], f['name']) for f in cr.fns if f.get('trait') and f.get('kind') == 'fn'}
        return (callee['tr'], callee['name']) in ix

    def local_fn(self, fr, callee):
        if 'rfn' in callee:
            return callee['rfn']
        if callee.get('rlocal', callee.get('local')):
            if 'rp' not in callee and callee.get('tr') and self.overridden(fr.cr, callee):
                return None         # a default method of a trait, which an implementation may replace
            k = callee.get('rk') if 'rp' in callee else callee.get('pk')
            f = fr.cr.by_key.get(k)
            return f
        return None

    def dispatch(self, fr, st, callee, args, site, dty, t):
        name = callee.get('rp', callee['p'])
        cr = fr.cr
        self.emit('call', name, st, fr, (callee, args, t), site)
        if self.intercept is not None:
            r = self.intercept(fr, st, name, callee, args, site, dty, t)
            if r is not None:
                return r
        for m in self.models_for(name, callee['p']):
            r = m(self.mm.Call(self, fr, st, callee, args, site, dty, t))
            if r is not None:
                return r
        f = self.local_fn(fr, callee)
        if f is not None and 'blocks' in f and not (f['kind'] == 'closure' and callee.get('tr') in self.FNTRAITS):
            sub = self.make_subst(fr, callee, f)
            r = self.try_inline(fr, st, f, [a for a, _ in args], site, sub, t)
            if r is not None:
                return r
        elif callee.get('tr') in self.FNTRAITS:
            fv = args[0][0]
            tup = args[1][0]
            n = len(cr.T[args[1][1]]['ts']) if args[1][1] is not None and cr.T[args[1][1]]['k'] == 'tuple' else 0
            avs = [self.field(cr, tup, j, cr.T[args[1][1]]['ts'][j]) for j in range(n)]
            return self.invoke(fr, st, fv, avs, site, dty, t)
        if t is not None and not t['to'] and t.get('k') == 'call':
            # diverges
            pan = 'panic' in name or callee.get('tc') or callee.get('rtc') or 'unwrap_failed' in name
            if name == 'std::process::exit':
                return []
            self.oblige(fr, site, 'diverge', name.split('::<')[0], t, False, 'reachable diverging call')
            return []
        tc = callee.get('rtc') or callee.get('tc')
        if tc and f is None and not self.mm.tc_ok(name):
            self.oblige(fr, site, 'call', self.short(name), t, False, 'may panic')
        elif self.mm.may_panic(name) and f is None:
            self.oblige(fr, site, 'call', self.short(name), t, False, 'may panic')
        if f is not None and 'blocks' in f:
            self.uninlined.add(f['key'])
        return self.unknown_call(fr, st, args, site, dty, name)

    FNTRAITS = ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce')

    def models_for(self, name, p):
        r = self._mfor.get((name, p))
        if r is None:
            m = self.models.get(name) or self.models.get(p)
            r = ([m] if m else []) + [f for sfx, f in self.models_sfx if name.endswith(sfx)]
            self._mfor[(name, p)] = r
        return r

    def short(self, n):
        return n

    def make_subst(self, fr, callee, f):
        """param name -> type index of the callee's generics"""
        g = f.get('generics')
        a = callee.get('rargs') if 'rfn' not in callee else None
        if a is None:
            a = callee.get('rargs') or callee.get('args', [])
        if not g:
            return {}
        if len(g) != len(a):
            a = a[-len(g):] if len(a) > len(g) else a
        sub = {}
        for n, x in zip(g, a):
            if isinstance(x, int):
                if not (fr.cr.T[x]['k'] == 'param' and fr.cr.T[x].get('name') == n):
                    sub[n] = x
            else:
                if str(x) != n:
                    sub[n] = x
        return sub

    def try_inline(self, fr, st, f, vals, site, sub, t):
        k = (f['key'])
        if fr.depth >= self.MAXDEPTH or len(f['blocks']) > self.MAXBLOCKS:
            self.blocked.add(k)
            return None
        n = sum(1 for c in fr.chain if c[0] == k)
        if n > self.unroll.get(k, 0):
            self.blocked.add(k)
            return None
        if self.noinline(f) and not self.unroll.get(k) and not self.dispatched(f, st, vals):
            return None
        fid = self.ctx((site, f['key']))
        s = st
        for j, v in enumerate(vals):
            s.mem[(fid, j + 1)] = v
        if self.budget and len(self.ob) > self.budget:
            return None
        chain = fr.chain + ((f['key'], fr.fn['path'], t.get('ln') if t else None),)
        if self.split and (self.split_loops or not self.fninfo(f)[4]):
            rs = self.split_fn(f, fid, s, sub, fr.depth + 1, chain, site)
        else:
            r = self.run_fn(f, fid, s, sub, fr.depth + 1, chain, site)
            rs = [] if r is None else [r]
        res = []
        for r in rs:
            v = r.mem.get((fid, 0))
            if v is None:
                v = ('st', None, (fid, 'unit'), ())
            for k in [k for k in r.mem if k[0] == fid]:
                del r.mem[k]
            res.append((r, v))
        return res

    intercept = None    # f(frame, state, name, callee, args, site, dty, t) -> outcomes or None
    split = False       # keep the paths through inlined loop-free bodies apart (failing ones are joined)

    split_loops = False  # with split: also through bodies with loops (their rounds are joined)
    keep_errs = False   # with split: keep the failing paths apart as well

    def split_fn(self, f, fid, st, subst, depth, chain, cs):
        fr = Frame(f, f['crate'], fid, subst, depth, chain, cs)
        self.frames[fid] = fr
        self.visited.add(f['key'])
        sts = self.walk(fr, st)
        if self.keep_errs:
            return sts
        res, errs = [], []
        for s in sts:
            (errs if self.fails(fr.cr, s, s.mem.get((fid, 0))) else res).append(s)
        if errs:
            trs = [s.mem.get(('wire', 0)) for s in errs]
            j = self.join(errs, (fid, 'err')) if len(errs) > 1 else errs[0]
            if len(errs) > 1 and all(t is not None for t in trs):
                p = trs[0][1]
                for t in trs[1:]:
                    n = 0
                    while n < min(len(p), len(t[1])) and p[n] == t[1][n]:
                        n += 1
                    p = p[:n]
                j.mem[('wire', 0)] = ('tr', p + (('lost',),))
            res.append(j)
        return res

    def fails(self, cr, st, v):
        """the value is known to be an Err / a Break / None"""
        if v is None or v[0] != 'en' or v[1] is None:
            return False
        p = cr.T[v[1]].get('path')
        bad = {'core::result::Result': 1, 'core::ops::control_flow::ControlFlow': 1}.get(p)
        return bad is not None and st.vars.get(v[2]) == frozenset((bad,))

    def walk(self, fr, st, limit=4000):
        """the states the body returns with, one per path; the rounds of loops are joined"""
        return [s for t, s in self.ways(fr, [(0, st)], None, limit) if t == 'ret']

    def ways(self, fr, todo, region, limit):
        """[(block or 'ret', state)] in which the region is left; region: (head, blocks) of a loop, which may be left to
        its own head as well, or None for the whole body"""
        res, n = [], 0
        heads = self.fninfo(fr.fn)[4]
        todo = [(b, s, True) for b, s in todo]
        while todo:
            b, s, first = todo.pop()
            n += 1
            if n > limit * 20 or len(res) > limit:
                raise Unsupported('too many paths in ' + fr.fn['path'])
            if b in heads and not (region and b == region[0] and first):
                outs = self.rounds(fr, s, b, limit)
            else:
                outs = self.block(fr, b, s.copy()) or ()
            for tgt, s2 in outs:
                if tgt == 'ret' or region and (tgt == region[0] or tgt not in region[1]):
                    res.append((tgt, s2))
                else:
                    todo.append((tgt, s2, False))
        return res

    def rounds(self, fr, st, b, limit):
        """the ways out of the loop that is entered at b"""
        region = self.loop_of(fr.fn, b)
        head, n = st, 1
        while True:
            outs = self.ways(fr, [(b, head)], (b, region), limit)
            back = [s for t, s in outs if t == b]
            if not back:
                return outs
            cur = self.join([head, st] + back, (fr.id, b), head=head, allow_new=n <= 3, entry_roots=set(st.mem))
            if cur.same(head):
                return [(t, s) for t, s in outs if t != b]
            head = cur
            n += 1
            if n > self.MAXPASS:
                self.notes.setdefault('nonterm', set()).add(fr.fn['path'])
                raise Unsupported('no fixpoint in ' + fr.fn['path'])

    NOINLINE_TRAITS = ('binrw::binread::BinRead', 'binrw::binwrite::BinWrite', 'core::fmt::Debug',
                       'core::fmt::Display', 'serde_core::ser::Serialize', 'serde_core::de::Deserialize')

    def dispatched(self, f, st, vals):
        """a reader whose arguments select (by a known variant) what is read"""
        if f.get('trait') != 'binrw::binread::BinRead' or len(vals) < 3:
            return False
        a = vals[2]
        xs = [x for _, x in a[3]] if a is not None and a[0] == 'st' else [a]
        return any(x is not None and x[0] == 'en' and len(st.vars.get(x[3], ())) == 1 for x in xs)

    def noinline(self, f):
        return f.get('trait') in self.NOINLINE_TRAITS or f['key'] in self.opts.get('noinline', ())

    def unknown_call(self, fr, st, args, site, dty, name):
        muts = []
        for v, _ in args:
            muts += self.mut_refs(st, fr.cr, v)
        clos = []
        for v, _ in args:
            self.collect_clos(st, fr, v, clos)
        old = {}
        if self.mono_io(name):
            for (r, p) in muts:
                for k in self.iops(st, r, p):
                    old[k] = st.mem[k]
        for i, c in enumerate(clos):
            self.closure_anytime(fr, st, c, (site, 'clo', i))
        # streams that only the closures can touch are where the closures leave them
        direct = []
        for v, _ in args:
            if not self.has_clo(st, fr, v):
                direct += self.mut_refs(st, fr.cr, v)
        keep = {}
        for (r, p) in muts:
            if (r, p) not in direct:
                for k in self.iops(st, r, p):
                    keep[k] = st.mem[k]
        for i, (r, p) in enumerate(dict.fromkeys(muts)):
            self.havoc(st, fr, r, p, (site, 'h', i))
        st.mem.update(keep)
        self.iop_later(st, old, site)
        v = self.fresh(fr.cr, (site, 'res'), dty) if dty is not None else ('op', (site, 'res'), None)
        if muts:
            self.parents[(site, 'res')] = list(dict.fromkeys(muts))
        return [(st, v)]

    def has_clo(self, st, fr, v):
        o = []
        self.collect_clos(st, fr, v, o)
        return bool(o)

    def collect_clos(self, st, fr, v, out, d=0):
        if d > 3:
            return
        if v[0] == 'clo':
            out.append(v)
        elif v[0] == 'st':
            for _, x in v[3]:
                self.collect_clos(st, fr, x, out, d + 1)
        elif v[0] == 'en':
            for _, x in v[4]:
                self.collect_clos(st, fr, x, out, d + 1)
        elif v[0] == 'ref':
            x = self.load(st, fr.cr, v[1], v[2])
            if x is not None and x[0] in ('clo', 'it'):
                self.collect_clos(st, fr, x, out, d + 1)

    def closure_anytime(self, fr, st, clo, site, argvals=None):
        """the closure may be run any number of times: check its body once under havoc'd captures"""
        muts = self.mut_refs(st, fr.cr, clo)
        old = {}
        for (r, p) in muts:
            for k in self.iops(st, r, p):
                old[k] = st.mem[k]
        for i, (r, p) in enumerate(muts):
            self.havoc(st, fr, r, p, (site, 'c', i))
        f = fr.cr.by_key.get(clo[1])
        if f is None or 'blocks' not in f:
            return
        n = f['argc'] - 1
        for j in range(n):
            if self.uninhabited(fr.cr, f['locals'][j + 2]['t']):
                self.visited.add(f['key'])
                return
        args = argvals
        if args is None:
            args = []
            for j in range(n):
                ti = f['locals'][j + 2]['t']
                args.append(self.fresh(fr.cr, (site, 'arg', j), ti))
        if not old:
            self.invoke(fr, st.copy(), clo, args, site, None, None, raw=argvals is None)
            return
        # candidate: the closure never moves the captured streams backwards
        saved = dict(self.ob)
        self.iop_later(st, old, (site, 'cand'))
        outs = self.invoke(fr, st.copy(), clo, args, site, None, None, raw=argvals is None)
        bad = [k for k, v in old.items()
               if not all(k in s.mem and s.F.entails(s.mem[k][1].sub(v[1])) for s, _ in outs)]
        if bad:
            for k in bad:
                st.mem.pop(k, None)
            self.ob.clear()
            self.ob.update(saved)
            self.invoke(fr, st.copy(), clo, args, (site, 'nc'), None, None, raw=argvals is None)

    def run_created(self):
        """closures that were built but that no model ran (kept, returned, or given to unknown code): run them in every
        state in which they were built, with everything they can change unknown"""
        n = 0
        while True:
            ks = [k for k in self.created if k not in self.visited]
            if not ks:
                return n
            k = ks[0]
            for site, (st, fr, v) in list(self.created[k].items()):
                st = st.copy()
                st.mem[(site, 'created')] = v
                self.closure_anytime(fr, st, v, (site, 'created'))
                n += 1
            self.visited.add(k)

    def uninhabited(self, cr, ti):
        t = cr.T[ti]
        if t['k'] == 'never' or t['s'] == '!' or t.get('path') == 'core::convert::Infallible':
            return True
        a = cr.adts.get(t.get('path')) if t['k'] == 'adt' else None
        return a is not None and a['kind'] == 'enum' and not a['variants']

    def invoke(self, fr, st, fv, vals, site, dty, t, raw=False):
        """call a function value"""
        cr = fr.cr
        if fv is not None and fv[0] == 'ref':
            x = self.load(st, cr, fv[1], fv[2])
            if x is not None and x[0] in ('clo', 'fn', 'ref'):
                if x[0] == 'clo':
                    return self.run_clo(fr, st, x, fv, vals, site, dty, t, raw)
                return self.invoke(fr, st, x, vals, site, dty, t, raw)
        if fv is not None and fv[0] == 'clo':
            return self.run_clo(fr, st, fv, None, vals, site, dty, t, raw)
        if fv is not None and fv[0] == 'fn':
            c = self.resolve(fr, cr.T[fv[1]]['callee'])
            tys = self.fn_in(fr, c, len(vals), fv[1])
            if dty is None:
                dty = self.fn_out(fr, fv[1])
            nm = c['p']
            if c.get('tr') is None and c.get('name') is None:
                # tuple-struct / variant constructor
                r = self.ctor(fr, st, nm, vals, site, dty)
                if r is not None:
                    return [(st, r)]
            return self.dispatch(fr, st, c, [(v, tys[j]) for j, v in enumerate(vals)], site,
                                 dty, t or {'ln': None, 'to': [0], 'k': 'call'})
        return self.unknown_call(fr, st, [(v, None) for v in vals if v is not None] +
                                 ([(fv, None)] if fv is not None else []), site,
                                 dty, '<indirect>')

    def fn_out(self, fr, ti):
        o = fr.cr.T[ti].get('out') if ti is not None else None
        return self.ty(fr, o) if o is not None and fr.cr.T[o]['k'] != 'alias' else None

    def fn_in(self, fr, c, n, ti=None):
        ins = fr.cr.T[ti].get('in') if ti is not None else None
        if ins is not None and len(ins) == n and all(fr.cr.T[i]['k'] not in ('alias', 'param') for i in ins):
            return [self.ty(fr, i) for i in ins]
        f = self.local_fn(fr, c)
        if f is not None and f.get('in') and len(f['in']) == n:
            return f['in']
        # trait methods on known Self: the argument types are not recorded; use Self for slot 0
        a = c.get('args') or []
        r = [None] * n
        if n and a and isinstance(a[0], int):
            r[0] = a[0]
            if c.get('name') in ('add', 'sub', 'mul', 'max', 'min', 'saturating_add'):
                r = [a[0]] * n
        nm = c.get('rp', c['p'])
        import re
        m = re.search(r'<impl (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)>', nm)
        if m:
            ti = self.find_ty(fr.cr, m.group(1))
            r = [ti] * n
        return r

    def ctor(self, fr, st, path, vals, site, dty):
        cr = fr.cr
        # path of a variant ctor: Enum::Variant or Enum::Variant::{constructor}
        p = path.replace('::{constructor#0}', '').replace('::{ctor}', '')
        if p.endswith('Option::Some') or p.endswith('Option::<T>::Some'):
            return self.new_enum(st, dty, (site, 'ct'), 1, [('0', vals[0])]) if dty is not None else None
        if p.endswith('Result::Ok') or p.endswith('Result::Err'):
            return self.new_enum(st, dty, (site, 'ct'), 0 if p.endswith('Ok') else 1, [('0', vals[0])]) \
                if dty is not None else None
        par, _, nm = p.rpartition('::')
        a = cr.adts.get(p)
        if a and a['kind'] == 'struct' and a.get('t') is not None:
            fs = a['variants'][0]['f']
            self.emit('agg', (p, a['variants'][0]['n']), st, fr,
                      {f['n']: v for f, v in zip(fs, vals)}, site)
            return ('st', dty if dty is not None else a['t'], (site, 'ct'),
                    tuple((f['n'], v) for f, v in zip(fs, vals)))
        a = cr.adts.get(par)
        if a and a['kind'] == 'enum':
            for i, v in enumerate(a['variants']):
                if v['n'] == nm:
                    ti = dty if dty is not None else a.get('t')
                    if ti is None:
                        return None
                    return self.new_enum(st, ti, (site, 'ct'), i, [(f['n'], x) for f, x in zip(v['f'], vals)])
        return None

    def run_clo(self, fr, st, clo, ref, vals, site, dty, t, raw):
        f = fr.cr.by_key.get(clo[1])
        if f is None or 'blocks' not in f:
            return self.unknown_call(fr, st, [(clo, None)] + [(v, None) for v in vals if v is not None], site, dty, clo[1])
        k = f['key']
        if fr.depth >= self.MAXDEPTH + 3 or sum(1 for c in fr.chain if c[0] == k) > self.unroll.get(k, 0):
            self.blocked.add(k)
            return self.unknown_call(fr, st, [(('ref', r, p, True), None) for r, p in self.mut_refs(st, fr.cr, clo)] +
                                     [(v, None) for v in vals if v is not None], site, dty, clo[1])
        fid = self.ctx((site, k))
        envt = fr.cr.T[f['locals'][1]['t']]
        if envt['k'] == 'ref':
            if ref is not None:
                env = ref
            else:
                tmp = (fid, 'env')
                st.mem[tmp] = clo
                env = ('ref', tmp, (), envt['mut'])
        else:
            env = clo
        st.mem[(fid, 1)] = env
        n = f['argc'] - 1
        av = list(vals)
        if raw and len(av) == n:
            pass
        elif len(av) != n:
            av = []
            for j in range(n):
                av.append(self.fresh(fr.cr, (site, 'arg', j), f['locals'][j + 2]['t']))
        for j, v in enumerate(av):
            if v is None:
                v = self.fresh(fr.cr, (site, 'arg', j), f['locals'][j + 2]['t'])
            st.mem[(fid, j + 2)] = v
        # closures share the generics of their parent frame
        chain = fr.chain + ((k, fr.fn['path'], t.get('ln') if t else None),)
        if self.split and (self.split_loops or not self.fninfo(f)[4]):
            rs = self.split_fn(f, fid, st, fr.subst, fr.depth + 1, chain, site)
        else:
            r = self.run_fn(f, fid, st, fr.subst, fr.depth + 1, chain, site)
            rs = [] if r is None else [r]
        res = []
        for r in rs:
            v = r.mem.get((fid, 0))
            if v is None:
                v = ('st', None, (fid, 'unit'), ())
            for k in [k for k in r.mem if k[0] == fid]:
                del r.mem[k]
            res.append((r, v))
        return res

    # ------------------------------------------------------------------- entry
    def paths(self, fn, init=None, label=None, limit=4000):
        """the exit states of a body, one per feasible path (the rounds of loops, and callees, are joined)"""
        st, fr = self.entry(fn, init, label)
        self.visited.add(fn['key'])
        return self.walk(fr, st, limit), fr

    def analyse(self, fn, init=None, label=None):
        """analyse a function for every possible argument"""
        st, fr = self.entry(fn, init, label)
        return self.run_fn(fn, fr.id, st, {}, 0, fr.chain, None), fr

    def entry(self, fn, init=None, label=None):
        cr = fn['crate']
        fid = self.ctx(('entry', cr.bin, fn['key'], label))
        st = State()
        fr = Frame(fn, cr, fid, {}, 0, ((fn['key'], None, None),), None)
        self.cur_entry = fn
        for j in range(fn['argc']):
            ti = fn['locals'][j + 1]['t']
            v = None
            if init is not None:
                v = init(self, st, fr, j, ti)
            if v is None:
                v = self.fresh(cr, ('arg', fid, j), ti)
            st.mem[(fid, j + 1)] = v
        return st, fr


class Joiner:
    def __init__(self, E, states, point, head, allow_new, entry_roots):
        self.E = E
        self.S = states
        self.n = len(states)
        self.point = point
        self.head = head
        self.allow_new = allow_new
        self.entry_roots = entry_roots
        self.phis = {}     # sym -> [Lin per state]
        self.phie = {}     # new eid -> [ (eid or None, vars) per state ]
        self.extra = set()  # relations that are worth keeping
        self.cr = E.cr

    def is_my(self, s):
        k = SYM[s][0]
        return isinstance(k, tuple) and len(k) > 2 and k[0] == 'phi' and k[1] == self.point

    def my_eid(self, e):
        return isinstance(e, tuple) and len(e) > 2 and e[0] == 'phie' and e[1] == self.point

    def mentions_my(self, v):
        if self.head is None:
            return False
        for s in val_syms(v, set()):
            if self.is_my(s) or any(self.is_my(d) for d in SYM[s][3]):
                return True
        return False

    def run(self):
        E, S = self.E, self.S
        roots = None
        for s in S:
            r = {k for k in s.mem if k[0] != 'o'}
            roots = r if roots is None else roots & r
        for s in S:
            for k in s.mem:
                if k[0] == 'o':
                    roots.add(k)
        if self.head is not None and self.entry_roots is not None:
            roots = {r for r in roots if r in self.head.mem or r in self.entry_roots}
            roots = {r for r in roots if r[0] != 'o' or r in self.head.mem or r in self.entry_roots}
        out = State()
        for r in sorted(roots, key=repr):
            vs = []
            for s in S:
                v = s.mem.get(r)
                if v is None:
                    v = E.obj_default(self.cr, r)
                vs.append(v)
            if any(v is None for v in vs):
                continue
            j = self.val(vs, (r,), self.root_ty(r))
            if j is not None:
                out.mem[r] = j
        self.facts(out)
        self.enums(out)
        return out

    def root_ty(self, r):
        if r[0] == 'o':
            return r[2]
        f = self.E.frames.get(r[0])
        if f is None or not isinstance(r[1], int):
            return None
        return self.E.ty(f, f.fn['locals'][r[1]]['t'])

    def fty(self, ti, vi, n):
        if ti is None:
            return None
        return self.E.field_ty(self.cr, self.cr.T[ti], vi, n)

    def val(self, vs, path, ti=None):
        a = vs[0]
        if all(v == a for v in vs[1:]) and (self.head is None or not self.mentions_my(a)):
            return a
        ks = {v[0] for v in vs}
        k = a[0]
        E = self.E
        if len(ks) == 1:
            if k == 'i':
                return self.int([v[1] for v in vs], path, ti)
            if k == 'b':
                return self.bool([v[1] for v in vs], path)
            if k == 'st':
                tys = {v[1] for v in vs}
                if len(tys) == 1 or True:
                    fs = []
                    for v in vs:
                        for f, _ in v[3]:
                            if f not in fs:
                                fs.append(f)
                    bases = [v[2] for v in vs]
                    base = bases[0] if all(b == bases[0] for b in bases) else ('phi', self.point, path)
                    r = []
                    sti = a[1]
                    for f in sorted(fs, key=str):
                        xs = []
                        for v in vs:
                            fty = E.field_ty(self.cr, self.cr.T[v[1]], None, f) if v[1] is not None else None
                            xs.append(E.field(self.cr, v, f, fty))
                        if any(x is None for x in xs):
                            continue
                        j = self.val(xs, path + (f,), self.fty(sti if sti is not None else ti, None, f))
                        if j is not None:
                            r.append((f, j))
                    if len(tys) > 1:
                        sti = next((t for t in (v[1] for v in vs) if t is not None), None)
                    d = dict(r)
                    for x, y in (('start', 'end'), ('#b', '#e')):
                        if x in d and y in d and d[x][0] == 'i' and d[y][0] == 'i':
                            self.extra.add(d[y][1].sub(d[x][1]))
                    return ('st', sti, base, tuple(r))
            if k == 'en':
                return self.enum(vs, path, ti)
            if k == 'ref':
                mut = any(v[3] for v in vs)
                if mut:
                    E.parents[('phi', self.point, path)] = list(dict.fromkeys((v[1], v[2]) for v in vs))
                r0 = next((v[1] for v in vs if v[1][0] == 'o'), None)
                pt = r0[2] if r0 else None
                if pt is None:
                    pt = self.pointee(vs)
                if pt is None:
                    return None
                return ('ref', ('o', ('phi', self.point, path), pt), (), mut)
            if k == 'seq':
                ln = self.int([v[2] for v in vs], path + ('len',), 'len')
                el = None
                if all(v[3] is not None for v in vs) and all(v[3] == a[3] for v in vs) and not self.mentions_my(a):
                    el = a[3]
                elif all(v[3] is not None and v[3][0] == 'i' for v in vs):
                    el = self.val([v[3] for v in vs], path + ('el',))
                fix = a[4:] if all(x[4:] == a[4:] for x in vs) else ()
                if isinstance(a[1], tuple) and a[1][0] in ('xb', 'xl') and all(v[1] == a[1] for v in vs):    # a buffer that is followed
                    return ('seq', a[1], ln[1], el) + fix
                if E.opts.get('seqphi') is not None:
                    E.opts['seqphi'].setdefault(('phi', self.point, path), set()).update(v[1] for v in vs)
                return ('seq', ('phi', self.point, path), ln[1], el) + fix
            if k == 'op':
                ti = next((v[2] for v in vs if v[2] is not None), None)
                return ('op', ('phi', self.point, path), ti)
            if k == 'tr':           # what has happened on all of them, then something
                p, n = a[1], 0
                for v in vs[1:]:
                    n = 0
                    while n < min(len(p), len(v[1])) and p[n] == v[1][n]:
                        n += 1
                    p = p[:n]
                return ('tr', p if p and p[-1] == ('lost',) else p + (('lost',),))
            return None
        if ks <= {'op', 'st', 'en', 'i', 'seq', 'b', 'ref', 'it', 'clo', 'fn'}:
            ti = None
            for v in vs:
                ti = E.type_of_val(self.cr, v)
                if ti is not None:
                    break
            if ti is not None:
                return E.fresh(self.cr, ('phi', self.point, path), ti)
            return ('op', ('phi', self.point, path), None)
        return None

    def pointee(self, vs):
        for v in vs:
            for s in self.S:
                x = self.E.load(s, self.cr, v[1], v[2])
                if x is not None:
                    t = self.E.type_of_val(self.cr, x)
                    if t is not None:
                        return t
                    if x[0] == 'seq':
                        if v[1][0] == 'cs':
                            return self.E.find_ty(self.cr, 'str')
        return None

    def int(self, ls, path, ti=None):
        a = ls[0]
        if all(l == a for l in ls[1:]) and not any(self.is_my(s) for s in a.syms()):
            return ('i', a)
        # the symbol itself only carries a machine-type range (bounds are facts, so they can be widened)
        tlo, thi = -INF, INF
        if ti == 'len':
            tlo, thi = 0, LENMAX
        elif ti is not None:
            t = self.cr.T[ti]
            if t['k'] == 'int':
                tlo, thi = self.E.int_range(t)
            elif t['k'] == 'char':
                tlo, thi = 0, 0x10ffff
            elif t['k'] == 'adt' and t['path'] == 'core::num::nonzero::NonZero':
                tlo, thi = self.E.int_range(self.cr.T[t['args'][0]]) if self.cr.T[t['args'][0]]['k'] == 'int' else (-INF, INF)
        if self.head is None and all(l.isconst() for l in ls):
            tlo, thi = max(tlo, min(l.c for l in ls)), min(thi, max(l.c for l in ls))
        p = sym(('phi', self.point, path, tlo, thi), tlo, thi)
        self.phis[p] = ls
        return ('i', V(p))

    def bool(self, cs, path):
        if all(c == cs[0] for c in cs[1:]) and not (self.head is not None and self.mentions_my(('b', cs[0]))) \
                and cs[0][0] != 'isv':
            return ('b', cs[0])
        if all(c == cs[0] for c in cs[1:]) and cs[0][0] == 'isv' and not self.my_eid(cs[0][1]):
            return ('b', cs[0])
        e = ('phie', self.point, path)
        info = []
        for s, c in zip(self.S, cs):
            d = self.E.decide(s, c)
            if d is None:
                info.append((frozenset((0, 1)), {1: [c], 0: [neg(c)]}))
            else:
                info.append((frozenset((1 if d else 0,)), {}))
        self.phie[e] = info
        return ('b', ('isv', e, (1,), (0, 1)))

    def enum(self, vs, path, ti0=None):
        E = self.E
        a = vs[0]
        ti = ti0 if ti0 is not None and self.cr.T[ti0]['k'] == 'adt' else next((v[1] for v in vs if v[1] is not None), None)
        if ti is None:
            return None
        al = E.all_variants(self.cr, ti) if ti is not None else None
        same = all(v[2] == a[2] for v in vs) and not self.my_eid(a[2])
        e = a[2] if same else ('phie', self.point, path)
        info = []
        for s, v in zip(self.S, vs):
            x = s.vars.get(v[2])
            if x is None and al is not None:
                x = frozenset(al)
            info.append(x)
        keys = []
        for v in vs:
            for kk, _ in v[4]:
                if kk not in keys:
                    keys.append(kk)
        # a lazily-based variant may be live in some state: include fields known from the type
        pay = []
        bases = [v[3] for v in vs]
        base = bases[0] if all(b == bases[0] for b in bases) else ('phi', self.point, path)
        for kk in sorted(keys, key=str):
            vi, f = kk
            xs = []
            idx = []
            for i, v in enumerate(vs):
                if info[i] is not None and vi not in info[i]:
                    continue
                fty = E.field_ty(self.cr, self.cr.T[v[1]], vi, f) if v[1] is not None else None
                xs.append(E.payload(self.cr, v, vi, f, fty))
                idx.append(i)
            if not xs or any(x is None for x in xs):
                continue
            if len(xs) == 1:
                if not self.mentions_my(xs[0]):
                    pay.append((kk, xs[0]))
                    continue
                full = [xs[0]] * self.n
                sub = self.sub(idx)
                j = sub.val(xs, path + kk, self.fty(ti, vi, f))
                self.merge_sub(sub, idx)
            elif len(xs) == self.n:
                j = self.val(xs, path + kk, self.fty(ti, vi, f))
            else:
                sub = self.sub(idx)
                j = sub.val(xs, path + kk, self.fty(ti, vi, f))
                self.merge_sub(sub, idx)
            if j is not None:
                pay.append((kk, j))
        if not same:
            self.phie[e] = [(info[i] if info[i] is not None else None,
                             {'same': vs[i][2]}) for i in range(self.n)]
        return ('en', ti, e, base, tuple(pay))

    def sub(self, idx):
        j = Joiner(self.E, [self.S[i] for i in idx], self.point, self.head, self.allow_new, self.entry_roots)
        return j

    def merge_sub(self, sub, idx):
        for p, ls in sub.phis.items():
            full = [None] * self.n
            for k, i in enumerate(idx):
                full[i] = ls[k]
            self.phis[p] = full
        for e, info in sub.phie.items():
            full = [(frozenset(), {})] * self.n
            for k, i in enumerate(idx):
                full[i] = info[k]
            self.phie[e] = full

    # ---- facts
    def subst(self, l, i):
        """candidate over phi symbols -> its meaning in state i (None: not expressible; True: vacuous)"""
        r = Lin(l.c)
        for s, c in l.t:
            if s in self.phis:
                x = self.phis[s][i]
                if x is None:
                    return True      # the phi is only meaningful in other states
                r = r.add(x, c)
            elif self.is_my(s) or any(self.is_my(d) for d in SYM[s][3]):
                return None
            else:
                r = r.add(V(s), c)
        return r

    def holds(self, cand):
        for i, s in enumerate(self.S):
            x = self.subst(cand, i)
            if x is None:
                return False
            if x is True:
                continue
            if not s.F.entails(x):
                return False
        return True

    def facts(self, out):
        cands = set(self.extra) if self.head is None or self.allow_new else set()
        phis = self.phis
        live = set()
        for v in out.mem.values():
            val_syms(v, live)
        # 1. facts of each state, rewritten over the phis
        src = range(self.n)
        if self.head is not None and not self.allow_new:
            src = [0]
        for i in src:
            s = self.S[i]
            back = {}
            for p, ls in phis.items():
                l = ls[i]
                if l is not None and len(l.t) == 1 and l.t[0][1] in (1, -1):
                    back.setdefault(l.t[0][0], []).append((p, l))
            for f in s.F.s:
                # identity: keep as is when it mentions no rewritten symbol of this join
                cands.add(f)
                for v, c in f.t:
                    for p, l in back.get(v, ()):
                        # l = k*v + d  => v = k*(p - d)
                        k, d = l.t[0][1], l.c
                        g = f.add(V(v), -c).add(V(p).addc(-d), c * k)
                        cands.add(norm(g))
                        for v2, c2 in g.t:
                            if v2 != p:
                                for p2, l2 in back.get(v2, ()):
                                    k2, d2 = l2.t[0][1], l2.c
                                    cands.add(norm(g.add(V(v2), -c2).add(V(p2).addc(-d2), c2 * k2)))
        # 2. bounds and pairwise relations of the phis
        if self.allow_new or self.head is None:
            others = set()
            for p, ls in phis.items():
                los = []
                his = []
                for i, s in enumerate(self.S):
                    if ls[i] is None:
                        continue
                    los.append(s.F.lb(ls[i], 1))
                    his.append(s.F.ub(ls[i], 1))
                lo, hi = min(los), max(his)
                if lo > -INF:
                    cands.add(V(p).addc(-lo))
                    if lo > 0:
                        cands.add(V(p))
                        cands.add(V(p).addc(-1))
                    elif lo >= -(1 << 63):
                        pass
                if hi < INF:
                    cands.add(V(p).neg().addc(hi))
                    for m in ((1 << 8) - 1, (1 << 16) - 1, (1 << 32) - 1, LENMAX, ISIZE, USIZE):
                        if hi <= m:
                            cands.add(V(p).neg().addc(m))
                if lo >= 0:
                    cands.add(V(p))
                # relations against what it was equal to / other symbols seen next to it
                rel = set()
                for i, l in enumerate(ls):
                    if l is None:
                        continue
                    for v in l.syms():
                        rel.add(v)
                        for sg in (True, False):
                            for f in self.S[i].F.ix().get((v, sg), ())[:80 if Facts.EQ else 12]:
                                rel.update(f.syms())
                rel = [v for v in rel if not self.is_my(v) or v in phis][:60 if Facts.EQ else 24]
                for v in rel:
                    if v != p:
                        cands.add(V(p).sub(V(v)))
                        cands.add(V(v).sub(V(p)))
                if Facts.EQ and self.head is not None:
                    # what a round adds to be known, seen as a relation to a counter that was a number so far
                    for i, l in enumerate(ls):
                        if l is not None and l.isconst():
                            for f in self.S[i].F.s - self.head.F.s:
                                if len(f.t) <= 2:
                                    cands.add(f.add(l).sub(V(p)))
                                    cands.add(f.sub(l).add(V(p)))
                for i, l in enumerate(ls):
                    if l is not None and l.t:
                        cands.add(V(p).sub(l))
                        cands.add(l.sub(V(p)))
            pl = list(phis)
            if len(pl) <= (24 if Facts.EQ else 14):
                for x in range(len(pl)):
                    for y in range(x + 1, len(pl)):
                        p, q = pl[x], pl[y]
                        cands.add(V(p).sub(V(q)))
                        cands.add(V(q).sub(V(p)))
                        # sum / difference invariants (e.g. consumed + remaining)
                        for i, s in enumerate(self.S):
                            a, b = phis[p][i], phis[q][i]
                            if a is None or b is None:
                                continue
                            sm = a.add(b)
                            if len(sm.t) <= (3 if Facts.EQ else 1):
                                cands.add(V(p).add(V(q)).sub(sm))
                                cands.add(sm.sub(V(p)).sub(V(q)))
                            df = a.sub(b)
                            if len(df.t) <= (2 if Facts.EQ else 1):
                                cands.add(V(p).sub(V(q)).sub(df))
                                cands.add(df.sub(V(p)).add(V(q)))
        good = []
        for c in cands:
            if c.isconst() or len(c.t) > 5:
                continue
            if self.holds(c):
                good.append(c)
        # keep facts small: drop what type ranges already say
        good = [g for g in good if g.lo() < 0]
        if self.head is None and len(good) > 160:
            keep = [g for g in good if all(v in live or v in phis for v in g.syms())]
            if len(keep) > 20:
                good = keep[:400]
        out.F = Facts(frozenset(good))

    # ---- enum facts
    def enums(self, out):
        E, S = self.E, self.S
        n = self.n
        # variants of enum ids common to all states
        common = set(S[0].vars)
        for s in S[1:]:
            common &= set(s.vars)
        if self.head is not None:
            common = {e for e in common if not self.my_eid(e) and (e in self.head.vars)}
        for e in common:
            u = frozenset().union(*(s.vars[e] for s in S))
            out.vars[e] = u
        groups = {}
        for e, info in self.phie.items():
            if any(x[0] is None for x in info):
                u = None
            else:
                u = frozenset().union(*(x[0] for x in info))
                if u:
                    out.vars[e] = u
            if u is not None and len(u) > 0:
                groups[e] = [x[0] for x in info]
        for e in common:
            vs = [s.vars[e] for s in S]
            if any(v != vs[0] for v in vs):
                groups.setdefault(e, vs)
        # keep old deferred facts
        keys = set()
        for s in S:
            keys |= set(s.defer)
        for k in keys:
            e, v = k
            if self.my_eid(e):
                continue
            if self.head is not None and k not in self.head.defer:
                continue
            lists = []
            ok = True
            for s in S:
                vs = s.vars.get(e)
                if vs is not None and v not in vs:
                    continue
                if k in s.defer:
                    lists.append(s.defer[k])
                elif vs is not None and vs == frozenset((v,)):
                    lists.append(None)
                else:
                    ok = False
                    break
            if not ok or not lists:
                continue
            base = next((l for l in lists if l is not None), None)
            if base is None:
                continue
            r = []
            for c in base:
                if self.stale(c):
                    continue
                good = True
                for s, in zip(S):
                    vs = s.vars.get(e)
                    if vs is not None and v not in vs:
                        continue
                    if k in s.defer and c in s.defer[k]:
                        continue
                    if E.decide(s, c) is True:
                        continue
                    good = False
                    break
                if good:
                    r.append(c)
            if r:
                out.defer[k] = tuple(r)
        # new deferred facts: what distinguishes the states in which a variant is possible
        if len(groups) > 40:
            groups = dict(list(groups.items())[:40])
        for e, vs in groups.items():
            allv = frozenset().union(*vs)
            for v in allv:
                idx = [i for i in range(n) if v in vs[i]]
                if not idx:
                    continue
                if len(idx) == n and e not in self.phie:
                    continue
                conds = []
                if len(idx) < n:
                    if len(idx) == 1:
                        i = idx[0]
                        fs = [f for f in S[i].F.s if f not in out.F.s][:60]
                        for f in fs:
                            c = ('ge', f)
                            if not self.stale(c):
                                conds.append(c)
                        for p, ls in self.phis.items():
                            l = ls[i]
                            if l is not None and not self.stale(('eq', l)):
                                conds.append(('eq', V(p).sub(l)))
                            elif l is not None:
                                lo, hi = S[i].F.lb(l, 1), S[i].F.ub(l, 1)
                                if lo > -INF:
                                    conds.append(('ge', V(p).addc(-lo)))
                                if hi < INF:
                                    conds.append(('ge', V(p).neg().addc(hi)))
                    else:
                        fs = set(S[idx[0]].F.s)
                        for i in idx[1:]:
                            o = S[i]
                            fs = {f for f in fs if f in o.F.s or o.F.entails(f, 2)}
                        for f in list(fs)[:60]:
                            if f not in out.F.s:
                                c = ('ge', f)
                                if not self.stale(c):
                                    conds.append(c)
                        # bounds of phis within the group
                        for p, ls in self.phis.items():
                            if all(ls[i] is not None for i in idx):
                                if all(ls[i] == ls[idx[0]] for i in idx) and not self.stale(('eq', ls[idx[0]])):
                                    conds.append(('eq', V(p).sub(ls[idx[0]])))
                                    continue
                                lo = min(S[i].F.lb(ls[i], 1) for i in idx)
                                hi = max(S[i].F.ub(ls[i], 1) for i in idx)
                                if lo > -INF:
                                    conds.append(('ge', V(p).addc(-lo)))
                                if hi < INF:
                                    conds.append(('ge', V(p).neg().addc(hi)))
                    # variant information about other enums
                    oth = set(self.phie) | common
                    for e2 in oth:
                        if e2 == e:
                            continue
                        if e2 in self.phie:
                            w = [self.phie[e2][i][0] for i in idx]
                            full = [x[0] for x in self.phie[e2]]
                        else:
                            w = [S[i].vars[e2] for i in idx]
                            full = [s.vars[e2] for s in S]
                        if any(x is None for x in w) or any(x is None for x in full):
                            continue
                        u = frozenset().union(*w)
                        fu = frozenset().union(*full)
                        if u and u < fu:
                            conds.append(('isv', e2, tuple(sorted(u)), tuple(sorted(fu))))
                    # enum ids known only in these states
                    if len(idx) == 1:
                        i = idx[0]
                        for e2, x in S[i].vars.items():
                            if e2 not in out.vars and len(x) == 1 and not self.my_eid(e2) and self.relevant(e2, out):
                                conds.append(('isv', e2, tuple(x)))
                # what the contributing value itself says about its variant
                if e in self.phie:
                    extra = None
                    for i in idx:
                        inf = self.phie[e][i][1]
                        cs = []
                        if 'same' in inf:
                            e0 = inf['same']
                            cs = list(S[i].defer.get((e0, v), ()))
                            if vs[i] != frozenset((v,)) and not self.my_eid(e0):
                                cs.append(('isv', e0, (v,)))
                        else:
                            cs = list(inf.get(v, ()))
                        cs = [c for c in cs if not self.stale(c)]
                        extra = cs if extra is None else [c for c in extra if c in cs]
                        # a condition of one contributor may simply hold in the others
                        if extra is None:
                            extra = []
                    if len(idx) > 1:
                        # conditions deferred in one contributor and plainly true in the others
                        pool = []
                        for i in idx:
                            inf = self.phie[e][i][1]
                            if 'same' in inf:
                                pool += [c for c in S[i].defer.get((inf['same'], v), ())]
                            else:
                                pool += list(inf.get(v, ()))
                            pool += []
                        for c in dict.fromkeys(pool):
                            if self.stale(c) or c in extra:
                                continue
                            good = True
                            for i in idx:
                                inf = self.phie[e][i][1]
                                own = S[i].defer.get((inf['same'], v), ()) if 'same' in inf else inf.get(v, ())
                                if c in own or E.decide(S[i], c) is True:
                                    continue
                                s2 = S[i].copy()
                                alive = all(E.assume(s2, x) for x in own)
                                if alive and E.decide(s2, c) is not True:
                                    good = False
                                    break
                            if good:
                                extra.append(c)
                    conds += extra or []
                if conds:
                    k = (e, v)
                    old = out.defer.get(k, ())
                    seen = dict.fromkeys(list(old) + conds)
                    out.defer[k] = tuple(seen)
        # at loop heads nothing may grow after the first rounds
        if self.head is not None and not self.allow_new:
            for k in list(out.defer):
                if k[0] in self.phie or True:
                    h = self.head.defer.get(k)
                    if h is None:
                        del out.defer[k]
                    else:
                        r = tuple(c for c in out.defer[k] if c in h)
                        if r:
                            out.defer[k] = r
                        else:
                            del out.defer[k]

    def relevant(self, e, out):
        return True

    def stale(self, c):
        """mentions a symbol/enum that this join redefines"""
        if self.head is None:
            # non-loop joins: a phi of this very point can only come from the caller's earlier pass
            pass
        for s in cond_syms(c, set()):
            if self.is_my(s) or any(self.is_my(d) for d in SYM[s][3]):
                return True
        for e in cond_eids(c, set()):
            if self.my_eid(e):
                return True
        return False
