"""Setting files state their true size and checksum.  For each setting type the reader and the writer of a setting file are
walked path by path: the only data length that is accepted, and the one that is written, is the number of bytes that the
items of the payload take; data of another type is never accepted; and the checksum that is written is the CRC-16/XMODEM of
the bytes of this very file, written with no checksum yet: of the data section, or, for DJMMYSETTING.DAT, of everything
before the checksum.  Only the inner pass that computes the checksum writes none.  File names decide the type by its name."""
import re
import engine
import terms
import wire
from dom import K, V, sym, SYM

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR of reader, writer and checksum; sizes from wire signatures'
NOTE = 'All four setting types, all paths, all contents. The CRC itself is taken from the crc16 crate.'
ASSUMPTIONS = ['crc16::State::<XMODEM>::calculate computes CRC-16/XMODEM of the slice it is given',
               'padded strings take the 32 bytes that they are padded to (C11, C12)']
HEAD = 4 + 3 * 0x20 + 4          # length of the strings, three padded strings, length of the data
CURSOR = re.compile(r'io::(cursor::)?Cursor::<.*>::(new|into_inner|get_ref)$')
PRIM = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, '()': 0}


def size(ctx, t, seen=()):
    """how many bytes a type takes in a file, if that is fixed"""
    if t in PRIM:
        return PRIM[t]
    m = re.match(r'\[(.*); (\d+)\]$', t)
    if m:
        n = size(ctx, m.group(1), seen)
        return None if n is None else n * int(m.group(2))
    f = ctx.lib.by_path.get('<%s as binrw::binread::BinRead>::read_options' % t)
    if f is None or t in seen:
        return None
    w = wire.Wire(ctx.crates)
    ns = set()
    for st, _ in w.reader(f)[0]:
        tot = 0
        for it in w.items(st) or [('lost',)]:
            n = size(ctx, it[1], seen + (t,)) if it[0] == 'val' else None
            if n is None:
                return None
            tot += n
        ns.add(tot)
    return ns.pop() if len(ns) == 1 else None


def run(ctx):
    L = ctx.lib
    stype, sdata = ctx.adt('setting::SettingType'), ctx.adt('setting::SettingData')
    names = [v['n'] for v in stype['variants']]
    dnames = [v['n'] for v in sdata['variants']]
    ctx.floor('setting types', len(names), 4)
    bytes_ = {}
    for v in sdata['variants']:
        p = L.T[v['f'][0]['t']]['path']
        n = size(ctx, p)
        if ctx.ob(n is not None, 'size:' + p, 'src/setting.rs', 'the size of %s is not fixed' % p, '%s takes %s bytes' % (p, n)):
            bytes_[v['n']] = n
    reading(ctx, L, names, dnames, bytes_)
    writing(ctx, L, names, dnames, bytes_)
    naming(ctx, L, names)


def reading(ctx, L, names, dnames, bytes_):
    f = ctx.fn('<setting::Setting as binrw::binread::BinRead>::read_options')
    for vi, n in enumerate(names):
        w = wire.Wire(ctx.crates)
        E = w.E
        # the payload is read as its own type only
        w.deep = {'setting::SettingData'}

        def arg(st, ti):
            t = L.T[ti]
            return ('st', ti, ('ia',), ((0, E.new_enum(st, t['ts'][0], ('stt', vi), vi, [])),))
        outs, _ = w.reader(f, {2: arg})
        ctx.ob(outs, 'accepts:' + n, ctx.where(f), 'no file of type %s is accepted' % n)
        for st, v in outs:
            its = [i for i in w.items(st) or [] if i[0] == 'val']
            d = E.field(L, v, 'data', None) if v is not None else None
            vs = st.vars.get(d[2]) if d is not None and d[0] == 'en' else None
            ok = vs is not None and len(vs) == 1
            dn = dnames[next(iter(vs))] if ok else None
            ctx.ob(dn == n, 'type:' + n, ctx.where(f), 'a file of type %s is accepted with data of type %s' % (n, dn))
            i = [k for k, x in enumerate(its) if ok and x[1] == L.ts(payload_ty(L, dn))]
            if not ctx.ob(len(i) == 1 and i[0] > 0, 'data:' + n, ctx.where(f), 'the data of a %s file is not read once' % n):
                continue
            ln = its[i[0] - 1]
            want = bytes_.get(n)
            if want is None:
                continue
            x = ln[2]
            ok = ln[1] == 'u32' and x is not None and x[0] == 'i' and st.F.entails(x[1].addc(-want)) and \
                st.F.entails(K(want).sub(x[1]))
            ctx.ob(ok, 'accepted:' + n, ctx.where(f), 'a %s file is accepted although its length is not the %s bytes of its data'
                   % (n, want), '%s: length %s required' % (n, want))


def payload_ty(L, dn):
    a = L.adts['setting::SettingData']
    return [v for v in a['variants'] if v['n'] == dn][0]['f'][0]['t']


def writing(ctx, L, names, dnames, bytes_):
    g = ctx.fn('<setting::Setting as binrw::binwrite::BinWrite>::write_options')
    sa = ctx.adt('setting::Setting')
    fs = {x['n']: x['t'] for x in sa['variants'][0]['f']}
    sti = [i for i, t in enumerate(L.T) if t.get('path') == 'setting::Setting' and t['k'] == 'adt'][0]
    for di, dn in enumerate(dnames):
        if dn not in bytes_:
            continue
        total = HEAD + bytes_[dn] + 4
        for quiet in (False, True):
            w = wire.Wire(ctx.crates)
            E = w.E
            E.cr = L
            T = terms.Terms(ctx.crates, E)
            E.intercept = Crc(ctx, w, T, E, total)
            st = engine.State()
            data = E.new_enum(st, fs['data'], ('data', di), di, [('0', E.fresh(L, ('payload', di), payload_ty(L, dn)))])
            val = ('st', sti, ('the setting',), (('data', data),))
            outs = run_writer(E, w, g, st, val, quiet)
            ctx.ob(outs, 'writes:%s' % dn, ctx.where(g), 'a %s file can not be written' % dn)
            for s in outs:
                its = [i for i in w.items(s) or [] if i[0] == 'val']
                i = [k for k, x in enumerate(its) if x[1] == 'setting::SettingData' or x[1] == L.ts(payload_ty(L, dn))]
                if not ctx.ob(len(i) == 1 and 0 < i[0] < len(its) - 1, 'layout:' + dn, ctx.where(g), 'the data of a %s file is not written once' % dn):
                    continue
                ln, ck = its[i[0] - 1], its[i[0] + 1]
                ok = ln[2] is not None and ln[2][0] == 'i' and ln[2][1].isconst() and ln[2][1].c == bytes_[dn]
                ctx.ob(ok, 'written:' + dn, ctx.where(g), 'a %s file is written with a length that is not the %d bytes of its data'
                       % (dn, bytes_[dn]), '%s: length %d written' % (dn, bytes_[dn]))
                got = crc_of(ck[2])
                if quiet:
                    ctx.ob(ck[2] is not None and ck[2][0] == 'i' and ck[2][1].isconst(), 'inner:' + dn, ctx.where(g),
                           'writing a %s file without a checksum computes one' % dn)
                    continue
                start = 0 if dn.lower().startswith('djm') else HEAD
                want = ('crc', 'XMODEM', start, total - 4, 'the setting', True)
                ctx.ob(got == want, 'checksum:' + dn, ctx.where(g), 'the checksum of a %s file is %s, not the CRC-16/XMODEM of bytes '
                       '%d..%d of the file' % (dn, describe(got), start, total - 4), '%s: crc of %d..%d' % (dn, start, total - 4))


def describe(c):
    if c is None:
        return 'not computed from the file'
    return 'the CRC (%s) of bytes %s..%s%s' % (c[1], c[2], c[3], '' if c[4:] == ('the setting', True) else ' of something else')


def crc_of(v):
    if v is None or v[0] != 'i':
        return None
    t = v[1].t
    if v[1].c == 0 and len(t) == 1 and t[0][1] == 1:
        k = SYM[t[0][0]][0]
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and k[0] and k[0][0] == 'crc':
            return k[0]
        if isinstance(k, tuple) and k and k[0] == 'crc':
            return k
    return None


def run_writer(E, w, g, st, val, quiet):
    cr = g['crate']
    w.rdtrace = ()

    def init(E_, s, fr, j, ti):
        if j == 0:
            s.mem.update(st.mem)
            s.vars.update(st.vars)
            s.mem[('wv', 0)] = val
            s.mem[wire.TR] = ('tr', ())
            return ('ref', ('wv', 0), (), False)
        if j == 1:
            v = E_.fresh(cr, ('warg', j), ti)
            w.start(s, v)
            return v
        if j == 3:
            return ('st', ti, ('ia',), ((0, ('b', ('c', quiet))),))
        return None
    sts, fr = E.paths(g, init, ('c15', quiet))
    return [s for s in sts if not E.fails(cr, s, s.mem.get((fr.id, 0)))]


class Crc:
    """follows the bytes of the inner pass into the checksum"""

    def __init__(self, ctx, w, T, E, total):
        self.ctx, self.w, self.T, self.E, self.total = ctx, w, T, E, total

    def __call__(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.E.cr
        if wire.WRITE.search(name) and len(args) == 4 and self.w.mine(st, args[1][0]) is None:
            ti = wire.strip(L, callee['args'][0])
            if L.T[ti]['s'] == 'setting::Setting':
                return self.inner(fr, st, name, callee, args, site, dty)
        if CURSOR.search(name) and len(args) == 1:
            v = args[0][0]
            m = name.rsplit('::', 1)[-1]
            if m == 'new':
                b = self.w.deref(st, v) if v[0] == 'ref' else v
                if b is not None and b[0] == 'seq':
                    return [(st, ('st', dty, ('cursor', site), (('inner', v),)))]
                return None
            c = self.w.deref(st, v) if v[0] == 'ref' else v
            if c is not None and c[0] == 'st' and isinstance(c[2], tuple) and c[2][:1] == ('cursor',):
                i = E.field(L, c, 'inner', None)
                if m == 'into_inner' or i[0] == 'ref':
                    return [(st, i)]
                root = ('held',) + c[2]
                st.mem[root] = i
                return [(st, ('ref', root, (), False))]
            return None
        x = self.w.deref(st, args[0][0]) if args else None
        if x is not None and x[0] == 'seq' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'file':
            m = name.rsplit('::', 1)[-1]
            if m in ('get', 'index', 'get_unchecked') and len(args) == 2:
                r = self.sub(st, x, args[1])
                if r is not None:
                    v = self.slice(st, r)
                    if m == 'get':
                        ti = L.T[dty]['args'][0]
                        return [(st, E.new_enum(st, dty, (site, 'some'), 1, [('0', v)]))]
                    return [(st, v)]
            if m in ('truncate',) and len(args) == 2 and args[1][0][0] == 'i' and args[1][0][1].isconst() and args[0][0][0] == 'ref':
                n = args[1][0][1].c
                k = x[1]
                E.store(st, fr, args[0][0][1], args[0][0][2], ('seq', k[:3] + (min(k[3], k[2] + n),) + k[4:], K(min(k[3] - k[2], n)), None), site)
                return [(st, ('st', None, ('u',), ()))]
        if name.startswith('crc16::State::<') and name.endswith('::calculate'):
            x = self.w.deref(st, args[0][0])
            algo = L.T[callee['args'][0]]['s'].split('::')[-1]
            if x is not None and x[0] == 'seq' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'file':
                k = ('crc', algo, x[1][2], x[1][3], x[1][1], x[1][4])
            else:
                k = ('crc', algo, None, None, None, None)
            return [(st, ('i', V(sym((k, 'v'), 0, 65535))))]
        return self.w.intercept(fr, st, name, callee, args, site, dty, t)

    def inner(self, fr, st, name, callee, args, site, dty):
        E = self.E
        what = self.w.deref(st, args[0][0])
        who = 'the setting' if what is not None and what[0] == 'st' and what[2] == ('the setting',) else 'another value'
        a = self.w.deref(st, args[3][0])
        q = E.field(E.cr, a, 0, None) if a is not None and a[0] == 'st' else None
        en = self.w.endian(st, args[2][0])
        # the setting itself says little endian, whatever it is given
        quiet = q is not None and q[0] == 'b' and E.decide(st, q[1])
        # the bytes go to the buffer that is behind the cursor, if it is empty
        sink, held = self.w.deref(st, args[1][0]), None
        if sink is not None and sink[0] == 'st' and isinstance(sink[2], tuple) and sink[2][:1] == ('cursor',):
            held = E.field(E.cr, sink, 'inner', None)
        b = self.w.deref(st, held) if held is not None and held[0] == 'ref' else held
        empty = b is not None and b[0] == 'seq' and st.F.entails(b[2].scale(-1))
        out = []
        for s, v in E.unknown_call(fr, st, args, site, dty, name):
            for s2, v2, vi in self.w.fork(fr, s, v, dty):
                if vi == 0 and empty:
                    new = ('seq', ('file', who, 0, self.total, bool(quiet)), K(self.total), None)
                    if held[0] == 'ref':
                        E.store(s2, fr, held[1], held[2], new, site)
                    else:
                        E.store(s2, fr, args[1][0][1], args[1][0][2], ('st', sink[1], sink[2], (('inner', new),)), site)
                out.append((s2, v2))
        return out

    def sub(self, st, x, arg):
        E = self.E
        r = self.w.deref(st, arg[0])
        if r is None or r[0] != 'st' or r[1] is None:
            return None
        t = E.cr.T[r[1]].get('path', '')
        ln = x[1][3] - x[1][2]
        c = lambda n: (lambda v: v[1].c if v is not None and v[0] == 'i' and v[1].isconst() else None)(E.field(E.cr, r, n, None))
        if t.endswith('::Range'):
            a, b = c('start'), c('end')
        elif t.endswith('::RangeFrom'):
            a, b = c('start'), ln
        elif t.endswith('::RangeTo'):
            a, b = 0, c('end')
        elif t.endswith('::RangeFull'):
            a, b = 0, ln
        else:
            return None
        if a is None or b is None or not 0 <= a <= b <= ln:
            return None
        return ('file', x[1][1], x[1][2] + a, x[1][2] + b, x[1][4])

    def slice(self, st, k):
        root = ('slice',) + k
        st.mem[root] = ('seq', k, K(k[3] - k[2]), None)
        return ('ref', root, (), False)


def naming(ctx, L, names):
    """from_filename: the name of the type in capitals, and nothing else"""
    fns = [f for f in L.fns if f['path'].startswith('setting::SettingType::') and f.get('name') == 'from_filename' and 'blocks' in f]
    f = ctx.need(fns, 'SettingType::from_filename')[0]
    T = terms.Terms(ctx.crates)
    E = T.E
    E.cr = L
    LOG = ('names', 0)

    def eq(fr, st, name, callee, args, site, dty, t):
        if not re.search(r'(PartialEq(<.*>)?>?::eq|str::traits::.*::eq|::eq)$', name) or len(args) != 2:
            return None
        ts = [T.term(st, a) for a, _ in args]
        ls = [x for x in ts if x[0] == 'lit']
        if len(ls) != 1:
            return None
        out = []
        v = T.make(('is', ts[0], ts[1]) if ts[1][0] == 'lit' else ('is', ts[1], ts[0]), dty)
        for b in (True, False):
            s = st.copy()
            if E.assume(s, v[1], b):
                s.mem[LOG] = ('tr', s.mem.get(LOG, ('tr', ()))[1] + ((ls[0][1], b),))
                out.append((s, v))
        return out
    T.first.append(eq)
    sts, fr = E.paths(f, None, 'c15n')
    seen = {}
    for st in sts:
        v = st.mem.get((fr.id, 0))
        vs = st.vars.get(v[2]) if v is not None and v[0] == 'en' else None
        log = st.mem.get(LOG, ('tr', ()))[1]
        yes = [n for n, b in log if b]
        if vs == frozenset((1,)):
            p = E.payload(L, v, 1, '0')
            pv = st.vars.get(p[2]) if p[0] == 'en' else None
            n = names[next(iter(pv))] if pv is not None and len(pv) == 1 else None
            ctx.ob(n is not None and yes == [n.upper() + '.DAT'], 'name:%s' % n, ctx.where(f),
                   'a file named %s is taken for type %s' % (yes, n), '%s -> %s' % (yes, n))
            seen[n] = yes
        else:
            ctx.ob(vs == frozenset((0,)) and not yes, 'noname', ctx.where(f), 'the type of a file named %s is not certain' % yes)
    for n in names:
        ctx.ob(n in seen, 'nameless:' + n, ctx.where(f), 'no file name is taken for type %s' % n)
