"""Terms: where a value comes from, as an expression over constants, arguments and calls of functions outside of the crate.

A layer on top of the abstract interpreter: functions that are not part of the crate and change nothing answer with a value
whose identity is (function, terms of its arguments), so that strings, paths, files and formatted output can be told apart
and compared.  Conversions that keep what they are given (as_ref, clone, into, ...) are transparent."""
import re
import engine
from dom import K, V, sym

SAME = re.compile(r'(::as_ref|::deref|::deref_mut|::borrow|::as_path|::as_os_str|::to_path_buf|::into_path_buf|::to_owned|::clone|'
                  r'::as_str|::as_mut|::by_ref|::into_boxed_path|::into_os_string|::as_mut_os_str|::as_bytes|::into_bytes|'
                  r'::from|::into|::to_string|::into_string|::as_slice)$')
STRINGS = re.compile(r'(str|alloc::string::String|std::path::Path|std::path::PathBuf|std::ffi::os_str::OsStr|'
                     r'std::ffi::os_str::OsString|alloc::borrow::Cow<.*>)$')
NAMED = re.compile(r'^(<?)(std::path::|std::fs::|std::ffi::|alloc::fmt::|alloc::str::|alloc::string::|core::str::|(?:std|alloc|core)::io::.*(?:BufReader|Cursor|BufWriter)(?:::<.*>)?::(?:new|with_capacity)$)')
ARG = re.compile(r'core::fmt::rt::Argument::<.*>::new_(\w+)$')


def template(bs):
    """the template of format_args: literal pieces and ('arg', index, options)"""
    out, i, n = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(('lit', bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(('lit', bytes(bs[i + 2:i + 2 + k]).decode()))
            i += 2 + k
        else:
            opt = []
            for bit, w in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if b & bit:
                    opt.append((bit, int.from_bytes(bytes(bs[i:i + w]), 'little')))
                    i += w
            o = dict(opt)
            n = o.pop(8, n)
            out.append(('arg', n, tuple(sorted(o.items()))))
            n += 1
    return out


def find(t, pred, out=None):
    """all sub-terms that satisfy pred"""
    if out is None:
        out = []
    if isinstance(t, tuple):
        if pred(t):
            out.append(t)
        for x in t:
            find(x, pred, out)
    return out


def lits(t):
    return [x[1] for x in find(t, lambda x: len(x) == 2 and x[0] == 'lit')]


class Terms:
    def __init__(self, crates, E=None, depth=12):
        self.E = E or engine.Engine(crates)
        self.E.split = True
        self.E.intercept = self.intercept
        self.E.MAXDEPTH = max(self.E.MAXDEPTH, depth)
        self.first = []         # interceptors asked first: f(fr, st, name, callee, args, site, dty, t) -> outcomes or None
        self.impure = re.compile(r'$^')

    def deref(self, st, v, n=0):
        while v is not None and v[0] == 'ref' and n < 8:
            if v[1][0] in ('cs', 'cb') and not v[2]:
                return v
            v = self.E.load(st, self.E.cr, v[1], v[2])
            n += 1
        return v

    def term(self, st, v, d=0):
        """the term of a value"""
        E = self.E
        v = self.deref(st, v)
        if v is None:
            return ('?',)
        k = v[0]
        if k == 'ref':
            return ('lit', v[1][1]) if v[1][0] == 'cs' else ('bytes', v[1][1])
        if k == 'i':
            return ('int', v[1].c) if v[1].isconst() else ('i', v[1])
        if k == 'b':
            return v
        if k == 'tr':
            return v[1][0] if len(v[1]) == 1 else v[1]
        if k == 'seq':
            if len(v) > 3 and isinstance(v[3], tuple) and v[3] and v[3][0] == 'arr':
                return ('arr',) + tuple(self.term(st, x, d + 1) for x in v[3][1])
            if isinstance(v[1], tuple) and v[1] and v[1][0] in ('cs', 'cb'):
                return ('lit', v[1][1]) if v[1][0] == 'cs' else ('bytes', v[1][1])
            return self.unkey(v[1])
        if k == 'en':
            vs = st.vars.get(v[2])
            if vs is not None and len(vs) == 1:
                vi = next(iter(vs))
                fs = tuple((n, self.term(st, x, d + 1)) for (i, n), x in v[4] if i == vi)
                nm = self.variant(v[1], vi)
                if fs or d == 0 or v[3] is None or self.unit(v[1], vi):
                    return (nm,) + fs
            return self.unkey(v[3] if v[3] is not None else v[2])
        if k == 'st':
            if v[3] and d < 6:
                return ('st', self.unkey(v[2]) if v[2] is not None and not self.site(v[2]) else None) + \
                    tuple((n, self.term(st, x, d + 1)) for n, x in v[3])
            return self.unkey(v[2])
        if k == 'op':
            return self.unkey(v[1])
        return v

    def site(self, key):
        return isinstance(key, tuple) and len(key) == 2 and key[1] in ('agg', 'tup')

    def unit(self, ti, vi):
        a = self.E.adt_of(self.E.cr, self.E.cr.T[ti]) if ti is not None else None
        return bool(a) and vi < len(a['variants']) and not a['variants'][vi]['f']

    def variant(self, ti, vi):
        t = self.E.cr.T[ti]
        p = t.get('path', '?')
        a = self.E.cr.adts.get(p)
        if a:
            return a['variants'][vi]['n']
        return {'core::option::Option': ('None', 'Some'), 'core::result::Result': ('Ok', 'Err'),
                'core::ops::control_flow::ControlFlow': ('Continue', 'Break')}.get(p, {}).__getitem__(vi) \
            if p.startswith(('core::option::Option', 'core::result::Result', 'core::ops::control_flow')) else '%s#%s' % (p, vi)

    def unkey(self, k):
        while isinstance(k, tuple) and len(k) == 2 and k[1] == '*':
            k = k[0]
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'T':
            return k[1]
        return k

    def make(self, t, dty, cr=None):
        return self.E.fresh(cr or self.E.cr, ('T', t), dty)

    def same(self, st, v, dty):
        """the value v as a value of the type dty, with the same term"""
        t = self.term(st, v)
        if dty is None:
            return v
        ty = self.E.cr.T[dty]
        if ty['k'] == 'ref':
            w = self.E.cr.T[ty['t']]
            if t[0] == 'lit' and w['k'] in ('str', 'slice', 'adt'):
                return ('ref', ('cs', t[1]), (), False)
            return self.make(t, dty)
        x = self.deref(st, v)
        if ty['k'] == 'adt' and ty['path'] in self.E.SEQ:
            ln = K(len(t[1].encode())) if t[0] == 'lit' else x[2] if x is not None and x[0] == 'seq' else None
            if ln is not None:
                return ('seq', ('T', t), ln, None)
        return self.make(t, dty)

    def pure(self, name, args):
        return not self.impure.search(name)

    def intercept(self, fr, st, name, callee, args, site, dty, t):
        E = self.E
        for f in self.first:
            r = f(fr, st, name, callee, args, site, dty, t)
            if r is not None:
                return r
        if E.local_fn(fr, callee) is not None:
            return None
        m = ARG.match(name)
        if m:
            return [(st, ('tr', (('fa', m.group(1), self.term(st, args[0][0])),)))]
        if name.startswith('core::fmt::Arguments::<') or name.startswith('core::fmt::rt::<impl core::fmt::Arguments'):
            return [(st, ('tr', (('fmt',) + tuple(self.arguments(st, name, args)),)))]
        if name == 'core::hint::must_use' and args:
            return [(st, args[0][0])]
        if dty is None or not isinstance(dty, int):
            return None
        if SAME.search(name) and len(args) == 1 and self.stringy(dty) and self.stringy(args[0][1]):
            return [(st, self.same(st, args[0][0], dty))]
        if name.endswith(('::to_string', 'ToString>::to_string')) and len(args) == 1:
            x = ('shown', self.term(st, args[0][0]))
            return [(st, self.make(x, dty))]
        if NAMED.search(name) and not any(a is not None and a[0] == 'ref' and a[3] for a, _ in args):
            if name in ('alloc::fmt::format', 'std::fmt::format'):
                return [(st, self.make(self.term(st, args[0][0]), dty))]
            x = (re.sub(r'::<.*?>', '', name).split(' as ')[0].rsplit('::', 2)[-2] + '::' + name.rsplit('::', 1)[-1],) + \
                tuple(self.term(st, a) for a, _ in args)
            return [(st, self.make(x, dty))]
        return None

    def stringy(self, ti):
        T = self.E.cr.T
        while isinstance(ti, int) and T[ti]['k'] == 'ref':
            ti = T[ti]['t']
        return isinstance(ti, int) and bool(STRINGS.match(T[ti]['s']))

    def arguments(self, st, name, args):
        """format_args!: its pieces, each a literal or (how, options, term)"""
        t0 = self.term(st, args[0][0])
        if t0[0] == 'lit':
            return [t0]
        if t0[0] != 'bytes':
            return [('?', t0)]
        a = self.term(st, args[1][0]) if len(args) > 1 else ('arr',)
        out = []
        for p in template(t0[1]):
            if p[0] == 'lit':
                out.append(p)
            else:
                x = a[p[1] + 1] if a[0] == 'arr' and p[1] + 1 < len(a) else ('?',)
                out.append(('show', x[1], p[2], x[2]) if x[0] == 'fa' else ('show', '?', p[2], x))
        return out
