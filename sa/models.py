"""Semantics of the std/core functions the analysis understands.  Anything not listed is treated as
returning any value, havocking everything reachable through mutable references it is given."""
import re
from dom import Lin, K, V, sym, SYM, INF
import engine
from engine import cge, ceq, neg, cand, cor, ISIZE, LENMAX, USIZE, NONE, SOME, OK, ERR

INT = {}
for _b in (8, 16, 32, 64, 128):
    INT['u%d' % _b] = (0, (1 << _b) - 1)
    INT['i%d' % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INT['usize'] = INT['u64']
INT['isize'] = INT['i64']
BITS = {k: (64 if 'size' in k else int(k[1:])) for k in INT}

MODELS = {}
SUFFIX = []


class Call:
    """one call being interpreted"""

    def __init__(self, E, fr, st, callee, args, site, dty, t):
        self.E, self.fr, self.st, self.callee, self.site, self.dty, self.t = E, fr, st, callee, site, dty, t
        self.args = args
        self.cr = fr.cr
        self.name = callee.get('rp', callee['p'])

    def v(self, i):
        return self.args[i][0]

    def ty(self, i):
        return self.args[i][1]

    def deref(self, v):
        """look through references"""
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.E.load(self.st, self.cr, v[1], v[2])
            n += 1
        return v

    def seq(self, i):
        v = self.deref(self.v(i))
        return v if v is not None and v[0] == 'seq' else None

    def place1(self, i):
        """the place an argument points to, one level only"""
        v = self.v(i)
        if v[0] != 'ref':
            return None, None, v
        return v[1], v[2], self.E.load(self.st, self.cr, v[1], v[2])

    def place(self, i):
        """the place a &mut argument points to"""
        v = self.v(i)
        while v[0] == 'ref':
            x = self.E.load(self.st, self.cr, v[1], v[2])
            if x is not None and x[0] == 'ref':
                v = x
                continue
            return v[1], v[2], x
        return None, None, v

    def fresh(self, tag, ti):
        return self.E.fresh(self.cr, (self.site, tag), ti)

    def fint(self, tag, lo, hi):
        return V(sym((self.site, tag, lo, hi), lo, hi))

    def none(self):
        return self.en(0, ())

    def some(self, v):
        return self.en(1, (('0', v),))

    def ok(self, v):
        return self.en(0, (('0', v),))

    def err(self, v):
        return self.en(1, (('0', v),))

    def en(self, vi, fields, st=None, ti=None, tag=None):
        s = st or self.st
        return self.E.new_enum(s, ti if ti is not None else self.dty, (self.site, 'm', vi, tag), vi, fields)

    def outs(self, *alts):
        """alternatives: (cond or None, fn(state)->value)"""
        res = []
        for c, f in alts:
            s = self.st.copy()
            if c is not None and not self.E.assume(s, c):
                continue
            sv, self.st = self.st, s
            try:
                v = f()
            finally:
                s2, self.st = self.st, sv
            res.append((s2, v))
        return res

    def oblige(self, cond, kind, what, why=''):
        E = self.E
        r = E.decide(self.st, cond)
        E.oblige(self.fr, self.site, kind, what, self.t or {'ln': None}, r is True, why)
        if r is False:
            return False
        return E.assume(self.st, cond)

    def argty(self, i=0):
        a = self.callee.get('rargs') if 'rp' in self.callee else None
        a = a or self.callee.get('args') or []
        return a[i] if i < len(a) and isinstance(a[i], int) else None

    def gen(self, i):
        a = self.callee.get('args') or []
        return a[i] if i < len(a) and isinstance(a[i], int) else None

    def T(self, ti):
        return self.cr.T[ti]

    def inner(self, ti, n=0):
        """n-th type argument of an ADT type"""
        if ti is None:
            return None
        t = self.cr.T[ti]
        if t['k'] in ('ref', 'ptr', 'slice', 'array'):
            return t['t']
        if t['k'] == 'adt' and n < len(t['args']) and isinstance(t['args'][n], int):
            return t['args'][n]
        return None


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def suffix(*names):
    def d(f):
        for n in names:
            SUFFIX.append((n, f))
        return f
    return d


TC_OK = ('core::convert::Into<U>>::into', 'from_residual', '::bitxor', '::bitand', '::bitor', '::not', '::unwrap_or_else',
         '::get_or_insert_with', 'BitXorAssign', 'BitOrAssign', 'BitAndAssign', 'Deref>::deref', 'DerefMut>::deref_mut',
         'core::option::Option::<T>::insert', '::saturating_', '::wrapping_', 'alloc::vec::Vec::<T, A>::push',
         'alloc::vec::Vec::<T, A>::append', 'alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::string::String::push',
         'alloc::string::String::push_str', 'alloc::vec::Vec::<T, A>::reserve', 'alloc::string::String::reserve',
         'alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::into_boxed_slice',
         'alloc::vec::Vec::<T, A>::insert_mut', 'alloc::vec::Vec::<T, A>::push_mut', 'alloc::vec::Vec::<T, A>::resize',
         'alloc::vec::Vec::<T, A>::resize_with', 'alloc::vec::Vec::<T, A>::clear', 'alloc::vec::Vec::<T>::with_capacity',
         'alloc::string::String::with_capacity', 'alloc::vec::Vec::<T, A>::dedup', 'alloc::vec::Vec::<T, A>::retain',
         'ToOwned>::to_owned', '::to_vec', 'alloc::vec::Vec::<T, A>::extend_from_within_',
         'alloc::vec::from_elem', 'BTreeMap', 'core::iter::traits::collect::Extend', 'VecDeque::<T, A>::push_back',
         'VecDeque::<T, A>::push_front', 'alloc::collections::vec_deque::VecDeque::<T>::with_capacity')

PANICKY = re.compile(
    r'(::sum$|::product$|::pow$|::next_multiple_of$|::next_power_of_two$|::abs$|::step_by$|::split_at$|::split_at_mut$|'
    r'::copy_from_slice$|::clone_from_slice$|::swap_remove$|::split_off$|::remove$|::drain$|::insert_str$|::truncate$|'
    r'::ilog2$|::ilog10$|::ilog$|::borrow_mut$|::borrow$|::chunks$|::chunks_exact$|::windows$|::rotate_left$|'
    r'::rotate_right$|::copy_within$|::div_euclid$|::rem_euclid$|::isqrt$|'
    r'core::ops::index::Index(Mut)?<.*>(>| for .*>)::index(_mut)?$|core::ops::index::Index(Mut)?::index(_mut)?$|'
    r'core::ops::arith::(Add|Sub|Mul|Div|Rem|Neg|AddAssign|SubAssign|MulAssign|DivAssign|RemAssign)(<|::)|'
    r'core::ops::bit::(Shl|Shr|ShlAssign|ShrAssign)(<|::)|core::panicking::|unwrap_failed|expect_failed)')
NOT_PANICKY = re.compile(r'(::truncate$|alloc::string::String::drain$|collections::hash::map|collections::btree|'
                         r'HashSet|BTreeSet|std::fs::|std::env::|std::path::|core::cell::)')
# Vec::truncate never panics, HashMap::remove neither


def tc_ok(name):
    return any(x in name for x in TC_OK) or bool(re.search(r'HashMap.*::(insert|remove|entry)$', name))


def may_panic(name):
    if not PANICKY.search(name):
        return False
    if re.search(r'Vec::<T, A>::truncate$|HashMap|BTreeMap|HashSet|BTreeSet|std::fs::|std::path::', name) and \
            'index::Index' not in name:
        return False
    if 'Borrow' in name and name.endswith('::borrow'):
        return False
    if re.search(r'core::borrow::Borrow(Mut)?', name):
        return False
    return True


# ------------------------------------------------------------------ conversions
def conv_int(c, v, src_t, dst_t):
    """infallible int conversion"""
    if v[0] == 'b':
        d = c.E.decide(c.st, v[1])
        return ('i', K(1 if d else 0)) if d is not None else ('i', c.fint('b2i', 0, 1))
    if v[0] == 'i':
        return v
    return None


@model('<T as core::convert::Into<U>>::into', 'core::convert::Into::into', 'core::convert::From::from',
       '<T as core::convert::From<T>>::from')
def m_into(c):
    d = c.T(c.dty) if c.dty is not None else None
    v = c.v(0)
    if c.ty(0) is not None and c.ty(0) == c.dty:
        return [(c.st, v)]
    if d is None:
        return None
    if d['k'] == 'int' and v[0] in ('i', 'b'):
        return [(c.st, conv_int(c, v, None, d))]
    if d['k'] == 'adt' and d['path'] == 'core::option::Option':
        s = c.T(c.ty(0)) if c.ty(0) is not None else None
        if not (s and s['k'] == 'adt' and s['path'] == 'core::option::Option'):
            return [(c.st, c.some(v))]
        return [(c.st, v)]
    # user impl of From
    if c.name.endswith('into') and c.ty(0) is not None:
        f = c.E.find_impl(c.cr, 'core::convert::From', d, 'from', [c.ty(0)])
        if f is not None:
            from engine import Frame
            cal = {'p': f['path'], 'rp': f['path'], 'rlocal': True, 'rfn': f, 'args': [], 'rargs': d.get('args', [])}
            sub = c.E.make_subst(c.fr, cal, f)
            return c.E.try_inline(c.fr, c.st, f, [v], c.site, sub, c.t)
        f = c.E.find_impl(c.cr, 'core::convert::Into', c.T(c.ty(0)), 'into', [c.dty])
        if f is not None:
            return c.E.try_inline(c.fr, c.st, f, [v], c.site, {}, c.t)
    return None


@suffix('>::from')
def m_from_num(c):
    if 'core::convert::num' in c.name or 'core::char::convert' in c.name:
        v = c.v(0)
        if v[0] in ('i', 'b'):
            r = conv_int(c, v, None, None)
            d = c.T(c.dty)
            if d['k'] == 'int':
                return [(c.st, r)]
    if 'nonzero' in c.name and c.v(0)[0] == 'i':
        return [(c.st, c.v(0))]
    return None


def try_conv(c):
    v = c.v(0)
    d = c.T(c.dty)
    ok_t = c.inner(c.dty, 0)
    if ok_t is None or v[0] not in ('i', 'b'):
        return None
    t = c.T(ok_t)
    if t['k'] != 'int':
        if t['k'] == 'adt' and t['path'] == 'core::num::nonzero::NonZero' and v[0] == 'i':
            return c.outs((('ne', v[1]) if not v[1].isconst() else ('c', v[1].c != 0), lambda: c.ok(v)),
                          (ceq(v[1]), lambda: c.en(ERR, ())))
        return None
    lo, hi = c.E.int_range(t)
    l = conv_int(c, v, None, None)[1]
    inr = cand(cge(l.addc(-lo)), cge(l.neg().addc(hi)))
    return c.outs((inr, lambda: c.ok(('i', l))), (neg(inr), lambda: c.en(ERR, ())))


@suffix('>::try_from', '::try_into', '::try_from')
def m_try_from(c):
    if c.dty is None or c.T(c.dty).get('path') != 'core::result::Result':
        return None
    r = try_conv(c)
    if r is not None:
        return r
    # slice -> array
    ok_t = c.inner(c.dty, 0)
    t = c.T(ok_t) if ok_t is not None else None
    if t is not None and t['k'] in ('array', 'ref'):
        at = t if t['k'] == 'array' else c.T(t['t'])
        s = c.seq(0)
        if at['k'] == 'array' and 'n' in at and s is not None:
            e = ceq(s[2].addc(-at['n']))
            val = c.fresh('arr', ok_t) if t['k'] == 'array' else c.v(0)
            return c.outs((e, lambda: c.ok(val)), (neg(e), lambda: c.en(ERR, ())))
    if c.name.endswith('try_into') and c.ty(0) is not None and ok_t is not None:
        f = c.E.find_impl(c.cr, 'core::convert::TryFrom', c.T(ok_t), 'try_from', [c.ty(0)])
        if f is not None:
            return c.E.try_inline(c.fr, c.st, f, [c.v(0)], c.site, {}, c.t)
    return None


# ------------------------------------------------------------------ integers
INTFN = re.compile(r'^core::num::(?:<impl )?([ui](?:8|16|32|64|128|size))>?::(\w+)$')


def int_call(c, ty, fn):
    lo, hi = INT[ty]
    t = {'k': 'int', 'bits': BITS[ty], 'signed': ty[0] == 'i', 's': ty}
    a = c.v(0)
    b = c.v(1) if len(c.args) > 1 else None
    if a[0] == 'ref':
        a = c.deref(a)
    m = re.match(r'(from|to)_(le|be|ne)_bytes$', fn)
    if m:
        return bytes_of(c, ty, a, m.group(1), 'le' if m.group(2) == 'ne' else m.group(2), t)
    if a is None or a[0] != 'i':
        if fn in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros'):
            return [(c.st, ('i', c.fint('n', 0, BITS[ty])))]
        return None
    la = a[1]
    lb = b[1] if b is not None and b[0] == 'i' else None
    E = c.E
    inr = lambda l: cand(cge(l.addc(-lo)), cge(l.neg().addc(hi)))
    m = re.match(r'(checked|saturating|wrapping|overflowing|unchecked|strict)_(add|sub|mul|div|rem|shl|shr|pow|neg|next_multiple_of|add_signed|sub_unsigned|add_unsigned|sub_signed|div_ceil|next_power_of_two)$', fn)
    if m:
        mode, op = m.groups()
        l = None
        opn = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'add_signed': 'Add',
               'sub_unsigned': 'Sub', 'add_unsigned': 'Add', 'sub_signed': 'Sub'}.get(op)
        if opn in ('Div', 'Rem'):
            if mode == 'checked' and lb is not None:
                def good():
                    q = E.arith(c.st, opn, la, lb, t, c.site)
                    return c.some(('i', q))
                return c.outs((neg(ceq(lb)), good), (ceq(lb), c.none)) if lo == 0 else \
                    c.outs((neg(ceq(lb)), lambda: c.some(('i', c.fint('q', lo, hi)))), (None, c.none))
            return None
        if op == 'next_multiple_of' and mode == 'checked' and lb is not None:
            if E.split and lb.isconst() and lb.c > 0 and lo == 0:
                r = E.arith(c.st, 'Div', la.addc(lb.c - 1), lb, t, c.site).scale(lb.c)
                return c.outs((inr(r), lambda: c.some(('i', r))), (neg(inr(r)), c.none))

            def good():
                r = c.fint('nm', lo, hi)
                E.assume(c.st, cge(r.sub(la)))
                E.assume(c.st, cge(la.add(lb).addc(-1).sub(r)))
                return c.some(('i', r))
            return c.outs((neg(ceq(lb)), good), (None, c.none))
        if opn and lb is not None:
            l = E.arith(c.st, opn, la, lb, t, c.site)
        if mode == 'checked':
            if l is not None:
                return c.outs((inr(l), lambda: c.some(('i', l))), (neg(inr(l)), c.none))
            if op in ('shl', 'shr') and lb is not None:
                return c.outs((cge(lb.neg().addc(BITS[ty] - 1)), lambda: c.some(('i', c.fint('sh', lo, hi)))),
                              (cge(lb.addc(-BITS[ty])), c.none))
            return c.outs((None, lambda: c.some(('i', c.fint('ck', lo, hi)))), (None, c.none))
        if mode == 'saturating':
            if l is not None:
                alts = [(inr(l), lambda: ('i', l))]
                alts.append((cge(l.addc(-hi - 1)), lambda: ('i', K(hi))))
                alts.append((cge(l.neg().addc(lo - 1)), lambda: ('i', K(lo))))
                return c.outs(*alts)
            return [(c.st, ('i', c.fint('sat', lo, hi)))]
        if mode == 'wrapping':
            if l is not None:
                if E.decide(c.st, inr(l)) is True:
                    return [(c.st, ('i', l))]
                return [(c.st, ('i', V(sym(('wrap', op, la, lb, ty), lo, hi, tuple(la.syms() + lb.syms())))))]
            return [(c.st, ('i', c.fint('wr', lo, hi)))]
        if mode == 'overflowing':
            return None
        return None
    if fn in ('pow',) and lb is not None:
        if la.isconst() and lb.isconst():
            r = la.c ** lb.c
            if not c.oblige(('c', lo <= r <= hi), 'call', 'pow'):
                return []
            return [(c.st, ('i', K(r)))]
        ub, eb = c.st.F.ub(la), c.st.F.ub(lb)
        good = eb < 200 and c.st.F.lb(la) >= 0 and c.st.F.lb(lb) >= 0 and (ub ** eb if eb < 200 else hi + 1) <= hi
        c.oblige(('c', True) if good else ('isv', (c.site, 'pow'), (1,), (0, 1)), 'call', 'pow')
        return [(c.st, ('i', c.fint('pow', lo, hi)))]
    if fn == 'next_multiple_of' and lb is not None:
        if not c.oblige(neg(ceq(lb)), 'call', 'next_multiple_of:zero'):
            return []
        if not c.oblige(cge(la.add(lb).addc(-1).neg().addc(hi)), 'call', 'next_multiple_of:overflow'):
            return []
        if E.split and lb.isconst() and lb.c > 0 and lo == 0:
            return [(c.st, ('i', E.arith(c.st, 'Div', la.addc(lb.c - 1), lb, t, c.site).scale(lb.c)))]
        r = c.fint('nm', lo, hi)
        E.assume(c.st, cge(r.sub(la)))
        E.assume(c.st, cge(la.add(lb).addc(-1).sub(r)))
        return [(c.st, ('i', r))]
    if fn == 'div_ceil' and lb is not None:
        if not c.oblige(neg(ceq(lb)), 'call', 'div_ceil:zero'):
            return []
        if E.split and lb.isconst() and lb.c > 0:
            return [(c.st, ('i', E.arith(c.st, 'Div', la.addc(lb.c - 1), lb, t, c.site)))]
        q = V(sym(('divceil', la, lb), 0, hi, tuple(la.syms()) + tuple(lb.syms())))
        if lb.isconst() and lb.c > 0:
            d = q.scale(lb.c).sub(la)
            E.assume(c.st, cge(d))
            E.assume(c.st, cge(d.neg().addc(lb.c - 1)))
        else:
            E.assume(c.st, cge(la.sub(q).addc(0)))
        return [(c.st, ('i', q))]
    if fn == 'is_multiple_of':
        if E.split and lb is not None and lo == 0 and c.st.F.entails(lb.addc(-1)):
            return [(c.st, ('b', ceq(E.arith(c.st, 'Rem', la, lb, t, c.site))))]
        return [(c.st, ('b', ('isv', (c.site, 'imo'), (1,), (0, 1))))]
    if fn in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros', 'leading_ones', 'trailing_ones'):
        return [(c.st, ('i', c.fint('n', 0, BITS[ty])))]
    if fn == 'abs_diff' and lb is not None:
        return c.outs((cge(la.sub(lb)), lambda: ('i', la.sub(lb))), (cge(lb.sub(la).addc(-1)), lambda: ('i', lb.sub(la))))
    if fn in ('unsigned_abs',):
        return c.outs((cge(la), lambda: ('i', la)), (cge(la.neg().addc(-1)), lambda: ('i', la.neg())))
    if fn == 'abs':
        if not c.oblige(cge(la.addc(-lo - 1)), 'call', 'abs'):
            return []
        return c.outs((cge(la), lambda: ('i', la)), (cge(la.neg().addc(-1)), lambda: ('i', la.neg())))
    if fn in ('swap_bytes', 'to_be', 'to_le', 'reverse_bits', 'rotate_left', 'rotate_right', 'from_be', 'from_le'):
        return [(c.st, ('i', V(sym((fn, la, ty), lo, hi, tuple(la.syms())))))]
    if fn in ('min', 'max', 'clamp'):
        return None
    if fn in ('ilog2',):
        if not c.oblige(cge(la.addc(-1)), 'call', fn):
            return []
        return [(c.st, ('i', c.fint('lg', 0, BITS[ty] - 1)))]
    return None


def bytes_of(c, ty, a, way, order, t):
    """a number as its bytes and back"""
    lo, hi = INT[ty]
    if a is None:
        return None
    if way == 'to':
        if a[0] != 'i':
            return None
        l = a[1]
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
            k = SYM[l.t[0][0]][0]
            if isinstance(k, tuple) and len(k) == 4 and k[0] == 'ofbytes' and k[1] == order and k[3] == ty:
                return [(c.st, ('seq', k[2], K(BITS[ty] // 8), None))]
        return [(c.st, ('seq', ('ib', order, l, ty), K(BITS[ty] // 8), None))]
    if a[0] != 'seq':
        return None
    k = a[1]
    if isinstance(k, tuple) and len(k) == 4 and k[0] == 'ib' and k[3] == ty:
        if k[1] == order:
            return [(c.st, ('i', k[2]))]
        return [(c.st, ('i', V(sym(('swap_bytes', k[2], ty), lo, hi, tuple(k[2].syms())))))]
    return [(c.st, ('i', V(sym(('ofbytes', order, k, ty), lo, hi))))]


def m_int(c):
    m = INTFN.match(c.name)
    if not m:
        return None
    return int_call(c, m.group(1), m.group(2))


SUFFIX.append(('', lambda c: m_int(c) if c.name.startswith('core::num::<impl ') else None))


@suffix('core::num::nonzero::NonZero::<T>::get')
def m_nz_get(c):
    v = c.v(0)
    return [(c.st, v)] if v[0] == 'i' else None


@suffix('core::num::nonzero::NonZero::<T>::new')
def m_nz_new(c):
    v = c.v(0)
    if v[0] != 'i':
        return None
    return c.outs((neg(ceq(v[1])), lambda: c.some(v)), (ceq(v[1]), c.none))


@suffix('>::min', '>::max', 'core::cmp::min', 'core::cmp::max', 'core::cmp::Ord::min', 'core::cmp::Ord::max')
def m_minmax(c):
    if len(c.args) != 2:
        return None
    a, b = c.v(0), c.v(1)
    if a[0] != 'i' or b[0] != 'i':
        return None
    x, y = a[1], b[1]
    if c.name.endswith('min'):
        return c.outs((cge(y.sub(x)), lambda: ('i', x)), (cge(x.sub(y).addc(-1)), lambda: ('i', y)))
    return c.outs((cge(x.sub(y)), lambda: ('i', x)), (cge(y.sub(x).addc(-1)), lambda: ('i', y)))


@suffix('>::clamp', 'core::cmp::Ord::clamp')
def m_clamp(c):
    a = [c.v(i) for i in range(3)]
    if any(x[0] != 'i' for x in a):
        return None
    v, lo, hi = (x[1] for x in a)
    if not c.oblige(cge(hi.sub(lo)), 'call', 'clamp'):
        return []
    r = c.fint('cl', -INF, INF)
    c.E.assume(c.st, cge(r.sub(lo)))
    c.E.assume(c.st, cge(hi.sub(r)))
    return [(c.st, ('i', r))]


CMPOP = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}


@suffix('>::eq', '>::ne', '>::lt', '>::le', '>::gt', '>::ge', 'PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt',
        'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_cmp(c):
    if len(c.args) != 2:
        return None
    tr = c.callee.get('tr', '')
    if tr and tr not in ('core::cmp::PartialEq', 'core::cmp::PartialOrd'):
        return None
    a, b = c.deref(c.v(0)), c.deref(c.v(1))
    op = CMPOP[c.name.rsplit('::', 1)[-1]]
    if a is None or b is None:
        return None
    if a[0] in ('i', 'b', 'disc') and b[0] in ('i', 'b', 'disc'):
        return [(c.st, ('b', c.E.compare(c.st, c.cr, op, a, b, c.site)))]
    if op in ('Eq', 'Ne'):
        if a[0] == 'seq' and b[0] == 'seq':
            ka, kb = a[1], b[1]
            if ka and kb and ka[0] == 'cs' and kb[0] == 'cs':
                r = ka[1] == kb[1]
                return [(c.st, ('b', ('c', r if op == 'Eq' else not r)))]
            if c.E.decide(c.st, ceq(a[2].sub(b[2]))) is False:
                return [(c.st, ('b', ('c', op == 'Ne')))]
            eid = (c.site, 'seqeq')
            def y():
                return ('b', ('c', op == 'Eq'))
            def n():
                return ('b', ('c', op == 'Ne'))
            return c.outs((ceq(a[2].sub(b[2])), y), (None, n))
        if a[0] == 'en' and b[0] == 'en' and c.E.local_fn(c.fr, c.callee) is None:
            # references to references / Option comparisons
            va, vb = c.st.vars.get(a[2]), c.st.vars.get(b[2])
            if va is not None and vb is not None and not (va & vb):
                return [(c.st, ('b', ('c', op == 'Ne')))]
            if c.T(a[1]).get('path') == c.T(b[1]).get('path') == 'core::option::Option':
                x, y = c.E.payload(c.cr, a, SOME, '0'), c.E.payload(c.cr, b, SOME, '0')
                if x is not None and y is not None and x[0] == 'i' and y[0] == 'i':
                    both = [cand(('isv', a[2], (w,), (0, 1)), ('isv', b[2], (w,), (0, 1))) for w in (NONE, SOME)]
                    r = cor(both[0], cand(both[1], ceq(x[1].sub(y[1]))))
                    return [(c.st, ('b', r if op == 'Eq' else neg(r)))]
            # a local derive on a field-less enum, reached through references
            al = c.E.all_variants(c.cr, a[1])
            ad = c.cr.adts.get(c.T(a[1]).get('path'))
            if ad and all(not v['f'] for v in ad['variants']) and vb is not None and len(vb) == 1:
                r = ('isv', a[2], tuple(vb), al)
                return [(c.st, ('b', r if op == 'Eq' else neg(r)))]
        if op == 'Ne' and c.E.local_fn(c.fr, c.callee) is None and a[0] in ('st', 'en') and a[1] is not None:
            # PartialEq::ne as the trait has it: not eq
            f = c.cr.by_path.get('<%s as core::cmp::PartialEq>::eq' % c.T(a[1]).get('path'))
            ti = c.ty(0)
            if f is not None and 'blocks' in f and c.T(ti)['k'] == 'ref' and c.T(c.T(ti)['t'])['k'] == 'adt':
                r = c.E.try_inline(c.fr, c.st, f, [c.v(0), c.v(1)], c.site, {}, c.t)
                if r is not None:
                    return [(s, ('b', neg(v[1])) if v is not None and v[0] == 'b' else v) for s, v in r]
    return None


@suffix('>::cmp', 'core::cmp::Ord::cmp')
def m_ord_cmp(c):
    a, b = c.deref(c.v(0)), c.deref(c.v(1))
    if a is None or b is None or a[0] != 'i' or b[0] != 'i':
        return None
    x, y = a[1], b[1]
    return c.outs((cge(y.sub(x).addc(-1)), lambda: c.en(0, ())), (ceq(x.sub(y)), lambda: c.en(1, ())),
                  (cge(x.sub(y).addc(-1)), lambda: c.en(2, ())))


# int operator traits called as functions
@suffix('>::add', '>::sub', '>::mul', '>::add_assign', '>::sub_assign', '>::mul_assign', '>::div', '>::rem', '::div_assign',
        '::rem_assign')
def m_arith_trait(c):
    if 'core::ops::arith' not in c.name or len(c.args) != 2:
        return None
    fn = c.name.rsplit('::', 1)[-1]
    asg = fn.endswith('_assign')
    a, b = c.deref(c.v(0)), c.deref(c.v(1))
    if a is None or b is None or a[0] != 'i' or b[0] != 'i':
        return None
    m = re.search(r'(?:for|<&?)\s*\'?_?\s*&?([ui](?:8|16|32|64|size))\b', c.name)
    ts = c.T(c.ty(0))
    while ts['k'] == 'ref':
        ts = c.T(ts['t'])
    if ts['k'] != 'int':
        return None
    lo, hi = c.E.int_range(ts)
    opn = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[fn.replace('_assign', '')]
    if opn in ('Div', 'Rem'):
        if not c.oblige(neg(ceq(b[1])), 'call', opn + ':zero'):
            return []
    l = c.E.arith(c.st, opn, a[1], b[1], ts, c.site)
    if l is None:
        return None
    if not c.oblige(cand(cge(l.addc(-lo)), cge(l.neg().addc(hi))), 'call', 'overflow:' + opn):
        return []
    if asg:
        r, p, _ = c.place(0)
        c.E.store(c.st, c.fr, r, p, ('i', l), c.site)
        return [(c.st, ('st', None, (c.site, 'unit'), ()))]
    return [(c.st, ('i', l))]


@suffix('>::shl', '>::shr', '>::shl_assign', '>::shr_assign', '>::bitand', '>::bitor', '>::bitxor', '>::bitand_assign',
        '>::bitor_assign', '>::bitxor_assign')
def m_bit_trait(c):
    if 'core::ops::bit' not in c.name or len(c.args) != 2:
        return None
    fn = c.name.rsplit('::', 1)[-1]
    asg = fn.endswith('_assign')
    a, b = c.deref(c.v(0)), c.deref(c.v(1))
    ts = c.T(c.ty(0)) if c.ty(0) is not None else {'k': '?'}
    while ts['k'] == 'ref':
        ts = c.T(ts['t'])
    if a is None or b is None or a[0] != 'i' or b[0] != 'i' or ts['k'] != 'int':
        return None
    fn = fn.replace('_assign', '')
    if fn in ('shl', 'shr') and not c.oblige(cand(cge(b[1]), cge(b[1].neg().addc(ts['bits'] - 1))), 'call', 'overflow:' + fn):
        return []
    l = c.E.arith(c.st, {'shl': 'Shl', 'shr': 'Shr', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[fn],
                  a[1], b[1], ts, c.site)
    if l is None:
        return None
    if asg:
        r, p, _ = c.place(0)
        c.E.store(c.st, c.fr, r, p, ('i', l), c.site)
        return [(c.st, ('st', None, (c.site, 'unit'), ()))]
    return [(c.st, ('i', l))]


# ------------------------------------------------------------------ Option / Result
def opt_kind(c, ti):
    p = c.T(ti).get('path') if ti is not None else None
    if p == 'core::option::Option':
        return 'o'
    if p == 'core::result::Result':
        return 'r'
    return None


def as_enum(c, v, ti):
    if v is None:
        return None
    if v[0] == 'en':
        return v
    if v[0] == 'op' and ti is not None:
        return ('en', ti, v[1], v[1], ())
    return None


def isv(c, e, vi):
    return ('isv', e[2], (vi,), (0, 1))


def pay(c, e, vi):
    return c.E.payload(c.cr, e, vi, '0')


@suffix('core::ops::try_trait::Try>::branch')
def m_branch(c):
    e = as_enum(c, c.v(0), c.ty(0))
    if e is None:
        return None
    opt = 'Option' in c.name.split(' as ')[0]
    good, bad = (SOME, NONE) if opt else (OK, ERR)
    bt = c.E.field_ty(c.cr, c.T(c.dty), 1, '0')

    def cont():
        return c.en(0, (('0', pay(c, e, good)),))

    def brk():
        res = c.en(bad, () if opt else (('0', pay(c, e, bad)),), ti=bt, tag='r')
        return c.en(1, (('0', res),))
    r = c.outs((isv(c, e, good), cont), (isv(c, e, bad), brk))
    return r


@suffix('FromResidual<core::result::Result<!, E>>>::from_residual')
def m_from_res(c):
    e = as_enum(c, c.v(0), c.ty(0))
    x = pay(c, e, ERR) if e is not None else None
    et = c.E.field_ty(c.cr, c.T(c.dty), 1, '0')
    src_t = c.inner(c.ty(0), 1)
    if x is None or et is None or src_t != et:
        x = c.fresh('e', et) if et is not None else ('op', (c.site, 'e'), None)
    c.E.emit('residual', c.name, c.st, c.fr, (c.callee, c.args, c.t), c.site)
    return [(c.st, c.en(ERR, (('0', x),)))]


@suffix('FromResidual<core::option::Option<!>>>::from_residual')
def m_from_res_o(c):
    return [(c.st, c.none())]


def call_clo(c, f, vals, ti, tag):
    """run a closure in the current state: -> value (state updated) or None when it never returns"""
    outs = c.E.invoke(c.fr, c.st, f, vals, (c.site, 'cl', tag), ti, c.t or {'ln': None, 'to': [0], 'k': 'call'})
    if not outs:
        return None, False
    if len(outs) > 1:
        # join
        ss = []
        for s, v in outs:
            s.mem[(c.site, 'jv', tag)] = v if v is not None else ('op', (c.site, tag), ti)
            ss.append(s)
        j = c.E.join(ss, (c.site, 'clj', tag))
        c.st = j
        v = j.mem.pop((c.site, 'jv', tag), None)
        return v, True
    c.st = outs[0][0]
    v = outs[0][1]
    if v is None and ti is not None:
        v = c.fresh(('clr', tag), ti)
    return v, True


def alts(c, *items):
    """like outs, but a branch may vanish (diverging closure)"""
    res = []
    for cond, f in items:
        s = c.st.copy()
        if cond is not None and not c.E.assume(s, cond):
            continue
        sv, c.st = c.st, s
        try:
            v = f()
        finally:
            s2, c.st = c.st, sv
        if v is not DIVERGED:
            res.append((s2, v))
    return res


DIVERGED = ('diverged',)

OPT = re.compile(r'^core::(option::Option|result::Result)::<[^>]*>::(\w+)$')


def m_optres(c):
    m = OPT.match(c.name)
    if not m:
        return None
    opt = m.group(1).startswith('option')
    fn = m.group(2)
    v0 = c.v(0) if c.args else None
    t0 = c.ty(0) if c.args else None
    byref = False
    if t0 is not None and c.T(t0)['k'] == 'ref':
        byref = True
        rv = v0
        tgt = c.T(t0)['t']
        v0 = c.deref(v0)
    else:
        tgt = t0
    e = as_enum(c, v0, tgt)
    if e is None:
        return None
    G, B = (SOME, NONE) if opt else (OK, ERR)
    g, b = isv(c, e, G), isv(c, e, B)
    P = lambda: pay(c, e, G)
    X = lambda: pay(c, e, B)

    def clo(f, vals, ti, tag):
        v, alive = call_clo(c, f, vals, ti, tag)
        return v if alive else DIVERGED

    def wrap(mk, v):
        return DIVERGED if v is DIVERGED else mk(v)
    if fn in ('is_some', 'is_ok'):
        return [(c.st, ('b', g))]
    if fn in ('is_none', 'is_err'):
        return [(c.st, ('b', b))]
    if fn in ('unwrap', 'expect', 'unwrap_err', 'expect_err'):
        want, pl = (g, P) if 'err' not in fn else (b, X)
        if not c.oblige(want, 'call', ('Option' if opt else 'Result') + '::' + fn):
            return []
        return [(c.st, pl())]
    if fn in ('unwrap_or',):
        return alts(c, (g, P), (b, lambda: c.v(1)))
    if fn == 'unwrap_or_default':
        d = c.T(c.dty)
        dv = ('i', K(0)) if d['k'] == 'int' else (('b', ('c', False)) if d['k'] == 'bool' else None)
        if d.get('path') == 'core::option::Option':
            return alts(c, (g, P), (b, lambda: c.none()))
        if dv is None and d.get('path') in c.E.SEQ:
            dv = ('seq', (c.site, 'dflt'), K(0), None)
        return alts(c, (g, P), (b, lambda: dv if dv is not None else c.fresh('d', c.dty)))
    if fn == 'unwrap_or_else':
        return alts(c, (g, P), (b, lambda: clo(c.v(1), [] if opt else [X()], c.dty, 'f')))
    if fn == 'map':
        it = c.E.field_ty(c.cr, c.T(c.dty), G, '0')
        return alts(c, (g, lambda: wrap(lambda v: c.en(G, (('0', v),)), clo(c.v(1), [P()], it, 'f'))),
                    (b, lambda: c.none() if opt else c.err(X())))
    if fn == 'map_err':
        it = c.E.field_ty(c.cr, c.T(c.dty), ERR, '0')
        return alts(c, (g, lambda: c.ok(P())),
                    (b, lambda: wrap(lambda v: c.err(v), clo(c.v(1), [X()], it, 'f'))))
    if fn == 'and_then':
        return alts(c, (g, lambda: clo(c.v(1), [P()], c.dty, 'f')), (b, lambda: c.none() if opt else c.err(X())))
    if fn == 'or_else':
        return alts(c, (g, lambda: c.en(G, (('0', P()),))), (b, lambda: clo(c.v(1), [] if opt else [X()], c.dty, 'f')))
    if fn == 'or':
        return alts(c, (g, lambda: c.en(G, (('0', P()),))), (b, lambda: c.v(1)))
    if fn == 'and':
        return alts(c, (g, lambda: c.v(1)), (b, lambda: c.none() if opt else c.err(X())))
    if fn == 'map_or':
        return alts(c, (g, lambda: clo(c.v(2), [P()], c.dty, 'f')), (b, lambda: c.v(1)))
    if fn == 'map_or_else':
        return alts(c, (g, lambda: clo(c.v(2), [P()], c.dty, 'f')), (b, lambda: clo(c.v(1), [] if opt else [X()], c.dty, 'd')))
    if fn in ('is_some_and', 'is_ok_and'):
        return alts(c, (g, lambda: clo(c.v(1), [P()], c.dty, 'f')), (b, lambda: ('b', ('c', False))))
    if fn == 'is_none_or':
        return alts(c, (g, lambda: clo(c.v(1), [P()], c.dty, 'f')), (b, lambda: ('b', ('c', True))))
    if fn == 'ok_or':
        return alts(c, (g, lambda: c.ok(P())), (b, lambda: c.err(c.v(1))))
    if fn == 'ok_or_else':
        it = c.E.field_ty(c.cr, c.T(c.dty), ERR, '0')
        return alts(c, (g, lambda: c.ok(P())), (b, lambda: wrap(lambda v: c.err(v), clo(c.v(1), [], it, 'f'))))
    if fn == 'ok':
        return alts(c, (g, lambda: c.some(P())), (b, c.none))
    if fn == 'err':
        return alts(c, (b, lambda: c.some(X())), (g, c.none))
    if fn == 'filter':
        def flt():
            tmp = (c.site, 'fp')
            c.st.mem[tmp] = P()
            v, alive = call_clo(c, c.v(1), [('ref', tmp, (), False)], None, 'f')
            return v if alive else DIVERGED
        return None
    if fn in ('take', 'replace') and byref:
        r, p, x = c.place(0)
        cur = e
        new = c.E.new_enum(c.st, cur[1], (c.site, 'take'), NONE, ()) if fn == 'take' else \
            c.E.new_enum(c.st, cur[1], (c.site, 'take'), SOME, (('0', c.v(1)),))
        c.E.store(c.st, c.fr, r, p, new, c.site)
        return [(c.st, cur)]
    if fn in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and byref:
        r, p, x = c.place(0)
        it = c.E.field_ty(c.cr, c.T(e[1]), G, '0')
        if it is None:
            return None
        mut = fn.endswith('mut')

        def mk(vi):
            ft = c.E.field_ty(c.cr, c.T(e[1]), vi, '0')
            ref = ('ref', r, p + (('vf', vi, '0', ft),), mut)
            if 'deref' in fn and vi == G:
                x = P()
                if x[0] == 'ref':
                    return x
                if x[0] != 'seq':
                    return c.fresh(('dr', vi), c.E.field_ty(c.cr, c.T(c.dty), vi, '0'))
            return ref
        return alts(c, (g, lambda: c.en(G, (('0', mk(G)),))),
                    (b, lambda: c.none() if opt else c.err(mk(ERR))))
    if fn in ('copied', 'cloned'):
        return alts(c, (g, lambda: c.some(c.deref(P()))), (b, c.none)) if opt else \
            alts(c, (g, lambda: c.ok(c.deref(P()))), (b, lambda: c.err(X())))
    if fn == 'zip' and opt:
        return None
    if fn == 'iter' or fn == 'into_iter':
        return None
    if fn == 'insert' and byref:
        r, p, x = c.place(0)
        c.E.store(c.st, c.fr, r, p, c.E.new_enum(c.st, e[1], (c.site, 'ins'), SOME, (('0', c.v(1)),)), c.site)
        ft = c.E.field_ty(c.cr, c.T(e[1]), G, '0')
        return [(c.st, ('ref', r, p + (('vf', SOME, '0', ft),), True))]
    if fn == 'flatten' and opt:
        def inner():
            x = P()
            return x
        return alts(c, (g, inner), (b, c.none))
    if fn == 'xor':
        return None
    return None


def optres(c):
    r = m_optres(c)
    if r is not None:           # the closures it has been given have been run wherever they can be
        for a, _ in c.args[1:]:
            if a is not None and a[0] == 'clo':
                c.E.visited.add(a[1])
    return r


SUFFIX.append(('', lambda c: optres(c) if c.name.startswith(('core::option::Option::<', 'core::result::Result::<')) else None))


@suffix('core::bool::<impl bool>::then_some')
def m_then_some(c):
    b = c.v(0)
    if b[0] != 'b':
        return None
    return c.outs((b[1], lambda: c.some(c.v(1))), (neg(b[1]), c.none))


@suffix('core::bool::<impl bool>::then')
def m_then(c):
    b = c.v(0)
    if b[0] != 'b':
        return None
    it = c.E.field_ty(c.cr, c.T(c.dty), SOME, '0')

    def f():
        v, alive = call_clo(c, c.v(1), [], it, 'f')
        return c.some(v) if alive else DIVERGED
    return alts(c, (b[1], f), (neg(b[1]), c.none))


# ------------------------------------------------------------------ bit fields (modular-bitfield)
BFSPEC = re.compile(r'^modular_bitfield::specifiers::B(\d+)$')


def spec_bits(c):
    ti = c.gen(0)
    if ti is None:
        return None
    t = c.T(ti)
    if t['k'] == 'bool':
        return 1
    m = BFSPEC.match(t.get('path', '') or t['s'])
    return int(m.group(1)) if m else None


@model('modular_bitfield::private::proc::read_specifier')
def m_read_spec(c):
    b = spec_bits(c)
    v = c.v(0)
    if b is None or v[0] != 'ref' or c.T(c.dty)['k'] != 'int':
        return None
    key = None
    ps = c.E.parents.get(v[1][1]) if v[1][0] == 'o' and len(v[1]) > 1 else None
    if ps and len(ps) == 1:
        key = c.E.load(c.st, c.cr, ps[0][0], ps[0][1])
    if key is None or key[0] != 'seq':
        return [(c.st, ('i', c.fint('bf', 0, (1 << b) - 1)))]
    return [(c.st, ('i', V(sym(('bf', key, c.v(1), b), 0, (1 << b) - 1))))]


@suffix('modular_bitfield::Specifier>::from_bytes', 'Specifier for bool>::from_bytes')
def m_spec_from(c):
    b = spec_bits(c)
    v = c.v(0)
    if b is None or v[0] != 'i':
        return None
    it = c.E.field_ty(c.cr, c.T(c.dty), OK, '0')
    if c.T(it)['k'] == 'bool':
        return c.outs((cge(K(1).sub(v[1])), lambda: c.ok(('b', cge(v[1].addc(-1))))),
                      (cge(v[1].addc(-2)), lambda: c.err(c.fresh('e', c.E.field_ty(c.cr, c.T(c.dty), ERR, '0')))))
    if c.T(it)['k'] != 'int':
        return None
    mx = K((1 << b) - 1)
    return c.outs((cge(mx.sub(v[1])), lambda: c.ok(v)),
                  (cge(v[1].sub(mx).addc(-1)), lambda: c.err(c.fresh('e', c.E.field_ty(c.cr, c.T(c.dty), ERR, '0')))))


@suffix('modular_bitfield::Specifier>::into_bytes', 'Specifier for bool>::into_bytes')
def m_spec_into(c):
    b = spec_bits(c)
    v = c.v(0)
    if b is None:
        return None
    ot = c.E.field_ty(c.cr, c.T(c.dty), OK, '0')
    if v[0] == 'b':
        return [(c.st, c.ok(('i', c.fint('bb', 0, 1))))]
    if v[0] != 'i':
        return None
    mx = K((1 << b) - 1)
    return c.outs((cge(mx.sub(v[1])), lambda: c.ok(v)),
                  (cge(v[1].sub(mx).addc(-1)), lambda: c.err(c.fresh('e', c.E.field_ty(c.cr, c.T(c.dty), ERR, '0')))))


@model('binrw::__private::assert')
def m_binrw_assert(c):
    b = c.v(0)
    if b[0] != 'b':
        return None
    ti = c.E.field_ty(c.cr, c.T(c.dty), 1, '0')
    return c.outs((b[1], lambda: c.ok(('st', c.E.field_ty(c.cr, c.T(c.dty), 0, '0'), (c.site, 'u'), ()))),
                  (neg(b[1]), lambda: c.err(c.fresh('e', ti))))


# ------------------------------------------------------------------ memory
@model('core::mem::size_of', 'core::mem::align_of')
def m_size_of(c):
    ti = c.argty(0)
    if ti is None:
        ti = c.gen(0)
    n = size_of(c, ti)
    if n is not None and 'size' in c.name:
        return [(c.st, ('i', K(n)))]
    return [(c.st, ('i', V(sym(('sizeof', c.name[-8:], ti, c.E.subst_sig(c.fr)), 0, 1 << 32))))]


def size_of(c, ti):
    if ti is None:
        return None
    t = c.T(ti)
    if t['k'] == 'int':
        return t['bits'] // 8
    if t['k'] == 'bool':
        return 1
    if t['k'] == 'array' and 'n' in t:
        x = size_of(c, t['t'])
        return x * t['n'] if x is not None else None
    if t['k'] == 'adt':
        a = c.cr.adts.get(t['path'])
        if a and 'size' in a and not a.get('generics'):
            return a['size']
    if t['k'] == 'tuple' and not t['ts']:
        return 0
    return None


@model('core::mem::take')
def m_take(c):
    r, p, x = c.place1(0)
    if r is None or x is None:
        return None
    ti = c.dty
    t = c.T(ti)
    if t['k'] == 'int':
        nv = ('i', K(0))
    elif t.get('path') in c.E.SEQ:
        nv = ('seq', (c.site, 'e'), K(0), None)
    elif t['k'] == 'ref' and c.T(t['t'])['k'] in ('slice', 'str'):
        tmp = ('o', (c.site, 'empty'), t['t'])
        c.st.mem[tmp] = ('seq', (c.site, 'e'), K(0), None)
        nv = ('ref', tmp, (), t['mut'])
    elif t.get('path') == 'core::option::Option':
        nv = c.E.new_enum(c.st, ti, (c.site, 'tk'), NONE, ())
    elif t['k'] == 'bool':
        nv = ('b', ('c', False))
    else:
        nv = c.E.fresh(c.cr, (c.site, 'tk'), ti)
    c.E.store(c.st, c.fr, r, p, nv, c.site)
    return [(c.st, x)]


@model('core::mem::replace')
def m_replace(c):
    r, p, x = c.place1(0)
    if r is None or x is None:
        return None
    c.E.store(c.st, c.fr, r, p, c.v(1), c.site)
    return [(c.st, x)]


@model('core::mem::swap')
def m_swap(c):
    r, p, x = c.place1(0)
    r2, p2, y = c.place1(1)
    if r is None or r2 is None or x is None or y is None:
        return None
    c.E.store(c.st, c.fr, r, p, y, c.site)
    c.E.store(c.st, c.fr, r2, p2, x, c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('core::clone::Clone::clone', '::clone', 'ToOwned>::to_owned', '::to_vec', '::to_owned')
def m_clone(c):
    if len(c.args) != 1 or c.E.local_fn(c.fr, c.callee) is not None:
        return None
    v = c.v(0)
    if v[0] != 'ref':
        return None
    x = c.E.load(c.st, c.cr, v[1], v[2])
    if x is None:
        return None
    if x[0] in ('i', 'b', 'seq', 'en', 'st', 'clo', 'fn'):
        if x[0] == 'seq' and x[1] and x[1][0] in ('cs', 'cb'):
            return [(c.st, x)]
        if x[0] == 'seq' and c.dty is not None and c.T(c.dty)['k'] != 'array':
            return [(c.st, x[:4])]
        return [(c.st, x)]
    return None


@suffix('core::default::Default::default', 'Default>::default')
def m_default(c):
    if c.dty is None or c.E.local_fn(c.fr, c.callee) is not None:
        return None
    t = c.T(c.dty)
    if t['k'] == 'int':
        return [(c.st, ('i', K(0)))]
    if t['k'] == 'bool':
        return [(c.st, ('b', ('c', False)))]
    if t.get('path') in c.E.SEQ:
        return [(c.st, ('seq', (c.site, 'e'), K(0), None))]
    if t.get('path') == 'core::option::Option':
        return [(c.st, c.none())]
    return None


# ------------------------------------------------------------------ collections
@suffix('alloc::vec::Vec::<T>::new', 'alloc::string::String::new')
def m_vec_new(c):
    return [(c.st, ('seq', (c.site, 'new'), K(0), None))]


def alloc_note(c, l, what, esz=None):
    c.E.emit('alloc', what, c.st, c.fr, (l, esz), c.site)


@suffix('alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::with_capacity')
def m_with_cap(c):
    a = c.v(0)
    if a[0] == 'i':
        esz = 1 if 'String' in c.name else size_of(c, c.argty(0)) or 64
        c.oblige(cge(a[1].scale(esz).neg().addc(ISIZE)), 'call', 'with_capacity:capacity overflow')
        c.E.emit('alloc', 'with_capacity', c.st, c.fr, (a[1], c.t), c.site)
    return [(c.st, ('seq', (c.site, 'new'), K(0), None))]


@suffix('alloc::vec::from_elem')
def m_from_elem(c):
    a = c.v(1)
    if a[0] != 'i':
        return None
    esz = size_of(c, c.argty(0)) or 64
    c.oblige(cge(a[1].scale(esz).neg().addc(ISIZE)), 'call', 'from_elem:capacity overflow')
    c.E.emit('alloc', 'from_elem', c.st, c.fr, (a[1], c.t), c.site)
    x = c.v(0)
    return [(c.st, ('seq', (c.site, 'new'), a[1], x if x[0] == 'i' else None))]


@suffix('alloc::str::<impl str>::repeat', 'alloc::slice::<impl [T]>::repeat')
def m_repeat(c):
    s, n = c.seq(0), c.v(1)
    if s is None or n[0] != 'i':
        return None
    l = c.E.arith(c.st, 'Mul', s[2], n[1], {'k': 'int', 'bits': 64, 'signed': False, 's': 'usize'}, c.site)
    if not c.oblige(cge(l.neg().addc(ISIZE)), 'call', 'repeat:capacity overflow'):
        return []
    c.E.emit('alloc', 'repeat', c.st, c.fr, (l, c.t), c.site)
    return [(c.st, ('seq', (c.site, 'rep'), l, None))]


@suffix('Vec::<T, A>::len', 'slice::<impl [T]>::len', 'str::<impl str>::len', 'String::len', 'Path::len')
def m_len(c):
    s = c.seq(0)
    return [(c.st, ('i', s[2]))] if s is not None else None


@suffix('Vec::<T, A>::is_empty', 'slice::<impl [T]>::is_empty', 'str::<impl str>::is_empty', 'String::is_empty')
def m_is_empty(c):
    s = c.seq(0)
    return [(c.st, ('b', ceq(s[2])))] if s is not None else None


@suffix('Vec<T, A> as core::ops::deref::Deref>::deref', 'Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
        'String as core::ops::deref::Deref>::deref', 'Vec::<T, A>::as_slice', 'Vec::<T, A>::as_mut_slice',
        'String::as_str', 'String::as_bytes', 'str::<impl str>::as_bytes', 'String::as_mut_str',
        'String as core::ops::deref::DerefMut>::deref_mut', 'String::into_bytes', 'String::into_boxed_str',
        'core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice',
        'Vec<T, A> as core::convert::AsRef<[T]>>::as_ref', 'core::borrow::Borrow<[T]>>::borrow',
        'String as core::convert::AsRef<str>>::as_ref', 'str as core::convert::AsRef<[u8]>>::as_ref',
        'Vec<T, A> as core::convert::AsMut<[T]>>::as_mut', 'core::convert::AsRef<[T]>>::as_ref', 'Vec::<T, A>::into_boxed_slice')
def m_deref_seq(c):
    v = c.v(0)
    if v[0] == 'seq':
        return [(c.st, v)]
    r, p, x = c.place(0)
    if r is None or x is None or x[0] != 'seq':
        return None
    return [(c.st, ('ref', r, p, v[3]))]


@suffix('<core::ops::deref::Deref>::deref', 'core::ops::deref::Deref::deref')
def m_deref_gen(c):
    return None


@suffix('Vec::<T, A>::push')
def m_push(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq':
        return None
    el = x[3] if x[3] is not None and x[3] == c.v(1) else None
    c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'psh'), x[2].addc(1), el), c.site)
    c.E.add_fact(c.st, x[2].addc(1).neg().addc(LENMAX))
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('Vec::<T, A>::pop')
def m_pop(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq':
        return None

    def y():
        c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'pop'), x[2].addc(-1), None), c.site)
        return c.some(c.fresh('el', c.inner(c.dty)))
    return c.outs((cge(x[2].addc(-1)), y), (ceq(x[2]), c.none))


@suffix('Vec::<T, A>::clear', 'String::clear')
def m_clear(c):
    r, p, x = c.place(0)
    if r is None:
        return None
    c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'clr'), K(0), None), c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('Vec::<T, A>::truncate')
def m_truncate(c):
    r, p, x = c.place(0)
    n = c.v(1)
    if x is None or x[0] != 'seq' or n[0] != 'i':
        return None

    def y():
        c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'trc'), n[1], None), c.site)
        return ('st', None, (c.site, 'u'), ())
    return c.outs((cge(x[2].sub(n[1]).addc(-1)), y), (cge(n[1].sub(x[2])), lambda: ('st', None, (c.site, 'u'), ())))


@suffix('Vec::<T, A>::extend_from_slice', 'Vec::<T, A>::append')
def m_extend(c):
    r, p, x = c.place(0)
    s = c.seq(1)
    if x is None or x[0] != 'seq':
        return None
    l = x[2].add(s[2]) if s is not None else c.fint('xl', 0, LENMAX)
    c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'ext'), l, None), c.site)
    c.E.add_fact(c.st, l.neg().addc(LENMAX))
    if c.name.endswith('append'):
        r2, p2, y = c.place(1)
        if r2 is not None:
            c.E.store(c.st, c.fr, r2, p2, ('seq', (c.site, 'emp'), K(0), None), c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('Vec::<T, A>::resize')
def m_resize(c):
    r, p, x = c.place(0)
    n = c.v(1)
    if x is None or x[0] != 'seq' or n[0] != 'i':
        return None
    esz = size_of(c, c.argty(0)) or 64
    c.oblige(cge(n[1].scale(esz).neg().addc(ISIZE)), 'call', 'resize:capacity overflow')
    c.E.emit('alloc', 'resize', c.st, c.fr, (n[1], c.t), c.site)
    c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'rsz'), n[1], None), c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('Vec::<T, A>::reserve', 'Vec::<T, A>::reserve_exact', 'String::reserve')
def m_reserve(c):
    n = c.v(1)
    if n[0] == 'i':
        c.E.emit('alloc', 'reserve', c.st, c.fr, (n[1], c.t), c.site)
        c.oblige(cge(n[1].scale(64).neg().addc(ISIZE)), 'call', 'reserve:capacity overflow')
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('Vec::<T, A>::remove', 'Vec::<T, A>::swap_remove', 'Vec::<T, A>::insert')
def m_vremove(c):
    r, p, x = c.place(0)
    n = c.v(1)
    if x is None or x[0] != 'seq' or n[0] != 'i':
        return None
    ins = c.name.endswith('insert')
    if not c.oblige(cge(x[2].sub(n[1]).addc(0 if ins else -1)), 'call', c.name.rsplit('::', 1)[-1]):
        return []
    c.E.store(c.st, c.fr, r, p, ('seq', (c.site, 'rm'), x[2].addc(1 if ins else -1), None), c.site)
    return [(c.st, c.fresh('el', c.dty) if not ins else ('st', None, (c.site, 'u'), ()))]


def elref(c, tag, r, p, mut, elty):
    """a fresh reference to some element of the collection at (r, p)"""
    key = (c.site, tag)
    if r is not None:
        c.E.parents[key] = [(r, p, 'el')]
    x = c.E.load(c.st, c.cr, r, p) if r is not None else None
    o = ('o', key, elty)
    if x is not None and x[0] == 'seq' and x[3] is not None and x[3][0] != 'arr':
        c.st.mem[o] = x[3]
    else:
        c.st.mem.pop(o, None)
    return ('ref', o, (), mut)


@suffix('slice::<impl [T]>::get', 'slice::<impl [T]>::get_mut', 'slice::<impl [T]>::first', 'slice::<impl [T]>::last',
        'slice::<impl [T]>::first_mut', 'slice::<impl [T]>::last_mut', 'str::<impl str>::get')
def m_get(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq':
        return None
    mut = c.name.endswith('mut')
    it = c.inner(c.dty)
    if it is None:
        return None
    elty = c.inner(it)
    fn = c.name.rsplit('::', 1)[-1]
    if 'get' in fn:
        n = c.v(1)
        if n[0] == 'i':
            return c.outs((cge(x[2].sub(n[1]).addc(-1)), lambda: c.some(elref(c, 'el', r, p, mut, elty))),
                          (cge(n[1].sub(x[2])), c.none))
        lo, hi, cond = range_of(c, n, c.ty(1), x[2])
        if lo is None:
            return None
        ok = cand(cge(hi.sub(lo)), cge(x[2].sub(hi)))
        if 'str>' in c.name:
            return c.outs((ok, lambda: c.some(subseq(c, r, p, hi.sub(lo), mut, elty))), (None, c.none))
        return c.outs((ok, lambda: c.some(subseq(c, r, p, hi.sub(lo), mut, elty))), (neg(ok), c.none))
    return c.outs((cge(x[2].addc(-1)), lambda: c.some(elref(c, 'el', r, p, mut, elty))), (ceq(x[2]), c.none))


def subseq(c, r, p, ln, mut, ty, tag='ss'):
    key = (c.site, tag)
    c.E.parents[key] = [(r, p, 'el')]
    o = ('o', key, ty)
    c.st.mem[o] = ('seq', key, ln, None)
    return ('ref', o, (), mut)


def range_of(c, v, ti, ln):
    """bounds [lo, hi) denoted by a range value over a sequence of length ln"""
    t = c.T(ti) if ti is not None else None
    if t is None or t['k'] != 'adt':
        return None, None, None
    p = t['path'].rsplit('::', 1)[-1]
    g = lambda n: c.E.field(c.cr, v, n, t['args'][0] if t['args'] else None)
    if p == 'RangeFull':
        return K(0), ln, None
    try:
        if p == 'Range':
            return g('start')[1], g('end')[1], None
        if p == 'RangeFrom':
            return g('start')[1], ln, None
        if p == 'RangeTo':
            return K(0), g('end')[1], None
        if p == 'RangeInclusive':
            return g('start')[1], g('end')[1].addc(1), None
        if p == 'RangeToInclusive':
            return K(0), g('end')[1].addc(1), None
    except (TypeError, IndexError, AttributeError):
        pass
    return None, None, None


def m_index(c):
    r, p, x = c.place(0)
    n = c.v(1)
    mut = c.name.endswith('mut')
    what = 'index'
    if x is not None and x[0] == 'seq':
        if n[0] == 'i':
            if not c.oblige(cge(x[2].sub(n[1]).addc(-1)), 'call', 'index'):
                return []
            return [(c.st, elref(c, 'el', r, p, mut, c.inner(c.dty)))]
        lo, hi, _ = range_of(c, n, c.ty(1), x[2])
        if lo is not None:
            ok = cand(cge(hi.sub(lo)), cge(x[2].sub(hi)))
            t0 = c.T(c.T(c.ty(0))['t']) if c.T(c.ty(0))['k'] == 'ref' else None
            if t0 is not None and (t0['k'] == 'str' or t0.get('path') == 'alloc::string::String') and \
                    not (c.E.decide(c.st, ceq(lo)) and c.E.decide(c.st, ceq(hi.sub(x[2])))):
                c.E.oblige(c.fr, c.site, 'call', 'str index', c.t, False, 'slice may split a character')
                return [(c.st, subseq(c, r, p, c.fint('sl', 0, LENMAX), mut, c.inner(c.dty)))]
            if not c.oblige(ok, 'call', 'slice index'):
                return []
            return [(c.st, subseq(c, r, p, hi.sub(lo), mut, c.inner(c.dty)))]
    c.E.oblige(c.fr, c.site, 'call', 'index', c.t, False, 'index on a collection of unknown contents')
    return None


SUFFIX.append(('', lambda c: m_index(c) if c.name.endswith(('::index', '::index_mut')) and 'ops::index::Index' in c.name
               and c.E.local_fn(c.fr, c.callee) is None else None))


@suffix('slice::<impl [T]>::split_at', 'slice::<impl [T]>::split_at_mut', 'slice::<impl [T]>::split_at_checked',
        'slice::<impl [T]>::split_at_mut_checked')
def m_split_at(c):
    r, p, x = c.place(0)
    n = c.v(1)
    if x is None or x[0] != 'seq' or n[0] != 'i':
        return None
    chk = c.name.endswith('checked')
    mut = 'mut' in c.name
    tt = c.inner(c.dty) if chk else c.dty
    ts = c.T(tt)['ts']
    sl = c.T(ts[0])['t']

    def pair():
        return ('st', tt, (c.site, 'pr'), ((0, subseq(c, r, p, n[1], mut, sl, 'a')),
                                           (1, subseq(c, r, p, x[2].sub(n[1]), mut, sl, 'b'))))
    ok = cge(x[2].sub(n[1]))
    if chk:
        return c.outs((ok, lambda: c.some(pair())), (neg(ok), c.none))
    if not c.oblige(ok, 'call', 'split_at'):
        return []
    return [(c.st, pair())]


@suffix('slice::<impl [T]>::split_first', 'slice::<impl [T]>::split_first_mut', 'slice::<impl [T]>::split_last',
        'slice::<impl [T]>::split_last_mut')
def m_split_first(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq':
        return None
    mut = 'mut' in c.name
    tt = c.inner(c.dty)
    ts = c.T(tt)['ts']

    def y():
        return c.some(('st', tt, (c.site, 'pr'), ((0, elref(c, 'a', r, p, mut, c.inner(ts[0]))),
                                                  (1, subseq(c, r, p, x[2].addc(-1), mut, c.inner(ts[1]), 'b')))))
    return c.outs((cge(x[2].addc(-1)), y), (ceq(x[2]), c.none))


@suffix('slice::<impl [T]>::copy_from_slice', 'slice::<impl [T]>::clone_from_slice')
def m_copy_from_slice(c):
    r, p, x = c.place(0)
    s = c.seq(1)
    if x is None or x[0] != 'seq' or s is None:
        return None
    if not c.oblige(ceq(x[2].sub(s[2])), 'call', 'copy_from_slice'):
        return []
    if 'elstore' in c.E.hooks:
        c.E.hooks['elstore'](c.E, c.st, r, p, None, None)
    c.E.havoc_elems(c.st, c.fr, r, p, c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('slice::<impl [T]>::swap')
def m_sswap(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq' or c.v(1)[0] != 'i' or c.v(2)[0] != 'i':
        return None
    for i in (1, 2):
        if not c.oblige(cge(x[2].sub(c.v(i)[1]).addc(-1)), 'call', 'swap'):
            return []
    if 'elstore' in c.E.hooks:
        c.E.hooks['elstore'](c.E, c.st, r, p, None, None)
    c.E.havoc_elems(c.st, c.fr, r, p, c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('slice::<impl [T]>::fill', 'slice::<impl [T]>::reverse', 'slice::<impl [T]>::sort', 'slice::<impl [T]>::sort_unstable',
        'slice::<impl [T]>::swap_with_slice')
def m_fill(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq' or c.name.endswith('swap_with_slice'):
        return None
    if 'elstore' in c.E.hooks:
        c.E.hooks['elstore'](c.E, c.st, r, p, None, None)
    c.E.havoc_elems(c.st, c.fr, r, p, c.site)
    return [(c.st, ('st', None, (c.site, 'u'), ()))]


@suffix('str::<impl str>::split_at')
def m_str_split_at(c):
    return None


# ------------------------------------------------------------------ binrw / io
def io_result(c, n):
    """Ok(n) / Err of an io call that yields a position"""
    return lambda: c.ok(('i', n))


@suffix('Seek::stream_position', 'Seek>::stream_position')
def m_stream_pos(c):
    if c.E.local_fn(c.fr, c.callee) is not None:
        return None
    r, p, x = c.place(0)
    if r is None:
        return None
    E = c.E
    k = ('iop', r, p)
    old = c.st.mem.get(k)
    n = old[1] if old is not None else V(sym((c.site, 'pos'), 0, E.IOMAX))
    et = E.field_ty(c.cr, c.T(c.dty), ERR, '0')

    def good():
        c.st.mem[k] = ('i', n)
        return c.ok(('i', n))

    def bad():
        c.st.mem[k] = ('i', n)          # asking for the position does not move the stream
        return c.err(c.fresh('e', et))
    return c.outs((None, good), (None, bad))


@suffix('Seek::seek', 'Seek>::seek')
def m_seek(c):
    if c.E.local_fn(c.fr, c.callee) is not None:
        return None
    r, p, x = c.place(0)
    w = c.v(1)
    if r is None or w[0] != 'en':
        return None
    E = c.E
    k = ('iop', r, p)
    old = c.st.mem.get(k)
    vs = c.st.vars.get(w[2])
    n = None
    wt = c.ty(1)
    if vs is not None and len(vs) == 1:
        vi = next(iter(vs))
        pv = E.payload(c.cr, w, vi, '0')
        if vi == 0 and pv is not None and pv[0] == 'i':
            n = pv[1]
        elif vi == 2 and pv is not None and pv[0] == 'i' and old is not None:
            n = old[1].add(pv[1])
    outs = E.unknown_call(c.fr, c.st, [c.args[0]], c.site, c.dty, c.name)
    c.st = outs[0][0]
    et = E.field_ty(c.cr, c.T(c.dty), ERR, '0')
    if n is None:
        n = V(sym((c.site, 'pos'), 0, E.IOMAX))

    def good():
        E.iop_drop(c.st, r, p)
        E.add_fact(c.st, n)
        E.add_fact(c.st, K(E.IOMAX).sub(n))
        c.st.mem[k] = ('i', n)
        return c.ok(('i', n))

    def bad():
        E.iop_drop(c.st, r, p)
        c.st.mem[k] = ('i', V(sym((c.site, 'epos'), 0, E.IOMAX)))
        return c.err(c.fresh('e', et))
    return c.outs((None, good), (None, bad))


@suffix('Read::read')
def m_io_read(c):
    """io::Read::read returns at most the length of the buffer (trait contract)"""
    if len(c.args) < 2:
        return None
    r, p, x = c.place(1)
    if x is None or x[0] != 'seq':
        return None
    outs = c.E.unknown_call(c.fr, c.st, [c.args[0]], c.site, c.dty, c.name)
    st, v = outs[0]
    c.E.havoc_elems(st, c.fr, r, p, (c.site, 'rd'))
    c.E.emit('io', 'read', st, c.fr, (c.args, c.t), c.site)
    n = c.fint('n', 0, LENMAX)
    c.st = st
    ut = c.inner(c.dty)

    def good():
        c.E.add_fact(c.st, x[2].sub(n))
        return c.ok(('i', n))
    return c.outs((None, good), (None, lambda: c.err(c.fresh('e', c.inner(c.dty, 1)))))


@suffix('Write::write')
def m_io_write(c):
    if len(c.args) < 2:
        return None
    s = c.seq(1)
    if s is None:
        return None
    outs = c.E.unknown_call(c.fr, c.st, [c.args[0]], c.site, c.dty, c.name)
    st, v = outs[0]
    c.E.emit('io', 'write', st, c.fr, (c.args, c.t), c.site)
    n = c.fint('n', 0, LENMAX)
    c.st = st

    def good():
        c.E.add_fact(c.st, s[2].sub(n))
        return c.ok(('i', n))
    return c.outs((None, good), (None, lambda: c.err(c.fresh('e', c.inner(c.dty, 1)))))


@suffix('Read::read_exact', 'Read::read_exact_')
def m_read_exact(c):
    r, p, x = c.place(1)
    if x is None or x[0] != 'seq':
        return None
    outs = c.E.unknown_call(c.fr, c.st, [c.args[0]], c.site, c.dty, c.name)
    st, v = outs[0]
    c.E.havoc_elems(st, c.fr, r, p, (c.site, 'rd'))
    return [(st, v)]


# ------------------------------------------------------------------ strings
@suffix('str::<impl str>::encode_utf16', 'str::<impl str>::chars', 'str::<impl str>::bytes', 'str::<impl str>::char_indices')
def m_str_iter(c):
    s = c.seq(0)
    if s is None:
        return None
    kind = c.name.rsplit('::', 1)[-1]
    return [(c.st, ('it', 'str', kind, c.v(0), s[2]))]


@suffix('str::<impl str>::trim_end_matches', 'str::<impl str>::trim_start_matches', 'str::<impl str>::trim',
        'str::<impl str>::trim_end', 'str::<impl str>::trim_start', 'str::<impl str>::trim_matches')
def m_trim(c):
    r, p, x = c.place(0)
    if x is None or x[0] != 'seq':
        return None
    l = c.fint('tl', 0, LENMAX)
    c.E.add_fact(c.st, x[2].sub(l))
    ty = c.inner(c.dty)
    return [(c.st, subseq(c, r, p, l, False, ty))]


@suffix('core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
def m_from_utf8(c):
    s = c.seq(0)
    if s is None:
        return None
    v = c.v(0)

    def good():
        return c.ok(v if v[0] == 'ref' else v)
    return c.outs((None, good), (None, lambda: c.err(c.fresh('e', c.inner(c.dty, 1)))))


# ------------------------------------------------------------------ iterators
def iter_of(c, v, ti, mut=False):
    """iterator abstraction over a value used as IntoIterator"""
    if v is None:
        return None
    if v[0] == 'it':
        return v
    t = c.T(ti) if ti is not None else None
    if v[0] == 'st' and t is not None and t.get('path') in ('core::ops::range::Range', 'core::ops::range::RangeInclusive'):
        return None
    if v[0] == 'ref':
        x = c.E.load(c.st, c.cr, v[1], v[2])
        if x is not None and x[0] == 'seq':
            return ('it', 'seq', 'mut' if v[3] else 'ref', v[1], v[2], x[2])
        if x is not None and x[0] == 'ref':
            return iter_of(c, x, c.T(ti)['t'] if t else None)
    if v[0] == 'seq':
        return ('it', 'seq', 'own', None, None, v[2], v[3], v[1])
    return None


def seq_key(c, it):
    """identity of the sequence a plain sequence iterator walks over"""
    if it is None or it[0] != 'it' or it[1] != 'seq':
        return None
    if it[2] == 'own':
        return it[7] if len(it) > 7 else None
    x = c.E.load(c.st, c.cr, it[3], it[4])
    return x[1] if x is not None and x[0] == 'seq' else None


def restrict_item(c, it, x):
    """what is known about all elements of a sequence holds for the item"""
    k = seq_key(c, it)
    if k is None or x is None or x is DIVERGED:
        return x
    e = c.deref(x)
    if e is None or e[0] != 'en':
        return x
    for q, vs in list(c.st.vars.items()):
        if isinstance(q, tuple) and len(q) == 3 and q[0] == 'any' and q[1] == k and vs == frozenset((0,)):
            al = c.E.all_variants(c.cr, e[1])
            if al is None:
                continue
            cur = c.st.vars.get(e[3], frozenset(al))
            c.st.vars[e[3]] = frozenset(cur) - q[2]
    return x


def variant_split(c, it, iti, clo, ety, byref, tag):
    """for every variant of an item: the outcomes of the closure -> {variant: [value summary]} or None"""
    s0 = c.st
    c.st = s0.copy()
    try:
        x = item_of(c, it, iti, ety, (tag, 'probe'))
        if x is None and ety is not None:
            x = c.fresh((tag, 'px'), ety)
        if x is None or x is DIVERGED:
            return None
        e = c.deref(x)
        if e is None or e[0] != 'en':
            return None
        al = c.E.all_variants(c.cr, e[1])
        if not al:
            return None
        base = c.st
        res = {}
        for vi in al:
            s = base.copy()
            if not c.E.assume(s, ('isv', e[2], (vi,), tuple(al))):
                continue
            c.st = s
            arg = x
            if byref:
                tmp = (c.site, 'vsp', tag)
                c.st.mem[tmp] = x
                arg = ('ref', tmp, (), False)
            outs = c.E.invoke(c.fr, c.st, clo, [arg], (c.site, 'vs', tag, vi), None,
                              c.t or {'ln': None, 'to': [0], 'k': 'call'})
            res[vi] = outs
        return res
    finally:
        c.st = s0


def quantified(c, fn, it, iti, clo, ety):
    """any/all/find_map over a sequence whose closure only looks at the variant of the item"""
    k = seq_key(c, it)
    if k is None:
        return None
    sp = variant_split(c, it, iti, clo, ety, False, ('q', fn))
    if not sp:
        return None
    E = c.E
    if fn in ('any', 'all'):
        yes = set()
        for vi, outs in sp.items():
            vals = set()
            for s, v in outs:
                if v is None or v[0] != 'b':
                    return None
                for want in (True, False):
                    s2 = s.copy()
                    if E.assume(s2, v[1] if want else neg(v[1])):
                        vals.add(want)
            if len(vals) > 1:
                return None
            if vals == {fn == 'any'}:
                yes.add(vi)
        q = ('any', k, frozenset(yes))
        # 'any' is true when some item has one of the variants; 'all' is true when none has one of the others
        return [(c.st, ('b', ('isv', q, ((1,) if fn == 'any' else (0,)), (0, 1))))]
    some = set()
    pay = None
    for vi, outs in sp.items():
        vals = set()
        for s, v in outs:
            if v is None or v[0] != 'en':
                return None
            vals |= set(s.vars.get(v[3], (0, 1)))
        if len(vals) > 1:
            return None
        if vals == {SOME}:
            some.add(vi)
    for q, vs in list(c.st.vars.items()):
        if isinstance(q, tuple) and len(q) == 3 and q[0] == 'any' and q[1] == k and vs == frozenset((1,)) and q[2] <= some:
            return [(c.st, c.some(c.fresh('fm', c.inner(c.dty))))]
    return None


@suffix('core::array::<impl [T; N]>::map')
def m_array_map(c):
    v = c.v(0)
    if v[0] != 'seq':
        return None
    E = c.E
    clo = c.v(1)
    it = ('it', 'seq', 'own', None, None, v[2], v[3], v[1])
    x = item_of(c, it, None, c.inner(c.ty(0)), 'am')
    if x is None:
        x = c.fresh('ami', c.inner(c.ty(0)))
    if clo[0] == 'clo' and x is not DIVERGED:
        E.closure_anytime(c.fr, c.st, clo, (c.site, 'amc'), argvals=[x])
    elif x is not DIVERGED:
        E.unknown_call(c.fr, c.st, [(clo, None)], (c.site, 'amu'), None, 'array map')
    return [(c.st, ('seq', (c.site, 'am'), v[2], None, 'fix'))]


@suffix('slice::<impl [T]>::iter', 'slice::<impl [T]>::iter_mut', 'Vec::<T, A>::iter')
def m_iter(c):
    it = iter_of(c, c.v(0), c.ty(0))
    return [(c.st, it)] if it is not None else None


@suffix('::into_iter')
def m_into_iter(c):
    if c.E.local_fn(c.fr, c.callee) is not None:
        return None
    v = c.v(0)
    it = iter_of(c, v, c.ty(0))
    if it is not None:
        return [(c.st, it)]
    if v[0] == 'st' and c.ty(0) == c.dty:
        return [(c.st, v)]
    if c.ty(0) == c.dty:
        return [(c.st, v)]
    return None


def is_range(c, ti):
    return ti is not None and c.T(ti).get('path') == 'core::ops::range::Range'


def rng(c, v, ti):
    a = c.T(ti)['args'][0]
    return c.E.field(c.cr, v, 'start', a), c.E.field(c.cr, v, 'end', a), a


ADAPT1 = {'map', 'filter', 'filter_map', 'flat_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'scan',
          'for_each', 'any', 'all', 'find', 'find_map', 'position', 'try_for_each', 'fold', 'try_fold', 'max_by_key',
          'min_by_key', 'rposition', 'partition', 'reduce', 'sum', 'product', 'collect', 'count', 'eq', 'last', 'min', 'max'}


def item_of(c, it, ti, ety, tag):
    """the value of an arbitrary item of iterator `it` (facts are added to c.st)"""
    E = c.E
    if it is None:
        return None
    if it[0] == 'st' and is_range(c, ti):
        s, e, a = rng(c, it, ti)
        if s[0] == 'i' and e[0] == 'i':
            lo, hi = E.int_range(c.T(a))
            x = c.fint(('it', tag), lo, hi)
            E.add_fact(c.st, x.sub(s[1]))
            E.add_fact(c.st, e[1].sub(x).addc(-1))
            return ('i', x)
        return None
    if it[0] != 'it':
        return None
    k = it[1]
    if k == 'seq':
        mode, r, p = it[2], it[3], it[4]
        if mode == 'own':
            if it[6] is not None and it[6][0] != 'arr':
                return it[6]
            if it[6] is not None and ety is not None and it[6][0] == 'arr':
                return join_elems(c, it[6][1], ety, tag)
            return E.fresh(c.cr, (c.site, 'it', tag), ety) if ety is not None else None
        et = c.inner(ety) if ety is not None else None
        if et is None:
            x = E.load(c.st, c.cr, r, p)
            if x is not None and x[0] == 'seq' and x[3] is not None and x[3][0] == 'i':
                et = None
            return None
        ref = elref(c, ('it', tag), r, p, mode == 'mut', et)
        x = E.load(c.st, c.cr, r, p)
        if x is not None and x[0] == 'seq' and x[3] is not None and x[3][0] == 'arr' and mode == 'ref':
            j = join_elems(c, x[3][1], et, tag)
            if j is not None:
                c.st.mem[ref[1]] = j
        return ref
    if k == 'str':
        if it[2] == 'chars':
            return ('i', c.fint(('it', tag), 0, 0x10ffff))
        if it[2] == 'bytes':
            return ('i', c.fint(('it', tag), 0, 255))
        if it[2] == 'encode_utf16':
            return ('i', c.fint(('it', tag), 0, 65535))
        return None
    if k == 'enum':
        inner, iti = it[2], it[3]
        iet = c.T(ety)['ts'][1] if ety is not None and c.T(ety)['k'] == 'tuple' else None
        x = item_of(c, inner, iti, iet, (tag, 0))
        n = c.fint(('ix', tag), 0, USIZE)
        ub = count_ub(c, inner, iti)
        if ub is not None:
            E.add_fact(c.st, ub.sub(n).addc(-1))
        if x is None:
            x = E.fresh(c.cr, (c.site, 'it', tag), iet) if iet is not None else ('op', (c.site, 'it', tag), None)
        return ('st', ety, (c.site, 'en', tag), ((0, ('i', n)), (1, x)))
    if k == 'zip':
        ts = c.T(ety)['ts'] if ety is not None and c.T(ety)['k'] == 'tuple' else (None, None)
        a = item_of(c, it[2], it[3], ts[0], (tag, 0))
        b = item_of(c, it[4], it[5], ts[1], (tag, 1))
        out = []
        for j, x in enumerate((a, b)):
            if x is None:
                x = E.fresh(c.cr, (c.site, 'zi', tag, j), ts[j]) if ts[j] is not None else ('op', (c.site, 'zi', tag, j), None)
            out.append((j, x))
        return ('st', ety, (c.site, 'zp', tag), tuple(out))
    if k == 'same':        # rev/skip/take/cycle/filter/peekable…: items come from the inner iterator
        return item_of(c, it[2], it[3], ety, (tag, 's'))
    if k == 'copied':
        x = item_of(c, it[2], it[3], it[4], (tag, 'c'))
        return c.deref(x) if x is not None else None
    if k == 'map':
        x = item_of(c, it[2], it[3], it[5], (tag, 'm'))
        v, alive = call_clo(c, it[4], [x], ety, ('mi', tag))
        return v if alive else DIVERGED
    return None


def join_elems(c, els, ety, tag):
    if all(e[0] == 'i' for e in els) and els:
        los = [c.st.F.lb(e[1], 1) for e in els]
        his = [c.st.F.ub(e[1], 1) for e in els]
        t = c.T(ety) if ety is not None else None
        if t is not None and t['k'] == 'int':
            lo, hi = c.E.int_range(t)
            x = c.fint(('je', tag), lo, hi)
            c.E.add_fact(c.st, x.addc(-min(los)))
            c.E.add_fact(c.st, x.neg().addc(max(his)))
            return ('i', x)
    if all(e == els[0] for e in els) and els:
        return els[0]
    return None


def count_ub(c, it, ti):
    """an upper bound of the number of items"""
    if it is None:
        return None
    if it[0] == 'st' and is_range(c, ti):
        s, e, a = rng(c, it, ti)
        if s[0] == 'i' and e[0] == 'i':
            if c.st.F.entails(e[1].sub(s[1])):
                return e[1].sub(s[1])
            return e[1] if c.st.F.entails(s[1]) else None
        return None
    if it[0] != 'it':
        return None
    k = it[1]
    if k == 'seq':
        return it[5]
    if k == 'str':
        return it[4]
    if k in ('enum', 'map', 'copied', 'same'):
        if k == 'same' and len(it) > 4 and it[4] is not None:
            return it[4]
        if k == 'same' and len(it) > 5 and it[5] == 'unb':
            return None
        return count_ub(c, it[2], it[3])
    if k == 'zip':
        return count_ub(c, it[2], it[3]) or count_ub(c, it[4], it[5])
    return None


ITFN = re.compile(r'(?:core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)::(\w+)$)|(?:(?:Iterator|DoubleEndedIterator|ExactSizeIterator)(?:<[^>]*>)?(?: for [^:]*(?:::[^:]+)*)?>::(\w+)$)')


def closure_in(c, clo):
    """declared type of a closure's n-th argument"""
    if clo is not None and clo[0] == 'ref':
        clo = c.deref(clo)
    if clo is not None and clo[0] == 'clo':
        f = c.cr.by_key.get(clo[1])
        if f:
            return [c.E.ty(c.fr, f['locals'][j + 2]['t']) for j in range(f['argc'] - 1)]
    if clo is not None and clo[0] == 'fn':
        cal = c.T(clo[1])['callee']
        return c.E.fn_in(c.fr, cal, len(c.T(clo[1]).get('in') or (0,)), clo[1])
    return None


def rounds(c, fn, it, iti, clo):
    """for_each and try_for_each as the loops they are: closed by a fixpoint over the rounds"""
    E, st0 = c.E, c.st
    ins = closure_in(c, clo)
    ety = ins[-1] if ins else None
    head, n = st0.copy(), 1
    while True:
        c.st = head.copy()
        x = item_of(c, it, iti, ety, 'chk') if it is not None else None
        if x is None and ety is not None:
            x = c.fresh('ci', ety)
        outs = []
        if x is not DIVERGED:
            outs = E.invoke(c.fr, c.st, clo, [x], (c.site, 'cl', 'chk'), None, c.t or {'ln': None, 'to': [0], 'k': 'call'})
        errs = [(s, v) for s, v in outs if fn == 'try_for_each' and E.fails(c.cr, s, v)]
        back = [s for s, v in outs if not (fn == 'try_for_each' and E.fails(c.cr, s, v))]
        cur = E.join([head, st0] + back, (c.site, 'rounds'), head=head, allow_new=n <= 3, entry_roots=set(st0.mem))
        if cur.same(head):
            break
        head = cur
        n += 1
        if n > E.MAXPASS:
            raise engine.Unsupported('no fixpoint in ' + c.fr.fn['path'])
    c.st = head
    if fn == 'for_each':
        return [(head, ('st', None, (c.site, 'unit'), ()))]
    e = as_enum(c, c.fresh('res', c.dty), c.dty)
    ok = (OK if opt_kind(c, c.dty) == 'r' else SOME)
    if e is None or opt_kind(c, c.dty) is None:
        return [(head, c.fresh('res', c.dty))] + errs
    E.refine(head, e[2], frozenset((ok,)))
    return [(head, e)] + errs


def m_iterator(c):
    m = ITFN.search(c.name)
    if not m or c.E.local_fn(c.fr, c.callee) is not None:
        return None
    fn = m.group(1) or m.group(2)
    v = c.v(0)
    ti = c.ty(0)
    byref = v[0] == 'ref'
    if byref:
        it = c.deref(v)
        iti = c.T(ti)['t'] if c.T(ti)['k'] == 'ref' else ti
        while c.T(iti)['k'] == 'ref':
            iti = c.T(iti)['t']
    else:
        it, iti = v, ti
    E = c.E
    if it is None:
        return None
    known = it[0] == 'it' or (it[0] == 'st' and is_range(c, iti))
    if fn in ('next', 'next_back', 'nth') and byref:
        if it[0] == 'st' and is_range(c, iti) and fn == 'next':
            r, p, x = c.place(0)
            s, e, a = rng(c, it, iti)
            if s[0] != 'i' or e[0] != 'i':
                return None

            def y():
                E.store(c.st, c.fr, r, p + (('f', 'start', a),), ('i', s[1].addc(1)), c.site)
                return c.some(s)
            return c.outs((cge(e[1].sub(s[1]).addc(-1)), y), (cge(s[1].sub(e[1])), c.none))
        if it[0] == 'st' and is_range(c, iti) and fn == 'next_back':
            r, p, x = c.place(0)
            s, e, a = rng(c, it, iti)

            def y():
                E.store(c.st, c.fr, r, p + (('f', 'end', a),), ('i', e[1].addc(-1)), c.site)
                return c.some(('i', e[1].addc(-1)))
            return c.outs((cge(e[1].sub(s[1]).addc(-1)), y), (cge(s[1].sub(e[1])), c.none))
        if it[0] != 'it':
            return None
        ety = c.inner(c.dty)

        def y():
            x = item_of(c, it, iti, ety, 'n')
            if x is DIVERGED:
                return DIVERGED
            if x is None:
                x = c.fresh('nx', ety)
            return c.some(x)
        return alts(c, (None, y), (None, c.none))
    if fn in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'flat_map', 'map_while'):
        clo = c.v(1)
        ins = closure_in(c, clo)
        s0 = c.st
        # check the body against an arbitrary item right away (it may run later, any number of times)
        for i, (r, p) in enumerate(E.mut_refs(c.st, c.cr, clo)):
            E.havoc(c.st, c.fr, r, p, (c.site, 'c', i))
        ety = ins[0] if ins else None
        pet = ety
        if fn in ('filter', 'inspect', 'take_while', 'skip_while') and ety is not None:
            pet = c.inner(ety)
        s = c.st
        c.st = s.copy()
        x = item_of(c, it, iti, pet, 'chk') if known else None
        if x is not DIVERGED:
            if x is None and pet is not None:
                x = c.fresh('ci', pet)
            if x is not None and pet is not ety:
                tmp = (c.site, 'flt')
                c.st.mem[tmp] = x
                x = ('ref', tmp, (), False)
            call_clo(c, clo, [x], None, 'chk')
        c.st = s
        if not known:
            return [(c.st, c.fresh('ad', c.dty))] if c.dty is not None else None
        if fn == 'map':
            return [(c.st, ('it', 'map', it, iti, clo, pet))]
        if fn in ('filter', 'inspect', 'take_while', 'skip_while'):
            return [(c.st, ('it', 'same', it, iti, None))]
        return [(c.st, ('op', (c.site, 'ad'), c.dty))]
    if fn in ('for_each', 'try_for_each') and E.split and c.v(1) is not None and c.v(1)[0] == 'clo':
        return rounds(c, fn, it if known else None, iti, c.v(1))
    if fn in ('for_each', 'any', 'all', 'find', 'find_map', 'position', 'try_for_each', 'fold', 'try_fold', 'rposition'):
        clo = c.v(2) if fn in ('fold', 'try_fold') else c.v(1)
        ins = closure_in(c, clo)
        for i, (r, p) in enumerate(E.mut_refs(c.st, c.cr, clo)):
            E.havoc(c.st, c.fr, r, p, (c.site, 'c', i))
        if byref:
            for i, (r, p) in enumerate(E.mut_refs(c.st, c.cr, v)):
                E.havoc(c.st, c.fr, r, p, (c.site, 'cv', i))
        s = c.st
        c.st = s.copy()
        ety = ins[-1] if ins else None
        pet = ety
        if fn == 'find' and ety is not None:
            pet = c.inner(ety)
        x = item_of(c, it, iti, pet, 'chk') if known else None
        if x is not DIVERGED:
            if x is None and pet is not None:
                x = c.fresh('ci', pet)
            if x is not None and pet is not ety:
                tmp = (c.site, 'flt')
                c.st.mem[tmp] = x
                x = ('ref', tmp, (), False)
            vals = [x]
            if fn in ('fold', 'try_fold'):
                acc = c.fresh('acc', ins[0]) if ins and ins[0] is not None else None
                vals = [acc, x]
            call_clo(c, clo, vals, None, 'chk')
        c.st = s
        # the closure may have run: its mutable captures are already unknown
        if known and fn in ('any', 'all', 'find_map') and not E.mut_refs(c.st, c.cr, clo):
            r = quantified(c, fn, it, iti, clo, ety)
            if r is not None:
                return r
        if fn in ('position', 'rposition') and known:
            ub = count_ub(c, it, iti)
            n = c.fint('pos', 0, USIZE)

            def y():
                if ub is not None:
                    E.add_fact(c.st, ub.sub(n).addc(-1))
                return c.some(('i', n))
            return c.outs((None, y), (None, c.none))
        if fn == 'find' and known:
            ety2 = c.inner(c.dty)

            def y():
                x = item_of(c, it, iti, ety2, 'fnd')
                return c.some(x) if x is not None and x is not DIVERGED else c.some(c.fresh('fx', ety2))
            return c.outs((None, y), (None, c.none))
        return [(c.st, c.fresh('res', c.dty))] if c.dty is not None else [(c.st, None)]
    if fn in ('rev', 'skip', 'take', 'cycle', 'step_by', 'peekable', 'fuse', 'by_ref'):
        if fn == 'step_by':
            n = c.v(1)
            if n[0] == 'i' and not c.oblige(neg(ceq(n[1])), 'call', 'step_by:zero'):
                return []
        if not known:
            return None
        ub = None
        if fn == 'take' and c.v(1)[0] == 'i':
            ub = c.v(1)[1]
        if fn == 'by_ref':
            return [(c.st, v)]
        if fn == 'cycle':
            return [(c.st, ('it', 'same', it, iti, None, 'unb'))]
        return [(c.st, ('it', 'same', it, iti, ub))]
    if fn in ('copied', 'cloned'):
        if not known:
            return None
        ie = None
        if c.dty is not None:
            a = c.T(c.dty).get('args') or []
        # the inner item type is &T; recover it from the slice iterator's element type
        x = it
        gt = c.gen(1)
        rt = E.find_ty(c.cr, '&' + c.T(gt)['s']) if gt is not None else None
        return [(c.st, ('it', 'copied', it, iti, rt))]
    if fn == 'enumerate':
        return [(c.st, ('it', 'enum', it if known else ('op', (c.site, 'e'), iti), iti))]
    if fn == 'zip':
        o, oti = c.v(1), c.ty(1)
        o2 = iter_of(c, o, oti)
        return [(c.st, ('it', 'zip', it, iti, o2 if o2 is not None else o, oti))] if known else None
    if fn == 'count':
        n = c.fint('cnt', 0, USIZE)
        if known:
            ub = count_ub(c, it, iti)
            if ub is not None:
                E.add_fact(c.st, ub.sub(n))
                # Iterator::count counts with checked additions in debug builds; bounded by memory
            if it[0] == 'it' and it[1] == 'seq':
                return [(c.st, ('i', it[5]))]
        return [(c.st, ('i', n))]
    if fn == 'len' and known:
        if it[0] == 'it' and it[1] == 'seq':
            return [(c.st, ('i', it[5]))]
        n = c.fint('len', 0, USIZE)
        ub = count_ub(c, it, iti)
        if ub is not None:
            E.add_fact(c.st, ub.sub(n))
        return [(c.st, ('i', n))]
    if fn in ('sum', 'product'):
        d = c.T(c.dty)
        if d['k'] != 'int':
            c.E.oblige(c.fr, c.site, 'call', fn, c.t, d['k'] == 'float', 'sum of a non-integer type')
            return None
        lo, hi = E.int_range(d)
        x = None
        total = None
        if known and it[0] == 'it' and it[1] == 'seq':
            src = it[6] if it[2] == 'own' else (E.load(c.st, c.cr, it[3], it[4]) or (None,) * 4)[3]
            if src is not None and src[0] == 'arr' and all(e[0] == 'i' for e in src[1]) and fn == 'sum':
                total = K(0)
                for e in src[1]:
                    total = total.add(e[1])
        if total is not None:
            if not c.oblige(cand(cge(total.addc(-lo)), cge(total.neg().addc(hi))), 'call', 'sum'):
                return []
            return [(c.st, ('i', total))]
        ok = False
        if known and fn == 'sum':
            s = c.st
            c.st = s.copy()
            ub = count_ub(c, it, iti)
            x = item_of(c, it, iti, None, 'sum')
            if x is not None and x is not DIVERGED:
                x = c.deref(x)
            if x is not None and x[0] == 'i' and ub is not None:
                m = c.st.F.ub(x[1])
                n = c.st.F.ub(ub)
                ok = c.st.F.lb(x[1]) >= 0 and m * n <= hi
            c.st = s
        E.oblige(c.fr, c.site, 'call', fn, c.t, ok, 'sum may overflow')
        return [(c.st, ('i', c.fint('sum', lo, hi)))]
    if fn == 'collect' and known:
        d = c.T(c.dty) if c.dty is not None else None
        if d is not None and d.get('path') == 'alloc::vec::Vec':
            s = c.st
            c.st = s.copy()
            item_of(c, it, iti, c.inner(c.dty), 'col')
            c.st = s
            if it[0] == 'it' and it[1] == 'seq':
                return [(c.st, ('seq', (c.site, 'col'), it[5], None))]
            n = c.fint('cl', 0, LENMAX)
            ub = count_ub(c, it, iti)
            if ub is not None:
                E.add_fact(c.st, ub.sub(n))
                if it[0] == 'it' and it[1] in ('map', 'enum', 'copied') or it[0] == 'st':
                    E.add_fact(c.st, n.sub(ub))
            return [(c.st, ('seq', (c.site, 'col'), n, None))]
        return None
    if fn in ('last', 'min', 'max', 'min_by_key', 'max_by_key') and known:
        ety = c.inner(c.dty)

        def y():
            x = item_of(c, it, iti, ety, 'lst')
            return c.some(x if x is not None and x is not DIVERGED else c.fresh('lx', ety))
        return c.outs((None, y), (None, c.none))
    if fn in ('chain',):
        return None
    return None


SUFFIX.append(('', lambda c: m_iterator(c) if 'terator' in c.name else None))


@suffix('core::ops::range::RangeInclusive::<Idx>::new')
def m_ri_new(c):
    return [(c.st, ('st', c.dty, (c.site, 'ri'), (('end', c.v(1)), ('start', c.v(0)))))]


@suffix('::contains')
def m_contains(c):
    if 'core::ops::range' not in c.name:
        return None
    x, y = c.deref(c.v(0)), c.deref(c.v(1))
    ti = c.ty(0)
    while c.T(ti)['k'] == 'ref':
        ti = c.T(ti)['t']
    if x is None or y is None or y[0] != 'i':
        return None
    p = c.T(ti)['path'].rsplit('::', 1)[-1]
    g = lambda n: c.deref(c.E.field(c.cr, x, n, c.T(ti)['args'][0]))
    cs = []
    if p in ('Range', 'RangeFrom', 'RangeInclusive'):
        s = g('start')
        if s is None or s[0] != 'i':
            return None
        cs.append(cge(y[1].sub(s[1])))
    if p in ('Range', 'RangeTo'):
        e = g('end')
        if e is None or e[0] != 'i':
            return None
        cs.append(cge(e[1].sub(y[1]).addc(-1)))
    if p in ('RangeInclusive', 'RangeToInclusive'):
        e = g('end')
        if e is None or e[0] != 'i':
            return None
        cs.append(cge(e[1].sub(y[1])))
    r = ('c', True)
    for z in cs:
        r = cand(r, z)
    return [(c.st, ('b', r))]


@suffix('slice::<impl [T]>::chunks_exact', 'slice::<impl [T]>::chunks', 'slice::<impl [T]>::windows',
        'slice::<impl [T]>::chunks_exact_mut', 'slice::<impl [T]>::chunks_mut', 'slice::<impl [T]>::rchunks')
def m_chunks(c):
    n = c.v(1)
    if n[0] == 'i':
        if not c.oblige(neg(ceq(n[1])), 'call', c.name.rsplit('::', 1)[-1] + ':zero'):
            return []
        r, p, x = c.place(0)
        exact = 'exact' in c.name or 'windows' in c.name
        return [(c.st, ('it', 'chunks', exact, n[1], r, p))]
    return None


_old_item = item_of


def item_of(c, it, ti, ety, tag):   # noqa: F811  (chunks need the element type of the slice reference)
    if it is not None and it[0] == 'it' and it[1] == 'chunks':
        st = c.inner(ety) if ety is not None else None
        if st is None:
            return None
        l = it[3] if it[2] else c.fint(('ck', tag), 0, LENMAX)
        if not it[2]:
            c.E.add_fact(c.st, it[3].sub(l))
            c.E.add_fact(c.st, l.addc(-1))
        return subseq(c, it[4], it[5], l, False, st, ('chk', tag))
    return restrict_item(c, it, _old_item(c, it, ti, ety, tag))


globals()['item_of'] = item_of


@model('binrw::binread::BinRead::read_args', 'binrw::binread::BinRead::read', 'binrw::binread::BinRead::read_le_args',
       'binrw::binread::BinRead::read_be_args', 'binrw::binread::BinRead::read_le', 'binrw::binread::BinRead::read_be')
def m_read_entry(c):
    """the provided methods of BinRead call read_options of the same type with the same arguments"""
    E = c.E
    st_ = c.gen(0)
    if st_ is None or not c.args:
        return None
    f = E.find_impl(c.cr, 'binrw::binread::BinRead', c.T(st_), 'read_options', [])
    if f is None or 'blocks' not in f:
        return None
    lt = [x['t'] for x in f['locals'][1:4]]
    a = c.v(1) if len(c.args) > 1 else E.fresh(c.cr, (c.site, 'noargs'), lt[2])
    args = [c.v(0), E.fresh(c.cr, (c.site, 'endian'), lt[1]), a]
    sub = dict(zip(f.get('generics') or [], []))
    return E.try_inline(c.fr, c.st, f, args, c.site, sub, c.t)


@suffix('box_assume_init_into_vec_unsafe')
def m_box_into_vec(c):
    """vec![a, b, ...]: a vector of exactly as many elements as the boxed array has"""
    m = re.search(r'MaybeUninit<\[.*; (\d+)\]>', c.T(c.ty(0))['s'] if c.ty(0) is not None else '')
    if not m:
        return None
    # the array is written into the box just before, in the same block
    el = None
    n = int(m.group(1))
    if n <= 64:
        for x in c.fr.fn['blocks'][c.site[1]]['s'] if c.site[0] == c.fr.id else ():
            rv = x.get('rv') or {}
            if x['k'] == '=' and rv.get('k') == 'agg' and rv.get('ak') == 'array' and len(rv['os']) == n and x['pl'].get('p'):
                vs = tuple(c.E.operand(c.st, c.fr, o, c.site)[0] for o in rv['os'])
                if all(v is not None and v[0] == 'i' and v[1].isconst() for v in vs):
                    el = ('arr', vs)
    return [(c.st, ('seq', (c.site, 'vecm'), K(n), el))]


@suffix('BinRead>::read_options')
def m_strict_read(c):
    """a reader that is not followed: it never moves the stream back, and forward by at least one byte if it has to"""
    E = c.E
    f = E.local_fn(c.fr, c.callee)
    if f is None or 'blocks' not in f or not E.noinline(f) or E.unroll.get(f['key']) or len(c.args) < 3:
        return None
    if E.dispatched(f, c.st, [a for a, _ in c.args]) or not E.strict(f) or not E.seekfree(f):
        return None
    r, p, x = c.place(0)
    if r is None:
        return None
    old = {k: c.st.mem[k] for k in E.iops(c.st, r, p)}
    if not old:
        return None
    E.uninlined.add(f['key'])
    outs = E.unknown_call(c.fr, c.st, c.args, c.site, c.dty, c.name)
    c.st = outs[0][0]

    def good():
        for k, v in old.items():
            if k in c.st.mem:
                E.add_fact(c.st, c.st.mem[k][1].sub(v[1]).addc(-1))
        return c.ok(c.fresh('ok', c.inner(c.dty)))
    return c.outs((None, good), (None, lambda: c.err(c.fresh('e', c.inner(c.dty, 1)))))


@suffix('_type_hint', '__private::coerce_fn')
def m_type_hint(c):
    """binrw's inference helpers answer with their last argument"""
    if not c.name.startswith('binrw::__private::'):
        return None
    return [(c.st, c.v(len(c.args) - 1))]
