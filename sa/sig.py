"""Canonical signatures of wire traces: free of line numbers, symbol numbers and local names."""
import re
import engine
import wire
from dom import SYM, Lin, V


class Sig:
    def __init__(self, w):
        self.w = w
        self.E = w.E
        self.cr = w.E.cr

    def index(self, items):
        return [('i%d' % k, it[2]) for k, it in enumerate(items) if it[0] == 'val' and it[2] is not None]

    # -- numbers
    def names(self, ix, items, n):
        d = {}
        for k, v in ix:
            if v[0] == 'i' and len(v[1].t) == 1 and v[1].t[0][1] == 1 and v[1].c == 0:
                d.setdefault(v[1].t[0][0], k)
            elif v[0] == 'seq' and len(v[2].t) == 1 and v[2].c == 0:
                d.setdefault(v[2].t[0][0], 'len(%s)' % k)
        return d

    def sizes(self, l, items):
        """positions in the stream: by the sizes of the items between them"""
        out = []
        for k in range(len(items) - 1, -1, -1):
            it = items[k]
            m = it[6] if it[0] == 'val' and len(it) > 6 else None
            if m is None or sorted(c for _, c in m.t) != [-1, 1]:
                continue
            p1 = [s for s, c in m.t if c == 1][0]
            c = l.coef(p1)
            if c:
                l = l.sub(m.scale(c))
                out.append(('size(i%d)' % k, c))
        return l, out

    def lin(self, st, l, ix, items=()):
        b = st.F.ub(l) if not l.isconst() else l.c
        if b == l.c and l.isconst():
            return str(b)
        if b < (1 << 70) and b == st.F.lb(l):
            return str(b)
        l, out = self.sizes(l, items)
        d = self.names(ix, items, 0)
        for s, c in l.t:
            n = d.get(s) or self.symbol(st, SYM[s][0], ix, items)
            if n is None:
                for k, v in ix:         # equal to an item by what is known
                    if v[0] == 'i':
                        x = V(s).sub(v[1])
                        if st.F.entails(x) and st.F.entails(x.neg()):
                            n = k
                            break
            if n is None:
                return '?'
            out.append((n, c))
        s = '+'.join(n if c == 1 else '%d*%s' % (c, n) for n, c in sorted(out))
        return s + ('%+d' % l.c if l.c else '')

    def symbol(self, st, key, ix, items):
        if key == ('wirestart',):
            return 'start'
        if isinstance(key, tuple) and len(key) == 3 and isinstance(key[0], str) and isinstance(key[1], Lin) and isinstance(key[2], (int, Lin)):
            x = self.lin(st, key[1], ix, items)
            return None if x == '?' else '(%s %s %s)' % (x, key[0], key[2])
        return self.inside(key, ix)

    def inside(self, key, ix):
        """a symbol that is part of an item or of an argument: base and projections"""
        path = []
        k = key
        for _ in range(12):
            for i, v in ix:
                if v[0] in ('st', 'en') and v[2] == k or v[0] == 'en' and v[3] == k or v[0] == 'seq' and v[1] == k:
                    return '.'.join([i] + path[::-1])
            if isinstance(k, tuple) and len(k) >= 3 and k[0] == 'rarg':
                return '.'.join(['arg%d' % k[2]] + path[::-1])
            if isinstance(k, tuple) and k and isinstance(k[0], tuple) and all(not isinstance(x, tuple) for x in k[1:]):
                path.append('/'.join(str(x) for x in k[1:]))
                k = k[0]
                continue
            return None
        return None

    # -- values
    def truth(self, st, c):
        """the truth of a condition, if it is known"""
        if c is True or c is False:
            return c
        a = self.E.assume(st.copy(), c)
        b = self.E.assume(st.copy(), ('not', c))
        return None if a and b else bool(a)

    def val(self, st, v, ix, items=(), n=0):
        w = self.w
        v = w.deref(st, v)
        if v is None or n > 6:
            return '?'
        if v[0] == 'i':
            return self.lin(st, v[1], ix, items)
        for k, x in ix:
            if x[0] == v[0] and x[0] != 'i' and (v[0] != 'en' or v[4] or w.payloads(v, st.vars.get(v[2]))) and w.same(st, x, v):
                return k
        if v[0] == 'en':
            vs = st.vars.get(v[2])
            a = self.cr.adts.get(self.cr.T[v[1]].get('path')) if v[1] is not None else None
            if vs is None or len(vs) != 1:
                for k, x in ix:
                    if w.same(st, x, v):
                        return k
                return self.inside(v[2], ix) or self.inside(v[3], ix) or '?'
            vi = next(iter(vs))
            t = self.cr.T[v[1]]['s'].split('<')[0]
            name = a['variants'][vi]['n'] if a else '%d' % vi
            ps = [self.val(st, x, ix, items, n + 1) for (pv, fl), x in sorted(v[4], key=lambda e: str(e[0])) if pv == vi]
            return '%s::%s%s' % (t.rsplit('::', 1)[-1], name, '(%s)' % ', '.join(str(x) for x in ps) if ps else '')
        if v[0] == 'st':
            fs = {str(k): self.val(st, x, ix, items, n + 1) for k, x in v[3]}
            if not fs:
                if v[1] is not None and self.cr.T[v[1]]['s'] == '()':
                    return '()'
                return self.inside(v[2], ix) or '?'
            return fs if n == 0 else '{%s}' % ', '.join('%s: %s' % kv for kv in sorted(fs.items()))
        if v[0] == 'b':
            t = self.truth(st, v[1])
            return '?' if t is None else str(t).lower()
        if v[0] == 'seq':
            if isinstance(v[1], tuple) and v[1] and v[1][0] == 'cb':
                return 'bytes ' + ''.join('%02x' % x for x in v[1][1])
            if isinstance(v[1], tuple) and len(v[1]) == 4 and v[1][0] == 'ib':
                x = self.lin(st, v[1][2], ix, items)
                return '?' if x == '?' else '%s_bytes(%s)' % (v[1][1], x)
            return self.inside(v[1], ix) or '?'
        return '?'

    def item(self, st, it, k, ix, items, inherit):
        ix = [y for y in ix if y[0][0] == '^' or int(y[0][1:]) < k]
        if it[0] == 'pad':
            return {'pad': self.val(st, it[1], ix, items)}
        if it[0] == 'seek':
            return {'seek': ('start', 'end', 'here')[it[1]] if isinstance(it[1], int) else '?', 'to': self.val(st, it[2], ix, items)}
        if it[0] != 'val':
            return {it[0]: str(it[1])}
        d = {'type': it[1]}
        x = it[2]
        if it[3] is not None and not wire.BYTES.match(it[1]) and inherit(it[1]):
            d['endian'] = 'inherit' if it[3][0] == 'v' else '/'.join('big' if i == 0 else 'little' for i in it[3][1])
        if x is not None and x[0] == 'i':
            c = self.lin(st, x[1], [])
            if c != '?':
                d['is'] = c
            else:
                lo, hi = st.F.lb(x[1]), st.F.ub(x[1])
                m = self.residue(st, x[1])
                a, b = x[1].lo(), x[1].hi()
                if m:
                    d['mod'] = '%d is %d' % m
                    a, lo = (n + (m[1] - n) % m[0] for n in (a, lo))
                    b, hi = (n - (n - m[1]) % m[0] for n in (b, hi))
                r = [None if lo <= a else lo, None if hi >= b else hi]
                if r != [None, None]:
                    d['range'] = r
        elif x is not None and x[0] == 'seq':
            c = self.val(st, x, [])
            if c.startswith('bytes'):
                d['is'] = c
        elif x is not None and x[0] == 'en':
            c = self.val(st, x, [])
            if c != '?':
                d['is'] = c
        a = it[4]
        if a is not None and a[0] == 'tr' and a[1][0][0] == 'va':
            if a[1][0][1] is not None:
                d['len'] = self.val(st, a[1][0][1], ix, items)
            a = a[1][0][2]
        if a is not None and a[0] in ('st', 'en', 'i'):
            c = self.val(st, a, ix, items, 1)
            if c not in ('?', '()', '{}', '{0: ?}'):
                d['args'] = c
        if it[5]:
            d['via'] = list(it[5])
        return d

    def residue(self, st, x):
        """(n, what x is modulo n) for the greatest n for which it is known"""
        best = None
        for q in {q for f in st.F.s for q in f.syms()}:
            k = SYM[q][0]
            if isinstance(k, tuple) and k[0] == 'div' and k[1] == x and k[2].isconst():
                m = x.addc(0).add(V(q), -k[2].c)
                lo = st.F.lb(m)
                if lo == st.F.ub(m) and (best is None or k[2].c > best[0]):
                    best = k[2].c, lo
        return best

    def given(self, st, ra):
        """which variants the arguments have on this path"""
        out = {}
        for e, vs in st.vars.items():
            if len(vs) != 1:
                continue
            n = self.inside(e, [])
            m = re.match(r'arg2\.(.*)$', n or '')
            if not m:
                continue
            ti = wire.strip(self.cr, ra[2][1])
            for p in m.group(1).split('.'):
                t = self.cr.T[ti]
                q = p.split('/')
                if len(q) == 2:
                    ti = self.E.field_ty(self.cr, t, int(q[0]), q[1] if not q[1].isdigit() or t['k'] == 'adt' else int(q[1]))
                else:
                    ti = self.E.field_ty(self.cr, t, None, p if not p.isdigit() or t['k'] == 'adt' else int(p))
                ti = wire.strip(self.cr, ti)
                if ti is None:
                    break
            a = self.cr.adts.get(self.cr.T[ti].get('path')) if ti is not None else None
            if a and len(a['variants']) > 1:
                out[n] = a['variants'][next(iter(vs))]['n']
        return out

    def path(self, st, v, inherit, ra):
        items = self.w.items(st)
        if items is None or v is None:
            return None
        ix = self.index(items)
        pk = st.mem.get(wire.PEEK)
        for n, it in (x for x in (pk[1] if pk is not None else ()) if len(x) == 2):
            if it[0] == 'val' and it[2] is not None:
                ix.append(('^%d' % n, it[2]))
        out = [self.item(st, it, k, ix, items, inherit) for k, it in enumerate(items)]
        for d in out:           # a pad up to a total
            m = re.match(r'-1\*size\(i(\d+)\)\+(\d+)$', d.get('pad', ''))
            if m and out.index(d) == int(m.group(1)) + 1:
                d['upto'] = True
        p = {'items': out, 'result': self.val(st, v, ix, items)}
        g = self.given(st, ra)
        if g:
            p['given'] = g
        return p


def norm(p):
    """pads up to a total belong to the item before: whether one is needed depends on its size"""
    items, m = [], {}
    for k, d in enumerate(p['items']):
        m[k] = len(items)
        if d.get('upto'):
            items[-1] = dict(items[-1], upto=int(d['pad'].rsplit('+', 1)[1]))
            m[k] = len(items) - 1
        else:
            items.append(d)
    if len(items) == len(p['items']):
        return p
    f = lambda s: re.sub(r'\bi(\d+)\b', lambda x: 'i%d' % m[int(x.group(1))], s)
    return deep(dict(p, items=items), f)


def deep(x, f):
    if isinstance(x, str):
        return f(x)
    if isinstance(x, dict):
        return {k: deep(v, f) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v, f) for v in x]
    return x


def covers(a, b):
    """path b is a special case of path a"""
    if len(a['items']) != len(b['items']) or any(b.get('given', {}).get(k) != v for k, v in a.get('given', {}).items()):
        return False
    known = {}
    for k, (x, y) in enumerate(zip(a['items'], b['items'])):
        for key in set(x) | set(y):
            if key == 'is' and key not in x and re.match(r'-?\d+$', y[key]):
                known['i%d' % k] = y[key]
                continue
            if key in ('range', 'mod') and key not in x:
                continue
            if key == 'mod' and key not in y and re.match(r'-?\d+$', y.get('is', '')):
                n, r = map(int, x[key].split(' is '))
                if int(y['is']) % n == r:
                    continue
            if key == 'range' and key not in y and 'is' in y and re.match(r'-?\d+$', y['is']):
                c = int(y['is'])
                if (x[key][0] is None or c >= x[key][0]) and (x[key][1] is None or c <= x[key][1]):
                    continue
            if key == 'upto' and key not in y:
                continue
            if key in ('len', 'args') and str(y.get(key)) in (ev(x.get(key), known), '0') and key in x:
                if key == 'len' or str(y[key]) != '0':
                    continue
            if x.get(key) != y.get(key):
                return False
    return match(a['result'], b['result'], known)


def ev(s, known):
    s = str(s)
    for k, v in known.items():
        s = re.sub(r'\b%s\b' % k, v, s)
    return s


def match(r, q, known):
    if isinstance(r, dict) and isinstance(q, dict):
        return set(r) == set(q) and all(match(r[k], q[k], known) for k in r)
    return r == q or ev(r, known) == str(q)


def prune(ps):
    """without the paths that are special cases of others"""
    out = []
    for p in ps:
        if p not in out:
            out.append(p)
    i = 0
    while i < len(out):
        if any(j != i and covers(out[j], out[i]) for j in range(len(out))):
            out.pop(i)
        else:
            i += 1
    return out


def inherits(crates, R):
    """which types' readers depend on the byte order they are given"""
    memo = {}

    def f(t):
        if t in memo:
            return memo[t]
        memo[t] = False
        m = re.match(r'(?:alloc::vec::Vec<|\[)?([\w:]+(?:<[^<>]*>)?)', t)
        base = m.group(1) if m else t
        if base not in R:
            base = re.sub(r'<.*', '', base)
            c = [k for k in R if re.sub(r'<.*', '', k) == base]
            base = c[0] if c else None
        if base is None:
            memo[t] = not wire.BYTES.match(t)
            return memo[t]
        w = wire.Wire(crates)
        try:
            for st, _ in w.reader(R[base])[0]:
                for it in w.items(st) or ():
                    if it[0] == 'val' and it[3] is not None and it[3][0] == 'v' and not wire.BYTES.match(it[1]) and f(it[1]):
                        memo[t] = True
        except engine.Unsupported:
            memo[t] = True
        return memo[t]
    return f


def signature(crates, f, inherit):
    """the paths of one reader, canonical"""
    w = wire.Wire(crates)
    sts, ra = w.reader(f)
    s = Sig(w)
    ps = [s.path(st, v, inherit, ra) for st, v in sts]
    bad = sum(p is None for p in ps)
    return prune([norm(p) for p in ps if p is not None]), bad
