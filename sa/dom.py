"""Abstract domain: linear expressions over immutable symbols, linear facts, enum-variant facts."""
from math import gcd

SYM = []          # id -> (key, lo, hi, deps)
SYMIX = {}
INF = 1 << 200


def sym(key, lo, hi, deps=()):
    i = SYMIX.get(key)
    if i is None:
        i = len(SYM)
        SYM.append((key, lo, hi, deps))
        SYMIX[key] = i
    return i


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __hash__(self):
        return self.h

    def __repr__(self):
        s = '+'.join('%d*s%d' % (k, v) if k != 1 else 's%d' % v for v, k in self.t)
        return '%s%+d' % (s, self.c) if s else str(self.c)

    def isconst(self):
        return not self.t

    def even(self):
        return self.c % 2 == 0 and all(k % 2 == 0 for _, k in self.t)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((v, c * k) for v, c in self.t))

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + k * o.c, self.t) if o.c else self
        if not self.t:
            r = o.scale(k)
            return Lin(r.c + self.c, r.t)
        d = dict(self.t)
        for v, c in o.t:
            n = d.get(v, 0) + k * c
            if n:
                d[v] = n
            else:
                d.pop(v, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def sub(self, o):
        return self.add(o, -1)

    def addc(self, n):
        return Lin(self.c + n, self.t) if n else self

    def neg(self):
        return self.scale(-1)

    def syms(self):
        return [v for v, _ in self.t]

    def coef(self, s):
        for v, c in self.t:
            if v == s:
                return c
        return 0

    def lo(self):
        r = self.c
        for v, c in self.t:
            s = SYM[v]
            r += c * (s[1] if c > 0 else s[2])
        return r

    def hi(self):
        r = self.c
        for v, c in self.t:
            s = SYM[v]
            r += c * (s[2] if c > 0 else s[1])
        return r


def K(n):
    return Lin(n)


def V(s):
    return Lin(0, ((s, 1),))


def norm(f):
    """normalise f>=0 (divide by the gcd of the coefficients, floor the constant)"""
    if not f.t:
        return f
    g = 0
    for _, c in f.t:
        g = gcd(g, c)
    if g > 1:
        return Lin(f.c // g, tuple((v, c // g) for v, c in f.t))
    return f


def fact_index(facts):
    ix = {}
    best = {}
    for f in facts:             # of facts that differ in the constant only the strongest says it all
        o = best.get(f.t)
        if o is None or f.c < o.c:
            best[f.t] = f
    for f in best.values():
        for v, c in f.t:
            ix.setdefault((v, c > 0), []).append(f)
    return ix


def substall(g, sub):
    for v, c in g.t:
        e = sub.get(v)
        if e is not None:
            g = g.add(V(v), -c).add(e, c)
    return g


class Facts:
    """immutable set of linear facts f>=0, with a cached index"""
    __slots__ = ('s', '_ix', '_memo', '_red')
    EQ = False      # eliminate by equalities before anything else (set by rules that count in step)

    def __init__(self, s=frozenset()):
        self.s = s
        self._ix = None
        self._memo = {}
        self._red = None

    def ix(self):
        if self._ix is None:
            self._ix = fact_index(self.s)
        return self._ix

    def __eq__(self, o):
        return self.s == o.s

    def with_(self, fs):
        n = [f for f in fs if f not in self.s]
        return Facts(self.s.union(n)) if n else self

    def entails(self, g, depth=4):
        """g >= 0 follows (sound, incomplete: bounded elimination by non-negative combinations)"""
        g = norm(g)
        m = self._memo.get(g)
        if m is not None and (m[0] or m[1] >= depth):
            return m[0]
        b = [400]
        r = self._ent(g, depth, b, set())
        if not r and Facts.EQ:
            sub, red = self.red()
            if sub:
                x = norm(substall(g, sub))
                r = x.lo() >= 0 or x != g and red._ent(x, depth, [400], set())
        self._memo[g] = (r, depth)
        return r

    def red(self):
        """the equalities among the facts, solved for symbols, and what is left of the others"""
        if self._red is None:
            sub = {}
            for f in sorted(self.s, key=lambda f: (len(f.t), f.t, f.c)):
                if f.neg() not in self.s:
                    continue
                x = substall(f, sub)
                pv = next(((v, c) for v, c in reversed(x.t) if c in (1, -1)), None)
                if pv is None:
                    continue
                v, c = pv
                e = x.add(V(v), -c).scale(-c)       # v = e
                for k in sub:
                    n = sub[k].coef(v)
                    if n:
                        sub[k] = sub[k].add(V(v), -n).add(e, n)
                sub[v] = e
            left = set()
            if sub:
                for f in self.s:
                    x = norm(substall(f, sub))
                    if x.lo() < 0:
                        left.add(x)
                # what the types say of the symbols that are gone
                for v, e in sub.items():
                    lo, hi = SYM[v][1], SYM[v][2]
                    for x in ([e.addc(-lo)] if lo > -INF else []) + ([e.neg().addc(hi)] if hi < INF else []):
                        if x.lo() < 0:
                            left.add(norm(x))
            self._red = (sub, Facts(frozenset(left)))
        return self._red


    def _ent(self, g, depth, b, seen):
        if g.lo() >= 0:
            return True
        if depth == 0 or b[0] <= 0:
            return False
        if g in self.s:
            return True
        if g in seen:
            return False
        seen.add(g)
        ix = self.ix()
        # prefer eliminating the symbol which contributes the worst bound
        order = sorted(g.t, key=lambda vc: (vc[1] * (SYM[vc[0]][1] if vc[1] > 0 else SYM[vc[0]][2])))
        for v, c in order:
            for f in ix.get((v, c > 0), ()):
                b[0] -= 1
                if b[0] <= 0:
                    return False
                d = f.coef(v)
                # |d|*g - |c|*f has no v
                ad, ac = abs(d), abs(c)
                k = gcd(ad, ac)
                n = norm(g.scale(ad // k).add(f, -(ac // k)))
                if len(n.t) > 6:
                    continue
                if self._ent(n, depth - 1, b, seen):
                    return True
        return False

    def ub(self, l, depth=2):
        """an upper bound of l (integer) by types and up to `depth` eliminations"""
        best = l.hi()
        if depth == 0:
            return best
        ix = self.ix()
        n = 0
        for v, c in l.t:
            # want l <= ...: use f>=0 with f containing v with opposite sign of c : l <= l + k f
            for f in ix.get((v, c < 0), ()):
                d = f.coef(v)
                if c % d:
                    continue
                n += 1
                if n > 60:
                    return best
                x = l.add(f, -(c // d))
                if len(x.t) > 5:
                    continue
                u = self.ub(x, depth - 1)
                if u < best:
                    best = u
        return best

    def lb(self, l, depth=2):
        return -self.ub(l.neg(), depth)
