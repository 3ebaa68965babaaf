"""Exported files stay in the output directory.  The tool is walked from main with paths and strings as terms; every path that
is given to a call which creates or changes something on the file system has to be the output directory, or such a path joined
with a single component: a string which, on this very path of the program, can hold neither a separator nor a NUL and is none
of '', '.' and '..'."""
import re
import cg
import effects
import engine
import terms
from engine import cge, ceq, neg
from dom import K, V, sym

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR with path and string terms; character sets of strings'
NOTE = ('All databases and names. Unix path rules; symbolic links that are already in the output directory are not considered. '
        'Recursive walks are closed by induction: a walk that is given a safe path is given safe paths again.')
ASSUMPTIONS = ['Path::join and PathBuf::push of a name without separators that is not empty, . or .. stay below the path',
               'the functions of str and String do what they are documented to do']
SINK = re.compile(r'^std::fs::(write|create_dir|create_dir_all|copy|rename|remove_\w+|hard_link|set_permissions|soft_link)$|'
                  r'^std::fs::File::(create|create_new|create_buffered)(::<.*>)?$|^std::fs::OpenOptions::open(::<.*>)?$|'
                  r'^std::fs::DirBuilder::create(::<.*>)?$|^std::os::\w+::fs::(symlink|\w*symlink\w*|chown|lchown)$')
BADC = frozenset('/\\\0')
NAMES = ('', '.', '..')
SAFE = ('safe',)
KEEP = re.compile(r'::(as_ref|deref|deref_mut|borrow|as_path|to_path_buf|into_path_buf|to_owned|clone|as_mut|from|into|new|as_os_str|'
                  r'into_boxed_path|as_mut_os_str|into_os_string|as_os_string)$')
JOIN = re.compile(r'std::path::Path::join(::<.*>)?$')
PUSH = re.compile(r'std::path::PathBuf::push(::<.*>)?$')


class Export:
    def __init__(self, ctx, cr):
        self.ctx, self.cr = ctx, cr
        self.E = engine.Engine(ctx.crates)
        self.E.cr = cr
        self.E.opts['seqphi'] = {}
        self.E.split = self.E.split_loops = self.E.keep_errs = True
        self.T = terms.Terms(ctx.crates, self.E)
        self.E.split_loops = True
        self.T.first.append(self.call)
        self.built = {}         # string that is put together piece by piece -> characters it may hold
        self.wait = []          # (key, where, message, term): the characters are judged when all pieces are known
        self.sites = {}
        self.active = []
        self.G = cg.CallGraph(ctx.crates)
        self.out = None

    # ---------------------------------------------------------------- strings
    def may(self, t, seen=()):
        """the separators that a string with this term may hold"""
        if isinstance(t, frozenset):
            return t
        if not isinstance(t, tuple) or not t:
            return BADC
        if t[0] == 'T' and len(t) == 2:
            return self.may(t[1], seen)
        if t[0] == 'lit':
            s = t[1] if isinstance(t[1], str) else t[1].decode('utf8', 'replace')
            return BADC & set(s)
        if t[0] == 'fmt':
            r = frozenset()
            for p in t[1:]:
                r |= self.may(p[3] if p[0] == 'show' and p[1] == 'display' else p if p[0] == 'lit' else None, seen)
            return r
        if t[0] in ('chs', 'chars'):
            return t[1]
        if t[0] in ('built', 'phi'):
            if t in seen:
                return frozenset()
            r = frozenset()
            for p in self.built.get(t, ()) if t[0] == 'built' else self.E.opts['seqphi'].get(t, (None,)):
                r |= self.may(p, seen + (t,))
            return r
        if t[0] in ('int', 'i'):
            return frozenset()
        if t[0] in ('shown', 'copy'):
            return self.may(t[1], seen)
        return BADC

    def now(self, t):
        """the same while the analysis still runs"""
        return BADC if mentions(t, 'built') or mentions(t, 'phi') else self.may(t)

    def lits(self, t):
        """bytes that a string has at least"""
        if t[0] == 'lit':
            return len(t[1])
        if t[0] == 'fmt':
            return sum(len(p[1]) for p in t[1:] if p[0] == 'lit')
        return self.lits(t[1]) if t[0] == 'copy' else 0

    def out_char(self, st, v, may):
        """the separators that a character may be"""
        if v is None or v[0] != 'i':
            return BADC
        r = set()
        for c in BADC:
            s = st.copy()
            if self.E.assume(s, ceq(v[1].addc(-ord(c)))):
                r.add(c)
        return frozenset(r)

    def some_chars(self, may, site):
        """characters that stand for all that a string with these separators may hold"""
        out = [K(ord(x)) for x in sorted(may)]
        bs = [-1] + sorted(ord(x) for x in BADC) + [0x110000]
        return out + [V(sym((site, 'char', a), a + 1, b - 1)) for a, b in zip(bs, bs[1:]) if b - a > 1]

    def on_char(self, fr, st, f, may, site, refarg=False):
        """the outcomes of a function of a character: [(state, character, value)]"""
        out = []
        for i, c in enumerate(self.some_chars(may, site)):
            s, sc = st.copy(), (site, 'chr', i)
            arg = ('i', c)
            if refarg:
                s.mem[sc] = arg
                arg = ('ref', sc, (), False)
            env = f
            if f is not None and f[0] == 'clo':
                s.mem[(sc, 'env')] = f
                env = ('ref', (sc, 'env'), (), True)
            out += [(s2, ('i', c), v) for s2, v in self.E.invoke(fr, s, env, [arg], sc + ('f',), None, {'ln': None, 'to': [0], 'k': 'call'})]
        self.E.cr = self.cr = fr.cr
        return out

    def pat(self, fr, st, v, site):
        """the separators that a pattern certainly matches"""
        t = self.T.term(st, v)
        x = self.T.deref(st, v)
        if t[0] == 'int':
            return BADC & {chr(t[1])}
        if t[0] == 'lit' and len(t[1]) == 1:
            return BADC & set(t[1])
        if t[0] == 'arr' and all(y[0] == 'int' for y in t[1:]):
            return BADC & {chr(y[1]) for y in t[1:]}
        if x is not None and x[0] in ('clo', 'fn'):
            miss = set()
            for s, c, r in self.on_char(fr, st, x, BADC, site):
                for vi in (False,):
                    q = s.copy()
                    if r is None or r[0] != 'b':
                        return frozenset()
                    if self.E.assume(q, r[1], False):
                        miss |= self.out_char(q, c, BADC)
            return BADC - miss
        return frozenset()

    def mk(self, t, dty):
        return self.T.make(t, dty)

    def not_named(self, st, t, v):
        """a name that is none of '', '.' and '..' here"""
        if t[0] == 'lit':
            return t[1] not in NAMES
        if self.lits(t) > 2:
            return True
        x = self.T.deref(st, v)
        for n in NAMES:
            if st.vars.get(('streq', t, n)) == frozenset((0,)):
                continue
            if n == '' and x is not None and x[0] == 'seq' and st.F.entails(x[2].addc(-1)):
                continue
            if t[0] == 'fmt' and self.lits(t) >= 1 and n == '':
                continue
            return False
        return True

    def forget(self, st, what):
        """what was found out about strings that are made anew here"""
        for k in [k for k in st.vars if isinstance(k, tuple) and k and k[0] == 'streq' and mentions(k[1], what)]:
            del st.vars[k]

    # ---------------------------------------------------------------- paths
    def ispath(self, st, v):
        return self.T.term(st, v) == SAFE

    def component(self, st, v, fr, site, ln):
        t = self.T.term(st, v)
        if not self.not_named(st, t, v):
            self.fail.append((fr.fn, ln, 'a path component may be empty, "." or "..": %s' % show(t)))
            return False
        self.wait.append((fr.fn, ln, t))
        return True
    fail = ()

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, name, callee, args, site, dty, t):
        E, T = self.E, self.T
        E.cr = self.cr = fr.cr
        self.forget(st, site)
        ln = t.get('ln') if t else None
        nm = name.rsplit('::', 1)[1] if '::' in name else name
        base = re.sub(r'::<[^:]*>$', '', name)
        lf = E.local_fn(fr, callee)
        if SINK.match(name) or SINK.match(base):
            k = (fr.fn['key'], site[-2:] if isinstance(site, tuple) else site)
            ps = [a for a, ti in args if ti is not None and self.pathlike(ti)]
            for a in ps:
                ok = self.ispath(st, a)
                self.sites.setdefault((fr.fn['path'], nm, ln), []).append((ok, T.term(st, a)))
            if not ps:
                self.sites.setdefault((fr.fn['path'], nm, ln), []).append((False, ('?',)))
            return None
        if lf is not None:
            return self.local(fr, st, lf, callee, args, site, dty, t)
        if not args or args[0][0] is None:
            if base in ('alloc::string::String::new', 'alloc::string::String::with_capacity'):
                pass
            else:
                return None
        if base in ('alloc::string::String::new', 'alloc::string::String::with_capacity', 'alloc::string::String::default'):
            x = ('built', site)
            self.built[x] = {frozenset()}
            return [(st, ('seq', ('T', x), K(0), None))]
        a0, t0 = args[0]
        if len(args) == 1 and isinstance(dty, int) and T.stringy(dty) and self.cr.T[dty]['k'] != 'ref':
            tm = T.term(st, a0)
            if (nm in ('format', 'clone', 'to_string', 'to_owned', 'into', 'from') and (T.stringy(t0) or nm == 'format')
                    and mentions(tm, 'built')):
                return [(st, self.mk(('copy', tm, site), dty))]
        if JOIN.search(name):
            if self.ispath(st, a0) and self.component(st, args[1][0], fr, site, ln):
                return [(st, self.mk(SAFE, dty))]
            return None
        if PUSH.search(name) and a0[0] == 'ref':
            if self.ispath(st, a0) and self.component(st, args[1][0], fr, site, ln):
                return [(st, ('st', None, (site, 'unit'), ()))]
            self.put(fr, st, a0, None, site)
            return [(st, ('st', None, (site, 'unit'), ()))]
        if self.ispath(st, a0) and len(args) == 1 and KEEP.search(base) and isinstance(dty, int) and self.pathlike(dty):
            return [(st, self.mk(SAFE, dty))]
        if 'iter::' in name or nm in ('chars', 'collect', 'map', 'filter', 'next', 'into_iter', 'replace', 'push', 'push_str', 'eq', 'ne',
                                      'is_empty', 'contains', 'extend', 'add', 'add_assign', 'concat', 'write_str', 'insert_str', 'char_indices'):
            return self.strings(fr, st, nm, name, args, site, dty, t)
        return None

    def pathlike(self, ti):
        s = self.cr.T[ti]['s']
        return 'Path' in s or self.T.stringy(ti) or self.cr.T[ti]['k'] == 'param' or 'OsStr' in s

    def put(self, fr, st, ref, val, site):
        E = self.E
        pl = ref
        while True:
            x = E.load(st, self.cr, pl[1], pl[2])
            if x is None or x[0] != 'ref':
                break
            pl = x
        E.store(st, fr, pl[1], pl[2], val if val is not None else ('op', ('unknown', site), None), site)

    def strings(self, fr, st, nm, name, args, site, dty, t):
        E, T = self.E, self.T
        a0, t0 = args[0]
        tm = T.term(st, a0)
        if nm == 'chars':
            return [(st, ('st', None, ('T', ('chars', self.now(tm))), ()))]
        ischars = isinstance(tm, tuple) and tm and tm[0] == 'chars'
        if ischars and nm in ('into_iter', 'by_ref', 'rev', 'skip', 'take', 'copied', 'cloned', 'peekable', 'fuse'):
            return [(st, T.deref(st, a0))]
        if ischars and nm == 'filter':
            keep = frozenset()
            for s, c, r in self.on_char(fr, st, T.deref(st, args[1][0]), tm[1], site, True):
                if r is None or r[0] != 'b':
                    return None
                if E.assume(s, r[1], True):
                    keep |= self.out_char(s, c, tm[1])
            return [(st, ('st', None, ('T', ('chars', keep)), ()))]
        if ischars and nm in ('map', 'filter_map', 'flat_map'):
            keep = frozenset()
            for s, c, r in self.on_char(fr, st, T.deref(st, args[1][0]), tm[1], site):
                if nm == 'filter_map' and r is not None and r[0] == 'en':
                    if not E.assume(s, ('isv', r[2], (1,), (0, 1))):
                        continue
                    r = E.payload(self.cr, r, 1, '0')
                keep |= self.out_char(s, r, tm[1])
            return [(st, ('st', None, ('T', ('chars', keep)), ()))]
        if ischars and nm == 'collect' and isinstance(dty, int) and T.stringy(dty):
            return [(st, self.mk(('chs', tm[1], site), dty))]
        if ischars and nm == 'next' and isinstance(dty, int):
            out = []
            for i, c in enumerate([None] + self.some_chars(tm[1], site)):
                s = st.copy()
                vi = 0 if c is None else 1
                out.append((s, E.new_enum(s, dty, (site, 'ch', i), vi, [('0', ('i', c))] if vi else [])))
            return out
        if nm in ('replace', 'replacen') and len(args) > 2 and isinstance(dty, int) and T.stringy(dty):
            gone = self.pat(fr, st, args[1][0], site) if nm == 'replace' else frozenset()
            x = ('chs', (self.now(tm) - gone) | self.now(T.term(st, args[2][0])), site)
            return [(st, self.mk(x, dty))]
        if nm in ('push', 'push_str', 'add_assign', 'write_str', 'extend') and isinstance(tm, tuple) and len(args) > 1 and a0[0] == 'ref':
            x = args[1][0]
            more = self.out_char(st, x, BADC) if nm == 'push' and x is not None and x[0] == 'i' else T.term(st, x)
            if not T.stringy(t0):
                return None
            k = tm if tm and tm[0] == 'built' else ('built', site)
            if k is not tm:
                self.built.setdefault(k, set()).add(tm)
            self.built[k].add(more)
            self.forget(st, 'built')
            v = T.deref(st, a0)
            ln = V(sym((site, 'len'), 0, 1 << 48))
            if v is not None and v[0] == 'seq':
                E.add_fact(st, ln.sub(v[2]).addc(-1 if nm == 'push' else 0))
            self.put(fr, st, a0, ('seq', ('T', k), ln, None), site)
            return [(st, ('st', None, (site, 'unit'), ()))]
        if nm == 'add' and len(args) > 1 and isinstance(dty, int) and T.stringy(dty):
            return [(st, self.mk(('fmt',) + tuple(p for a, _ in args for p in self.pieces(T.term(st, a))), dty))]
        if nm in ('eq', 'ne') and len(args) > 1 and T.stringy(args[0][1]) and T.stringy(args[1][1]):
            a, b = tm, T.term(st, args[1][0])
            if a[0] == 'lit':
                a, b = b, a
            if b[0] != 'lit':
                return None
            c = ('isv', ('streq', a, b[1]), (1,), (0, 1))
            return [(st, ('b', c if nm == 'eq' else neg(c)))]
        if nm == 'contains' and tm and tm[0] == 'arr' and len(args) == 2:
            c = ('c', False)
            x = T.deref(st, args[1][0])
            for y in tm[1:]:
                if y[0] == 'int' and x is not None and x[0] == 'i':
                    e = ceq(x[1].addc(-y[1]))
                elif y[0] == 'lit' and T.stringy(args[1][1]):
                    e = ('isv', ('streq', T.term(st, x), y[1]), (1,), (0, 1))
                else:
                    return None
                c = engine.cor(c, e)
            return [(st, ('b', c))]
        if nm == 'is_empty' and len(args) == 1 and T.stringy(t0):
            return [(st, ('b', ('isv', ('streq', tm, ''), (1,), (0, 1))))]
        return None

    def pieces(self, t):
        return t[1:] if t[0] == 'fmt' else (t,) if t[0] == 'lit' else (('show', 'display', (), t),)

    # ---------------------------------------------------------------- functions of the tool
    def local(self, fr, st, f, callee, args, site, dty, t):
        """calls that reach no sink and have nothing to do with paths or strings are passed over; recursive ones are closed by
        induction over safe paths"""
        E, T = self.E, self.T
        if f.get('kind') == 'closure':
            return None
        if ident(f) not in self.rec:
            if ident(f) in self.reach or f['crate'].bin or isinstance(dty, int) and self.texty(dty) or any(
                    isinstance(ti, int) and self.cr.T[ti]['k'] == 'ref' and self.cr.T[ti].get('mut') and self.texty(ti) for _, ti in args):
                return None
            return [(st, E.fresh(self.cr, (site, 'passed'), dty))] if isinstance(dty, int) else None
        new = []
        for a, ti in args:
            if ti is not None and self.pathlike(ti) and self.cr.T[ti]['k'] != 'param':
                ok = self.ispath(st, a)
                self.sites.setdefault((fr.fn['path'], f['path'], t.get('ln') if t else None), []).append((ok, T.term(st, a)))
                new.append(self.mk(SAFE, ti))
            else:
                x = T.deref(st, a)
                new.append(a if x is not None and x[0] in ('clo', 'fn') or a is not None and a[0] == 'ref' and x is None else
                           self.wide(st, a, ti, site))
        if ident(f) in self.active:
            return [(st, E.fresh(self.cr, (site, 'again'), dty))]
        self.active.append(ident(f))
        try:
            r = E.try_inline(fr, st, f, new, site, E.make_subst(fr, callee, f), t)
        finally:
            self.active.pop()
            E.cr = self.cr = fr.cr
        if r is None:
            self.fail.append((f, None, 'a recursive function is not understood'))
        return r

    def wide(self, st, a, ti, site):
        return self.E.fresh(self.cr, (site, 'any', ti), ti) if ti is not None else a

    def texty(self, ti):
        s = self.cr.T[ti]['s']
        return bool(re.search(r'\b(String|str|Path|PathBuf|char|bool|OsStr|OsString|Cow)\b', s))


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def ident(f):
    return (f['crate'].bin, f['key'])


def show(t):
    return re.sub(r'\s+', ' ', str(t))[:160]


def run(ctx):
    B = ctx.bin
    main = [f for f in B.fns if f['path'] == 'main' and 'blocks' in f]
    ctx.need(main, 'main')
    X = Export(ctx, B)
    X.fail = []
    E, T = X.E, X.T
    # functions that reach a call that changes the file system, and recursive ones
    has, adj = {}, {}
    n = 0
    for cr in ctx.crates.values():
        for f in cr.fns:
            ks = adj.setdefault(ident(f), set())
            if f['kind'] == 'closure':
                adj.setdefault((cr.bin, f['key'].rsplit('::{closure', 1)[0]), set()).add(ident(f))
            for b in f.get('blocks', ()):
                c = cg.callee(cr, b['t'])
                if c is None:
                    continue
                nm = c.get('rp', c['p'])
                if SINK.match(nm) or SINK.match(re.sub(r'::<[^:]*>$', '', nm)):
                    has.setdefault(ident(f), []).append((nm.rsplit('::', 1)[1], b['t'].get('ln'), f))
                    n += 1
                g = E.local_fn(type('F', (), {'cr': cr})(), c)
                if g is not None:
                    ks.add(ident(g))
    ctx.floor('calls that change the file system', n, 2)
    X.reach = set(has)
    ch = True
    while ch:
        ch = False
        for k, v in adj.items():
            if k not in X.reach and v & X.reach:
                X.reach.add(k)
                ch = True
    X.rec = {k for s in cg.sccs(list(adj), lambda k: [x for x in adj.get(k, ()) if x in adj]) for k in s
             if len(s) > 1 or k in adj.get(k, ())}
    # what the user states as the output directory
    cmds = [a for p, a in B.adts.items() if a['kind'] == 'enum' and p.endswith('Commands')]
    ctx.need(cmds, 'the commands of the tool')
    fields = [(v['n'], f['n']) for a in cmds for v in a['variants'] for f in v['f'] if re.search('out', f['n'])]
    ctx.need(fields, 'the output directory argument')

    def isout(key):
        k = key
        while isinstance(k, tuple):
            if len(k) >= 2 and k[-1] in {f for _, f in fields}:
                return True
            k = k[0] if k else None
        return False
    X.isout = isout
    t0 = T.term

    def term(st, v, d=0):
        r = t0(st, v, d)
        return SAFE if isinstance(r, tuple) and isout(r) else r
    T.term = term
    sts, fr = E.paths(main[0], lambda *a: None, 'c08')
    seen = set()
    for (path, nm, ln), rs in sorted(X.sites.items(), key=str):
        bad = [t for ok, t in rs if not ok]
        ctx.ob(not bad, 'path:%s:%s' % (path, nm), '%s:%s (%s)' % (main[0]['file'], ln, path),
               '%s is given a path that may be outside of the output directory: %s' % (nm, show(bad[0])) if bad else '',
               '%s: %s only within the output directory' % (path, nm))
        seen.add((path, nm, ln))
    for k, v in has.items():
        for nm, ln, f in v:
            ctx.ob(any(s[0] == f['path'] and s[2] == ln for s in seen), 'walked:%s:%s' % (f['path'], nm), '%s:%s (%s)' % (f['file'], ln, f['path']),
                   'a call that changes the file system was not reached by the analysis')
    for f, ln, m in X.fail:
        ctx.ob(False, 'component:%s' % f['path'], '%s:%s (%s)' % (f['file'], ln, f['path']), m)
    nc = 0
    for f, ln, t in X.wait:
        nc += 1
        m = X.may(t)
        ctx.ob(not m, 'component:%s' % f['path'], '%s:%s (%s)' % (f['file'], ln, f['path']),
               'a path component may hold %s: %s' % (sorted(m), show(t)), 'component without separators')
    ctx.floor('path components', nc, 2)
