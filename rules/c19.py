"""What export-playlists writes.  Rows, maps and lists as in C18; an export is followed from the function that creates files:
every node of the tree is walked once, every playlist gets one file, and every entry of the playlist, in the order of the ordered
map it was put in, is either not a known track or becomes exactly one line, made of the path of this track."""
import re
import cg
import lists
import terms
from dom import K, V, sym
from rules import c18, c08

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR with lists by place, counted map operations and lines; induction over the recursion'
NOTE = ('All databases: any number of playlists, entries and tracks. Given the rows are read in order (C20) and the tree is '
        'that of the database (C18). Runs that fail are not part of it.')
ASSUMPTIONS = c18.ASSUMPTIONS + ['BTreeMap iterates in the order of its keys']


class Files(c18.Tables):
    def __init__(self, ctx, L):
        super().__init__(ctx, L)
        E = self.E
        self.T = terms.Terms(ctx.crates, E)
        E.split_loops = True
        E.intercept = self.intercept
        self.len = {}
        self.nlines = self.ncreate = self.nfound = 0

    def intercept(self, fr, st, name, callee, args, site, dty, t):
        r = super().intercept(fr, st, name, callee, args, site, dty, t)
        return r if r is not None else self.T.intercept(fr, st, name, callee, args, site, dty, t)

    # ---------------------------------------------------------------- counting
    def start(self, st, lid, n):
        c = st.mem.get(('evn', lid))
        if c is None or c == ('i', K(0)):
            st.mem[('evn', lid)] = ('i', K(0))
        else:               # dealt with before
            st.mem[('evn', lid)] = ('op', ('lost', 'again'), None)
        self.len[lid] = n

    def event(self, st, lid, i, what):
        """place i of a list is dealt with"""
        c = st.mem.get(('evn', lid))
        if c is None or c[0] != 'i' or not lists.eq(st, c[1], i):
            st.mem[('evn', lid)] = ('op', ('lost', what), None)
        else:
            st.mem[('evn', lid)] = ('i', c[1].addc(1))

    def all_dealt(self, st, pred):
        """the lists that have been begun, and whether all of their places have been dealt with"""
        return [(k[1], v[0] == 'i' and lists.eq(st, v[1], self.len[k[1]])) for k, v in st.mem.items() if k[0] == 'evn' and pred(k[1])]

    # ---------------------------------------------------------------- calls
    def more(self, fr, st, name, callee, args, site, dty, t):
        E, L = self.E, self.L
        f = E.local_fn(fr, callee)
        nm = name.rsplit('::', 1)[-1]
        lib = f is None and name.startswith('rekordcrate::')
        if lib and name.endswith('::get_playlists') and isinstance(dty, int):
            lid = ('tree',)
            vt = L.T[L.T[dty]['args'][0]]['args'][0]
            self.rows[lid] = vt
            s2 = st.copy()
            x = ('seq', ('xl', lid, K(0)), c18.size(lid), None)
            return [(st, self.result(st, dty, site, True, x)), (s2, self.result(s2, dty, site, False))]
        if lib and nm not in ('iter_rows', 'into_string', 'deref', 'clone') and isinstance(dty, int):
            if L.T[dty].get('path') == 'core::result::Result':
                s2 = st.copy()
                return [(st, self.result(st, dty, site, True, E.fresh(L, ('lib', nm), L.T[dty]['args'][0]))), (s2, self.result(s2, dty, site, False))]
            return [(st, E.fresh(L, ('lib', nm), dty))]
        if nm in ('deref', 'as_ref') and name.startswith('<rekordcrate::') and len(args) == 1 and isinstance(dty, int):
            x = self.deref(st, args[0][0])
            w = self.where(st, x)
            if w is not None and L.T[dty]['k'] == 'ref':
                k = x[1] if x[0] == 'op' else x[2]
                return [(st, ('ref', ('o', (k, '*'), L.T[dty]['t']), (), False))]
        if nm in ('flat_map', 'filter_map') and len(args) == 2 and args[1][0] is not None and args[1][0][0] == 'clo':
            g = L.by_key.get(args[1][0][1])
            if self.find(st, args[0][0])[1] is not None and g is not None and \
                    L.T[g['locals'][0]['t']].get('path') == 'core::option::Option':
                return [(st, self.mk('filter_map', **{'in': args[0][0], 'f': args[1][0]}))]
        if nm == 'collect' and args and isinstance(dty, int) and L.T[dty].get('path') == 'alloc::vec::Vec':
            r = self.kept(fr, st, args[0][0], site, dty)
            if r is not None:
                return r
        r = super().more(fr, st, name, callee, args, site, dty, t)
        if r is not None:
            if nm in ('iter', 'into_iter', 'iter_mut') and len(r) == 1 and self.isx(r[0][1]) and r[0][1][2][1] == 'list':
                self.begun(r[0][0], r[0][1])
            return r
        if not args or args[0][0] is None or f is not None:
            return None
        v = args[0][0]
        x = self.deref(st, v)
        om = x if x is not None and x[0] == 'st' and isinstance(x[2], tuple) and x[2][0] == 'omap' else None
        if om is not None and nm in ('values', 'iter', 'into_iter', 'into_values', 'keys'):
            lid = om[2][1]
            it = self.slice(lid, K(0), c18.size(lid), True, False)
            self.begun(st, it)
            if nm in ('iter', 'into_iter'):
                it = self.mk('pair', **{'in': it})
            return [(st, it)] if nm != 'keys' else None
        if nm in ('iter', 'into_iter') and isinstance(args[0][1], int) and self.find(st, v)[1] is None:
            b = self.lst(st, v)
            if b is not None:
                it = self.slice(b[0], b[1], b[1].add(b[2]), v[0] == 'ref', v[0] == 'ref' and v[3])
                self.begun(st, it)
                return [(st, it)]
            el = self.eltype(args[0][1])
            if el is not None and x is not None and x[0] == 'seq' and not isinstance(x[1], str):
                lid = ('seq', x[1])
                self.rows[lid] = el
                it = self.slice(lid, K(0), x[2], v[0] == 'ref', False)
                self.begun(st, it)
                return [(st, it)]
        if name.startswith('std::path::PathBuf::push') and len(args) == 2:
            b = self.T.term(st, args[0][0])
            if v[0] == 'ref':
                pl = v
                while True:
                    y = E.load(st, L, pl[1], pl[2])
                    if y is None or y[0] != 'ref':
                        break
                    pl = y
                E.store(st, fr, pl[1], pl[2], self.T.make(('Path::join', b, self.T.term(st, args[1][0])), L.T[args[0][1]]['t']), site)
                return [(st, ('st', None, (site, 'unit'), ()))]
        if 'OpenOptions' in name and nm in ('append', 'truncate', 'create_new'):
            b = args[1][0] if len(args) > 1 else None
            on = b is not None and b[0] == 'b' and not E.assume(st.copy(), b[1], False)
            if nm == 'append' and (b is None or b[0] != 'b' or E.assume(st.copy(), b[1])):
                self.fail('append', 'a file is added to')
            elif nm != 'append' and on:
                st.mem[('trunc', 0)] = ('fn', 'on')
            return None
        if c08.SINK.match(name) or c08.SINK.match(re.sub(r'::<[^:]*>$', '', name)):
            if 'File' in name or 'OpenOptions' in name:
                c = st.mem.get(('files', 0))
                st.mem[('files', 0)] = ('i', c[1].addc(1)) if c is not None and c[0] == 'i' else ('op', ('lost',), None)
                if 'OpenOptions' in name and ('trunc', 0) not in st.mem:
                    self.fail('truncate', 'a file is opened without taking away what was in it')
                self.ncreate += 1
            elif 'create_dir' not in name:
                self.fail('sink:%s' % nm, '%s is called while playlists are exported' % name)
            return None
        if nm in ('write_fmt', 'write_all', 'write', 'write_str', 'write_vectored', 'set_len', 'seek') and 'io::' in name:
            s2 = st.copy()
            if nm == 'write_fmt' and 'stdio' not in name and not re.search(r'Std(out|err)', name):
                self.line(st, self.T.term(st, args[1][0]))
            elif 'stdio' not in name:
                self.fail('write', 'something that is not understood is written: %s' % nm)
            if isinstance(dty, int) and L.T[dty].get('path') == 'core::result::Result':
                return [(st, self.result(st, dty, site, True, ('st', None, (site, 'unit'), ()))), (s2, self.result(s2, dty, site, False))]
        return None

    def step(self, fr, st, it, site, back=False):
        if self.isx(it) and it[2][1] == 'pair':
            r = self.step(fr, st, self.get(it, 'in'), site, back)
            if r is None:
                return None
            return [(s, self.put(it, **{'in': y}), tag, ('st', None, (site, 'pair'), (
                (0, ('ref', ('o', (site, 'key'), None), (), False)), (1, x))) if tag == 'some' else None) for s, y, tag, x in r]
        return super().step(fr, st, it, site, back)

    def kept(self, fr, st, it, site, dty):
        """the known tracks of a playlist, put into a list"""
        x = self.find(st, it)[1]
        n = 0
        while x is not None and self.isx(x) and x[2][1] != 'list' and n < 6:
            x = self.get(x, 'in')
            n += 1
        if x is None or not self.isx(x) or x[2][2][0] != 'entries' or n == 0:
            return None
        lid = ('kept', x[2][2], site)
        ok = [True]

        def body(s, item):
            y = self.deref(s, item)
            if y is None or y[0] != 'op' or y[1][:2] != ('path of', x[2][2]):
                ok[0] = False
            else:
                self.event(s, y[1][1], y[1][2], 'kept')
            return [(s, None)]
        r = self.drive(fr, st.copy(), it, site, body)
        if r is None or not ok[0]:
            return None
        self.rows[lid] = self.L.T[dty]['args'][0]
        for s, _, end in r:
            self.start(s, lid, c18.size(lid))
        return [(s, ('seq', ('xl', lid, K(0)), c18.size(lid), None)) for s, _, end in r]

    def item(self, st, lid, i, site):
        if lid[0] == 'kept' and not self.changed(st, lid):
            self.E.add_fact(st, i)
            o = ('path', site)
            st.mem[o] = ('op', ('path of', lid, i), None)
            return ('ref', o, (), False)
        return super().item(st, lid, i, site)

    def eltype(self, ti):
        t = self.L.T[ti]
        while t['k'] == 'ref':
            t = self.L.T[t['t']]
        if t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec':
            return t['args'][0]
        return t.get('t') if t['k'] in ('slice', 'array') else None

    def begun(self, st, it):
        b, e = self.get(it, 'b')[1], self.get(it, 'e')[1]
        lid = it[2][2]
        if b == K(0) and not (lid[0] == 'rows'):
            self.start(st, lid, e)

    # ---------------------------------------------------------------- what maps hold
    def held(self, fr, st, m, r, key, n, site, dty):
        E, L = self.E, self.L
        if r[1] == 'put in order' and r[2] == ('playlist_id',) and r[3] == ('entry_index',) and r[4] == ('track_id',) and \
                self.isplaylist(st, key):
            lid = ('entries', n)
            mt = L.T[L.T[L.T[dty]['args'][0]]['t']]
            self.rows[lid] = mt['args'][1]
            s0, s1 = st.copy(), st
            out = []
            s0.mem[('entries', 0)] = ('fn', 'none')
            out.append((s0, E.new_enum(s0, dty, (site, 'get', 0), 0, [])))
            o = ('omap', site)
            s1.mem[o] = ('st', None, ('omap', lid), ())
            s1.mem[('entries', 0)] = ('fn', 'some')
            out.append((s1, E.new_enum(s1, dty, (site, 'get', 1), 1, [('0', ('ref', o, (), False))])))
            return out
        if r[1] == 'put' and r[2] == ('id',) and r[3][-2:] == ('file_path', 'text'):
            w = self.where(st, key)
            if w is None or w[0][0] != 'entries' or any(p not in ('0',) for p in w[2]):
                return None
            s0, s1 = st.copy(), st
            self.event(s0, w[0], w[1], 'unknown track')
            o = ('path', site)
            s1.mem[o] = ('op', ('path of', w[0], w[1]), None)
            self.nfound += 1
            return [(s0, E.new_enum(s0, dty, (site, 'get', 0), 0, [])),
                    (s1, E.new_enum(s1, dty, (site, 'get', 1), 1, [('0', ('ref', o, (), False))]))]
        return None

    def number(self, st, v):
        """the number inside of an id; the inside of types of the library is not known here"""
        v = self.deref(st, v)
        if v is not None and v[0] == 'st' and not v[3]:
            v = ('op', v[2], v[1])
        if v is not None and v[0] == 'op' and isinstance(v[2], int) and self.L.T[v[2]].get('path', '').endswith('Id'):
            return V(sym((v[1], '0'), 0, (1 << 32) - 1))
        return super().number(st, v)

    def isplaylist(self, st, key):
        """the id of the playlist that is walked"""
        v = self.deref(st, key)
        k = v[1] if v is not None and v[0] == 'op' else v[2] if v is not None and v[0] == 'st' and not v[3] else None
        return isinstance(k, tuple) and len(k) == 2 and k[1] == 'id' and isinstance(k[0], tuple) and k[0][0] == ('the node',)

    def line(self, st, t):
        """a line is written"""
        ts = set(terms.find(t, lambda x: len(x) == 3 and x[0] == 'path of'))
        shows = [p for p in t[1:] if p[0] == 'show'] if t[0] == 'fmt' else []
        lit = [p[1] for p in t[1:] if p[0] == 'lit'] if t[0] == 'fmt' else []
        if t[0] != 'fmt' or len(ts) != 1 or len(shows) != 1 or lit != ['\\n'] and lit != ['\n'] or t[-1][0] != 'lit':
            return self.fail('line', 'what is written is not one line with the path of one track: %s' % c08.show(t))
        s = shows[0]
        pt = next(iter(ts))
        x = s[3]
        if s[1] != 'display' or s[2] != () or not (x[0] == 'Path::display' and x[1][0] == 'Path::join'):
            return self.fail('line', 'a line is not a path that is joined to the export: %s' % c08.show(x))
        base, rel = x[1][1], x[1][2]
        strip = terms.find(rel, lambda y: len(y) == 3 and isinstance(y[0], str) and y[0].endswith('strip_prefix'))
        n = ('T', ('str::strip_prefix', pt, ('int', 47)))
        ok = rel == pt and st.vars.get(n) == frozenset({0}) or len(strip) == 1 and strip[0][1:] == (pt, ('int', 47)) and not self.others(rel, strip[0])
        if not ok:
            return self.fail('line', 'the path of a track is changed: %s' % c08.show(rel))
        if not terms.find(base, lambda y: y == ('lib', 'get_path')) or terms.find(
                base, lambda y: isinstance(y, tuple) and y and isinstance(y[0], str) and '::' in y[0] and y[0] != 'Path::canonicalize'):
            return self.fail('line', 'the path of a track is not taken relative to the export: %s' % c08.show(base))
        self.nlines += 1
        self.ctx.ob(True, 'line', self.at, '', 'a line is the path of the track, below the export: %s' % c08.show(x)[:150])
        self.event(st, pt[1], pt[2], 'line')

    def others(self, t, x):
        """calls in a term besides x"""
        if t == x:
            return False
        return isinstance(t, tuple) and (bool(t) and isinstance(t[0], str) and '::' in t[0] or any(self.others(y, x) for y in t))

    # ---------------------------------------------------------------- the walk
    def recursive(self, fr, st, f, callee, args, site, dty, t):
        E, L = self.E, self.L
        ns = [i for i, (a, ti) in enumerate(args) if isinstance(ti, int) and self.nodety(ti)]
        if len(ns) != 1:
            return None
        j = ns[0]
        w = self.where(st, args[j][0])
        res = isinstance(dty, int) and L.T[dty].get('path') == 'core::result::Result'
        if f['key'] not in self.active:
            vals = [a for a, _ in args]
            nt = args[j][1]
            vals[j] = E.fresh(L, ('the node',), nt)
            if vals[j][0] == 'ref':
                vals[j] = ('ref', ('node',), (), False)
            self.later.append((fr, st.copy(), f, vals, site, callee, t, args[j][1], res))
        s2 = st.copy()
        if w is None:
            self.fail('walk', 'the walk is given something that is not a node of the tree')
        else:
            self.event(st, w[0], w[1], 'walk')
        unit = ('st', None, (site, 'unit'), ())
        if not res:
            return [(st, unit)]
        return [(st, self.result(st, dty, site, True, unit)), (s2, self.result(s2, dty, site, False))]

    def walk(self, fr, s0, f, vals, site, callee, t, nt, res):
        """the walk, for any node"""
        E, L = self.E, self.L
        if f['key'] in self.active:
            return
        self.active.append(f['key'])
        if s0.mem.get(('node',)) is None:
            s0.mem[('node',)] = E.fresh(L, ('the node',), L.T[nt].get('t', nt))
        for k in [k for k in s0.mem if k[0] == 'evn']:
            del s0.mem[k]
        s0.mem[('files', 0)] = ('i', K(0))
        for k in (('entries', 0), ('trunc', 0)):
            s0.mem.pop(k, None)
        r = E.try_inline(fr, s0, f, vals, site, E.make_subst(fr, callee, f), t)
        self.active.pop()
        for s, v in r or ():
            if res and (v is None or v[0] != 'en' or not E.assume(s, ('isv', v[2], (0,), (0, 1)))):
                if v is None or v[0] != 'en':
                    self.fail('walk', 'what the walk gives is not understood')
                continue
            self.walked(s)
        if r is None:
            self.fail('walk', 'the walk is not understood')

    def nodety(self, ti):
        t = self.L.T[ti]
        while t['k'] == 'ref':
            t = self.L.T[t['t']]
        return t.get('path', '').endswith('PlaylistNode')

    def walked(self, s):
        """a node has been walked"""
        vs = s.vars.get(('the node',))
        a = self.nodeadt
        kinds = {a['variants'][i]['n'] for i in vs} if vs is not None else set()
        if len(kinds) != 1:
            return self.fail('walk', 'a node is walked without a look at what it is')
        kind = next(iter(kinds))
        n = s.mem.get(('files', 0))
        for lid, ok in self.all_dealt(s, lambda lid: True):
            if not ok:
                self.fail('dealt:%s' % lid[0], 'not every %s is dealt with exactly once and in order' % (
                    'entry of a playlist becomes its line or is no known track, and this' if lid[0] == 'entries' else 'child of a folder'))
        ls = [k[1] for k in s.mem if k[0] == 'evn']
        if kind == 'Folder':
            if not any(lid[0] == 'seq' and lid[1][-1] == 'children' for lid in ls):
                self.fail('children', 'the children of a folder are not walked')
        else:
            if n is None or n[0] != 'i' or n[1] != K(1):
                self.fail('file', 'a playlist does not become one file')
            e = s.mem.get(('entries', 0))
            if e is None or e == ('fn', 'some') and not any(lid[0] == 'entries' for lid in ls) or e[0] != 'fn':
                self.fail('entries', 'the entries of a playlist are not looked at')
        self.walks[kind] = self.walks.get(kind, 0) + 1
        self.ctx.ob(True, 'walked:%s' % kind, self.at, '', 'a way through the walk of a %s on which everything is dealt with once' % kind)


def run(ctx):
    B = ctx.bin
    X = Files(ctx, B)
    E = X.E
    X.rec = {k for k in c18.recursive_fns(B, E) if B.by_key[k]['kind'] != 'closure'}
    node = [a for cr in ctx.crates.values() for p, a in cr.adts.items() if p.endswith('device::PlaylistNode')]
    ctx.need(node, 'the nodes of the playlist tree')
    X.nodeadt = node[0]
    tops = set()
    for f in B.fns:
        for b in f.get('blocks', ()):
            c = cg.callee(B, b['t'])
            if c is not None:
                nm = c.get('rp', c['p'])
                if c08.SINK.match(nm) or c08.SINK.match(re.sub(r'::<[^:]*>$', '', nm)):
                    tops.add(re.sub(r'::\{closure.*', '', f['path']).split('::')[0])
    fns = [f for f in B.fns if f['path'] in tops and 'blocks' in f]
    ctx.need(len(fns) == 1, 'the function that exports playlists')
    f = fns[0]
    at = '%s:%s (%s)' % (f['file'], f['ln'], f['path'])
    X.at = at
    sts, fr = E.paths(f, lambda *a: None, 'c19')
    for x in X.later:
        X.walk(*x)
    good = 0
    for s in sts:
        v = s.mem.get((fr.id, 0))
        if v is None or v[0] != 'en' or not E.assume(s, ('isv', v[2], (0,), (0, 1))):
            continue
        good += 1
        ls = X.all_dealt(s, lambda lid: lid == ('tree',))
        ctx.ob(len(ls) == 1 and ls[0][1], 'tree', at, 'not every node at the top of the tree is walked exactly once',
               'every node of the tree is walked')
    ctx.floor('paths that export', good, 1)
    rules = {m: rs for m, rs in X.rules.items()}
    ctx.cov['maps'] = len(rules)
    for m, rs in rules.items():
        for r in rs:
            ctx.sample('every row of %s: %s' % (str(r[0])[:60], r[1:]))
    for k, msg in X.bad.items():
        ctx.ob(False, k, at, msg)
    for k in ('Folder', 'Playlist'):
        ctx.ob(X.walks.get(k, 0) > 0, 'kind:%s' % k, at, 'no %s is ever walked to its end' % k, 'a %s is walked' % k)
    ctx.floor('lines that are written', X.nlines, 1)
    ctx.floor('tracks that are looked up', X.nfound, 1)
    ctx.floor('files that are created', X.ncreate, 1)
