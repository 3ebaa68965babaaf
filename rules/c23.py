"""What the XML readers and writers exchange: under which name each field is read, what stands for it when it is absent,
and under which name it is written.  Both tables are computed from the MIR of the readers and writers (generated or written by
hand) by a def-use analysis with dominating comparisons, and compared with each other and with spec/xml.json."""
import json
import os

LEVEL = 'other'
TECHNIQUE = 'def-use provenance over the MIR: values are followed from next_value, under the dominating comparison of the key, ' \
            'to the fields of the result, and from the fields of self to serialize_field; compared with a table of the format'
NOTE = 'Every type of an XML document, all its attributes and elements, in both directions.'
ASSUMPTIONS = ['quick-xml and serde follow their documented contracts: next_value answers with the value of the key that next_key '
               'answered with last, names that start with @ are attributes, missing_field answers with None for an Option',
               'spec/xml.json follows the published list of the format']
SAME = {'branch', 'from', 'into', 'to_string', 'to_owned', 'clone', 'deref', 'as_ref', 'as_deref', 'as_mut', 'as_str',
        'into_owned', 'borrow', 'take', 'into_iter', 'from_output', 'cloned', 'copied', 'by_ref', 'as_slice'}
OKWRAP = {'Some', 'Ok', 'Continue', 'Borrowed', 'Owned'}
ERRWRAP = {'Err', 'Break'}


class Fn:
    def __init__(self, L, f):
        self.L = L
        self.f = f
        self.B = f['blocks']
        self.argc = f.get('argc', 0)
        self.defs = {}
        for b, blk in enumerate(self.B):
            for s in blk['s']:
                if s['k'] == '=':
                    self.defs.setdefault(s['pl']['l'], []).append((b, 'rv', s))
            t = blk['t']
            if t['k'] == 'call':
                self.defs.setdefault(t['dst']['l'], []).append((b, 'call', t))
        self.succ = [[] for _ in self.B]
        for b, blk in enumerate(self.B):
            t = blk['t']
            s = list(t.get('to') or []) if not isinstance(t.get('to'), int) else [t['to']]
            if t['k'] == 'switch':
                s = [x[1] for x in t['vals']] + ([t['else']] if t.get('else') is not None else [])
            self.succ[b] = [x for x in s if x is not None]
        self.reach0 = self.reach(())
        muts = {}
        for l, ds in self.defs.items():
            for b, k, d in ds:
                if k == 'rv' and d['rv']['k'] == 'ref' and d['rv'].get('mut'):
                    muts[l] = d['rv']['pl']['l']
        self.changed = {}
        for b in self.reach0:
            t = self.B[b]['t']
            if t['k'] == 'call':
                n = self.callee(t).get('name') or ''
                if n in SAME or n.startswith('next_') or n in ('size_hint', 'serialize_field', 'skip_field'):
                    continue
                for a in t['args']:
                    x = a.get('m') or a.get('c')
                    y = x['l'] if x and not x.get('p') else None
                    while y in muts:
                        y = muts[y]
                        self.changed.setdefault(y, set()).add(n)
        self._dom = {}

    def reach(self, blocks, edges=(), start=0):
        blocks = set(blocks)
        edges = set(edges)
        if start in blocks:
            return set()
        seen = {start}
        work = [start]
        while work:
            b = work.pop()
            for s in self.succ[b]:
                if s not in seen and s not in blocks and (b, s) not in edges:
                    seen.add(s)
                    work.append(s)
        return seen

    def edom(self, edge, b):
        """whether every way to block b takes the edge"""
        k = edge
        if k not in self._dom:
            self._dom[k] = self.reach0 - self.reach((), (edge,))
        return b in self._dom[k]

    def callee(self, t):
        k = t['f'].get('k')
        if not k:
            return {}
        return self.L.T[k['t']].get('callee') or {}

    # ---- provenance
    def path(self, pl):
        """the fields of a place, without references and the wrappers Some, Ok and Continue; None for errors"""
        out = []
        ps = pl.get('p') or []
        i = 0
        while i < len(ps):
            p = ps[i]
            if p == '*':
                pass
            elif isinstance(p, dict) and 'd' in p:
                vn = p.get('vn')
                if vn in ERRWRAP:
                    return None
                if vn in OKWRAP:
                    i += 1
                else:
                    out.append('#' + str(vn))
            elif isinstance(p, dict) and 'f' in p:
                out.append(str(p.get('n', p['f'])))
            else:
                out.append('?')
            i += 1
        return tuple(out)

    def operand(self, o, path, seen):
        if 'k' in o:
            k = o['k']
            return {('str', k['str'])} if 'str' in k else {('const', k.get('v'))}
        pl = o.get('c') or o.get('m')
        p = self.path(pl)
        if p is None:
            return set()
        return self.origins(pl['l'], p + path, seen)

    def origins(self, l, path=(), seen=frozenset()):
        if (l, path) in seen or len(seen) > 400:
            return set()
        seen = seen | {(l, path)}
        out = {('changed', n) for n in self.changed.get(l, ())}
        if 1 <= l <= self.argc:
            out.add(('arg', l, path))
        for b, k, d in self.defs.get(l, ()):
            if b not in self.reach0:
                continue
            dp = self.path(d['pl'] if k == 'rv' else d['dst'])
            if dp is None:
                continue
            if dp != path[:len(dp)]:
                if path == dp[:len(path)]:
                    out.add(('part', dp))
                continue
            rest = path[len(dp):]
            if k == 'call':
                out |= self.call(b, d, rest, seen)
                continue
            rv = d['rv']
            if rv['k'] == 'use' or rv['k'] == 'cast' and 'Pointer' in str(rv.get('ck')):
                out |= self.operand(rv['o'], rest, seen)
            elif rv['k'] in ('ref', 'copyref', 'rawptr', 'addr'):
                p = self.path(rv['pl'])
                if p is not None:
                    out |= self.origins(rv['pl']['l'], p + rest, seen)
            elif rv['k'] == 'agg':
                out |= self.agg(b, rv, rest, seen)
            elif rv['k'] == 'discr':
                p = self.path(rv['pl'])
                out |= {('discr', x) for x in self.origins(rv['pl']['l'], p or (), seen)}
            else:
                out.add(('other', rv['k']))
        return out

    def agg(self, b, rv, rest, seen):
        vn = rv.get('vn')
        ps = str(rv.get('path', ''))
        if ps.startswith('core::') or ps.startswith('alloc::'):
            if vn in ERRWRAP:
                return set()
            if vn == 'None':
                return set()
            if vn in OKWRAP:
                return self.operand(rv['os'][0], rest, seen)
        names = rv.get('fn') or [str(i) for i in range(len(rv['os']))]
        if rest and rest[0].startswith('#'):
            if rest[0] != '#' + str(vn):
                return set()
            rest = rest[1:]
        if rest:
            if rest[0] in names:
                return self.operand(rv['os'][names.index(rest[0])], rest[1:], seen)
            return {('other', 'field')}
        return {('agg', ps, vn, b, tuple(names), json.dumps(rv['os']), rv.get('vi'))}

    def call(self, b, t, rest, seen):
        c = self.callee(t)
        n = c.get('name') or str(c.get('p', '?')).rsplit('::', 1)[-1]
        if n in ('from_residual',):
            return set()
        if n in SAME and t['args']:
            return self.operand(t['args'][0], rest, seen)
        if n in ('next_value', 'next_value_seed'):
            return {('nv', b, rest)}
        if n == 'missing_field':
            return {('missing', x[1]) for x in self.operand(t['args'][0], (), seen) if x[0] == 'str'}
        if n in ('default', 'new') and not t['args']:
            return {('default',)}
        if n in ('unwrap_or_default',) and t['args']:
            return self.operand(t['args'][0], rest, seen) | {('default',)}
        if n == 'len' and t['args']:
            return {('len', x) for x in self.operand(t['args'][0], (), seen)}
        if n == 'deserialize':
            out = self.L.T[self.L.T[t['f']['k']['t']]['out']]
            x = out.get('args', [None])[0]
            return {('rest', self.L.T[x].get('path') if isinstance(x, int) else None, rest)}
        g = self.L.by_path.get(c.get('rp') or c.get('p'))
        if g is not None and g.get('blocks') and len(seen) < 200 and c.get('local'):
            out = set()
            for y in self.X.fn(g).origins(0, rest, frozenset((('in', b, i) for i in range(len(seen) + 40)))):
                if y[0] == 'arg':
                    out |= self.operand(t['args'][y[1] - 1], y[2], seen)
                elif y[0] in ('str', 'const', 'default', 'missing', 'call'):
                    out.add(y)
                else:
                    out.add(('other', y[0]))
            return out
        return {('call', c.get('p', '?'))}

    def res(self, o):
        out = set()
        for y in o:
            if y[0] == 'nv':
                out |= {('value', x) + ((y[2],) if y[2] else ()) for x in self.keys(y[1])} or {('value', None)}
            else:
                out.add(y)
        return out

    # ---- comparisons that every way to a block has passed
    def tests(self):
        """(edge, origins of the left side, string) of each comparison with a string, and (edge, origins, variant)"""
        if hasattr(self, '_tests'):
            return self._tests
        out = []
        for b, blk in enumerate(self.B):
            t = blk['t']
            if t['k'] != 'switch' or b not in self.reach0:
                continue
            o = t['o'].get('c') or t['o'].get('m')
            if o is None or o.get('p'):
                continue
            for _, k, d in self.defs.get(o['l'], ()):
                if k == 'call' and self.callee(d).get('name') in ('eq', 'ne') and len(d['args']) == 2:
                    a = [self.operand(x, (), frozenset()) for x in d['args']]
                    lit = [x[1] for y in a for x in y if x[0] == 'str']
                    left = [y for y in a if not any(x[0] == 'str' for x in y)]
                    if len(lit) != 1 or len(left) != 1:
                        continue
                    zero = [y for v, y in t['vals'] if v == 0]
                    one = t.get('else') if t.get('else') is not None else [y for v, y in t['vals'] if v == 1][0]
                    tgt = one if self.callee(d)['name'] == 'eq' else zero[0]
                    out.append(((b, tgt), left[0], lit[0]))
                elif k == 'rv' and d['rv']['k'] == 'discr':
                    pl = d['rv']['pl']
                    ty = self.place_ty(pl)
                    vs = {}
                    if not ty or ty.startswith('core::') or ty.startswith('alloc::'):
                        continue
                    a = self.L.adts.get(ty)
                    rest = set(range(len(a['variants']))) if a else set()
                    for v, y in t['vals']:
                        vs.setdefault(y, set()).add(v)
                        rest.discard(v)
                    if t.get('else') is not None:
                        vs.setdefault(t['else'], set()).update(rest)
                    for y, s in vs.items():
                        if len(s) == 1:
                            out.append(((b, y), {('enum', ty)}, next(iter(s))))
        self._tests = out
        return out

    def place_ty(self, pl):
        t = None
        for p in reversed(pl.get('p') or []):
            if isinstance(p, dict) and 't' in p:
                t = p['t']
                break
            if p != '*':
                break
        if t is None:
            t = self.f['locals'][pl['l']]
            t = t.get('t') if isinstance(t, dict) else t
        d = self.L.T[t]
        while d.get('k') == 'ref' or d.get('path') is None and d.get('in') is None and isinstance(d.get('t'), int):
            d = self.L.T[d['t']]
        return d.get('path') or ''

    def guards(self, b):
        return [(left, v) for e, left, v in self.tests() if self.edom(e, b)]

    def keys(self, b):
        """the names under which block b is reached, as far as the key is concerned"""
        out = set()
        for left, v in self.guards(b):
            if isinstance(v, int) and ('enum' in {x[0] for x in left}):
                ty = next(iter(left))[1]
                tab = self.X.fields.get(ty)
                if tab is not None:
                    out |= tab.get(v, set()) or {None}
            elif isinstance(v, str) and all(x[0] == 'call' and x[1].rsplit('::', 1)[-1].startswith('next_key') for x in left):
                out.add(v)
        return out


class Xml:
    def __init__(self, ctx):
        self.ctx = ctx
        self.L = ctx.lib
        self.fields = {}
        self.fns = {}
        self.strict = set()
        self.readers = {}
        self.writers = {}
        for f in self.L.fns:
            if f.get('file') != 'src/xml.rs' or 'blocks' not in f:
                continue
            if f.get('name') == 'visit_str':
                self.names(f)
        for f in self.L.fns:
            if f.get('file') != 'src/xml.rs' or 'blocks' not in f:
                continue
            if f.get('name') == 'visit_map':
                F = self.fn(f)
                for x in F.origins(0):
                    if x[0] == 'agg':
                        self.readers.setdefault(x[1], []).append((F, x))
            elif f.get('name') == 'serialize' and str(f.get('trait', '')).endswith('ser::Serialize'):
                p = self.L.T[f['self']].get('path') if isinstance(f.get('self'), int) else None
                self.writers.setdefault(p, []).append(self.fn(f))

    def fn(self, f):
        k = f['key']
        if k not in self.fns:
            self.fns[k] = Fn(self.L, f)
            self.fns[k].X = self
        return self.fns[k]

    def names(self, f):
        """the variants that the names of the fields are turned into"""
        F = self.fn(f)
        for x in F.origins(0):
            if x[0] == 'agg':
                vi = x[6]
                lits = {v for left, v in F.guards(x[3]) if isinstance(v, str) and left == {('arg', 2, ())}}
                self.fields.setdefault(x[1], {}).setdefault(vi, set()).update(lits)
        if any(F.callee(b['t']).get('name') in ('unknown_field', 'unknown_variant') for b in F.B if b['t']['k'] == 'call'):
            self.strict.add(f['path'].split('::__FieldVisitor')[0].split(' for ')[-1].split('>')[0])

    # ---- reading
    def read(self, ty, content=False):
        """{variant: {field: set of origins}} of a type, and the place"""
        rs = self.readers.get(ty, [])
        out = {}
        for F, x in rs:
            _, _, vn, b, names, os_, _ = x
            d = out.setdefault(vn, {})
            for n, o in zip(names, json.loads(os_)):
                got = F.operand(o, (), frozenset())
                d.setdefault(n, set()).update(self.flat(F, got, d))
            tags = {(v, k) for left, v in F.guards(b) if isinstance(v, str) for y in F.res(left) if y[0] == 'value' for k in (y[1],)}
            d.setdefault('#tag', set()).update(tags)
        return out, (rs[0][0].f if rs else None)

    def flat(self, F, got, d):
        out = set()
        for y in F.res(got):
            if y[0] == 'rest' and y[1]:
                sub, _ = self.read(y[1])
                if len(sub) == 1 and len(y[2]) == 1:
                    out |= next(iter(sub.values())).get(y[2][0], {('unknown',)})
                    continue
                out.add(('rest', y[1]))
            elif y[0] == 'agg':
                for n, o in zip(y[4], json.loads(y[5])):
                    d.setdefault('%s' % n, set()).update(self.flat(F, F.operand(o, (), frozenset()), d))
                out.add(('made', y[1]))
            else:
                out.add(y)
        return out

    # ---- writing
    def write(self, F):
        """what one writer writes: (kind, name, origins of the value, block)"""
        out = []
        ends = []
        for b, blk in enumerate(F.B):
            t = blk['t']
            if t['k'] != 'call' or b not in F.reach0:
                continue
            n = F.callee(t).get('name') or ''
            a = [F.operand(x, (), frozenset()) for x in t['args']]
            strs = [next(iter(x))[1] if len(x) == 1 and next(iter(x))[0] == 'str' else None for x in a]
            if n in ('serialize_field', 'serialize_entry') and len(a) >= 3:
                out.append(('field', strs[1], a[2], b))
            elif n == 'serialize_tagged_newtype' and len(a) == 6:
                out.append(('tagged', '%s=%s' % (strs[3], strs[4]), a[5], b))
            elif n == 'serialize_struct':
                out.append(('struct', strs[1], set(), b))
            elif n == 'end':
                ends.append(b)
            elif n == 'serialize':
                out.append(('sub', None, a[0], b))
            elif n.startswith('serialize_') or n in ('collect_str', 'collect_seq', 'collect_map'):
                out.append(('odd', n, set(), b))
        return out, ends

    def table(self, ty, put=None, depth=0):
        """{name: what is written under it}, name of the element; put: how an origin inside a helper reads outside"""
        put = put or (lambda o: o)
        fs = self.writers.get(ty, [])
        if len(fs) != 1 or depth > 4:
            return None
        F = fs[0]
        out = {}
        ws, ends = self.write(F)
        for kind, name, o, b in ws:
            o = put(o)
            if kind == 'field':
                tx = self.canon(o, put, depth)
                skips = self.skips(F, b, put, o)
                left = F.reach({w[3] for w in ws if w[0] == 'field' and w[1] == name},
                               [e for e, k in skips if k])
                if any(e in left for e in ends) or not ends:
                    tx += ' (not always)'
                if any(not k and F.edom(e, b) for e, k in skips):
                    tx += ' if present'
                out[name] = tx if name not in out or out[name] == tx else out[name] + ' or ' + tx
            elif kind == 'tagged':
                out[name] = self.canon(o, put, depth)
            elif kind == 'struct':
                out['#element'] = name
            elif kind == 'sub':
                for y in o:
                    if y[0] == 'agg':
                        t = self.table(y[1], inner(F, y, put), depth + 1)
                        if t is None:
                            out['?'] = 'unknown'
                        else:
                            out.update(t)
                    else:
                        out['?'] = self.canon({y}, put, depth)
                if not all(x in F.reach0 - F.reach({b}) for x in range(len(F.B)) if F.B[x]['t']['k'] == 'return' and x in F.reach0):
                    out['?'] = 'not always'
            else:
                out['?'] = name
        return out

    def skips(self, F, b, put, o):
        """(edge, whether it is the one of an absent or empty value) of the tests of the same value"""
        out = []
        for c, blk in enumerate(F.B):
            t = blk['t']
            if t['k'] != 'switch':
                continue
            x = t['o'].get('c') or t['o'].get('m')
            for _, k, d in F.defs.get(x['l'], ()) if x is not None else ():
                if k == 'call':
                    n = F.callee(d).get('name')
                    if n in ('is_none', 'is_empty', 'is_some') and put(F.operand(d['args'][0], (), frozenset())) == o:
                        zero = [y for v, y in t['vals'] if v == 0]
                        if len(zero) == 1 and t.get('else') is not None:
                            yes, no = (t['else'], zero[0]) if n != 'is_some' else (zero[0], t['else'])
                            out += [((c, yes), True), ((c, no), False)]
                elif k == 'rv' and d['rv']['k'] == 'discr' and F.place_ty(d['rv']['pl']) == 'core::option::Option':
                    q = F.path(d['rv']['pl'])
                    if q is not None and put(F.origins(d['rv']['pl']['l'], q)) == o:
                        for v, y in t['vals']:
                            out.append(((c, y), v == 0))
                        if t.get('else') is not None and len(t['vals']) == 1:
                            out.append(((c, t['else']), t['vals'][0][0] == 1))
        return out

    def canon(self, o, put, depth):
        if len(o) != 1:
            return '?%d' % len(o)
        y = next(iter(o))
        if y[0] == 'arg' and y[1] == 1:
            return '.'.join(y[2])
        if y[0] == 'len':
            return 'len(%s)' % self.canon({y[1]}, put, depth)
        if y[0] == 'agg':
            fs = self.writers.get(y[1], [])
            if len(fs) == 1:
                ws, _ = self.write(fs[0])
                for kind, name, p, b in ws:
                    if kind == 'tagged':
                        p2 = y[7](p) if len(y) > 7 else p
                        if p2:
                            return '%s %s' % (name, self.canon(p2, put, depth))
        return '?' + str(y[0])


def inner(F, y, put):
    """how an origin relative to the helper value y, made in F, reads in terms of self of F"""
    names, os_ = y[4], json.loads(y[5])

    def f(o):
        out = set()
        for x in o:
            if x[0] == 'arg' and x[1] == 1:
                p = x[2]
                if p and p[0].startswith('#'):
                    if p[0] != '#' + str(y[2]):
                        continue
                    p = p[1:]
                if p and p[0] in names:
                    for z in put(F.operand(os_[names.index(p[0])], p[1:], frozenset())):
                        out.add(z + (inner(F, z, put),) if z[0] == 'agg' and len(z) == 7 else z)
                    continue
                out.add(('other', 'helper'))
            elif x[0] == 'len':
                out |= {('len', z) for z in f({x[1]})}
            else:
                out.add(x)
        return out
    return f


def tables(ctx):
    X = Xml(ctx)
    L = ctx.lib
    todo = ['xml::Document']
    res = {}
    while todo:
        ty = todo.pop(0)
        if ty in res:
            continue
        a = L.adts[ty]
        R, rf = X.read(ty)
        rd = {}
        for v in a['variants']:
            got = R.get(v['n'])
            tys = {x['n']: x['t'] for x in v['f']}
            for x in list(tys.values()):
                for p in paths_of(L, x):
                    if p in L.adts and p.startswith('xml::') and p not in todo:
                        todo.append(p)
            if a['kind'] == 'enum':
                for x in v['f']:
                    q = L.adts.get(L.T[x['t']].get('path'))
                    if q:
                        tys.update({z['n']: z['t'] for z in q['variants'][0]['f']})
            if got is None:
                rd[v['n']] = None
                continue
            d = {}
            for n, o in got.items():
                if n == '#tag':
                    if o:
                        d['#tag'] = ' '.join(sorted('%s=%s' % (k, t) for t, k in o))
                    continue
                if any(x[0] == 'made' for x in o):
                    continue
                vals = {x[1] for x in o if x[0] == 'value' and len(x) == 2}
                odd = {x[0] for x in o if x[0] not in ('value', 'missing', 'default')} | \
                      {'missing' for x in o if x[0] == 'missing' and x[1] not in vals} | {'part' for x in o if x[0] == 'value' and len(x) > 2}
                ts = L.T[tys[n]]['s'] if n in tys else '?'
                opt = ts.startswith('core::option::Option<')
                absent = 'empty' if ('default',) in o and not opt else 'none' if opt else 'an error'
                if len(vals) != 1 or odd or None in vals:
                    d[n] = '?%s %s' % ('/'.join(sorted(map(str, vals))), ' '.join(sorted(odd)))
                else:
                    d[n] = '%s: %s, absent: %s' % (next(iter(vals)), ts, absent)
            rd[v['n']] = d
        res[ty] = {'read': rd, 'write': X.table(ty)}
    return X, res


def paths_of(L, t, d=0):
    x = L.T[t]
    out = [x['path']] if x.get('path') else []
    if d < 5:
        for y in x.get('args') or []:
            if isinstance(y, int):
                out += paths_of(L, y, d + 1)
    return out


def split(s):
    return s[:-len(' if present')] if s and s.endswith(' if present') else s


def lists(L, ty):
    """the fields of a type that are lists: whether an empty one is written makes no difference"""
    a = L.adts.get(ty)
    return {x['n'] for v in a['variants'] for x in v['f'] if L.T[x['t']].get('path') == 'alloc::vec::Vec'} if a else set()


def conditions(ctx, X, ty):
    """a result is answered with whatever the values are: only their presence and the type of the node decide"""
    for F, x in X.readers.get(ty, []):
        for b, blk in enumerate(F.B):
            t = blk['t']
            if t['k'] != 'switch' or b not in F.reach0 or not any(F.edom((b, s), x[3]) for s in set(F.succ[b])):
                continue
            if len({s for s in F.succ[b] if s in F.reach0 and F.B[s]['t']['k'] != 'unreachable'}) < 2:
                continue
            o = t['o'].get('c') or t['o'].get('m')
            ok = False
            for _, k, d in F.defs.get(o['l'], ()) if o is not None else ():
                if k == 'rv' and d['rv']['k'] == 'discr':
                    ok = True
                elif k == 'rv' and d['rv']['k'] == 'use' and 'k' in d['rv']['o']:
                    ok = True           # drop flags
                elif k == 'call':
                    n = F.callee(d).get('name')
                    a = [F.res(F.operand(y, (), frozenset())) for y in d['args']]
                    left = set().union(*a)
                    ok = n in ('is_some', 'is_none') or n in ('eq', 'ne') and all(
                        y[0] == 'str' or y[0] == 'call' and 'next_key' in y[1] or y[0] == 'value' and y[1] == '@Type' for y in left)
                if not ok:
                    break
            ctx.ob(ok, 'condition:%s:%s' % (ty, x[2]), ctx.where(F.f, t.get('ln')),
                   'whether a %s is read depends on more than which attributes are there' % x[2])


def rwhere(ctx, X, ty):
    rs = X.readers.get(ty, [])
    return ctx.where(rs[0][0].f) if rs else 'src/xml.rs'


def run(ctx):
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'xml.json')) as fh:
        spec = json.load(fh)
    text, spec = spec['text'], spec['types']
    L = ctx.lib
    ctx.adt('xml::Document')
    X, got = tables(ctx)
    for ty in sorted(set(got) | set(spec)):
        if not ctx.ob(ty in spec and ty in got, 'type:' + ty, 'src/xml.rs', 'the type %s is not the one of the format' % ty):
            continue
        S, G = spec[ty], got[ty]
        rs = X.readers.get(ty, [])
        rw = ctx.where(rs[0][0].f) if rs else 'src/xml.rs'
        for v in sorted(set(S['read']) | set(G['read'])):
            s, g = S['read'].get(v) or {}, G['read'].get(v) or {}
            for n in sorted(set(s) | set(g)):
                ctx.ob(s.get(n) == g.get(n), 'read:%s:%s:%s' % (ty, v, n), rw,
                       '%s of %s is read from %s, the format has %s' % (n, v, g.get(n, 'nothing'), s.get(n, 'nothing')),
                       '%s.%s <- %s' % (v, n, g.get(n)))
        ctx.ob(ty.rsplit('::', 1)[-1] not in {p.rsplit('::', 1)[-1] for p in X.strict}, 'strict:' + ty, rw,
               'an attribute that is not known makes %s unreadable' % ty)
        conditions(ctx, X, ty)
        ws = X.writers.get(ty, [])
        ww = ctx.where(ws[0].f) if ws else 'src/xml.rs'
        li = lists(L, ty)
        sw, gw = S['write'] or {}, G['write'] or {}
        for n in sorted(set(sw) | set(gw)):
            if n == '#element' and ty != 'xml::Document':
                continue
            a, b = sw.get(n), gw.get(n)
            if split(a) in li:
                a, b = split(a), split(b)
            ctx.ob(a == b, 'write:%s:%s' % (ty, n), ww, '%s of a %s is written as %s, the format has %s' % (n, ty, b or 'nothing', a or 'nothing'),
                   '%s %s <- %s' % (ty, n, b))
    for ty, names in text.items():
        for nm in names:
            for v, d in (got.get(ty) or {'read': {}})['read'].items():
                for n, x in (d or {}).items():
                    if x.startswith(nm + ': '):
                        ctx.ob('alloc::string::String' in x, 'text:%s:%s' % (ty, nm), rwhere(ctx, X, ty),
                               '%s of %s may be any text, and is read as %s' % (nm, v, x.split(': ')[1].split(',')[0]))
    n = 0
    for ty, g in got.items():
        for v, d in g['read'].items():
            n += len(d or {})
        n += len(g['write'] or {})
    ctx.floor('names of attributes and elements, read or written', n, 100)
    ctx.cov['types'] = len(got)
